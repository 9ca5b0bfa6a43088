// C07: the endpoint manager against a model of the servers.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "fakes.h"

using namespace vf;
using scalopus::Destination;
using scalopus::EndpointIntrospect;
using scalopus::EndpointManagerPoll;
using scalopus::Transport;

struct World;
struct Server
{
  std::size_t hash;
  int epoch;
  std::vector<std::string> names;
  int on_connect{ 0 };     // 0 fine, 1 nothing, 2 a transport that is not connected
  int on_introspect{ 0 };  // 0 fine, 1 the server dies, 2 nonsense
  Data nonsense;
  bool alive{ true };
  std::vector<std::weak_ptr<FakeTransport>> transports;
};
struct FakeDestination : Destination
{
  std::size_t h;
  explicit FakeDestination(std::size_t x) : h(x) {}
  operator std::string() const override { return "<" + std::to_string(h) + ">"; }
  std::size_t hash_code() const override { return h; }
};
struct World : scalopus::TransportFactory
{
  std::mutex m;
  std::map<std::size_t, std::shared_ptr<Server>> servers;
  int duplicates{ 0 };
  int connects{ 0 };
  std::vector<Destination::Ptr> discover() override
  {
    std::lock_guard<std::mutex> l(m);
    std::vector<Destination::Ptr> r;
    for (auto& s : servers) if (s.second->alive) for (int i = 0; i <= duplicates; i++) r.push_back(std::make_shared<FakeDestination>(s.first));
    return r;
  }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr& d) override
  {
    std::lock_guard<std::mutex> l(m);
    auto it = servers.find(d->hash_code());
    if (it == servers.end() || it->second->on_connect == 1 || !it->second->alive) return nullptr;
    auto s = it->second;
    auto t = std::make_shared<FakeTransport>(FakeTransport::Answer());
    auto* raw = t.get();
    t->answer = [s, raw](const std::string& name, const Data& in, Data& out) {
      if (name == "introspect")
      {
        if (s->on_introspect == 1)
        {
          s->alive = false;
          raw->up = false;
          throw scalopus::communication_error("Connection lost.");
        }
        if (s->on_introspect == 2) { out = s->nonsense; return true; }
        json j = json::object();
        j["endpoints"] = s->names;
        out = json::to_bson(j);
        return true;
      }
      std::string w = std::to_string(s->hash) + "/" + std::to_string(s->epoch);
      out.assign(w.begin(), w.end());
      return true;
    };
    if (s->on_connect == 2) t->up = false;
    s->transports.push_back(t);
    connects++;
    return t;
  }
};
static std::vector<std::string> gen_names(Case& c)
{
  std::set<std::string> s;
  static const std::vector<std::string> common = { "introspect", "process_info", "scope_tracing", "a", "b", "late", "null", "renamed", "", "aa" };
  std::size_t n = c.draw(7);
  for (std::size_t i = 0; i < n; i++) s.insert(c.draw(5) ? c.pick(common) : any_name(c));
  return std::vector<std::string>(s.begin(), s.end());
}
// An endpoint that can ask which server it reaches.
struct Asker : scalopus::Endpoint
{
  std::string n;
  explicit Asker(std::string x) : n(std::move(x)) {}
  std::string getName() const override { return n; }
  std::string ask()
  {
    if (!transport_) return "no transport";
    auto f = transport_->request("who", {});
    if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) return "nothing";
    Data d = f->get();
    return std::string(d.begin(), d.end());
  }
};

static void fake(Case& c)
{
  auto world = std::make_shared<World>();
  std::string err;
  bool soft = false;
  std::size_t looks = 0, failing = 0, replaced = 0, gained = 0;
  c.out() << "fake:";
  {
    auto manager = std::make_shared<EndpointManagerPoll>(world);
    std::map<std::string, int> made;
    std::vector<std::string> factories{ "a", "b", "process_info" };
    if (c.boolean()) factories.push_back("");
    std::mutex mm;
    for (auto& f : factories)
      manager->addEndpointFactory(f, [&, f](const Transport::Ptr& t) { auto e = std::make_shared<Asker>(f); e->setTransport(t); return e; });
    manager->addEndpointFactory("renamed", [](const Transport::Ptr& t) { auto e = std::make_shared<Asker>("other name"); e->setTransport(t); return e; });
    manager->addEndpointFactory("aa", [](const Transport::Ptr&) -> scalopus::Endpoint::Ptr { throw std::runtime_error("no endpoint can be made"); });
    manager->addEndpointFactory("null", [](const Transport::Ptr&) { return scalopus::Endpoint::Ptr(); });
    factories.push_back("renamed");
    factories.push_back("introspect");
    if (c.boolean()) manager->setLogger([](const std::string&) {});
    const bool polling = c.chance(1, 6);
    if (polling) { manager->startPolling(0.001); c.out() << " polling"; }
    int epochs = 0;
    const std::size_t n = 1 + c.size(25);
    for (std::size_t i = 0; i < n && err.empty(); i++)
    {
      std::unique_lock<std::mutex> l(world->m);
      switch (c.draw(8))
      {
        case 0:
        case 1:
        {
          // a server starts, possibly in the place of another
          auto s = std::make_shared<Server>();
          s->hash = c.draw(4) ? c.draw(5) : c.seed64();
          s->epoch = epochs++;
          s->names = gen_names(c);
          if (!polling)
          {
            s->on_connect = c.chance(1, 4) ? static_cast<int>(1 + c.draw(2)) : 0;
            s->on_introspect = c.chance(1, 5) ? static_cast<int>(1 + c.draw(2)) : 0;
            if (s->on_introspect == 2)
              s->nonsense = nonsense_answer(c, "endpoints", json{ { "endpoints", s->names }, { "other", 3 } });
            if (s->on_connect || s->on_introspect) failing++;
          }
          auto& old = world->servers[s->hash];
          if (old) { for (auto& w : old->transports) if (auto t = w.lock()) t->up = false; old->alive = false; replaced++; }
          old = s;
          c.out() << " start(" << (s->hash < 100 ? std::to_string(s->hash) : "h") << " names=" << s->names.size() << " c" << s->on_connect << " i" << s->on_introspect << ")";
          break;
        }
        case 2:
          if (!world->servers.empty())
          {
            auto it = std::next(world->servers.begin(), static_cast<long>(c.draw(world->servers.size())));
            c.out() << " stop";
            for (auto& w : it->second->transports) if (auto t = w.lock()) t->up = false;
            it->second->alive = false;
            world->servers.erase(it);
          }
          break;
        case 3:
          world->duplicates = static_cast<int>(c.draw(3));
          break;
        case 4:
          if (!world->servers.empty())
          {
            // a connection breaks although the server stays, or a server that could not be connected to recovers
            auto it = std::next(world->servers.begin(), static_cast<long>(c.draw(world->servers.size())));
            if (c.boolean()) { for (auto& w : it->second->transports) if (auto t = w.lock()) t->up = false; c.out() << " break"; }
            else { it->second->on_connect = 0; if (it->second->on_introspect == 2) it->second->on_introspect = 0; c.out() << " recover"; }
          }
          break;
        case 5:
          if (c.boolean())
          {
            // a server gains endpoints
            if (world->servers.empty()) break;
            auto& s = *std::next(world->servers.begin(), static_cast<long>(c.draw(world->servers.size())))->second;
            std::set<std::string> names(s.names.begin(), s.names.end());
            const auto before = names.size();
            for (auto& nm : gen_names(c)) names.insert(nm);
            s.names.assign(names.begin(), names.end());
            if (names.size() > before) gained++;
            c.out() << " gain";
          }
          else
          {
            // a factory is registered
            const auto f = c.pick(std::vector<std::string>{ "scope_tracing", "", "b", "late" });
            l.unlock();
            manager->addEndpointFactory(f, [f](const Transport::Ptr& t) { auto e = std::make_shared<Asker>(f); e->setTransport(t); return e; });
            if (std::find(factories.begin(), factories.end(), f) == factories.end()) factories.push_back(f);
            c.out() << " factory";
          }
          break;
        default:
        {
          l.unlock();
          c.out() << " manage";
          auto look = [&]() -> std::string {
            std::string err;
            auto te = manager->endpoints();
            std::lock_guard<std::mutex> l2(world->m);
            std::set<const Transport*> expected;
            for (auto& hs : world->servers)
            {
              auto& s = *hs.second;
              if (!s.alive || s.on_connect || s.on_introspect == 1) continue;
              std::vector<Transport::Ptr> mine;
              for (auto& w : s.transports) if (auto t = w.lock()) if (te.count(t)) mine.push_back(t);
              if (mine.size() != 1) return std::to_string(mine.size()) + " transports for one server";
              auto& t = mine[0];
              expected.insert(t.get());
              if (!t->isConnected()) return "a transport that is not connected is held";
              std::set<std::string> want;
              if (s.on_introspect == 0) for (auto& nm : s.names) for (auto& f : factories) if (f == nm) want.insert(nm);
              auto& eps = te[t];
              for (auto& e : eps)
              {
                if (!want.count(e.first)) return "an endpoint '" + e.first + "' that the server does not offer, or for which there is no factory";
                if (!e.second) return "an endpoint that is null";
                if (e.first != "introspect")
                {
                  auto a = std::dynamic_pointer_cast<Asker>(e.second);
                  if (!a || a->n != (e.first == "renamed" ? "other name" : e.first)) return "endpoint '" + e.first + "' was created by another factory";
                  if (a->getTransport() != t.get()) return "an endpoint is not attached to the transport of its server";
                  if (t->getEndpoint(a->getName()) != e.second) return "the transport does not have the endpoint '" + a->getName() + "'";
                  std::string w = a->ask();
                  if (w != std::to_string(s.hash) + "/" + std::to_string(s.epoch)) return "an endpoint reaches " + w;
                }
                else if (!std::dynamic_pointer_cast<EndpointIntrospect>(e.second)) return "the introspection endpoint is something else";
                else
                {
                  auto sup = std::static_pointer_cast<EndpointIntrospect>(e.second)->supported();
                  if (sup != s.names) return "introspection yields other names";
                }
              }
              if (eps.size() != want.size()) return "an endpoint is missing: " + std::to_string(eps.size()) + " of " + std::to_string(want.size());
            }
            for (auto& t : te)
              if (!expected.count(t.first.get()))
              {
                // only the connection to a server that died while it was asked may remain until the next time
                auto ft = std::dynamic_pointer_cast<FakeTransport>(t.first);
                bool dying = false;
                for (auto& hs : world->servers) if (hs.second->on_introspect == 1) for (auto& w : hs.second->transports) dying |= w.lock() == ft;
                if (!dying) return "a transport to a server that is gone, or could not be connected to, is held";
              }
            return "";
          };
          if (polling)
          {
            if (!eventually([&] { err = look(); return err.empty(); })) soft = true;
          }
          else
          {
            try { manager->manage(); }
            catch (const std::exception& e) { err = std::string("managing failed: ") + e.what(); }
            if (err.empty()) err = look();
          }
          looks++;
        }
      }
    }
    if (polling && c.boolean()) { manager->stopPolling(); manager->stopPolling(); if (c.boolean()) manager->startPolling(0.001); }
  }
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("looks", looks);
  c.label("failing servers", failing);
  c.label("replaced servers", replaced);
  c.label("servers that gain endpoints", gained);
  if (looks && world->connects) c.nontrivial();
}

// Real transports and introspection.
static void real(Case& c)
{
  auto factory = std::make_shared<scalopus::TransportLoopbackFactory>();
  auto manager = std::make_shared<EndpointManagerPoll>(factory);
  struct S { Transport::Ptr t; std::string id; std::set<std::string> names; bool managed{ false }; };
  std::vector<S> servers;
  c.out() << "loopback:";
  std::string err;
  bool soft = false;
  int next = 0;
  std::size_t looks = 0;
  for (const char* f : { "a", "b", "c" })
    manager->addEndpointFactory(f, [f](const Transport::Ptr& t) { auto e = std::make_shared<Asker>(f); e->setTransport(t); return e; });
  const std::size_t n = 1 + c.size(15);
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    switch (c.draw(6))
    {
      case 0:
      case 1:
        if (servers.size() < 5)
        {
          S s;
          s.t = factory->serve();
          s.id = std::to_string(next++);
          std::string id = s.id;
          for (auto& nm : gen_names(c))
          {
            if (nm == "introspect" || nm == "who") continue;
            s.t->addEndpoint(std::make_shared<FnEndpoint>(nm, FnEndpoint::Fn()));
            s.names.insert(nm);
          }
          if (c.boolean()) { s.t->addEndpoint(std::make_shared<FnEndpoint>("c", FnEndpoint::Fn())); s.names.insert("c"); }
          s.t->addEndpoint(std::make_shared<FnEndpoint>("who", [id](Transport&, const Data&, Data& out) { out.assign(id.begin(), id.end()); return true; }));
          s.names.insert("who");
          s.t->addEndpoint(std::make_shared<EndpointIntrospect>());
          s.names.insert("introspect");
          servers.push_back(s);
          c.out() << " serve";
        }
        break;
      case 4:
        if (!servers.empty())
        {
          auto& s = servers[c.draw(servers.size())];
          const std::string nm = c.pick(std::vector<std::string>{ "a", "b", "c", "other" });
          if (!s.t || s.names.count(nm)) break;
          s.t->addEndpoint(std::make_shared<FnEndpoint>(nm, FnEndpoint::Fn()));
          s.names.insert(nm);
          c.out() << " add";
        }
        break;
      case 2:
        if (!servers.empty())
        {
          // A loopback server lives as long as there are clients of it: one the manager is connected to stays.
          auto it = servers.begin() + static_cast<long>(c.draw(servers.size()));
          if (it->managed) { it->t.reset(); c.out() << " release"; }
          else { servers.erase(it); c.out() << " end"; }
        }
        break;
      default:
      {
        c.out() << " manage";
        manager->manage();
        for (auto& x : servers) x.managed = true;
        auto te = manager->endpoints();
        std::map<std::string, std::string> who;
        if (te.size() != servers.size()) { err = std::to_string(te.size()) + " transports for " + std::to_string(servers.size()) + " servers"; break; }
        std::set<std::string> met;
        for (auto& t : te)
        {
          if (!t.first->isConnected()) err = "a transport that is not connected is held";
          auto intro = t.second.find("introspect");
          if (intro == t.second.end()) { err = "no introspection endpoint"; soft = true; break; }
          Asker asker("x");
          asker.setTransport(t.first.get());
          std::string id = asker.ask();
          const S* s = nullptr;
          for (auto& x : servers) if (x.id == id) s = &x;
          if (!s) { err = "a transport reaches '" + id + "'"; break; }
          if (!met.insert(id).second) err = "two transports reach the same server";
          std::vector<std::string> sup;
          auto e = std::dynamic_pointer_cast<EndpointIntrospect>(intro->second);
          if (!eventually([&] { sup = e->supported(); return !sup.empty(); })) { err = "introspection is not answered"; soft = true; break; }
          if (sup.size() != s->names.size() || std::set<std::string>(sup.begin(), sup.end()) != s->names) err = "introspection yields other names than the endpoints of the server";
          for (auto& p : t.second)
          {
            if (!s->names.count(p.first)) err = "an endpoint that the server does not offer";
            if (auto a = std::dynamic_pointer_cast<Asker>(p.second)) if (a->ask() != s->id) err = "an endpoint reaches another server";
          }
          for (const char* f : { "a", "b", "c" }) if (s->names.count(f) && !t.second.count(f)) { soft = true; err = std::string("endpoint ") + f + " is missing"; }
        }
        looks++;
      }
    }
  }
  if (c.boolean()) { servers.clear(); manager.reset(); }
  else { manager.reset(); servers.clear(); }
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("looks", looks);
  if (looks && next) c.nontrivial();
}
// Server processes over the unix transport. Servers of others on this host may be found too and are ignored.
static void processes(Case& c)
{
  struct S { std::unique_ptr<Child> child; std::set<std::string> names; };
  std::map<std::string, S> servers;  // by process id
  std::set<std::string> gone;
  auto manager = std::make_shared<EndpointManagerPoll>(std::make_shared<scalopus::TransportUnixFactory>());
  for (const char* f : { "a", "b", "c" })
    manager->addEndpointFactory(f, [f](const Transport::Ptr& t) { auto e = std::make_shared<Asker>(f); e->setTransport(t); return e; });
  c.out() << "processes:";
  std::string err;
  std::size_t looks = 0, ended = 0;
  const std::size_t n = 2 + c.draw(7);
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    switch (c.draw(4))
    {
      case 0:
        if (servers.size() < 3)
        {
          S s;
          s.names = { "who", "introspect" };
          for (const char* f : { "a", "b", "c", "d" }) if (c.boolean()) s.names.insert(f);
          auto names = s.names;
          s.child.reset(new Child([names](int in, int out) {
            std::string id = std::to_string(::getpid());
            scalopus::TransportUnixFactory f;
            auto t = f.serve();
            if (!t) return;
            for (auto& nm : names)
            {
              if (nm == "introspect") t->addEndpoint(std::make_shared<EndpointIntrospect>());
              else t->addEndpoint(std::make_shared<FnEndpoint>(nm, [id](Transport&, const Data&, Data& o) { o.assign(id.begin(), id.end()); return true; }));
            }
            char ch = 'r';
            if (::write(out, &ch, 1) != 1) return;
            if (::read(in, &ch, 1) == 1 && ch == 'd') t.reset();
          }));
          if (s.child->hear() != 'r') c.fail_soft("a server process did not start");
          std::string id = std::to_string(s.child->pid);
          servers[id] = std::move(s);
          c.out() << " serve";
        }
        break;
      case 1:
        if (!servers.empty())
        {
          auto it = servers.begin();
          std::advance(it, static_cast<long>(c.draw(servers.size())));
          if (c.boolean()) { it->second.child->end(SIGKILL); c.out() << " kill"; }
          else { it->second.child->tell('d'); it->second.child->end(0); c.out() << " end"; }
          gone.insert(it->first);
          servers.erase(it);
          ended++;
        }
        break;
      default:
      {
        c.out() << " manage";
        // The loss of a server is noticed soon, but not at once.
        bool ok = eventually([&] {
          err.clear();
          manager->manage();
          std::map<std::string, int> reached;
          for (auto& t : manager->endpoints())
          {
            if (!t.first->isConnected()) { err = "a transport that is not connected is held"; continue; }
            std::string id;
            try
            {
              auto fut = t.first->request("who", {});
              if (fut->wait_for(std::chrono::seconds(2)) == std::future_status::ready) { auto d = fut->get(); id.assign(d.begin(), d.end()); }
            }
            catch (const std::exception&) { err = "a held transport fails"; continue; }
            auto s = servers.find(id);
            if (s == servers.end()) { if (gone.count(id)) err = "a transport reaches a server that is gone"; continue; }
            reached[id]++;
            std::set<std::string> want, have;
            for (const char* f : { "a", "b", "c", "introspect" }) if (s->second.names.count(f)) want.insert(f);
            for (auto& e : t.second) have.insert(e.first);
            if (want != have) err = "the endpoints held are not those of the server that the manager knows";
            for (auto& e : t.second) if (auto a = std::dynamic_pointer_cast<Asker>(e.second)) if (a->ask() != id) err = "an endpoint reaches another server";
          }
          for (auto& s : servers) if (reached[s.first] != 1) err = std::to_string(reached[s.first]) + " transports to a live server";
          return err.empty();
        }, 10);
        (void)ok;
        looks++;
      }
    }
  }
  manager.reset();
  if (!err.empty()) c.fail_soft(err);
  c.label("looks at processes", looks);
  c.label("server processes ended", ended);
  if (looks) c.nontrivial();
}
static void run(Case& c)
{
  switch (c.draw(40))
  {
    case 39: processes(c); break;
    case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 37: case 38: real(c); break;
    default: fake(c);
  }
}
PBT_MAIN(run)
