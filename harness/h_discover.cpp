// C06: discovery while servers, clients and unrelated sockets come and go.
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <sys/stat.h>
#include "common.h"

using namespace vf;
using scalopus::Destination;
using scalopus::Transport;
using scalopus::TransportFactory;

static std::string who(const Transport::Ptr& t)
{
  auto f = t->request("who", {});
  if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) return "";
  try { Data d = f->get(); return std::string(d.begin(), d.end()); } catch (const std::exception& e) { return std::string("error: ") + e.what(); }
}
static FnEndpoint::Ptr is(const std::string& me) { return std::make_shared<FnEndpoint>("who", [me](Transport&, const Data&, Data& out) { out.assign(me.begin(), me.end()); return true; }); }

// ------------------------------------------------------------------------------------------ unix
struct Server
{
  std::unique_ptr<Child> child;
  std::size_t hash;
  std::string text;
  pid_t pid;
  std::vector<Transport::Ptr> clients;
  std::vector<int> raw;
};
struct Programs
{
  std::vector<pid_t> pids;
  ~Programs() { for (pid_t p : pids) if (p > 0) ::kill(p, SIGKILL); }
};
static std::uint64_t number_in(const Destination::Ptr& d)
{
  std::string s = static_cast<std::string>(*d), digits;
  for (char ch : s) { if (ch >= '0' && ch <= '9') digits += ch; else if (!digits.empty()) break; }
  return digits.empty() ? ~0ull : std::strtoull(digits.c_str(), nullptr, 10);
}
static void unix_(Case& c)
{
  auto factory = std::make_shared<scalopus::TransportUnixFactory>();
  std::vector<std::unique_ptr<Server>> servers;
  Programs programs;  // started by servers
  std::set<pid_t> gone;
  std::vector<int> socks;
  std::set<std::uint64_t> foreign;  // numbers no server has
  std::vector<std::string> files;
  std::map<std::uint64_t, int> crowd;
  std::set<std::uint64_t> dispersed;
  std::string err;
  bool soft = false;
  std::size_t asked = 0, unrelated = 0, with_clients = 0, crowded = 0;
  const std::size_t n = 2 + c.draw(14);
  c.out() << "unix:";
  auto big = [&] { return 8000000 + c.draw(1000000); };  // above any process id
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    switch (c.draw(10))
    {
      case 9:
      {
        // many more servers, of which only the listening socket exists
        if (crowd.empty())
        {
          const std::size_t k = 1 + c.size(120);
          c.out() << " crowd" << k;
          for (std::size_t j = 0; j < k; j++)
          {
            const std::uint64_t num = 10000000 + static_cast<std::uint64_t>(::getpid()) * 200 + j;
            int s = raw_listen(std::to_string(num) + "_scalopus", 3);
            if (s >= 0) crowd[num] = s;
            // and one whose number differs in a high bit only (the one above is below 2^25)
            const std::uint64_t twin = num + (1ull << (25 + j % 6));
            s = j % 4 == 0 ? raw_listen(std::to_string(twin) + "_scalopus", 3) : -1;
            if (s >= 0) crowd[twin] = s;
          }
          // and ones whose number differs from that of a server in a high bit only
          for (auto& o : servers)
          {
            const std::uint64_t twin = static_cast<std::uint64_t>(o->pid) + (1ull << (24 + c.draw(7)));
            int s = raw_listen(std::to_string(twin) + "_scalopus", 3);
            if (s >= 0) crowd[twin] = s;
          }
        }
        else
        {
          c.out() << " disperse";
          for (auto& kv : crowd) { ::close(kv.second); dispersed.insert(kv.first); }
          crowd.clear();
        }
        break;
      }
      case 8:
        if (!servers.empty() && programs.pids.size() < 3)
        {
          // a program that the server's process starts is not the server, also when it outlives it
          auto& s = servers[c.draw(servers.size())];
          c.out() << " program";
          s->child->tell('p');
          pid_t p = -1;
          pollfd w{ s->child->from, POLLIN, 0 };
          if (::poll(&w, 1, static_cast<int>(kPatience * 1000)) <= 0 || ::read(s->child->from, &p, sizeof p) != sizeof p) { err = "a server could not start a program"; soft = true; }
          programs.pids.push_back(p);
        }
        break;
      case 0:
      case 1:
        if (servers.size() < 4)
        {
          c.out() << " serve";
          std::unique_ptr<Server> s(new Server());
          std::vector<int> inherited = socks;
          for (auto& o : servers) { inherited.insert(inherited.end(), o->raw.begin(), o->raw.end()); }
          for (auto& kv : crowd) inherited.push_back(kv.second);
          s->child.reset(new Child([inherited](int in, int out) {
            for (int f : inherited) ::close(f);
            auto f = std::make_shared<scalopus::TransportUnixFactory>();
            auto t = f->serve();
            if (!t) ::_exit(3);
            t->addEndpoint(is(std::to_string(::getpid())));
            auto a = t->getAddress();
            std::size_t h = a ? a->hash_code() : 0;
            std::string text = a ? static_cast<std::string>(*a) : "";
            std::uint32_t l = static_cast<std::uint32_t>(text.size());
            (void)!::write(out, &h, sizeof h);
            (void)!::write(out, &l, sizeof l);
            (void)!::write(out, text.data(), l);
            char ch = 0;
            while (::read(in, &ch, 1) == 1 && ch == 'p')
            {
              pid_t p = start_program();
              (void)!::write(out, &p, sizeof p);
            }
            if (ch == 'd')
            {
              t.reset();
              (void)!::write(out, "d", 1);
              (void)!::read(in, &ch, 1);
            }
          }));
          s->pid = s->child->pid;
          std::uint32_t l = 0;
          bool ok = ::read(s->child->from, &s->hash, sizeof s->hash) == sizeof s->hash && ::read(s->child->from, &l, 4) == 4;
          s->text.resize(l);
          if (!ok || ::read(s->child->from, &s->text[0], l) != static_cast<ssize_t>(l)) { err = "the server process did not start"; soft = true; }
          gone.erase(s->pid);
          servers.push_back(std::move(s));
        }
        break;
      case 2:
        if (!servers.empty())
        {
          std::size_t k = c.draw(servers.size());
          auto& s = servers[k];
          const int how = static_cast<int>(c.draw(3));
          c.out() << " end" << how;
          if (how == 0) s->child->end(SIGKILL);
          else if (how == 1) { s->child->tell('d'); if (s->child->hear() != 'd') { err = "a server could not be destroyed"; soft = true; } }
          else { s->child->tell('x'); s->child->end(0); }
          // the process that only destroyed its server must not be discovered either: it is kept until the next look
          auto dests = factory->discover();
          for (auto& d : dests) if (denotes(d, s->pid)) err = "a server that is gone is discovered";
          for (int f : s->raw) ::close(f);
          gone.insert(s->pid);
          servers.erase(servers.begin() + static_cast<long>(k));
        }
        break;
      case 3:
        if (!servers.empty())
        {
          auto& s = servers[c.draw(servers.size())];
          if (c.boolean()) { int f = raw_connect(s->pid); if (f >= 0) s->raw.push_back(f); c.out() << " raw"; }
          else
          {
            c.out() << " connect";
            auto d = find_destination(*factory, s->pid);
            if (!d) { err = "a served process is not discovered"; soft = true; break; }
            auto t = factory->connect(d);
            if (!t) { err = "could not connect to a discovered destination"; break; }
            if (c.boolean()) s->clients.push_back(t);
          }
        }
        break;
      case 4:
        if (!servers.empty())
        {
          auto& s = servers[c.draw(servers.size())];
          c.out() << " leave";
          s->clients.clear();
          for (int f : s->raw) ::close(f);
          s->raw.clear();
        }
        break;
      case 5:
      {
        // unrelated sockets with names that resemble a server's
        std::string name;
        std::uint64_t num = big();
        const std::string ns = std::to_string(num), me = std::to_string(::getpid()) + "-" + std::to_string(socks.size());
        int type = SOCK_STREAM;
        bool path = false;
        bool listens = true;
        switch (c.draw(11))
        {
          case 9: name = ns + "_scalopus"; type = SOCK_DGRAM; listens = false; break;
          case 10: name = ns + "_scalopus"; listens = false; break;
          case 0: name = me + "abc_scalopus"; break;
          case 1: name = ns + "_scalopus2"; break;
          case 2: name = ns + "x" + me + "_scalopus"; break;
          case 3: name = "x" + ns + "_scalopus"; break;
          case 4: name = me + " " + ns + " @" + ns + "_scalopus"; break;
          case 5: path = true; name = ns + "_scalopus"; break;
          case 6: path = true; name = "1 " + ns + " @" + ns + "_scalopus"; break;
          case 7: name = ns; break;
          default: name = "-" + ns + "_scalopus"; break;
        }
        foreign.insert(num);
        foreign.insert(0);
        int f = ::socket(AF_UNIX, type | SOCK_CLOEXEC, 0);
        sockaddr_un a;
        socklen_t l;
        if (path)
        {
          const char* dir = std::getenv("VERIF_SCRATCH");
          std::string p = std::string("u") + me;
          ::mkdir(p.c_str(), 0755);
          p += "/" + name;
          std::memset(&a, 0, sizeof a);
          a.sun_family = AF_UNIX;
          if (p.size() + 1 > sizeof a.sun_path) { ::close(f); break; }
          std::memcpy(a.sun_path, p.data(), p.size());
          l = static_cast<socklen_t>(sizeof(sa_family_t) + p.size() + 1);
          ::unlink(p.c_str());
          files.push_back(p);
        }
        else l = abstract_name(a, name);
        if (::bind(f, reinterpret_cast<sockaddr*>(&a), l) == 0 && (!listens || ::listen(f, 3) == 0)) { socks.push_back(f); unrelated++; c.out() << " unrelated'" << (path ? "/" : "@") << name << "'"; }
        else ::close(f);
        break;
      }
      default:
      {
        c.out() << " discover";
        // The kernel may skip or repeat an entry of its list when other sockets come and go while it is read, so only what
        // is wrong in each of several looks counts.
        std::vector<Destination::Ptr> dests;
        for (int look = 0; look < 6 && (look == 0 || (soft && !err.empty())); look++)
        {
        if (look > 0) std::this_thread::sleep_for(milliseconds(1 << look));
        err.clear();
        soft = false;
        dests = factory->discover();
        std::map<pid_t, int> seen;
        std::map<std::uint64_t, int> seen_crowd;
        std::map<std::size_t, std::string> hashes;
        for (auto& d : dests)
        {
          std::uint64_t num = number_in(d);
          if (crowd.count(num)) seen_crowd[num]++;
          else if (dispersed.count(num)) err = "a server that is gone is discovered";
          auto h = hashes.emplace(d->hash_code(), static_cast<std::string>(*d));
          if (!h.second && h.first->second != static_cast<std::string>(*d)) err = "two servers have destinations with the same hash code";
          if (foreign.count(num) || num == ~0ull) { err = "an unrelated socket is discovered as a server: " + static_cast<std::string>(*d); break; }
          for (pid_t p : gone) if (num == static_cast<std::uint64_t>(p)) err = "a server that is gone is discovered";
          for (auto& s : servers)
          {
            const bool same = num == static_cast<std::uint64_t>(s->pid);
            if (same) seen[s->pid]++;
            if (same != (d->hash_code() == s->hash)) err = "hash codes of destinations are equal for different servers or differ for the same";
            if (same && static_cast<std::string>(*d) != s->text) err = "the address of a server differs from the destination discovered for it";
          }
        }
        for (auto& s : servers)
        {
          // soft: the kernel may skip or repeat an entry of the list when others come and go while it is read
          if (!seen.count(s->pid) && err.empty()) { err = "a served process is not discovered"; soft = true; }
          if (seen[s->pid] > 1 && err.empty()) { err = "a served process is discovered " + std::to_string(seen[s->pid]) + " times"; soft = true; }
          if (!s->clients.empty() || !s->raw.empty()) with_clients++;
        }
        if (seen_crowd.size() != crowd.size() && err.empty()) { err = "of " + std::to_string(crowd.size()) + " listening servers " + std::to_string(seen_crowd.size()) + " are discovered"; soft = true; }
        }
        crowded += crowd.size() > 20;
        if (err.empty() && !servers.empty())
        {
          auto& s = servers[c.draw(servers.size())];
          for (auto& d : dests)
            if (number_in(d) == static_cast<std::uint64_t>(s->pid))
            {
              auto t = factory->connect(d);
              if (!t) { err = "could not connect to a discovered destination"; break; }
              std::string w = who(t);
              if (w.empty()) { err = "a discovered server does not answer"; soft = true; }
              else if (w != std::to_string(s->pid)) err = "a discovered destination reaches " + w + " instead of " + std::to_string(s->pid);
              auto a = t->getAddress();
              if (!a || a->hash_code() != s->hash || static_cast<std::string>(*a) != s->text) err = "the address of a client is not the destination of its server";
              break;
            }
        }
        asked++;
      }
    }
  }
  for (auto& s : servers) for (int f : s->raw) ::close(f);
  for (int f : socks) ::close(f);
  for (auto& kv : crowd) ::close(kv.second);
  for (auto& p : files) { ::unlink(p.c_str()); ::rmdir(p.substr(0, p.find('/')).c_str()); }
  servers.clear();
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("discoveries", asked);
  c.label("discoveries of many servers", crowded);
  c.label("programs started by servers", programs.pids.size());
  c.label("unrelated sockets", unrelated);
  c.label("discovered servers with clients", with_clients);
  if (asked) c.nontrivial();
}

// ------------------------------------------------------------------------------------------ loopback
static void loopback(Case& c)
{
  struct S { Transport::Ptr t; Destination::Ptr kept; std::string name; std::vector<Transport::Ptr> clients; };
  std::vector<std::unique_ptr<scalopus::TransportLoopbackFactory>> factories;
  factories.emplace_back(new scalopus::TransportLoopbackFactory());
  if (c.boolean()) factories.emplace_back(new scalopus::TransportLoopbackFactory());
  std::vector<std::vector<S>> servers(factories.size());
  std::vector<Destination::Ptr> stale;
  std::size_t asked = 0, next = 0;
  c.out() << "loopback:";
  const std::size_t n = 2 + c.size(40);
  std::string err;
  bool soft = false;
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    const std::size_t fi = c.draw(factories.size());
    auto& f = *factories[fi];
    auto& ss = servers[fi];
    switch (c.draw(6))
    {
      case 0:
      case 1:
      {
        c.out() << " serve" << fi;
        S s;
        s.t = f.serve();
        if (!s.t) { err = "could not serve"; break; }
        s.name = "s" + std::to_string(next++);
        s.t->addEndpoint(is(s.name));
        s.kept = s.t->getAddress();
        if (!s.kept) err = "a server has no address";
        ss.push_back(s);
        break;
      }
      case 2:
        if (!ss.empty())
        {
          std::size_t k = c.draw(ss.size());
          c.out() << " end" << fi;
          stale.push_back(ss[k].kept);
          ss.erase(ss.begin() + static_cast<long>(k));
        }
        break;
      case 3:
        if (!ss.empty())
        {
          auto& s = ss[c.draw(ss.size())];
          c.out() << " connect" << fi;
          auto t = f.connect(s.kept);
          if (!t) err = "could not connect to the address of a server";
          else if (c.boolean()) s.clients.push_back(t);
        }
        break;
      case 4:
        for (auto& d : stale)
          if (f.connect(d)) { err = "connected to a server that is gone"; }
        break;
      default:
      {
        c.out() << " discover" << fi;
        auto dests = f.discover();
        if (dests.size() != ss.size()) { err = std::to_string(dests.size()) + " destinations for " + std::to_string(ss.size()) + " servers"; break; }
        std::map<std::string, std::size_t> hashes;
        for (auto& d : dests)
        {
          auto t = f.connect(d);
          if (!t) { err = "could not connect to a discovered destination"; break; }
          std::string w = who(t);
          if (w.empty()) { soft = true; err = "a discovered server does not answer"; break; }
          for (auto& h : hashes) if (h.second == d->hash_code()) err = "two servers have destinations with the same hash code";
          hashes[w] = d->hash_code();
        }
        for (auto& s : ss)
        {
          if (!err.empty()) break;
          if (!hashes.count(s.name)) { err = "a server is not discovered"; break; }
          if (s.t->getAddress()->hash_code() != hashes[s.name] || s.kept->hash_code() != hashes[s.name]) err = "the address of a server differs from the destination discovered for it";
        }
        asked++;
      }
    }
  }
  servers.clear();
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("discoveries", asked);
  if (asked) c.nontrivial();
}
static void run(Case& c) { if (c.chance(1, 3)) loopback(c); else unix_(c); }
PBT_MAIN(run)
