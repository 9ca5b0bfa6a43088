// C09: trace ids registered in processes and resolved by a consumer.
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "fakes.h"

using namespace vf;
using scalopus::EndpointTraceMapping;
using scalopus::ScopeTracingProvider;
using Names = std::unordered_map<unsigned int, std::string>;

struct Provider : ScopeTracingProvider
{
  using ScopeTracingProvider::ScopeTracingProvider;
  scalopus::TraceEventSource::Ptr makeSource() override { return nullptr; }
};
struct Process
{
  int pid;
  Names names;
  int mood{ 0 };  // 0 answers, 1 gone, 2 answers nonsense, 3 silent
  Data nonsense;
  FakeTransport::Ptr t;
};
static unsigned int trace_id(Case& c)
{
  static const std::vector<unsigned int> edges = { 0, 1, 2, 7, 255, 2147483647u, 2147483648u, 4294967295u, 4294967294u };
  switch (c.draw(3)) { case 0: return static_cast<unsigned int>(c.draw(6)); case 1: return c.pick(edges); default: return static_cast<unsigned int>(c.seed64()); }
}
static std::string trace_name(Case& c)
{
  if (c.chance(1, 10)) { auto b = c.bytes(c.draw(9)); return std::string(b.begin(), b.end()); }
  return any_name(c);
}
static std::string unknown(unsigned int id) { char b[40]; std::snprintf(b, sizeof b, "Unknown 0x%x", id); return b; }

static void split(Case& c)
{
  std::string name, series;
  const bool is_long = c.chance(1, 6);
  auto text = [&](std::size_t n) { if (is_long) n *= 12; std::string s = c.text(n), r; for (char ch : s) if (ch != '/') r += ch; return r; };
  name = text(8);
  std::string whole;
  const int kind = static_cast<int>(c.draw(3));
  std::string want = "count";
  if (kind == 0) whole = name;
  else if (kind == 1) whole = name + "/";
  else
  {
    series = c.text(8);
    whole = name + "/" + series;
    if (!series.empty()) want = series;
  }
  c.out() << "split '" << pbt::esc(whole) << "'";
  auto r = ScopeTracingProvider::splitCounterSeriesName(whole);
  c.check(r.first == name, "counter name '" + r.first + "' instead of '" + name + "'");
  c.check(r.second == want, "series name '" + r.second + "' instead of '" + want + "'");
  c.label("counter names");
  if (!whole.empty()) c.nontrivial(whole);
}

static void run(Case& c)
{
  if (c.chance(1, 3)) return split(c);
  auto& reg = scalopus::StaticStringTracker::getInstance();
  reg.clear();
  Names own;
  const int kind = static_cast<int>(c.draw(3));
  c.out() << (kind == 0 ? "direct:" : kind == 1 ? "loopback:" : "unix:");
  auto endpoint = std::make_shared<EndpointTraceMapping>();
  scalopus::TransportFactory::Ptr factory;
  scalopus::Transport::Ptr server, client;
  if (kind == 0)
  {
    auto ft = std::make_shared<FakeTransport>(FakeTransport::Answer());
    auto* raw = ft.get();
    ft->answer = [endpoint, raw](const std::string& n, const Data& in, Data& out) { return n == EndpointTraceMapping::name && endpoint->handle(*raw, in, out); };
    client = ft;
  }
  else
  {
    if (kind == 1) factory = std::make_shared<scalopus::TransportLoopbackFactory>();
    else factory = std::make_shared<scalopus::TransportUnixFactory>();
    server = factory->serve();
    if (!server) c.fail("could not serve");
    server->addEndpoint(endpoint);
    client = factory->connect(server->getAddress());
    if (!client) c.fail("could not connect");
  }
  auto consumer = EndpointTraceMapping::factory(client);
  auto manager = std::make_shared<FakeManager>();
  bool own_connected = c.boolean();
  if (own_connected) manager->add<EndpointTraceMapping>(client);
  std::vector<std::unique_ptr<Process>> procs;
  std::vector<int> left;  // ids of processes that left
  auto provider = std::make_shared<Provider>(manager);
  std::size_t resolved = 0, unknowns = 0, asked = 0, disturbed = 0;
  const std::size_t n = 2 + c.size(30);
  std::vector<unsigned int> ids{ 0, 1, 2 };
  for (std::size_t i = 0; i < n; i++)
  {
    switch (c.draw(7))
    {
      case 5:
        // a process leaves; another may get its id later on
        if (!procs.empty() && c.boolean())
        {
          std::size_t k = c.draw(procs.size());
          c.out() << " leave";
          manager->remove(procs[k]->t);
          left.push_back(procs[k]->pid);
          procs.erase(procs.begin() + static_cast<long>(k));
        }
        else if (own_connected)
        {
          c.out() << " leave(own)";
          manager->remove(client);
          own_connected = false;
        }
        break;
      case 0:
      case 1:
      {
        unsigned int id = trace_id(c);
        std::string name = trace_name(c);
        ids.push_back(id);
        std::size_t p = c.draw(procs.size() + 1);
        c.out() << " " << p << ":" << id << "='" << pbt::esc(name.substr(0, 12)) << "'";
        if (p == 0) { reg.insert(id, name); own[id] = name; }
        else procs[p - 1]->names[id] = name;
        break;
      }
      case 2:
        if (procs.size() < 4)
        {
          std::unique_ptr<Process> p(new Process());
          p->pid = static_cast<int>(1 + c.draw(1u << 22));
          if (!left.empty() && c.chance(1, 3)) p->pid = c.pick(left);
          if (p->pid == ::getpid()) break;
          bool dup = false;
          for (auto& q : procs) dup |= q->pid == p->pid;
          if (dup) break;
          Process* raw = p.get();
          p->t = std::make_shared<FakeTransport>([raw](const std::string& name, const Data& in, Data& out) {
            if (name != EndpointTraceMapping::name) return false;
            if (raw->mood == 3) return false;
            if (raw->mood == 2) { out = raw->nonsense; return true; }
            if (in != Data{ 'm' }) return false;
            json j = json::object();
            j["mapping"] = std::map<int, Names>{ { raw->pid, raw->names } };
            out = json::to_bson(j);
            return true;
          });
          manager->add<EndpointTraceMapping>(p->t);
          c.out() << " process";
          procs.push_back(std::move(p));
        }
        break;
      case 3:
        if (!procs.empty())
        {
          auto& p = procs[c.draw(procs.size())];
          p->mood = static_cast<int>(c.chance(1, 20) ? 3 : c.draw(3));
          p->t->up = p->mood != 1;
          if (p->mood == 2)
          {
            p->nonsense = nonsense_answer(c, "mapping", json{ { "mapping", { { "x", 1 } } }, { "other", 3 } });
          }
          c.out() << " mood" << p->mood;
        }
        break;
      case 4:
      {
        c.out() << " map";
        EndpointTraceMapping::ProcessTraceMap got;
        if (!eventually([&] { got = consumer->mapping(); return !got.empty(); })) c.fail_soft("the mapping was not obtained");
        c.check(got.size() == 1 && got.begin()->first == ::getpid(), "the mapping is not under the process id");
        c.check(got.begin()->second == own, "the mapping obtained has " + std::to_string(got.begin()->second.size()) + " entries, or others, for " + std::to_string(own.size()) + " registered");
        asked++;
        break;
      }
      default:
      {
        c.out() << " resolve";
        // a process that is slow to answer may be missing: ask again
        bool complete = false;
        ScopeTracingProvider::ProcessTraceMap map;
        for (int tries = 0; tries < 20 && !complete; tries++)
        {
          try { provider->updateMapping(); }
          catch (const std::exception& e) { c.fail(std::string("a process that can not be asked aborts updating the mapping: ") + e.what()); }
          map = provider->getMapping();
          complete = !own_connected || map.count(::getpid()) || kind == 0;
        }
        if (!complete) c.fail_soft("the mapping was not obtained");
        std::vector<std::pair<int, const Names*>> all;
        static const Names none;
        all.emplace_back(::getpid(), own_connected ? &own : &none);
        for (auto& p : procs)
        {
          if (p->mood == 0) all.emplace_back(p->pid, &p->names);
          else { disturbed++; }
        }
        all.emplace_back(0, &none);
        for (int pid : left)
        {
          bool again = false;
          for (auto& p : procs) again |= p->pid == pid;
          if (!again) all.emplace_back(pid, &none);
        }
        for (auto& pr : all)
          for (unsigned int id : ids)
          {
            auto it = pr.second->find(id);
            std::string want = it == pr.second->end() ? unknown(id) : it->second;
            std::string got = ScopeTracingProvider::getScopeName(map, pr.first, id);
            c.check(got == want, "id " + std::to_string(id) + " of process " + std::to_string(pr.first) + " resolves to '" + got + "' instead of '" + want + "'");
            if (it == pr.second->end()) unknowns++; else resolved++;
          }
        asked++;
      }
    }
  }
  client.reset();
  c.label("resolved", resolved);
  c.label("unknown", unknowns);
  c.label("resolved besides a process that does not answer", disturbed);
  if (asked && (resolved || !own.empty())) c.nontrivial();
}
PBT_MAIN(run)
