// C10: the process state and the thread states, changed directly, in scopes and remotely, against a model.
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "fakes.h"

using namespace vf;
using scalopus::EndpointTraceConfigurator;
using scalopus::TraceConfigurator;
using Conf = EndpointTraceConfigurator::TraceConfiguration;

struct Thrown {};
struct Model
{
  bool process{ true };
  std::map<unsigned long, bool> threads;  // known: they have asked for their state
};
struct T { std::unique_ptr<Actor> a; unsigned long tid; std::vector<bool> dummy; };

// What one thread does: a tree of operations, so that scopes nest.
struct Op { int kind; bool value; std::vector<Op> inner; bool throws; };
static Op gen_op(Case& c, int depth)
{
  Op o{ static_cast<int>(c.draw(depth > 0 ? 7 : 5)), c.boolean(), {}, false };
  if (o.kind >= 5)
  {
    std::size_t n = c.draw(4);
    for (std::size_t i = 0; i < n; i++) o.inner.push_back(gen_op(c, depth - 1));
    o.throws = c.chance(1, 4);
  }
  return o;
}
static void show(std::ostream& os, const Op& o)
{
  static const char* names[] = { "setThread", "getThread", "setProcess", "getProcess", "ptrThread", "scopeThread", "scopeProcess" };
  os << names[o.kind] << "(" << o.value << ")";
  if (o.kind >= 5)
  {
    os << "{";
    for (auto& i : o.inner) { show(os, i); os << " "; }
    os << "}" << (o.throws ? "!" : "");
  }
}
static void perform(const Op& o, Model& m, unsigned long tid, std::string& err)
{
  auto cfg = TraceConfigurator::getInstance();
  auto known = [&]() -> bool& { return m.threads.emplace(tid, true).first->second; };
  auto want = [&](bool is, bool should, const char* what) { if (is != should && err.empty()) err = std::string(what) + " is " + (is ? "true" : "false"); };
  switch (o.kind)
  {
    case 0: { bool& s = known(); want(cfg->setThreadState(o.value), s, "the previous thread state"); s = o.value; break; }
    case 1: want(cfg->getThreadState(), known(), "the thread state"); break;
    case 2: want(cfg->setProcessState(o.value), m.process, "the previous process state"); m.process = o.value; break;
    case 3: want(cfg->getProcessState(), m.process, "the process state"); want(cfg->getProcessStatePtr()->load(), m.process, "the shared process state"); break;
    case 4: want(cfg->getThreadStatePtr()->load(), known(), "the shared thread state"); break;
    default:
    {
      const bool proc = o.kind == 6;
      bool before = proc ? m.process : known();
      try
      {
        if (proc)
        {
          TRACING_CONFIG_PROCESS_STATE_RAII(o.value);
          m.process = o.value;
          for (auto& i : o.inner) perform(i, m, tid, err);
          if (o.throws) throw Thrown{};
        }
        else
        {
          TRACING_CONFIG_THREAD_STATE_RAII(o.value);
          m.threads[tid] = o.value;
          for (auto& i : o.inner) perform(i, m, tid, err);
          if (o.throws) throw Thrown{};
        }
      }
      catch (const Thrown&) {}
      if (proc) { m.process = before; want(cfg->getProcessState(), before, "the process state after a scope"); }
      else { m.threads[tid] = before; want(cfg->getThreadState(), before, "the thread state after a scope"); }
    }
  }
}

static void run(Case& c)
{
  auto cfg = TraceConfigurator::getInstance();
  cfg->setProcessState(true);
  Model m;
  std::vector<std::unique_ptr<Actor>> threads;
  std::vector<unsigned long> ended;
  std::size_t reused = 0, remote = 0, ops = 0;
  const int transport = static_cast<int>(c.draw(3));  // 0 loopback, 1 unix, 2 handled directly
  scalopus::TransportFactory::Ptr factory;
  if (transport == 0) factory = std::make_shared<scalopus::TransportLoopbackFactory>();
  else factory = std::make_shared<scalopus::TransportUnixFactory>();
  scalopus::Transport::Ptr server, client;
  auto endpoint = std::make_shared<EndpointTraceConfigurator>();
  if (transport == 2)
    client = std::make_shared<FakeTransport>([&](const std::string&, const Data& in, Data& out) { return endpoint->handle(*client, in, out); });
  else
  {
    server = factory->serve();
    if (!server) c.fail("could not serve");
    server->addEndpoint(endpoint);
    client = factory->connect(server->getAddress());
    if (!client) c.fail("could not connect");
  }
  auto consumer = EndpointTraceConfigurator::factory(client);
  std::string err;
  auto verify = [&] {
    if (!err.empty()) return;
    std::map<unsigned long, bool> got;
    for (auto& t : cfg->getThreadMap()) got[t.first] = t.second->load();
    if (got != m.threads) err = "known thread states: " + std::to_string(got.size()) + " entries, expected " + std::to_string(m.threads.size()) + " or other values";
    if (cfg->getProcessState() != m.process) err = "the process state was changed by something else";
  };
  auto answered = [&](const std::function<Conf()>& f, Conf& r) {
    for (int i = 0; i < 20; i++) { r = f(); if (r) return true; }
    return false;
  };
  const std::size_t n = 1 + c.size(30);
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    switch (c.draw(7))
    {
      case 0:
        if (threads.size() < 6)
        {
          c.out() << " thread";
          threads.emplace_back(new Actor());
          unsigned long tid = threads.back()->tid();
          if (std::find(ended.begin(), ended.end(), tid) != ended.end()) reused++;
        }
        break;
      case 1:
        if (!threads.empty())
        {
          std::size_t k = c.draw(threads.size());
          c.out() << " end" << k;
          unsigned long tid = threads[k]->tid();
          threads[k]->finish();
          threads.erase(threads.begin() + static_cast<long>(k));
          m.threads.erase(tid);
          ended.push_back(tid);
        }
        break;
      case 2:
      case 3:
      case 4:
      {
        Op o = gen_op(c, 3);
        if (threads.empty()) break;
        std::size_t k = c.draw(threads.size());
        c.out() << " " << k << ":";
        show(c.out(), o);
        unsigned long tid = threads[k]->tid();
        threads[k]->run([&] { perform(o, m, tid, err); });
        ops++;
        break;
      }
      case 5:
      {
        c.out() << " get";
        Conf r;
        if (!answered([&] { return consumer->getTraceState(); }, r)) { client.reset(); c.fail_soft("the state was not obtained"); }
        if (r.process_state != m.process) err = "the remote state has another process state";
        else if (r.thread_state != m.threads) err = "the remote state has other thread states";
        remote++;
        break;
      }
      default:
      {
        Conf s, r;
        s.set_process_state = c.boolean();
        s.process_state = c.boolean();
        c.out() << " set(sp=" << s.set_process_state << " p=" << s.process_state;
        for (auto& t : threads)
          if (c.boolean()) { s.thread_state[t->tid()] = c.boolean(); }
        if (c.chance(1, 3)) s.thread_state[c.draw(1u << 30)] = c.boolean();
        if (!ended.empty() && c.chance(1, 3)) s.thread_state[ended[c.draw(ended.size())]] = c.boolean();
        c.out() << " threads=" << s.thread_state.size() << ")";
        if (s.set_process_state) m.process = s.process_state;
        for (auto& t : s.thread_state) { auto it = m.threads.find(t.first); if (it != m.threads.end()) it->second = t.second; }
        if (!answered([&] { return consumer->setTraceState(s); }, r)) { client.reset(); c.fail_soft("the state was not changed"); }
        if (r.process_state != m.process) err = "the resulting state has another process state";
        else if (r.thread_state != m.threads) err = "the resulting state has other thread states";
        remote++;
        break;
      }
    }
    verify();
  }
  threads.clear();
  m.threads.clear();
  verify();
  client.reset();
  server.reset();
  cfg->setProcessState(true);
  if (!err.empty()) c.fail(err);
  c.label("threads with the id of an ended one", reused);
  c.label("remote calls", remote);
  if (ops && remote) c.nontrivial();
}
PBT_MAIN(run)
