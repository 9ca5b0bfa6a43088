// C11: which tracepoints are emitted.
#include "backends.h"
#include <scalopus_interface/transport_factory.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/internal/trace_configuration_raii.h>
#include <scalopus_tracing/trace_configurator.h>
#include "cborenc.h"
#include "fakes.h"

using namespace vf;
using namespace scalopus;
namespace
{
// Receives the broadcasts of the sender.
class Sink : public FakeTransport
{
public:
  Sink() : FakeTransport([](const std::string&, const Data&, Data&) { return false; }) {}
  void broadcast(const std::string& name, const Data& d) override
  {
    std::lock_guard<std::mutex> l(m);
    if (name != "native_trace_receiver") problem = "broadcast to '" + name + "'";
    messages.push_back(d);
  }
  std::vector<Data> take()
  {
    std::lock_guard<std::mutex> l(m);
    std::vector<Data> r;
    r.swap(messages);
    return r;
  }
  std::mutex m;
  std::vector<Data> messages;
  std::string problem;
};

struct World
{
  Backend b[3];  // native, lttng, nop
  std::shared_ptr<Sink> sink{ std::make_shared<Sink>() };
  std::shared_ptr<EndpointNativeTraceSender> sender{ std::make_shared<EndpointNativeTraceSender>() };
  std::shared_ptr<FakeTransport> remote;
  EndpointTraceConfigurator::Ptr client;
  std::shared_ptr<EndpointTraceConfigurator> server{ std::make_shared<EndpointTraceConfigurator>() };
  unsigned int sentinel{ 0 };
  World()
  {
    ::setenv("LTTNG_UST_REGISTER_TIMEOUT", "0", 1);
    b[0].load(VERIF_LIB_NATIVE);
    b[1].load(VERIF_LIB_LTTNG);
    b[2].load(VERIF_LIB_NOP);
    auto& log = LttngLog::get();
    if (!log.problem.empty() || log.events.size() != 6) { std::printf("LTTng tracepoints: %zu events %s\n", log.events.size(), log.problem.c_str()); }
    sink->addEndpoint(sender);
    remote = std::make_shared<FakeTransport>([this](const std::string&, const Data& in, Data& out) { return server->handle(*remote, in, out); });
    client = std::dynamic_pointer_cast<EndpointTraceConfigurator>(EndpointTraceConfigurator::factory(remote));
  }
};
World& world()
{
  static World* w = new World();
  return *w;
}

struct Thread
{
  std::unique_ptr<Actor> a{ new Actor() };
  unsigned long tid{ 0 };
  bool state{ true };
  bool known{ false };     // to the configuration
  bool uncertain{ false }; // may be known
  std::vector<std::unique_ptr<TraceConfigurationRAII>> scopes;
  std::vector<std::pair<bool, bool>> saved;  // process?, previous
};
std::string show_tid(std::size_t i) { return "thread " + std::to_string(i); }
}  // namespace

void run(Case& c)
{
  World& w = world();
  auto& log = LttngLog::get();
  c.check(log.problem.empty() && log.events.size() == 6, "the LTTng tracepoints are not as expected: " + log.problem);
  auto configurator = TraceConfigurator::getInstance();
  configurator->setProcessState(true);
  {
    std::lock_guard<std::mutex> l(log.m);
    log.by_thread.clear();
  }
  w.sink->take();
  bool process = true;
  std::vector<std::unique_ptr<Thread>> threads;
  // by thread id; events carry unique ids, such that threads with reused ids can be told apart
  std::map<unsigned long, std::vector<Emitted>> want_native, want_lttng;
  unsigned int next = static_cast<unsigned int>(c.draw(1u << 30));
  bool burst = false;
  std::size_t emitted = 0, suppressed = 0, toggles = 0, ended = 0;

  auto start = [&] {
    std::unique_ptr<Thread> t(new Thread());
    t->tid = t->a->tid();
    if (c.chance(2, 3)) { t->a->run([&] { configurator->getThreadState(); }); t->known = true; }
    c.out() << " start" << threads.size() << (t->known ? "" : "(unknown)");
    threads.push_back(std::move(t));
  };
  auto unwind = [&](Thread& t) {
    process = t.saved.back().first ? t.saved.back().second : process;
    if (!t.saved.back().first) t.state = t.saved.back().second;
    t.saved.pop_back();
  };
  auto end = [&](std::size_t i) {
    Thread& t = *threads[i];
    c.out() << " end" << i;
    while (!t.scopes.empty())
    {
      t.a->run([&] { t.scopes.pop_back(); });
      unwind(t);
    }
    t.a.reset();
    threads.erase(threads.begin() + static_cast<long>(i));
    ended++;
  };
  start();
  const std::size_t n = 4 + c.draw(60);
  for (std::size_t op = 0; op < n; op++)
  {
    if (threads.empty()) { start(); continue; }
    std::size_t i = c.draw(threads.size());
    Thread& t = *threads[i];
    switch (c.draw(14))
    {
      case 0:
      case 1:
      case 2:
      case 3:
      case 4:
      case 5:
      case 6:
      {
        std::size_t backend = c.chance(1, 8) ? 2 : c.draw(2);
        Emitted e{ static_cast<int>(c.draw(6)), next++, 0 };
        const bool scope = e.kind == kEntry && c.chance(1, 3);
        if (e.kind == kCount) e.value = c.chance(1, 4) ? static_cast<std::int64_t>(c.draw(0)) : c.range(-3, 3);
        c.out() << " " << i << ":" << (backend == 0 ? "native " : backend == 1 ? "lttng " : "nop ") << (scope ? "scope " : "") << show(e);
        const bool on = process && t.state;
        auto& want = backend == 0 ? want_native : want_lttng;
        if (scope)
        {
          // an object that traces its scope, in which the state may be toggled
          const unsigned toggle = static_cast<unsigned>(c.draw(4));
          bool now_process = process, now_thread = t.state;
          if (toggle == 1) now_process = !now_process;
          if (toggle == 2) now_thread = !now_thread;
          t.a->run([&] {
            alignas(16) char obj[64];
            w.b[backend].raii_begin(obj, e.id);
            if (toggle == 1) configurator->setProcessState(now_process);
            if (toggle == 2) configurator->setThreadState(now_thread);
            w.b[backend].raii_end(obj);
          });
          process = now_process;
          t.state = now_thread;
          if (toggle == 1 || toggle == 2) { toggles++; c.out() << (toggle == 1 ? " in which process=" : " in which thread=") << (toggle == 1 ? process : t.state); }
          if (toggle == 2) t.known = true;
          if (backend != 2)
          {
            if (on) want[t.tid].push_back(e);
            if (process && t.state) want[t.tid].push_back(Emitted{ kExit, e.id, 0 });
          }
        }
        else if (backend == 0 && !burst && c.chance(1, 150))
        {
          // many more than what is collected at once, fewer than what a thread can store
          burst = true;
          const unsigned k = 2000 + static_cast<unsigned>(c.draw(7000));
          c.out() << " x" << k;
          const unsigned int first = e.id;
          next += k;
          t.a->run([&] { for (unsigned q = 0; q < k; q++) { Emitted x = e; x.id = first + q; w.b[backend].emit(x); } });
          if (on) for (unsigned q = 0; q < k; q++) { Emitted x = e; x.id = first + q; want[t.tid].push_back(x); }
        }
        else
        {
          t.a->run([&] { w.b[backend].emit(e); });
          if (backend != 2 && on) want[t.tid].push_back(e);
        }
        if (backend != 2)
        {
          if (!t.known) t.uncertain = true;
          (on ? emitted : suppressed)++;
        }
        break;
      }
      case 7:
      {
        bool v = c.boolean();
        c.out() << " " << i << ":process=" << v;
        t.a->run([&] { configurator->setProcessState(v); });
        process = v;
        toggles++;
        break;
      }
      case 8:
      {
        bool v = c.boolean();
        c.out() << " " << i << ":thread=" << v;
        t.a->run([&] { configurator->setThreadState(v); });
        t.state = v;
        t.known = true;
        t.uncertain = false;
        toggles++;
        break;
      }
      case 9:
      {
        bool p = c.boolean(), v = c.boolean();
        if (t.scopes.size() > 4) break;
        if (p)
        {
          // process scopes of several threads may only end in nested order
          bool other = false;
          for (auto& o : threads) if (o.get() != &t) for (auto& s : o->saved) other |= s.first;
          if (other) break;
        }
        c.out() << " " << i << ":scoped " << (p ? "process=" : "thread=") << v;
        t.saved.emplace_back(p, p ? process : t.state);
        t.a->run([&] { t.scopes.emplace_back(new TraceConfigurationRAII(p, v)); });
        (p ? process : t.state) = v;
        if (!p) { t.known = true; t.uncertain = false; }
        toggles++;
        break;
      }
      case 10:
        if (!t.scopes.empty())
        {
          c.out() << " " << i << ":unscope";
          t.a->run([&] { t.scopes.pop_back(); });
          unwind(t);
          toggles++;
        }
        break;
      case 11:
      {
        EndpointTraceConfigurator::TraceConfiguration s;
        s.set_process_state = c.boolean();
        s.process_state = c.boolean();
        c.out() << " remote";
        if (s.set_process_state) { process = s.process_state; c.out() << " process=" << process; }
        for (std::size_t k = 0; k < threads.size(); k++)
        {
          Thread& x = *threads[k];
          if (x.uncertain || !c.boolean()) continue;
          bool v = c.boolean();
          s.thread_state[x.tid] = v;
          if (x.known) x.state = v;
          c.out() << " " << k << "=" << v;
        }
        if (c.chance(1, 4)) s.thread_state[c.draw(1u << 20)] = c.boolean();
        w.client->setTraceState(s);
        toggles++;
        break;
      }
      case 12: if (threads.size() < 4) start(); break;
      default: if (c.chance(1, 2)) end(i);
    }
  }
  while (!threads.empty()) end(threads.size() - 1);
  // Everything has been executed: collect until a second sentinel has arrived, as the events of ended threads may be
  // retrieved a round later than those of others.
  configurator->setProcessState(true);
  configurator->setThreadState(true);
  const unsigned long self = static_cast<unsigned long>(::pthread_self());
  std::map<unsigned long, std::vector<Emitted>> got_native;
  for (int round = 0; round < 2; round++)
  {
    const unsigned int id = ++w.sentinel;
    w.b[0].emit(Emitted{ kCount, 0xfffffff0u, id });
    bool seen = false;
    bool ok = eventually([&] {
      for (auto& d : w.sink->take())
      {
        NChunk chunk;
        try { chunk = decode_chunk(d); }
        catch (const std::exception& e) { c.fail(std::string("the sender transmits something undecodable: ") + e.what()); }
        c.check(chunk.pid == static_cast<std::uint64_t>(::getpid()), "the events are attributed to another process");
        for (auto& t : chunk.threads)
          for (auto& e : t.second)
          {
            c.check(e.type >= 1 && e.type <= 6, "an event of unknown type " + std::to_string(e.type));
            if (e.id == 0xfffffff0u) { seen |= e.value == id; continue; }
            got_native[t.first].push_back(Emitted{ e.type - 1, e.id, e.type == 6 ? e.value : 0 });
          }
      }
      return seen;
    });
    if (!ok) c.fail_soft("an enabled native tracepoint is not transmitted");
  }
  c.check(w.sink->problem.empty(), w.sink->problem);
  std::map<unsigned long, std::vector<Emitted>> got_lttng;
  {
    std::lock_guard<std::mutex> l(log.m);
    got_lttng = log.by_thread;
  }
  auto compare = [&](const char* what, const std::map<unsigned long, std::vector<Emitted>>& want, std::map<unsigned long, std::vector<Emitted>>& got, bool reorder) {
    for (auto& g : got)
    {
      auto it = want.find(g.first);
      static const std::vector<Emitted> none;
      auto e = it == want.end() ? none : it->second;
      if (reorder)
      {
        // threads that had this id one after the other may be transmitted in any order
        auto by = [](const Emitted& a, const Emitted& b) { return a.id < b.id; };
        std::stable_sort(e.begin(), e.end(), by);
        std::stable_sort(g.second.begin(), g.second.end(), by);
      }
      if (!(e == g.second)) c.fail(std::string("with ") + what + " a thread emitted " + show(g.second) + " instead of " + show(e));
    }
    for (auto& e : want) if (!e.second.empty() && !got.count(e.first)) c.fail(std::string("with ") + what + " a thread emitted nothing instead of " + show(e.second));
  };
  compare("the native backend", want_native, got_native, ended > 0);
  compare("the LTTng backend", want_lttng, got_lttng, false);
  c.label("tracepoints executed enabled", emitted);
  c.label("tracepoints executed disabled", suppressed);
  c.label("toggles", toggles);
  if (emitted && suppressed && toggles) c.nontrivial();
}
PBT_MAIN(run)
