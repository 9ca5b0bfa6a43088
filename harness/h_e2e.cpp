// C26: programs that trace with the public macros and the native backend, recorded by a manager, the providers and the
// catapult recorder over a transport: the trace that comes out is what the programs did while it was recorded.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/tracing.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <cmath>
#include "fakes.h"
using namespace vf;
using namespace scalopus;

namespace
{
std::string g_label;  // differs between the traced processes
struct Op { int site; std::int64_t value; };
constexpr int kSites = 16;

const char* traced_function(bool emit)
{
  if (!emit) return __PRETTY_FUNCTION__;
  TRACE_PRETTY_FUNCTION();
  return nullptr;
}
void perform(const Op& op)
{
  switch (op.site)
  {
    case 0: { TRACE_SCOPE_RAII("alpha"); break; }
    case 1:
    {
      TRACE_SCOPE_RAII("outer");
      {
        TRACE_SCOPE_RAII("inner");
      }
      break;
    }
    case 2:
    {
      TRACE_SCOPE_START("span");
      TRACE_SCOPE_END("span");
      break;
    }
    case 3: { TRACE_MARK_EVENT_GLOBAL("to all"); break; }
    case 4: { TRACE_MARK_EVENT_PROCESS("to the process"); break; }
    case 5: { TRACE_MARK_EVENT_THREAD("to the thread"); break; }
    case 6: { TRACE_COUNT("plain", op.value); break; }
    case 7: { TRACE_COUNT_SERIES("multi", "x", op.value); break; }
    case 8: { TRACE_COUNT_SERIES("multi", "y", op.value); break; }
    case 9: traced_function(true); break;
    case 10:
    {
      TRACING_CONFIG_THREAD_STATE_RAII(false);
      TRACE_SCOPE_RAII("hidden");
      TRACE_MARK_EVENT_GLOBAL("hidden mark");
      break;
    }
    case 11:
    {
      try
      {
        TRACE_SCOPE_RAII("thrown");
        throw 1;
      }
      catch (int)
      {
      }
      break;
    }
    case 12: { ThreadNameTracker::getInstance().setCurrentName("worker \xc3\xa9 " + std::to_string(op.value)); break; }
    case 13: { TRACE_THREAD_NAME("named by the macro"); break; }
    case 14: { TRACE_SCOPE_RAII(g_label); break; }
    default: std::this_thread::sleep_for(std::chrono::microseconds(op.value & 511));
  }
}
void sentinel(std::int64_t value)
{
  TRACING_CONFIG_PROCESS_STATE_RAII(true);
  TRACE_COUNT("the sentinel", value);
}

// What is expected of one trace event
struct Out
{
  std::string ph, name, extra;  // scope or series
  std::int64_t value{ 0 };
  bool maybe{ false };
  std::string str() const { return ph + " '" + pbt::esc(name) + "'" + (extra.empty() ? "" : " " + extra) + (ph == "C" ? "=" + std::to_string(value) : ""); }
};
void outcome(const Op& op, const std::string& label, std::vector<Out>& r)
{
  auto scope = [&](const std::string& n) { r.push_back({ "B", n, "", 0, false }); r.push_back({ "E", n, "", 0, false }); };
  switch (op.site)
  {
    case 0: scope("alpha"); break;
    case 1:
      r.push_back({ "B", "outer", "", 0, false });
      scope("inner");
      r.push_back({ "E", "outer", "", 0, false });
      break;
    case 2: scope("span"); break;
    case 3: r.push_back({ "i", "to all", "g", 0, false }); break;
    case 4: r.push_back({ "i", "to the process", "p", 0, false }); break;
    case 5: r.push_back({ "i", "to the thread", "t", 0, false }); break;
    case 6: r.push_back({ "C", "plain", "count", op.value, false }); break;
    case 7: r.push_back({ "C", "multi", "x", op.value, false }); break;
    case 8: r.push_back({ "C", "multi", "y", op.value, false }); break;
    case 9: scope(traced_function(false)); break;
    case 11: scope("thrown"); break;
    case 14: scope(label); break;
    default: break;
  }
}

// ------------------------------------------------------------------------------------------ the plan of a case
struct Work { std::vector<Op> ops; bool fresh; };           // of one worker, in one phase
struct ProcPlan { std::string name, label; unsigned workers; std::vector<std::vector<Work>> phases; };
enum StepKind { kPhase, kStart, kStop, kCollect, kProcessState, kThreadState, kEnd, kAppear, kRestart };
struct Step { int kind; unsigned a, b; bool state; };
struct Plan
{
  bool loopback, poll;
  std::vector<ProcPlan> procs;
  std::vector<Step> steps;
};

// ------------------------------------------------------------------------------------------ the traced side
class Worker
{
public:
  Worker() : t_([this] { loop(); }) { run({}); }
  ~Worker()
  {
    { std::lock_guard<std::mutex> l(m_); quit_ = true; }
    cv_.notify_all();
    t_.join();
  }
  void start(const std::vector<Op>& ops)
  {
    { std::lock_guard<std::mutex> l(m_); ops_ = &ops; }
    cv_.notify_all();
  }
  void wait()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return ops_ == nullptr; });
  }
  void run(const std::vector<Op>& ops) { start(ops); wait(); }
  unsigned long tid{ 0 };

private:
  void loop()
  {
    std::unique_lock<std::mutex> l(m_);
    tid = static_cast<unsigned long>(::pthread_self());
    while (true)
    {
      cv_.wait(l, [this] { return quit_ || ops_ != nullptr; });
      if (ops_ == nullptr) return;
      auto* todo = ops_;
      l.unlock();
      for (auto& o : *todo) perform(o);
      l.lock();
      ops_ = nullptr;
      cv_.notify_all();
    }
  }
  std::mutex m_;
  std::condition_variable cv_;
  const std::vector<Op>* ops_{ nullptr };
  bool quit_{ false };
  std::thread t_;
};

struct Traced
{
  Traced(const ProcPlan& p, TransportFactory::Ptr f) : plan(p)
  {
    g_label = p.label;
    server = f->serve();
    if (!server) return;
    auto info = std::make_shared<EndpointProcessInfo>();
    info->setProcessName(p.name);
    server->addEndpoint(info);
    server->addEndpoint(std::make_shared<EndpointTraceMapping>());
    server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
    server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
    server->addEndpoint(std::make_shared<EndpointIntrospect>());
  }
  // yields the thread ids of the workers
  std::vector<unsigned long> phase(std::size_t k)
  {
    auto& works = plan.phases.at(k);
    workers.resize(works.size());
    for (std::size_t i = 0; i < works.size(); i++)
      if (!workers[i] || works[i].fresh) { workers[i].reset(); workers[i].reset(new Worker()); }
    for (std::size_t i = 0; i < works.size(); i++) workers[i]->start(works[i].ops);
    std::vector<unsigned long> tids;
    for (auto& w : workers) { w->wait(); tids.push_back(w->tid); }
    return tids;
  }
  ProcPlan plan;
  Transport::Ptr server;
  std::vector<std::unique_ptr<Worker>> workers;
};

// The process as the recording side sees it
struct Proc
{
  const ProcPlan* plan;
  std::unique_ptr<Child> child;
  std::unique_ptr<Traced> local;
  pid_t pid{ 0 };
  bool appeared{ false }, ended{ false };
  std::size_t next_phase{ 0 };
  bool process_state{ true };
  struct Thread { unsigned long tid; bool state; std::string name; bool macro; };
  std::vector<Thread> threads;
  std::int64_t sentinels{ 0 };
  std::map<unsigned long, std::vector<Out>> expected;  // of the interval
  std::map<unsigned long, std::vector<Out>> pending;   // not known to have arrived
  // the probe: a recording of its own that tells when everything arrived
  std::shared_ptr<FakeManager> probe_manager;
  NativeTraceProvider::Ptr probe;
  TraceEventSource::Ptr probe_source;
  Transport::Ptr probe_transport;

  bool serve()
  {
    if (local) return local->server != nullptr;
    child->tell('a');
    return child->hear() == 'y';
  }
  bool phase(std::vector<unsigned long>& tids)
  {
    if (local) { tids = local->phase(next_phase); return true; }
    child->tell('p');
    if (child->hear() != 'd') return false;
    tids.resize(plan->phases[next_phase].size());
    for (auto& t : tids)
    {
      char b[sizeof t];
      for (auto& ch : b) if (::read(child->from, &ch, 1) != 1) return false;
      std::memcpy(&t, b, sizeof t);
    }
    return true;
  }
  bool emit_sentinel()
  {
    sentinels++;
    if (local) { sentinel(sentinels); return true; }
    child->tell('s');
    return child->hear() == 'd';
  }
};
void traced_main(const ProcPlan& plan, int in, int out)
{
  std::unique_ptr<Traced> t;
  std::size_t phase = 0;
  std::int64_t sentinels = 0;
  char ch;
  while (::read(in, &ch, 1) == 1)
  {
    char reply = 'd';
    std::vector<unsigned long> tids;
    if (ch == 'a') { t.reset(new Traced(plan, std::make_shared<TransportUnixFactory>())); reply = t->server ? 'y' : 'n'; }
    if (ch == 'p') tids = t->phase(phase++);
    if (ch == 's') sentinel(++sentinels);
    if (ch == 'q') t.reset();
    if (::write(out, &reply, 1) != 1) break;
    for (auto id : tids) if (::write(out, &id, sizeof id) != sizeof id) break;
    if (ch == 'q') break;
  }
}

// Only the servers of this case, of the many on this host
struct OwnFactory : TransportFactory
{
  OwnFactory(TransportFactory::Ptr f, std::vector<pid_t> p) : real(std::move(f)), pids(std::move(p)) {}
  std::vector<Destination::Ptr> discover() override
  {
    std::vector<Destination::Ptr> r;
    for (auto& d : real->discover())
      for (auto p : pids) if (denotes(d, p)) r.push_back(d);
    return r;
  }
  Transport::Ptr serve() override { return real->serve(); }
  Transport::Ptr connect(const Destination::Ptr& d) override { return real->connect(d); }
  TransportFactory::Ptr real;
  std::vector<pid_t> pids;
};

// ------------------------------------------------------------------------------------------ the session
struct Result
{
  std::string problem;
  unsigned long events{ 0 }, maybes{ 0 }, collected{ 0 }, nontrivial{ 0 };
};
struct Session
{
  explicit Session(const Plan& p) : plan(p) {}
  Result result;
  const Plan& plan;
  std::vector<std::unique_ptr<Proc>> procs;
  TransportFactory::Ptr factory;
  EndpointManagerPoll::Ptr manager;
  NativeTraceProvider::Ptr native;
  std::unique_ptr<CatapultRecorder> recorder;
  bool recording{ false }, poll{ false };

  bool bad(const std::string& s) { if (result.problem.empty()) result.problem = s; return false; }
  template <typename E>
  std::shared_ptr<E> endpoint_of(pid_t pid)
  {
    for (auto& te : manager->endpoints())
    {
      auto info = te.second.find(EndpointProcessInfo::name);
      auto e = te.second.find(E::name);
      if (info == te.second.end() || e == te.second.end()) continue;
      try
      {
        if (std::dynamic_pointer_cast<EndpointProcessInfo>(info->second)->processInfo().pid == pid) return std::dynamic_pointer_cast<E>(e->second);
      }
      catch (const std::exception&)
      {
      }
    }
    return nullptr;
  }
  bool appear(Proc& p)
  {
    if (!p.serve()) return bad("SOFT a process could not serve");
    p.appeared = true;
    const bool ok = eventually([&] {
      if (!poll) manager->manage();
      return endpoint_of<EndpointProcessInfo>(p.pid) != nullptr;
    });
    if (!ok) return bad("SOFT a process that serves does not become known to the manager");
    // the probe
    auto d = plan.loopback ? p.local->server->getAddress() : find_destination(*factory, p.pid);
    if (d) p.probe_transport = factory->connect(d);
    if (!p.probe_transport) return bad("SOFT can not connect to a process");
    p.probe_manager = std::make_shared<FakeManager>();
    p.probe_manager->add<EndpointTraceMapping>(p.probe_transport);
    p.probe = std::make_shared<NativeTraceProvider>(p.probe_manager);
    p.probe_transport->addEndpoint(p.probe->receiveEndpoint());
    p.probe_source = p.probe->makeSource();
    return sync(p);
  }
  // Everything traced by the process has been received by the recorder's side after this.
  bool sync(Proc& p)
  {
    if (p.ended || !p.appeared) return true;
    // unix: what ended threads left may come one message later; loopback: so may what the other client gets
    for (int round = 0; round < (plan.loopback ? 3 : 2); round++)
    {
      p.probe_source->startInterval();
      std::int64_t first = p.sentinels + 1;
      const double end = now() + kPatience;
      bool seen = false;
      // Finishing asks the process, whose worker may send the event at that very moment, when it is not recorded: a wait that
      // is too short never gets it. So the wait grows beyond the periods of the sender and the transports.
      for (int wait = 8; !seen; wait = std::min(2 * wait, 200))
      {
        if (!p.emit_sentinel()) return bad("SOFT a traced process does not respond");
        std::this_thread::sleep_for(milliseconds(wait));
        for (auto& e : p.probe_source->finishInterval())
          if (e.value("name", "") == "the sentinel" && e["args"].value("count", std::int64_t(0)) >= first) seen = true;
        if (!seen && now() > end) return bad("SOFT what a process traces is not received");
        if (!seen) p.probe_source->startInterval();
      }
    }
    auto info = endpoint_of<EndpointProcessInfo>(p.pid);
    if (!info) return bad("SOFT a process is no longer known to the manager");
    for (auto& t : p.pending)
    {
      auto& e = p.expected[t.first];
      e.insert(e.end(), t.second.begin(), t.second.end());
    }
    p.pending.clear();
    return true;
  }
  bool sync_all()
  {
    for (auto& p : procs) if (!sync(*p)) return false;
    return true;
  }
  // the interval ends: what was not received yet may miss it
  void cut()
  {
    for (auto& p : procs)
    {
      for (auto& t : p->pending)
        for (auto& o : t.second) { o.maybe = true; p->expected[t.first].push_back(o); result.maybes++; }
      p->pending.clear();
    }
    recording = false;
  }
  void forget() { for (auto& p : procs) { p->expected.clear(); p->pending.clear(); } }

  bool collect()
  {
    cut();
    const auto text = recorder->collectEvents();
    result.collected++;
    json all;
    try { all = json::parse(text); }
    catch (const std::exception& e) { return bad(std::string("the recording is not JSON: ") + e.what()); }
    std::map<int, std::map<unsigned long, std::vector<Out>>> got;
    std::map<int, std::vector<std::string>> process_names;
    std::map<int, std::map<unsigned long, std::vector<std::string>>> thread_names;
    std::map<int, std::map<std::string, std::int64_t>> multi;  // to judge that values of other series come along
    double last = 0;
    for (auto& e : all)
    {
      try
      {
        const int pid = e.at("pid");
        const unsigned long tid = e.at("tid");
        Out o;
        o.ph = e.at("ph");
        o.name = e.at("name");
        if (o.ph == "M")
        {
          if (o.name == "process_name") process_names[pid].push_back(e.at("args").at("name"));
          else if (o.name == "thread_name") thread_names[pid][tid].push_back(e.at("args").at("name"));
          else return bad("unexpected metadata: " + e.dump());
          continue;
        }
        if (e.at("ts").get<double>() < last) return bad("the events are not in order of time");
        last = e.at("ts");
        if (std::fabs(last / 1e6 - static_cast<double>(::time(nullptr))) > 3600) return bad("an event of another time: " + e.dump());
        if (o.ph == "i") o.extra = e.at("s");
        if (o.ph == "C") o.extra = e.at("args").dump();
        if (o.name == "the sentinel") continue;
        got[pid][tid].push_back(o);
      }
      catch (const std::exception& x) { return bad(std::string("malformed event (") + x.what() + "): " + e.dump().substr(0, 200)); }
    }
    for (auto& g : got)
      if (std::none_of(procs.begin(), procs.end(), [&](std::unique_ptr<Proc>& p) { return p->pid == g.first && p->appeared; }))
        return bad("events of process " + std::to_string(g.first) + " that was not traced");
    for (auto& p : procs)
    {
      auto& g = got[p->pid];
      std::map<std::string, std::string> unknown;  // the names of a process that is gone may not be known
      // the tid under which only (unnamed) sentinels come is that of the main thread
      for (auto& t : g)
      {
        if (!p->ended || p->expected.count(t.first)) continue;
        for (auto& o : t.second) if (o.ph != "C" || o.name.compare(0, 8, "Unknown ") != 0) return bad("event " + o.str() + " of a thread that did not trace anything");
        t.second.clear();
      }
      for (auto& t : p->expected)
      {
        auto& have = g[t.first];
        std::size_t i = 0;
        for (auto& want : t.second)
        {
          const std::string where = " of '" + pbt::esc(p->plan->name) + "' at position " + std::to_string(i) + " of its thread";
          if (i < have.size())
          {
            Out o = have[i];
            if (p->ended && o.name.compare(0, 8, "Unknown ") == 0)
            {
              const auto key = want.ph == "C" ? want.name + "/" + want.extra : want.name;
              auto it = unknown.emplace(o.name, key).first;
              if (it->second == key) o.name = want.name;
              if (o.ph == "C" && want.ph == "C")
              {
                auto args = json::parse(o.extra);
                if (args.size() == 1 && args.count("count") && args["count"] == want.value) { i++; result.events++; continue; }
              }
            }
            else if (p->ended && want.name != o.name && !want.maybe)
              return bad("got " + o.str() + ", expected " + want.str() + where);
            bool same = o.ph == want.ph && o.name == want.name;
            if (same && want.ph == "C")
            {
              auto args = json::parse(o.extra);
              same = args.count(want.extra) && args[want.extra] == want.value;
            }
            else if (same) same = o.extra == want.extra;
            if (same) { i++; result.events++; continue; }
            if (!want.maybe)
            {
              const bool named = o.name.compare(0, 8, "Unknown ") != 0;
              return bad(std::string(named ? "" : "SOFT ") + "got " + o.str() + ", expected " + want.str() + where);
            }
          }
          else if (!want.maybe) return bad("missing " + want.str() + where + " (" + std::to_string(t.second.size()) + " expected)");
        }
        if (i < have.size()) return bad("event " + have[i].str() + " of '" + p->plan->name + "' is too many");
        g.erase(t.first);
      }
      for (auto& t : g)
        if (!t.second.empty()) return bad("event " + t.second[0].str() + " of '" + p->plan->name + "' was not traced while recording");
      // the names
      if (p->appeared && !p->ended)
      {
        if (process_names[p->pid] != std::vector<std::string>{ p->plan->name })
          return bad("SOFT process '" + pbt::esc(p->plan->name) + "' is named by " + std::to_string(process_names[p->pid].size()) + " entries" +
                     (process_names[p->pid].empty() ? "" : ", as '" + process_names[p->pid][0] + "'"));
        std::map<unsigned long, std::vector<std::string>> want;
        for (auto& t : p->threads) if (!t.name.empty()) want[t.tid].push_back(t.name);
        if (thread_names[p->pid] != want) return bad("SOFT the threads are named " + json(thread_names[p->pid]).dump() + ", expected " + json(want).dump());
      }
    }
    forget();
    return true;
  }

  bool step(const Step& s)
  {
    auto& p = *procs[s.a % procs.size()];
    switch (s.kind)
    {
      case kPhase:
      {
        for (auto& q : procs)
        {
          if (!q->appeared || q->ended || q->next_phase >= q->plan->phases.size()) continue;
          auto& works = q->plan->phases[q->next_phase];
          std::vector<unsigned long> tids;
          if (!q->phase(tids)) return bad("SOFT a traced process does not respond");
          q->next_phase++;
          q->threads.resize(works.size(), Proc::Thread{ 0, true, "", false });
          for (std::size_t i = 0; i < works.size(); i++)
          {
            auto& t = q->threads[i];
            if (works[i].fresh || t.tid == 0) t = Proc::Thread{ tids[i], true, "", false };
            if (t.tid != tids[i]) return bad("SOFT the harness lost a thread");
            for (auto& o : works[i].ops)
            {
              if (o.site == 12) t.name = "worker \xc3\xa9 " + std::to_string(o.value);
              if (o.site == 13 && !t.macro) { t.name = "named by the macro"; t.macro = true; }
              if (recording && q->process_state && t.state) outcome(o, q->plan->label, q->pending[t.tid]);
            }
          }
        }
        return s.state ? sync_all() : true;
      }
      case kStart:
        if (!sync_all()) return false;
        recorder->startInterval();
        forget();
        recording = true;
        return true;
      case kStop:
        cut();
        recorder->stopInterval();
        // what comes late is received before anything else is done
        for (auto& q : procs)
        {
          auto keep = q->expected;
          if (!sync(*q)) return false;
          q->expected = keep;
        }
        return true;
      case kCollect:
        if (!collect()) return false;
        return sync_all();
      case kProcessState:
      case kThreadState:
      {
        if (!p.appeared || p.ended) return true;
        auto e = endpoint_of<EndpointTraceConfigurator>(p.pid);
        if (!e) return bad("SOFT no configurator of a process");
        try
        {
          if (s.kind == kProcessState)
          {
            EndpointTraceConfigurator::TraceConfiguration c;
            c.process_state = s.state;
            c.set_process_state = true;
            if (!e->setTraceState(c)) return bad("SOFT the state could not be set");
            p.process_state = s.state;
          }
          else if (!p.threads.empty())
          {
            auto& t = p.threads[s.b % p.threads.size()];
            EndpointTraceConfigurator::TraceConfiguration c;
            c.thread_state[t.tid] = s.state;
            auto r = e->setTraceState(c);
            if (!r) return bad("SOFT the state could not be set");
            if (r.thread_state.count(t.tid)) t.state = s.state;
          }
        }
        catch (const std::exception& x) { return bad(std::string("SOFT setting the state: ") + x.what()); }
        return true;
      }
      case kEnd:
        if (!p.appeared || p.ended || p.local) return true;
        if (!sync(p)) return false;
        p.child->tell(s.state ? 'q' : 'x');
        if (s.state) p.child->hear();
        p.child->end(s.state ? 0 : SIGKILL);
        p.ended = true;
        return true;
      case kAppear:
        for (auto& q : procs) if (!q->appeared) return sync_all() && appear(*q);
        return true;
      default:
        recorder->stop();
        if (s.state && !collect()) return false;
        recorder->start();
        cut();
        forget();
        return sync_all() && (forget(), true);
    }
  }
  void run()
  {
    std::vector<pid_t> pids;
    for (auto& p : procs) pids.push_back(p->pid);
    manager = std::make_shared<EndpointManagerPoll>(factory);
    manager->addEndpointFactory<EndpointTraceMapping>();
    manager->addEndpointFactory<EndpointProcessInfo>();
    manager->addEndpointFactory<EndpointTraceConfigurator>();
    native = std::make_shared<NativeTraceProvider>(manager);
    manager->addEndpointFactory(EndpointNativeTraceSender::name, native);
    recorder.reset(new CatapultRecorder());
    recorder->addProvider(native);
    recorder->addProvider(std::make_shared<GeneralProvider>(manager));
    recorder->start();
    poll = plan.poll;
    if (poll) manager->startPolling(0.01);
    if (appear(*procs[0]))
      for (auto& s : plan.steps) if (!step(s)) break;
    if (result.problem.empty()) collect();
    recorder.reset();
  }
};

Result session(const Plan& plan)
{
  Session s(plan);
  if (plan.loopback)
  {
    auto f = std::make_shared<TransportLoopbackFactory>();
    std::unique_ptr<Proc> p(new Proc());
    p->plan = &plan.procs[0];
    p->pid = ::getpid();
    p->local.reset(new Traced(plan.procs[0], f));
    s.procs.push_back(std::move(p));
    s.factory = f;
  }
  else
  {
    std::vector<pid_t> pids;
    for (auto& pp : plan.procs)
    {
      std::unique_ptr<Proc> p(new Proc());
      p->plan = &pp;
      p->child.reset(new Child([&](int in, int out) { traced_main(pp, in, out); }));
      p->pid = p->child->pid;
      pids.push_back(p->pid);
      s.procs.push_back(std::move(p));
    }
    s.factory = std::make_shared<OwnFactory>(std::make_shared<TransportUnixFactory>(), pids);
  }
  s.run();
  return s.result;
}
}  // namespace

void property(Case& c)
{
  Plan plan;
  plan.loopback = c.chance(1, 3);
  plan.poll = c.boolean();
  const std::size_t np = plan.loopback ? 1 : 1 + c.draw(3);
  const unsigned phases = 3 + static_cast<unsigned>(c.draw(6));
  for (std::size_t i = 0; i < np; i++)
  {
    ProcPlan p;
    p.name = "process " + std::to_string(i) + (c.boolean() ? " \xe2\x82\xac" : "");
    p.label = "label " + std::to_string(i);
    p.workers = 1 + static_cast<unsigned>(c.draw(3));
    const bool lively = c.boolean();
    for (unsigned k = 0; k < phases; k++)
    {
      std::vector<Work> works(p.workers);
      for (auto& w : works)
      {
        w.fresh = lively && c.chance(1, 2);
        const std::size_t n = c.chance(1, 12) ? c.draw(400) : c.draw(10);
        for (std::size_t o = 0; o < n; o++)
        {
          const int site = static_cast<int>(c.draw(kSites));
          std::int64_t v = static_cast<std::int64_t>(c.draw(1000)) - 500;
          if (c.chance(1, 12)) v = c.boolean() ? std::numeric_limits<std::int64_t>::min() : std::numeric_limits<std::int64_t>::max();
          w.ops.push_back(Op{ site, v });
        }
      }
      p.phases.push_back(std::move(works));
    }
    plan.procs.push_back(std::move(p));
  }
  static const char* kNames[] = { "phase", "start", "stop", "collect", "process", "thread", "end", "appear", "restart" };
  plan.steps.push_back(Step{ kStart, 0, 0, true });
  plan.steps.push_back(Step{ kPhase, 0, 0, true });
  const std::size_t n = 1 + c.draw(12);
  for (std::size_t i = 0; i < n; i++)
  {
    static const std::vector<int> kinds = { kPhase, kPhase, kPhase, kPhase, kStart, kStart, kStop, kCollect, kCollect, kProcessState, kThreadState, kEnd, kAppear, kAppear, kRestart };
    Step s{ c.pick(kinds), static_cast<unsigned>(c.draw(3)), static_cast<unsigned>(c.draw(3)), c.chance(3, 5) };
    plan.steps.push_back(s);
    if (s.kind == kStart || (s.kind == kCollect && s.b == 0)) plan.steps.push_back(Step{ s.kind == kStart ? kPhase : kStart, 0, 0, true });
  }
  c.out() << (plan.loopback ? "loopback" : "unix") << (plan.poll ? " polled" : "") << ", " << np << " processes;";
  for (auto& s : plan.steps) c.out() << " " << kNames[s.kind] << (s.kind == kPhase && !s.state ? "!" : "");
  Result r;
  if (plan.loopback)
  {
    // everything in one process of its own: what it traces is kept by singletons
    Child child([&](int, int out) {
      auto x = session(plan);
      json j = { x.problem, x.events, x.maybes, x.collected };
      auto text = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
      if (::write(out, text.data(), text.size()) < 0) ::_exit(1);
    });
    std::string text;
    const double end = now() + 120;
    char ch;
    while (now() < end)
    {
      pollfd p{ child.from, POLLIN, 0 };
      if (::poll(&p, 1, 1000) <= 0) continue;
      if (::read(child.from, &ch, 1) != 1 || ch == '\n') break;
      text += ch;
    }
    if (now() >= end) c.fail_soft("the traced and recorded process makes no progress");
    json j = json::parse(text, nullptr, false);
    if (j.is_discarded()) c.fail("the traced and recorded process ended abnormally");
    r.problem = j[0];
    r.events = j[1];
    r.maybes = j[2];
    r.collected = j[3];
    const int st = child.end(0);
    if (st != 0) c.fail("the traced and recorded process ended with status " + std::to_string(st));
  }
  else r = session(plan);
  if (r.problem.rfind("SOFT ", 0) == 0) c.fail_soft(r.problem.substr(5));
  c.check(r.problem.empty(), r.problem);
  c.label(plan.loopback ? "loopback" : "unix");
  c.label("events", r.events);
  c.label("recordings", r.collected);
  c.label("events at the end of the interval", r.maybes);
  if (r.events) c.nontrivial();
}
PBT_MAIN(property)
