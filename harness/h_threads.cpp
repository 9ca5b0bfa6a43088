// C23: several threads use the same transports, managers, registries, tracepoints and recordings at once. The programs of
// the threads are generated; they run under ThreadSanitizer (and AddressSanitizer). The harness itself shares things only
// under locks of its own or through the interfaces under test.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_interface/transport_factory.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <set>
#include "backends.h"
#include "fakes.h"
#include "sources.h"
#include "viewer.h"
using namespace vf;
using namespace scalopus;

namespace
{
// A slot of something shared, swapped by any thread; the things themselves are used without it.
template <typename T>
struct Cell
{
  std::shared_ptr<T> get() { std::lock_guard<std::mutex> l(m); return p; }
  std::shared_ptr<T> swap(std::shared_ptr<T> n) { std::lock_guard<std::mutex> l(m); p.swap(n); return n; }
  std::mutex m;
  std::shared_ptr<T> p;
};
struct Op { int code; std::uint64_t a; };
struct Problem
{
  void set(const std::string& s) { std::lock_guard<std::mutex> l(m); if (text.empty()) text = s; }
  std::string get() { std::lock_guard<std::mutex> l(m); return text; }
  std::mutex m;
  std::string text;
};
struct World
{
  virtual ~World() = default;
  virtual int codes() const = 0;
  virtual const char* name() const = 0;
  // by any thread
  virtual void run(const Op& op, unsigned thread) = 0;
  // by the harness' thread, while the others run
  virtual void main_thread(const Op&) {}
  Problem problem;
  std::atomic<unsigned> done{ 0 };
};
Data bytes_of(std::uint64_t a, std::size_t n)
{
  Data d(n);
  for (auto& b : d) { a = pbt::mix(a); b = static_cast<std::uint8_t>(a); }
  return d;
}
// A request is answered, unless the other side may be gone: then it fails or is left unanswered.
void await(World& w, const Transport::PendingResponse& r, const Data& want, const std::atomic<unsigned>& restarts)
{
  if (!r) { w.problem.set("no future for a request"); return; }
  const double end = now() + 15;
  while (r->wait_for(std::chrono::milliseconds(50)) != std::future_status::ready)
  {
    if (restarts) return;
    if (now() > end) { w.problem.set("SOFT a request is not answered"); return; }
  }
  try
  {
    if (r->get() != want) w.problem.set("a request is answered with something else");
  }
  catch (const std::exception& e)
  {
    if (!restarts) w.problem.set(std::string("a request failed: ") + e.what());
  }
}

// An endpoint that uses its transport from within its callbacks.
class Busy : public Endpoint
{
public:
  Busy(std::string n, World& w) : name_(std::move(n)), w_(w) {}
  std::string getName() const override { return name_; }
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    out = in;
    use(t, in);
    if (in.size() > 2 && in[0] % 8 == 0) t.broadcast("note", in);
    if (in.size() > 2 && in[1] % 4 == 0 && other) other(in);
    return true;
  }
  bool unsolicited(Transport& t, const Data& in, Data&) override
  {
    use(t, in);
    notes++;
    if (in.size() > 2 && in[1] % 4 == 0)
    {
      // a request made from within; its answer arrives later, or it is dropped
      auto r = t.request("echo", Data{ 1, 2 });
      if (in[2] % 2) { std::lock_guard<std::mutex> l(m_); last_ = r; }
    }
    return false;
  }
  std::atomic<unsigned> notes{ 0 };
  std::function<void(const Data&)> other;  // uses another transport while a request is handled

private:
  void use(Transport& t, const Data& in)
  {
    if (in.size() < 2) return;
    switch (in[0] % 6)
    {
      case 0: t.endpoints(); break;
      case 1: t.getEndpoint("echo"); break;
      case 2: t.isConnected(); break;
      case 3: t.addEndpoint(std::make_shared<EndpointIntrospect>()); break;
      default: break;
    }
  }
  std::string name_;
  World& w_;
  std::mutex m_;
  Transport::PendingResponse last_;
};

// ------------------------------------------------------------------------------------------ transports
struct Transports : World
{
  explicit Transports(bool use_unix) : is_unix(use_unix)
  {
    if (is_unix) factory = std::make_shared<TransportUnixFactory>();
    else factory = std::make_shared<TransportLoopbackFactory>();
    serve();
    for (auto& c : clients) c.swap(connect());
  }
  ~Transports() override
  {
    for (auto& c : clients) c.swap(nullptr);
    server.swap(nullptr);
    release();
  }
  // The clients are kept, such that a worker isn't the last to use its own transport.
  void release()
  {
    std::set<Transport::Ptr> used;
    { std::lock_guard<std::mutex> l(kept_mutex); used.swap(kept); }
  }
  int codes() const override { return 16; }
  const char* name() const override { return is_unix ? "unix transports" : "loopback transports"; }
  void serve()
  {
    auto s = factory->serve();
    if (s)
    {
      auto echo = std::make_shared<Busy>("echo", *this);
      echo->other = [this](const Data& in) {
        std::lock_guard<std::mutex> l(kept_mutex);
        auto c = clients[in[2] % 3].get();
        if (!c) return;
        kept.insert(c);
        c->pendingRequests();
        c->endpoints();
        if (in[1] % 8 == 0) { last = c->request("echo", Data{ 3, 1, 4 }); }
      };
      s->addEndpoint(echo);
      s->addEndpoint(std::make_shared<EndpointIntrospect>());
    }
    else if (!is_unix) problem.set("no server");
    server.swap(s);
  }
  Transport::Ptr connect()
  {
    auto s = server.get();
    if (!s) return nullptr;
    auto c = factory->connect(s->getAddress());
    if (c) c->addEndpoint(std::make_shared<Busy>("note", *this));
    return c;
  }
  void run(const Op& op, unsigned) override
  {
    auto& cell = clients[op.a % 3];
    auto c = cell.get();
    switch (op.code)
    {
      case 0:
      case 1:
      case 2:
        if (c)
        {
          const auto d = bytes_of(op.a, op.a % 7 == 0 ? 70000 : op.a % 40);
          await(*this, c->request("echo", d), d, restarts);
        }
        break;
      case 3: if (c) c->request("echo", bytes_of(op.a, 9)); break;
      case 4: if (auto s = server.get()) s->broadcast("note", bytes_of(op.a, op.a % 30)); break;
      case 5: if (c) c->addEndpoint(std::make_shared<Busy>(op.a % 2 ? "note" : "other" + std::to_string(op.a % 5), *this)); break;
      case 6: if (auto s = server.get()) s->addEndpoint(std::make_shared<Busy>("more" + std::to_string(op.a % 5), *this)); break;
      case 7: if (c) { c->endpoints(); c->getEndpoint("note"); c->pendingRequests(); c->isConnected(); c->getAddress(); } break;
      case 8: if (auto s = server.get()) { s->endpoints(); s->getEndpoint("echo"); s->pendingRequests(); s->isConnected(); static_cast<std::string>(*s->getAddress()); } break;
      case 9: cell.swap(connect()); break;
      case 10:
        if (c)
        {
          auto e = std::make_shared<EndpointIntrospect>();
          e->setTransport(c);
          try { e->supported(); } catch (const std::exception&) {}
        }
        break;
      case 11: factory->discover(); break;
      case 12: if (!is_unix) { for (auto& d : factory->discover()) { static_cast<std::string>(*d); d->hash_code(); factory->connect(d); } } break;
      case 13: cell.swap(nullptr); break;
      case 14: if (!is_unix) factory->serve(); break;
      case 15: if (c) for (int i = 0; i < 4; i++) c->request("nobody", Data{}); break;
    }
  }
  void main_thread(const Op& op) override
  {
    if (op.a % 3 == 0)
    {
      restarts++;
      server.swap(nullptr);
      std::this_thread::sleep_for(milliseconds(op.a % 5));
      serve();
    }
    else std::this_thread::sleep_for(milliseconds(op.a % 4));
  }
  bool is_unix;
  TransportFactory::Ptr factory;
  Cell<Transport> server;
  Cell<Transport> clients[3];
  std::atomic<unsigned> restarts{ 0 };
  std::mutex kept_mutex;
  std::set<Transport::Ptr> kept;
  Transport::PendingResponse last;
};

// ------------------------------------------------------------------------------------------ manager, registries, configuration
struct Managed : World
{
  Managed()
  {
    factory = std::make_shared<TransportLoopbackFactory>();
    manager = std::make_shared<EndpointManagerPoll>(factory);
    manager->addEndpointFactory<EndpointProcessInfo>();
    manager->addEndpointFactory<EndpointTraceConfigurator>();
    general = std::make_shared<GeneralProvider>(manager);
    native = std::make_shared<NativeTraceProvider>(manager);
    manager->setLogger([this](const std::string&) { logged++; });
    info = std::make_shared<EndpointProcessInfo>();
    info->setProcessName("first");
    servers[0].swap(serve(true));
  }
  ~Managed() override
  {
    manager->stopPolling();
    for (auto& s : servers) s.swap(nullptr);
  }
  Transport::Ptr serve(bool first)
  {
    auto s = factory->serve();
    s->addEndpoint(std::make_shared<EndpointIntrospect>());
    s->addEndpoint(first ? info : std::make_shared<EndpointProcessInfo>());
    s->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
    s->addEndpoint(std::make_shared<EndpointTraceMapping>());
    return s;
  }
  int codes() const override { return 16; }
  const char* name() const override { return "manager and registries"; }
  template <typename E, typename F>
  void each(F f)
  {
    for (auto& t : manager->endpoints())
    {
      auto e = std::dynamic_pointer_cast<E>(Endpoint::Ptr(t.second.count(E::name) ? t.second.at(E::name) : nullptr));
      if (!e) continue;
      // what fails is a connection that is gone
      try { f(*e); } catch (const std::exception&) {}
    }
  }
  void run(const Op& op, unsigned) override
  {
    auto& names = StaticStringTracker::getInstance();
    auto& config = *TraceConfigurator::getInstance();
    switch (op.code)
    {
      case 0: each<EndpointProcessInfo>([](auto& e) { e.processInfo(); }); break;
      case 1: each<EndpointTraceMapping>([](auto& e) { e.mapping(); }); break;
      case 2:
        each<EndpointTraceConfigurator>([&](auto& e) {
          auto s = e.getTraceState();
          s.set_process_state = op.a % 2;
          for (auto& t : s.thread_state) t.second = op.a % 3 != 0;
          e.setTraceState(s);
        });
        break;
      case 3: manager->manage(); break;
      case 4: manager->endpoints(); break;
      case 5: manager->addEndpointFactory<EndpointTraceMapping>(); break;
      case 6: general->updateMapping(); general->getMapping(); break;
      case 7: general->makeSource()->finishInterval(); break;
      case 8: native->updateMapping(); native->getMapping(); break;
      case 9: info->setProcessName(std::string(op.a % 200, 'n')); break;
      case 10: ThreadNameTracker::getInstance().setCurrentName("t" + std::to_string(op.a % 100)); break;
      case 11: ThreadNameTracker::getInstance().setThreadName(op.a % 7, std::string(op.a % 50, 'x')); ThreadNameTracker::getInstance().getMap(); break;
      case 12:
        names.insert(static_cast<unsigned>(op.a % 50), std::string(op.a % 60, 's'));
        names.exists(static_cast<unsigned>(op.a % 50));
        if (op.a % 3 == 0) names.getMap();
        break;
      case 13:
        config.setProcessState(op.a % 2);
        config.setThreadState(op.a % 3 != 0);
        config.getThreadState();
        config.getProcessState();
        for (auto& t : config.getThreadMap()) t.second->store(op.a % 5 != 0);
        break;
      case 14:
      {
        // a thread that comes and goes
        std::thread([&] {
          ThreadNameTracker::getInstance().setCurrentName("short");
          config.getThreadState();
        }).join();
        break;
      }
      case 15: servers[1 + op.a % 2].swap(op.a % 3 ? serve(false) : nullptr); break;
    }
  }
  void main_thread(const Op& op) override
  {
    switch (op.a % 3)
    {
      case 0: manager->startPolling(0.001 * static_cast<double>(1 + op.a % 5)); break;
      case 1: manager->stopPolling(); break;
      default: std::this_thread::sleep_for(milliseconds(op.a % 5));
    }
  }
  TransportLoopbackFactory::Ptr factory;
  EndpointManagerPoll::Ptr manager;
  GeneralProvider::Ptr general;
  NativeTraceProvider::Ptr native;
  EndpointProcessInfo::Ptr info;
  Cell<Transport> servers[3];
  std::atomic<unsigned> logged{ 0 };
};

// ------------------------------------------------------------------------------------------ tracing
Backend& native_backend()
{
  static Backend b = [] { Backend x; x.load(VERIF_LIB_NATIVE); return x; }();
  return b;
}

struct Tracing : World
{
  Tracing()
  {
    factory = std::make_shared<TransportLoopbackFactory>();
    server.swap(serve());
    manager = std::make_shared<FakeManager>();
    provider = std::make_shared<NativeTraceProvider>(manager);
    client.swap(connect());
    for (auto& s : sources) s.swap(provider->makeSource());
    native_backend();
  }
  ~Tracing() override
  {
    client.swap(nullptr);
    other.swap(nullptr);
    server.swap(nullptr);
    for (auto& s : sources) s.swap(nullptr);
    TraceConfigurator::getInstance()->setProcessState(true);
  }
  Transport::Ptr serve()
  {
    auto s = factory->serve();
    s->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
    s->addEndpoint(std::make_shared<EndpointTraceMapping>());
    return s;
  }
  Transport::Ptr connect()
  {
    auto s = server.get();
    if (!s) return nullptr;
    auto c = factory->connect(s->getAddress());
    if (c)
    {
      c->addEndpoint(provider->receiveEndpoint());
      manager->add<EndpointTraceMapping>(c);
    }
    return c;
  }
  int codes() const override { return 12; }
  const char* name() const override { return "tracing and recording"; }
  void run(const Op& op, unsigned thread) override
  {
    auto& b = native_backend();
    auto s = sources[op.a % 2].get();
    switch (op.code)
    {
      case 0:
      case 1:
        for (unsigned i = 0; i < op.a % 40; i++) b.emit(Emitted{ static_cast<int>((op.a + i) % 6), thread * 10 + i % 7, static_cast<std::int64_t>(i) });
        break;
      case 2:
        std::thread([&] { for (unsigned i = 0; i < op.a % 20; i++) b.emit(Emitted{ static_cast<int>(i % 6), i, 1 }); }).join();
        break;
      // a source is used by one thread at a time, as its recorder does
      case 3: { std::lock_guard<std::mutex> l(source_m[op.a % 2]); s->startInterval(); break; }
      case 4: { std::lock_guard<std::mutex> l(source_m[op.a % 2]); s->stopInterval(); break; }
      case 5: { std::lock_guard<std::mutex> l(source_m[op.a % 2]); s->work(); break; }
      case 6:
      {
        std::lock_guard<std::mutex> l(source_m[op.a % 2]);
        auto events = s->finishInterval();
        finished += static_cast<unsigned>(events.size());
        break;
      }
      case 7: provider->makeSource()->startInterval(); break;
      case 8: if (s) sources[op.a % 2].swap(provider->makeSource()); break;
      case 9: provider->updateMapping(); provider->getMapping(); break;
      case 10: StaticStringTracker::getInstance().insert(thread * 10 + static_cast<unsigned>(op.a % 7), "n" + std::to_string(op.a % 9)); break;
      case 11: TraceConfigurator::getInstance()->setThreadState(op.a % 4 != 0); TraceConfigurator::getInstance()->setProcessState(op.a % 8 != 0); break;
    }
  }
  void main_thread(const Op& op) override
  {
    switch (op.a % 4)
    {
      case 0: { auto c = client.get(); if (c) manager->remove(c); c.reset(); client.swap(nullptr); client.swap(connect()); break; }
      case 1:
      {
        // the tracing side goes away, and comes back
        auto c = client.get();
        if (c) manager->remove(c);
        c.reset();
        client.swap(nullptr);
        auto s = server.get();
        server.swap(nullptr);
        if (op.a % 8 < 4) s.reset();
        server.swap(serve());
        client.swap(connect());
        break;
      }
      case 2: { auto o = other.get() ? nullptr : serve(); other.swap(o); break; }  // the process also serves its trace data on a second transport
      default: std::this_thread::sleep_for(milliseconds(op.a % 14));
    }
  }
  TransportLoopbackFactory::Ptr factory;
  Cell<Transport> server, client, other;
  std::shared_ptr<FakeManager> manager;
  NativeTraceProvider::Ptr provider;
  Cell<TraceEventSource> sources[2];
  std::mutex source_m[2];
  std::atomic<unsigned> finished{ 0 };
};
// ------------------------------------------------------------------------------------------ recorder, lttng
struct Recorders : World
{
  Recorders()
  {
    auto make = [this] {
      auto st = std::make_shared<SourceState>();
      st->who = "s" + std::to_string(made++);
      st->log = log;
      for (int k = 0; k < 40; k++)
      {
        Yield y;
        for (int i = 0; i < k % 4; i++) { y.events.push_back(json{ { "tag", st->who + "." + std::to_string(k) + "#" + std::to_string(i) } }); y.odd.push_back(false); }
        st->batches.push_back(y);
      }
      return st;
    };
    rec.addProvider(std::make_shared<FakeProvider>(make));
    rec.addProvider(std::make_shared<FakeProvider>(make));
    rec.start();
  }
  ~Recorders() override { rec.stop(); }
  int codes() const override { return 4; }
  const char* name() const override { return "recorder"; }
  void run(const Op& op, unsigned) override
  {
    switch (op.code)
    {
      case 0: rec.startInterval(); break;
      case 1: rec.stopInterval(); break;
      case 2:
      {
        try
        {
          for (auto& e : json::parse(rec.collectEvents()))
          {
            std::lock_guard<std::mutex> l(m);
            if (!seen.insert(e["tag"].get<std::string>()).second) problem.set("event " + e["tag"].get<std::string>() + " is yielded twice");
          }
        }
        catch (const std::exception& e) { problem.set(std::string("collectEvents: ") + e.what()); }
        break;
      }
      case 3: std::this_thread::sleep_for(milliseconds(op.a % 3)); break;
    }
    if (!log->error().empty()) problem.set(log->error());
  }
  int made{ 0 };
  std::shared_ptr<Log> log = std::make_shared<Log>();
  CatapultRecorder rec;
  std::mutex m;
  std::set<std::string> seen;
};

Viewers& viewers()
{
  static Viewers* v = new Viewers;
  return *v;
}
struct Lttng : World
{
  Lttng()
  {
    viewers().prepare("");
    manager = std::make_shared<FakeManager>();
    provider = std::make_shared<LttngProvider>("/some/path", manager);
    provider->setLogger([this](const std::string&) { logged++; });
    for (auto& s : sources) s.swap(provider->makeSource());
    met = viewer.meet(viewers());
  }
  ~Lttng() override { for (auto& s : sources) s.swap(nullptr); }
  int codes() const override { return 7; }
  const char* name() const override { return "lttng recordings"; }
  void run(const Op& op, unsigned) override
  {
    const auto k = op.a % 3;
    switch (op.code)
    {
      case 0: { std::lock_guard<std::mutex> l(source_m[k]); sources[k].get()->startInterval(); break; }
      case 1: { std::lock_guard<std::mutex> l(source_m[k]); sources[k].get()->stopInterval(); break; }
      case 2: { std::lock_guard<std::mutex> l(source_m[k]); finished += static_cast<unsigned>(sources[k].get()->finishInterval().size()); break; }
      case 3: { std::lock_guard<std::mutex> l(source_m[k]); sources[k].swap(provider->makeSource()); break; }
      case 4: provider->updateMapping(); provider->getMapping(); break;
      default:
      {
        std::lock_guard<std::mutex> l(viewer_m);
        if (!met) break;
        char b[256];
        std::string lines;
        for (unsigned i = 0; i < op.a % 9; i++)
        {
          std::snprintf(b, sizeof b, "[%.9f] (+?.?????????) host scalopus_scope_id:scope_%s: { cpu_id = 1 }, { vpid = 12, pthread_id = %u }, { id = %u }\n", 1.0 + time++ * 1e-3, i % 2 ? "exit" : "entry", i, i);
          lines += b;
        }
        viewer.write(lines);
      }
    }
  }
  std::shared_ptr<FakeManager> manager;
  LttngProvider::Ptr provider;
  Cell<TraceEventSource> sources[3];
  std::mutex source_m[3], viewer_m;
  Viewer viewer;
  bool met{ false };
  unsigned time{ 0 };
  std::atomic<unsigned> finished{ 0 }, logged{ 0 };
};

void property(Case& c)
{
  std::unique_ptr<World> w;
  const char* only = std::getenv("VERIF_WORLD");
  const auto world = only ? static_cast<std::uint64_t>(std::atoi(only)) : c.draw(12);
  switch (world)
  {
    case 0:
    case 1:
    case 2: w.reset(new Transports(false)); break;
    case 3:
    case 4: w.reset(new Transports(true)); break;
    case 5:
    case 6:
    case 7: w.reset(new Managed); break;
    case 8:
    case 9: w.reset(new Tracing); break;
    case 10: w.reset(new Recorders); break;
    default: w.reset(new Lttng); break;
  }
  const unsigned threads = 2 + static_cast<unsigned>(c.draw(3));
  std::vector<std::vector<Op>> programs(threads);
  unsigned ops = 0;
  for (auto& p : programs)
  {
    // a few operations, repeated: threads in a tight loop over the same thing meet
    const auto n = 1 + c.draw(8);
    const auto rounds = 1 + c.draw(6);
    std::vector<Op> body;
    for (std::uint64_t i = 0; i < n; i++) body.push_back(Op{ static_cast<int>(c.draw(static_cast<std::uint64_t>(w->codes()))), c.draw(1u << 16) });
    for (std::uint64_t r = 0; r < rounds; r++)
      for (auto o : body) { o.a = r ? pbt::mix(o.a + r) >> 8 : o.a; p.push_back(o); ops++; }
  }
  std::vector<Op> main_ops;
  for (auto n = c.draw(6); n > 0; n--) main_ops.push_back(Op{ 0, c.draw(1u << 10) });
  c.out() << w->name() << ", " << threads << " threads:";
  for (auto& p : programs) { c.out() << " ["; for (std::size_t i = 0; i < p.size() && i < 8; i++) c.out() << (i ? " " : "") << p[i].code; c.out() << "]x" << p.size(); }
  c.out() << "; ";
  struct Run
  {
    World* w;
    std::vector<std::vector<Op>> programs;
    std::atomic<unsigned> ready{ 0 }, finished{ 0 };
    std::atomic<bool> go{ false };
    std::vector<std::thread> threads;
  };
  auto* run = new Run;  // left as it is if the threads get stuck
  run->w = w.get();
  run->programs = programs;
  for (unsigned t = 0; t < threads; t++)
    run->threads.emplace_back([run, t] {
      run->ready++;
      while (!run->go) std::this_thread::yield();
      for (auto& o : run->programs[t])
      {
        try { run->w->run(o, t); }
        catch (const std::exception& e) { run->w->problem.set("operation " + std::to_string(o.code) + " threw " + e.what()); }
        run->w->done++;
      }
      run->finished++;
    });
  eventually([&] { return run->ready == threads; });
  run->go = true;
  // what may block is done by a thread that can be left behind
  std::atomic<bool>* main_done = new std::atomic<bool>(false);
  std::thread mt([run, main_ops, main_done] { for (auto& o : main_ops) { run->w->main_thread(o); run->w->done++; } *main_done = true; });
  // progress is slow under a sanitizer and load, but there is some
  unsigned last = w->done;
  double since = now();
  while (run->finished < threads || !*main_done)
  {
    std::this_thread::sleep_for(milliseconds(1));
    if (w->done != last) { last = w->done; since = now(); }
    if (now() - since > 40)
    {
      for (auto& t : run->threads) t.detach();
      mt.detach();
      const std::string name = w->name();
      w.release();
      c.fail_soft(name + ": the threads make no progress");
    }
  }
  for (auto& t : run->threads) t.join();
  mt.join();
  delete run;
  delete main_done;
  const auto p = w->problem.get();
  const std::string name = w->name();
  w.reset();
  if (p.rfind("SOFT ", 0) == 0) c.fail_soft(name + ": " + p.substr(5));
  c.check(p.empty(), name + ": " + p);
  c.label(name);
  c.label("operations", ops);
  c.nontrivial();
}
}  // namespace
PBT_MAIN(property)
