// C16: delivery of the events of the native backend.
#include "backends.h"
#include <scalopus_interface/transport_factory.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "cborenc.h"
#include "fakes.h"

using namespace vf;
using namespace scalopus;
namespace
{
struct Got
{
  unsigned long tid;
  NEvent e;
};
class Receiver : public Endpoint
{
public:
  std::string getName() const override { return "native_trace_receiver"; }
  bool unsolicited(Transport&, const Data& in, Data&) override
  {
    std::lock_guard<std::mutex> l(m);
    messages.push_back(in);
    return false;
  }
  // decodes what arrived; a problem if any
  std::string work()
  {
    std::vector<Data> todo;
    {
      std::lock_guard<std::mutex> l(m);
      todo.swap(messages);
    }
    for (auto& d : todo)
    {
      NChunk chunk;
      try { chunk = decode_chunk(d); }
      catch (const std::exception& e) { return std::string("the sender transmits something undecodable: ") + e.what(); }
      if (chunk.pid != static_cast<std::uint64_t>(::getpid())) return "the events are attributed to process " + std::to_string(chunk.pid);
      for (auto& t : chunk.threads)
        for (auto& e : t.second)
        {
          if (e.id == 0xfffffff0u) { if (e.value > sentinel) sentinel = e.value; continue; }
          got.push_back(Got{ t.first, e });
        }
    }
    return "";
  }
  std::mutex m;
  std::vector<Data> messages;
  std::vector<Got> got;
  std::int64_t sentinel{ 0 };
};
Backend& native()
{
  static Backend b = [] { Backend x; x.load(VERIF_LIB_NATIVE); return x; }();
  return b;
}
std::uint64_t now_ns()
{
  return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
}
// What a thread does: bursts of events with pauses between them
struct Step { std::size_t events; unsigned pause_us; bool yield; };
struct Instance
{
  std::vector<Step> steps;
  std::size_t total{ 0 };
  unsigned long tid{ 0 };
  bool remains{ false };
  std::uint64_t seed{ 0 };
  std::vector<std::pair<std::uint64_t, std::uint64_t>> when;
};
// event k of instance i
Emitted event_of(const Instance& in, std::size_t i, std::size_t k)
{
  const std::uint64_t r = pbt::mix(in.seed ^ k);
  Emitted e{ static_cast<int>(r % 6), static_cast<unsigned int>(i * 16384 + k), 0 };
  if (e.kind == kCount) e.value = (r >> 8) % 3 ? static_cast<std::int64_t>(r >> 16) % 100 - 50 : static_cast<std::int64_t>(pbt::mix(r));
  return e;
}
void execute(Instance& in, std::size_t i)
{
  in.tid = static_cast<unsigned long>(::pthread_self());
  std::size_t k = 0;
  for (auto& s : in.steps)
  {
    for (std::size_t q = 0; q < s.events; q++, k++)
    {
      Emitted e = event_of(in, i, k);
      auto a = now_ns();
      native().emit(e);
      in.when.emplace_back(a, now_ns());
    }
    if (s.pause_us) ::usleep(s.pause_us);
    if (s.yield) std::this_thread::yield();
  }
}
std::int64_t sentinel_counter = 0;
}  // namespace

void run(Case& c)
{
  native();
  TraceConfigurator::getInstance()->setProcessState(true);
  const bool unix_transport = c.boolean();
  TransportFactory::Ptr f;
  if (unix_transport) f = std::make_shared<TransportUnixFactory>();
  else f = std::make_shared<TransportLoopbackFactory>();
  auto server = f->serve();
  if (!server) c.discard();
  auto address = server->getAddress();
  struct Client
  {
    Transport::Ptr t;
    std::shared_ptr<Receiver> r{ std::make_shared<Receiver>() };
  };
  std::vector<Client> clients(1 + c.draw(3));
  c.out() << (unix_transport ? "unix" : "loopback") << " " << clients.size() << " clients";
  auto connect = [&](Client& cl) {
    cl.t = f->connect(address);
    if (!cl.t) c.fail_soft("no connection");
    cl.t->addEndpoint(cl.r);
  };
  for (auto& cl : clients) connect(cl);
  // The endpoint is added when all are connected and the server knows them
  struct Ping : Endpoint
  {
    std::string getName() const override { return "ping"; }
    bool handle(Transport&, const Data& in, Data& out) override { out = in; return true; }
  };
  server->addEndpoint(std::make_shared<Ping>());
  for (auto& cl : clients)
  {
    auto p = cl.t->request("ping", Data{ 1 });
    if (p->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) c.fail_soft("the server does not answer");
  }
  server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  auto sync = [&](std::vector<Client*> who) {
    // twice: the events of ended threads may be retrieved a round later than those of others
    for (int round = 0; round < 2; round++)
    {
      const std::int64_t id = ++sentinel_counter;
      native().emit(Emitted{ kCount, 0xfffffff0u, id });
      for (auto* cl : who)
      {
        std::string why;
        if (!eventually([&] { if (why.empty()) why = cl->r->work(); return !why.empty() || cl->r->sentinel >= id; })) c.fail_soft("an event is not transmitted");
        if (!why.empty()) c.fail(why);
      }
    }
  };
  std::vector<Client*> all;
  for (auto& cl : clients) all.push_back(&cl);
  sync(all);  // leftovers of earlier cases
  for (auto& cl : clients) { c.check(cl.r->got.empty() || true, ""); cl.r->got.clear(); }

  // A few phases; in each, threads run at once, then everything is settled or not.
  std::vector<std::unique_ptr<Instance>> instances;
  std::size_t total = 0, ended = 0, reused = 0;
  std::set<unsigned long> tids;
  const std::size_t phases = 1 + c.draw(3);
  std::size_t leaver = clients.size() > 1 && c.boolean() ? clients.size() - 1 : 0;
  for (std::size_t ph = 0; ph < phases; ph++)
  {
    const bool flood = c.chance(1, 25);  // many full buffers at once
    const std::size_t chains = 1 + c.draw(5);
    std::vector<std::vector<std::size_t>> chain(chains);
    for (auto& ch : chain)
    {
      std::size_t len = 1 + c.draw(3);
      for (std::size_t q = 0; q < len && instances.size() < 60; q++)
      {
        std::unique_ptr<Instance> in(new Instance());
        in->seed = c.draw(1u << 16);
        std::size_t ns = 1 + c.draw(4);
        for (std::size_t s = 0; s < ns; s++)
        {
          Step st{ flood && s == 0 ? 9900 - c.draw(3000) : c.chance(1, 12) ? c.draw(3000) : c.draw(12), 0, c.boolean() };
          if (!(flood && s == 0) && c.chance(1, 3)) st.pause_us = static_cast<unsigned>(c.draw(c.chance(1, 4) ? 15000 : 500));
          if (in->total + st.events > 9900) st.events = 0;
          in->total += st.events;
          in->steps.push_back(st);
        }
        ch.push_back(instances.size());
        instances.push_back(std::move(in));
      }
    }
    // a thread that remains, over all phases it executes more than its buffer holds
    const std::size_t remaining = instances.size();
    if (c.chance(1, flood ? 2 : 5))
    {
      std::unique_ptr<Instance> in(new Instance());
      in->seed = c.draw(1u << 16);
      in->remains = true;
      in->total = flood ? 9000 - c.draw(2000) : c.draw(c.boolean() ? 12 : 3000);
      in->steps.push_back(Step{ in->total, 0, false });
      instances.push_back(std::move(in));
    }
    c.out() << (flood ? " flood(" : " phase(");
    for (auto& ch : chain) { c.out() << "["; for (auto i : ch) c.out() << instances[i]->total << " "; c.out() << "]"; }
    c.out() << ")";
    const bool drop = leaver && ph + 1 == phases;
    std::vector<std::thread> th;
    // each chain: threads that run one after the other, and so tend to reuse ids
    for (auto& ch : chain)
    {
      th.emplace_back([&ch, &instances] {
        for (auto i : ch)
        {
          std::thread t([&instances, i] { execute(*instances[i], i); });
          t.join();
        }
      });
    }
    if (drop) { c.out() << " a client leaves"; clients[leaver].t.reset(); }
    if (remaining < instances.size()) { c.out() << " remaining thread: " << instances[remaining]->total; execute(*instances[remaining], remaining); }
    for (auto& t : th) t.join();
    if (flood) c.label("flood");
    if (c.boolean() || remaining < instances.size())
    {
      std::vector<Client*> who;
      for (auto& cl : clients) if (cl.t) who.push_back(&cl);
      sync(who);
    }
  }
  std::vector<Client*> who;
  for (auto& cl : clients) if (cl.t) who.push_back(&cl);
  sync(who);
  for (auto& in : instances) { total += in->total; if (in->remains) continue; ended++; if (!tids.insert(in->tid).second) reused++; }
  for (std::size_t k = 0; k < clients.size(); k++)
  {
    if (!clients[k].t) continue;
    const std::string at = "at client " + std::to_string(k) + " ";
    std::vector<std::vector<const Got*>> by(instances.size());
    for (auto& g : clients[k].r->got)
    {
      std::size_t i = g.e.id / 16384;
      if (i >= instances.size()) c.fail(at + "an event arrived that was not executed: id " + std::to_string(g.e.id));
      by[i].push_back(&g);
    }
    for (std::size_t i = 0; i < instances.size(); i++)
    {
      Instance& in = *instances[i];
      if (by[i].size() != in.total) c.fail(at + std::to_string(by[i].size()) + " events of a thread arrived that executed " + std::to_string(in.total));
      for (std::size_t q = 0; q < in.total; q++)
      {
        const Got& g = *by[i][q];
        Emitted want = event_of(in, i, q);
        Emitted got{ g.e.type - 1, g.e.id, g.e.type == 6 ? g.e.value : 0 };
        if (g.e.type < 1 || g.e.type > 6 || !(want == got)) c.fail(at + "event " + std::to_string(q) + " of a thread is of type " + std::to_string(g.e.type) + " with id " + std::to_string(g.e.id) + " value " + std::to_string(g.e.value) + " instead of " + show(want));
        if (g.tid != in.tid) c.fail(at + "an event is attributed to another thread");
        if (g.e.ts < in.when[q].first || g.e.ts > in.when[q].second) c.fail_soft(at + "the time of an event is not when it executed");
      }
    }
  }
  c.label("events", total);
  c.label("threads", ended);
  c.label("threads with a reused id", reused);
  if (total >= 10 && ended >= 2) c.nontrivial();
}
PBT_MAIN(run)
