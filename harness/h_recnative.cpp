// C17: recordings made from the data of native trace senders.
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include "cborenc.h"
#include "recording.h"

using namespace vf;
using namespace scalopus;
namespace
{
constexpr std::uint64_t kBase = 1544361620000000000ull;  // ns
constexpr double kLow = 1544361620e6 - 1, kHigh = kLow + 1e10;

Data corrupt(Case& c, Data d)
{
  switch (c.draw(5))
  {
    case 0: d.resize(c.draw(d.size() + 1)); break;
    case 1: return c.bytes(c.draw(40));
    case 2: { auto extra = c.bytes(1 + c.draw(9)); d.insert(d.end(), extra.begin(), extra.end()); break; }
    default:
    {
      std::size_t k = 1 + c.draw(3);
      for (std::size_t i = 0; i < k && !d.empty(); i++) d[c.draw(d.size())] = static_cast<std::uint8_t>(c.draw(256));
    }
  }
  return d;
}
}  // namespace

void run(Case& c)
{
  std::vector<int> pids;
  const std::size_t np = 1 + c.draw(4);
  for (std::size_t i = 0; i < np; i++) pids.push_back(static_cast<int>(c.chance(1, 4) ? 1 + c.draw(4194304) : 1 + c.draw(5)));
  static const std::vector<unsigned int> idpool = { 0, 1, 2, 3, 4, 5, 0x7fffffffu, 0x80000000u, 0xffffffffu };
  const auto names = gen_names(c, pids, idpool);
  // One process that answers for all is enough: how the mappings are merged is judged elsewhere (C09)
  auto t = std::make_shared<FakeTransport>([&](const std::string& name, const Data& in, Data& out) {
    if (name != EndpointTraceMapping::name || in != Data{ 'm' }) return false;
    json j = json::object();
    j["mapping"] = names;
    out = json::to_bson(j);
    return true;
  });
  auto manager = std::make_shared<FakeManager>();
  manager->add<EndpointTraceMapping>(t);
  auto provider = std::make_shared<NativeTraceProvider>(manager);
  if (c.boolean()) provider->setLogger([](const std::string&) {});
  std::vector<Endpoint::Ptr> receivers;
  const std::size_t nr = 1 + c.draw(3);
  for (std::size_t i = 0; i < nr; i++) receivers.push_back(c.boolean() ? provider->factory(t) : provider->receiveEndpoint());

  struct Rec
  {
    TraceEventSource::Ptr s;
    bool started{ false }, active{ false }, ever{ false };
    std::vector<const Event*> events;
  };
  std::vector<Rec> recs;
  std::vector<std::unique_ptr<Event>> all;
  // in steps of half a microsecond: a double holds the time since the epoch to a quarter
  const std::uint64_t step = c.boolean() ? 1000 : 500;
  std::uint64_t now = kBase;
  std::size_t compared = 0, events = 0, corrupted = 0, counters = 0, concurrent = 0, dropped = 0;

  auto gen_chunk = [&](NChunk& chunk, std::vector<const Event*>& ev, std::vector<std::size_t>&) {
    int pid = c.pick(pids);
    chunk.pid = static_cast<std::uint64_t>(pid);
    std::map<std::uint64_t, std::vector<NEvent>> by;
    const std::size_t n = c.chance(1, 30) ? c.draw(200) : c.draw(8);
    for (std::size_t i = 0; i < n; i++)
    {
      NEvent e;
      switch (c.draw(5))
      {
        case 0: break;
        case 1: now += step; break;
        case 2: now += step * c.draw(6000000); break;
        case 3: { std::uint64_t back = step * c.draw(5); now = now > kBase + back ? now - back : kBase; break; }
        default: now += 2 * step;
      }
      if (now > kBase + 9000000000000ull) now = kBase;
      e.ts = now;
      e.id = c.chance(1, 8) ? static_cast<unsigned>(c.draw(1ull << 32)) : c.pick(idpool);
      e.type = static_cast<std::uint8_t>(c.chance(1, 2) ? 6 : 1 + c.draw(6));
      if (e.type == 6) e.value = c.chance(1, 4) ? static_cast<std::int64_t>(c.draw(0)) : c.range(-5, 5);
      if (e.type == 6 && c.chance(1, 10)) e.value = c.boolean() ? std::numeric_limits<std::int64_t>::min() : std::numeric_limits<std::int64_t>::max();
      std::uint64_t tid = c.chance(1, 4) ? 139688084124608ull + c.draw(3) : (c.chance(1, 8) ? (c.boolean() ? ~c.draw(1ull << 40) : c.draw(1ull << 63)) : 1 + c.draw(3));
      by[tid].push_back(e);
    }
    for (auto& b : by)
    {
      chunk.threads.emplace_back(b.first, b.second);
      for (auto& e : b.second)
      {
        std::unique_ptr<Event> x(new Event());
        x->us = static_cast<double>(e.ts / 1000) + static_cast<double>(e.ts % 1000) / 1e3;
        x->order = e.ts;
        x->pid = pid;
        x->tid = b.first;
        x->id = e.id;
        x->kind = e.type - 1;
        x->value = e.value;
        x->from = "id " + std::to_string(e.id) + " value " + std::to_string(e.value);
        ev.push_back(x.get());
        all.push_back(std::move(x));
      }
    }
  };
  auto relevant = [&](const std::vector<json>& v) {
    std::vector<json> r;
    for (auto& e : v)
    {
      if (!e.is_object() || !e.contains("ts") || !e["ts"].is_number()) { r.push_back(e); continue; }
      double ts = e["ts"].get<double>();
      if (ts < kLow || ts > kHigh) continue;  // from corrupted data
      r.push_back(e);
    }
    return r;
  };
  Data last;
  std::vector<const Event*> last_events;
  const std::size_t n = 4 + c.draw(28);
  for (std::size_t i = 0; i < n; i++)
  {
    std::size_t what = c.draw(11);
    if (recs.empty()) what = 10;
    switch (what)
    {
      case 0:
      case 1:
      case 2:
      case 3:
      {
        Data d, out;
        NChunk chunk;
        std::vector<const Event*> ev;
        if (c.chance(1, 4))
        {
          // corrupted: of a process, time and ids that the others do not have
          corrupted++;
          chunk.pid = 0x7f7f7f7full;
          std::size_t k = 1 + c.draw(4);
          chunk.threads.emplace_back(7, std::vector<NEvent>());
          for (std::size_t q = 0; q < k; q++)
          {
            NEvent e;
            e.ts = 0x01010101u;
            e.id = 0xfeed0000u + static_cast<unsigned>(q);
            e.type = static_cast<std::uint8_t>(1 + c.draw(9));
            chunk.threads.back().second.push_back(e);
          }
          d = corrupt(c, encode(chunk));
          c.out() << " corrupted(" << d.size() << "B)";
        }
        else
        {
          // the same data again is more data
          if (!last.empty() && c.chance(1, 12)) { d = last; ev = last_events; c.out() << " again"; }
          else
          {
            std::vector<std::size_t> unused;
            gen_chunk(chunk, ev, unused);
            d = encode(chunk);
          }
          last = d;
          last_events = ev;
          c.out() << " chunk(" << ev.size() << ")";
        }
        for (auto& r : recs) if (r.active) r.events.insert(r.events.end(), ev.begin(), ev.end());
        bool answer = false;
        try { answer = c.pick(receivers)->unsolicited(*t, d, out); }
        catch (const std::exception& e) { c.fail(std::string("receiving data throws ") + e.what()); }
        c.check(!answer, "the receiver answers");
        break;
      }
      case 4:
      case 5:
      {
        Rec& r = recs[c.draw(recs.size())];
        c.out() << " start" << (&r - &recs[0]);
        r.s->startInterval();
        r.started = r.active = r.ever = true;
        r.events.clear();
        break;
      }
      case 6:
      {
        Rec& r = recs[c.draw(recs.size())];
        c.out() << " stop" << (&r - &recs[0]);
        r.s->stopInterval();
        r.active = false;
        if (c.chance(1, 4)) r.s->stopInterval();
        break;
      }
      case 7:
      case 8:
      {
        std::size_t k = c.draw(recs.size());
        Rec& r = recs[k];
        c.out() << " finish" << k;
        std::vector<json> got;
        try { got = relevant(r.s->finishInterval()); }
        catch (const std::exception& e) { c.fail(std::string("the recording is aborted: ") + e.what()); }
        r.active = false;
        if (!r.started)
        {
          if (!r.ever) c.check(got.empty(), "a recording that was not started has events");
          break;
        }
        std::string why = differs(got, expected(r.events, names));
        if (!why.empty()) c.fail("a recording has " + why);
        compared++;
        events += r.events.size();
        for (auto* e : r.events) counters += e->kind == 5;
        for (auto& o : recs) concurrent += &o != &r && o.active;
        r.started = false;
        break;
      }
      case 9:
      {
        c.out() << " drop";
        std::size_t k = c.draw(recs.size());
        std::weak_ptr<TraceEventSource> weak = recs[k].s;
        recs.erase(recs.begin() + static_cast<long>(k));
        c.check(weak.expired(), "a recording that was dropped keeps recording");
        dropped++;
        break;
      }
      default:
        if (recs.size() < 4)
        {
          c.out() << " new";
          recs.emplace_back();
          recs.back().s = provider->makeSource();
          recs.back().s->work();
          if (c.chance(2, 3)) { recs.back().s->startInterval(); recs.back().started = recs.back().active = recs.back().ever = true; c.out() << "+start"; }
        }
    }
  }
  if (c.chance(1, 4))
  {
    c.out() << " provider goes";
    std::vector<Data> late;
    provider.reset();
    Data out;
    receivers[0]->unsolicited(*t, encode(NChunk{ 5, {} }), out);
    for (auto& r : recs)
    {
      try { r.s->finishInterval(); }
      catch (const std::exception& e) { c.fail(std::string("finishing a recording whose provider is gone throws ") + e.what()); }
    }
  }
  recs.clear();
  c.label("recordings compared", compared);
  c.label("events compared", events);
  c.label("counter events compared", counters);
  c.label("corrupted messages", corrupted);
  c.label("recordings compared besides active ones", concurrent);
  c.label("recordings dropped", dropped);
  if (compared && events >= 2) c.nontrivial();
}
PBT_MAIN(run)
