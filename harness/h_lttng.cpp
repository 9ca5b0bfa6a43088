// C15: recordings made from the output of the LTTng viewer.
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/lttng_source.h>
#include "recording.h"
#include "viewer.h"

using namespace vf;
using namespace scalopus;
namespace
{
constexpr int kMarkerPid = 999999;
constexpr long kBase = 1544361620;  // seconds; times of malformed lines are below 1000 s

struct Line : Event
{
  std::string text;
  bool event{ false };
  long long ns{ 0 };  // since kBase
};
const char* kNames[] = { "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };

struct World
{
  World()
  {
    viewers.prepare("");
    t = std::make_shared<FakeTransport>([this](const std::string& name, const Data& in, Data& out) {
      if (name != EndpointTraceMapping::name || in != Data{ 'm' }) return false;
      json j = json::object();
      std::lock_guard<std::mutex> l(m);
      j["mapping"] = names;
      out = json::to_bson(j);
      return true;
    });
    manager = std::make_shared<FakeManager>();
    manager->add<EndpointTraceMapping>(t);
    provider = std::make_shared<LttngProvider>("net://localhost/host/x/y", manager);
    if (!viewer.meet(viewers)) std::abort();
    control = provider->makeSource();
  }
  std::mutex m;
  Viewers viewers;
  Viewer viewer;
  FakeTransport::Ptr t;
  std::map<int, Names> names;
  std::shared_ptr<FakeManager> manager;
  LttngProvider::Ptr provider;
  TraceEventSource::Ptr control;
  long marker{ 0 };
};
World& world()
{
  static World* w = new World();
  return *w;
}

std::string event_line(const Line& l, const std::string& domain, const std::string& name, unsigned style)
{
  char ts[64];
  std::snprintf(ts, sizeof ts, "[%lld.%09lld]", kBase + l.ns / 1000000000ll, l.ns % 1000000000ll);
  std::string r = std::string(ts) + " eagle " + domain + ":" + name + ": ";
  r += style == 1 ? "{ }" : "{ cpu_id = 2 }";
  r += ", { ";
  if (style == 2) r += "procname = \"a, b = { 3 }\", ";
  if (style == 3) r += "pthread_id = " + std::to_string(l.tid) + ", vpid = " + std::to_string(l.pid);
  else r += "vpid = " + std::to_string(l.pid) + ", pthread_id = " + std::to_string(l.tid);
  r += " }, { id = " + std::to_string(l.id);
  if (l.kind == 5) r += ", value = " + std::to_string(l.value);
  r += " }";
  return r;
}

std::string differs_lines(const std::vector<json>& got, const std::vector<Line>& lines, std::size_t from, std::size_t to, const std::map<int, Names>& names, std::size_t& events, std::size_t& counters)
{
  std::vector<const Event*> ev;
  for (std::size_t i = from; i < to; i++) if (lines[i].event) ev.push_back(&lines[i]);
  std::string d = differs(got, expected(ev, names));
  if (d.empty()) { events += ev.size(); for (auto* e : ev) counters += e->kind == 5; }
  return d;
}

std::vector<json> relevant(std::vector<json> v)
{
  std::vector<json> r;
  for (auto& e : v)
  {
    if (!e.is_object()) { r.push_back(e); continue; }
    if (e.contains("pid") && e["pid"].is_number() && e["pid"] == kMarkerPid) continue;
    if (!e.contains("ts") || !e["ts"].is_number() || !(e["ts"].get<double>() >= 1e9)) continue;  // from a malformed line
    r.push_back(e);
  }
  return r;
}
}  // namespace

void run(Case& c)
{
  World& w = world();
  {
    std::lock_guard<std::mutex> l(w.m);
    w.names.clear();
  }
  std::vector<int> pids{ 1 };
  const std::size_t np = 1 + c.draw(3);
  for (std::size_t i = 0; i < np; i++) pids.push_back(static_cast<int>(c.chance(1, 4) ? 2 + c.draw(4194300) : 2 + c.draw(5)));
  for (auto& p : pids) if (p == kMarkerPid || p == 77777) p++;
  static const std::vector<unsigned int> idpool = { 0, 1, 2, 3, 4, 5, 0x7fffffffu, 0x80000000u, 0xffffffffu };
  auto names = gen_names(c, pids, idpool);
  {
    std::lock_guard<std::mutex> l(w.m);
    w.names = names;
  }
  std::vector<Line> lines;  // all written in this case
  std::size_t settled = 0;  // known to be read
  struct Rec
  {
    TraceEventSource::Ptr s;
    bool started{ false }, active{ false }, ever{ false };
    std::size_t from_lo{ 0 }, from_hi{ 0 }, to_lo{ 0 }, to_hi{ 0 };
  };
  std::vector<Rec> recs;
  const long long step = c.boolean() ? 1000 : 500;
  long long now = static_cast<long long>(c.draw(1000)) * 1000;
  std::size_t compared = 0, events = 0, malformed = 0, concurrent = 0, counters = 0;

  auto gen = [&](Line& l) {
    const unsigned what = static_cast<unsigned>(c.draw(12));
    l.kind = static_cast<int>(c.chance(1, 2) ? 5 : c.draw(6));
    l.pid = c.pick(pids);
    l.tid = c.chance(1, 4) ? 139688084124608ull + c.draw(3) : (c.chance(1, 8) ? c.draw(1ull << 63) : 1 + c.draw(3));
    l.id = c.chance(1, 8) ? static_cast<unsigned>(c.draw(1ull << 32)) : c.pick(idpool);
    l.value = c.chance(1, 4) ? static_cast<long long>(c.draw(0)) : c.range(-5, 5);
    if (c.chance(1, 20)) l.value = c.boolean() ? std::numeric_limits<long long>::min() : std::numeric_limits<long long>::max();
    // in steps of half a microsecond (a double holds the time since the epoch to a quarter), or equal
    switch (c.draw(5))
    {
      case 0: break;
      case 1: now += step; break;
      case 2: now += step * static_cast<long long>(c.draw(6000000)); break;
      case 3: now -= step * static_cast<long long>(c.draw(4)); break;
      default: now += 2 * step;
    }
    if (now < 0) now = 0;
    l.ns = now;
    const unsigned style = static_cast<unsigned>(c.chance(1, 3) ? 1 + c.draw(3) : 0);
    if (what < 8)
    {
      l.event = true;
      l.text = event_line(l, "scalopus_scope_id", kNames[l.kind], style);
      l.from = l.text;
      l.us = static_cast<double>(kBase) * 1e6 + static_cast<double>(l.ns) / 1e3;
      l.order = static_cast<std::uint64_t>(l.ns);
      return;
    }
    if (what == 8)
    {
      // an event of something else
      static const std::vector<std::string> domains = { "other", "scalopus_scope", "scalopus_scope_idx", "Scalopus_scope_id", "x_scalopus_scope_id" };
      l.text = event_line(l, c.pick(domains), kNames[l.kind], style);
      return;
    }
    malformed++;
    std::string good = "[" + std::to_string(c.draw(900)) + ".000000001] eagle scalopus_scope_id:" + kNames[l.kind] + ": { cpu_id = 2 }, { vpid = 77777, pthread_id = 5 }, { id = " + std::to_string(l.id) + (l.kind == 5 ? ", value = 3 }" : " }");
    switch (c.draw(8))
    {
      case 0: l.text = good.substr(0, c.draw(good.size() + 1)); break;
      case 1: { auto k = good.find("vpid"); good.replace(k, 4, c.boolean() ? "xpid" : "vpid2"); l.text = good; break; }
      case 2: { auto k = good.find("pthread_id"); good.replace(k, 10, "vtid"); l.text = good; break; }
      case 3: { auto k = good.find("value"); if (k != std::string::npos) good.replace(k, 5, "v"); l.text = good; break; }
      case 4: { auto k = good.find("id:") + 3; good.insert(k, c.boolean() ? "x_" : "exit_"); l.text = good; break; }
      case 5: l.text = c.text(40); for (auto& ch : l.text) if (ch == '\n') ch = ' '; break;
      case 6:
      {
        static const std::vector<std::string> stamps = { "[nan]", "[inf]", "[-inf]", "[]", "[x]", "[1e999]", "[-5]", "" };
        l.text = c.pick(stamps) + good.substr(good.find(']') + 1);
        break;
      }
      default:
      {
        l.text = good;
        std::size_t k = 1 + c.draw(3);
        for (std::size_t i = 0; i < k && !l.text.empty(); i++)
        {
          // not in the time, which is what tells these lines apart, nor to a plausible process
          std::size_t at = 20 + c.draw(l.text.size() > 20 ? l.text.size() - 20 : 1);
          if (at < l.text.size()) l.text[at] = " {}=,:\"\\x"[c.draw(9)];
        }
      }
    }
  };
  auto write = [&](std::size_t n) {
    std::string text;
    for (std::size_t i = 0; i < n; i++)
    {
      Line l;
      gen(l);
      text += l.text + "\n";
      lines.push_back(l);
    }
    w.viewer.tell('w', static_cast<std::uint32_t>(text.size()), text);
    c.out() << " write(" << n << ")";
  };
  auto settle = [&] {
    if (settled == lines.size()) return;
    if (w.viewer.done() == 0) c.fail_soft("what the viewer writes is not read");
    bool ok = eventually([&] {
      const long id = ++w.marker;
      w.control->startInterval();
      Line l;
      l.pid = kMarkerPid;
      l.tid = static_cast<unsigned long long>(id);
      l.kind = 0;
      if (w.viewer.write(event_line(l, "scalopus_scope_id", "scope_entry", 0) + "\n") == 0) return false;
      ::usleep(300);
      for (auto& e : w.control->finishInterval())
        if (e.contains("pid") && e["pid"] == kMarkerPid && e["tid"] == id) return true;
      return false;
    });
    if (!ok) c.fail_soft("a recording does not contain an event read while it was active");
    settled = lines.size();
  };
  auto maybe_settle = [&] { if (lines.size() - settled > 8 || c.chance(2, 3)) settle(); };

  const std::size_t n = 4 + c.draw(28);
  for (std::size_t i = 0; i < n; i++)
  {
    std::size_t what = c.draw(10);
    if (recs.empty()) what = 9;
    switch (what)
    {
      case 0:
      case 1:
      case 2:
        write(c.chance(1, 30) ? 100 + c.draw(400) : 1 + c.draw(10));
        break;
      case 3:
      case 4:
      {
        Rec& r = c.boolean() ? recs.back() : recs[c.draw(recs.size())];
        maybe_settle();
        c.out() << " start" << (&r - &recs[0]);
        r.from_lo = settled;
        r.s->startInterval();
        r.from_hi = lines.size();
        r.started = r.active = r.ever = true;
        r.to_lo = r.to_hi = 0;
        break;
      }
      case 5:
      {
        Rec& r = recs[c.draw(recs.size())];
        maybe_settle();
        c.out() << " stop" << (&r - &recs[0]);
        if (r.active) r.to_lo = settled;
        r.s->stopInterval();
        if (r.active) r.to_hi = lines.size();
        r.active = false;
        if (c.chance(1, 4)) r.s->stopInterval();
        break;
      }
      case 6:
      case 7:
      {
        std::size_t k = c.draw(recs.size());
        Rec& r = recs[k];
        if (!r.started)
        {
          // not started yet, or finished before
          c.out() << " finish-unstarted";
          auto got = relevant(r.s->finishInterval());
          if (!r.ever) c.check(got.empty(), "a recording that was not started has events");
          break;
        }
        maybe_settle();
        c.out() << " finish" << k;
        if (r.active) r.to_lo = settled;
        std::vector<json> got;
        try { got = relevant(r.s->finishInterval()); }
        catch (const std::exception& e) { c.fail(std::string("the recording is aborted: ") + e.what()); }
        if (r.active) r.to_hi = lines.size();
        r.active = false;
        std::string why;
        bool ok = false;
        for (std::size_t a = r.from_lo; a <= r.from_hi && !ok; a++)
          for (std::size_t b = std::max(a, r.to_lo); b <= std::max(a, r.to_hi) && !ok; b++)
          {
            std::string d = differs_lines(got, lines, a, b, names, events, counters);
            if (d.empty()) ok = true;
            else if (why.empty() || b == r.to_hi) why = d;
          }
        if (!ok) c.fail("a recording of lines " + std::to_string(r.from_lo) + ".." + std::to_string(r.to_hi) + " has " + why);
        compared++;
        for (auto& o : recs) concurrent += &o != &r && o.active;
        r.started = false;
        if (c.chance(1, 3)) recs.erase(recs.begin() + static_cast<long>(k));
        break;
      }
      case 8:
        c.out() << " drop";
        recs.erase(recs.begin() + static_cast<long>(c.draw(recs.size())));
        break;
      default:
        if (recs.size() < 4)
        {
          c.out() << " new";
          recs.emplace_back();
          recs.back().s = w.provider->makeSource();
          recs.back().s->work();
          if (c.chance(2, 3))
          {
            Rec& r = recs.back();
            c.out() << "+start";
            r.from_lo = settled;
            r.s->startInterval();
            r.from_hi = lines.size();
            r.started = r.active = r.ever = true;
            if (lines.size() - settled > 8) { settle(); r.s->startInterval(); r.from_lo = r.from_hi = settled; }
          }
        }
    }
  }
  recs.clear();
  settle();
  c.label("recordings compared", compared);
  c.label("events compared", events);
  c.label("counter events compared", counters);
  c.label("malformed lines", malformed);
  c.label("recordings compared besides active ones", concurrent);
  if (compared && events >= 2) c.nontrivial();
}
PBT_MAIN(run)
