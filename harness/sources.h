// Trace event sources that record what is asked of them and yield generated events.
#ifndef VERIF_SOURCES_H
#define VERIF_SOURCES_H
#include <scalopus_interface/trace_event_provider.h>
#include <scalopus_interface/trace_event_source.h>
#include "fakes.h"

namespace vf
{
// What happened, in order, to every source of a case.
struct Log
{
  void add(const std::string& s) { std::lock_guard<std::mutex> l(m); entries.push_back(s); }
  std::vector<std::string> get() { std::lock_guard<std::mutex> l(m); return entries; }
  void error(const std::string& e) { std::lock_guard<std::mutex> l(m); if (first_error.empty()) first_error = e; }
  std::string error() { std::lock_guard<std::mutex> l(m); return first_error; }
  std::mutex m;
  std::vector<std::string> entries;
  std::string first_error;
};

// Where a source waits while an interval is being finished.
struct Gate
{
  void close() { std::lock_guard<std::mutex> l(m); shut = true; }
  void open() { std::lock_guard<std::mutex> l(m); shut = false; cv.notify_all(); }
  void pass()
  {
    std::unique_lock<std::mutex> l(m);
    waiting++;
    cv.wait(l, [this] { return !shut; });
    waiting--;
  }
  int inside() { std::lock_guard<std::mutex> l(m); return waiting; }
  std::mutex m;
  std::condition_variable cv;
  bool shut{ false };
  int waiting{ 0 };
};

struct Yield
{
  std::vector<json> events;
  std::vector<bool> odd;  // has text that is not UTF-8
  bool fails{ false };    // an exception instead of the events
};

// One batch of events; each is tagged with who yields it, so that it can be told from every other.
inline Yield make_batch(Case& c, const std::string& who, std::size_t n, bool odd_texts)
{
  static const std::vector<std::string> bad = { "\xff", "ab\xc3", "\xed\xa0\x80z", "\xf8\x88\x80\x80\x80", "x\x80y" };
  Yield y;
  // few choices decide many events
  const std::uint64_t s = n ? c.draw(1u << 16) : 0;
  std::vector<std::string> texts{ "", "f()" };
  for (int i = 0; i < 3 && n; i++) texts.push_back(c.text(6));
  std::set<std::size_t> odds;
  if (odd_texts && n)
    for (auto k = c.draw(4); k > 0; k--) odds.insert(c.draw(n));
  for (std::size_t i = 0; i < n; i++)
  {
    const auto r = pbt::mix(s + i);
    json e;
    e["tag"] = who + "#" + std::to_string(i);
    e["name"] = texts[r % texts.size()];
    e["ph"] = (r >> 8) % 2 ? "B" : "E";
    e["ts"] = static_cast<double>((r >> 16) % 1000000) / 1000.0;
    e["pid"] = (r >> 20) % 4;
    switch ((r >> 24) % 8)
    {
      case 0: e["args"] = json::object({ { "a", json::array({ 1, nullptr, texts[(r >> 30) % texts.size()] }) } }); break;
      case 1: e["tid"] = ~std::uint64_t(0) - (r >> 40); break;
      case 2: e["neg"] = -static_cast<std::int64_t>(r >> 10); break;
      case 3: e[texts[(r >> 30) % texts.size()] + "key"] = true; break;
      default: break;
    }
    const bool odd = odds.count(i) != 0;
    if (odd)
    {
      const auto& b = bad[(r >> 12) % bad.size()];
      if ((r >> 50) % 4 == 0) e[b] = 1;
      else e["name"] = b + texts[r % texts.size()];
    }
    y.events.push_back(std::move(e));
    y.odd.push_back(odd);
  }
  return y;
}
// The events that were sent are the events that were yielded; those with a text that cannot be written may differ or be absent.
inline std::string compare_events(const std::vector<json>& got, const std::vector<const Yield*>& want)
{
  std::size_t g = 0, n = 0;
  for (auto* y : want)
  {
    if (y->fails) continue;
    for (std::size_t i = 0; i < y->events.size(); i++, n++)
    {
      const auto& w = y->events[i];
      if (y->odd[i])
      {
        if (g < got.size() && got[g].is_object() && got[g].contains("tag") && got[g]["tag"] == w["tag"]) g++;
        continue;
      }
      if (g >= got.size()) return "event " + w["tag"].get<std::string>() + " is missing, " + std::to_string(got.size()) + " events were sent";
      if (got[g] != w) return "event " + w.dump() + " expected, got " + got[g].dump();
      g++;
    }
  }
  if (g != got.size()) return "an event too many: " + got[g].dump();
  return "";
}

// Sources may be written by users; some fail.
inline unsigned source_fails(Case& c, std::vector<Yield>& batches)
{
  for (auto& b : batches) b.fails = c.chance(1, 3);
  return static_cast<unsigned>(c.draw(8));
}

struct SourceState
{
  std::string who;
  std::vector<Yield> batches;  // the k-th time an interval is finished
  std::atomic<unsigned> works{ 0 };
  unsigned fails{ 0 };  // 1 starting, 2 stopping, 4 working fails (with an exception)
  std::atomic<bool> alive{ true };
  std::shared_ptr<Log> log;
  std::shared_ptr<Gate> gate;
};

class FakeSource : public scalopus::TraceEventSource
{
public:
  explicit FakeSource(std::shared_ptr<SourceState> s) : st(std::move(s)) {}
  ~FakeSource() override
  {
    Enter e(*this, "destruction");
    st->alive = false;
  }
  void startInterval() override { Enter e(*this, "start"); st->log->add(st->who + ":start"); fail(1, "start"); }
  void stopInterval() override { Enter e(*this, "stop"); st->log->add(st->who + ":stop"); fail(2, "stop"); }
  void work() override { Enter e(*this, "work"); st->works++; fail(4, "work"); }
  std::vector<json> finishInterval() override
  {
    Enter e(*this, "finish");
    st->log->add(st->who + ":finish");
    if (st->gate) st->gate->pass();
    if (finished >= st->batches.size()) return {};
    auto& b = st->batches[finished++];
    if (b.fails) throw std::runtime_error("source " + st->who + " can not finish");
    return b.events;
  }

private:
  void fail(unsigned what, const char* name) const
  {
    if (st->fails & what) throw std::runtime_error("source " + st->who + " can not " + name);
  }
  struct Enter
  {
    FakeSource& s;
    Enter(FakeSource& f, const char* what) : s(f)
    {
      if (s.busy.exchange(true)) s.st->log->error(std::string(what) + " of source " + s.st->who + " while it is in use");
    }
    ~Enter() { s.busy = false; }
  };
  std::shared_ptr<SourceState> st;
  std::atomic<bool> busy{ false };
  std::size_t finished{ 0 };
};

class FakeProvider : public scalopus::TraceEventProvider
{
public:
  using Make = std::function<std::shared_ptr<SourceState>()>;
  explicit FakeProvider(Make m) : make(std::move(m)) {}
  scalopus::TraceEventSource::Ptr makeSource() override 
  {
    auto st = make();
    return st ? std::make_shared<FakeSource>(st) : nullptr;
  }
  Make make;
};
}  // namespace vf
#endif
