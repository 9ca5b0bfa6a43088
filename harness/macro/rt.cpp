#include "rt.h"
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include <atomic>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>

namespace
{
struct Rec
{
  char kind;
  unsigned id;
  int level;
  std::int64_t value;
  bool known, thread_state, process_state;
  std::string name;
};
thread_local std::vector<Rec> rec;
thread_local std::int64_t counter = 0;
std::vector<std::pair<int, std::string>>& files()
{
  static std::vector<std::pair<int, std::string>> f;
  return f;
}
std::string hex(const std::string& s)
{
  static const char* d = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s)
  {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
void put(char kind, unsigned id, int level, std::int64_t value)
{
  auto& t = scalopus::StaticStringTracker::getInstance();
  auto c = scalopus::TraceConfigurator::getInstance();
  Rec r{ kind, id, level, value, t.exists(id), c->getThreadState(), c->getProcessState(), {} };
  if (r.known)
    r.name = t.getValue(id);
  rec.push_back(std::move(r));
}
}  // namespace

namespace scalopus
{
void scope_entry(const unsigned int id)
{
  put('E', id, 0, 0);
}
void scope_exit(const unsigned int id)
{
  put('X', id, 0, 0);
}
void mark_event(const unsigned int id, const MarkLevel mark_level)
{
  put('M', id, mark_level == MarkLevel::GLOBAL ? 0 : mark_level == MarkLevel::PROCESS ? 1 : mark_level == MarkLevel::THREAD ? 2 : 9, 0);
}
void count_event(const unsigned int id, const std::int64_t counter_value)
{
  put('C', id, 0, counter_value);
}
}  // namespace scalopus

namespace verif
{
void pretty(int key, const char* name)
{
  rec.push_back(Rec{ 'P', static_cast<unsigned>(key), 0, 0, true, false, false, name });
}
int file(int key, const char* name)
{
  files().emplace_back(key, name);
  return 0;
}
std::int64_t next()
{
  return ++counter;
}
}  // namespace verif

int main(int argc, char** argv)
{
  FILE* out = std::fopen(argv[1], "w");
  for (const auto& f : files())
    std::fprintf(out, "F %d %s\n", f.first, hex(f.second).c_str());
  auto configurator = scalopus::TraceConfigurator::getInstance();
  for (int i = 0; i < verif::program_count; i++)
  {
    const auto& p = verif::programs[i];
    std::fprintf(out, "B %d\n", p.index);
    std::fflush(out);
    configurator->setProcessState(p.process_state);
    std::vector<std::vector<Rec>> logs(static_cast<std::size_t>(p.threads));
    std::atomic<int> ready{ 0 };
    auto body = [&](std::size_t t) {
      auto c = scalopus::TraceConfigurator::getInstance();
      c->setThreadState(p.thread_state);
      rec.clear();
      counter = 0;
      ready++;
      while (ready.load() < p.threads)
      {
      }
      try
      {
        p.fn(p.arg);
      }
      catch (const verif::Ex&)
      {
      }
      rec.push_back(Rec{ 'S', 0, 0, 0, true, c->getThreadState(), c->getProcessState(), {} });
      logs[t] = std::move(rec);
    };
    if (p.threads == 1)
      body(0);
    else
    {
      std::vector<std::thread> ts;
      for (int t = 0; t < p.threads; t++)
        ts.emplace_back(body, static_cast<std::size_t>(t));
      for (auto& t : ts)
        t.join();
    }
    for (std::size_t t = 0; t < logs.size(); t++)
    {
      std::fprintf(out, "T %d %zu\n", p.index, t);
      for (const auto& r : logs[t])
        std::fprintf(out, "%c %u %d %lld %d %d %d %s\n", r.kind, r.id, r.level, static_cast<long long>(r.value), r.known ? 1 : 0, r.thread_state ? 1 : 0, r.process_state ? 1 : 0, hex(r.name).c_str());
    }
    std::fprintf(out, "D %d\n", p.index);
  }
  std::fclose(out);
  return 0;
}
