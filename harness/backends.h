// The three tracepoint backends, loaded next to each other, and what they emit.
#ifndef VERIF_BACKENDS_H
#define VERIF_BACKENDS_H
#include <dlfcn.h>
#include <lttng/ust-events.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include "common.h"

extern "C" int lttng_ust_tracepoint_provider_register(const char* provider_name, const char* event_name, void (*func)(void), void* data, const char* signature);

namespace vf
{
enum Kind { kEntry, kExit, kGlobal, kProcess, kThread, kCount };
struct Emitted
{
  int kind;
  unsigned int id;
  std::int64_t value;
  bool operator==(const Emitted& o) const { return kind == o.kind && id == o.id && value == o.value; }
};
inline std::string show(const Emitted& e)
{
  static const char* k[] = { "entry", "exit", "global", "process", "thread", "count" };
  return std::string(k[e.kind]) + " " + std::to_string(e.id) + (e.kind == kCount ? "=" + std::to_string(e.value) : "");
}
inline std::string show(const std::vector<Emitted>& v)
{
  std::string r = "[";
  for (std::size_t i = 0; i < v.size() && i < 30; i++) r += (i ? ", " : "") + show(v[i]);
  return r + (v.size() > 30 ? ", ..." : "") + "]";
}

struct Backend
{
  void (*entry)(unsigned int);
  void (*exit)(unsigned int);
  void (*mark)(unsigned int, scalopus::MarkLevel);
  void (*count)(unsigned int, std::int64_t);
  void (*raii_begin)(void*, unsigned int);
  void (*raii_end)(void*);
  void emit(const Emitted& e) const
  {
    switch (e.kind)
    {
      case kEntry: entry(e.id); break;
      case kExit: exit(e.id); break;
      case kGlobal: mark(e.id, scalopus::MarkLevel::GLOBAL); break;
      case kProcess: mark(e.id, scalopus::MarkLevel::PROCESS); break;
      case kThread: mark(e.id, scalopus::MarkLevel::THREAD); break;
      default: count(e.id, e.value);
    }
  }
  void load(const char* file)
  {
    void* h = ::dlopen(file, RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::fprintf(stderr, "%s\n", ::dlerror()); std::abort(); }
    auto sym = [&](const char* n) { void* p = ::dlsym(h, n); if (!p) { std::fprintf(stderr, "%s lacks %s\n", file, n); std::abort(); } return p; };
    entry = reinterpret_cast<void (*)(unsigned int)>(sym("shim_entry"));
    exit = reinterpret_cast<void (*)(unsigned int)>(sym("shim_exit"));
    mark = reinterpret_cast<void (*)(unsigned int, scalopus::MarkLevel)>(sym("shim_mark"));
    count = reinterpret_cast<void (*)(unsigned int, std::int64_t)>(sym("shim_count"));
    raii_begin = reinterpret_cast<void (*)(void*, unsigned int)>(sym("shim_raii_begin"));
    raii_end = reinterpret_cast<void (*)(void*)>(sym("shim_raii_end"));
  }
};

// What is emitted to LTTng: a probe of our own is registered for every tracepoint, as the tracer would.
struct LttngLog
{
  std::mutex m;
  std::map<unsigned long, std::vector<Emitted>> by_thread;
  std::string problem;
  static LttngLog& get() { static LttngLog* l = new LttngLog(); return *l; }
  void add(int kind, unsigned int id, std::int64_t value)
  {
    std::lock_guard<std::mutex> l(m);
    by_thread[static_cast<unsigned long>(::pthread_self())].push_back(Emitted{ kind, id, value });
  }
  std::set<std::string> events;
};
inline void lttng_probe(void* kind, unsigned int id) { LttngLog::get().add(static_cast<int>(reinterpret_cast<std::intptr_t>(kind)), id, 0); }
inline void lttng_probe_count(void* kind, unsigned int id, std::int64_t value) { LttngLog::get().add(static_cast<int>(reinterpret_cast<std::intptr_t>(kind)), id, value); }
}  // namespace vf

// The library announces its events here; hand our probes to the tracepoints.
extern "C" struct lttng_ust_registered_probe* lttng_ust_probe_register(const struct lttng_ust_probe_desc* desc)
{
  using Fn = struct lttng_ust_registered_probe* (*)(const struct lttng_ust_probe_desc*);
  static Fn real = reinterpret_cast<Fn>(::dlsym(RTLD_NEXT, "lttng_ust_probe_register"));
  if (std::string(desc->provider_name) == "scalopus_scope_id")
  {
    auto& log = vf::LttngLog::get();
    static const char* names[] = { "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };
    for (unsigned i = 0; i < desc->nr_events; i++)
    {
      const auto* e = desc->event_desc[i];
      for (int k = 0; k < 6; k++)
      {
        if (std::string(e->event_name) != names[k]) continue;
        log.events.insert(names[k]);
        std::string fields;
        for (std::size_t f = 0; f < e->tp_class->nr_fields; f++) fields += std::string(e->tp_class->fields[f]->name) + " ";
        if (fields != (k == 5 ? "id value " : "id ")) log.problem += std::string(names[k]) + " has the fields " + fields;
        void (*fn)(void) = k == 5 ? reinterpret_cast<void (*)(void)>(&vf::lttng_probe_count) : reinterpret_cast<void (*)(void)>(&vf::lttng_probe);
        if (lttng_ust_tracepoint_provider_register(desc->provider_name, e->event_name, fn, reinterpret_cast<void*>(static_cast<std::intptr_t>(k)), e->tp_class->signature) != 0)
          log.problem += std::string("no probe for ") + names[k];
      }
    }
  }
  return real ? real(desc) : nullptr;
}
#endif
