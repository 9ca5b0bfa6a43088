// Gives one tracepoint backend to the harness: compiled once for each, against the headers a program uses.
#include <cstdint>
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_trace_raii.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <new>
#define SHIM extern "C" __attribute__((visibility("default")))

SHIM void shim_entry(unsigned int id) { scalopus::scope_entry(id); }
SHIM void shim_exit(unsigned int id) { scalopus::scope_exit(id); }
SHIM void shim_mark(unsigned int id, scalopus::MarkLevel level) { scalopus::mark_event(id, level); }
SHIM void shim_count(unsigned int id, std::int64_t value) { scalopus::count_event(id, value); }
SHIM void shim_raii_begin(void* p, unsigned int id) { new (p) scalopus::TraceRAII(id); }
SHIM void shim_raii_end(void* p) { static_cast<scalopus::TraceRAII*>(p)->~TraceRAII(); }
