// Runtime of the generated programs: records what the macros emit.
#ifndef VERIF_MACRO_RT_H
#define VERIF_MACRO_RT_H
#include <cstdint>
namespace verif
{
void pretty(int key, const char* name);
int file(int key, const char* name);
std::int64_t next();
struct Prog
{
  int index;
  void (*fn)(int);
  int arg;
  int threads;
  bool thread_state, process_state;
};
struct Ex
{
  int v;
};
extern const Prog programs[];
extern const int program_count;
}  // namespace verif
#endif
