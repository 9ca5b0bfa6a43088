// Schedule and I/O perturbation of the code under test: definitions of libc functions in the harness program take precedence
// over libc's in the repository's shared libraries too. Only behaviour that POSIX allows is produced: shorter reads on
// sockets, delays. Include in exactly one source file of a program.
#ifndef VERIF_INTERPOSE_H
#define VERIF_INTERPOSE_H
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <sched.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include "pbt.h"

namespace io
{
struct Config
{
  std::atomic<unsigned> short_read{ 0 };   // of 100: a read on a socket returns a shorter part
  std::atomic<unsigned> delay{ 0 };        // of 100: a delay around a call on a socket
  std::atomic<unsigned> delay_us{ 300 };   // at most
  std::atomic<unsigned> eintr{ 0 };        // of 1000: a call on a socket is interrupted by a signal before it did anything
  std::atomic<std::uint64_t> seed{ 0 };
  std::atomic<std::uint64_t> threads{ 0 };
  std::atomic<std::uint64_t> n_short{ 0 }, n_delay{ 0 }, n_eintr{ 0 };
  // called after a descriptor was closed (with its number)
  std::atomic<void (*)(int)> after_close{ nullptr };
};
inline Config& cfg()
{
  static Config* c = new Config;
  return *c;
}
inline std::uint64_t rnd()
{
  static thread_local std::uint64_t seen = 0, st = 0;
  std::uint64_t s = cfg().seed.load(std::memory_order_relaxed);
  if (seen != s || st == 0)
  {
    seen = s;
    st = pbt::mix(s ^ pbt::mix(cfg().threads.fetch_add(1, std::memory_order_relaxed) + 1));
  }
  st = pbt::mix(st);
  return st >> 8;
}
inline bool is_socket(int fd)
{
  struct stat s;
  return ::fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode);
}
inline void maybe_delay()
{
  unsigned d = cfg().delay.load(std::memory_order_relaxed);
  if (!d || rnd() % 100 >= d) return;
  int e = errno;
  cfg().n_delay.fetch_add(1, std::memory_order_relaxed);
  if (rnd() % 3 == 0) sched_yield();
  else
  {
    struct timespec t = { 0, static_cast<long>(1000 * (1 + rnd() % cfg().delay_us.load())) };
    nanosleep(&t, nullptr);
  }
  errno = e;
}
inline std::size_t shorten(std::size_t n)
{
  unsigned p = cfg().short_read.load(std::memory_order_relaxed);
  if (n <= 1 || !p || rnd() % 100 >= p) return n;
  cfg().n_short.fetch_add(1, std::memory_order_relaxed);
  std::size_t k = rnd() % 3 == 0 ? 1 : 1 + rnd() % (n - 1);
  return k;
}
inline void configure(unsigned short_read, unsigned delay, unsigned delay_us, std::uint64_t seed)
{
  cfg().seed = seed;
  cfg().delay_us = delay_us ? delay_us : 1;
  cfg().short_read = short_read;
  cfg().delay = delay;
}
inline bool interrupted()
{
  unsigned p = cfg().eintr.load(std::memory_order_relaxed);
  if (!p || rnd() % 1000 >= p) return false;
  cfg().n_eintr.fetch_add(1, std::memory_order_relaxed);
  errno = EINTR;
  return true;
}
inline void off() { cfg().short_read = 0; cfg().delay = 0; cfg().eintr = 0; cfg().after_close = nullptr; }
template <typename F> F real(const char* name) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name)); }
inline bool active() { return cfg().short_read.load(std::memory_order_relaxed) || cfg().delay.load(std::memory_order_relaxed) || cfg().eintr.load(std::memory_order_relaxed); }
}  // namespace io

extern "C" {
ssize_t read(int fd, void* b, size_t n)
{
  static auto f = io::real<ssize_t (*)(int, void*, size_t)>("read");
  if (!io::active() || !io::is_socket(fd)) return f(fd, b, n);
  io::maybe_delay();
  if (io::interrupted()) return -1;
  return f(fd, b, io::shorten(n));
}
ssize_t recv(int fd, void* b, size_t n, int fl)
{
  static auto f = io::real<ssize_t (*)(int, void*, size_t, int)>("recv");
  if (!io::active()) return f(fd, b, n, fl);
  io::maybe_delay();
  if (io::interrupted()) return -1;
  return f(fd, b, (fl & (MSG_WAITALL | MSG_PEEK)) ? n : io::shorten(n), fl);
}
ssize_t send(int fd, const void* b, size_t n, int fl)
{
  static auto f = io::real<ssize_t (*)(int, const void*, size_t, int)>("send");
  if (!io::active()) return f(fd, b, n, fl);
  io::maybe_delay();
  if (io::interrupted()) return -1;
  ssize_t r = f(fd, b, n, fl);
  io::maybe_delay();
  return r;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl)
{
  static auto f = io::real<ssize_t (*)(int, const struct msghdr*, int)>("sendmsg");
  if (!io::active()) return f(fd, m, fl);
  io::maybe_delay();
  if (io::interrupted()) return -1;
  ssize_t r = f(fd, m, fl);
  io::maybe_delay();
  return r;
}
ssize_t write(int fd, const void* b, size_t n)
{
  static auto f = io::real<ssize_t (*)(int, const void*, size_t)>("write");
  if (!io::active() || !io::is_socket(fd)) return f(fd, b, n);
  io::maybe_delay();
  if (io::interrupted()) return -1;
  ssize_t r = f(fd, b, n);
  io::maybe_delay();
  return r;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
  static auto f = io::real<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>("select");
  if (io::active() && io::interrupted()) return -1;
  return f(n, r, w, e, t);
}
int poll(struct pollfd* p, nfds_t n, int t)
{
  static auto f = io::real<int (*)(struct pollfd*, nfds_t, int)>("poll");
  if (io::active() && io::interrupted()) return -1;
  return f(p, n, t);
}
int close(int fd)
{
  static auto f = io::real<int (*)(int)>("close");
  auto hook = io::cfg().after_close.load();
  bool sock = hook && io::is_socket(fd);
  int r = f(fd);
  if (sock) hook(fd);
  return r;
}
}
#endif
