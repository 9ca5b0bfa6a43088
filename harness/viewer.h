// The harness' end of the stand-ins for lttng and babeltrace (fake_viewer.cpp).
#ifndef VERIF_VIEWER_H
#define VERIF_VIEWER_H
#include <sys/stat.h>
#include "common.h"

namespace vf
{
// Whether there is something to read, however often signals interrupt the wait.
inline bool readable(int fd, double seconds)
{
  for (const double end = now() + seconds;;)
  {
    pollfd p{ fd, POLLIN, 0 };
    int r = wait_for(&p, 1, std::max(0, static_cast<int>((end - now()) * 1000)));
    if (r >= 0 || errno != EINTR) return r > 0;
  }
}
// Scratch directories with the programs, and the socket they connect to.
class Viewers
{
public:
  Viewers()
  {
    const char* s = ::getenv("VERIF_SCRATCH");
    dir = (s ? std::string(s) : std::string("/tmp")) + "/viewers." + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0755);
    ::mkdir((dir + "/bin").c_str(), 0755);
    ::mkdir((dir + "/none").c_str(), 0755);
    char exe[4096];
    ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::string self(exe, n > 0 ? static_cast<std::size_t>(n) : 0);
    std::string fake = self.substr(0, self.rfind('/')) + "/fake_viewer";
    for (const char* p : { "/bin/babeltrace", "/bin/lttng" })
    {
      ::unlink((dir + p).c_str());
      if (::symlink(fake.c_str(), (dir + p).c_str()) != 0) std::abort();
    }
    name = "verif_viewer_" + std::to_string(::getpid());
    listen_fd = raw_listen(name, 64);
    if (listen_fd < 0) std::abort();
    ::setenv("VERIF_VIEWER", name.c_str(), 1);
  }
  // Which programs the next tool finds: how is '' for a controlled one, 'xN' one that exits with N at once, 'k' one that
  // kills itself, 'i' a controlled one that ignores signals, 'absent'.
  void prepare(const std::string& how)
  {
    // Those that were ended before they were met.
    pollfd p{ listen_fd, POLLIN, 0 };
    while (::poll(&p, 1, 0) > 0) { int fd = ::accept4(listen_fd, nullptr, nullptr, SOCK_CLOEXEC); if (fd >= 0) ::close(fd); }
    ::setenv("VERIF_VIEWER_HOW", how.c_str(), 1);
    ::setenv("PATH", how == "absent" ? (dir + "/none").c_str() : (dir + "/bin").c_str(), 1);
  }
  std::string dir, name;
  int listen_fd{ -1 };
};
class Viewer
{
public:
  // Waits for the next viewer to report itself.
  bool meet(Viewers& v, double seconds = kPatience)
  {
    if (!readable(v.listen_fd, seconds)) return false;
    fd = ::accept4(v.listen_fd, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd < 0) return false;
    std::uint32_t len;
    if (!get(&len, 4) || len < 8 || len > (1u << 20)) return false;
    std::string h(len, 0);
    if (!get(&h[0], len)) return false;
    std::int32_t n;
    std::memcpy(&pid, &h[0], 4);
    std::memcpy(&n, &h[4], 4);
    std::size_t at = 8;
    for (int i = 0; i < n; i++)
    {
      args.emplace_back(h.c_str() + at);
      at += args.back().size() + 1;
    }
    return true;
  }
  bool tell(char op, std::uint32_t k, const std::string& data = std::string())
  {
    std::string m(1, op);
    m.append(reinterpret_cast<char*>(&k), 4);
    m += data;
    pending++;
    return raw_send(fd, m.data(), m.size());
  }
  // Waits for what was told to be done; 0 if it is not in time, '-' if the viewer can not
  char done(double seconds = kPatience)
  {
    char r = '+';
    while (pending)
    {
      char ch = 0;
      if (!get(&ch, 1, seconds)) return 0;
      pending--;
      if (ch != '+') r = ch;
    }
    return r;
  }
  char write(const std::string& s) { tell('w', static_cast<std::uint32_t>(s.size()), s); return done(); }
  bool get(void* p, std::size_t n, double seconds = kPatience)
  {
    auto* b = static_cast<char*>(p);
    while (n)
    {
      if (!readable(fd, seconds)) return false;
      ssize_t r = ::recv(fd, b, n, 0);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) return false;
      b += r;
      n -= static_cast<std::size_t>(r);
    }
    return true;
  }
  ~Viewer() { if (fd >= 0) ::close(fd); }
  Viewer() = default;
  Viewer(const Viewer&) = delete;
  int fd{ -1 };
  pid_t pid{ 0 };
  int pending{ 0 };
  std::vector<std::string> args;
};
}  // namespace vf
#endif
