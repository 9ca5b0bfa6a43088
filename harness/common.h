// Helpers shared by the harnesses of the transports, endpoints and managers.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/transport.h>
#include <scalopus_interface/transport_factory.h>
#include "pbt.h"

namespace vf
{
using scalopus::Data;
using pbt::Case;
using std::chrono::milliseconds;

inline double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// The patience for things that take milliseconds. A verdict resting on it is soft.
constexpr double kPatience = 15.0;

template <typename F>
bool eventually(F f, double seconds = kPatience)
{
  const double end = now() + seconds;
  unsigned us = 100;
  while (true)
  {
    if (f()) return true;
    if (now() > end) return false;
    std::this_thread::sleep_for(std::chrono::microseconds(us));
    if (us < 5000) us = us * 2;
  }
}

// An endpoint made of functions.
class FnEndpoint : public scalopus::Endpoint
{
public:
  using Ptr = std::shared_ptr<FnEndpoint>;
  using Fn = std::function<bool(scalopus::Transport&, const Data&, Data&)>;
  FnEndpoint(std::string n, Fn h, Fn u = {}) : name(std::move(n)), on_handle(std::move(h)), on_unsolicited(std::move(u)) {}
  std::string getName() const override { return name; }
  bool handle(scalopus::Transport& t, const Data& in, Data& out) override { return on_handle ? on_handle(t, in, out) : false; }
  bool unsolicited(scalopus::Transport& t, const Data& in, Data& out) override { return on_unsolicited ? on_unsolicited(t, in, out) : false; }
  std::string name;
  Fn on_handle, on_unsolicited;
};

inline std::uint64_t hash(const Data& d)
{
  std::uint64_t h = 0xcbf29ce484222325ull ^ d.size();
  std::size_t i = 0;
  for (; i + 8 <= d.size(); i += 8)
  {
    std::uint64_t w;
    std::memcpy(&w, &d[i], 8);
    h = (h ^ w) * 0x100000001b3ull;
    h ^= h >> 29;
  }
  for (; i < d.size(); i++) h = (h ^ d[i]) * 0x100000001b3ull;
  return pbt::mix(h);
}
inline std::uint64_t hash(const std::string& s) { return hash(Data(s.begin(), s.end())); }

inline int count_fds()
{
  int n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  if (!d) return -1;
  while (::readdir(d)) n++;
  ::closedir(d);
  return n;
}

// ------------------------------------------------------------------------------------------ raw unix sockets
struct Wire
{
  std::uint64_t id{ 0 };
  std::string name;
  Data data;
  bool operator==(const Wire& o) const { return id == o.id && name == o.name && data == o.data; }
};
inline void put(Data& d, const void* p, std::size_t n) { auto* b = static_cast<const std::uint8_t*>(p); d.insert(d.end(), b, b + n); }
inline Data encode(const Wire& w)
{
  Data d;
  std::uint16_t nl = static_cast<std::uint16_t>(w.name.size());
  std::uint32_t dl = static_cast<std::uint32_t>(w.data.size());
  put(d, &w.id, 8);
  put(d, &nl, 2);
  put(d, w.name.data(), nl);
  put(d, &dl, 4);
  put(d, w.data.data(), w.data.size());
  return d;
}
// Parses whole messages off the front of the buffer.
inline void parse(Data& buf, std::vector<Wire>& out)
{
  std::size_t p = 0;
  while (true)
  {
    std::size_t q = p;
    Wire w;
    std::uint16_t nl;
    std::uint32_t dl;
    if (buf.size() - q < 10) break;
    std::memcpy(&w.id, &buf[q], 8);
    std::memcpy(&nl, &buf[q + 8], 2);
    q += 10;
    if (buf.size() - q < std::size_t(nl) + 4) break;
    w.name.assign(reinterpret_cast<const char*>(buf.data()) + q, nl);
    q += nl;
    std::memcpy(&dl, &buf[q], 4);
    q += 4;
    if (buf.size() - q < dl) break;
    w.data.assign(buf.begin() + q, buf.begin() + q + dl);
    q += dl;
    p = q;
    out.push_back(std::move(w));
  }
  buf.erase(buf.begin(), buf.begin() + p);
}
inline socklen_t abstract_name(sockaddr_un& a, const std::string& name)
{
  std::memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  std::memcpy(a.sun_path + 1, name.data(), std::min(name.size(), sizeof(a.sun_path) - 1));
  return static_cast<socklen_t>(sizeof(sa_family_t) + 1 + name.size());
}
inline int raw_connect(pid_t pid)
{
  int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0) return -1;
  sockaddr_un a;
  socklen_t l = abstract_name(a, std::to_string(pid) + "_scalopus");
  if (::connect(fd, reinterpret_cast<sockaddr*>(&a), l) != 0)
  {
    ::close(fd);
    return -1;
  }
  return fd;
}
inline int raw_listen(const std::string& name, int backlog = 16)
{
  int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0) return -1;
  sockaddr_un a;
  socklen_t l = abstract_name(a, name);
  if (::bind(fd, reinterpret_cast<sockaddr*>(&a), l) != 0 || ::listen(fd, backlog) != 0)
  {
    ::close(fd);
    return -1;
  }
  return fd;
}
inline bool raw_send(int fd, const void* p, std::size_t n)
{
  auto* b = static_cast<const char*>(p);
  while (n)
  {
    ssize_t r = ::send(fd, b, n, MSG_NOSIGNAL);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    b += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}
// The system call itself: not interrupted by what is done to the calls of the code under test.
inline int wait_for(pollfd* p, nfds_t n, int ms) { return static_cast<int>(::syscall(SYS_poll, p, n, ms)); }
// Reads what is there (waits up to ms). Returns false at end of stream or error.
inline bool raw_read(int fd, Data& buf, int ms)
{
  pollfd p{ fd, POLLIN, 0 };
  int r = wait_for(&p, 1, ms);
  if (r <= 0) return true;
  char tmp[65536];
  ssize_t n = ::recv(fd, tmp, sizeof tmp, MSG_DONTWAIT);
  if (n < 0) return errno == EAGAIN || errno == EINTR;
  if (n == 0) return false;
  buf.insert(buf.end(), tmp, tmp + n);
  return true;
}

// Does this destination denote the server of that process?
inline bool denotes(const scalopus::Destination::Ptr& d, pid_t pid)
{
  std::string s = static_cast<std::string>(*d), digits;
  for (char ch : s)
  {
    if (ch >= '0' && ch <= '9') digits += ch;
    else if (!digits.empty()) break;
  }
  return digits == std::to_string(pid);
}
inline scalopus::Destination::Ptr find_destination(scalopus::TransportFactory& f, pid_t pid)
{
  // the kernel may skip an entry of its list when others come and go while it is read
  for (int i = 0; i < 6; i++)
  {
    for (auto& d : f.discover()) if (denotes(d, pid)) return d;
    std::this_thread::sleep_for(std::chrono::milliseconds(1 << i));
  }
  return nullptr;
}

// ------------------------------------------------------------------------------------------ signals
// Delivers signals (with a handler that does nothing, installed with SA_RESTART) to all threads of the process.
class Signaller
{
public:
  explicit Signaller(unsigned every_us)
  {
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = [](int) {};
    sa.sa_flags = SA_RESTART;
    ::sigaction(SIGUSR2, &sa, nullptr);
    thread_ = std::thread([this, every_us] {
      const pid_t self = static_cast<pid_t>(::syscall(SYS_gettid));
      while (!stop_)
      {
        if (DIR* d = ::opendir("/proc/self/task"))
        {
          while (auto* e = ::readdir(d))
          {
            pid_t t = std::atoi(e->d_name);
            if (t > 0 && t != self) { ::syscall(SYS_tgkill, ::getpid(), t, SIGUSR2); sent++; }
          }
          ::closedir(d);
        }
        std::this_thread::sleep_for(std::chrono::microseconds(every_us));
      }
    });
  }
  ~Signaller()
  {
    stop_ = true;
    thread_.join();
  }
  std::atomic<std::uint64_t> sent{ 0 };

private:
  std::atomic<bool> stop_{ false };
  std::thread thread_;
};

// ------------------------------------------------------------------------------------------ child processes
class Child
{
public:
  // Runs f(in, out) in a child process: in delivers what the parent writes, out is read by the parent.
  explicit Child(const std::function<void(int, int)>& f)
  {
    int a[2], b[2];
    if (::pipe2(a, O_CLOEXEC) != 0 || ::pipe2(b, O_CLOEXEC) != 0) std::abort();
    pid = ::fork();
    if (pid == 0)
    {
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      pbt::Case::map() = nullptr;
      ::close(a[1]);
      ::close(b[0]);
      f(a[0], b[1]);
      ::_exit(0);
    }
    ::close(a[0]);
    ::close(b[1]);
    to = a[1];
    from = b[0];
  }
  bool tell(char ch) { return ::write(to, &ch, 1) == 1; }
  // waits for one byte; 0 if it did not come
  char hear(double seconds = kPatience)
  {
    pollfd p{ from, POLLIN, 0 };
    if (wait_for(&p, 1, static_cast<int>(seconds * 1000)) <= 0) return 0;
    char ch = 0;
    return ::read(from, &ch, 1) == 1 ? ch : 0;
  }
  int end(int sig)
  {
    if (pid <= 0) return 0;
    if (sig) ::kill(pid, sig);
    int st = 0;
    if (!sig && !eventually([&] { return ::waitpid(pid, &st, WNOHANG) == pid; })) { ::kill(pid, SIGKILL); ::waitpid(pid, &st, 0); st = -1; }
    else if (sig) ::waitpid(pid, &st, 0);
    pid = 0;
    return st;
  }
  ~Child()
  {
    end(SIGKILL);
    ::close(to);
    ::close(from);
  }
  Child(const Child&) = delete;
  pid_t pid{ 0 };
  int to{ -1 }, from{ -1 };
};

// Standard input is closed, as in some daemons: the next descriptor has number zero.
struct NoStdin
{
  NoStdin() = default;
  void begin(bool yes = true)
  {
    if (!yes || kept >= 0) return;
    kept = ::fcntl(0, F_DUPFD_CLOEXEC, 700);
    if (kept >= 0) ::close(0);
  }
  ~NoStdin()
  {
    if (kept < 0) return;
    ::dup2(kept, 0);
    ::close(kept);
  }
  NoStdin(const NoStdin&) = delete;
  int kept{ -1 };
};

// Many descriptors are open, as in busy servers: the next ones have numbers beyond those that fit in an fd_set.
struct ManyDescriptors
{
  ManyDescriptors() = default;
  bool begin(bool yes = true)
  {
    if (!yes || !open.empty()) return false;
    rlimit l;
    if (::getrlimit(RLIMIT_NOFILE, &l) != 0) return false;
    if (l.rlim_cur < 4096)
    {
      l.rlim_cur = l.rlim_max == RLIM_INFINITY ? 4096 : std::min<rlim_t>(l.rlim_max, 4096);
      ::setrlimit(RLIMIT_NOFILE, &l);
    }
    if (l.rlim_cur < 1500) return false;
    int fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
    while (fd >= 0 && open.size() < 1200)
    {
      open.push_back(fd);
      if (fd >= 1030) break;
      fd = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
    }
    return true;
  }
  ~ManyDescriptors()
  {
    for (int fd : open) ::close(fd);
  }
  ManyDescriptors(const ManyDescriptors&) = delete;
  std::vector<int> open;
};

// Starts another program, as traced programs may do; it runs for a while, also when this process ends. Returns when it runs.
inline pid_t start_program()
{
  int p[2];
  if (::pipe2(p, O_CLOEXEC) != 0) return -1;
  pid_t pid = ::fork();
  if (pid == 0)
  {
    ::execl("/bin/sleep", "sleep", "30", static_cast<char*>(nullptr));
    ::_exit(127);
  }
  ::close(p[1]);
  char ch;
  while (::read(p[0], &ch, 1) == -1 && errno == EINTR) {}
  ::close(p[0]);
  return pid;
}

inline std::vector<std::size_t> interesting_sizes()
{
  return { 0, 1, 2, 7, 8, 9, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 212991, 212992, 212993, 262144 };
}
// A payload size: small, boundary or large.
inline std::size_t payload_size(Case& c, std::size_t large_max)
{
  switch (c.draw(8))
  {
    case 0: return 0;
    case 1:
    case 2:
    case 3: return c.draw(64);
    case 4: return c.draw(5000);
    case 5:
    case 6: { static const auto s = interesting_sizes(); return c.pick(s); }
    default: return c.draw(large_max + 1);
  }
}
inline std::string endpoint_name(Case& c)
{
  switch (c.draw(8))
  {
    case 0: return std::string();
    case 1: return std::string(255 + c.draw(3), 'n');
    case 2: return std::string(1000 + c.draw(64536), static_cast<char>('a' + c.draw(26)));
    case 3: { auto b = c.bytes(1 + c.draw(8)); return std::string(b.begin(), b.end()); }
    default: return c.text(12);
  }
}
}  // namespace vf
#endif
