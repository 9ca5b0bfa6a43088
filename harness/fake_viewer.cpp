// Stands in for lttng and babeltrace: connects to the harness, says with which arguments it was run and then does what it
// is told. Started through a link of that name.
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <string>
#include <vector>

static bool all(int fd, const void* p, size_t n)
{
  const char* b = static_cast<const char*>(p);
  while (n)
  {
    ssize_t r = write(fd, b, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    b += r;
    n -= static_cast<size_t>(r);
  }
  return true;
}
static bool get(int fd, void* p, size_t n)
{
  char* b = static_cast<char*>(p);
  while (n)
  {
    ssize_t r = read(fd, b, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    b += r;
    n -= static_cast<size_t>(r);
  }
  return true;
}
int main(int argc, char** argv)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  const char* name = getenv("VERIF_VIEWER");
  if (!name) return 3;
  const char* how = getenv("VERIF_VIEWER_HOW");
  if (how && *how == 'x') return atoi(how + 1);  // fails at once
  if (how && *how == 'k') { kill(getpid(), SIGKILL); }
  if (how && *how == 'i') { signal(SIGINT, SIG_IGN); signal(SIGTERM, SIG_IGN); signal(SIGHUP, SIG_IGN); signal(SIGPIPE, SIG_IGN); }
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  size_t l = strlen(name);
  memcpy(a.sun_path + 1, name, l);
  if (connect(s, reinterpret_cast<sockaddr*>(&a), static_cast<socklen_t>(sizeof(sa_family_t) + 1 + l)) != 0) return 4;
  std::string hello;
  int32_t pid = getpid(), n = argc;
  hello.append(reinterpret_cast<char*>(&pid), 4);
  hello.append(reinterpret_cast<char*>(&n), 4);
  for (int i = 0; i < argc; i++) hello.append(argv[i], strlen(argv[i]) + 1);
  uint32_t len = static_cast<uint32_t>(hello.size());
  if (!all(s, &len, 4) || !all(s, hello.data(), len)) return 5;
  char op;
  while (get(s, &op, 1))
  {
    uint32_t k = 0;
    if (!get(s, &k, 4)) return 6;
    std::vector<char> d;
    char ok = '+';
    if (op == 'w' || op == 'e')
    {
      d.resize(k);
      if (k && !get(s, d.data(), k)) return 6;
      if (!all(op == 'w' ? 1 : 2, d.data(), k)) ok = '-';
    }
    else if (op == 'E')  // k bytes on stderr
    {
      d.assign(k, 'e');
      if (!all(2, d.data(), k)) ok = '-';
    }
    else if (op == 'c') close(1);
    else if (op == 'C') close(2);
    else if (op == 'x') _exit(static_cast<int>(k));
    else if (op == 'k') kill(getpid(), SIGKILL);
    else if (op == 's') { kill(getpid(), SIGSTOP); }
    if (!all(s, &ok, 1)) return 7;
  }
  // The harness closed the connection: carry on forever, as a live viewer does.
  while (true) pause();
}
