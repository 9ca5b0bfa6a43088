// C20: the catapult server's executable: which port it serves for which arguments, and that it ends when asked to.
#include "common.h"
#include "viewer.h"
using namespace vf;

static std::string slurp(const std::string& f)
{
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static Viewers& viewers()
{
  static Viewers* v = new Viewers;
  return *v;
}
static void property(Case& c)
{
  auto& v = viewers();
  v.prepare(c.boolean() ? "absent" : "");
  const std::string portfile = v.dir + "/port", log = v.dir + "/log";
  ::unlink(portfile.c_str());
  std::vector<std::string> args{ VERIF_SERVER_EXE };
  int want = 9222;
  bool usage = false;
  switch (c.draw(6))
  {
    case 0: break;
    case 1: usage = true; args.push_back(c.pick(std::vector<std::string>{ "--help", "0", "", "x1" })); break;
    default: want = 1 + static_cast<int>(c.draw(65535)); args.push_back(std::to_string(want)); break;
  }
  if (args.size() > 1 && c.boolean()) args.push_back(c.pick(std::vector<std::string>{ "scalopus_target_session", "/some/where", "", "net://localhost/host/x/y" }));
  std::string shown;
  for (std::size_t i = 1; i < args.size(); i++) shown += "'" + args[i] + "' ";
  c.out() << "arguments " << shown << "; ";
  const pid_t pid = ::fork();
  if (pid == 0)
  {
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    ::setenv("SEASOCKS_SHIM_PORTFILE", portfile.c_str(), 1);
    int fd = ::open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ::dup2(fd, 1);
    ::dup2(fd, 2);
    std::vector<char*> av;
    for (auto& a : args) av.push_back(&a[0]);
    av.push_back(nullptr);
    ::execv(av[0], av.data());
    ::_exit(127);
  }
  c.check(pid > 0, "fork");
  int status = 0;
  bool ended = false;
  auto gone = [&] { if (!ended && ::waitpid(pid, &status, WNOHANG) == pid) ended = true; return ended; };
  auto finish = [&] { if (!gone()) { ::kill(pid, SIGKILL); ::waitpid(pid, &status, 0); } };
  if (usage)
  {
    if (!eventually(gone)) { finish(); c.fail_soft("arguments that are no port: the server runs on"); }
    c.check(WIFEXITED(status) && WEXITSTATUS(status) != 0 && WEXITSTATUS(status) < 80, "arguments that are no port: status " + std::to_string(status) + " " + slurp(log).substr(0, 500));
    c.check(slurp(portfile).empty(), "arguments that are no port: a port is served");
    return;
  }
  if (!eventually([&] { auto p = slurp(portfile); return (!p.empty() && p.back() == '\n') || gone(); }))
  {
    finish();
    c.fail_soft("no port is served");
  }
  c.check(!gone(), "the server ended with status " + std::to_string(status) + ": " + slurp(log).substr(0, 800));
  const int port = std::atoi(slurp(portfile).c_str());
  const bool in_loop = eventually([&] { return slurp(log).find("Use ctrl + c to quit") != std::string::npos; }, 3);
  if (c.boolean()) std::this_thread::sleep_for(milliseconds(c.draw(300)));
  ::kill(pid, SIGINT);
  const bool done = eventually(gone, 30);
  finish();
  c.check(port == want, "asked for port " + std::to_string(want) + ", port " + std::to_string(port) + " is served");
  if (!done) c.fail_soft("the server does not end");
  c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the server ended with status " + std::to_string(status) + ": " + slurp(log).substr(0, 2000));
  c.label(in_loop ? "served" : "ended early");
  c.nontrivial();
}
PBT_MAIN(property)
