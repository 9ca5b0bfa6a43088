// C22: the viewer process: started with the right arguments, consumed line by line, ended without a trace.
#include <scalopus_tracing/babeltrace_tool.h>
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/lttng_source.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include "fakes.h"
#include "viewer.h"

using namespace vf;
using scalopus::BabeltraceParser;
using scalopus::BabeltraceTool;

// ---------------------------------------------------------------- injected failures
static std::atomic<int> fork_fails{ 0 }, pipe_fails{ 0 };  // the n-th next call
static std::atomic<int> wide_kills{ 0 };                   // kill of something that is no single process
extern "C" {
pid_t fork()
{
  static auto f = reinterpret_cast<pid_t (*)()>(::dlsym(RTLD_NEXT, "fork"));
  if (fork_fails > 0 && --fork_fails == 0) { errno = EAGAIN; return -1; }
  return f();
}
int pipe(int p[2])
{
  static auto f = reinterpret_cast<int (*)(int*)>(::dlsym(RTLD_NEXT, "pipe"));
  if (pipe_fails > 0 && --pipe_fails == 0) { errno = EMFILE; return -1; }
  return f(p);
}
int pipe2(int p[2], int fl)
{
  static auto f = reinterpret_cast<int (*)(int*, int)>(::dlsym(RTLD_NEXT, "pipe2"));
  if (pipe_fails > 0 && --pipe_fails == 0) { errno = EMFILE; return -1; }
  return f(p, fl);
}
int kill(pid_t pid, int sig)
{
  if (pid <= 1) { wide_kills++; errno = EPERM; return -1; }  // never performed here
  return static_cast<int>(::syscall(SYS_kill, pid, sig));
}
}

struct Shared { std::atomic<int> clones; };
static Shared* shared()
{
  static Shared* s = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return s;
}
static pid_t owner = 0;
static void not_a_clone()
{
  if (::getpid() != owner) { shared()->clones++; ::_exit(99); }
}
static Viewers& viewers()
{
  static Viewers* v = new Viewers;
  return *v;
}

struct Sink
{
  std::mutex m;
  std::vector<std::string> lines;
  bool stopped{ false };
  int late{ 0 };
  std::size_t size() { std::lock_guard<std::mutex> l(m); return lines.size(); }
};
struct Recording
{
  std::shared_ptr<Sink> sink = std::make_shared<Sink>();
  std::shared_ptr<BabeltraceParser::EventCallback> cb;
  std::size_t from_min, from_max, to_min{ 0 }, to_max{ 0 };  // where its lines begin and end
};
struct Tool
{
  std::shared_ptr<BabeltraceTool> tool;
  std::shared_ptr<scalopus::LttngProvider> provider;
  std::vector<scalopus::TraceEventSource::Ptr> sources;
  std::unique_ptr<Viewer> viewer;
  Recording observer;
  std::vector<Recording> recordings;
  std::vector<std::string> lines;  // complete ones
  std::string partial;
  bool open{ false };  // the viewer can still write
  bool muted{ false };
};
static Recording record(BabeltraceTool& t)
{
  Recording r;
  auto s = r.sink;
  r.cb = t.addCallback([s](const scalopus::CTFEvent& e) {
    std::string l = e.line();
    if (!l.empty() && l.back() == '\n') l.pop_back();
    std::lock_guard<std::mutex> g(s->m);
    if (s->stopped) s->late++;
    s->lines.push_back(l);
  });
  return r;
}
static std::string gen_line(Case& c, int number)
{
  std::string l = std::to_string(number) + ":";
  switch (c.draw(9))
  {
    case 8:
      if (c.chance(1, 10)) { l += std::string(60000 + c.draw(400000), 'm'); break; }
      return c.boolean() ? std::string(1, static_cast<char>('a' + number % 26)) : std::string();
    case 0: break;
    case 1: l += std::string(c.draw(9000), 'l'); break;
    case 2: l += std::string(1000 + c.draw(60), 'k'); break;
    case 3: { auto b = c.bytes(c.draw(20)); for (auto ch : b) if (ch != '\n') l += static_cast<char>(ch); break; }
    case 4: l += "[1539203453.123456789] host scalopus_scope_id:scope_entry: { cpu_id = 1 }, { vpid = 4, pthread_id = 5 }, { id = 6 }"; break;
    default: { auto t = c.text(20); for (auto ch : t) if (ch != '\n') l += ch; }
  }
  return l;
}

static void run(Case& c)
{
  owner = ::getpid();
  shared()->clones = 0;
  wide_kills = 0;
  auto& v = viewers();
  std::string err;
  bool soft = false;
  auto bad = [&](const std::string& e, bool s = false) { if (err.empty()) { err = e; soft = s; } };
  ManyDescriptors many;
  if (many.begin(c.draw(12) == 1)) { c.out() << "many descriptors "; c.label("many descriptors"); }
  const int fds = count_fds();
  std::size_t delivered = 0, strange = 0;
  std::unique_ptr<Signaller> sig;
  if (c.chance(1, 6)) { c.out() << "signals "; sig.reset(new Signaller(3000)); }
  {
    std::vector<std::unique_ptr<Tool>> tools;
    int number = 0;
    auto catch_up = [&](Tool& t) {
      if (!t.tool) return;
      if (!eventually([&] { return t.observer.sink->size() >= t.lines.size(); })) bad("line " + std::to_string(t.observer.sink->size()) + " of " + std::to_string(t.lines.size()) + " that the viewer wrote is not delivered", true);
    };
    auto compare = [&](Recording& r, const Tool& t, bool whole_end) {
      std::lock_guard<std::mutex> l(r.sink->m);
      if (r.sink->late) bad("a recording receives lines after it was stopped");
      auto& got = r.sink->lines;
      for (std::size_t from = r.from_min; from <= r.from_max; from++)
      {
        const std::size_t to = from + got.size();
        if (to > t.lines.size()) break;
        if (!got.empty() || true)
        {
          if (to < r.to_min && !(got.empty() && r.to_min <= r.from_max)) continue;
          if (to > r.to_max) continue;
          if (std::equal(got.begin(), got.end(), t.lines.begin() + static_cast<long>(from))) { delivered += got.size(); return; }
        }
      }
      bad("a recording of lines " + std::to_string(r.from_min) + ".." + std::to_string(r.to_max) + " received " + std::to_string(got.size()) + " lines" + (got.empty() ? "" : ", first '" + got[0].substr(0, 60) + "'") + " instead of a run of the lines written");
    };
    auto stop = [&](Tool& t, std::size_t i, bool synced) {
      Recording& r = t.recordings[i];
      if (synced)
      {
        catch_up(t);
        const std::size_t want = r.from_min == r.from_max ? t.lines.size() - r.from_min : 0;
        if (want && !eventually([&] { return r.sink->size() >= want; })) bad("a recording does not receive the lines written while it is active", true);
      }
      r.to_min = synced ? t.lines.size() : 0;
      r.cb->disable();
      { std::lock_guard<std::mutex> l(r.sink->m); r.sink->stopped = true; }
      r.to_max = t.lines.size();
      compare(r, t, synced);
      r.cb.reset();
    };
    auto destroy = [&](Tool& t, bool mid) {
      if (!mid) catch_up(t);
      if (c.boolean()) { if (t.viewer) t.viewer.reset(); }
      while (c.draw(3) != 0 && !t.recordings.empty()) { std::size_t i = c.draw(t.recordings.size()); stop(t, i, false); t.recordings.erase(t.recordings.begin() + static_cast<long>(i)); }
      pid_t pid = t.viewer ? t.viewer->pid : 0;
      if (t.tool)
      {
        if (c.boolean()) { t.tool->halt(); if (c.boolean()) t.tool->halt(); }
        t.tool.reset();
      }
      t.sources.clear();
      t.provider.reset();
      if (pid > 0 && ::kill(pid, 0) == 0 && !eventually([&] { return ::kill(pid, 0) != 0; })) bad("the viewer is left running or as a zombie", true);
      for (auto& r : t.recordings) { r.to_min = 0; r.to_max = t.lines.size(); { std::lock_guard<std::mutex> l(r.sink->m); r.sink->stopped = true; } compare(r, t, false); }
    };
    const std::size_t n = 2 + c.draw(14);
    for (std::size_t i = 0; i < n && err.empty(); i++)
    {
      std::size_t what = c.draw(12);
      if (tools.empty()) what = 0;
      if (what == 0)
      {
        if (tools.size() >= 2) continue;
        static const std::vector<std::string> hows = { "", "", "", "", "", "", "", "", "", "absent", "x0", "x1", "k", "i" };
        static const std::vector<std::string> sessions = { "session", "a", "", "my session", "-e", "s'q\"" , "net:host" };
        static const std::vector<std::string> paths = { "net://localhost/host/eagle/scalopus_target_session", "/", "a/b", "./x y", "-/", "/tmp/'\"$x" };
        const std::string how = c.pick(hows);
        const bool session = c.boolean();
        const std::string path = session ? c.pick(sessions) : c.pick(paths);
        const bool provider = c.chance(1, 3);
        const unsigned fault = c.draw(16);
        v.prepare(how);
        if (fault == 14) fork_fails = 1;
        if (fault == 15) pipe_fails = 1 + static_cast<int>(c.draw(3));
        c.out() << " create(" << how << "," << path << (provider ? ",provider" : "") << (fault == 14 ? ",fork fails" : fault == 15 ? ",pipe fails" : "") << ")";
        std::unique_ptr<Tool> t(new Tool);
        try
        {
          if (provider) t->provider = std::make_shared<scalopus::LttngProvider>(path, std::make_shared<FakeManager>());
          else
          {
            t->tool = std::make_shared<BabeltraceTool>();
            t->tool->init(path);
            not_a_clone();
            if (c.chance(1, 6)) t->tool->init("other");
          }
        }
        catch (const std::exception& e) { not_a_clone(); if (fault < 14) bad(std::string("creating throws ") + e.what()); }
        not_a_clone();
        fork_fails = 0;
        pipe_fails = 0;
        if (how.empty() || how == "i")
        {
          if (fault >= 14) { strange++; t->tool.reset(); t->provider.reset(); continue; }
          t->viewer.reset(new Viewer);
          if (!t->viewer->meet(v)) { bad("the viewer is not started", true); break; }
          std::vector<std::string> want;
          if (session) want = { "lttng", "view", path, "-e", "babeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live" };
          else want = { "babeltrace", "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path };
          if (t->viewer->args != want)
          {
            std::string g;
            for (auto& a : t->viewer->args) g += " <" + a + ">";
            bad("the viewer is run as" + g);
          }
          t->open = true;
        }
        else strange++;
        if (how == "i") strange++;
        if (t->tool) { t->observer = record(*t->tool); }
        tools.push_back(std::move(t));
        continue;
      }
      Tool& t = *tools[c.draw(tools.size())];
      switch (what)
      {
        case 1:
        case 2:
        case 3:
        case 4:  // write
          if (t.open && t.viewer && !t.muted)
          {
            std::string text;
            std::size_t k = 1 + c.size(60);
            for (std::size_t q = 0; q < k; q++) text += gen_line(c, number++) + "\n";
            if (c.chance(1, 4)) text += gen_line(c, number++);
            c.out() << " write(" << k << " lines)";
            std::string all = t.partial + text;
            t.partial.clear();
            std::size_t at = 0, e;
            while ((e = all.find('\n', at)) != std::string::npos) { t.lines.push_back(all.substr(at, e - at)); at = e + 1; }
            t.partial = all.substr(at);
            // in pieces, or at once
            std::size_t p = 0;
            while (p < text.size())
            {
              std::size_t len = c.chance(1, 2) ? text.size() - p : 1 + c.draw(text.size() - p);
              t.viewer->tell('w', static_cast<std::uint32_t>(len), text.substr(p, len));
              p += len;
            }
            if (t.viewer->done() == 0) bad("what the viewer writes is not read", true);
            if (t.provider) for (auto& s : t.sources) s->work();
          }
          break;
        case 5:  // stderr
          if (t.open && t.viewer)
          {
            std::uint32_t k = static_cast<std::uint32_t>(c.boolean() ? c.draw(2000) : c.draw(200000));
            c.out() << " stderr(" << k << ")";
            t.viewer->tell('E', k);
            if (t.viewer->done() == 0) bad("the viewer is blocked by its error output", true);
            strange++;
          }
          break;
        case 6:
        case 7:
          if (t.tool && t.recordings.size() < 4)
          {
            const bool synced = c.boolean();
            if (synced) catch_up(t);
            Recording r;
            const std::size_t seen = t.observer.sink->size();
            r = record(*t.tool);
            r.from_min = synced ? t.lines.size() : (seen ? seen - 1 : 0);
            r.from_max = t.lines.size();
            t.recordings.push_back(r);
            c.out() << " start";
          }
          if (t.provider && t.sources.size() < 3)
          {
            t.sources.push_back(t.provider->makeSource());
            t.sources.back()->startInterval();
            c.out() << " source";
          }
          break;
        case 8:
        case 9:
          if (!t.recordings.empty())
          {
            std::size_t k = c.draw(t.recordings.size());
            c.out() << " stop";
            stop(t, k, c.boolean());
            t.recordings.erase(t.recordings.begin() + static_cast<long>(k));
          }
          if (!t.sources.empty()) { t.sources.back()->finishInterval(); if (c.boolean()) t.sources.pop_back(); }
          break;
        case 10:  // the viewer ends in some way
          if (t.open && t.viewer && c.boolean())
          {
            strange++;
            std::size_t how = c.draw(5);
            c.out() << " viewer-ends(" << how << ")";
            t.open = false;
            switch (how)
            {
              case 0: t.viewer->tell('x', 0); break;
              case 1: t.viewer->tell('x', 1); break;
              case 2: t.viewer->tell('k', 0); break;
              case 3: t.viewer->tell('s', 0); break;
              default: t.viewer->tell('c', 0); t.viewer->done();
            }
            if (how != 3)
            {
              if (!t.partial.empty()) { t.lines.push_back(t.partial); t.partial.clear(); }
              catch_up(t);
            }
          }
          break;
        default:
          c.out() << " destroy";
          {
            std::size_t k = 0;
            while (tools[k].get() != &t) k++;
            destroy(t, c.boolean());
            tools.erase(tools.begin() + static_cast<long>(k));
          }
      }
    }
    for (auto& t : tools) destroy(*t, c.boolean());
  }
  not_a_clone();
  if (sig) { c.label("signals sent", sig->sent.load()); sig.reset(); }
  // Viewers that reported themselves too late to be met.
  pollfd p{ v.listen_fd, POLLIN, 0 };
  while (::poll(&p, 1, 0) > 0) { int fd = ::accept(v.listen_fd, nullptr, nullptr); if (fd >= 0) ::close(fd); }
  siginfo_t si;
  auto none = [&] { std::memset(&si, 0, sizeof si); return ::waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == -1 && errno == ECHILD; };
  if (!none() && !eventually(none, err.empty() ? 10 : 0.1)) bad(si.si_pid ? "an ended viewer is left as a zombie" : "a child process is left behind", true);
  // leave nothing behind ourselves
  while (true)
  {
    std::memset(&si, 0, sizeof si);
    if (::waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) != 0) break;
    if (!si.si_pid) break;
    ::waitpid(si.si_pid, nullptr, 0);
  }
  if (shared()->clones) { err = "the host process was cloned: a copy of it runs on where the viewer could not be started"; soft = false; }
  if (wide_kills) { err = "a signal is sent to all processes"; soft = false; }
  if (err.empty())
  {
    int after = count_fds();
    if (after != fds) bad(std::to_string(after - fds) + " descriptors leaked");
  }
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("lines delivered to recordings", delivered);
  c.label("unusual viewers", strange);
  if (delivered || strange) c.nontrivial();
}
PBT_MAIN(run)
