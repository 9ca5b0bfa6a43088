// C04: peers that are absent, fail or go away at generated points.
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <sys/resource.h>
#include <deque>
#include "common.h"
#include "interpose.h"

using namespace vf;
using scalopus::Transport;
using scalopus::TransportFactory;
using Fut = Transport::PendingResponse;

static TransportFactory::Ptr make(bool is_unix)
{
  if (is_unix) return std::make_shared<scalopus::TransportUnixFactory>();
  return std::make_shared<scalopus::TransportLoopbackFactory>();
}
static FnEndpoint::Ptr echo(const std::string& n) { return std::make_shared<FnEndpoint>(n, [](Transport&, const Data& in, Data& out) { out = in; return true; }); }
static bool served(const Transport::Ptr& t, std::string& why, bool& soft)
{
  auto f = t->request("echo", { 4, 2 });
  if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) { why = "a request was not answered"; soft = true; return false; }
  try { if (f->get() == Data{ 4, 2 }) return true; why = "a request was answered wrongly"; }
  catch (const std::exception& e) { why = std::string("a request failed: ") + e.what(); }
  return false;
}

// ---------------------------------------------------------------- nothing there
static void absent(Case& c)
{
  const bool is_unix = c.boolean();
  NoStdin no_stdin;
  no_stdin.begin(c.chance(1, 8));
  const int fds = count_fds();
  c.out() << "absent " << (is_unix ? "unix:" : "loopback:");
  {
    auto factory = make(is_unix);
    auto other = make(!is_unix);
    Transport::Ptr server;
    scalopus::Destination::Ptr stale;
    std::vector<Transport::Ptr> clients;
    std::string why;
    bool soft = false;
    const std::size_t n = 1 + c.size(14);
    for (std::size_t i = 0; i < n; i++)
    {
      switch (c.draw(7))
      {
        case 0:
        {
          c.out() << " serve";
          auto t = factory->serve();
          if (server && is_unix)
          {
            c.check(t == nullptr, "a second server on the same name was created");
            break;
          }
          c.check(t != nullptr, "could not serve");
          if (!server) { server = t; server->addEndpoint(echo("echo")); stale = server->getAddress(); }
          break;
        }
        case 1:
          c.out() << " unserve";
          if (server)
          {
            clients.clear();
            server.reset();
          }
          break;
        case 2:
        {
          c.out() << " connect(nothing)";
          c.check(factory->connect(nullptr) == nullptr, "connected to no destination");
          auto os = other->serve();
          if (os) c.check(factory->connect(os->getAddress()) == nullptr, "connected to the destination of another kind of transport");
          break;
        }
        case 3:
        {
          if (!stale) break;
          c.out() << " connect";
          auto t = factory->connect(stale);
          c.check((t != nullptr) == (server != nullptr), server ? "could not connect to a server" : "connected to a server that is gone");
          if (t)
          {
            c.check(t->isConnected(), "a client does not report to be connected");
            if (!served(t, why, soft)) { t.reset(); clients.clear(); if (soft) c.fail_soft(why); c.fail(why); }
            if (c.boolean()) clients.push_back(t);
          }
          break;
        }
        case 4:
        {
          if (!is_unix) break;
          c.out() << " exhausted";
          // no descriptors left; the server closes those of clients that left on its own time
          const int expected = fds + (server ? 1 : 0) + 2 * static_cast<int>(clients.size());
          if (!eventually([&] { return count_fds() == expected; }, 3)) c.fail_soft("connections of clients that left stay open");
          rlimit old, low;
          ::getrlimit(RLIMIT_NOFILE, &old);
          int any = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
          int probe = ::dup(any);
          low = old;
          low.rlim_cur = static_cast<rlim_t>(probe);
          std::vector<int> fill;
          ::close(probe);
          ::setrlimit(RLIMIT_NOFILE, &low);
          while (true) { int f = ::dup(any); if (f < 0) break; fill.push_back(f); }
          // One is left for a client: the server can't accept it, which does not affect the clients it has.
          const bool one_left = server && !clients.empty() && c.boolean();
          std::string other_why;
          bool other_soft = false, newcomer_served = true;
          if (one_left)
          {
            c.out() << "(one left)";
            c.label("a client that can not be accepted");
            low.rlim_cur++;
            ::setrlimit(RLIMIT_NOFILE, &low);
            auto newcomer = factory->connect(stale);
            auto other_client = clients[c.draw(clients.size())];
            for (int k = 0; k < 3 && other_why.empty(); k++) served(other_client, other_why, other_soft);
            ::setrlimit(RLIMIT_NOFILE, &old);
            std::string newcomer_why;
            if (newcomer && other_why.empty()) newcomer_served = served(newcomer, other_why, other_soft);
            newcomer.reset();
          }
          auto s = one_left ? nullptr : factory->serve();
          auto t = stale && !one_left ? factory->connect(stale) : nullptr;
          auto d = factory->discover();
          bool none = s == nullptr && t == nullptr;
          s.reset();
          t.reset();
          ::setrlimit(RLIMIT_NOFILE, &old);
          for (int f : fill) ::close(f);
          ::close(any);
          if (!other_why.empty())
          {
            clients.clear();
            other_why = std::string(newcomer_served ? "while a client could not be accepted " : "after the server could accept a client ") + other_why;
            if (other_soft) c.fail_soft(other_why);
            c.fail(other_why);
          }
          c.check(none, "a transport was created without a descriptor for it");
          c.label("descriptors exhausted");
          break;
        }
        case 5:
          if (!clients.empty()) { c.out() << " leave"; clients.erase(clients.begin() + static_cast<long>(c.draw(clients.size()))); }
          break;
        default:
          if (!clients.empty())
          {
            c.out() << " request";
            auto t = clients[c.draw(clients.size())];
            if (!served(t, why, soft)) { t.reset(); clients.clear(); if (soft) c.fail_soft(why); c.fail(why); }
          }
          break;
      }
    }
    if (c.boolean()) { clients.clear(); server.reset(); }
    else { server.reset(); clients.clear(); }
  }
  if (!eventually([&] { return count_fds() == fds; }, 3)) c.fail("descriptors leaked: " + std::to_string(fds) + " before, " + std::to_string(count_fds()) + " after");
  c.label("absent");
  c.nontrivial();
}

// ---------------------------------------------------------------- the server goes away
static void server_loss(Case& c)
{
  const int how = static_cast<int>(c.draw(3));  // 0 killed, 1 destroyed, 2 process exits
  const std::size_t n_clients = 1 + c.draw(3);
  struct R { int kind; std::size_t size; std::uint64_t seed; };  // kind 0 echo 1 large answer 2 never 3 slow
  std::vector<std::vector<R>> plan(n_clients);
  for (auto& p : plan)
  {
    const std::size_t n = c.size(20);
    for (std::size_t i = 0; i < n; i++) p.push_back(R{ static_cast<int>(c.draw(4)), c.draw(c.chance(1, 5) ? 300000 : 500), c.draw(1 << 16) });
  }
  const unsigned when_us = static_cast<unsigned>(c.draw(c.boolean() ? 500 : 20000));
  const int n_bcast = static_cast<int>(c.draw(10));
  const bool program = c.chance(1, 3);  // the server's process starts another program, which outlives it
  const bool forward = c.boolean();
  const unsigned dl = static_cast<unsigned>(c.draw(15));
  const std::uint64_t sseed = c.draw(1 << 20);
  const std::size_t without_stdin = c.draw(16);  // 1 the server, 2 its connections, 3 a client has the first descriptor
  NoStdin no_stdin;
  ManyDescriptors many;
  if (many.begin(without_stdin == 4)) { c.out() << "many descriptors "; c.label("many descriptors"); }
  no_stdin.begin(without_stdin == 3);
  c.out() << (without_stdin > 0 && without_stdin < 4 ? "no stdin(" + std::to_string(without_stdin) + ") " : std::string()) << "server loss how=" << how << (program ? " with a program started by it" : "") << " after " << when_us << "us clients:";
  for (auto& p : plan) c.out() << " " << p.size() << " requests";
  const int fds = count_fds();
  std::string error;
  bool soft = false;
  std::size_t answered = 0, outstanding = 0;
  {
    Child child([&](int in, int out) {
      auto factory = make(true);
      NoStdin closed;
      closed.begin(without_stdin == 1);
      auto server = factory->serve();
      if (!server) ::_exit(3);
      closed.begin(without_stdin == 2);
      server->addEndpoint(echo("echo"));
      server->addEndpoint(std::make_shared<FnEndpoint>("large", [](Transport&, const Data& i, Data& o) { o.assign(400000 + i.size(), i.empty() ? 0 : i[0]); return true; }));
      server->addEndpoint(std::make_shared<FnEndpoint>("slow", [](Transport&, const Data& i, Data& o) { std::this_thread::sleep_for(std::chrono::microseconds(700)); o = i; return true; }));
      server->addEndpoint(std::make_shared<FnEndpoint>("never", [](Transport&, const Data&, Data&) { return false; }));
      char ch = 'r';
      (void)!::write(out, &ch, 1);
      for (int i = 0; i < n_bcast; i++) server->broadcast("b", Data(static_cast<std::size_t>(i * 1000), 'b'));
      (void)!::read(in, &ch, 1);
      if (ch == 'p')
      {
        pid_t p = start_program();
        (void)!::write(out, &p, sizeof p);
        (void)!::read(in, &ch, 1);
      }
      if (how == 1)
      {
        server.reset();
        ch = 'd';
        (void)!::write(out, &ch, 1);
        (void)!::read(in, &ch, 1);
      }
    });
    if (child.hear() != 'r') c.fail_soft("the server process did not start");
    auto factory = make(true);
    auto dest = find_destination(*factory, child.pid);
    if (!dest) c.fail("a served process was not discovered");
    struct K { Transport::Ptr t; std::vector<Fut> futs; std::thread th; };
    std::vector<K> ks(n_clients);
    for (auto& k : ks)
    {
      k.t = factory->connect(dest);
      if (!k.t) c.fail("could not connect");
      k.t->addEndpoint(std::make_shared<FnEndpoint>("b", FnEndpoint::Fn(), [](Transport&, const Data&, Data&) { return false; }));
    }
    struct Program { pid_t pid{ -1 }; ~Program() { if (pid > 0) ::kill(pid, SIGKILL); } } started;
    if (program)
    {
      for (auto& k : ks) if (error.empty()) served(k.t, error, soft);  // it is connected
      child.tell('p');
      pollfd w{ child.from, POLLIN, 0 };
      if (wait_for(&w, 1, static_cast<int>(kPatience * 1000)) <= 0 || ::read(child.from, &started.pid, sizeof started.pid) != sizeof started.pid) { error = "the server process could not start a program"; soft = true; }
    }
    io::configure(0, dl, 100, sseed);
    for (std::size_t i = 0; i < n_clients; i++)
    {
      K* k = &ks[i];
      auto* p = &plan[i];
      k->th = std::thread([k, p] {
        static const char* names[] = { "echo", "large", "never", "slow" };
        for (auto& r : *p) { Data d(r.size, static_cast<std::uint8_t>(r.seed)); k->futs.push_back(k->t->request(names[r.kind], d)); }
      });
    }
    std::this_thread::sleep_for(std::chrono::microseconds(when_us));
    if (how == 0) child.end(SIGKILL);
    else
    {
      child.tell('x');
      if (how == 1) { if (child.hear() != 'd') { error = "the server could not be destroyed"; soft = true; } }
      else if (child.end(0) != 0) { error = "the server process did not end"; soft = true; }
    }
    if (!error.empty()) child.end(SIGKILL);
    for (auto& k : ks) k.th.join();
    for (auto& k : ks)
      if (error.empty() && !eventually([&] { return !k.t->isConnected(); })) { error = "a client still reports to be connected after its server is gone"; soft = true; }
    io::off();
    for (std::size_t i = 0; i < n_clients && error.empty(); i++)
    {
      const auto pending = ks[i].t->pendingRequests();
      auto after = ks[i].t->request("echo", { 9 });
      if (after->wait_for(milliseconds(1)) == std::future_status::ready)
      {
        if (ks[i].t->pendingRequests() > pending) error = "a request that failed is counted as outstanding";
        try { after->get(); if (error.empty()) error = "a request made after the server is gone was answered"; }
        catch (const scalopus::communication_error&) {}
        catch (const std::exception& e) { error = std::string("a request made after the server is gone failed with something else: ") + e.what(); }
      }
      for (std::size_t j = 0; j < ks[i].futs.size() && error.empty(); j++)
      {
        auto& f = ks[i].futs[j];
        if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) { outstanding++; continue; }
        auto& r = plan[i][j];
        try
        {
          Data d = f->get();
          Data want(r.size, static_cast<std::uint8_t>(r.seed));
          if (r.kind == 1) want.assign(400000 + r.size, r.size ? static_cast<std::uint8_t>(r.seed) : 0);
          if (r.kind == 2) error = "a request that the server never answers was answered";
          else if (d != want) error = "a request got an invented answer: " + pbt::show(d);
          answered++;
        }
        catch (const scalopus::communication_error&) {}
        catch (const std::exception& e) { error = std::string("a request failed with something other than a communication error: ") + e.what(); }
      }
    }
    if (error.empty())
      for (auto& d : factory->discover()) if (denotes(d, child.pid) && how != 1) error = "a server that is gone is still discovered";
    if (forward) for (auto& k : ks) k.t.reset();
    else for (std::size_t i = n_clients; i > 0; i--) ks[i - 1].t.reset();
    // the futures outlive their transport
    for (auto& k : ks)
      for (auto& f : k.futs)
        if (error.empty() && f->valid() && f->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
        {
          try { f->get(); error = "a request was answered by the destruction of its transport"; } catch (const std::exception&) {}
        }
  }
  if (!error.empty()) { if (soft) c.fail_soft(error); c.fail(error); }
  if (!eventually([&] { return count_fds() == fds; }, 3)) c.fail("descriptors leaked: " + std::to_string(fds) + " before, " + std::to_string(count_fds()) + " after");
  c.label("server loss");
  if (program) c.label("program started by the server");
  c.label("answered before", answered);
  c.label("outstanding at", outstanding);
  if (outstanding) c.nontrivial();
}

// ---------------------------------------------------------------- clients go away
// Every descriptor number that is closed is taken at once by an unrelated pair of sockets, as another thread might.
static std::mutex g_pm;
static std::vector<std::pair<int, int>> g_pairs;
static std::atomic<bool> g_in_hook{ false };
static void grab(int fd)
{
  static thread_local bool busy = false;
  if (busy) return;
  busy = true;
  std::lock_guard<std::mutex> l(g_pm);
  int p[2];
  if (g_pairs.size() < 8 && ::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p) == 0) g_pairs.emplace_back(p[0], p[1]);
  busy = false;
}
static void client_loss(Case& c)
{
  struct L { int kind; unsigned after_us; std::size_t cut; std::uint64_t seed; std::size_t size; };  // 0 raw closed inside a message, 1 child killed, 2 transport destroyed, 3 raw reset with unread data, 4 raw closed inside a message with urgent data
  std::vector<L> leavers(1 + c.draw(4));
  for (auto& l : leavers)
  {
    l.kind = static_cast<int>(c.draw(5));
    l.after_us = static_cast<unsigned>(c.draw(4000));
    l.size = c.draw(c.chance(1, 4) ? 300000 : 200);
    if (l.kind == 3) l.size %= 20000;  // its answers stay unread: they must fit the buffers of the connection
    l.cut = c.draw(18 + l.size);
    l.seed = c.draw(1 << 16);
  }
  const int n_req = static_cast<int>(c.draw(40));
  const int n_bcast = static_cast<int>(c.draw(20));
  const bool grabbing = c.boolean();
  const unsigned dl = static_cast<unsigned>(c.draw(15));
  const std::uint64_t sseed = c.draw(1 << 20);
  const std::size_t without_stdin = c.draw(16);
  NoStdin no_stdin;
  ManyDescriptors many;
  if (many.begin(without_stdin == 3)) { c.out() << "many descriptors "; c.label("many descriptors"); }
  c.out() << (without_stdin == 1 || without_stdin == 2 ? "no stdin(" + std::to_string(without_stdin) + ") " : std::string()) << "client loss requests=" << n_req << " broadcasts=" << n_bcast << (grabbing ? " grabbing" : "") << " leavers:";
  for (auto& l : leavers) c.out() << " {kind " << l.kind << " after " << l.after_us << "us size " << l.size << " cut " << l.cut << "}";
  const int fds = count_fds();
  std::string error;
  bool soft = false;
  {
    // children first: they must not inherit the server
    std::vector<std::unique_ptr<Child>> kids;
    const pid_t parent = ::getpid();
    for (auto& l : leavers)
      if (l.kind == 1)
        kids.emplace_back(new Child([parent, l](int in, int out) {
          char ch;
          (void)!::read(in, &ch, 1);
          auto factory = make(true);
          auto dest = find_destination(*factory, parent);
          auto t = dest ? factory->connect(dest) : nullptr;
          (void)!::write(out, t ? "c" : "n", 1);
          if (!t) return;
          std::vector<Fut> f;
          while (true) { f.push_back(t->request("echo", Data(l.size, 1))); if (f.size() > 4) { f.front()->wait(); f.erase(f.begin()); } }
        }));
    auto factory = make(true);
    no_stdin.begin(without_stdin == 1);
    auto server = factory->serve();
    if (!server) c.fail("could not serve");
    no_stdin.begin(without_stdin == 2);
    server->addEndpoint(echo("echo"));
    auto stay = factory->connect(server->getAddress());
    if (!stay) c.fail("could not connect");
    auto got = std::make_shared<std::atomic<int>>(0);
    stay->addEndpoint(std::make_shared<FnEndpoint>("b", FnEndpoint::Fn(), [got](Transport&, const Data&, Data&) { (*got)++; return false; }));
    if (!served(stay, error, soft)) { if (soft) c.fail_soft(error); c.fail(error); }
    for (auto& k : kids) k->tell('g');
    for (auto& k : kids) if (k->hear() != 'c' && error.empty()) { error = "a client process could not connect"; soft = true; }
    io::configure(0, dl, 100, sseed);
    if (grabbing) io::cfg().after_close = grab;
    std::vector<std::thread> ths;
    std::size_t kid = 0;
    for (auto& ll : leavers)
    {
      auto* l = &ll;
      Child* k = l->kind == 1 ? kids[kid++].get() : nullptr;
      ths.emplace_back([l, k, &factory, &server] {
        if (l->kind == 1)
        {
          std::this_thread::sleep_for(std::chrono::microseconds(l->after_us));
          ::kill(k->pid, SIGKILL);
        }
        else if (l->kind == 2)
        {
          auto t = factory->connect(server->getAddress());
          if (!t) return;
          std::vector<Fut> f;
          for (int i = 0; i < 5; i++) f.push_back(t->request("echo", Data(l->size, 1)));
          std::this_thread::sleep_for(std::chrono::microseconds(l->after_us));
          t.reset();
        }
        else
        {
          int fd = raw_connect(::getpid());
          if (fd < 0) return;
          Data all;
          if (l->kind == 3) { auto e = encode(Wire{ 3, "echo", Data(l->size, 7) }); all = e; }
          auto e = encode(Wire{ 4, "echo", Data(l->size, 8) });
          all.insert(all.end(), e.begin(), e.begin() + static_cast<long>(std::min(l->cut, e.size() - 1)));
          raw_send(fd, all.data(), all.size());
          if (l->kind == 4) { char u = 'u'; (void)::send(fd, &u, 1, MSG_OOB | MSG_NOSIGNAL | MSG_DONTWAIT); }
          if (l->kind != 4 || l->after_us % 2) std::this_thread::sleep_for(std::chrono::microseconds(l->after_us));
          ::close(fd);
        }
      });
    }
    for (int i = 0; i < n_bcast; i++) server->broadcast("b", Data(static_cast<std::size_t>(i) * 37, 'x'));
    for (int i = 0; i < n_req && error.empty(); i++) served(stay, error, soft);
    for (auto& t : ths) t.join();
    for (auto& k : kids) k->end(SIGKILL);
    if (error.empty()) served(stay, error, soft);
    if (error.empty() && !eventually([&] { return *got >= n_bcast; })) { error = "a client received " + std::to_string(*got) + " of " + std::to_string(n_bcast) + " broadcasts"; soft = true; }
    if (error.empty() && *got != n_bcast) error = "a client received more broadcasts than were made";
    if (error.empty() && !stay->isConnected()) error = "a client that stays reports not to be connected";
    // a later client is served too
    if (error.empty())
    {
      auto t = factory->connect(server->getAddress());
      if (!t) error = "a later client could not connect";
      else served(t, error, soft);
    }
    // the server lets go of the connections of those who left
    if (error.empty())
    {
      if (n_req % 2) { stay.reset(); server.reset(); }
      else { server.reset(); stay.reset(); }
    }
    else { stay.reset(); server.reset(); }
    io::off();
    std::lock_guard<std::mutex> l(g_pm);
    for (auto& p : g_pairs)
    {
      char a = 'q', b = 0;
      if (error.empty() && (::send(p.first, &a, 1, MSG_NOSIGNAL) != 1 || ::recv(p.second, &b, 1, MSG_DONTWAIT) != 1 || b != 'q'))
      { error = "an unrelated socket was shut down"; soft = false; }
      ::close(p.first);
      ::close(p.second);
    }
    if (!g_pairs.empty()) c.label("descriptor numbers reused", g_pairs.size());
    g_pairs.clear();
  }
  if (!error.empty()) { if (soft) c.fail_soft(error); c.fail(error); }
  if (!eventually([&] { return count_fds() == fds; }, 3)) c.fail("descriptors leaked: " + std::to_string(fds) + " before, " + std::to_string(count_fds()) + " after");
  c.label("client loss");
  c.nontrivial();
}

// ---------------------------------------------------------------- destruction at any time
static void destruction(Case& c)
{
  const bool is_unix = c.boolean();
  const std::size_t n_clients = 1 + c.draw(4);
  std::vector<int> order;  // n_clients denotes the server
  for (std::size_t i = 0; i <= n_clients; i++) order.push_back(static_cast<int>(i));
  for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[i - 1 - c.draw(i)]);
  std::vector<int> reqs;
  for (std::size_t i = 0; i < n_clients; i++) reqs.push_back(static_cast<int>(c.draw(12)));
  const int n_bcast = static_cast<int>(c.draw(12));
  const unsigned slow_us = static_cast<unsigned>(c.draw(3000));
  std::vector<unsigned> gaps;
  for (auto& o : order) gaps.push_back(c.boolean() ? 0 : static_cast<unsigned>(c.draw(15000)));
  std::vector<int> in_thread;
  for (auto& o : order) in_thread.push_back(c.chance(1, 3));
  const std::size_t big = c.chance(1, 4) ? 200000 : 10;
  NoStdin no_stdin;
  const std::size_t without_stdin = c.draw(16);
  ManyDescriptors many;
  if (many.begin(without_stdin == 3)) { c.out() << "many descriptors "; c.label("many descriptors"); }
  no_stdin.begin(without_stdin == 1);
  c.out() << (without_stdin == 1 ? "no stdin " : "") << "destruction " << (is_unix ? "unix" : "loopback") << " clients=" << n_clients << " broadcasts=" << n_bcast << " handler " << slow_us << "us order:";
  for (std::size_t i = 0; i < order.size(); i++) c.out() << " " << (order[i] == static_cast<int>(n_clients) ? "server" : "client" + std::to_string(order[i])) << "+" << gaps[i] << "us" << (in_thread[i] ? "(thread)" : "");
  const int fds = count_fds();
  std::string error;
  {
    auto factory = make(is_unix);
    auto server = factory->serve();
    if (!server) c.fail("could not serve");
    server->addEndpoint(std::make_shared<FnEndpoint>("e", [slow_us](Transport&, const Data& in, Data& out) {
      if (slow_us) std::this_thread::sleep_for(std::chrono::microseconds(slow_us));
      if (in.size() % 3 == 1) return false;
      out = in;
      return true;
    }));
    std::vector<Transport::Ptr> ts;
    std::vector<std::vector<Fut>> futs(n_clients);
    for (std::size_t i = 0; i < n_clients; i++)
    {
      auto t = factory->connect(server->getAddress());
      if (!t) c.fail("could not connect");
      t->addEndpoint(std::make_shared<FnEndpoint>("b", FnEndpoint::Fn(), [slow_us](Transport&, const Data&, Data&) {
        if (slow_us) std::this_thread::sleep_for(std::chrono::microseconds(slow_us));
        return false;
      }));
      ts.push_back(t);
    }
    for (int i = 0; i < n_bcast; i++) server->broadcast("b", Data(i % 3 ? big : 1, 'x'));
    for (std::size_t i = 0; i < n_clients; i++)
      for (int r = 0; r < reqs[i]; r++) futs[i].push_back(ts[i]->request("e", Data(r % 4 ? static_cast<std::size_t>(r) : big, static_cast<std::uint8_t>(r))));
    ts.push_back(server);
    server.reset();
    std::vector<std::thread> ths;
    for (std::size_t i = 0; i < order.size(); i++)
    {
      if (gaps[i]) std::this_thread::sleep_for(std::chrono::microseconds(gaps[i]));
      auto t = std::move(ts[static_cast<std::size_t>(order[i])]);
      ts[static_cast<std::size_t>(order[i])] = nullptr;
      if (in_thread[i]) ths.emplace_back([t]() mutable { t.reset(); });
      else t.reset();
      t = nullptr;
    }
    for (auto& t : ths) t.join();
    for (std::size_t i = 0; i < n_clients; i++)
      for (std::size_t r = 0; r < futs[i].size(); r++)
      {
        auto& f = futs[i][r];
        if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) continue;
        Data want(r % 4 ? r : big, static_cast<std::uint8_t>(r));
        try
        {
          if (f->get() != want) error = "a request got an invented answer";
          else if (want.size() % 3 == 1) error = "a request that was declined was answered";
        }
        catch (const std::exception&) {}
      }
  }
  if (!error.empty()) c.fail(error);
  if (!eventually([&] { return count_fds() == fds; }, 3)) c.fail("descriptors leaked: " + std::to_string(fds) + " before, " + std::to_string(count_fds()) + " after");
  c.label(is_unix ? "destruction unix" : "destruction loopback");
  c.nontrivial();
}

static void prop(Case& c)
{
  switch (c.draw(4))
  {
    case 0: absent(c); break;
    case 1: destruction(c); break;
    case 2: client_loss(c); break;
    default: server_loss(c); break;
  }
}
PBT_MAIN(prop)
