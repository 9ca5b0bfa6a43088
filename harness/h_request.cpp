// C01: requests and responses on the unix and loopback transports against the function each endpoint computes.
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <deque>
#include "common.h"
#include "interpose.h"

using namespace vf;

enum Mode { Echo, Empty, Grow, Decline, Mixed, Const, ModeCount };
static const char* mode_name[] = { "echo", "empty", "grow", "decline", "mixed", "const" };

struct Answer { bool yes; Data data; };
static Answer answer(const std::string& name, Mode m, const Data& in)
{
  const std::uint64_t h = hash(in);
  Answer a{ true, {} };
  auto echo = [&] {
    a.data = in;
    std::uint64_t nh = hash(name);
    put(a.data, &nh, 8);
  };
  switch (m)
  {
    case Echo: echo(); break;
    case Empty: break;
    case Grow:
    {
      std::uint64_t s = h ^ hash(name);
      a.data.resize(h % 7 ? h % 6000 : h % 400000);
      for (std::size_t i = 0; i < a.data.size(); i++) { if (i % 64 == 0) s = pbt::mix(s); a.data[i] = static_cast<std::uint8_t>(s >> (i % 57)); }
      break;
    }
    case Decline: a.yes = false; break;
    case Mixed: if (h % 2) echo(); else a.yes = false; break;
    default: a.data.assign(3, 'k'); break;
  }
  return a;
}

struct Ep
{
  std::string name;
  Mode mode;
  std::mutex m;
  std::map<std::uint64_t, int> seen;
};

struct Op
{
  enum Kind { Request, AwaitOldest, AwaitNewest, AwaitAll, DropOldest, Pause } kind;
  int ep;  // -1: unknown endpoint
  Data data;
  int fate;  // 0: keep for a later await, 1: await at once, 2: drop at once
};

struct Held
{
  scalopus::Transport::PendingResponse fut;
  int ep;
  Data data;
};

struct Error { std::mutex m; std::string text; bool soft{ false }; bool set{ false }; };

static void prop(Case& c)
{
  const bool is_unix = c.draw(3) != 0;
  scalopus::TransportFactory::Ptr factory;
  if (is_unix) factory = std::make_shared<scalopus::TransportUnixFactory>();
  else factory = std::make_shared<scalopus::TransportLoopbackFactory>();
  const char* big = std::getenv("VERIF_LARGE");
  const std::size_t large = big ? std::strtoull(big, nullptr, 10) : 1500000;

  static const std::vector<unsigned> pcts = { 0, 0, 20, 80 };
  static const std::vector<unsigned> delays = { 0, 3, 20, 60 };
  const unsigned sr = c.pick(pcts), dl = c.pick(delays);
  const unsigned dus = static_cast<unsigned>(1 + c.draw(300));
  const std::uint64_t sseed = c.draw(1 << 20);
  const unsigned eintr = static_cast<unsigned>(c.pick(std::vector<int>{ 0, 0, 20, 300 }));  // calls on sockets interrupted, of 1000
  const bool signals = c.chance(1, 6);

  std::vector<std::shared_ptr<Ep>> eps;
  const std::size_t n_ep = 1 + c.draw(4);
  for (std::size_t i = 0; i < n_ep; i++)
  {
    auto e = std::make_shared<Ep>();
    e->name = endpoint_name(c);
    e->mode = static_cast<Mode>(c.draw(ModeCount));
    bool dup = e->name == "s" || e->name == "w";
    for (auto& o : eps) dup = dup || o->name == e->name;
    if (!dup) eps.push_back(e);
  }
  std::string unknown = "unknown";
  if (!eps.empty() && c.boolean() && eps[0]->name.size() < 65000) unknown = eps[0]->name + "?";
  for (auto& o : eps) if (o->name == unknown) unknown += "_no";
  // the length of a name has 16 bits on the wire: this one differs from the name of an endpoint beyond it only
  const bool too_long = c.chance(1, 10) && is_unix && !eps.empty() && eps[0]->name.size() < 65000;
  if (too_long) unknown = eps[0]->name + std::string(65536, 'x');

  const std::size_t n_clients = 1 + c.draw(3);
  const std::size_t n_threads = 1 + c.draw(4);
  // the server may broadcast to endpoints of those names, which the clients do not have; these are no answers
  const std::size_t n_broadcasts = c.chance(1, 3) ? 1 + c.draw(12) : 0;
  struct Plan { std::size_t client; std::vector<Op> ops; };
  std::vector<Plan> plans(n_threads);
  // more requests of one connection while some are outstanding: more than fit in 8 bits, or (seldom) 16
  const std::size_t burst_kind = c.draw(300);
  const std::uint32_t burst = !is_unix || burst_kind < 275 ? 0 : burst_kind == 299 ? 65500 + static_cast<std::uint32_t>(c.draw(600)) : 230 + static_cast<std::uint32_t>(c.draw(1000));
  std::size_t total = 0, bytes = 0, unanswered = 0;
  for (auto& p : plans)
  {
    p.client = c.draw(n_clients);
    const std::size_t n_ops = 1 + c.size(40);
    for (std::size_t i = 0; i < n_ops; i++)
    {
      Op o;
      static const std::vector<Op::Kind> kinds = { Op::Request, Op::Request, Op::Request, Op::Request, Op::AwaitOldest, Op::AwaitNewest, Op::AwaitAll, Op::DropOldest, Op::Pause };
      o.kind = c.pick(kinds);
      o.ep = -1;
      o.fate = 0;
      if (o.kind == Op::Request)
      {
        o.ep = c.chance(1, 8) || eps.empty() ? -1 : static_cast<int>(c.draw(eps.size()));
        std::size_t n = payload_size(c, bytes < 4 * large ? large : 100);
        bytes += n;
        o.data = c.bytes(n);
        // make most payloads unique, so that a response is recognised as belonging to its request
        if (n >= 8 && !c.chance(1, 6)) { std::uint64_t u = pbt::mix(total + 1); std::memcpy(o.data.data(), &u, 8); }
        static const std::vector<int> fates = { 0, 0, 0, 1, 1, 2 };
        o.fate = c.pick(fates);
        total++;
        if (o.ep < 0 || !answer(eps[o.ep]->name, eps[o.ep]->mode, o.data).yes) unanswered++;
      }
      p.ops.push_back(std::move(o));
    }
  }
  c.out() << (is_unix ? "unix" : "loopback") << " endpoints:";
  for (auto& e : eps) c.out() << " '" << e->name.substr(0, 12) << "'(" << e->name.size() << ")=" << mode_name[e->mode];
  c.out() << " clients=" << n_clients << " threads=" << n_threads << " requests=" << total << " bytes=" << bytes << " unanswered=" << unanswered
          << (n_broadcasts ? " broadcasts=" + std::to_string(n_broadcasts) : std::string())
          << " short_reads=" << sr << "% delays=" << dl << "%" << (signals ? " signals" : "") << (too_long ? " unknown name of " + std::to_string(unknown.size()) : std::string()) << (burst ? " burst of " + std::to_string(burst) : std::string()) << " ops:";
  for (auto& p : plans)
  {
    c.out() << " [c" << p.client;
    for (std::size_t i = 0; i < p.ops.size() && i < 12; i++)
    {
      auto& o = p.ops[i];
      static const char* n[] = { "R", "Ao", "An", "AA", "D", "P" };
      c.out() << " " << n[o.kind];
      if (o.kind == Op::Request) c.out() << o.ep << ":" << o.data.size() << "/" << o.fate;
    }
    c.out() << "]";
  }

  // without a standard input the first descriptor is used by a transport
  const std::size_t without_stdin = c.draw(16);
  NoStdin no_stdin;
  ManyDescriptors many;
  if (many.begin(is_unix && without_stdin == 3)) { c.out() << " many descriptors"; c.label("many descriptors"); }
  if (without_stdin == 1 || without_stdin == 2) c.out() << " no stdin(" << without_stdin << ")";
  no_stdin.begin(without_stdin == 1);
  auto server = factory->serve();
  if (!server) c.fail("could not serve");
  no_stdin.begin(without_stdin == 2);
  for (auto& e : eps)
  {
    server->addEndpoint(std::make_shared<FnEndpoint>(e->name, [e](scalopus::Transport&, const Data& in, Data& out) {
      { std::lock_guard<std::mutex> l(e->m); e->seen[hash(in)]++; }
      auto a = answer(e->name, e->mode, in);
      // endpoints may assign what they answer or write it piece by piece
      if (a.yes && e->mode % 2 == 0) out.insert(out.end(), a.data.begin(), a.data.end());
      else if (a.yes) out = a.data;
      else if (in.size() % 2) out = in;  // what it left there is not an answer
      return a.yes;
    }));
  }
  server->addEndpoint(std::make_shared<FnEndpoint>("s", [](scalopus::Transport&, const Data& in, Data& out) { out = in; return true; }));
  server->addEndpoint(std::make_shared<FnEndpoint>("w", [](scalopus::Transport&, const Data& in, Data& out) { out = in; return !in.empty(); }));
  std::vector<scalopus::Transport::Ptr> clients;
  for (std::size_t i = 0; i < n_clients; i++)
  {
    auto t = factory->connect(server->getAddress());
    if (!t) c.fail("could not connect");
    clients.push_back(t);
  }
  std::unique_ptr<Signaller> sig;
  if (signals) sig.reset(new Signaller(1500));
  io::configure(sr, dl, dus, sseed);
  io::cfg().eintr = eintr;

  Error err;
  auto fail = [&](const std::string& t, bool soft) {
    std::lock_guard<std::mutex> l(err.m);
    if (!err.set || (err.soft && !soft)) { err.text = t; err.soft = soft; err.set = true; }
  };
  auto failed = [&] { std::lock_guard<std::mutex> l(err.m); return err.set; };
  auto describe = [&](const Held& h) {
    return std::string("request of ") + pbt::show(h.data) + " to endpoint " + (h.ep < 0 ? "(unknown)" : std::to_string(h.ep) + " (" + mode_name[eps[h.ep]->mode] + ")");
  };
  // checks the answer of a request; requests without an answer must not get one
  auto settle = [&](Held& h) {
    Answer a{ false, {} };
    if (h.ep >= 0) a = answer(eps[h.ep]->name, eps[h.ep]->mode, h.data);
    if (!a.yes) return;
    if (h.fut->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) { fail(describe(h) + " was not answered", true); return; }
    try
    {
      Data got = h.fut->get();
      if (got != a.data) fail(describe(h) + " was answered with " + pbt::show(got) + " instead of " + pbt::show(a.data), false);
    }
    catch (const std::exception& e) { fail(describe(h) + " failed: " + e.what(), false); }
  };
  std::vector<std::vector<Held>> left(n_threads);
  std::mutex expect_m;
  std::map<std::pair<int, std::uint64_t>, std::pair<int, int>> expect;  // sure, perhaps
  std::vector<std::thread> threads;
  for (std::size_t ti = 0; ti < n_threads; ti++)
  {
    threads.emplace_back([&, ti] {
      auto& p = plans[ti];
      auto client = clients[p.client];
      std::deque<Held> held;
      std::vector<Held>& unans = left[ti];
      auto take = [&](Held&& h) {
        Answer a{ false, {} };
        if (h.ep >= 0) a = answer(eps[h.ep]->name, eps[h.ep]->mode, h.data);
        if (a.yes) settle(h);
        else unans.push_back(std::move(h));
      };
      for (auto& o : p.ops)
      {
        if (failed()) break;
        switch (o.kind)
        {
          case Op::Request:
          {
            Held h;
            h.ep = o.ep;
            h.data = o.data;
            h.fut = client->request(o.ep < 0 ? unknown : eps[o.ep]->name, o.data);
            if (!h.fut) { fail("request returned no future", false); break; }
            if (o.ep >= 0)
            {
              std::lock_guard<std::mutex> l(expect_m);
              auto& x = expect[{ o.ep, hash(o.data) }];
              // a request whose future is dropped before its answer was seen may be dropped
              (o.fate == 2 ? x.second : x.first)++;
            }
            if (o.fate == 1) take(std::move(h));
            else if (o.fate == 0) held.push_back(std::move(h));
            break;
          }
          case Op::AwaitOldest:
            if (!held.empty()) { Held h = std::move(held.front()); held.pop_front(); take(std::move(h)); }
            break;
          case Op::AwaitNewest:
            if (!held.empty()) { Held h = std::move(held.back()); held.pop_back(); take(std::move(h)); }
            break;
          case Op::AwaitAll:
            while (!held.empty()) { Held h = std::move(held.front()); held.pop_front(); take(std::move(h)); }
            break;
          case Op::DropOldest:
            if (!held.empty())
            {
              if (held.front().ep >= 0)
              {
                std::lock_guard<std::mutex> l(expect_m);
                auto& x = expect[{ held.front().ep, hash(held.front().data) }];
                x.first--;
                x.second++;
              }
              held.pop_front();
            }
            break;
          case Op::Pause: std::this_thread::yield(); break;
        }
      }
      while (!held.empty()) { Held h = std::move(held.front()); held.pop_front(); if (!failed()) take(std::move(h)); }
    });
  }
  std::thread broadcaster([&] {
    const Data no_answer{ 'n', 'o', 't', ' ', 'a', 'n', ' ', 'a', 'n', 's', 'w', 'e', 'r' };
    for (std::size_t i = 0; i < n_broadcasts; i++)
    {
      for (auto& e : eps) server->broadcast(e->name, no_answer);
      server->broadcast(unknown, no_answer);
      std::this_thread::sleep_for(std::chrono::microseconds(dus));
    }
  });
  for (auto& t : threads) t.join();
  broadcaster.join();
  if (n_broadcasts) c.label("broadcasts to the same names");
  auto sync = [&] {
    for (auto& cl : clients)
    {
      auto f = cl->request("s", { 1, 2, 3 });
      if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) { fail("a request after all others was not answered", true); return; }
      try { if (f->get() != Data{ 1, 2, 3 }) fail("a request after all others was answered wrongly", false); }
      catch (const std::exception& e) { fail(std::string("a request after all others failed: ") + e.what(), false); }
    }
  };
  if (!failed()) sync();
  if (burst && !failed())
  {
    io::off();
    using Fut = scalopus::Transport::PendingResponse;
    std::vector<std::pair<std::uint32_t, Fut>> window;
    std::vector<Fut> waiting;  // the endpoint does not answer these
    auto await = [&](std::size_t leave) {
      while (window.size() > leave && !failed())
      {
        Data d(4);
        std::memcpy(d.data(), &window.front().first, 4);
        const auto which = "request number " + std::to_string(window.front().first);
        auto f = window.front().second;
        window.erase(window.begin());
        if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) { fail(which + " was not answered", true); break; }
        try { if (f->get() != d) fail(which + " got a wrong answer", false); }
        catch (const std::exception& e) { fail(which + " failed: " + e.what(), false); }
      }
    };
    for (std::uint32_t i = 0; i < burst && !failed(); i++)
    {
      Data d(4);
      std::memcpy(d.data(), &i, 4);
      if (i < 400 && i % 97 == burst % 97) waiting.push_back(clients[0]->request("w", {}));
      window.emplace_back(i, clients[0]->request("w", d));
      await(24);
    }
    await(0);
    for (auto& f : waiting)
      if (f->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
      {
        try { f->get(); fail("a request that is not answered got an answer while " + std::to_string(burst) + " others were made", false); }
        catch (const std::exception& e) { fail("an outstanding request failed while " + std::to_string(burst) + " others were made: " + e.what(), false); }
      }
    c.label("burst");
  }
  // the outstanding requests are those that were not answered
  if (!failed())
  {
    for (std::size_t ci = 0; ci < clients.size() && !failed(); ci++)
    {
      std::size_t want = 0, got = 0;
      auto count = [&] {
        want = 0;
        for (std::size_t ti = 0; ti < n_threads; ti++)
          if (plans[ti].client == ci)
            for (auto& h : left[ti])
              if (h.fut->wait_for(std::chrono::seconds(0)) != std::future_status::ready) want++;
        got = clients[ci]->pendingRequests();
        return want == got;
      };
      if (!eventually(count)) fail("client reports " + std::to_string(got) + " outstanding requests, there are " + std::to_string(want), true);
    }
    for (auto& l : left)
      for (auto& h : l)
        if (h.fut->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
        {
          try
          {
            Data d = h.fut->get();
            fail(describe(h) + " was answered with " + pbt::show(d) + " although its endpoint did not answer", false);
          }
          catch (const std::exception&) {}
        }
    // dropping them drops them
    for (auto& l : left) l.clear();
    for (auto& cl : clients)
      if (!eventually([&] { return cl->pendingRequests() == 0; })) fail("dropped requests are still counted", true);
  }
  io::off();
  if (sig) c.label("signals sent", sig->sent.load());
  sig.reset();
  if (!failed()) sync();
  clients.clear();
  server.reset();
  if (!failed())
  {
    // what was handled is what was sent
    for (std::size_t i = 0; i < eps.size(); i++)
      for (auto& s : eps[i]->seen)
      {
        auto it = expect.find({ static_cast<int>(i), s.first });
        if (it == expect.end()) { fail("endpoint " + std::to_string(i) + " handled bytes that were never sent to it", false); continue; }
        if (s.second < it->second.first || s.second > it->second.first + it->second.second)
          fail("endpoint " + std::to_string(i) + " handled a request " + std::to_string(s.second) + " times, it was made " + std::to_string(it->second.first) + " times (and " + std::to_string(it->second.second) + " dropped)", false);
      }
    for (auto& x : expect)
      if (x.second.first > 0 && !eps[x.first.first]->seen.count(x.first.second))
        fail("endpoint " + std::to_string(x.first.first) + " never handled a request that was made to it", false);
  }
  if (err.set) { if (err.soft) c.fail_soft(err.text); c.fail(err.text); }
  c.label(is_unix ? "unix" : "loopback");
  c.label("requests", total);
  if (bytes > 212992) c.label("larger than the socket buffer");
  if (total >= 3 && n_threads + n_clients > 2) c.nontrivial();
}
PBT_MAIN(prop)
