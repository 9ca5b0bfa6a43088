// C03: broadcasts against the sequence each staying client must receive, with requests, leaving and joining clients alongside.
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <deque>
#include "common.h"
#include "interpose.h"

using namespace vf;
using scalopus::Transport;
using Msg = std::pair<std::string, Data>;

static std::string show(const Msg& w) { return "{name '" + pbt::esc(w.first.substr(0, 16)) + "'(" + std::to_string(w.first.size()) + ") " + pbt::show(w.second, 12) + "}"; }
static bool replies(const std::string& name) { return !name.empty() && name[0] == 'R'; }
static Data reply(const std::string& name, const Data& in)
{
  std::uint64_t h = hash(in) ^ hash(name);
  Data d;
  if (h % 5 == 0) return d;  // an answer may be empty
  put(d, &h, 8);
  return d;
}

struct Received
{
  std::mutex m;
  std::vector<Msg> v;
  std::size_t size() { std::lock_guard<std::mutex> l(m); return v.size(); }
};

static void prop(Case& c)
{
  NoStdin no_stdin;  // outlives the transports
  ManyDescriptors many;
  const bool is_unix = c.draw(3) != 0;
  scalopus::TransportFactory::Ptr factory;
  if (is_unix) factory = std::make_shared<scalopus::TransportUnixFactory>();
  else factory = std::make_shared<scalopus::TransportLoopbackFactory>();

  std::vector<std::string> names;
  const std::size_t n_names = 1 + c.draw(4);
  for (std::size_t i = 0; i < n_names; i++)
  {
    // names of endpoints that answer are short: answers repeat the name, and must not fill the socket buffers
    std::string n = c.chance(1, 4) ? "R" + c.text(10) : "n" + endpoint_name(c);
    if (c.chance(1, 8)) n.clear();
    if (n.size() > 65535) n.resize(65535);
    if (n == "sync" || n == "end") n += "_";
    if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
  }
  struct Client
  {
    std::set<std::string> eps;
    int fate;             // 0 stays, 1 leaves during the broadcasts, 2 joins during the broadcasts, 3 is a raw socket that stays, 4 one that leaves
    unsigned delay_us;
    int requests;
    Transport::Ptr t;
    std::shared_ptr<Received> got = std::make_shared<Received>();
    int fd{ -1 };
  };
  std::vector<Client> clients(1 + c.draw(4));
  for (std::size_t i = 0; i < clients.size(); i++)
  {
    auto& k = clients[i];
    for (auto& n : names) if (!c.chance(1, 4)) k.eps.insert(n);
    static const std::vector<int> fates = { 0, 0, 0, 1, 2, 3, 4 };
    k.fate = c.pick(fates);
    if (!is_unix && k.fate > 2) k.fate = 0;
    k.delay_us = static_cast<unsigned>(c.draw(3000));
    k.requests = c.chance(1, 2) ? static_cast<int>(c.draw(20)) : 0;
  }
  bool stays = false;
  for (auto& k : clients) stays = stays || k.fate == 0;
  if (!stays) clients[c.draw(clients.size())].fate = 0;
  // without an endpoint of this name the server can not take the answers
  std::set<std::string> without;
  for (auto& n : names) if (c.chance(1, 6)) without.insert(n);
  const std::size_t n_threads = 1 + (c.chance(1, 3) ? 1 + c.draw(3) : 0);
  std::vector<std::vector<Msg>> bc(n_threads);
  std::size_t n_total = 0, bytes = 0, with_reply = 0;
  for (std::size_t t = 0; t < n_threads; t++)
  {
    const std::size_t n = c.size(n_threads > 1 ? 60 : 150);
    for (std::size_t i = 0; i < n; i++)
    {
      std::string name = c.chance(1, 8) ? "nobody" : c.pick(names);
      if (replies(name) && with_reply >= 12) name = "nobody";
      Data d = c.bytes(replies(name) ? c.draw(100) : payload_size(c, bytes < 1500000 ? 600000 : 40));
      if (n_threads > 1)
      {
        std::uint64_t tag = (std::uint64_t(t) << 32) | i;
        if (d.size() < 8) d.resize(8);
        std::memcpy(d.data(), &tag, 8);
      }
      if (replies(name)) with_reply++;
      bytes += d.size();
      n_total++;
      bc[t].emplace_back(std::move(name), std::move(d));
    }
  }
  std::vector<unsigned> pauses;
  const unsigned pace = static_cast<unsigned>(c.draw(3));
  for (int i = 0; i < 16; i++) pauses.push_back(pace == 0 ? 0 : pace == 1 ? static_cast<unsigned>(c.draw(100)) : static_cast<unsigned>(c.chance(1, 4) ? c.draw(4000) : 0));
  static const std::vector<unsigned> pcts = { 0, 0, 30, 90 };
  const unsigned sr = c.pick(pcts), dl = static_cast<unsigned>(c.draw(15));
  const std::uint64_t sseed = c.draw(1 << 20);
  const unsigned eintr = static_cast<unsigned>(c.pick(std::vector<int>{ 0, 0, 20, 300 }));  // calls on sockets interrupted, of 1000
  c.out() << (is_unix ? "unix" : "loopback") << " names=" << names.size() << " broadcasters=" << n_threads << " broadcasts=" << n_total << " bytes=" << bytes << " answered=" << with_reply << " clients:";
  for (auto& k : clients) c.out() << " [fate " << k.fate << " endpoints " << k.eps.size() << " requests " << k.requests << "]";
  for (std::size_t i = 0; i < bc[0].size() && i < 5; i++) c.out() << " " << show(bc[0][i]);

  // without a standard input the first descriptor is used by a transport
  const std::size_t without_stdin = c.draw(16);
  if (without_stdin == 1 || without_stdin == 2) c.out() << " no stdin(" << without_stdin << ")";
  if (many.begin(is_unix && without_stdin == 3)) { c.out() << " many descriptors"; c.label("many descriptors"); }
  no_stdin.begin(without_stdin == 1);
  auto server = factory->serve();
  if (!server) c.fail("could not serve");
  no_stdin.begin(without_stdin == 2);
  auto answers = std::make_shared<Received>();
  for (auto& n : names)
    if (!without.count(n)) server->addEndpoint(std::make_shared<FnEndpoint>(n, [answers, n](Transport&, const Data& in, Data&) {
      std::lock_guard<std::mutex> l(answers->m);
      answers->v.emplace_back(n, in);
      return false;
    }));
  server->addEndpoint(std::make_shared<FnEndpoint>("sync", [](Transport&, const Data& in, Data& out) { out = in; return true; }));
  std::mutex em;
  std::string error;
  bool soft = false;
  auto fail = [&](const std::string& t, bool s) { std::lock_guard<std::mutex> l(em); if (error.empty() || (soft && !s)) { error = t; soft = s; } };
  auto open = [&](Client& k) {
    if (k.fate >= 3)
    {
      k.fd = raw_connect(::getpid());
      if (k.fd < 0) { fail("a raw client could not connect", false); return; }
      auto e = encode(Wire{ 9, "sync", { 1 } });
      raw_send(k.fd, e.data(), e.size());
      Data b;
      std::vector<Wire> g;
      if (!eventually([&] { raw_read(k.fd, b, 20); parse(b, g); return !g.empty(); })) fail("no answer to a first message", true);
      return;
    }
    auto t = factory->connect(server->getAddress());
    if (!t) { fail("could not connect", false); return; }
    auto got = k.got;
    std::set<std::string> with_end = k.eps;
    with_end.insert("end");
    for (auto& n : with_end)
      t->addEndpoint(std::make_shared<FnEndpoint>(n, FnEndpoint::Fn(), [got, n](Transport&, const Data& in, Data& out) {
        { std::lock_guard<std::mutex> l(got->m); got->v.emplace_back(n, in); }
        if (!replies(n)) { if (in.size() % 2) out = in; return false; }
        out = reply(n, in);
        return true;
      }));
    // connected for the server too after one round trip
    auto f = t->request("sync", { 3 });
    if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) fail("a request was not answered", true);
    k.t = t;
  };
  for (auto& k : clients) if (k.fate != 2) open(k);
  if (!error.empty()) { for (auto& k : clients) { k.t.reset(); if (k.fd >= 0) ::close(k.fd); } if (soft) c.fail_soft(error); c.fail(error); }
  io::configure(sr, dl, 60, sseed);
  io::cfg().eintr = eintr;
  std::atomic<bool> stop{ false };
  std::vector<std::thread> threads, side;
  for (auto& kk : clients)
  {
    Client* k = &kk;
    if (k->fd >= 0)
    {
      side.emplace_back([&, k] {
        Data b;
        std::vector<Wire> g;
        const double end = now() + k->delay_us * 1e-6;
        while (!stop)
        {
          bool ok = raw_read(k->fd, b, 1);
          g.clear();
          parse(b, g);
          { std::lock_guard<std::mutex> l(k->got->m); for (auto& w : g) { if (w.id != 0) fail("a broadcast arrived with id " + std::to_string(w.id), false); k->got->v.emplace_back(w.name, w.data); } }
          if (!ok) break;
          if (k->fate == 4 && now() > end) break;
        }
        if (k->fate == 4) { ::close(k->fd); k->fd = -1; }
      });
      continue;
    }
    if (k->fate == 1 || k->fate == 2)
      side.emplace_back([&, k] {
        std::this_thread::sleep_for(std::chrono::microseconds(k->delay_us));
        if (k->fate == 2) open(*k);
        else k->t.reset();
      });
    if (k->requests && k->fate == 0)
      side.emplace_back([&, k] {
        for (int i = 0; i < k->requests; i++)
        {
          Data d(static_cast<std::size_t>(i * 7), static_cast<std::uint8_t>(i));
          auto f = k->t->request("sync", d);
          if (f->wait_for(std::chrono::duration<double>(kPatience)) != std::future_status::ready) { fail("a request was not answered while broadcasting", true); return; }
          try { if (f->get() != d) fail("a request got a wrong answer while broadcasting", false); }
          catch (const std::exception& e) { fail(std::string("a request failed while broadcasting: ") + e.what(), false); }
        }
      });
  }
  for (std::size_t t = 0; t < n_threads; t++)
    threads.emplace_back([&, t] {
      for (std::size_t i = 0; i < bc[t].size(); i++)
      {
        server->broadcast(bc[t][i].first, bc[t][i].second);
        if (unsigned p = pauses[i % pauses.size()]) std::this_thread::sleep_for(std::chrono::microseconds(p));
      }
    });
  for (auto& t : threads) t.join();
  // what each client must have received
  auto expected = [&](const Client& k, std::size_t t) {
    std::vector<Msg> r;
    for (auto& m : bc[t]) if (k.fate >= 3 || k.eps.count(m.first)) r.push_back(m);
    return r;
  };
  auto expected_count = [&](const Client& k) { std::size_t n = 0; for (std::size_t t = 0; t < n_threads; t++) n += expected(k, t).size(); return n; };
  std::size_t want_answers = 0;
  std::map<std::pair<std::string, Data>, int> may_answers, must_answers;
  for (auto& k : clients)
  {
    if (k.fate != 0 && k.fate != 3) continue;
    if (!error.empty()) break;
    const std::size_t want = expected_count(k);
    if (!eventually([&] { return k.got->size() >= want; })) fail("a client received " + std::to_string(k.got->size()) + " of " + std::to_string(want) + " broadcasts", true);
  }
  // one more, after everything else: nothing may follow it, nothing may come twice
  server->broadcast("end", { 'e' });
  for (auto& k : clients)
  {
    if (!error.empty()) break;
    if (k.fate != 0 && k.fate != 3) continue;
    if (!eventually([&] { std::lock_guard<std::mutex> l(k.got->m); return !k.got->v.empty() && k.got->v.back().first == "end"; })) fail("the last broadcast did not arrive", true);
  }
  for (auto& k : clients)
    for (std::size_t t = 0; t < n_threads; t++)
      if (k.fate < 3)
        for (auto& m : expected(k, t))
          if (replies(m.first) && !without.count(m.first)) { Msg a{ m.first, reply(m.first, m.second) }; may_answers[a]++; if (k.fate == 0) { must_answers[a]++; want_answers++; } }
  if (error.empty() && want_answers && !eventually([&] { return answers->size() >= want_answers; }))
    fail("the server received " + std::to_string(answers->size()) + " answers to broadcasts instead of " + std::to_string(want_answers), true);
  io::off();
  stop = true;
  for (auto& t : side) t.join();
  for (auto& k : clients) { k.t.reset(); if (k.fd >= 0) ::close(k.fd); }
  server.reset();
  if (!error.empty()) { if (soft) c.fail_soft(error); c.fail(error); }
  bool reordered_possible = n_total > 1;
  for (std::size_t i = 0; i < clients.size(); i++)
  {
    auto& k = clients[i];
    std::vector<Msg> got;
    for (auto& m : k.got->v) if (m.first != "end") got.push_back(m);
    const std::string who = "client " + std::to_string(i) + " (fate " + std::to_string(k.fate) + "): ";
    std::size_t accounted = 0;
    for (std::size_t t = 0; t < n_threads; t++)
    {
      auto want = expected(k, t);
      std::vector<Msg> mine;
      if (n_threads == 1) mine = got;
      else
        for (auto& m : got)
        {
          std::uint64_t tag = 0;
          if (m.second.size() >= 8) std::memcpy(&tag, m.second.data(), 8);
          if (tag >> 32 == t) mine.push_back(m);
        }
      accounted += mine.size();
      if (k.fate == 0 || k.fate == 3)
      {
        c.check(mine.size() == want.size(), who + "received " + std::to_string(mine.size()) + " broadcasts instead of " + std::to_string(want.size()));
        for (std::size_t j = 0; j < mine.size(); j++) c.check(mine[j] == want[j], who + "broadcast " + std::to_string(j) + " is " + show(mine[j]) + " instead of " + show(want[j]));
      }
      else if (k.fate == 1 || k.fate == 4)
      {
        c.check(mine.size() <= want.size(), who + "received too many broadcasts");
        for (std::size_t j = 0; j < mine.size(); j++) c.check(mine[j] == want[j], who + "broadcast " + std::to_string(j) + " is " + show(mine[j]) + " instead of " + show(want[j]));
      }
      else
      {
        c.check(mine.size() <= want.size(), who + "received too many broadcasts");
        // it connected while its endpoints were added: from some point on it received everything
        if (n_threads == 1)
        {
          std::size_t j = mine.size(), w = want.size();
          while (j > 0 && w > 0) { if (mine[j - 1] == want[w - 1]) { j--; } w--; }
          c.check(j == 0, who + "received something out of order");
        }
      }
    }
    c.check(accounted == got.size(), who + "received something that was never broadcast");
  }
  std::map<std::pair<std::string, Data>, int> got_answers;
  for (auto& a : answers->v) got_answers[a]++;
  for (auto& a : got_answers) c.check(may_answers.count(a.first) && a.second <= may_answers[a.first], "the server received an answer to a broadcast that was not given: " + show(a.first));
  for (auto& a : must_answers) c.check(got_answers[a.first] >= a.second, "the server did not receive an answer to a broadcast");
  c.label(is_unix ? "unix" : "loopback");
  c.label("broadcasts", n_total);
  if (with_reply) c.label("answered broadcasts");
  if (reordered_possible && clients.size() > 1) c.nontrivial();
}
PBT_MAIN(prop)
