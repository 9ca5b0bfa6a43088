// C02: a raw socket peer speaks the documented wire format to a unix transport, on either side, in arbitrary fragments.
#include <scalopus_transport/transport_unix.h>
#include <deque>
#include "common.h"
#include "interpose.h"

using namespace vf;
using scalopus::Transport;

struct Log
{
  std::mutex m;
  std::vector<std::pair<std::string, Data>> v;
  void add(const std::string& n, const Data& d) { std::lock_guard<std::mutex> l(m); v.emplace_back(n, d); }
  std::vector<std::pair<std::string, Data>> get() { std::lock_guard<std::mutex> l(m); return v; }
};
static std::string show(const Wire& w) { return "{id " + std::to_string(w.id) + " name '" + pbt::esc(w.name.substr(0, 16)) + "'(" + std::to_string(w.name.size()) + ") " + pbt::show(w.data, 12) + "}"; }
static std::string show(const std::pair<std::string, Data>& w) { return "{name '" + pbt::esc(w.first.substr(0, 16)) + "'(" + std::to_string(w.first.size()) + ") " + pbt::show(w.second, 12) + "}"; }

// The answer of an endpoint at the transport.
static bool respond(const std::string& name, const Data& in, Data& out)
{
  if (!name.empty() && name[0] == '!') return false;  // declines
  std::uint64_t h = hash(in) ^ hash(name);
  if (h % 5 == 0) { out.clear(); return true; }
  out = in;
  put(out, &h, 1 + h % 8);
  return true;
}

static std::uint64_t some_id(Case& c)
{
  switch (c.draw(6))
  {
    case 0: return 1 + c.draw(3);
    case 1: return (1ull << 32) + c.draw(3);
    case 2: return ~0ull - c.draw(3);
    case 3: return 255 + c.draw(3);
    case 4: return 65535 + c.draw(3);
    default: { auto v = c.draw(0); return v ? v : 1; }
  }
}

// Splits bytes in fragments.
static std::vector<std::size_t> fragments(Case& c, std::size_t n)
{
  std::vector<std::size_t> r;
  std::size_t left = n;
  const unsigned style = static_cast<unsigned>(c.draw(4));
  std::size_t budget = 200;
  while (left)
  {
    std::size_t k;
    if (!budget || style == 0) k = left;
    else if (style == 1) k = 1 + c.draw(3);
    else if (style == 2) k = 1 + c.draw(40);
    else k = 1 + c.draw(left);
    if (budget) budget--;
    k = std::min(k, left);
    r.push_back(k);
    left -= k;
  }
  return r;
}

struct Stream
{
  Data bytes;
  std::vector<std::size_t> frags;
  std::vector<unsigned> pause_us;
};
static Stream make_stream(Case& c, const std::vector<Wire>& msgs, std::size_t cut)
{
  Stream s;
  for (auto& m : msgs) { auto e = encode(m); s.bytes.insert(s.bytes.end(), e.begin(), e.end()); }
  s.bytes.resize(std::min(cut, s.bytes.size()));
  s.frags = fragments(c, s.bytes.size());
  const unsigned style = static_cast<unsigned>(c.draw(3));
  for (std::size_t i = 0; i < s.frags.size(); i++)
    s.pause_us.push_back(style == 0 || i > 40 ? 0 : static_cast<unsigned>(c.draw(style == 1 ? 50 : 2000)));
  return s;
}
static bool play(int fd, const Stream& s)
{
  std::size_t p = 0;
  for (std::size_t i = 0; i < s.frags.size(); i++)
  {
    if (!raw_send(fd, &s.bytes[p], s.frags[i])) return false;
    p += s.frags[i];
    if (s.pause_us[i]) std::this_thread::sleep_for(std::chrono::microseconds(s.pause_us[i]));
  }
  return true;
}
static std::size_t total(const std::vector<Wire>& m) { std::size_t n = 0; for (auto& w : m) n += 14 + w.name.size() + w.data.size(); return n; }

// ------------------------------------------------------------------------------------------ the transport is the server
static void server_side(Case& c)
{
  std::vector<std::string> names;
  const std::size_t n_ep = 1 + c.draw(4);
  for (std::size_t i = 0; i < n_ep; i++)
  {
    auto n = ((c.chance(1, 4) ? "!" : "") + endpoint_name(c)).substr(0, 65535);
    if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
  }
  struct Peer
  {
    std::vector<Wire> msgs;
    std::size_t whole{ 0 };  // messages sent completely
    int end{ 0 };            // 0: stays, 1: ends its writing side, 2: closes
    bool truncated{ false };
    Stream s;
    std::vector<Wire> expect;
    int fd{ -1 };
    Data buf;
    std::vector<Wire> got;
    bool eof{ false };
    std::mutex m;
  };
  const std::size_t n_peers = 1 + c.draw(3);
  std::vector<std::unique_ptr<Peer>> peers;
  std::size_t sent_bytes = 0;
  std::string known = names[0];
  for (std::size_t i = 0; i < n_peers; i++)
  {
    std::unique_ptr<Peer> p(new Peer);
    const std::size_t n = c.size(25);
    for (std::size_t k = 0; k < n; k++)
    {
      Wire w;
      w.id = some_id(c);
      w.name = c.chance(1, 8) ? "no such endpoint" : c.pick(names);
      w.data = c.bytes(sent_bytes < 1000000 && c.chance(1, 150) ? 1000000 + c.draw(4000000) : payload_size(c, sent_bytes < 1000000 ? 400000 : 100));
      sent_bytes += w.data.size();
      p->msgs.push_back(std::move(w));
    }
    static const std::vector<int> ends = { 0, 0, 1, 1, 2 };
    p->end = c.pick(ends);
    std::size_t len = total(p->msgs), cut = len;
    p->whole = p->msgs.size();
    if (p->end && !p->msgs.empty() && c.chance(3, 4))
    {
      // inside some message: anywhere, or near its start, where the header is
      std::size_t k = c.draw(p->msgs.size()), start = 0;
      for (std::size_t j = 0; j < k; j++) start += 14 + p->msgs[j].name.size() + p->msgs[j].data.size();
      std::size_t ml = 14 + p->msgs[k].name.size() + p->msgs[k].data.size();
      std::size_t in = c.boolean() ? 1 + c.draw(std::min<std::size_t>(ml - 1, 24)) : 1 + c.draw(ml - 1);
      cut = start + in;
      p->whole = k;
      p->truncated = true;
    }
    p->s = make_stream(c, p->msgs, cut);
    for (std::size_t k = 0; k < p->whole; k++)
    {
      auto& w = p->msgs[k];
      Data out;
      if (std::find(names.begin(), names.end(), w.name) != names.end() && respond(w.name, w.data, out)) p->expect.push_back(Wire{ w.id, w.name, out });
    }
    peers.push_back(std::move(p));
  }
  std::vector<std::pair<std::string, Data>> broadcasts;
  const std::size_t n_b = c.chance(1, 2) ? c.draw(8) : 0;
  for (std::size_t i = 0; i < n_b; i++) broadcasts.emplace_back(c.boolean() ? c.pick(names) : c.text(5), c.bytes(payload_size(c, 100000)));
  static const std::vector<unsigned> pcts = { 0, 0, 30, 90 };
  const unsigned sr = c.pick(pcts), dl = static_cast<unsigned>(c.draw(10));
  const std::uint64_t sseed = c.draw(1 << 20);
  const unsigned eintr = static_cast<unsigned>(c.pick(std::vector<int>{ 0, 0, 20, 300 }));  // calls on sockets interrupted, of 1000
  c.out() << "server side, endpoints=" << names.size() << " broadcasts=" << n_b << " short_reads=" << sr << "%";
  for (auto& p : peers)
  {
    c.out() << " peer[messages=" << p->msgs.size() << " whole=" << p->whole << " end=" << p->end << (p->truncated ? " truncated" : "") << " fragments=" << p->s.frags.size() << "]:";
    for (std::size_t k = 0; k < p->msgs.size() && k < 4; k++) c.out() << " " << show(p->msgs[k]);
  }

  const int fds_before = count_fds();
  auto factory = std::make_shared<scalopus::TransportUnixFactory>();
  auto server = factory->serve();
  if (!server) c.fail("could not serve");
  auto log = std::make_shared<Log>();
  for (auto& n : names)
    server->addEndpoint(std::make_shared<FnEndpoint>(n, [log, n](Transport&, const Data& in, Data& out) { log->add(n, in); return respond(n, in, out); }));
  server->addEndpoint(std::make_shared<FnEndpoint>("#sync", [](Transport&, const Data& in, Data& out) { out = in; return true; }));

  std::atomic<bool> stop{ false };
  std::string error;
  bool soft = false;
  for (auto& p : peers)
  {
    p->fd = raw_connect(::getpid());
    if (p->fd < 0) c.fail("a raw client could not connect");
    // known to be accepted after one round trip
    auto e = encode(Wire{ 9, "#sync", { 1 } });
    raw_send(p->fd, e.data(), e.size());
    Data b;
    std::vector<Wire> g;
    if (!eventually([&] { raw_read(p->fd, b, 20); parse(b, g); return !g.empty(); })) c.fail_soft("no answer to a first message");
    c.check(g.size() == 1 && g[0] == Wire{ 9, "#sync", { 1 } } && b.empty(), "the first message was answered with " + show(g[0]));
  }
  io::configure(sr, dl, 100, sseed);
  io::cfg().eintr = eintr;
  std::vector<std::thread> threads;
  for (auto& pp : peers)
  {
    Peer* p = pp.get();
    threads.emplace_back([p, &stop] {
      // reader
      while (!stop)
      {
        Data d;
        bool ok = raw_read(p->fd, d, 2);
        std::lock_guard<std::mutex> l(p->m);
        p->buf.insert(p->buf.end(), d.begin(), d.end());
        parse(p->buf, p->got);
        if (!ok) { p->eof = true; break; }
      }
    });
  }
  std::vector<std::thread> writers;
  for (auto& pp : peers)
  {
    Peer* p = pp.get();
    writers.emplace_back([p] {
      play(p->fd, p->s);
      if (p->end) ::shutdown(p->fd, p->end == 2 ? SHUT_RDWR : SHUT_WR);
    });
  }
  for (auto& b : broadcasts) { server->broadcast(b.first, b.second); if (hash(b.second) % 2) std::this_thread::sleep_for(std::chrono::microseconds(300)); }
  for (auto& t : writers) t.join();
  io::off();
  for (auto& pp : peers)
  {
    Peer* p = pp.get();
    if (p->end == 0)
    {
      auto e = encode(Wire{ 77, "#sync", { 7 } });
      raw_send(p->fd, e.data(), e.size());
      p->expect.push_back(Wire{ 77, "#sync", { 7 } });
    }
  }
  auto responses = [](Peer* p) { std::vector<Wire> r; std::lock_guard<std::mutex> l(p->m); for (auto& w : p->got) if (w.id) r.push_back(w); return r; };
  auto bcasts = [](Peer* p) { std::vector<std::pair<std::string, Data>> r; std::lock_guard<std::mutex> l(p->m); for (auto& w : p->got) if (!w.id) r.emplace_back(w.name, w.data); return r; };
  for (auto& pp : peers)
  {
    Peer* p = pp.get();
    if (p->end == 0)
    {
      if (!eventually([&] { std::lock_guard<std::mutex> l(p->m); return p->got.size() >= p->expect.size() + broadcasts.size() || p->eof; }))
      {
        error = "a peer received " + std::to_string(responses(p).size()) + " of " + std::to_string(p->expect.size()) + " answers and " + std::to_string(bcasts(p).size()) + " of " + std::to_string(broadcasts.size()) + " broadcasts";
        soft = true;
        break;
      }
    }
    else if (p->end == 1)
    {
      if (!eventually([&] { std::lock_guard<std::mutex> l(p->m); return p->eof; }))
      {
        error = "a connection that ended was not dropped";
        soft = true;
        break;
      }
    }
  }
  // somebody else is still served
  if (error.empty())
  {
    int fd = raw_connect(::getpid());
    if (fd < 0) error = "the server does not accept connections any more";
    else
    {
      auto e = encode(Wire{ 5, "#sync", {} });
      raw_send(fd, e.data(), e.size());
      Data b;
      std::vector<Wire> g;
      if (!eventually([&] { raw_read(fd, b, 20); parse(b, g); return !g.empty(); })) { error = "a later connection is not served"; soft = true; }
      ::close(fd);
    }
  }
  std::vector<std::pair<bool, bool>> eofs;
  for (auto& p : peers) { std::lock_guard<std::mutex> l(p->m); eofs.emplace_back(p->eof, p->buf.empty()); }
  server.reset();
  stop = true;
  for (auto& t : threads) t.join();
  for (auto& p : peers) ::close(p->fd);
  if (!error.empty()) { if (soft) c.fail_soft(error); c.fail(error); }

  auto seen = log->get();
  std::map<std::pair<std::string, std::uint64_t>, int> may, must, did;
  for (std::size_t i = 0; i < peers.size(); i++)
  {
    Peer* p = peers[i].get();
    auto r = responses(p);
    auto b = bcasts(p);
    const std::string who = "peer " + std::to_string(i) + ": ";
    if (p->end == 2) c.check(r.size() <= p->expect.size(), who + "too many answers");
    else c.check(r.size() == p->expect.size(), who + "received " + std::to_string(r.size()) + " answers, expected " + std::to_string(p->expect.size()));
    for (std::size_t k = 0; k < r.size(); k++) c.check(r[k] == p->expect[k], who + "answer " + std::to_string(k) + " is " + show(r[k]) + " expected " + show(p->expect[k]));
    if (p->end == 0)
    {
      c.check(!eofs[i].first, who + "was dropped although it sent only whole messages");
      c.check(eofs[i].second, who + "received something that is not a whole message");
      c.check(b.size() == broadcasts.size(), who + "received " + std::to_string(b.size()) + " broadcasts of " + std::to_string(broadcasts.size()));
    }
    c.check(b.size() <= broadcasts.size(), who + "received more broadcasts than were made");
    for (std::size_t k = 0; k < b.size(); k++) c.check(b[k] == broadcasts[k], who + "broadcast " + std::to_string(k) + " is " + show(b[k]) + " expected " + show(broadcasts[k]));
    for (std::size_t k = 0; k < p->whole; k++)
    {
      if (std::find(names.begin(), names.end(), p->msgs[k].name) == names.end()) continue;
      auto key = std::make_pair(p->msgs[k].name, hash(p->msgs[k].data));
      may[key]++;
      if (p->end != 2) must[key]++;
    }
  }
  for (auto& s : seen) did[{ s.first, hash(s.second) }]++;
  for (auto& d : did) c.check(may.count(d.first) && d.second <= may[d.first], "an endpoint handled something that was not sent to it, or too often: name '" + pbt::esc(d.first.first.substr(0, 16)) + "'");
  for (auto& d : must) c.check(did[d.first] >= d.second, "a message was not delivered to its endpoint '" + pbt::esc(d.first.first.substr(0, 16)) + "'");
  if (peers.size() == 1)
  {
    std::vector<std::pair<std::string, Data>> want;
    for (std::size_t k = 0; k < peers[0]->whole; k++)
      if (std::find(names.begin(), names.end(), peers[0]->msgs[k].name) != names.end()) want.emplace_back(peers[0]->msgs[k].name, peers[0]->msgs[k].data);
    if (peers[0]->end == 2) want.resize(std::min(want.size(), seen.size()));
    c.check(want == seen, "messages were delivered out of order or altered");
  }
  c.check(count_fds() == fds_before, "descriptors leaked: " + std::to_string(fds_before) + " before, " + std::to_string(count_fds()) + " after");
  std::size_t frags = 0, msgs = 0, trunc = 0;
  for (auto& p : peers) { frags += p->s.frags.size(); msgs += p->msgs.size(); trunc += p->truncated; }
  c.label("server side");
  c.label("messages", msgs);
  c.label("fragments", frags);
  if (trunc) c.label("truncated");
  if (msgs >= 2 && (trunc || frags != msgs)) c.nontrivial();
}

// ------------------------------------------------------------------------------------------ the transport is the client
static void client_side(Case& c)
{
  // endpoints at the client, names never used for requests
  std::vector<std::string> eps;
  const std::size_t n_ep = 1 + c.draw(3);
  for (std::size_t i = 0; i < n_ep; i++)
  {
    auto n = ((c.chance(1, 2) ? "!" : "") + endpoint_name(c)).substr(0, 65535);
    if (std::find(eps.begin(), eps.end(), n) == eps.end()) eps.push_back(n);
  }
  struct Req { std::string name; Data data; Transport::PendingResponse fut; bool answered{ false }; Data answer; };
  std::vector<Req> reqs(c.size(12));
  std::size_t req_bytes = 0;
  for (auto& r : reqs)
  {
    r.name = endpoint_name(c);
    while (std::find(eps.begin(), eps.end(), r.name) != eps.end()) r.name = r.name.size() > 60000 ? "q" : r.name + "q";
    r.data = c.bytes(payload_size(c, req_bytes < 500000 ? 200000 : 50));
    req_bytes += r.data.size();
  }
  // what the server sends: answers in any order, broadcasts, nonsense for names nobody has
  struct Out { int req{ -1 }; Wire w; };
  std::vector<Out> outs;
  std::vector<int> order;
  for (std::size_t i = 0; i < reqs.size(); i++) if (!c.chance(1, 6)) order.push_back(static_cast<int>(i));
  for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[i - 1 - c.draw(i)]);
  const std::size_t n_out = order.size() + c.draw(8);
  std::size_t next = 0;
  for (std::size_t i = 0; i < n_out; i++)
  {
    Out o;
    unsigned k = static_cast<unsigned>(c.draw(4));
    if (next < order.size() && (k < 2 || n_out - i <= order.size() - next))
    {
      o.req = order[next++];
      o.w.name = reqs[o.req].name;
      o.w.data = c.bytes(c.chance(1, 300) ? 1000000 + c.draw(4000000) : payload_size(c, 200000));
    }
    else if (k == 3)
    {
      o.w.id = c.boolean() ? 0 : (1ull << 40) + c.draw(5);
      o.w.name = "nobody has this name";
      o.w.data = c.bytes(c.draw(100));
    }
    else
    {
      o.w.id = 0;
      o.w.name = c.pick(eps);
      o.w.data = c.bytes(payload_size(c, 20000));
    }
    outs.push_back(std::move(o));
  }
  const int end = static_cast<int>(c.draw(3));  // 0: stays, 1: ends after the messages, 2: ends inside one
  const std::uint64_t cut_choice = c.draw(1 << 20);
  const std::size_t cut_msg = outs.empty() ? 0 : c.draw(outs.size());
  static const std::vector<unsigned> pcts = { 0, 0, 30, 90 };
  const unsigned sr = c.pick(pcts), dl = static_cast<unsigned>(c.draw(10));
  const std::uint64_t sseed = c.draw(1 << 20);
  const unsigned eintr = static_cast<unsigned>(c.pick(std::vector<int>{ 0, 0, 20, 300 }));  // calls on sockets interrupted, of 1000
  // the layout of the stream is drawn before the ids are known: they have a fixed size
  std::vector<Wire> plan;
  for (auto& o : outs) plan.push_back(o.w);
  std::size_t cut = total(plan), whole = outs.size();
  if (end == 2 && !outs.empty())
  {
    std::size_t start = 0;
    for (std::size_t j = 0; j < cut_msg; j++) start += 14 + plan[j].name.size() + plan[j].data.size();
    std::size_t ml = 14 + plan[cut_msg].name.size() + plan[cut_msg].data.size();
    cut = start + 1 + (cut_choice & 1 ? (cut_choice >> 1) % std::min<std::size_t>(ml - 1, 24) : (cut_choice >> 1) % (ml - 1));
    whole = cut_msg;
  }
  Stream s = make_stream(c, plan, cut);
  c.out() << "client side, endpoints=" << eps.size() << " requests=" << reqs.size() << " sent=" << outs.size() << " whole=" << whole << " end=" << end << " fragments=" << s.frags.size() << " short_reads=" << sr << "%:";
  for (std::size_t k = 0; k < outs.size() && k < 6; k++) c.out() << " " << (outs[k].req >= 0 ? "answer#" + std::to_string(outs[k].req) : std::string("msg")) << show(outs[k].w);

  const int fds_before = count_fds();
  int lfd = raw_listen(std::to_string(::getpid()) + "_scalopus");
  if (lfd < 0) c.discard();
  auto factory = std::make_shared<scalopus::TransportUnixFactory>();
  auto dest = find_destination(*factory, ::getpid());
  if (!dest) { ::close(lfd); c.fail("a listening socket with a server's name was not discovered"); }
  auto client = factory->connect(dest);
  if (!client) { ::close(lfd); c.fail("could not connect to a listening server"); }
  int fd = ::accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
  ::close(lfd);
  auto log = std::make_shared<Log>();
  auto replies = std::make_shared<Log>();
  for (auto& n : eps)
    client->addEndpoint(std::make_shared<FnEndpoint>(n, FnEndpoint::Fn(), [log, replies, n](Transport&, const Data& in, Data& out) {
      log->add(n, in);
      bool r = respond(n, in, out);
      if (r) replies->add(n, out);
      return r;
    }));
  io::configure(sr, dl, 100, sseed);
  io::cfg().eintr = eintr;
  std::string error;
  bool soft = false;
  // requests
  Data buf;
  std::vector<Wire> got;
  std::thread requester([&] { for (auto& r : reqs) r.fut = client->request(r.name, r.data); });
  if (!eventually([&] { raw_read(fd, buf, 5); parse(buf, got); return got.size() >= reqs.size(); })) { error = "only " + std::to_string(got.size()) + " of " + std::to_string(reqs.size()) + " requests arrived"; soft = true; }
  requester.join();
  std::set<std::uint64_t> ids;
  if (error.empty())
  {
    if (got.size() != reqs.size() || !buf.empty()) error = "more was sent than the requests made";
    for (std::size_t i = 0; i < reqs.size() && error.empty(); i++)
    {
      if (got[i].name != reqs[i].name || got[i].data != reqs[i].data) error = "request " + std::to_string(i) + " arrived as " + show(got[i]);
      else if (got[i].id == 0) error = "a request used the id that is reserved for broadcasts";
      else if (!ids.insert(got[i].id).second) error = "two outstanding requests share an id";
    }
  }
  std::vector<std::pair<std::string, Data>> want_unsol, want_replies;
  if (error.empty())
  {
    std::size_t p = 0;
    for (std::size_t i = 0; i < outs.size(); i++)
    {
      auto& o = outs[i];
      if (o.req >= 0)
      {
        o.w.id = got[o.req].id;
        if (p + 8 <= s.bytes.size()) std::memcpy(&s.bytes[p], &o.w.id, 8);
        else if (p < s.bytes.size()) std::memcpy(&s.bytes[p], &o.w.id, s.bytes.size() - p);
        if (i < whole) { reqs[o.req].answered = true; reqs[o.req].answer = o.w.data; }
      }
      else if (i < whole && o.w.id == 0 && std::find(eps.begin(), eps.end(), o.w.name) != eps.end())
      {
        want_unsol.emplace_back(o.w.name, o.w.data);
        Data out;
        if (respond(o.w.name, o.w.data, out)) want_replies.emplace_back(o.w.name, out);
      }
      p += 14 + o.w.name.size() + o.w.data.size();
    }
    got.clear();
    std::atomic<bool> stop{ false };
    std::mutex m;
    std::thread reader([&] {
      while (!stop)
      {
        Data d;
        bool ok = raw_read(fd, d, 2);
        std::lock_guard<std::mutex> l(m);
        buf.insert(buf.end(), d.begin(), d.end());
        parse(buf, got);
        if (!ok) break;
      }
    });
    if (!play(fd, s)) error = "the client dropped the connection although only whole messages were sent";
    if (end) ::shutdown(fd, SHUT_WR);
    if (error.empty() && !eventually([&] {
          for (auto& r : reqs) if (r.answered && r.fut->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
          if (log->get().size() < want_unsol.size()) return false;
          std::lock_guard<std::mutex> l(m);
          return end != 0 || got.size() >= want_replies.size();
        }))
    {
      soft = true;
      error = "not everything was delivered: " + std::to_string(log->get().size()) + " of " + std::to_string(want_unsol.size()) + " broadcasts, " + std::to_string(got.size()) + " of " + std::to_string(want_replies.size()) + " replies;";
      for (std::size_t i = 0; i < reqs.size(); i++) if (reqs[i].answered && reqs[i].fut->wait_for(std::chrono::seconds(0)) != std::future_status::ready) error += " no answer for request " + std::to_string(i);
    }
    if (error.empty())
    {
      if (end)
      {
        if (!eventually([&] { return !client->isConnected(); })) { error = "the client still reports to be connected after the server is gone"; soft = true; }
        else
        {
          auto f = client->request("after", { 1 });
          if (f->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
          {
            try { f->get(); error = "a request made after the server is gone was answered"; }
            catch (const scalopus::communication_error&) {}
            catch (const std::exception& e) { error = std::string("a request made after the server is gone failed with ") + e.what(); }
          }
        }
      }
      else if (!client->isConnected()) error = "the client reports not to be connected";
    }
    io::off();
    // requests without a complete answer stay unanswered, as long as the transport exists
    for (std::size_t i = 0; i < reqs.size() && error.empty(); i++)
    {
      auto& r = reqs[i];
      if (r.answered)
      {
        try { Data d = r.fut->get(); if (d != r.answer) error = "request " + std::to_string(i) + " was answered with " + pbt::show(d) + " instead of " + pbt::show(r.answer); }
        catch (const std::exception& e) { error = std::string("request failed: ") + e.what(); }
      }
      else if (r.fut->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
      {
        try { Data d = r.fut->get(); error = "request " + std::to_string(i) + " was answered with " + pbt::show(d) + " although no complete answer was sent"; }
        catch (const std::exception&) {}
      }
    }
    client.reset();
    stop = true;
    reader.join();
  }
  io::off();
  client.reset();
  ::close(fd);
  reqs.clear();
  if (!error.empty()) { if (soft) c.fail_soft(error); c.fail(error); }
  auto un = log->get();
  c.check(un.size() == want_unsol.size(), "the client's endpoints received " + std::to_string(un.size()) + " messages instead of " + std::to_string(want_unsol.size()));
  for (std::size_t i = 0; i < un.size(); i++) c.check(un[i] == want_unsol[i], "message " + std::to_string(i) + " to the client's endpoints is " + show(un[i]) + " instead of " + show(want_unsol[i]));
  if (end == 0)
  {
    c.check(buf.empty(), "the client sent something that is not a whole message");
    c.check(got.size() == want_replies.size(), "wrong number of replies to broadcasts");
    for (std::size_t i = 0; i < got.size(); i++) c.check(got[i].id == 0 && got[i].name == want_replies[i].first && got[i].data == want_replies[i].second, "a reply to a broadcast arrived as " + show(got[i]));
  }
  c.check(count_fds() == fds_before, "descriptors leaked");
  c.label("client side");
  c.label("messages", outs.size());
  c.label("fragments", s.frags.size());
  if (end == 2) c.label("truncated");
  if (outs.size() >= 2 && (end == 2 || s.frags.size() > 1)) c.nontrivial();
}

static void prop(Case& c)
{
  if (c.boolean()) client_side(c);
  else server_side(c);
}
PBT_MAIN(prop)
