// C18 (one viewer's session) and C20 (several viewers, the server): the trace viewer's backend behind a web server of
// which the connections are generated.
#include <scalopus_catapult/catapult_server.h>
#include <seasocks/IgnoringLogger.h>
#include <seasocks/Server.h>
#include "sources.h"
using namespace vf;

namespace
{
// What one connection received. A connection object is used again for later viewers: the same address.
struct Viewer
{
  std::string who;                                 // tag of this life
  std::vector<std::string> sent;                   // by the server, in order
  std::vector<std::shared_ptr<SourceState>> sources;
  std::shared_ptr<Gate> gate = std::make_shared<Gate>();
  std::mutex m;
  std::vector<std::string> get() { std::lock_guard<std::mutex> l(m); return sent; }
};

struct Conn : seasocks::WebSocket
{
  const std::string& getRequestUri() const override { return uri; }
  void send(const char* data) override
  {
    if (!viewer) { log->error("a message is sent to a connection that is closed: " + std::string(data).substr(0, 200)); return; }
    if (std::this_thread::get_id() != *server_thread) log->error("a message is sent from another thread than that of the server");
    std::lock_guard<std::mutex> l(viewer->m);
    viewer->sent.push_back(data);
  }
  void send(const uint8_t*, size_t) override { log->error("binary data is sent"); }
  void close() override {}
  std::string uri;
  std::shared_ptr<Viewer> viewer;
  std::shared_ptr<Log> log;
  std::shared_ptr<std::thread::id> server_thread;
};
struct Req : seasocks::Request
{
  explicit Req(std::string u) : uri(std::move(u)) {}
  const std::string& getRequestUri() const override { return uri; }
  std::string uri;
};

// What a viewer has asked, and what it should get.
struct Model
{
  struct Ask { json id; char kind; /* c, s, e */ };
  std::vector<Ask> asks;
  unsigned ends{ 0 };
};

std::string not_a_request(Case& c)
{
  switch (c.draw(18))
  {
    case 16:
    {
      // nested beyond what any request is
      const std::size_t n = c.pick(std::vector<std::size_t>{ 10000, 30000, 100000, 400000 });
      const bool object = c.boolean();
      std::string s = "{\"method\":\"" + c.pick(std::vector<std::string>{ "Tracing.getCategories", "Tracing.start", "Tracing.end", "Page.enable" }) + "\",\"id\":";
      for (std::size_t i = 0; i < n; i++) s += object ? "{\"a\":" : "[";
      s += "1";
      for (std::size_t i = 0; i < n; i++) s += object ? "}" : "]";
      return s + "}";
    }
    case 0: return "";
    case 1: return "{";
    case 2: return "not json at all";
    case 3: return "[]";
    case 4: return "[1,{\"method\":\"Tracing.start\",\"id\":1}]";
    case 5: return "null";
    case 6: return "7";
    case 7: return "\"Tracing.start\"";
    case 8: return "{}";
    case 9: return "{\"id\":12}";
    case 10: return "{\"method\":" + std::string(c.pick(std::vector<std::string>{ "null", "1", "[]", "{}", "true", "[\"Tracing.start\"]", "\"\"" })) + ",\"id\":3}";
    case 11: return json({ { "id", 4 }, { "method", c.pick(std::vector<std::string>{ "Tracing.Start", "tracing.end", "Tracing", "Tracing.ends", "Page.enable", "Tracing.start ", "Tracing.getCategorie", "Tracing.requestMemoryDump" }) }, { "params", json::object() } }).dump();
    case 12: { std::string s = "{\"method\":\"Tracing.start\",\"id\":"; return s.substr(0, c.draw(s.size() + 1)); }
    case 13: return std::string(1 + c.draw(3000), '[');
    case 14: { std::string s = "{\"method\":\"\xff\xfe\",\"id\":1}"; return s; }
    default: return "true false" + c.text(5);
  }
}

void property(Case& c)
{
  const char* mode = std::getenv("VERIF_MODE");
  const bool many = mode && std::string(mode) == "viewers";
  auto log = std::make_shared<Log>();
  auto server_thread = std::make_shared<std::thread::id>();
  const bool odd = c.chance(1, 4);

  // the providers; the one connecting is known while it connects
  const unsigned nprov = static_cast<unsigned>(c.draw(4));
  auto connecting = std::make_shared<std::shared_ptr<Viewer>>();
  struct Plan { std::vector<std::vector<Yield>> per_provider; std::vector<unsigned> fails; };
  auto plan = std::make_shared<Plan>();
  auto server = std::make_shared<scalopus::CatapultServer>();
  std::vector<std::shared_ptr<SourceState>> all_sources;
  std::mutex all_m;
  for (unsigned p = 0; p < nprov; p++)
  {
    server->addProvider(std::make_shared<FakeProvider>([&, p] {
      auto st = std::make_shared<SourceState>();
      auto v = *connecting;
      if (!v) { log->error("a source is made while nobody connects"); st->log = log; return st; }
      st->who = v->who + "p" + std::to_string(p);
      st->log = log;
      st->gate = v->gate;
      // providers may be written by users too: 8 none is made, 9 that fails
      if (plan->fails[p] == 8) return std::shared_ptr<SourceState>();
      if (plan->fails[p] == 9) throw std::runtime_error("no source can be made");
      st->batches = plan->per_provider[p];
      st->fails = plan->fails[p];
      for (auto& s : v->sources)
        if (s->who == st->who) log->error("two sources are made for a viewer by one provider");
      v->sources.push_back(st);
      std::lock_guard<std::mutex> l(all_m);
      all_sources.push_back(st);
      return st;
    }));
  }
  std::atomic<int> logged{ 0 };
  if (c.boolean()) server->setLogger([&](const std::string&) { logged++; });
  if (c.boolean()) server->setSeasocksLogger(std::make_shared<seasocks::IgnoringLogger>());
  if (c.boolean()) server->setMaxBuffersize(1u << 20);
  const int port = c.boolean() ? 9222 : 1 + static_cast<int>(c.draw(65535));
  const std::string advertised_default = "/devtools/page/bar";

  struct Slot { Conn conn; Model model; };
  std::deque<Slot> slots(many ? 3 : 1);
  for (auto& s : slots)
  {
    s.conn.log = log;
    s.conn.server_thread = server_thread;
  }
  seasocks::Server* shim = nullptr;
  std::set<seasocks::Server*> before;
  {
    std::lock_guard<std::mutex> l(seasocks::Server::registryMutex());
    before = seasocks::Server::registry();
  }
  const bool never_started = many && c.chance(1, 40);
  if (never_started)
  {
    server.reset();
    c.label("never started");
    return;
  }
  if (port == 9222 && c.boolean()) server->start();
  else server->start(port);
  {
    std::lock_guard<std::mutex> l(seasocks::Server::registryMutex());
    for (auto* s : seasocks::Server::registry())
      if (!before.count(s)) shim = s;
  }
  c.check(shim != nullptr, "no web server is running");
  c.check(shim->port_ == port, "the web server listens on port " + std::to_string(shim->port_) + " instead of " + std::to_string(port));
  // a function executed on the server's thread
  auto on_server = [&](const std::function<void()>& f) {
    auto p = std::make_shared<std::promise<void>>();
    auto fut = p->get_future();
    shim->execute([f, p] { f(); p->set_value(); });
    if (fut.wait_for(std::chrono::seconds(20)) != std::future_status::ready) c.fail_soft("the server's thread is stuck");
  };
  on_server([&] { *server_thread = std::this_thread::get_id(); });

  std::vector<std::string> paths;
  for (auto& w : shim->ws_) paths.push_back(w.first);
  c.check(!paths.empty() && !shim->pages_.empty(), "the web server serves nothing");

  // pages
  auto page = [&](const std::string& uri) {
    std::string body;
    bool handled = false;
    std::string err;
    on_server([&] {
      Req r(uri);
      for (auto& h : shim->pages_)
      {
        auto resp = h->handle(r);
        if (resp) { handled = true; body = resp->body; break; }
      }
    });
    return std::make_pair(handled, body);
  };
  auto check_pages = [&] {
    auto v = page("/json/version");
    c.check(v.first, "the version is not served");
    json j;
    try { j = json::parse(v.second); } catch (const json::exception&) { c.fail("the version is not JSON: " + v.second); }
    c.check(j.is_object() && j.contains("Browser") && j.contains("Protocol-Version"), "not a version: " + v.second);
    if (j.contains("webSocketDebuggerUrl"))
    {
      auto u = j["webSocketDebuggerUrl"].get<std::string>();
      if (u.empty() || u[0] != '/') u = "/" + u;
      c.check(shim->ws_.count(u) != 0, "the advertised " + u + " is not served");
    }
    for (std::string u : { "/json/list", "/json/list?t=1", "/json/list?for_tab" })
    {
      v = page(u);
      c.check(v.first, u + " is not served");
      try { j = json::parse(v.second); } catch (const json::exception&) { c.fail("the targets are not JSON: " + v.second); }
      c.check(j.is_array() && j.size() == 1 && j[0].is_object() && j[0].contains("title") && j[0].contains("type"), "not a list of a target: " + v.second);
    }
    const auto other = c.pick(std::vector<std::string>{ "/", "", "/json", "/index.html", "/json/versio", "/favicon.ico", "/devtools" });
    c.check(!page(other).first, other + " is served");
  };
  // /devtools/browser and /devtools/page/bar are what the viewers use
  c.check(shim->ws_.count("/devtools/page/bar") && shim->ws_.count("/devtools/browser"), "a websocket of the viewers is not served");

  const bool failing = c.chance(1, 5);
  unsigned fails = 0;
  unsigned lives = 0, ends_total = 0, events_seen = 0, requests = 0, reconnects = 0, ignored = 0;
  std::string history;
  std::vector<std::pair<std::shared_ptr<Viewer>, Model>> past;

  auto plan_for = [&](const std::string& who, unsigned nends) {
    plan->per_provider.clear();
    plan->fails.clear();
    static const std::vector<std::size_t> sizes = { 0, 1, 2, 3, 999, 1000, 1001, 1999, 2000, 2500 };
    for (unsigned p = 0; p < nprov; p++)
    {
      std::vector<Yield> b;
      for (unsigned k = 0; k < nends; k++)
      {
        std::size_t n = many ? c.draw(4) : (c.chance(1, 6) ? sizes[c.draw(sizes.size())] : c.draw(5));
        if (many && c.chance(1, 20)) n = 1000 + c.draw(1001);
        b.push_back(make_batch(c, who + "p" + std::to_string(p) + "." + std::to_string(k), n, odd));
      }
      unsigned f = 0;
      if (failing && c.boolean())
      {
        f = source_fails(c, b);
        if (c.chance(1, 4)) f = 8 + static_cast<unsigned>(c.draw(2));
        fails++;
      }
      plan->fails.push_back(f);
      plan->per_provider.push_back(std::move(b));
    }
  };
  // on the server's thread
  auto connect = [&](Slot& s, const std::shared_ptr<Viewer>& v, const std::string& path) {
    s.conn.uri = path;
    s.conn.viewer = v;
    *connecting = v;
    shim->ws_[path]->onConnect(&s.conn);
    connecting->reset();
    const auto absent = static_cast<unsigned>(std::count_if(plan->fails.begin(), plan->fails.end(), [](unsigned f) { return f >= 8; }));
    if (v->sources.size() != nprov - absent) log->error("a viewer got " + std::to_string(v->sources.size()) + " sources of " + std::to_string(nprov) + " providers");
  };
  auto disconnect = [&](Slot& s) {
    s.conn.viewer->gate->open();
    shim->ws_[s.conn.uri]->onDisconnect(&s.conn);
    for (auto& src : s.conn.viewer->sources)
      if (src->alive) log->error("source " + src->who + " is kept after its viewer left");
    s.conn.viewer.reset();
  };
  shim->on_loop_end = [&] {
    for (auto& s : slots)
      if (s.conn.viewer) disconnect(s);
  };

  // whatever happens: the server goes first
  struct OnExit
  {
    scalopus::CatapultServer::Ptr& s;
    std::deque<Slot>& slots;
    ~OnExit()
    {
      for (auto& x : slots) if (x.conn.viewer) x.conn.viewer->gate->open();
      s.reset();
    }
  } on_exit{ server, slots };

  // Compares what a viewer received with what it asked. Complete: everything must be there.
  auto judge = [&](const std::shared_ptr<Viewer>& v, const Model& m, bool complete) {
    const auto sent = v->get();
    std::size_t at = 0;
    const std::string ctx = " (viewer " + v->who + " after " + history + ")";
    std::vector<json> msgs;
    for (auto& s : sent)
    {
      try { msgs.push_back(json::parse(s)); }
      catch (const json::exception& e) { c.fail("a message is not valid JSON: " + s.substr(0, 300) + ctx); }
      c.check(msgs.back().is_object(), "a message is not an object: " + s.substr(0, 300) + ctx);
    }
    auto next = [&]() -> const json* { return at < msgs.size() ? &msgs[at] : nullptr; };
    unsigned k = 0;
    for (auto& a : m.asks)
    {
      auto* r = next();
      if (!r) { c.check(!complete, "request " + a.id.dump() + " is not answered" + ctx); return; }
      c.check(r->contains("id") && (*r)["id"] == a.id && r->contains("result"), "request " + a.id.dump() + " is answered with " + r->dump().substr(0, 300) + ctx);
      if (a.kind == 'c') c.check((*r)["result"].is_object() && (*r)["result"].contains("categories") && (*r)["result"]["categories"].is_array(), "no categories: " + r->dump() + ctx);
      at++;
      if (a.kind != 'e') continue;
      std::vector<json> events;
      bool done = false;
      while (auto* d = next())
      {
        c.check(d->contains("method"), "expected events or completion, got " + d->dump().substr(0, 300) + ctx);
        at++;
        if ((*d)["method"] == "Tracing.tracingComplete") { done = true; break; }
        c.check((*d)["method"] == "Tracing.dataCollected", "expected events or completion, got " + d->dump().substr(0, 300) + ctx);
        c.check(d->contains("params") && (*d)["params"].contains("value") && (*d)["params"]["value"].is_array(), "no events in " + d->dump().substr(0, 300) + ctx);
        auto& val = (*d)["params"]["value"];
        c.check(val.size() <= 1000, "a chunk of " + std::to_string(val.size()) + " events" + ctx);
        events.insert(events.end(), val.begin(), val.end());
      }
      std::vector<const Yield*> want;
      for (auto& s : v->sources) if (k < s->batches.size()) want.push_back(&s->batches[k]);
      k++;
      if (!done)
      {
        c.check(!complete, "no completion" + ctx);
        return;
      }
      const auto d = compare_events(events, want);
      c.check(d.empty(), d + ctx);
      events_seen += static_cast<unsigned>(events.size());
    }
    c.check(at == msgs.size(), "an unexpected message: " + (at < msgs.size() ? msgs[at].dump().substr(0, 300) : "") + ctx);
  };
  // the calls on the viewer's sources
  auto judge_sources = [&](const std::shared_ptr<Viewer>& v, const Model& m, bool complete) {
    std::string want;
    for (auto& a : m.asks)
    {
      if (a.kind == 's') want += "start ";
      if (a.kind == 'e') want += "stop finish ";
    }
    const auto entries = log->get();
    std::map<std::string, std::string> got;
    std::map<std::string, unsigned> stops, finishes;
    for (auto& e : entries)
    {
      const auto p = e.find(':');
      const auto who = e.substr(0, p), what = e.substr(p + 1);
      got[who] += what + " ";
      if (what == "stop") stops[who]++;
      if (what == "finish")
      {
        finishes[who]++;
        // every source of this viewer has been stopped
        for (auto& s : v->sources)
          if (who.rfind(v->who + "p", 0) == 0)
            c.check(stops[s->who] >= finishes[who], "source " + who + " is finished before source " + s->who + " is stopped");
      }
    }
    for (auto& s : v->sources)
    {
      const auto& g = got[s->who];
      c.check(complete ? g == want : want.compare(0, g.size(), g) == 0, "source " + s->who + " got " + g + "expected " + want + "after " + history);
    }
  };
  // a fence: everything asked before it is answered
  auto ask = [&](Slot& s, char kind, const std::shared_ptr<Viewer>& of = nullptr) {
    Model::Ask a;
    a.kind = kind;
    const auto n = requests++;
    switch (c.draw(5))
    {
      case 0: a.id = (of ? of : s.conn.viewer)->who + "-" + std::to_string(n); break;
      case 1: a.id = -static_cast<std::int64_t>(n) - 1; break;
      case 2: a.id = (std::uint64_t(1) << 40) + n; break;
      default: a.id = n; break;
    }
    json msg = { { "id", a.id }, { "method", kind == 'c' ? "Tracing.getCategories" : kind == 's' ? "Tracing.start" : "Tracing.end" } };
    if (c.boolean()) msg["params"] = { { "traceConfig", { { "x", c.text(4) } } }, { "bufferUsageReportingInterval", 1000 } };
    if (kind == 'e') { s.model.ends++; ends_total++; }
    s.model.asks.push_back(a);
    return msg.dump(c.chance(1, 4) ? 2 : -1);
  };
  auto deliver = [&](Slot& s, const std::string& text) { shim->ws_[s.conn.uri]->onData(&s.conn, text.c_str()); };
  auto fence = [&](Slot& s) {
    const auto text = ask(s, 'c');
    const auto id = s.model.asks.back().id;
    on_server([&] { deliver(s, text); });
    auto v = s.conn.viewer;
    const bool ok = eventually([&] {
      std::lock_guard<std::mutex> l(v->m);
      if (v->sent.empty() || v->sent.back().find("categories") == std::string::npos) return false;
      try { return json::parse(v->sent.back())["id"] == id; } catch (const std::exception&) { return false; }
    }, 20);
    c.check(log->error().empty(), log->error() + " after " + history);
    judge(v, s.model, ok);
    if (!ok) c.fail_soft("the viewer " + v->who + " gets no answer after " + history);
    judge_sources(v, s.model, true);
  };

  if (c.chance(1, many ? 2 : 8)) check_pages();
  const std::uint64_t nops = many ? 2 + c.draw(22) : 1;
  auto new_life = [&](Slot& s) {
    auto v = std::make_shared<Viewer>();
    v->who = "v" + std::to_string(lives++);
    s.model = Model{};
    plan_for(v->who, many ? 3 : 4);
    return v;
  };

  if (!many)
  {
    auto& s = slots[0];
    auto v = new_life(s);
    const auto path = c.pick(paths);
    history += "connect ";
    const auto n = c.draw(16);
    std::vector<std::string> batch;
    bool connected = false;
    auto flush = [&] {
      on_server([&] {
        if (!connected) connect(s, v, path);
        for (auto& t : batch) deliver(s, t);
      });
      connected = true;
      batch.clear();
    };
    if (c.boolean()) flush();  // else the first messages arrive at once with the connection
    for (std::uint64_t i = 0; i < n; i++)
    {
      switch (c.draw(8))
      {
        case 0: batch.push_back(ask(s, 'c', v)); history += "categories "; break;
        case 1:
        case 2: batch.push_back(ask(s, 's', v)); history += "start "; break;
        case 3:
        case 4: if (s.model.ends < 4) { batch.push_back(ask(s, 'e', v)); history += "end "; } break;
        case 5:
          if (c.boolean())
          {
            flush();
            auto data = c.bytes(c.draw(40));
            on_server([&] { shim->ws_[s.conn.uri]->onData(&s.conn, data.data(), data.size()); });
            history += "binary ";
          }
          else
          {
            batch.push_back(not_a_request(c));
            history += "odd(" + pbt::esc(batch.back().substr(0, 40)) + ") ";
          }
          ignored++;
          break;
        case 6: batch.push_back(not_a_request(c)); ignored++; history += "odd(" + pbt::esc(batch.back().substr(0, 40)) + ") "; break;
        default: flush(); if (c.chance(1, 3)) { fence(s); history += "fence "; } break;
      }
    }
    flush();
    fence(s);
    if (nprov)
    {
      std::vector<unsigned> works;
      for (auto& src : v->sources) works.push_back(src->works);
      if (!eventually([&] { for (std::size_t k = 0; k < works.size(); k++) if (v->sources[k]->works <= works[k]) return false; return true; }))
        c.fail_soft("a source is given no work after " + history);
    }
    if (c.boolean())
    {
      past.push_back({ v, s.model });
      on_server([&] { disconnect(s); });
    }
  }
  else
    for (std::uint64_t i = 0; i < nops; i++)
    {
      auto& s = slots[c.draw(slots.size())];
      const auto name = std::string(1, static_cast<char>('A' + (&s - &slots[0])));
      const auto op = c.draw(13);
      if (!s.conn.viewer)
      {
        if (op < 10)
        {
          auto v = new_life(s);
          const auto path = c.pick(paths);
          std::string first;
          if (c.boolean()) first = ask(s, c.boolean() ? 's' : 'c', v);
          on_server([&] { connect(s, v, path); if (!first.empty()) deliver(s, first); });
          history += name + ":connect" + (first.empty() ? "" : "+ask") + " ";
        }
        else if (op == 10)
        {
          // data of an unknown connection
          on_server([&] { shim->ws_[paths[0]]->onData(&s.conn, "{\"id\":1,\"method\":\"Tracing.start\"}"); });
          history += name + ":stray ";
        }
        continue;
      }
      switch (op)
      {
        case 0: { auto t = ask(s, 'c'); on_server([&] { deliver(s, t); }); history += name + ":categories "; break; }
        case 1:
        case 2: { auto t = ask(s, 's'); on_server([&] { deliver(s, t); }); history += name + ":start "; break; }
        case 3:
        case 4:
          if (s.model.ends < 3) { auto t = ask(s, 'e'); on_server([&] { deliver(s, t); }); history += name + ":end "; }
          break;
        case 5: { auto t = not_a_request(c); on_server([&] { deliver(s, t); }); history += name + ":odd "; break; }
        case 6: s.conn.viewer->gate->open(); fence(s); history += name + ":fence "; break;
        case 7:
        {
          past.push_back({ s.conn.viewer, s.model });
          on_server([&] { disconnect(s); });
          history += name + ":leave ";
          break;
        }
        case 8:
        case 9:
        {
          // leaves with answers on their way, and another viewer comes at the same address
          if (s.model.ends < 3 && c.boolean())
          {
            s.conn.viewer->gate->close();
            auto t = ask(s, 'e');
            on_server([&] { deliver(s, t); });
            if (nprov && c.boolean()) eventually([&] { return s.conn.viewer->gate->inside() > 0; }, 0.2);
            history += name + ":end(held) ";
          }
          past.push_back({ s.conn.viewer, s.model });
          auto v = new_life(s);
          const auto path = c.pick(paths);
          std::string first;
          if (c.boolean()) first = ask(s, c.boolean() ? 's' : 'c', v);
          on_server([&] { disconnect(s); connect(s, v, path); if (!first.empty()) deliver(s, first); });
          reconnects++;
          history += name + ":reconnect ";
          break;
        }
        case 10: check_pages(); break;
        case 11: s.conn.viewer->gate->close(); history += name + ":hold "; break;
        case 12: s.conn.viewer->gate->open(); history += name + ":release "; break;
      }
      c.check(log->error().empty(), log->error() + " after " + history);
    }
  // everyone still there gets everything, unless the server goes at once
  const bool abrupt = c.chance(1, 3);
  if (!abrupt)
    for (auto& s : slots)
      if (s.conn.viewer)
      {
        s.conn.viewer->gate->open();
        fence(s);
      }
  std::vector<std::pair<std::shared_ptr<Viewer>, Model>> present;
  for (auto& s : slots)
    if (s.conn.viewer) present.push_back({ s.conn.viewer, s.model });
  std::weak_ptr<scalopus::CatapultServer> weak = server;
  server.reset();
  history += abrupt ? "destroy(abrupt) " : "destroy ";
  c.check(weak.expired(), "the server is kept");
  c.check(log->error().empty(), log->error() + " after " + history);
  for (auto& s : all_sources) c.check(!s->alive, "source " + s->who + " is kept after " + history);
  for (auto& p : past) { judge(p.first, p.second, false); judge_sources(p.first, p.second, false); }
  for (auto& p : present) { judge(p.first, p.second, !abrupt); judge_sources(p.first, p.second, !abrupt); }
  if (!shim) c.fail("unreachable");
  c.out() << nprov << " providers, " << history << ", " << events_seen << " events" << (odd ? ", odd texts" : "") << "; ";
  c.label("requests", requests);
  c.label("events", events_seen);
  c.label("recordings ended", ends_total);
  c.label("ignored", ignored);
  c.label("reconnections", reconnects);
  if (many ? (lives >= 2 && requests >= 3) : (nprov && ends_total && ignored + requests >= 3)) c.nontrivial();
}
}  // namespace
PBT_MAIN(property)
