// C05: whatever bytes are sent to the built-in endpoints, the process lives, its tracing configuration is what the
// well-formed requests made it, and well-formed requests are answered correctly.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "cborenc.h"
#include "fakes.h"

using namespace vf;
using namespace scalopus;
static const std::vector<std::string> kTargets = { "trace_configurator", "process_info", "scope_tracing", "introspect", "native_trace_sender", "thrower", "unknown" };
static const unsigned kId = 0x1234, kEventId = 0x77;

struct Side
{
  Transport::Ptr server, client;
  std::map<std::string, Endpoint::Ptr> eps;
  std::shared_ptr<NativeTraceProvider> provider;
  std::shared_ptr<std::atomic<int>> barrier = std::make_shared<std::atomic<int>>(0);
  EndpointIntrospect::Ptr intro;
  EndpointProcessInfo::Ptr info;
  EndpointTraceMapping::Ptr mapping;
  EndpointTraceConfigurator::Ptr config;
};
struct Fixture
{
  std::vector<Side> sides;  // 0 direct, 1 unix, 2 loopback
  Actor worker;             // a thread with a name and a state
  unsigned long tid{ 0 };
  std::string thread_name;
  std::shared_ptr<FakeManager> manager = std::make_shared<FakeManager>();
};
static std::map<std::string, Endpoint::Ptr> make_endpoints()
{
  std::map<std::string, Endpoint::Ptr> r;
  auto info = std::make_shared<EndpointProcessInfo>();
  info->setProcessName("the process");
  auto add = [&](const Endpoint::Ptr& e) { r[e->getName()] = e; };
  add(info);
  add(std::make_shared<EndpointIntrospect>());
  add(std::make_shared<EndpointTraceMapping>());
  add(std::make_shared<EndpointTraceConfigurator>());
  add(std::make_shared<EndpointNativeTraceSender>());
  add(std::make_shared<FnEndpoint>("thrower", [](Transport&, const Data& d, Data&) -> bool {
    switch (d.empty() ? 0 : d[0] % 4)
    {
      case 0: throw std::runtime_error("thrower");
      case 1: throw std::out_of_range("thrower");
      case 2: throw std::bad_alloc();
      default: throw json::parse(std::string("[1]")).at(7);
    }
  }));
  return r;
}
static Fixture& fixture()
{
  static Fixture* f = nullptr;
  if (f) return *f;
  f = new Fixture();
  StaticStringTracker::getInstance().insert(kId, "the name");
  f->thread_name = "the thread";
  f->tid = f->worker.tid();
  f->worker.run([] { TRACE_THREAD_NAME("the thread"); TraceConfigurator::getInstance()->getThreadState(); });
  for (int kind = 0; kind < 3; kind++)
  {
    Side s;
    s.eps = make_endpoints();
    if (kind == 0)
    {
      auto eps = s.eps;
      auto holder = std::make_shared<Transport*>(nullptr);
      auto t = std::make_shared<FakeTransport>([eps, holder](const std::string& name, const Data& in, Data& out) {
        auto it = eps.find(name);
        if (it == eps.end()) return false;
        try { return it->second->handle(**holder, in, out); }
        catch (const std::exception&) { return false; }
      });
      *holder = t.get();
      for (auto& e : eps) if (e.first != "native_trace_sender") t->addEndpoint(e.second);
      s.client = t;
    }
    else
    {
      TransportFactory::Ptr factory;
      if (kind == 1) factory = std::make_shared<TransportUnixFactory>();
      else factory = std::make_shared<TransportLoopbackFactory>();
      s.server = factory->serve();
      if (!s.server) throw std::runtime_error("could not serve");
      for (auto& e : s.eps) s.server->addEndpoint(e.second);
      s.client = factory->connect(s.server->getAddress());
      if (!s.client) throw std::runtime_error("could not connect");
      s.provider = std::make_shared<NativeTraceProvider>(f->manager);
      s.client->addEndpoint(s.provider->receiveEndpoint());
      auto b = s.barrier;
      s.client->addEndpoint(std::make_shared<FnEndpoint>("barrier", FnEndpoint::Fn(), [b](Transport&, const Data&, Data&) { (*b)++; return false; }));
      eventually([&] { s.server->broadcast("barrier", {}); std::this_thread::sleep_for(milliseconds(5)); return s.barrier->load() > 0; });
    }
    s.intro = EndpointIntrospect::factory(s.client);
    s.info = EndpointProcessInfo::factory(s.client);
    s.mapping = EndpointTraceMapping::factory(s.client);
    s.config = EndpointTraceConfigurator::factory(s.client);
    f->sides.push_back(s);
  }
  return *f;
}

// ------------------------------------------------------------------------------------------------ messages
static json gen_json(Case& c, int depth)
{
  switch (c.draw(depth > 0 ? 10 : 7))
  {
    case 0: return nullptr;
    case 1: return c.boolean();
    case 2: return c.range(-5, 5);
    case 3: return static_cast<std::int64_t>(c.seed64());
    case 4: return c.text(6);
    case 5: return 1.5;
    case 6: return json::binary(c.bytes(c.draw(5)));
    case 7: { json a = json::array(); std::size_t n = c.draw(4); for (std::size_t i = 0; i < n; i++) a.push_back(gen_json(c, depth - 1)); return a; }
    default:
    {
      json o = json::object();
      static const std::vector<std::string> keys = { "p", "sp", "t", "cmd", "state", "x", "" };
      std::size_t n = c.draw(4);
      for (std::size_t i = 0; i < n; i++) o[c.pick(keys)] = gen_json(c, depth - 1);
      return o;
    }
  }
}
static json gen_config(Case& c, const Fixture& f)
{
  json j = json::object();
  j["cmd"] = c.draw(5) ? json("set") : c.draw(3) ? json("get") : c.boolean() ? json(c.text(4)) : gen_json(c, 1);
  json s = json::object();
  s["p"] = c.boolean();
  s["sp"] = c.boolean();
  json t = json::array();
  std::size_t n = c.draw(4);
  for (std::size_t i = 0; i < n; i++)
  {
    json tid = c.boolean() ? json(f.tid) : c.boolean() ? json(static_cast<unsigned long>(c.draw(1ull << 47))) : json(0);
    t.push_back(json::array({ tid, c.boolean() }));
  }
  s["t"] = t;
  j["state"] = s;
  // and something else about it
  if (c.draw(3) == 0) return j;
  switch (c.draw(6))
  {
    case 0: { static const std::vector<std::string> k = { "cmd", "state" }; j.erase(c.pick(k)); break; }
    case 1: { static const std::vector<std::string> k = { "p", "sp", "t" }; j["state"].erase(c.pick(k)); break; }
    case 2: { static const std::vector<std::string> k = { "p", "sp", "t" }; j["state"][c.pick(k)] = gen_json(c, 2); break; }
    case 3: { static const std::vector<std::string> k = { "cmd", "state" }; j[c.pick(k)] = gen_json(c, 2); break; }
    case 4: if (!t.empty()) { j["state"]["t"][c.draw(t.size())] = gen_json(c, 1); } break;
    default: if (!t.empty()) { j["state"]["t"][c.draw(t.size())][c.draw(2)] = gen_json(c, 1); }
  }
  return j;
}
static Data mutate(Case& c, Data d)
{
  std::size_t n = c.draw(4);
  for (std::size_t i = 0; i < n; i++)
  {
    std::size_t at = d.empty() ? 0 : c.draw(d.size());
    switch (c.draw(6))
    {
      case 0: if (!d.empty()) d[at] = static_cast<std::uint8_t>(c.draw(256)); break;
      case 1: if (!d.empty()) d[at] ^= static_cast<std::uint8_t>(1u << c.draw(8)); break;
      case 2: d.resize(at); break;
      case 3: { auto b = c.bytes(c.draw(9)); d.insert(d.begin() + static_cast<long>(at), b.begin(), b.end()); break; }
      case 4: if (!d.empty()) d.erase(d.begin() + static_cast<long>(at), d.begin() + static_cast<long>(std::min(d.size(), at + 1 + c.draw(8)))); break;
      default: if (d.size() >= 4) { static const std::vector<std::uint32_t> v = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 5 }; std::uint32_t x = c.pick(v); std::memcpy(&d[std::min(at, d.size() - 4)], &x, 4); }
    }
  }
  return d;
}
static Data gen_message(Case& c, const Fixture& f, const std::string& target)
{
  switch (c.draw(12))
  {
    case 0: return {};
    case 1: return c.bytes(c.size(64));
    case 2: return deep_bson(c);
    case 3: { Data d; std::size_t n = c.draw(3000); auto pat = c.bytes(1 + c.draw(8)); for (std::size_t i = 0; i < n; i++) d.push_back(pat[i % pat.size()]); return d; }
    case 4: { json j = gen_json(c, 4); if (!j.is_object()) { json o = json::object(); o["cmd"] = j; j = o; } return mutate(c, json::to_bson(j)); }
    default:
      if (target == "process_info") { json j = json::object(); j["cmd"] = c.draw(4) ? json("info") : gen_json(c, 1); if (c.draw(4) == 0) j["x"] = gen_json(c, 2); return mutate(c, json::to_bson(j)); }
      if (target == "scope_tracing") return mutate(c, Data{ 'm' });
      if (target == "introspect") return mutate(c, Data{});
      { auto b = json::to_bson(gen_config(c, f)); return c.draw(3) ? b : mutate(c, b); }
  }
}
struct Depth : nlohmann::json_sax<json>
{
  int d{ 0 };
  bool null() override { return true; }
  bool boolean(bool) override { return true; }
  bool number_integer(json::number_integer_t) override { return true; }
  bool number_unsigned(json::number_unsigned_t) override { return true; }
  bool number_float(json::number_float_t, const std::string&) override { return true; }
  bool string(std::string&) override { return true; }
  bool binary(json::binary_t&) override { return true; }
  bool start_object(std::size_t) override { return ++d < 100; }
  bool key(std::string&) override { return true; }
  bool end_object() override { d--; return true; }
  bool start_array(std::size_t) override { return ++d < 100; }
  bool end_array() override { d--; return true; }
  bool parse_error(std::size_t, const std::string&, const nlohmann::detail::exception&) override { return false; }
};
struct Model { bool process{ true }; std::map<unsigned long, bool> threads; bool operator==(const Model& o) const { return process == o.process && threads == o.threads; } };
static Model actual()
{
  Model m;
  auto cfg = TraceConfigurator::getInstance();
  m.process = cfg->getProcessState();
  for (auto& t : cfg->getThreadMap()) m.threads[t.first] = t.second->load();
  return m;
}
enum class Kind { no_change, change, unclear };
// What this request for the configurator means.
static Kind classify(const Data& d, Model& m)
{
  json j;
  try
  {
    Depth depth;
    if (!json::sax_parse(d, &depth, json::input_format_t::bson)) return Kind::no_change;
    j = json::from_bson(d);
  }
  catch (const std::exception&) { return Kind::no_change; }
  if (!j.is_object() || !j.contains("cmd") || !j["cmd"].is_string() || j["cmd"].get<std::string>() != "set") return Kind::no_change;
  if (!j.contains("state") || !j["state"].is_object()) return Kind::no_change;
  json& s = j["state"];
  if (!s.contains("p") || !s.contains("sp") || !s.contains("t")) return Kind::no_change;
  if (!s["p"].is_boolean() || !s["sp"].is_boolean()) return Kind::no_change;
  if (!s["t"].is_array()) return Kind::no_change;
  std::map<unsigned long, bool> want;
  for (auto& e : s["t"])
  {
    if (!e.is_array() || e.size() < 2 || !e[1].is_boolean() || e[0].is_string() || e[0].is_null() || e[0].is_structured() || e[0].is_binary()) return Kind::no_change;
  }
  for (auto& e : s["t"])
  {
    if (e.size() != 2 || !e[0].is_number_integer() || (!e[0].is_number_unsigned() && e[0].get<std::int64_t>() < 0)) return Kind::unclear;
    if (!want.emplace(e[0].get<unsigned long>(), e[1].get<bool>()).second) return Kind::unclear;
  }
  if (s["sp"].get<bool>()) m.process = s["p"].get<bool>();
  for (auto& w : want) if (m.threads.count(w.first)) m.threads[w.first] = w.second;
  return Kind::change;
}

static void run(Case& c)
{
  auto& f = fixture();
  auto cfg = TraceConfigurator::getInstance();
  cfg->setProcessState(true);
  f.worker.run([&] { cfg->setThreadState(true); });
  cfg->setThreadState(true);
  std::size_t which = c.draw(100);
  Side& s = f.sides[which < 60 ? 0 : which < 98 ? 1 : 2];
  c.out() << (which < 60 ? "direct:" : which < 98 ? "unix:" : "loopback:");
  std::string err;
  bool soft = false;
  auto verify = [&](const Model& m) {
    std::set<std::string> names;
    for (auto& e : s.eps) if (s.server || e.first != "native_trace_sender") names.insert(e.first);
    std::vector<std::string> sup;
    if (!eventually([&] { sup = s.intro->supported(); return !sup.empty(); })) { err = "introspection is not answered"; soft = true; return; }
    if (std::set<std::string>(sup.begin(), sup.end()) != names || sup.size() != names.size()) err = "introspection yields other names";
    EndpointProcessInfo::ProcessInfo info;
    if (!eventually([&] { info = s.info->processInfo(); return info.pid != 0; })) { err = "process info is not answered"; soft = true; return; }
    if (info.pid != ::getpid() || info.name != "the process" || !info.threads.count(f.tid) || info.threads[f.tid] != "the thread") err = "process info is wrong";
    EndpointTraceMapping::ProcessTraceMap map;
    if (!eventually([&] { map = s.mapping->mapping(); return !map.empty(); })) { err = "the mapping is not answered"; soft = true; return; }
    if (map.size() != 1 || !map.count(::getpid()) || map[::getpid()][kId] != "the name") err = "the mapping is wrong";
    EndpointTraceConfigurator::TraceConfiguration conf;
    if (!eventually([&] { conf = s.config->getTraceState(); return conf.cmd_success; })) { err = "the configuration is not answered"; soft = true; return; }
    if (conf.process_state != m.process || conf.thread_state != m.threads) err = "the configuration obtained is not the actual one";
  };
  TraceEventSource::Ptr source;
  if (s.provider && c.boolean()) { source = s.provider->makeSource(); source->startInterval(); }
  std::size_t n = 1 + c.draw(6), malformed = 0, changes = 0;
  int wanted = 0;
  auto sync = [&] {
    const int before = s.barrier->load();
    s.server->broadcast("barrier", {});
    if (!eventually([&] { return s.barrier->load() > before; })) { err = "a broadcast does not arrive"; soft = true; }
  };
  std::vector<Transport::PendingResponse> pending;
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    if (source && c.draw(3) == 0)
    {
      Data d;
      if (c.boolean()) d = c.bytes(c.size(64));
      else
      {
        NChunk k;
        k.pid = static_cast<std::uint64_t>(::getpid());
        k.threads.push_back({ 1 + c.draw(3), {} });
        std::size_t m = c.draw(4);
        for (std::size_t q = 0; q < m; q++) k.threads[0].second.push_back({ c.seed64(), 1, static_cast<std::uint8_t>(c.draw(9)), 5 });
        d = mutate(c, encode(k));
      }
      c.out() << " broadcast(" << pbt::show(d) << ")";
      s.server->broadcast("native_trace_receiver", d);
      malformed++;
      continue;
    }
    const std::string target = c.pick(kTargets);
    Data d = gen_message(c, f, target);
    Model m = actual();
    Kind k = target == "trace_configurator" ? classify(d, m) : Kind::no_change;
    c.out() << " " << target << "(" << pbt::show(d, 48) << ")";
    if (k == Kind::change) changes++;
    else malformed++;
    try { pending.push_back(s.client->request(target, d)); }
    catch (const std::exception& e) { err = std::string("a request throws: ") + e.what(); break; }
    // A well-formed request handled after it: the server handles the requests of a client in order.
    EndpointTraceConfigurator::TraceConfiguration conf;
    if (!eventually([&] { conf = s.config->getTraceState(); return conf.cmd_success; })) { err = "no answers any more after " + target + " " + pbt::show(d, 48); soft = true; break; }
    Model got = actual();
    if (k != Kind::unclear && !(got == m)) err = std::string(k == Kind::change ? "a well-formed change was not applied as asked: " : "the configuration was changed by: ") + pbt::show(d, 400);
  }
  if (err.empty() && source)
  {
    NChunk k;
    k.pid = static_cast<std::uint64_t>(::getpid());
    k.threads.push_back({ 5, { { 1000, kEventId, 1, 0 } } });
    s.server->broadcast("native_trace_receiver", encode(k));
    sync();
    if (err.empty())
    {
      auto ev = source->finishInterval();
      bool found = false;
      for (auto& e : ev) found |= e.dump(-1, ' ', false, json::error_handler_t::replace).find("Unknown 0x77") != std::string::npos;
      if (!found) err = "a well-formed native trace message after malformed ones is not in the recording";
    }
  }
  if (err.empty()) verify(actual());
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("messages that are no well-formed change", malformed);
  c.label("well-formed changes", changes);
  if (malformed) c.nontrivial();
}
PBT_MAIN(run)
