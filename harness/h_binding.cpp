// C27: the compiled binding, in an embedded interpreter; pybind11 is stood in for (shims/pybind11). The programs are in
// python/binding.py, what they do is generated here.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "json_util.h"
#include "pybind_fix.h"
#include <scalopus_interface/trace_event_source.h>
#include <seasocks/Server.h>
#include <future>
#include "common.h"
using namespace vf;
using json = nlohmann::json;
namespace py = pybind11;
extern "C" PyObject* PyInit_scalopus_python_lib();

// one interval of a source as the recorders use it: not holding the interpreter, in another thread
static json interval(const scalopus::TraceEventSource::Ptr& source, bool thread)
{
  json res;
  auto f = [&] {
    try
    {
      source->startInterval();
      source->stopInterval();
      std::vector<json> events = source->finishInterval();
      res = json::array();
      for (auto& e : events) res.push_back(e);
    }
    catch (const std::exception&) { res = nullptr; }
  };
  py::gil_scoped_release r;
  if (thread) std::thread(f).join();
  else f();
  return res;
}
// a viewer of the latest catapult server
struct Viewer : seasocks::WebSocket
{
  const std::string& getRequestUri() const override { return uri; }
  void send(const char* data) override { std::lock_guard<std::mutex> l(m); sent.push_back(data); }
  void send(const std::uint8_t*, std::size_t) override {}
  void close() override {}
  std::string uri;
  std::mutex m;
  std::vector<std::string> sent;
};
static std::map<int, std::shared_ptr<Viewer>> viewers;
static seasocks::Server* web = nullptr;
static bool on_web(const std::function<void()>& f)
{
  auto p = std::make_shared<std::promise<void>>();
  auto fut = p->get_future();
  web->execute([f, p] { f(); p->set_value(); });
  py::gil_scoped_release r;
  return fut.wait_for(std::chrono::seconds(20)) == std::future_status::ready;
}
PYBIND11_MODULE(verif, m)
{
  m.def("web_ports", [] {
    // of the servers that listen; the only one is used from now on
    std::vector<int> res;
    std::lock_guard<std::mutex> l(seasocks::Server::registryMutex());
    for (auto* s : seasocks::Server::registry())
    {
      web = s;
      res.push_back(s->port_);
    }
    return res;
  });
  m.def("web_buffer", [] { return static_cast<unsigned long>(web->client_buffer_); });
  m.def("view", [](int id, const std::string& uri) {
    auto v = std::make_shared<Viewer>();
    v->uri = uri;
    viewers[id] = v;
    // what is connected when the server ends is disconnected by it
    web->on_loop_end = [w = web] {
      for (auto& kv : viewers) w->ws_[kv.second->uri]->onDisconnect(kv.second.get());
    };
    return on_web([v] { web->ws_[v->uri]->onConnect(v.get()); });
  });
  m.def("tell", [](int id, const std::string& text) {
    auto v = viewers[id];
    return on_web([v, text] { web->ws_[v->uri]->onData(v.get(), text.c_str()); });
  });
  m.def("told", [](int id) {
    auto v = viewers[id];
    std::lock_guard<std::mutex> l(v->m);
    return v->sent;
  });
  m.def("unview", [](int id) {
    auto v = viewers[id];
    viewers.erase(id);
    return on_web([v] { web->ws_[v->uri]->onDisconnect(v.get()); });
  });
  m.def("forget", [] { viewers.clear(); });
  m.def("interval", &interval);
  // a thread without the interpreter releases it
  m.def("release_later", [](const scalopus::TraceEventSource::Ptr& source) {
    std::thread([s = scalopus::TraceEventSource::Ptr(source)]() mutable { usleep(1000); s.reset(); }).detach();
  });
}

static PyObject* function = nullptr;
static void interpreter()
{
  if (function) return;
  PyImport_AppendInittab("scalopus_python_lib", PyInit_scalopus_python_lib);
  PyImport_AppendInittab("verif", PyInit_verif);
  Py_DontWriteBytecodeFlag = 1;
  Py_InitializeEx(0);
  const std::string code = std::string("import sys\nsys.path[:0] = ['") + VERIF_PY_SCALOPUS + "', '" + VERIF_PY_HERE +
                           "']\nimport scalopus_python_lib\nsys.modules['scalopus.scalopus_python_lib'] = scalopus_python_lib\nsys.setswitchinterval(0.0002)\nimport binding\nrun = binding.run\n";
  PyObject* g = PyDict_New();
  PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
  PyObject* r = PyRun_String(code.c_str(), Py_file_input, g, g);
  if (!r) { PyErr_Print(); std::abort(); }
  Py_DECREF(r);
  function = PyDict_GetItemString(g, "run");
}

static json gen_event(Case& c)
{
  json e{ { "ph", c.pick(std::vector<std::string>{ "B", "E", "i" }) }, { "ts", c.seed64() >> c.draw(64) }, { "name", c.text(6) } };
  if (c.boolean()) e["args"] = json{ { c.text(3), { 1, nullptr, 0.5, c.boolean(), json::array(), -static_cast<std::int64_t>(c.draw(1000)) } } };
  return e;
}

static void run(Case& c)
{
  interpreter();
  json s;
  s["transport"] = c.boolean() ? "loopback" : "unix";
  s["spin"] = c.chance(1, 2) ? 0 : c.draw(3);
  static const std::vector<int> parts = { 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5 };
  switch (c.pick(parts))
  {
    case 0:
    {
      static const std::vector<std::string> kinds = { "echo", "echo", "reverse", "prefix", "const", "empty", "slow", "none", "raise", "exit", "bad" };
      static const std::vector<std::string> forms = { "bytes", "bytearray", "list", "str", "substr", "subbytes" };
      static const std::vector<std::string> no = { "none", "int", "float", "dict", "object", "big", "negative", "texts", "floats", "nested" };
      s["kind"] = "exchange";
      s["clients"] = 1 + c.draw(3);
      s["leave"] = c.boolean();
      const std::size_t n = 1 + c.draw(4);
      for (std::size_t i = 0; i < n; i++)
      {
        const std::string kind = c.pick(kinds);
        s["endpoints"].push_back({ { "name", "e" + std::to_string(i) + c.text(3) }, { "kind", kind }, { "form", kind == "bad" ? c.pick(no) : c.pick(forms) }, { "keep", c.boolean() }, { "super", c.boolean() } });
        // what raises for wrong elements answers nothing either
      }
      const std::size_t t = 1 + c.draw(3);
      for (std::size_t i = 0; i < t; i++)
      {
        json ops = json::array();
        const std::size_t k = c.draw(12);
        for (std::size_t j = 0; j < k; j++)
        {
          static const std::vector<std::string> what = { "request", "request", "request", "request", "request", "bad", "missing", "silent", "broadcast", "broadcast", "burst", "drop", "gc" };
          ops.push_back({ { "op", c.pick(what) }, { "endpoint", c.draw(4) }, { "client", c.draw(3) }, { "seed", c.draw(1000000) },
                          { "size", c.chance(1, 12) ? 400000 : c.chance(1, 5) ? c.draw(3000) : c.draw(20) }, { "form", c.pick(forms) }, { "bad", c.pick(no) }, { "now", c.boolean() } });
        }
        s["threads"].push_back(ops);
      }
      break;
    }
    case 1:
    {
      static const std::vector<std::string> hows = { "good", "good", "slow", "kept", "none", "raise", "wrong", "absent", "later" };
      s["kind"] = "manager";
      s["transport"] = "loopback";
      const std::size_t n = c.draw(4);
      s["servers"] = json::array();
      for (std::size_t i = 0; i < n; i++)
      {
        std::set<std::size_t> names;
        for (std::size_t k = c.draw(4); k > 0; k--) names.insert(c.draw(4));
        s["servers"].push_back(names);
      }
      for (std::size_t i = 0; i < 4; i++) s["factories"].push_back(c.pick(hows));
      s["poll"] = c.boolean();
      s["log"] = c.boolean();
      s["looks"] = c.draw(20);
      s["threads"] = c.draw(3);
      break;
    }
    case 2:
    {
      s["kind"] = "provider";
      s["thread"] = c.boolean();
      const std::size_t n = 1 + c.draw(3);
      for (std::size_t i = 0; i < n; i++)
      {
        json whats = json::array();
        for (std::size_t k = 1 + c.draw(4); k > 0; k--)
        {
          static const std::vector<std::string> odd = { "raise", "nojson", "nolist", "fail", "none", "bare" };
          if (c.chance(1, 4)) { whats.push_back(c.pick(odd)); continue; }
          json events = json::array();
          for (std::size_t q = c.draw(5); q > 0; q--) events.push_back(gen_event(c));
          whats.push_back(events);
        }
        s["providers"].push_back(whats);
      }
      break;
    }
    case 4:
    {
      static const std::vector<std::string> what = { "with", "with", "enter", "exit", "mark", "mark", "count", "call", "quiet", "quietly", "off", "on", "nop", "name" };
      s["kind"] = "traced";
      s["transport"] = "loopback";  // of the machine's other servers nothing is expected
      s["process"] = c.text(6);
      const std::size_t n = 1 + c.draw(3);
      for (std::size_t t = 0; t < n; t++)
      {
        json ops = json::array();
        for (std::size_t k = c.draw(15); k > 0; k--)
          ops.push_back({ { "op", c.pick(what) }, { "which", c.draw(3) }, { "value", c.chance(1, 4) ? static_cast<std::int64_t>(c.seed64() >> c.draw(64)) : static_cast<std::int64_t>(c.draw(300)) - 150 }, { "text", c.text(5) } });
        s["threads"].push_back(ops);
      }
      s["weak"] = c.boolean();
      s["drop"] = c.boolean();
      break;
    }
    case 5:
    {
      static const std::vector<std::string> what = { "view", "view", "start", "end", "end", "categories", "nonsense", "leave", "gc" };
      s["kind"] = "served";
      s["port"] = c.boolean() ? 0 : 1 + c.draw(65535);
      s["buffer"] = c.boolean() ? 0 : 1 + c.draw(1u << 24);
      s["logger"] = c.boolean();
      s["weblog"] = c.boolean();
      s["providers"] = json::array();
      for (std::size_t p = c.draw(4); p > 0; p--)
      {
        static const std::vector<std::string> odd = { "raise", "nojson", "nolist", "fail", "none", "bare" };
        if (c.chance(1, 4)) { s["providers"].push_back(c.pick(odd)); continue; }
        json events = json::array();
        for (std::size_t q = c.chance(1, 8) ? 990 + c.draw(30) : c.draw(5); q > 0; q--) events.push_back(gen_event(c));
        s["providers"].push_back(events);
      }
      s["ops"] = json::array();
      for (std::size_t k = 2 + c.draw(12); k > 0; k--) s["ops"].push_back({ { "op", c.pick(what) }, { "who", c.draw(3) }, { "id", c.draw(1000) } });
      break;
    }
    default:
    {
      static const std::vector<std::string> what = { "trace name", "trace name", "process name", "thread name", "other thread", "local", "remote", "remote", "ids", "emit" };
      s["kind"] = "state";
      s["ops"] = json::array();
      const std::size_t n = 1 + c.draw(12);
      for (std::size_t i = 0; i < n; i++)
        s["ops"].push_back({ { "op", c.pick(what) }, { "value", c.boolean() ? c.draw(16) : static_cast<std::size_t>(c.seed64() >> (1 + c.draw(63))) }, { "text", c.text(8) }, { "look", c.boolean() } });
    }
  }
  const std::string text = s.dump();
  c.out() << text.substr(0, 600);
  py::str arg(text);
  PyObject* r = PyObject_CallFunctionObjArgs(function, arg.ptr(), nullptr);
  if (!r) { PyErr_Print(); c.fail("the program could not be run"); }
  const std::string res = py::str(r, py::object::stolen_t{});
  const json j = json::parse(res);
  for (auto& l : j["labels"].items())
    if (l.value().get<std::size_t>()) c.label(l.key(), l.value().get<std::size_t>());
  const std::string e = j["error"];
  if (!e.empty()) { if (j["soft"].get<bool>()) c.fail_soft(e); else c.fail(e); }
  if (j["nontrivial"].get<bool>()) c.nontrivial();
}
PBT_MAIN(run)
