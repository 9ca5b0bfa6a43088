// C24: JSON values to Python and back. The interpreter is the real one, pybind11 is stood in for (shims/pybind11).
#include "json_util.h"
#include <cmath>
#include <cstring>
#include "common.h"

using namespace vf;
using json = nlohmann::json;
namespace py = pybind11;
using pybind11_nlohmann_conversion::jsonToPy;
using pybind11_nlohmann_conversion::pyToJson;

static PyObject* globals = nullptr;
static void interpreter()
{
  if (globals) return;
  Py_InitializeEx(0);
  globals = PyDict_New();
  PyDict_SetItemString(globals, "__builtins__", PyEval_GetBuiltins());
  static const char* prelude = R"(
import json, enum, collections, math
class S(str): pass
class I(int): pass
class F(float): pass
class L(list): pass
class D(dict): pass
class E(enum.IntEnum):
    A = 3
    B = -7
P = collections.namedtuple('P', 'x y')
class Seq:
    def __init__(self, *v): self.v = v
    def __len__(self): return len(self.v)
    def __getitem__(self, i): return self.v[i]
def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float): return a.hex() == b.hex()
    return a == b
def is_json(a, text):
    try: want = json.loads(text)
    except Exception as e: return 'bad reference ' + repr(e)
    return '' if same(a, want) else 'is ' + repr(a)[:300]
)";
  PyObject* r = PyRun_String(prelude, Py_file_input, globals, globals);
  if (!r) { PyErr_Print(); std::abort(); }
  Py_DECREF(r);
}
// empty if the Python object is what Python's own parser makes of the text
static std::string compare(const py::object& o, const std::string& text)
{
  PyObject* f = PyDict_GetItemString(globals, "is_json");
  py::str t(text);
  PyObject* r = PyObject_CallFunctionObjArgs(f, o.ptr(), t.ptr(), nullptr);
  if (!r) { PyErr_Print(); return "the comparison failed"; }
  std::string s = py::str(r, py::object::stolen_t{});
  return s;
}
static py::object eval(const std::string& e)
{
  PyObject* r = PyRun_String(e.c_str(), Py_eval_input, globals, globals);
  if (!r) { PyErr_Print(); std::fprintf(stderr, "%s\n", e.c_str()); std::abort(); }
  return py::object(r, py::object::stolen_t{});
}

static std::string gen_text(Case& c)
{
  static const std::vector<std::string> odd = { std::string(1, '\0'), "\xef\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "\xc2\x80", "\xef\xbb\xbf", "\r" };
  std::string s = c.text(c.chance(1, 30) ? 3000 : 8);
  if (c.chance(1, 3)) s += c.pick(odd) + c.text(4);
  return s;
}
static std::int64_t gen_int(Case& c)
{
  switch (c.draw(5))
  {
    case 0: return c.range(-5, 5);
    case 1: return static_cast<std::int64_t>(c.seed64());
    case 2: return static_cast<std::int64_t>(c.seed64() >> c.draw(64));
    case 3: { const std::int64_t v = static_cast<std::int64_t>(1ull << c.draw(63)) + c.range(-1, 1); return c.boolean() ? v : -v; }
    default: { static const std::vector<std::int64_t> v = { INT64_MAX, INT64_MIN, INT64_MIN + 1, INT32_MAX, INT32_MIN, UINT32_MAX, 255, 256, -1 }; return c.pick(v); }
  }
}
static std::uint64_t gen_uint(Case& c) { return c.boolean() ? c.seed64() | (1ull << 63) : c.boolean() ? UINT64_MAX - c.draw(3) : (1ull << 63) + c.draw(3); }
static double gen_float(Case& c)
{
  double d = 0;
  switch (c.draw(5))
  {
    case 0: d = static_cast<double>(c.range(-5, 5)); break;
    case 1: { static const std::vector<double> v = { -0.0, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 9007199254740993.0, 1e16, 123456789.123456789, 1e22 }; d = c.pick(v); break; }
    default: { std::uint64_t b = c.seed64(); std::memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 1.5; }
  }
  return d;
}
static json gen(Case& c, int depth, std::size_t& parts)
{
  parts++;
  switch (c.draw(depth > 0 ? 10 : 6))
  {
    case 0: return nullptr;
    case 1: return c.boolean();
    case 2: return gen_int(c);
    case 3: return c.chance(1, 3) ? json(gen_uint(c)) : json(static_cast<std::uint64_t>(gen_int(c) & INT64_MAX));
    case 4: return gen_float(c);
    case 5: return gen_text(c);
    case 6:
    case 7:
    {
      json a = json::array();
      const std::size_t n = c.chance(1, 40) ? c.draw(300) : c.draw(5);
      for (std::size_t i = 0; i < n; i++) a.push_back(gen(c, n > 5 ? 0 : depth - 1, parts));
      return a;
    }
    default:
    {
      json o = json::object();
      const std::size_t n = c.chance(1, 40) ? c.draw(100) : c.draw(5);
      for (std::size_t i = 0; i < n; i++) { std::string k = gen_text(c); o[k] = gen(c, n > 5 ? 0 : depth - 1, parts); }
      return o;
    }
  }
}
// The Python text of a string: every byte sequence as the decoding of bytes.
static std::string py_str(const std::string& s)
{
  std::string r = "b'";
  char b[8];
  for (unsigned char ch : s) { std::snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
  return r + "'.decode()";
}
static std::string py_float(double d)
{
  char b[64];
  std::snprintf(b, sizeof b, "float.fromhex('%a')", d);
  return b;
}
static std::string py_int(const json& j) { return "int('" + j.dump() + "')"; }
// A Python expression and the JSON it is. bad: 0 none, otherwise how many things that have no JSON it still has to contain.
static std::string gen_py(Case& c, int depth, json& want, std::size_t& parts, int& bad)
{
  parts++;
  if (bad && (depth == 0 || c.chance(1, 3)))
  {
    bad = 0;
    want = nullptr;
    switch (c.draw(7))
    {
      case 0: return "{1: 2}";
      case 1: return "{'a': 1, None: 2}";
      case 2: return "{(1, 'x'): 3, 'k': {}}";
      case 3: return "2**64";
      case 4: return "-2**63 - 1";
      case 5: return "10**40";
      default: return "{b'x': 1}";
    }
  }
  if (bad && depth > 0)
  {
    // it has to be inside of something
    json a, b;
    int none = 0;
    std::string before = gen_py(c, 0, a, parts, none), in = gen_py(c, depth - 1, b, parts, bad);
    switch (c.draw(3))
    {
      case 0: return "[" + before + ", " + in + "]";
      case 1: return "(" + in + ", " + before + ")";
      default: return "{'a': " + before + ", 'b': " + in + "}";
    }
  }
  switch (c.draw(depth > 0 ? 15 : 9))
  {
    case 0: want = nullptr; return "None";
    case 1: { const bool v = c.boolean(); want = v; return v ? "True" : "False"; }
    case 2: want = gen_int(c); return py_int(want);
    case 3: want = gen_uint(c); return py_int(want);
    case 4: { const double d = gen_float(c); want = d; return c.boolean() ? py_float(d) : "F(" + py_float(d) + ")"; }
    case 5: { const std::string s = gen_text(c); want = s; return py_str(s); }
    case 6: { const std::string s = gen_text(c); want = s; return "S(" + py_str(s) + ")"; }
    case 7: want = gen_int(c); return "I(" + py_int(want) + ")";
    case 8: { const bool a = c.boolean(); want = a ? 3 : -7; return a ? "E.A" : "E.B"; }
    case 9:
    {
      // a set, of things of one kind
      std::set<json> s;
      const std::size_t n = c.draw(5);
      const bool texts = c.boolean();
      std::string e = "set([";
      for (std::size_t i = 0; i < n; i++)
      {
        json v = texts ? json(gen_text(c)) : json(gen_int(c));
        e += (texts ? py_str(v.get<std::string>()) : py_int(v)) + ", ";
        s.insert(v);
      }
      want = json::array();
      for (auto& v : s) want.push_back(v);
      return e + "])";
    }
    case 10:
    case 11:
    case 12:
    {
      static const std::vector<std::pair<std::string, std::string>> kinds = { { "[", "]" }, { "(", ")" }, { "L([", "])" }, { "tuple([", "])" }, { "Seq(", ")" }, { "collections.deque([", "])" } };
      const auto k = c.pick(kinds);
      const std::size_t n = c.draw(5);
      std::string e = k.first;
      want = json::array();
      for (std::size_t i = 0; i < n; i++) { json v; e += gen_py(c, depth - 1, v, parts, bad) + ", "; want.push_back(v); }
      if (k.first == "Seq(" || n > 0) return e + k.second;
      return k.first + k.second;
    }
    default:
    {
      static const std::vector<std::pair<std::string, std::string>> kinds = { { "dict([", "])" }, { "D([", "])" }, { "collections.OrderedDict([", "])" } };
      const auto k = c.pick(kinds);
      const std::size_t n = c.draw(5);
      std::string e = k.first;
      want = json::object();
      for (std::size_t i = 0; i < n; i++)
      {
        json v;
        const std::string key = gen_text(c);
        e += "(" + std::string(c.boolean() ? "S" : "") + "(" + py_str(key) + "), " + gen_py(c, depth - 1, v, parts, bad) + "), ";
        want[key] = v;
      }
      return e + k.second;
    }
  }
}

static void run(Case& c)
{
  interpreter();
  std::size_t parts = 0;
  const int depth = static_cast<int>(c.draw(6));
  switch (c.draw(4))
  {
    case 0:
    {
      // JSON to Python to JSON
      const json j = gen(c, depth, parts);
      const std::string text = j.dump();
      c.out() << "json " << text.substr(0, 200);
      json back;
      {
        const py::object o = jsonToPy(j);
        c.check(o.ptr() != nullptr, "there is no Python object");
        const std::string e = compare(o, text);
        if (!e.empty()) c.fail("the Python object " + e + " instead of " + text.substr(0, 300));
        const auto refs = Py_REFCNT(o.ptr());
        back = pyToJson(o);
        c.check(Py_REFCNT(o.ptr()) == refs, "references to the Python object are kept or lost");
        // through the implicit conversions that the bindings use
        const json again = o;
        if (again != back) c.fail("converted implicitly: " + again.dump().substr(0, 300));
        const py::object o2 = j.get<py::object>();
        const std::string e2 = compare(o2, text);
        if (!e2.empty()) c.fail("converted implicitly, the Python object " + e2);
      }
      if (back.dump() != text || back != j) c.fail("back from Python it is " + back.dump().substr(0, 300) + " instead of " + text.substr(0, 300));
      c.label("json values", parts);
      break;
    }
    case 1:
    case 2:
    {
      // Python to JSON to Python
      json want;
      int bad = 0;
      const std::string e = gen_py(c, depth, want, parts, bad);
      c.out() << "python " << e.substr(0, 300);
      const py::object o = eval(e);
      const auto refs = Py_REFCNT(o.ptr());
      const json got = pyToJson(o);
      c.check(Py_REFCNT(o.ptr()) == refs, "references to the Python object are kept or lost");
      const std::string text = want.dump();
      if (got.dump() != text || got != want) c.fail("it is " + got.dump().substr(0, 300) + " instead of " + text.substr(0, 300));
      const std::string d = compare(jsonToPy(got), text);
      if (!d.empty()) c.fail("back in Python it " + d);
      c.label("python values", parts);
      break;
    }
    default:
    {
      // Python that is not JSON
      json want;
      int bad = 1;
      const std::string e = gen_py(c, depth, want, parts, bad);
      c.out() << "no json " << e.substr(0, 300);
      const py::object o = eval(e);
      bool threw = false;
      json got;
      try { got = pyToJson(o); }
      catch (const std::exception&) { threw = true; }
      PyErr_Clear();
      if (!threw) c.fail("no exception, but " + got.dump().substr(0, 300));
      c.label("rejected");
    }
  }
  c.check(!PyErr_Occurred(), "a Python error is left pending");
  if (parts > 2) c.nontrivial();
}
PBT_MAIN(run)
