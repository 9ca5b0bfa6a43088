// A stand-in for pybind11 (which is not installed): the handful of types and conversions that the JSON conversion of the
// bindings uses, on the real Python interpreter, with the semantics that pybind11 documents for them.
#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdint>
#include <limits>
#include <memory>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
using size_t = std::size_t;
// keeps the Python error, such that it can be raised again where C++ returns to Python
struct error_already_set : std::runtime_error
{
  struct State
  {
    PyObject *t{ nullptr }, *v{ nullptr }, *b{ nullptr };
    ~State()
    {
      const PyGILState_STATE g = PyGILState_Ensure();
      Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
      PyGILState_Release(g);
    }
  };
  std::shared_ptr<State> state;
  error_already_set() : error_already_set(fetch()) {}
  explicit error_already_set(std::shared_ptr<State> s) : std::runtime_error(s->t ? reinterpret_cast<PyTypeObject*>(s->t)->tp_name : "no error"), state(std::move(s)) {}
  static std::shared_ptr<State> fetch()
  {
    auto s = std::make_shared<State>();
    PyErr_Fetch(&s->t, &s->v, &s->b);
    return s;
  }
  void restore()
  {
    PyErr_Restore(state->t, state->v, state->b);
    state->t = state->v = state->b = nullptr;
  }
};
struct builtin_exception : std::runtime_error { using std::runtime_error::runtime_error; };
#define VERIF_PY_EXC(name) struct name : builtin_exception { using builtin_exception::builtin_exception; name() : builtin_exception("") {} }
VERIF_PY_EXC(value_error);
VERIF_PY_EXC(type_error);
VERIF_PY_EXC(key_error);
VERIF_PY_EXC(index_error);
VERIF_PY_EXC(stop_iteration);
VERIF_PY_EXC(cast_error);
VERIF_PY_EXC(import_error);
VERIF_PY_EXC(attribute_error);
VERIF_PY_EXC(buffer_error);
#undef VERIF_PY_EXC
struct reference_cast_error : cast_error { using cast_error::cast_error; };

enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

class object;
class iterator;
template <typename K> class accessor;
struct item_key { std::shared_ptr<object> k; };
struct attr_key { std::string k; };

class handle
{
public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  const handle& inc_ref() const { Py_XINCREF(m_ptr); return *this; }
  const handle& dec_ref() const { Py_XDECREF(m_ptr); return *this; }
  int ref_count() const { return static_cast<int>(Py_REFCNT(m_ptr)); }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(const handle& o) const { return m_ptr == o.m_ptr; }
  bool operator==(const handle& o) const { return m_ptr == o.m_ptr; }
  bool operator!=(const handle& o) const { return m_ptr != o.m_ptr; }
  template <typename T> T cast() const;
  iterator begin() const;
  iterator end() const;
  accessor<item_key> operator[](const handle& key) const;
  accessor<item_key> operator[](const char* key) const;
  accessor<attr_key> attr(const char* key) const;
  template <typename T> bool contains(T&& v) const;
  template <typename... A> object operator()(A&&... a) const;

protected:
  PyObject* m_ptr{ nullptr };
};

class object : public handle
{
public:
  struct borrowed_t {};
  struct stolen_t {};
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) { o.inc_ref(); PyObject* old = m_ptr; m_ptr = o.m_ptr; Py_XDECREF(old); return *this; }
  object& operator=(object&& o) noexcept { if (this != &o) { PyObject* old = m_ptr; m_ptr = o.m_ptr; o.m_ptr = nullptr; Py_XDECREF(old); } return *this; }
  handle release() { PyObject* p = m_ptr; m_ptr = nullptr; return handle(p); }
  using handle::cast;
};
template <typename T> T reinterpret_borrow(handle h) { return T(h, object::borrowed_t{}); }
template <typename T> T reinterpret_steal(handle h) { return T(h, object::stolen_t{}); }
inline PyObject* checked(PyObject* p) { if (!p) throw error_already_set(); return p; }

template <typename T, std::enable_if_t<std::is_base_of<object, T>::value, int> = 0> bool isinstance(handle h) { return T::check_(h); }
template <> inline bool isinstance<object>(handle h) { return h.ptr() != nullptr; }
template <typename T, std::enable_if_t<std::is_same<T, handle>::value, int> = 0> bool isinstance(handle h) { return h.ptr() != nullptr; }
inline bool isinstance(handle h, handle type)
{
  const int r = PyObject_IsInstance(h.ptr(), type.ptr());
  if (r < 0) throw error_already_set();
  return r != 0;
}

#define VERIF_PY_COMMON(Name, Parent, Check)                                       \
  Name(handle h, borrowed_t) : Parent(h, borrowed_t{}) {}                          \
  Name(handle h, stolen_t) : Parent(h, stolen_t{}) {}                              \
  static bool check_(handle h) { return h.ptr() != nullptr && (Check); }
#define VERIF_PY_CVT(Name, Parent, Check, Convert)                                 \
  VERIF_PY_COMMON(Name, Parent, Check)                                             \
  Name(const object& o) : Parent(check_(o) ? o.inc_ref().ptr() : checked(Convert(o.ptr())), stolen_t{}) {}

class iterator : public object
{
public:
  VERIF_PY_COMMON(iterator, object, PyIter_Check(h.ptr()))
  iterator() = default;
  iterator& operator++() { advance(); return *this; }
  handle operator*() const { if (m_ptr && !value.ptr()) const_cast<iterator&>(*this).advance(); return value; }
  bool operator==(const iterator& o) const { return (**this).ptr() == (*o).ptr(); }
  bool operator!=(const iterator& o) const { return !(*this == o); }

private:
  void advance() { value = object(PyIter_Next(m_ptr), stolen_t{}); if (PyErr_Occurred()) throw error_already_set(); }
  object value;
};
inline iterator iter(handle h) { return iterator(checked(PyObject_GetIter(h.ptr())), object::stolen_t{}); }
inline iterator handle::begin() const { return iter(*this); }
inline iterator handle::end() const { return iterator(); }

class none : public object
{
public:
  VERIF_PY_COMMON(none, object, h.ptr() == Py_None)
  none() : object(Py_None, borrowed_t{}) {}
};
class bool_ : public object
{
public:
  static PyObject* raw(PyObject* o) { const int v = PyObject_IsTrue(o); return v < 0 ? nullptr : PyBool_FromLong(v); }
  VERIF_PY_CVT(bool_, object, PyBool_Check(h.ptr()), raw)
  bool_() : object(Py_False, borrowed_t{}) {}
  bool_(bool x) : object(x ? Py_True : Py_False, borrowed_t{}) {}
  operator bool() const { return m_ptr && PyLong_AsLong(m_ptr) != 0; }
};
class int_ : public object
{
public:
  VERIF_PY_CVT(int_, object, PyLong_Check(h.ptr()), PyNumber_Long)
  int_() : object(PyLong_FromLong(0), stolen_t{}) {}
  template <typename T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
  int_(T v) : object(make(v), stolen_t{}) {}
  template <typename T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
  operator T() const { return this->template cast<T>(); }

private:
  template <typename T> static PyObject* make(T v)
  {
    return checked(std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v)) : PyLong_FromLongLong(static_cast<long long>(v)));
  }
};
class float_ : public object
{
public:
  VERIF_PY_CVT(float_, object, PyFloat_Check(h.ptr()), PyNumber_Float)
  float_(float v) : object(checked(PyFloat_FromDouble(v)), stolen_t{}) {}
  float_(double v = .0) : object(checked(PyFloat_FromDouble(v)), stolen_t{}) {}
  operator double() const { return PyFloat_AsDouble(m_ptr); }
  operator float() const { return static_cast<float>(PyFloat_AsDouble(m_ptr)); }
};
class bytes : public object
{
public:
  VERIF_PY_COMMON(bytes, object, PyBytes_Check(h.ptr()))
  bytes(const char* c = "") : object(checked(PyBytes_FromString(c)), stolen_t{}) {}
  bytes(const char* c, std::size_t n) : object(checked(PyBytes_FromStringAndSize(c, static_cast<ssize_t>(n))), stolen_t{}) {}
  bytes(const std::string& s) : bytes(s.data(), s.size()) {}
  operator std::string() const
  {
    char* b = nullptr;
    ssize_t n = 0;
    if (PyBytes_AsStringAndSize(m_ptr, &b, &n) != 0) throw error_already_set();
    return std::string(b, static_cast<std::size_t>(n));
  }
};
class str : public object
{
public:
  // unlike Python's str(), bytes are text to pybind11 in Python 2 only
  VERIF_PY_CVT(str, object, PyUnicode_Check(h.ptr()), PyObject_Str)
  str(const char* c = "") : object(checked(PyUnicode_FromString(c)), stolen_t{}) {}
  str(const char* c, std::size_t n) : object(checked(PyUnicode_FromStringAndSize(c, static_cast<ssize_t>(n))), stolen_t{}) {}
  str(const std::string& s) : str(s.data(), s.size()) {}
  explicit str(handle h) : object(checked(PyObject_Str(h.ptr())), stolen_t{}) {}
  operator std::string() const
  {
    PyObject* b = checked(PyUnicode_AsUTF8String(m_ptr));
    std::string r(PyBytes_AS_STRING(b), static_cast<std::size_t>(PyBytes_GET_SIZE(b)));
    Py_DECREF(b);
    return r;
  }
};
class sequence : public object
{
public:
  VERIF_PY_COMMON(sequence, object, PySequence_Check(h.ptr()))
  std::size_t size() const { const ssize_t n = PySequence_Size(m_ptr); if (n < 0) throw error_already_set(); return static_cast<std::size_t>(n); }
  bool empty() const { return size() == 0; }
  object operator[](std::size_t i) const { return object(checked(PySequence_GetItem(m_ptr, static_cast<ssize_t>(i))), stolen_t{}); }
};
class tuple : public object
{
public:
  VERIF_PY_CVT(tuple, object, PyTuple_Check(h.ptr()), PySequence_Tuple)
  explicit tuple(std::size_t n = 0) : object(checked(PyTuple_New(static_cast<ssize_t>(n))), stolen_t{}) {}
  std::size_t size() const { return static_cast<std::size_t>(PyTuple_Size(m_ptr)); }
  bool empty() const { return size() == 0; }
};
template <typename T> object to_object(T&& v);
class list : public object
{
public:
  VERIF_PY_CVT(list, object, PyList_Check(h.ptr()), PySequence_List)
  explicit list(std::size_t n = 0) : object(checked(PyList_New(static_cast<ssize_t>(n))), stolen_t{}) {}
  std::size_t size() const { return static_cast<std::size_t>(PyList_Size(m_ptr)); }
  bool empty() const { return size() == 0; }
  template <typename T> void append(T&& v) { object o = to_object(std::forward<T>(v)); if (PyList_Append(m_ptr, o.ptr()) != 0) throw error_already_set(); }
};
class dict : public object
{
public:
  VERIF_PY_CVT(dict, object, PyDict_Check(h.ptr()), raw)
  dict() : object(checked(PyDict_New()), stolen_t{}) {}
  std::size_t size() const { return static_cast<std::size_t>(PyDict_Size(m_ptr)); }
  bool empty() const { return size() == 0; }
  class dict_iterator
  {
  public:
    using value_type = std::pair<handle, handle>;
    dict_iterator() = default;
    dict_iterator(handle d) : d(d), pos(0) { advance(); }
    value_type operator*() const { return value; }
    const value_type* operator->() const { return &value; }
    dict_iterator& operator++() { advance(); return *this; }
    bool operator==(const dict_iterator& o) const { return pos == o.pos; }
    bool operator!=(const dict_iterator& o) const { return pos != o.pos; }

  private:
    void advance()
    {
      PyObject *k = nullptr, *v = nullptr;
      if (PyDict_Next(d.ptr(), &pos, &k, &v)) value = { handle(k), handle(v) };
      else pos = -1;
    }
    handle d;
    ssize_t pos{ -1 };
    value_type value;
  };
  dict_iterator begin() const { return dict_iterator(*this); }
  dict_iterator end() const { return dict_iterator(); }
  static PyObject* raw(PyObject* o) { return PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyDict_Type), o, nullptr); }
};
class set : public object
{
public:
  VERIF_PY_CVT(set, object, PySet_Check(h.ptr()), PySet_New)
  set() : object(checked(PySet_New(nullptr)), stolen_t{}) {}
  std::size_t size() const { return static_cast<std::size_t>(PySet_Size(m_ptr)); }
  bool empty() const { return size() == 0; }
  template <typename T> bool add(T&& v) { object o = to_object(std::forward<T>(v)); return PySet_Add(m_ptr, o.ptr()) == 0; }
};
class buffer : public object { public: VERIF_PY_COMMON(buffer, object, PyObject_CheckBuffer(h.ptr())) };
class bytearray : public object { public: VERIF_PY_COMMON(bytearray, object, PyByteArray_Check(h.ptr())) };
class anyset : public object { public: VERIF_PY_COMMON(anyset, object, PyAnySet_Check(h.ptr())) };
class frozenset : public object { public: VERIF_PY_COMMON(frozenset, object, PyFrozenSet_Check(h.ptr())) };
class function : public object { public: VERIF_PY_COMMON(function, object, PyCallable_Check(h.ptr())) };
class iterable : public object
{
public:
  static bool is_iterable(PyObject* o) { PyObject* i = PyObject_GetIter(o); if (i) { Py_DECREF(i); return true; } PyErr_Clear(); return false; }
  VERIF_PY_COMMON(iterable, object, is_iterable(h.ptr()))
};

template <typename K> class accessor
{
public:
  accessor(handle o, K k) : obj(reinterpret_borrow<object>(o)), key(std::move(k)) {}
  template <typename T> void operator=(T&& v) && { set(to_object(std::forward<T>(v))); }
  void operator=(const accessor& a) && { set(a.get()); }
  operator object() const { return get(); }
  template <typename T> T cast() const { return get().template cast<T>(); }
  object get() const { return get_(key); }

private:
  object get_(const item_key& k) const { return object(checked(PyObject_GetItem(obj.ptr(), k.k->ptr())), object::stolen_t{}); }
  object get_(const attr_key& k) const { return object(checked(PyObject_GetAttrString(obj.ptr(), k.k.c_str())), object::stolen_t{}); }
  void set(const object& v) { if (set_(key, v) != 0) throw error_already_set(); }
  int set_(const item_key& k, const object& v) { return PyObject_SetItem(obj.ptr(), k.k->ptr(), v.ptr()); }
  int set_(const attr_key& k, const object& v) { return PyObject_SetAttrString(obj.ptr(), k.k.c_str(), v.ptr()); }
  object obj;
  K key;
};
inline accessor<item_key> handle::operator[](const handle& key) const { return { *this, item_key{ std::make_shared<object>(key, object::borrowed_t{}) } }; }
inline accessor<item_key> handle::operator[](const char* key) const { return { *this, item_key{ std::make_shared<object>(str(key)) } }; }
inline accessor<attr_key> handle::attr(const char* key) const { return { *this, attr_key{ key } }; }

namespace detail
{
template <typename T, typename = void> struct type_caster;  // of any other type: class.h
template <typename T> struct type_caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
{
  T value{};
  bool load(handle src, bool)
  {
    if (!src || PyFloat_Check(src.ptr())) return false;
    bool bad = false;
    if (std::is_unsigned<T>::value)
    {
      const unsigned long long v = PyLong_Check(src.ptr()) ? PyLong_AsUnsignedLongLong(src.ptr()) : (PyErr_SetString(PyExc_TypeError, ""), 0ull);
      bad = PyErr_Occurred() != nullptr || v > std::numeric_limits<T>::max();
      value = static_cast<T>(v);
    }
    else
    {
      const long long v = PyLong_Check(src.ptr()) ? PyLong_AsLongLong(src.ptr()) : (PyErr_SetString(PyExc_TypeError, ""), 0ll);
      bad = PyErr_Occurred() != nullptr || v > static_cast<long long>(std::numeric_limits<T>::max()) || v < static_cast<long long>(std::numeric_limits<T>::min());
      value = static_cast<T>(v);
    }
    PyErr_Clear();
    return !bad;
  }
  static handle cast(T v, return_value_policy, handle) { return int_(v).release(); }
};
template <> struct type_caster<bool>
{
  bool value{ false };
  bool load(handle src, bool convert)
  {
    if (!src) return false;
    if (src.ptr() == Py_True) { value = true; return true; }
    if (src.ptr() == Py_False) { value = false; return true; }
    if (!convert) return false;
    const int r = src.is_none() ? 0 : PyObject_IsTrue(src.ptr());
    if (r < 0) { PyErr_Clear(); return false; }
    value = r != 0;
    return true;
  }
  static handle cast(bool v, return_value_policy, handle) { return bool_(v).release(); }
};
template <typename T> struct type_caster<T, std::enable_if_t<std::is_floating_point<T>::value>>
{
  T value{};
  bool load(handle src, bool convert)
  {
    if (!src || (!convert && !PyFloat_Check(src.ptr()))) return false;
    const double v = PyFloat_AsDouble(src.ptr());
    if (v == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
    value = static_cast<T>(v);
    return true;
  }
  static handle cast(T v, return_value_policy, handle) { return float_(v).release(); }
};
template <> struct type_caster<std::string>
{
  std::string value;
  bool load(handle src, bool)
  {
    if (!src) return false;
    if (PyBytes_Check(src.ptr())) { value.assign(PyBytes_AS_STRING(src.ptr()), static_cast<std::size_t>(PyBytes_GET_SIZE(src.ptr()))); return true; }
    if (!PyUnicode_Check(src.ptr())) return false;
    PyObject* b = PyUnicode_AsUTF8String(src.ptr());
    if (!b) { PyErr_Clear(); return false; }
    value.assign(PyBytes_AS_STRING(b), static_cast<std::size_t>(PyBytes_GET_SIZE(b)));
    Py_DECREF(b);
    return true;
  }
  static handle cast(const std::string& s, return_value_policy, handle) { return str(s).release(); }
};
template <typename T> struct type_caster<T, std::enable_if_t<std::is_base_of<object, T>::value>>
{
  T value;
  bool load(handle src, bool) { if (!isinstance<T>(src)) return false; value = reinterpret_borrow<T>(src); return true; }
  static handle cast(const handle& h, return_value_policy, handle) { return h.inc_ref(); }
};
template <> struct type_caster<sequence>;
inline std::string _(const char* s) { return s; }
inline std::string const_name(const char* s) { return s; }
template <typename C> auto take(C& c, int) -> decltype(std::move(c.value)) { return std::move(c.value); }
template <typename C> auto take(C& c, long) -> decltype(c.ref()) { return c.ref(); }
template <typename T> T load_or_throw(handle h)
{
  type_caster<T> c;
  if (!c.load(h, true)) throw cast_error("Unable to cast Python instance to C++ type");
  return take(c, 0);
}
template <typename T, typename = void> struct caster_of { static T get(handle h) { return load_or_throw<T>(h); } };
// Python types are checked where they are made from another object
template <typename T> struct caster_of<T, std::enable_if_t<std::is_base_of<object, T>::value>>
{
  static T get(handle h)
  {
    if (!isinstance<T>(h)) throw cast_error("Unable to cast Python instance to Python type");
    return reinterpret_borrow<T>(h);
  }
};
}  // namespace detail
#define PYBIND11_TYPE_CASTER(type, py_name) \
public:                                     \
  type value

template <typename T> T handle::cast() const { return detail::caster_of<T>::get(*this); }
template <typename T> bool handle::contains(T&& v) const { object o = to_object(std::forward<T>(v)); return PySequence_Contains(m_ptr, o.ptr()) == 1; }
template <typename T> T cast(const handle& h) { return h.template cast<T>(); }
namespace detail
{
template <typename T, std::enable_if_t<std::is_base_of<handle, T>::value, int> = 0>
object any_to_object(const T& v) { return reinterpret_borrow<object>(v); }
template <typename K> object any_to_object(const accessor<K>& v) { return v.get(); }
inline object any_to_object(const char* v) { return str(v); }
template <typename T, std::enable_if_t<!std::is_base_of<handle, T>::value && !std::is_array<T>::value && !std::is_pointer<T>::value, int> = 0>
object any_to_object(const T& v) { return reinterpret_steal<object>(type_caster<T>::cast(v, return_value_policy::copy, handle())); }
}  // namespace detail
template <typename T> object to_object(T&& v) { return detail::any_to_object(v); }
template <typename T, std::enable_if_t<!std::is_base_of<handle, std::decay_t<T>>::value, int> = 0> object cast(T&& v) { return to_object(std::forward<T>(v)); }
inline std::size_t len(handle h) { const ssize_t n = PyObject_Length(h.ptr()); if (n < 0) throw error_already_set(); return static_cast<std::size_t>(n); }
inline str repr(handle h) { return str(checked(PyObject_Repr(h.ptr())), object::stolen_t{}); }
inline bool hasattr(handle h, const char* n) { return PyObject_HasAttrString(h.ptr(), n) == 1; }
template <typename... A> void print(A&&...) {}

}  // namespace pybind11
#include "class.h"
#endif
