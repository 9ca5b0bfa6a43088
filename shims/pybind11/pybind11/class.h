// The part of the stand-in for pybind11 that makes Python classes, functions and modules of C++ ones: included by pybind11.h.
#ifndef VERIF_PYBIND11_CLASS_H
#define VERIF_PYBIND11_CLASS_H
#include <structmember.h>

namespace pybind11
{
class gil_scoped_acquire
{
public:
  gil_scoped_acquire() : s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

private:
  PyGILState_STATE s;
};
class gil_scoped_release
{
public:
  gil_scoped_release() : s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s); }
  gil_scoped_release(const gil_scoped_release&) = delete;

private:
  PyThreadState* s;
};
template <typename... G> struct call_guard {};
template <int N, int P> struct keep_alive {};
struct dynamic_attr {};
struct arg
{
  const char* name;
  object value;
  arg(const char* n) : name(n) {}
  template <typename T> arg operator=(T&& v) const { arg a(name); a.value = to_object(std::forward<T>(v)); return a; }
};
struct doc { doc(const char*) {} };
struct name { const char* value; };
struct scope { handle h; };
template <typename... A> struct init_t {};
template <typename... A> struct init_alias_t {};
template <typename F> struct init_factory_t { F f; };
template <typename... A> init_t<A...> init() { return {}; }
template <typename F> init_factory_t<F> init(F f) { return { f }; }
template <typename... A> init_alias_t<A...> init_alias() { return {}; }

namespace detail
{
// ------------------------------------------------------------------------------------------------ instances
struct ClassInfo
{
  PyTypeObject* py{ nullptr };
  const std::type_info* type{ nullptr };
  std::vector<std::pair<ClassInfo*, void* (*)(void*)>> bases;
};
struct Inst
{
  PyObject_HEAD
  PyObject* weak;
  void* value;  // of the type of info
  ClassInfo* info;
  std::shared_ptr<void>* holder;
  std::vector<PyObject*>* patients;
};
inline std::unordered_map<std::type_index, ClassInfo*>& classes() { static std::unordered_map<std::type_index, ClassInfo*> m; return m; }
inline std::multimap<const void*, PyObject*>& instances() { static std::multimap<const void*, PyObject*> m; return m; }
inline ClassInfo* class_info(const std::type_info& t)
{
  auto it = classes().find(std::type_index(t));
  return it == classes().end() ? nullptr : it->second;
}
// the C++ class that a Python type is or is derived from
inline ClassInfo* class_info(PyTypeObject* t)
{
  PyObject* mro = t->tp_mro;
  for (ssize_t i = 0; mro && i < PyTuple_Size(mro); i++)
    for (auto& c : classes())
      if (reinterpret_cast<PyObject*>(c.second->py) == PyTuple_GetItem(mro, i)) return c.second;
  return nullptr;
}
inline bool up(ClassInfo* from, void* p, ClassInfo* to, void*& res)
{
  if (from == to) { res = p; return true; }
  for (auto& b : from->bases)
    if (up(b.first, b.second(p), to, res)) return true;
  return false;
}
inline Inst* as_inst(PyObject* o) { return class_info(Py_TYPE(o)) ? reinterpret_cast<Inst*>(o) : nullptr; }
inline void set_value(Inst* i, ClassInfo* info, void* v)
{
  i->value = v;
  i->info = info;
  instances().emplace(v, reinterpret_cast<PyObject*>(i));
}
inline PyObject* find_instance(const void* p, ClassInfo* ci)
{
  auto r = instances().equal_range(p);
  for (auto it = r.first; it != r.second; ++it)
    if (PyType_IsSubtype(Py_TYPE(it->second), ci->py)) return it->second;
  return nullptr;
}
inline PyObject* inst_new(PyTypeObject* t, PyObject*, PyObject*)
{
  PyObject* o = t->tp_alloc(t, 0);
  if (!o) return nullptr;
  Inst* i = reinterpret_cast<Inst*>(o);
  i->weak = nullptr;
  i->value = nullptr;
  i->info = nullptr;
  i->holder = new std::shared_ptr<void>();
  i->patients = new std::vector<PyObject*>();
  return o;
}
inline int inst_init(PyObject* o, PyObject*, PyObject*)
{
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
  return -1;
}
inline void inst_dealloc(PyObject* o)
{
  Inst* i = reinterpret_cast<Inst*>(o);
  PyTypeObject* t = Py_TYPE(o);
  PyObject *et, *ev, *eb;
  PyErr_Fetch(&et, &ev, &eb);
  if (i->weak) PyObject_ClearWeakRefs(o);
  auto r = instances().equal_range(i->value);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second == o) { instances().erase(it); break; }
  delete i->holder;
  for (auto* p : *i->patients) Py_DECREF(p);
  delete i->patients;
  PyErr_Restore(et, ev, eb);
  t->tp_free(o);
  Py_DECREF(t);
}

// ------------------------------------------------------------------------------------------------ casters of classes
template <typename T, typename = void> struct shares : std::false_type {};
template <typename T> struct shares<T, decltype(static_cast<void>(std::declval<T&>().shared_from_this()))> : std::true_type {};
template <typename T> std::enable_if_t<shares<T>::value, std::shared_ptr<void>> holder_of(T* p)
{
  try { return std::shared_ptr<void>(p->shared_from_this(), p); }
  catch (const std::bad_weak_ptr&) { return nullptr; }
}
template <typename T> std::enable_if_t<!shares<T>::value, std::shared_ptr<void>> holder_of(T*) { return nullptr; }
// the most derived type that Python knows
template <typename T> std::enable_if_t<std::is_polymorphic<T>::value, std::pair<void*, ClassInfo*>> most_derived(T* p)
{
  if (ClassInfo* c = class_info(typeid(*p))) return { const_cast<void*>(dynamic_cast<const void*>(p)), c };
  return { const_cast<std::remove_const_t<T>*>(p), class_info(typeid(T)) };
}
template <typename T> std::enable_if_t<!std::is_polymorphic<T>::value, std::pair<void*, ClassInfo*>> most_derived(T* p) { return { const_cast<std::remove_const_t<T>*>(p), class_info(typeid(T)) }; }
inline handle wrap(void* p, ClassInfo* ci, std::shared_ptr<void> holder)
{
  PyObject* o = inst_new(ci->py, nullptr, nullptr);
  if (!o) throw error_already_set();
  set_value(reinterpret_cast<Inst*>(o), ci, p);
  *reinterpret_cast<Inst*>(o)->holder = std::move(holder);
  return handle(o);
}
template <typename T> std::enable_if_t<std::is_copy_constructible<T>::value, std::shared_ptr<T>> copy_of(const T& v) { return std::make_shared<T>(v); }
template <typename T> std::enable_if_t<!std::is_copy_constructible<T>::value, std::shared_ptr<T>> copy_of(const T&)
{
  throw cast_error("return_value_policy = copy, but type is non-copyable!");
}

template <typename T, typename> struct type_caster
{
  T* ptr{ nullptr };
  std::shared_ptr<void> holder;
  bool load(handle src, bool)
  {
    ptr = nullptr;
    if (!src) return false;
    if (src.is_none()) return true;
    ClassInfo* want = class_info(typeid(T));
    Inst* i = as_inst(src.ptr());
    void* res = nullptr;
    if (!want || !i || !i->value || !up(i->info, i->value, want, res)) return false;
    ptr = static_cast<T*>(res);
    holder = *i->holder;
    return true;
  }
  T& ref()
  {
    if (!ptr) throw reference_cast_error("");
    return *ptr;
  }
  static handle cast(const T& v, return_value_policy policy, handle)
  {
    auto m = most_derived(&v);
    if (!m.second) throw type_error("Unregistered type");
    if (PyObject* known = find_instance(m.first, m.second)) { Py_INCREF(known); return handle(known); }
    if (policy == return_value_policy::reference) return wrap(m.first, m.second, holder_of(const_cast<T*>(&v)));
    auto c = copy_of<T>(v);
    return wrap(c.get(), class_info(typeid(T)), c);
  }
  static handle cast(T&& v, return_value_policy, handle)
  {
    ClassInfo* ci = class_info(typeid(T));
    if (!ci) throw type_error("Unregistered type");
    auto c = std::make_shared<T>(std::move(v));
    return wrap(c.get(), ci, c);
  }
  static handle cast(T* v, return_value_policy policy, handle)
  {
    if (!v) { Py_INCREF(Py_None); return handle(Py_None); }
    auto m = most_derived(v);
    if (!m.second) throw type_error("Unregistered type");
    if (PyObject* known = find_instance(m.first, m.second)) { Py_INCREF(known); return handle(known); }
    if (policy == return_value_policy::reference || policy == return_value_policy::automatic_reference) return wrap(m.first, m.second, holder_of(v));
    if (policy == return_value_policy::copy) { auto c = copy_of<T>(*v); return wrap(c.get(), class_info(typeid(T)), c); }
    return wrap(m.first, m.second, std::shared_ptr<T>(v));
  }
};
template <typename T, typename H> struct copyable_holder_caster
{
  H value;
  bool load(handle src, bool convert)
  {
    type_caster<T, void> c;
    if (!c.load(src, convert)) return false;
    value.reset();
    if (!c.ptr) return true;
    if (!c.holder) throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
    value = H(c.holder, c.ptr);
    return true;
  }
  operator H() { return value; }
  static handle cast(const H& v, return_value_policy, handle)
  {
    if (!v) { Py_INCREF(Py_None); return handle(Py_None); }
    auto m = most_derived(v.get());
    if (!m.second) throw type_error("Unregistered type");
    if (PyObject* known = find_instance(m.first, m.second)) { Py_INCREF(known); return handle(known); }
    return wrap(m.first, m.second, std::shared_ptr<void>(v, m.first));
  }
};
template <typename T> struct type_caster<std::shared_ptr<T>> : copyable_holder_caster<T, std::shared_ptr<T>> {};
template <typename T, typename H> struct is_holder_type : std::false_type {};
template <typename T, typename H> struct is_holder_of : std::true_type {};

// ------------------------------------------------------------------------------------------------ functions
struct Function
{
  std::function<PyObject*(PyObject* args)> call;
  std::vector<arg> args;  // named ones
  std::size_t count{ 0 };
  bool method{ false };
  int keep{ 0 }, patient{ 0 };
  std::string name;
  PyMethodDef def{};
};
inline void keep_alive_impl(PyObject* nurse, PyObject* patient)
{
  if (!nurse || !patient || nurse == Py_None || patient == Py_None) return;
  Inst* i = as_inst(nurse);
  if (!i) return;
  Py_INCREF(patient);
  i->patients->push_back(patient);
}
inline void translate()
{
  try { throw; }
  catch (error_already_set& e) { e.restore(); }
  catch (const stop_iteration& e) { PyErr_SetString(PyExc_StopIteration, e.what()); }
  catch (const index_error& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const key_error& e) { PyErr_SetString(PyExc_KeyError, e.what()); }
  catch (const value_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const type_error& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
  catch (const std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (const std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}
struct next_overload {};
inline PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kw)
{
  auto* f = static_cast<Function*>(PyCapsule_GetPointer(capsule, nullptr));
  try
  {
    const ssize_t given = PyTuple_Size(args);
    std::vector<object> all;
    for (ssize_t i = 0; i < given; i++) all.push_back(reinterpret_borrow<object>(PyTuple_GetItem(args, i)));
    std::size_t used = 0;
    const std::size_t offset = f->method ? 1 : 0;
    for (std::size_t i = all.size(); i < f->count; i++)
    {
      const std::size_t k = i - offset;
      if (i < offset || k >= f->args.size()) break;
      PyObject* v = kw ? PyDict_GetItemString(kw, f->args[k].name) : nullptr;
      if (v) { all.push_back(reinterpret_borrow<object>(v)); used++; }
      else if (f->args[k].value) all.push_back(f->args[k].value);
      else break;
    }
    if (all.size() != f->count || (kw && used != static_cast<std::size_t>(PyDict_Size(kw))))
    {
      PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str());
      return nullptr;
    }
    object t = reinterpret_steal<object>(PyTuple_New(static_cast<ssize_t>(all.size())));
    for (std::size_t i = 0; i < all.size(); i++) PyTuple_SetItem(t.ptr(), static_cast<ssize_t>(i), all[i].inc_ref().ptr());
    PyObject* r = f->call(t.ptr());
    if (r && f->keep)
    {
      auto get = [&](int i) { return i == 0 ? r : i <= static_cast<int>(all.size()) ? all[static_cast<std::size_t>(i - 1)].ptr() : nullptr; };
      keep_alive_impl(get(f->keep), get(f->patient));
    }
    return r;
  }
  catch (const next_overload&) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str()); }
  catch (const reference_cast_error&) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str()); }
  catch (...) { translate(); }
  return nullptr;
}
// what a parameter of type A is loaded by and taken from
template <typename A> struct param
{
  using D = std::decay_t<A>;
  type_caster<D> c;
  bool load(handle h) { return c.load(h, true); }
  template <typename C> static auto get_(C& c, int) -> std::enable_if_t<std::is_lvalue_reference<A>::value || true, decltype((c.value))> { return c.value; }
  template <typename C> static auto get_(C& c, long) -> decltype(c.ref()) { return c.ref(); }
  decltype(auto) get() { return get_(c, 0); }
};
template <typename T> struct pointer_param
{
  type_caster<T> c;
  bool load(handle h) { return c.load(h, true); }
  T* get() { return c.ptr; }
};
template <typename T> struct param<T*> : pointer_param<std::remove_const_t<T>> {};
template <> struct param<const char*>
{
  type_caster<std::string> c;
  bool load(handle h) { return c.load(h, true); }
  const char* get() { return c.value.c_str(); }
};
template <typename R> struct result
{
  using D = std::decay_t<R>;
  static PyObject* make(R&& r, return_value_policy p)
  {
    if (p == return_value_policy::automatic) p = std::is_pointer<D>::value ? return_value_policy::take_ownership : return_value_policy::copy;
    return caster<D>::type::cast(std::forward<R>(r), p, handle()).ptr();
  }
  template <typename X> struct caster { using type = type_caster<X>; };
  template <typename X> struct caster<X*> { using type = std::conditional_t<std::is_same<std::remove_const_t<X>, char>::value, type_caster<const char*>, type_caster<std::remove_const_t<X>>>; };
};
template <> struct type_caster<const char*>
{
  static handle cast(const char* s, return_value_policy, handle) { return str(s).release(); }
};
struct Options
{
  return_value_policy policy{ return_value_policy::automatic };
  std::vector<arg> args;
  int keep{ 0 }, patient{ 0 };
  bool released{ false };
  void add(return_value_policy p) { policy = p; }
  void add(const arg& a) { args.push_back(a); }
  void add(const char*) {}
  void add(const doc&) {}
  template <int N, int P> void add(const keep_alive<N, P>&) { keep = N; patient = P; }
  template <typename... G> void add(const call_guard<G...>&) { const bool r[] = { false, std::is_same<G, gil_scoped_release>::value... }; for (bool b : r) released |= b; }
};
template <typename... X> Options options(const X&... x) { Options o; (o.add(x), ...); return o; }

template <typename R, typename F, typename... A, std::size_t... I>
PyObject* invoke(F& f, PyObject* args, const Options& o, std::index_sequence<I...>)
{
  std::tuple<param<A>...> p;
  const bool ok[] = { true, std::get<I>(p).load(handle(PyTuple_GetItem(args, I)))... };
  for (bool b : ok) if (!b) throw next_overload();
  auto call = [&]() -> R {
    if (o.released) { gil_scoped_release r; return f(static_cast<std::conditional_t<std::is_lvalue_reference<A>::value, A, std::decay_t<A>>>(std::get<I>(p).get())...); }
    return f(static_cast<std::conditional_t<std::is_lvalue_reference<A>::value, A, std::decay_t<A>>>(std::get<I>(p).get())...);
  };
  if constexpr (std::is_void<R>::value) { call(); Py_INCREF(Py_None); return Py_None; }
  else return result<R>::make(call(), o.policy);
}
template <typename F, typename R, typename... A> Function* make_function(F f, R (*)(A...), const Options& o)
{
  auto* fn = new Function;
  fn->count = sizeof...(A);
  fn->args = o.args;
  fn->keep = o.keep;
  fn->patient = o.patient;
  fn->call = [f, o](PyObject* args) mutable { return invoke<R, F, A...>(f, args, o, std::index_sequence_for<A...>()); };
  return fn;
}
template <typename T> struct signature;
template <typename C, typename R, typename... A> struct signature<R (C::*)(A...)> { using type = R (*)(A...); };
template <typename C, typename R, typename... A> struct signature<R (C::*)(A...) const> { using type = R (*)(A...); };
// of functions, lambdas and members
template <typename R, typename... A> Function* wrap_function(R (*f)(A...), const Options& o) { return make_function([f](A... a) -> R { return f(std::forward<A>(a)...); }, static_cast<R (*)(A...)>(nullptr), o); }
template <typename Self, typename C, typename R, typename... A> Function* wrap_member(R (C::*f)(A...), const Options& o)
{
  return make_function([f](Self& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }, static_cast<R (*)(Self&, A...)>(nullptr), o);
}
template <typename Self, typename C, typename R, typename... A> Function* wrap_member(R (C::*f)(A...) const, const Options& o)
{
  return make_function([f](Self& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }, static_cast<R (*)(Self&, A...)>(nullptr), o);
}
template <typename F> Function* wrap_function(F f, const Options& o) { return make_function(std::move(f), static_cast<typename signature<decltype(&F::operator())>::type>(nullptr), o); }
template <typename Self, typename F> Function* wrap_any(F&& f, const Options& o)
{
  if constexpr (std::is_member_function_pointer<std::decay_t<F>>::value) return wrap_member<Self>(f, o);
  else return wrap_function(std::forward<F>(f), o);
}
inline object python_function(Function* f, const std::string& name)
{
  f->name = name;
  f->def.ml_name = f->name.c_str();
  f->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch));
  f->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
  object capsule = reinterpret_steal<object>(PyCapsule_New(f, nullptr, [](PyObject* c) { delete static_cast<Function*>(PyCapsule_GetPointer(c, nullptr)); }));
  return reinterpret_steal<object>(checked(PyCFunction_NewEx(&f->def, capsule.ptr(), nullptr)));
}
inline bool is_cpp_function(PyObject* o)
{
  if (PyMethod_Check(o)) o = PyMethod_GET_FUNCTION(o);
  if (PyInstanceMethod_Check(o)) o = PyInstanceMethod_GET_FUNCTION(o);
  return PyCFunction_Check(o) && (PyCFunction_GET_FUNCTION(o) == reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)));
}
template <typename R, typename... A> struct type_caster<std::function<R(A...)>>
{
  std::function<R(A...)> value;
  struct Held
  {
    object o;
    ~Held() { gil_scoped_acquire g; o = object(); }
  };
  bool load(handle src, bool)
  {
    if (!src) return false;
    if (src.is_none()) { value = nullptr; return true; }
    if (!PyCallable_Check(src.ptr())) return false;
    auto h = std::make_shared<Held>();
    h->o = reinterpret_borrow<object>(src);
    value = [h](A... a) -> R {
      gil_scoped_acquire g;
      object r = h->o(std::forward<A>(a)...);
      if constexpr (!std::is_void<R>::value) return r.template cast<R>();
    };
    return true;
  }
};
template <typename M> struct map_caster
{
  M value;
  bool load(handle src, bool convert)
  {
    if (!src || !PyDict_Check(src.ptr())) return false;
    value.clear();
    for (auto kv : dict(src, object::borrowed_t{}))
    {
      type_caster<typename M::key_type> k;
      type_caster<typename M::mapped_type> v;
      if (!k.load(kv.first, convert) || !v.load(kv.second, convert)) return false;
      value.emplace(take(k, 0), take(v, 0));
    }
    return true;
  }
  static handle cast(const M& m, return_value_policy p, handle)
  {
    dict d;
    for (auto& kv : m)
    {
      object k = reinterpret_steal<object>(type_caster<typename M::key_type>::cast(kv.first, p, handle()));
      object v = reinterpret_steal<object>(type_caster<typename M::mapped_type>::cast(kv.second, p, handle()));
      if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0) throw error_already_set();
    }
    return d.release();
  }
};
template <typename K, typename V> struct type_caster<std::map<K, V>> : map_caster<std::map<K, V>> {};
template <typename K, typename V> struct type_caster<std::unordered_map<K, V>> : map_caster<std::unordered_map<K, V>> {};

template <typename T> handle cast_argument(const T& v) { return any_to_object(v).release(); }
template <typename T, std::enable_if_t<!std::is_same<std::remove_const_t<T>, char>::value, int> = 0> handle cast_argument(T* v)
{
  return type_caster<std::remove_const_t<T>>::cast(const_cast<std::remove_const_t<T>*>(v), return_value_policy::automatic_reference, handle());
}
template <typename T> T cast_safe(const object& o)
{
  if constexpr (!std::is_void<T>::value) return o.template cast<T>();
}
}  // namespace detail

template <typename... A> object handle::operator()(A&&... a) const
{
  const std::vector<handle> v{ detail::cast_argument(a)... };
  object t = reinterpret_steal<object>(checked(PyTuple_New(static_cast<ssize_t>(v.size()))));
  for (std::size_t i = 0; i < v.size(); i++) PyTuple_SetItem(t.ptr(), static_cast<ssize_t>(i), v[i].ptr());
  return reinterpret_steal<object>(checked(PyObject_CallObject(m_ptr, t.ptr())));
}

// ------------------------------------------------------------------------------------------------ modules
class module : public object
{
public:
  module() = default;
  VERIF_PY_COMMON(module, object, PyModule_Check(h.ptr()))
  module def_submodule(const char* n, const char* = nullptr)
  {
    const std::string full = std::string(PyModule_GetName(m_ptr)) + "." + n;
    module m = reinterpret_borrow<module>(handle(checked(PyImport_AddModule(full.c_str()))));
    if (PyObject_SetAttrString(m_ptr, n, m.ptr()) != 0) throw error_already_set();
    return m;
  }
  template <typename F, typename... X> module& def(const char* n, F&& f, const X&... x)
  {
    object o = detail::python_function(detail::wrap_any<void>(std::forward<F>(f), detail::options(x...)), n);
    if (PyObject_SetAttrString(m_ptr, n, o.ptr()) != 0) throw error_already_set();
    return *this;
  }
};
using module_ = module;

// ------------------------------------------------------------------------------------------------ classes
template <typename T, typename... Opt> class class_ : public object
{
  template <typename O> static constexpr bool is_alias = std::is_class<O>::value && std::is_base_of<T, O>::value && !std::is_same<T, O>::value;
  template <typename O> static constexpr bool is_base = std::is_class<O>::value && std::is_base_of<O, T>::value && !std::is_same<T, O>::value;
  template <typename... O> struct find_alias { using type = T; };
  template <typename O, typename... R> struct find_alias<O, R...> { using type = std::conditional_t<is_alias<O>, O, typename find_alias<R...>::type>; };

public:
  using type = T;
  using type_alias = typename find_alias<Opt...>::type;
  static constexpr bool has_alias = !std::is_same<type_alias, T>::value;

  template <typename... X> class_(handle scope, const char* name, const X&...)
  {
    auto* ci = new detail::ClassInfo;
    ci->type = &typeid(T);
    (add_base<Opt>(ci), ...);
    const std::string full = std::string(PyModule_Check(scope.ptr()) ? PyModule_GetName(scope.ptr()) : "scalopus") + "." + name;
    static PyMemberDef members[] = { { "__weaklistoffset__", T_PYSSIZET, offsetof(detail::Inst, weak), READONLY, nullptr }, { nullptr, 0, 0, 0, nullptr } };
    PyType_Slot slots[] = { { Py_tp_new, reinterpret_cast<void*>(detail::inst_new) }, { Py_tp_init, reinterpret_cast<void*>(detail::inst_init) },
                            { Py_tp_dealloc, reinterpret_cast<void*>(detail::inst_dealloc) }, { Py_tp_members, members }, { 0, nullptr } };
    PyType_Spec spec = { strdup(full.c_str()), sizeof(detail::Inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
    object bases = reinterpret_steal<object>(PyTuple_New(static_cast<ssize_t>(ci->bases.size())));
    for (std::size_t i = 0; i < ci->bases.size(); i++)
    {
      PyObject* b = reinterpret_cast<PyObject*>(ci->bases[i].first->py);
      Py_INCREF(b);
      PyTuple_SetItem(bases.ptr(), static_cast<ssize_t>(i), b);
    }
    m_ptr = checked(PyType_FromSpecWithBases(&spec, ci->bases.empty() ? nullptr : bases.ptr()));
    ci->py = reinterpret_cast<PyTypeObject*>(m_ptr);
    detail::classes()[std::type_index(typeid(T))] = ci;
    if (has_alias) detail::classes()[std::type_index(typeid(type_alias))] = ci;
    if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0) throw error_already_set();
  }
  template <typename F, typename... X> class_& def(const char* n, F&& f, const X&... x)
  {
    auto* fn = detail::wrap_any<T>(std::forward<F>(f), detail::options(x...));
    fn->method = true;
    set(n, reinterpret_steal<object>(checked(PyInstanceMethod_New(detail::python_function(fn, n).ptr()))));
    return *this;
  }
  template <typename F, typename... X> class_& def_static(const char* n, F&& f, const X&... x)
  {
    set(n, reinterpret_steal<object>(checked(PyStaticMethod_New(detail::python_function(detail::wrap_any<void>(std::forward<F>(f), detail::options(x...)), n).ptr()))));
    return *this;
  }
  template <typename... A, typename... X> class_& def(const init_t<A...>&, const X&... x)
  {
    constructor([](bool plain, A... a) -> std::shared_ptr<void> { return construct<A...>(plain, std::forward<A>(a)...); }, static_cast<void (*)(A...)>(nullptr), detail::options(x...));
    return *this;
  }
  template <typename... A, typename... X> class_& def(const init_alias_t<A...>&, const X&... x)
  {
    constructor([](bool, A... a) -> std::shared_ptr<void> { return std::shared_ptr<T>(std::make_shared<type_alias>(std::forward<A>(a)...)); }, static_cast<void (*)(A...)>(nullptr), detail::options(x...));
    return *this;
  }
  template <typename F, typename... X> class_& def(const init_factory_t<F>& i, const X&... x)
  {
    factory(i.f, static_cast<typename detail::signature<decltype(&F::operator())>::type>(nullptr), detail::options(x...));
    return *this;
  }
  template <typename C, typename D> class_& def_readwrite(const char* n, D C::*m)
  {
    property(n, [m](const T& s) -> D { return s.*m; }, [m](T& s, const D& v) { s.*m = v; });
    return *this;
  }
  template <typename C, typename D> class_& def_readonly(const char* n, const D C::*m)
  {
    property(n, [m](const T& s) -> D { return s.*m; });
    return *this;
  }
  // evaluated once: what is bound this way are constants
  template <typename F> class_& def_property_readonly_static(const char* n, F&& f)
  {
    set(n, to_object(f(reinterpret_borrow<object>(*this))));
    return *this;
  }
  template <typename F> class_& def_property_readonly(const char* n, F&& f) { property(n, std::forward<F>(f)); return *this; }
  template <typename G, typename S> class_& def_property(const char* n, G&& g, S&& s) { property(n, std::forward<G>(g), std::forward<S>(s)); return *this; }

protected:
  void set(const char* n, const object& o) { if (PyObject_SetAttrString(m_ptr, n, o.ptr()) != 0) throw error_already_set(); }

private:
  template <typename O> static void add_base(detail::ClassInfo* ci)
  {
    if constexpr (is_base<O>)
    {
      auto* b = detail::class_info(typeid(O));
      if (!b) throw type_error("the base is not known");
      ci->bases.emplace_back(b, [](void* p) -> void* { return static_cast<O*>(static_cast<T*>(p)); });
    }
  }
  template <typename... A> static std::shared_ptr<void> construct(bool plain, A... a)
  {
    if constexpr (!std::is_abstract<T>::value)
    {
      if constexpr (!has_alias) return std::shared_ptr<T>(new T{ std::forward<A>(a)... });
      else if (plain) return std::shared_ptr<T>(new T{ std::forward<A>(a)... });
    }
    if constexpr (has_alias) return std::shared_ptr<T>(std::make_shared<type_alias>(std::forward<A>(a)...));
    return nullptr;
  }
  template <typename F, typename... A> void constructor(F f, void (*)(A...), const detail::Options& o)
  {
    detail::ClassInfo* ci = detail::class_info(typeid(T));
    auto* fn = detail::make_function(
        [f, ci](object self, A... a) {
          auto* i = reinterpret_cast<detail::Inst*>(self.ptr());
          std::shared_ptr<void> h = f(Py_TYPE(self.ptr()) == ci->py, std::forward<A>(a)...);
          if (i->value) return;  // made already
          *i->holder = h;
          detail::set_value(i, ci, h.get());
        },
        static_cast<void (*)(object, A...)>(nullptr), o);
    fn->method = true;
    set("__init__", reinterpret_steal<object>(checked(PyInstanceMethod_New(detail::python_function(fn, "__init__").ptr()))));
  }
  template <typename F, typename R, typename... A> void factory(F f, R (*)(A...), const detail::Options& o)
  {
    constructor([f](bool, A... a) -> std::shared_ptr<void> { return std::shared_ptr<T>(f(std::forward<A>(a)...)); }, static_cast<void (*)(A...)>(nullptr), o);
  }
  template <typename G> void property(const char* n, G&& g)
  {
    object get = reinterpret_steal<object>(checked(PyInstanceMethod_New(detail::python_function(detail::wrap_any<T>(std::forward<G>(g), detail::Options{}), n).ptr())));
    set(n, reinterpret_steal<object>(checked(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(), nullptr))));
  }
  template <typename G, typename S> void property(const char* n, G&& g, S&& s)
  {
    object get = detail::python_function(detail::wrap_any<T>(std::forward<G>(g), detail::Options{}), n);
    object put = detail::python_function(detail::wrap_any<T>(std::forward<S>(s), detail::Options{}), n);
    set(n, reinterpret_steal<object>(checked(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(), put.ptr(), nullptr))));
  }
};
template <typename T> class enum_ : public class_<T>
{
public:
  using class_<T>::class_;
  enum_& value(const char* n, T v, const char* = nullptr)
  {
    this->set(n, to_object(v));
    return *this;
  }
};

// ------------------------------------------------------------------------------------------------ overriding in Python
template <typename T> function get_overload(const T* p, const char* name)
{
  detail::ClassInfo* ci = detail::class_info(typeid(T));
  if (!ci) return reinterpret_steal<function>(handle());
  PyObject* self = detail::find_instance(p, ci);
  if (!self) return reinterpret_steal<function>(handle());
  object o = reinterpret_steal<object>(PyObject_GetAttrString(self, name));
  if (!o) { PyErr_Clear(); return reinterpret_steal<function>(handle()); }
  if (detail::is_cpp_function(o.ptr())) return reinterpret_steal<function>(handle());
  // called by the very function that overrides it
  if (PyFrameObject* frame = PyThreadState_GetFrame(PyThreadState_Get()))
  {
    object fr = reinterpret_steal<object>(reinterpret_cast<PyObject*>(frame));
    object code = reinterpret_steal<object>(reinterpret_cast<PyObject*>(PyFrame_GetCode(frame)));
    object cname = reinterpret_steal<object>(PyObject_GetAttrString(code.ptr(), "co_name"));
    object vars = reinterpret_steal<object>(PyObject_GetAttrString(code.ptr(), "co_varnames"));
    object argc = reinterpret_steal<object>(PyObject_GetAttrString(code.ptr(), "co_argcount"));
    if (PyUnicode_CompareWithASCIIString(cname.ptr(), name) == 0 && PyLong_AsLong(argc.ptr()) > 0)
    {
      object locals = reinterpret_steal<object>(PyFrame_GetLocals(frame));
      object first = reinterpret_steal<object>(PyObject_GetItem(locals.ptr(), PyTuple_GetItem(vars.ptr(), 0)));
      PyErr_Clear();
      if (first.ptr() == self) return reinterpret_steal<function>(handle());
    }
  }
  return reinterpret_borrow<function>(o);
}
template <typename T> function get_override(const T* p, const char* name) { return get_overload(p, name); }
#define VERIF_PY_OVERRIDE(ret, cname, name, ...)                                                 \
  {                                                                                              \
    pybind11::gil_scoped_acquire gil;                                                            \
    pybind11::function overload = pybind11::get_overload(static_cast<const cname*>(this), name); \
    if (overload)                                                                                \
    {                                                                                            \
      auto o = overload(__VA_ARGS__);                                                            \
      return pybind11::detail::cast_safe<ret>(o);                                                \
    }                                                                                            \
  }
#define PYBIND11_OVERLOAD_NAME(ret, cname, name, fn, ...) VERIF_PY_OVERRIDE(ret, cname, name, __VA_ARGS__) return cname::fn(__VA_ARGS__)
#define PYBIND11_OVERLOAD_PURE_NAME(ret, cname, name, fn, ...) \
  VERIF_PY_OVERRIDE(ret, cname, name, __VA_ARGS__)             \
  throw std::runtime_error("Tried to call pure virtual function \"" #cname "::" name "\"")
#define PYBIND11_OVERLOAD(ret, cname, fn, ...) PYBIND11_OVERLOAD_NAME(ret, cname, #fn, fn, __VA_ARGS__)
#define PYBIND11_OVERLOAD_PURE(ret, cname, fn, ...) PYBIND11_OVERLOAD_PURE_NAME(ret, cname, #fn, fn, __VA_ARGS__)
#define PYBIND11_OVERRIDE PYBIND11_OVERLOAD
#define PYBIND11_OVERRIDE_PURE PYBIND11_OVERLOAD_PURE
#define PYBIND11_OVERRIDE_NAME PYBIND11_OVERLOAD_NAME
#define PYBIND11_OVERRIDE_PURE_NAME PYBIND11_OVERLOAD_PURE_NAME
#define PYBIND11_MODULE(name, variable)                                                                                  \
  static void verif_fill_##name(pybind11::module&);                                                                      \
  extern "C" PyObject* PyInit_##name()                                                                                   \
  {                                                                                                                      \
    static PyModuleDef def = { PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr }; \
    PyObject* m = PyModule_Create(&def);                                                                                 \
    if (!m) return nullptr;                                                                                              \
    auto mod = pybind11::reinterpret_borrow<pybind11::module>(pybind11::handle(m));                                      \
    try { verif_fill_##name(mod); }                                                                                      \
    catch (...) { pybind11::detail::translate(); return nullptr; }                                                       \
    return m;                                                                                                            \
  }                                                                                                                      \
  static void verif_fill_##name(pybind11::module& variable)
}  // namespace pybind11
#endif
