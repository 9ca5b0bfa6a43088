#include <pybind11/pybind11.h>
#ifndef VERIF_PYBIND11_STL_H
#define VERIF_PYBIND11_STL_H
namespace pybind11 { namespace detail {
template <typename V> struct type_caster<std::vector<V>>
{
  std::vector<V> value;
  bool load(handle src, bool convert)
  {
    if (!isinstance<sequence>(src) || isinstance<str>(src)) return false;
    value.clear();
    for (auto v : src)
    {
      type_caster<V> c;
      if (!c.load(v, convert)) return false;
      value.push_back(take(c, 0));
    }
    return true;
  }
  static handle cast(const std::vector<V>& s, return_value_policy, handle) { list l; for (const auto& v : s) l.append(v); return l.release(); }
};
} }
#endif
