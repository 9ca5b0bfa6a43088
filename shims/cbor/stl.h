// Stand-in for iwanders/cbor (the submodule is empty here): the subset of its interface the repository uses, with real
// CBOR (RFC 8949) encoding. Deserialisation of malformed data throws cbor::error, as the library's callers expect.
#ifndef VERIF_CBOR_SHIM_H
#define VERIF_CBOR_SHIM_H
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace cbor
{
using DataType = std::uint8_t;
using Data = std::vector<DataType>;

class error : public std::exception
{
public:
  explicit error(std::string what = "cbor error") : what_(std::move(what)) {}
  const char* what() const noexcept override { return what_.c_str(); }
private:
  std::string what_;
};

struct result
{
  bool success{ false };
  std::size_t length{ 0 };
  result(bool s = false, std::size_t l = 0) : success(s), length(l) {}
  operator std::size_t() const { return length; }
  explicit operator bool() const { return success; }
  bool operator!() const { return !success; }
  result& operator+=(const result& o) { success = success && o.success; length += o.length; return *this; }
};

class write_adapter
{
public:
  explicit write_adapter(Data& d) : data(d) {}
  result head(std::uint8_t major, std::uint64_t v)
  {
    const std::size_t before = data.size();
    const std::uint8_t m = static_cast<std::uint8_t>(major << 5);
    if (v < 24) data.push_back(static_cast<std::uint8_t>(m | v));
    else
    {
      int n = v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffull ? 4 : 8;
      data.push_back(static_cast<std::uint8_t>(m | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
      for (int i = n - 1; i >= 0; i--) data.push_back(static_cast<std::uint8_t>(v >> (8 * i)));
    }
    return { true, data.size() - before };
  }
  result openArray(std::size_t n) { return head(4, n); }
  result openMap(std::size_t n) { return head(5, n); }
  result raw(const std::uint8_t* p, std::size_t n) { data.insert(data.end(), p, p + n); return { true, n }; }
  Data& data;
};

class read_adapter
{
public:
  read_adapter(const std::uint8_t* p, std::size_t n) : p_(p), n_(n) {}
  std::size_t position() const { return i_; }
  std::size_t left() const { return n_ - i_; }
  std::uint8_t peek() const { if (i_ >= n_) throw error("unexpected end of data"); return p_[i_]; }
  std::uint8_t major() const { return static_cast<std::uint8_t>(peek() >> 5); }
  std::uint64_t readHead(std::uint8_t want)
  {
    if (major() != want) throw error("unexpected major type");
    const std::uint8_t info = peek() & 0x1f;
    i_++;
    if (info < 24) return info;
    if (info > 27) throw error("unsupported additional information");
    const std::size_t n = static_cast<std::size_t>(1) << (info - 24);
    if (left() < n) throw error("unexpected end of data");
    std::uint64_t v = 0;
    for (std::size_t k = 0; k < n; k++) v = (v << 8) | p_[i_++];
    return v;
  }
  result expectArray() { if (major() != 4) throw error("expected an array"); return { true, 0 }; }
  result expectMap() { if (major() != 5) throw error("expected a map"); return { true, 0 }; }
  result readLength(std::size_t& len)
  {
    const std::size_t before = i_;
    len = readHead(major());
    if (len > left()) throw error("length exceeds data");  // every element takes at least a byte
    return { true, i_ - before };
  }
  const std::uint8_t* take(std::size_t n)
  {
    if (left() < n) throw error("unexpected end of data");
    const std::uint8_t* r = p_ + i_;
    i_ += n;
    return r;
  }
  void skip(int depth = 0)
  {
    if (depth > 64) throw error("nested too deep");
    const std::uint8_t m = major();
    if (m == 7)
    {
      const std::uint8_t info = peek() & 0x1f;
      i_++;
      if (info < 24) return;
      if (info > 27) throw error("unsupported simple value");
      take(static_cast<std::size_t>(1) << (info - 24));
      return;
    }
    const std::uint64_t v = readHead(m);
    if (m <= 1) return;
    if (m == 2 || m == 3) { take(v); return; }
    if (m == 6) { skip(depth + 1); return; }
    if (v > left()) throw error("length exceeds data");
    for (std::uint64_t k = 0; k < (m == 5 ? 2 * v : v); k++) skip(depth + 1);
  }
  std::size_t i_{ 0 };
private:
  const std::uint8_t* p_;
  std::size_t n_;
};

// ---- integers
template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
result to_cbor(const T& v, write_adapter& data)
{
  if (std::is_signed<T>::value && v < 0) return data.head(1, static_cast<std::uint64_t>(-1 - static_cast<std::int64_t>(v)));
  return data.head(0, static_cast<std::uint64_t>(v));
}
template <typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
result from_cbor(T& v, read_adapter& data)
{
  const std::size_t before = data.position();
  if (data.major() == 1)
  {
    const std::uint64_t u = data.readHead(1);
    if (!std::is_signed<T>::value || u > static_cast<std::uint64_t>(std::numeric_limits<T>::max())) throw error("integer out of range");
    v = static_cast<T>(-1 - static_cast<std::int64_t>(u));
  }
  else
  {
    const std::uint64_t u = data.readHead(0);
    if (u > static_cast<std::uint64_t>(std::numeric_limits<T>::max())) throw error("integer out of range");
    v = static_cast<T>(u);
  }
  return { true, data.position() - before };
}
// ---- forward declarations, so that containers nest
class cbor_object;
inline result to_cbor(const std::string& v, write_adapter& data);
inline result from_cbor(std::string& v, read_adapter& data);
inline result to_cbor(const Data& v, write_adapter& data);
inline result from_cbor(Data& v, read_adapter& data);
inline result to_cbor(const cbor_object& v, write_adapter& data);
inline result from_cbor(cbor_object& v, read_adapter& data);
template <typename T> result to_cbor(const std::unique_ptr<T>& v, write_adapter& data);
template <typename T> result from_cbor(std::unique_ptr<T>& v, read_adapter& data);
template <typename T, typename A> result to_cbor(const std::vector<T, A>& v, write_adapter& data);
template <typename T, typename A> result from_cbor(std::vector<T, A>& v, read_adapter& data);
template <typename K, typename V, typename... R> result to_cbor(const std::map<K, V, R...>& v, write_adapter& data);
template <typename K, typename V, typename... R> result from_cbor(std::map<K, V, R...>& v, read_adapter& data);

// ---- strings
inline result to_cbor(const std::string& v, write_adapter& data)
{
  result r = data.head(3, v.size());
  r += data.raw(reinterpret_cast<const std::uint8_t*>(v.data()), v.size());
  return r;
}
inline result from_cbor(std::string& v, read_adapter& data)
{
  const std::size_t before = data.position();
  const std::uint64_t n = data.readHead(3);
  const std::uint8_t* p = data.take(n);
  v.assign(p, p + n);
  return { true, data.position() - before };
}
inline result to_cbor(const Data& v, write_adapter& data)
{
  result r = data.head(2, v.size());
  r += data.raw(v.data(), v.size());
  return r;
}
inline result from_cbor(Data& v, read_adapter& data)
{
  const std::size_t before = data.position();
  const std::uint64_t n = data.readHead(2);
  const std::uint8_t* p = data.take(n);
  v.assign(p, p + n);
  return { true, data.position() - before };
}
// ---- pointers
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, write_adapter& data)
{
  if (v == nullptr) { data.data.push_back(0xf6); return { true, 1 }; }
  return to_cbor(*v, data);
}
template <typename T>
result from_cbor(std::unique_ptr<T>& v, read_adapter& data)
{
  if (data.peek() == 0xf6) { data.take(1); v.reset(); return { true, 1 }; }
  v = std::make_unique<T>();
  return from_cbor(*v, data);
}
// ---- containers
template <typename T, typename A>
result to_cbor(const std::vector<T, A>& v, write_adapter& data)
{
  result r = data.openArray(v.size());
  for (const auto& e : v) r += to_cbor(e, data);
  return r;
}
template <typename T, typename A>
result from_cbor(std::vector<T, A>& v, read_adapter& data)
{
  result r = data.expectArray();
  std::size_t n = 0;
  r += data.readLength(n);
  v.clear();
  for (std::size_t i = 0; i < n; i++) { v.emplace_back(); r += from_cbor(v.back(), data); }
  return r;
}
template <typename K, typename V, typename... R>
result to_cbor(const std::map<K, V, R...>& v, write_adapter& data)
{
  result r = data.openMap(v.size());
  for (const auto& e : v) { r += to_cbor(e.first, data); r += to_cbor(e.second, data); }
  return r;
}
template <typename K, typename V, typename... R>
result from_cbor(std::map<K, V, R...>& v, read_adapter& data)
{
  result r = data.expectMap();
  std::size_t n = 0;
  r += data.readLength(n);
  v.clear();
  for (std::size_t i = 0; i < n; i++)
  {
    K k{};
    r += from_cbor(k, data);
    V val{};
    r += from_cbor(val, data);
    v[std::move(k)] = std::move(val);
  }
  return r;
}
// ---- top level, to and from a buffer
template <typename T>
typename std::enable_if<true, result>::type to_cbor(const T& v, Data& out)
{
  write_adapter w(out);
  return to_cbor(v, w);
}
template <typename T>
result from_cbor(T& v, const Data& in)
{
  read_adapter r(in.data(), in.size());
  return from_cbor(v, r);
}

class cbor_object
{
public:
  cbor_object() = default;
  template <typename T, typename std::enable_if<!std::is_same<typename std::decay<T>::type, cbor_object>::value, int>::type = 0>
  explicit cbor_object(const T& v)
  {
    write_adapter w(serialized_);
    to_cbor(v, w);
  }
  const Data& serialized() const { return serialized_; }
  template <typename T>
  T get() const
  {
    T v{};
    get_to(v);
    return v;
  }
  template <typename T>
  void get_to(T& v) const
  {
    read_adapter r(serialized_.data(), serialized_.size());
    from_cbor(v, r);
  }
  Data serialized_;
};
inline result to_cbor(const cbor_object& v, write_adapter& data) { return data.raw(v.serialized_.data(), v.serialized_.size()); }
inline result from_cbor(cbor_object& v, read_adapter& data)
{
  const std::size_t before = data.position();
  data.skip();
  const std::size_t n = data.position() - before;
  data.i_ = before;
  const std::uint8_t* p = data.take(n);
  v.serialized_.assign(p, p + n);
  return { true, n };
}
}  // namespace cbor
#endif
