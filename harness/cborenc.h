// A small CBOR (RFC 8949) encoder and decoder, independent of what the code under test uses.
#ifndef VERIF_CBORENC_H
#define VERIF_CBORENC_H
#include "common.h"

namespace vf
{
inline void cb_head(Data& d, int major, std::uint64_t v)
{
  const std::uint8_t m = static_cast<std::uint8_t>(major << 5);
  if (v < 24) { d.push_back(static_cast<std::uint8_t>(m | v)); return; }
  int n = v <= 0xff ? 0 : v <= 0xffff ? 1 : v <= 0xffffffffull ? 2 : 3;
  d.push_back(static_cast<std::uint8_t>(m | (24 + n)));
  for (int i = (1 << n) - 1; i >= 0; i--) d.push_back(static_cast<std::uint8_t>(v >> (8 * i)));
}
inline void cb_uint(Data& d, std::uint64_t v) { cb_head(d, 0, v); }
inline void cb_int(Data& d, std::int64_t v)
{
  if (v >= 0) cb_head(d, 0, static_cast<std::uint64_t>(v));
  else cb_head(d, 1, static_cast<std::uint64_t>(-(v + 1)));
}
inline void cb_text(Data& d, const std::string& s) { cb_head(d, 3, s.size()); d.insert(d.end(), s.begin(), s.end()); }
inline void cb_bytes(Data& d, const Data& s) { cb_head(d, 2, s.size()); d.insert(d.end(), s.begin(), s.end()); }

// The events of a native trace message.
struct NEvent
{
  std::uint64_t ts{ 0 };
  std::uint32_t id{ 0 };
  std::uint8_t type{ 1 };
  std::int64_t value{ 0 };
  bool operator==(const NEvent& o) const { return ts == o.ts && id == o.id && type == o.type && (type != 6 || value == o.value); }
};
struct NChunk
{
  std::uint64_t pid{ 0 };
  std::vector<std::pair<std::uint64_t, std::vector<NEvent>>> threads;
};
inline Data encode(const NChunk& c)
{
  Data d;
  cb_head(d, 5, 2);
  cb_text(d, "events");
  cb_head(d, 5, c.threads.size());
  for (auto& t : c.threads)
  {
    cb_uint(d, t.first);
    cb_head(d, 4, t.second.size());
    for (auto& e : t.second)
    {
      cb_head(d, 4, e.type == 6 ? 4 : 3);
      cb_uint(d, e.ts);
      cb_uint(d, e.id);
      cb_uint(d, e.type);
      if (e.type == 6)
      {
        Data v;
        cb_int(v, e.value);
        cb_bytes(d, v);
      }
    }
  }
  cb_text(d, "pid");
  cb_uint(d, c.pid);
  return d;
}
// Decodes a message of the native trace sender. Throws a std::runtime_error if it is something else.
class CborReader
{
public:
  explicit CborReader(const Data& x) : d(x) {}
  std::uint64_t head(int major)
  {
    std::uint8_t b = byte();
    if ((b >> 5) != major) throw std::runtime_error("unexpected CBOR type " + std::to_string(b >> 5));
    std::uint8_t i = b & 31;
    if (i < 24) return i;
    if (i > 27) throw std::runtime_error("unexpected CBOR length");
    std::uint64_t v = 0;
    for (int k = 0; k < (1 << (i - 24)); k++) v = (v << 8) | byte();
    return v;
  }
  int major() { if (p >= d.size()) throw std::runtime_error("CBOR ends early"); return d[p] >> 5; }
  std::uint8_t byte() { if (p >= d.size()) throw std::runtime_error("CBOR ends early"); return d[p++]; }
  std::int64_t integer()
  {
    if (major() == 1) return -1 - static_cast<std::int64_t>(head(1));
    return static_cast<std::int64_t>(head(0));
  }
  std::string str(int m)
  {
    auto n = head(m);
    if (n > d.size() - p) throw std::runtime_error("CBOR ends early");
    std::string s(reinterpret_cast<const char*>(d.data()) + p, n);
    p += n;
    return s;
  }
  const Data& d;
  std::size_t p{ 0 };
};
inline NChunk decode_chunk(const Data& d)
{
  NChunk c;
  CborReader r(d);
  auto n = r.head(5);
  bool pid = false, events = false;
  for (std::uint64_t i = 0; i < n; i++)
  {
    auto key = r.str(3);
    if (key == "pid") { c.pid = r.head(0); pid = true; }
    else if (key == "events")
    {
      events = true;
      auto k = r.head(5);
      for (std::uint64_t t = 0; t < k; t++)
      {
        c.threads.emplace_back();
        c.threads.back().first = r.head(0);
        auto m = r.head(4);
        for (std::uint64_t e = 0; e < m; e++)
        {
          NEvent ev;
          auto len = r.head(4);
          if (len < 3 || len > 4) throw std::runtime_error("an event of " + std::to_string(len) + " elements");
          ev.ts = r.head(0);
          ev.id = static_cast<std::uint32_t>(r.head(0));
          ev.type = static_cast<std::uint8_t>(r.head(0));
          if (len == 4)
          {
            auto s = r.str(2);
            Data v(s.begin(), s.end());
            CborReader vr(v);
            ev.value = vr.integer();
          }
          c.threads.back().second.push_back(ev);
        }
      }
    }
    else throw std::runtime_error("unexpected key " + key);
  }
  if (!pid || !events) throw std::runtime_error("incomplete message");
  return c;
}
}  // namespace vf
#endif
