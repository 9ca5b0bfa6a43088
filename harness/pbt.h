// A small property-based testing engine. A case is a pure function of a tape of choices: generators draw bounded numbers
// from it, while generating the tape is filled from a seeded generator, while replaying it is read back (0, the simplest
// choice, past its end). The tape is journalled in a memory-mapped file while the case runs, so that a case that crashes,
// hangs or is stopped by a sanitizer is known to the supervisor (verif/check.py), which shrinks tapes by replaying edits.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
inline std::uint64_t mix(std::uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Failure : std::runtime_error
{
  // soft: the verdict rests on something not having happened in time; it must reproduce before it is believed.
  bool soft;
  Failure(const std::string& m, bool s) : std::runtime_error(m), soft(s) {}
};
struct Discard {};

class Case
{
public:
  // ---------------------------------------------------------------- choices
  std::uint64_t draw(std::uint64_t bound)  // [0, bound), bound 0: full range
  {
    std::uint64_t v;
    if (replaying)
      v = pos < tape.size() ? tape[pos] : 0;
    else
    {
      state = mix(state);
      v = state;
    }
    if (bound) v %= bound;
    if (!replaying)
    {
      tape.push_back(v);
      journal(v);
    }
    pos++;
    return v;
  }
  std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1)); }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // 0 (simplest) is false
  bool boolean() { return draw(2) != 0; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  // A size in [0, max], small ones preferred, 0 simplest.
  std::size_t size(std::size_t max)
  {
    switch (draw(4))
    {
      case 0: return draw(std::min<std::size_t>(max, 3) + 1);
      case 1: return draw(std::min<std::size_t>(max, 16) + 1);
      case 2: return draw(std::min<std::size_t>(max, 256) + 1);
      default: return draw(max + 1);
    }
  }
  // Bytes: content derived from one seed choice, so that megabytes cost two choices; short ones choice by choice.
  std::vector<std::uint8_t> bytes(std::size_t n)
  {
    std::vector<std::uint8_t> r(n);
    if (n <= 8)
    {
      for (auto& b : r) b = static_cast<std::uint8_t>(draw(256));
      return r;
    }
    std::uint64_t s = draw(1u << 16);
    if (s == 0) return r;
    for (std::size_t i = 0; i < n; i++)
    {
      if (i % 8 == 0) s = mix(s);
      r[i] = static_cast<std::uint8_t>(s >> (8 * (i % 8)));
    }
    return r;
  }
  // A UTF-8 text.
  std::string text(std::size_t max_chars)
  {
    static const std::vector<std::string> alphabet = { "a", "b", "Z", "0", " ", "_", ":", "/", "\"", "\\", "\n", "\t", "{", "}", "%", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x90\x99", "\x01", "\x7f", "<", "&", "," };
    std::string r;
    std::size_t n = draw(max_chars + 1);
    for (std::size_t i = 0; i < n; i++) r += alphabet[draw(alphabet.size())];
    return r;
  }
  std::uint64_t seed64() { return draw(0); }
  // ---------------------------------------------------------------- verdicts
  [[noreturn]] void fail(const std::string& m) { throw Failure(m, false); }
  [[noreturn]] void fail_soft(const std::string& m) { throw Failure(m, true); }
  void check(bool ok, const std::string& m) { if (!ok) fail(m); }
  [[noreturn]] void discard() { throw Discard{}; }
  // ---------------------------------------------------------------- evidence
  void nontrivial(const std::string& key) { is_nontrivial = true; key_hash = std::hash<std::string>()(key); }
  void nontrivial() { is_nontrivial = true; }
  void label(const std::string& l, std::uint64_t n = 1) { labels[l] += n; }
  void note(const std::string& s) { if (notes.size() < 4000) { notes += s; notes += "\n"; } }
  std::ostringstream& out() { return os; }

  std::vector<std::uint64_t> tape;
  std::size_t pos{ 0 };
  bool replaying{ false };
  std::uint64_t state{ 0 };
  bool is_nontrivial{ false };
  std::uint64_t key_hash{ 0 };
  std::map<std::string, std::uint64_t> labels;
  std::string notes;
  std::ostringstream os;
  // journal
  static std::uint64_t*& map() { static std::uint64_t* m = nullptr; return m; }
  static constexpr std::size_t kJournalWords = 1u << 20;
  void journal(std::uint64_t v)
  {
    auto* m = map();
    if (m && m[1] + 2 < kJournalWords)
    {
      m[2 + m[1]] = v;
      m[1]++;
    }
  }
};

inline std::string esc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
inline std::string show(const std::vector<std::uint8_t>& d, std::size_t max = 24)
{
  std::string r = std::to_string(d.size()) + "B:";
  char b[4];
  for (std::size_t i = 0; i < d.size() && i < max; i++) { std::snprintf(b, sizeof b, "%02x", d[i]); r += b; }
  if (d.size() > max) r += "..";
  return r;
}

using Property = std::function<void(Case&)>;

inline int usage() { std::fprintf(stderr, "usage: --run SEED START CASES SECONDS OUT JOURNAL | --replay TAPE\n"); return 2; }

// exit status: 0 all held, 1 property failed (message on stdout), 3 soft failure. Anything else: crash.
inline int main_(int argc, char** argv, const Property& prop)
{
  if (argc >= 3 && std::string(argv[1]) == "--replay")
  {
    Case c;
    c.replaying = true;
    std::ifstream in(argv[2]);
    std::uint64_t v;
    while (in >> v) c.tape.push_back(v);
    int rc = 0;
    std::string msg;
    try { prop(c); }
    catch (const Failure& f) { rc = f.soft ? 3 : 1; msg = f.what(); }
    catch (const Discard&) {}
    catch (const std::exception& e) { rc = 1; msg = std::string("uncaught exception: ") + e.what(); }
    if (!c.notes.empty() || !c.os.str().empty()) std::printf("CASE %s%s\n", c.os.str().c_str(), c.notes.c_str());
    if (rc) std::printf("FAIL %s\n", msg.c_str());
    std::fflush(stdout);
    if (rc) _exit(rc);  // threads of the failed case may be stuck
    return 0;
  }
  if (argc < 8 || std::string(argv[1]) != "--run") return usage();
  const std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  const std::uint64_t start = std::strtoull(argv[3], nullptr, 10);
  const std::uint64_t cases = std::strtoull(argv[4], nullptr, 10);
  const double seconds = std::strtod(argv[5], nullptr);
  const std::string out = argv[6];
  int fd = ::open(argv[7], O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd >= 0 && ::ftruncate(fd, static_cast<off_t>(Case::kJournalWords * 8)) == 0)
  {
    void* p = ::mmap(nullptr, Case::kJournalWords * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p != MAP_FAILED) Case::map() = static_cast<std::uint64_t*>(p);
    ::close(fd);
  }
  const auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::uint64_t evaluated = 0, discarded = 0;
  std::set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::string> samples;
  int rc = 0;
  std::string msg;
  std::uint64_t i = start;
  for (; i < start + cases && rc == 0; i++)
  {
    if (elapsed() > seconds) break;
    Case c;
    c.state = mix(mix(seed) ^ (i * 0x2545F4914F6CDD1Dull));
    if (auto* m = Case::map()) { m[1] = 0; m[0] = i + 1; }
    try
    {
      prop(c);
    }
    catch (const Failure& f) { rc = f.soft ? 3 : 1; msg = f.what(); }
    catch (const Discard&) { discarded++; continue; }
    catch (const std::exception& e) { rc = 1; msg = std::string("uncaught exception: ") + e.what(); }
    evaluated++;
    for (auto& l : c.labels) labels[l.first] += l.second;
    if (c.is_nontrivial)
    {
      std::uint64_t h = c.key_hash;
      if (!h) { h = 1; for (auto v : c.tape) h = mix(h ^ v); }
      distinct.insert(h);
      if (samples.size() < 3) samples.push_back(c.os.str() + c.notes);
    }
  }
  std::ofstream o(out);
  o << "{\"evaluations\":" << evaluated << ",\"discarded\":" << discarded << ",\"next\":" << i << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) { o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false; }
  o << "},\"distinct\":[";
  first = true;
  for (auto d : distinct) { o << (first ? "" : ",") << "\"" << d << "\""; first = false; }
  o << "],\"samples\":[";
  first = true;
  for (auto& s : samples) { o << (first ? "" : ",") << "\"" << esc(s.substr(0, 1500)) << "\""; first = false; }
  o << "],\"rc\":" << rc << ",\"message\":\"" << esc(msg) << "\"}\n";
  o.close();
  if (rc) { std::printf("FAIL %s\n", msg.c_str()); std::fflush(stdout); _exit(rc); }
  return 0;
}
}  // namespace pbt

#define PBT_MAIN(prop) int main(int argc, char** argv) { return pbt::main_(argc, argv, prop); }
#endif
