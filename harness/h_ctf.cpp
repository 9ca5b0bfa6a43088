// C14: lines of babeltrace's text output and other strings, parsed by BabeltraceParser::parse / CTFEvent.
#include <scalopus_tracing/babeltrace_parser.h>
#include <cmath>
#include <new>
#include "pbt.h"

using pbt::Case;
using scalopus::CTFEvent;
using Map = std::map<std::string, unsigned long long>;

static std::string ident(Case& c)
{
  static const std::string first = "abcxyzABZ_", rest = "abcxyzABZ_0189";
  static const std::vector<std::string> common = { "id", "value", "vpid", "pthread_id", "cpu_id", "procname", "vtid", "ip", "a", "x" };
  if (c.draw(3) != 0) return c.pick(common);
  std::string r(1, first[c.draw(first.size())]);
  std::size_t n = c.draw(12);
  for (std::size_t i = 0; i < n; i++) r += rest[c.draw(rest.size())];
  return r;
}
static std::string number(Case& c, unsigned long long& v)
{
  static const std::vector<unsigned long long> edges = { 0, 1, 9, 10, 255, 65535, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 139688084124608ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
  unsigned long long u = c.boolean() ? c.pick(edges) : c.seed64() >> c.draw(64);
  switch (c.draw(4))
  {
    case 0:
    case 1: v = u; return std::to_string(u);
    case 2:
    {
      long long s = -static_cast<long long>(u >> 1) - (u & 1);
      v = static_cast<unsigned long long>(s);
      return std::to_string(s);
    }
    default:
    {
      char b[32];
      v = u;
      std::snprintf(b, sizeof b, c.boolean() ? "0x%llX" : "0x%llx", u);
      return b;
    }
  }
}
static std::string quoted(Case& c)
{
  // babeltrace escapes quotes, backslashes and control characters
  static const std::vector<std::string> parts = { "a", "Z", " ", ",", ", ", "=", " = ", "{", "}", " }", "{ ", "\\\"", "\\\\", "\\n", "[", "]", ":", "7", "id = 5", "}, {", "\xc3\xa9", ", value = 3" };
  std::string s = "\"";
  std::size_t n = c.draw(7);
  for (std::size_t i = 0; i < n; i++) s += c.pick(parts);
  return s + "\"";
}
static std::string context(Case& c, Map& m, bool& odd, std::size_t min = 0)
{
  std::size_t n = std::max<std::size_t>(min, c.draw(6));
  if (n == 0) { odd = true; return "{ }"; }
  std::string s = "{ ";
  std::set<std::string> used;
  bool first = true;
  for (std::size_t i = 0; i < n; i++)
  {
    std::string k = ident(c);
    if (!used.insert(k).second) continue;
    if (!first) s += ", ";
    first = false;
    switch (c.draw(6))
    {
      case 0: s += k + " = " + quoted(c); odd = true; break;
      case 1:
        if (c.boolean()) { s += k + " = 1.5"; odd = true; break; }
        // fallthrough
      default:
      {
        unsigned long long v;
        std::string t = number(c, v);
        s += k + " = " + t;
        m[k] = v;
        if (t[0] == '-') odd = true;
      }
    }
  }
  return s + " }";
}
struct Line { std::string text, domain, name; double time; Map stream, event, data; bool odd{ false }; };
static Line valid(Case& c)
{
  Line l;
  char ts[64];
  unsigned long long sec = c.boolean() ? 1544361620ull + c.draw(1000000) : c.draw(4000000000ull);
  std::snprintf(ts, sizeof ts, "%llu.%09llu", sec, static_cast<unsigned long long>(c.draw(1000000000)));
  l.time = std::strtod(ts, nullptr);
  static const std::vector<std::string> hosts = { "eagle", "a", "host-1", "my.host.example.org", "x_y", "localhost" };
  l.domain = c.boolean() ? "scalopus_scope_id" : ident(c);
  static const std::vector<std::string> names = { "scope_entry", "scope_exit", "mark_event_global", "count_event", "mark_event_process" };
  l.name = c.boolean() ? c.pick(names) : ident(c);
  l.text = std::string("[") + ts + "] " + c.pick(hosts) + " " + l.domain + ":" + l.name + ": ";
  l.text += context(c, l.stream, l.odd) + ", " + context(c, l.event, l.odd) + ", " + context(c, l.data, l.odd);
  if (c.boolean()) l.text += "\n";
  return l;
}
static std::string show(const Map& m) { std::string s; for (auto& k : m) s += k.first + "=" + std::to_string(k.second) + " "; return s; }

// parsed twice, into storage with different leftovers
struct Twice
{
  alignas(CTFEvent) unsigned char a[sizeof(CTFEvent)], b[sizeof(CTFEvent)];
  CTFEvent *x, *y;
  explicit Twice(const std::string& s)
  {
    std::memset(a, 0x41, sizeof a);
    std::memset(b, 0xc3, sizeof b);
    x = new (a) CTFEvent(s);
    try { y = new (b) CTFEvent(s); } catch (...) { x->~CTFEvent(); throw; }
  }
  ~Twice() { x->~CTFEvent(); y->~CTFEvent(); }
};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// is "key = value" stated somewhere in the line?
static bool stated(const std::string& line, const std::string& key, unsigned long long v)
{
  std::string t = key + " = ";
  for (std::size_t p = line.find(t); p != std::string::npos; p = line.find(t, p + 1))
  {
    const char* s = line.c_str() + p + t.size();
    char* e;
    for (int base : { 0, 10 }) if (std::strtoull(s, &e, base) == v && e != s) return true;
  }
  return false;
}
static void run(Case& c)
{
  const int mode = static_cast<int>(c.draw(4));
  if (mode < 2)
  {
    Line l = valid(c);
    c.out() << l.text;
    Twice t(l.text);
    for (auto* e : { t.x, t.y })
    {
      c.check(e->time() == l.time, "time " + std::to_string(e->time()) + " instead of " + std::to_string(l.time));
      c.check(e->domain() == l.domain, "domain '" + e->domain() + "' instead of '" + l.domain + "'");
      c.check(e->name() == l.name, "name '" + e->name() + "' instead of '" + l.name + "'");
      c.check(e->line() == l.text, "the line is not kept");
      c.check(e->streamContext() == l.stream, "stream context {" + show(e->streamContext()) + "} instead of {" + show(l.stream) + "}");
      c.check(e->eventContext() == l.event, "event context {" + show(e->eventContext()) + "} instead of {" + show(l.event) + "}");
      c.check(e->eventData() == l.data, "payload {" + show(e->eventData()) + "} instead of {" + show(l.data) + "}");
      if (l.event.count("vpid")) c.check(e->pid() == l.event["vpid"], "pid");
      if (l.event.count("pthread_id")) c.check(e->tid() == l.event["pthread_id"], "tid");
    }
    CTFEvent p = scalopus::BabeltraceParser::parse(l.text);
    c.check(p.time() == l.time && p.domain() == l.domain && p.name() == l.name && p.streamContext() == l.stream && p.eventContext() == l.event && p.eventData() == l.data, "the parser yields another event than the line");
    if (!l.stream.empty() || !l.event.empty() || !l.data.empty()) c.nontrivial(l.text);
    c.label("event lines");
    if (l.odd) c.label("event lines with strings, negatives or empty contexts");
    return;
  }
  std::string s;
  if (mode == 2)
  {
    // a mutilated event line
    s = valid(c).text;
    std::size_t edits = 1 + c.draw(4);
    static const std::vector<std::string> ins = { "{", "}", "[", "]", " ", ", ", " = ", ":", "\"", "\\", "", "99999999999999999999999999", "1e999", "-", "0x", std::string(1, '\0'), "\xff", "{ }", "= 5", "\n" };
    for (std::size_t i = 0; i < edits && !s.empty(); i++)
    {
      std::size_t p = c.draw(s.size() + 1);
      switch (c.draw(4))
      {
        case 0: s.resize(p); break;
        case 1: s.erase(p, 1 + c.draw(20)); break;
        case 2: s.insert(p, c.pick(ins)); break;
        default: { std::size_t q = c.draw(s.size() + 1); if (p > q) std::swap(p, q); s = s.substr(0, q) + s.substr(p); }
      }
    }
  }
  else
  {
    static const std::vector<std::string> toks = { "[", "]", "{", "}", "{ ", " }", " ", ", ", " = ", ":", "a", "id", "1", "-", ".", "1.5", "1e999", "0x", "nan", "inf", "99999999999999999999", "\"", "\\", "\n", std::string(1, '\0'), "\x80", "host", "d:n:", "warning: " };
    std::size_t n = c.size(60);
    for (std::size_t i = 0; i < n; i++) s += c.draw(8) == 0 ? std::string(1, static_cast<char>(c.draw(256))) : c.pick(toks);
  }
  c.out() << pbt::esc(s);
  Twice t(s);
  c.check(same(t.x->time(), t.y->time()), "the time of a line is arbitrary");
  for (auto* e : { t.x, t.y })
  {
    c.check(e->line() == s, "the line is not kept");
    c.check(s.find(e->domain()) != std::string::npos, "a domain that is not in the line");
    c.check(s.find(e->name()) != std::string::npos, "a name that is not in the line");
    if (s.find('[') == std::string::npos) c.check(e->time() == 0, "a time that is not in the line");
    for (auto* m : { &e->streamContext(), &e->eventContext(), &e->eventData() })
      for (auto& k : *m) c.check(stated(s, k.first, k.second), "value " + k.first + " = " + std::to_string(k.second) + " is not in the line");
    std::ostringstream os;
    os << *e;
  }
  if (!t.x->domain().empty()) c.label("other lines with a domain");
  c.label("other lines");
  if (s.size() > 3) c.nontrivial(s);
}
PBT_MAIN(run)
