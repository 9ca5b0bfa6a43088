// The reference conversion of trace events, and the comparison with what a source yields.
#ifndef VERIF_RECORDING_H
#define VERIF_RECORDING_H
#include <cmath>
#include "fakes.h"

namespace vf
{
using Names = std::map<unsigned int, std::string>;
struct Event
{
  double us{ 0 };        // time in microseconds
  std::uint64_t order{ 0 };  // what the time is compared by
  long long pid{ 0 };
  unsigned long long tid{ 0 };
  unsigned int id{ 0 };
  int kind{ 0 };  // entry, exit, global, process, thread, count
  long long value{ 0 };
  std::string from;
};
struct Want
{
  const Event* l;
  std::string name;
  std::map<std::string, long long> args;
};
inline std::string resolve(const std::map<int, Names>& names, int pid, unsigned int id)
{
  auto p = names.find(pid);
  if (p != names.end())
  {
    auto i = p->second.find(id);
    if (i != p->second.end()) return i->second;
  }
  char b[32];
  std::snprintf(b, sizeof b, "Unknown 0x%x", id);
  return b;
}
inline std::vector<Want> expected(const std::vector<const Event*>& events, const std::map<int, Names>& names)
{
  std::vector<Want> r;
  for (auto* e : events) r.push_back(Want{ e, resolve(names, static_cast<int>(e->pid), e->id), {} });
  std::stable_sort(r.begin(), r.end(), [](const Want& a, const Want& b) { return a.l->order < b.l->order; });
  std::vector<std::string> series(r.size());
  for (std::size_t i = 0; i < r.size(); i++)
  {
    if (r[i].l->kind != 5) continue;
    auto k = r[i].name.find('/');
    series[i] = "count";
    if (k != std::string::npos)
    {
      if (k + 1 < r[i].name.size()) series[i] = r[i].name.substr(k + 1);
      r[i].name.resize(k);
    }
  }
  for (std::size_t i = 0; i < r.size(); i++)
  {
    if (r[i].l->kind != 5) continue;
    // every series of this counter: the latest value at or before, or the first one after
    for (std::size_t j = r.size(); j-- > i + 1;)
      if (r[j].l->kind == 5 && r[j].l->pid == r[i].l->pid && r[j].name == r[i].name) r[i].args[series[j]] = r[j].l->value;
    for (std::size_t j = 0; j <= i; j++)
      if (r[j].l->kind == 5 && r[j].l->pid == r[i].l->pid && r[j].name == r[i].name) r[i].args[series[j]] = r[j].l->value;
  }
  return r;
}
// empty if equal
inline std::string differs(const std::vector<json>& got, const std::vector<Want>& want)
{
  static const char* kPh[] = { "B", "E", "i", "i", "i", "C" };
  static const char* kS[] = { "", "", "g", "p", "t", "" };
  if (got.size() != want.size()) return std::to_string(got.size()) + " events instead of " + std::to_string(want.size());
  for (std::size_t i = 0; i < got.size(); i++)
  {
    const json& g = got[i];
    const Want& w = want[i];
    auto at = [&] { return "event " + std::to_string(i) + " (" + g.dump(-1, ' ', false, json::error_handler_t::replace) + ", from '" + w.l->from + "') "; };
    try
    {
      if (std::fabs(g.at("ts").get<double>() - w.l->us) > 0.45) return at() + "has a wrong time";
      if (g.at("pid").get<long long>() != w.l->pid) return at() + "has a wrong process";
      if (g.at("tid").dump() != std::to_string(w.l->tid)) return at() + "has a wrong thread, should be " + std::to_string(w.l->tid);
      if (g.at("name").get<std::string>() != w.name) return at() + "is not named '" + w.name + "'";
      if (g.at("ph").get<std::string>() != kPh[w.l->kind]) return at() + "has a wrong phase";
      if (*kS[w.l->kind] && g.at("s").get<std::string>() != kS[w.l->kind]) return at() + "has a wrong scope";
      if (w.l->kind == 5)
      {
        auto args = g.at("args").get<std::map<std::string, long long>>();
        if (args != w.args) return at() + "should have the values " + json(w.args).dump(-1, ' ', false, json::error_handler_t::replace);
      }
    }
    catch (const json::exception& e) { return at() + "lacks something: " + e.what(); }
  }
  return "";
}
// Mappings for a few processes, as generated
inline std::map<int, Names> gen_names(Case& c, const std::vector<int>& pids, const std::vector<unsigned int>& ids)
{
  static const std::vector<std::string> pool = { "c/a", "c/b", "c/c", "c", "d/a", "d/b", "c/", "work", "caf\xc3\xa9/\xe2\x82\xac", "a b",
    std::string(40, 'c') + "1/a", std::string(40, 'c') + "2/a", std::string(40, 'c') + "2/b", "a b/" + std::string(300, 's') };
  std::map<int, Names> r;
  const std::size_t nn = c.draw(16);
  for (std::size_t i = 0; i < nn; i++)
  {
    int pid = c.pick(pids);
    unsigned id = c.pick(ids);
    std::string name = c.chance(1, 8) ? any_name(c) : c.pick(pool);
    auto s = name.find('/');
    if (s != std::string::npos) for (std::size_t k = s + 1; k < name.size(); k++) if (name[k] == '/') name[k] = '_';
    r[pid][id] = name;
  }
  return r;
}
}  // namespace vf
#endif
