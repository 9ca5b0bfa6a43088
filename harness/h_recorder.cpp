// C19: the recorder's life cycles.
#include <scalopus_catapult/catapult_recorder.h>
#include <sys/stat.h>
#include "sources.h"
using namespace vf;

namespace
{
struct Tmp
{
  std::string path;
  Tmp()
  {
    const char* base = std::getenv("VERIF_SCRATCH");
    path = std::string(base ? base : "/tmp") + "/rec.XXXXXX";
    if (!::mkdtemp(&path[0])) throw std::runtime_error("mkdtemp");
  }
  ~Tmp()
  {
    for (auto& f : files) ::unlink(f.c_str());
    ::rmdir(path.c_str());
  }
  std::string file(const std::string& n) { auto f = path + "/" + n; files.insert(f); return f; }
  std::set<std::string> files;
};
std::string slurp(const std::string& f)
{
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

void property(Case& c)
{
  Tmp tmp;
  auto log = std::make_shared<Log>();
  std::vector<std::shared_ptr<SourceState>> made;  // by the providers, in order
  std::vector<std::shared_ptr<SourceState>> expected_made;
  auto rec = std::make_shared<scalopus::CatapultRecorder>();
  std::vector<std::string> want_log;
  std::vector<std::shared_ptr<SourceState>> current;
  std::map<std::string, std::size_t> finished;
  unsigned providers = 0, made_total = 0, compared = 0, events_seen = 0;
  bool running = false;
  std::string dump;
  std::string history;
  const bool odd = c.chance(1, 3);
  const bool failing = c.chance(1, 6);
  unsigned fails = 0;

  // What every source will yield is decided when it is made, by choices made before.
  auto plan = std::make_shared<std::deque<std::pair<unsigned, std::vector<Yield>>>>();
  auto make = [&made, log, plan] {
    auto st = std::make_shared<SourceState>();
    st->who = "s" + std::to_string(made.size());
    st->log = log;
    if (!plan->empty()) { st->fails = plan->front().first; st->batches = plan->front().second; plan->pop_front(); }
    made.push_back(st);
    return st;
  };
  auto verify = [&](const std::string& text, const std::string& where) {
    json j;
    try { j = json::parse(text); }
    catch (const json::exception& e) { c.fail(where + ": not valid JSON: " + text.substr(0, 300) + " after " + history); }
    c.check(j.is_array(), where + ": not an array");
    std::vector<const Yield*> want;
    for (auto& s : current)
    {
      const auto k = finished[s->who]++;
      if (k < s->batches.size()) want.push_back(&s->batches[k]);
    }
    for (auto* y : want) events_seen += static_cast<unsigned>(y->events.size());
    const auto d = compare_events(std::vector<json>(j.begin(), j.end()), want);
    c.check(d.empty(), where + ": " + d + " after " + history);
    compared++;
  };
  auto all = [&](const char* what) { for (auto& s : current) want_log.push_back(s->who + what); };
  auto check_log = [&] {
    c.check(log->error().empty(), log->error());
    const auto got = log->get();
    if (got == want_log) return;
    // the order between sources is theirs to choose; what happens to each is not
    std::map<std::string, std::string> g, w;
    for (auto& e : got) g[e.substr(0, e.find(':'))] += e.substr(e.find(':')) + " ";
    for (auto& e : want_log) w[e.substr(0, e.find(':'))] += e.substr(e.find(':')) + " ";
    for (auto& e : made)
      c.check(g[e->who] == w[e->who], "source " + e->who + " got " + g[e->who] + "expected " + w[e->who] + "after " + history);
    c.check(g == w, "a source was used that is not expected after " + history);
    for (std::size_t i = 0; i < got.size(); i++) (void)i;
  };

  const auto n = 1 + c.draw(14);
  const bool usual = c.chance(2, 3);  // begins as recordings usually do
  for (std::uint64_t i = 0; i < n; i++)
  {
    switch (usual && i < 3 ? (i == 2 ? 2 : 0) : c.draw(11))
    {
      case 0:
      case 1:
        if (providers < 4)
        {
          rec->addProvider(std::make_shared<FakeProvider>(make));
          providers++;
          history += "add ";
        }
        break;
      case 2:
      case 3:
      {
        // batches for the sources to be made
        if (!running)
        {
          plan->clear();
          for (unsigned p = 0; p < providers; p++)
          {
            std::vector<Yield> b;
            for (int k = 0; k < 3; k++)
            {
              std::size_t size = c.draw(4) == 3 ? c.draw(2200) : c.draw(4);
              b.push_back(make_batch(c, "s" + std::to_string(made_total + p) + "." + std::to_string(k), size, odd));
            }
            unsigned f = 0;
            if (failing && c.boolean()) { f = source_fails(c, b); fails++; }
            plan->emplace_back(f, std::move(b));
          }
        }
        rec->start();
        history += "start ";
        if (!running)
        {
          c.check(made.size() == made_total + providers, "starting made " + std::to_string(made.size() - made_total) + " sources of " + std::to_string(providers) + " providers after " + history);
          made_total += providers;
          for (auto& s : current) c.check(!s->alive, "a source of an earlier start is kept after " + history);
          current.assign(made.end() - providers, made.end());
          running = true;
        }
        else c.check(made.size() == made_total, "starting again made sources after " + history);
        break;
      }
      case 4: rec->startInterval(); all(":start"); history += "startInterval "; break;
      case 5: rec->stopInterval(); all(":stop"); history += "stopInterval "; break;
      case 6:
      {
        all(":stop");
        all(":finish");
        history += "collect ";
        verify(rec->collectEvents(), "collectEvents");
        break;
      }
      case 7:
      {
        all(":stop");
        all(":finish");
        auto f = tmp.file("w" + std::to_string(i % 2));
        history += "write ";
        rec->writeToFile(f);
        verify(slurp(f), "writeToFile");
        break;
      }
      case 8: rec->stop(); running = false; history += "stop "; break;
      case 9:
        switch (c.draw(4))
        {
          case 0:
          case 1: dump = tmp.file("dump"); break;
          case 2: dump = tmp.file("dump2"); break;
          default: dump = tmp.path + "/absent/dump"; break;
        }
        rec->setupDumpFile(dump);
        history += "dump ";
        break;
      case 10:
        // work is given while running, and none while not
        if (running)
        {
          std::vector<unsigned> before;
          for (auto& s : current) before.push_back(s->works);
          if (!eventually([&] { for (std::size_t k = 0; k < current.size(); k++) if (current[k]->works <= before[k]) return false; return true; }))
            c.fail_soft("a source is given no work after " + history);
        }
        else if (c.chance(1, 4))
        {
          std::vector<unsigned> before;
          for (auto& s : current) before.push_back(s->works);
          std::this_thread::sleep_for(milliseconds(25));
          for (std::size_t k = 0; k < current.size(); k++) c.check(current[k]->works == before[k], "work is given after " + history);
        }
        history += "work ";
        break;
    }
    check_log();
  }
  rec.reset();
  history += "destroy ";
  for (auto& s : made) c.check(!s->alive, "source " + s->who + " is kept after " + history);
  if (!dump.empty())
  {
    all(":stop");
    all(":finish");
    if (dump.find("absent") == std::string::npos) verify(slurp(dump), "dump file");
    else for (auto& f : tmp.files) if (f.find("dump") != std::string::npos && ::access(f.c_str(), F_OK) == 0) c.fail("a file other than the configured one was written after " + history);
  }
  check_log();
  c.out() << history << providers << " providers, " << made.size() << " sources, " << events_seen << " events" << (odd ? " with odd texts" : "") << (fails ? " " + std::to_string(fails) + " failing" : std::string()) << "; ";
  c.label("collected", compared);
  c.label("events", events_seen);
  c.label("sources that fail", fails);
  if (compared && made.size() && events_seen >= 2) c.nontrivial();
}
}  // namespace
PBT_MAIN(property)
