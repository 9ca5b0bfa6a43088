// C08: names of threads and processes.
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include "fakes.h"

using namespace vf;
using scalopus::EndpointProcessInfo;
using Info = EndpointProcessInfo::ProcessInfo;
using Threads = std::map<unsigned long, std::string>;

struct Process
{
  Info info;
  int mood{ 0 };
  Data nonsense;
  FakeTransport::Ptr t;
};
static std::string key(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

static void run(Case& c)
{
  Threads model;
  std::string process_name;
  const int kind = static_cast<int>(c.draw(3));
  c.out() << (kind == 0 ? "direct:" : kind == 1 ? "loopback:" : "unix:");
  auto endpoint = std::make_shared<EndpointProcessInfo>();
  scalopus::TransportFactory::Ptr factory;
  scalopus::Transport::Ptr server, client;
  if (kind == 0)
  {
    auto ft = std::make_shared<FakeTransport>(FakeTransport::Answer());
    auto* raw = ft.get();
    ft->answer = [endpoint, raw](const std::string& n, const Data& in, Data& out) { return n == EndpointProcessInfo::name && endpoint->handle(*raw, in, out); };
    client = ft;
  }
  else
  {
    if (kind == 1) factory = std::make_shared<scalopus::TransportLoopbackFactory>();
    else factory = std::make_shared<scalopus::TransportUnixFactory>();
    server = factory->serve();
    if (!server) c.fail("could not serve");
    server->addEndpoint(endpoint);
    client = factory->connect(server->getAddress());
    if (!client) c.fail("could not connect");
  }
  auto consumer = EndpointProcessInfo::factory(client);
  auto manager = std::make_shared<FakeManager>();
  bool own_connected = c.boolean();
  if (own_connected) manager->add<EndpointProcessInfo>(client);
  auto provider = std::make_shared<scalopus::GeneralProvider>(manager);
  auto source = provider->makeSource();
  std::vector<std::unique_ptr<Process>> procs;
  std::vector<std::unique_ptr<Actor>> threads;
  std::vector<unsigned long> ended;
  std::size_t reused = 0, asked = 0, gone = 0;
  std::string err;
  bool soft = false;
  const std::size_t n = 2 + c.size(30);
  for (std::size_t i = 0; i < n && err.empty(); i++)
  {
    switch (c.draw(9))
    {
      case 0:
        if (threads.size() < 6)
        {
          c.out() << " thread";
          threads.emplace_back(new Actor());
          if (std::find(ended.begin(), ended.end(), threads.back()->tid()) != ended.end()) reused++;
        }
        break;
      case 1:
        if (!threads.empty())
        {
          std::size_t k = c.draw(threads.size());
          c.out() << " end" << k;
          unsigned long tid = threads[k]->tid();
          threads[k]->finish();
          threads.erase(threads.begin() + static_cast<long>(k));
          if (model.erase(tid)) gone++;
          ended.push_back(tid);
        }
        break;
      case 2:
      case 3:
        if (!threads.empty())
        {
          std::size_t k = c.draw(threads.size());
          std::string name = any_name(c);
          c.out() << " name" << k << "='" << pbt::esc(name.substr(0, 12)) << "'";
          threads[k]->run([&] { scalopus::ThreadNameTracker::getInstance().setCurrentName(name); });
          model[threads[k]->tid()] = name;
        }
        break;
      case 4:
        if (!threads.empty())
        {
          // the macro names each thread that comes across it once
          std::size_t k = c.draw(threads.size());
          const int which = static_cast<int>(c.draw(3));
          c.out() << " macro" << k << "/" << which;
          unsigned long tid = threads[k]->tid();
          static thread_local std::set<int> dummy;
          bool first = false;
          threads[k]->run([&] {
            static thread_local bool done[3] = { false, false, false };
            first = !done[which];
            done[which] = true;
            if (which == 0) { TRACE_THREAD_NAME("macro 0"); }
            else if (which == 1) { TRACE_THREAD_NAME(std::string("macro 1")); }
            else { TRACE_THREAD_NAME("macro \xc3\xa9"); }
          });
          if (first) model[tid] = which == 0 ? "macro 0" : which == 1 ? "macro 1" : "macro \xc3\xa9";
        }
        break;
      case 5:
        process_name = any_name(c);
        c.out() << " process='" << pbt::esc(process_name.substr(0, 12)) << "'";
        endpoint->setProcessName(process_name);
        break;
      case 6:
        if (procs.size() < 4 && c.boolean())
        {
          std::unique_ptr<Process> p(new Process());
          p->info.pid = static_cast<int>(1 + c.draw(1u << 22));
          bool dup = p->info.pid == ::getpid();
          for (auto& q : procs) dup |= q->info.pid == p->info.pid;
          if (dup) break;
          p->info.name = any_name(c);
          const std::size_t nt = c.draw(4);
          for (std::size_t t = 0; t < nt; t++) p->info.threads[c.seed64() >> (1 + c.draw(60))] = any_name(c);
          Process* raw = p.get();
          p->t = std::make_shared<FakeTransport>([raw](const std::string& name, const Data& in, Data& out) {
            if (name != EndpointProcessInfo::name || raw->mood == 3) return false;
            if (raw->mood == 2) { out = raw->nonsense; return true; }
            if (json::from_bson(in).at("cmd") != "info") return false;
            json j = json::object();
            j["pid"] = raw->info.pid;
            j["name"] = raw->info.name;
            j["threads"] = raw->info.threads;
            out = json::to_bson(j);
            return true;
          });
          manager->add<EndpointProcessInfo>(p->t);
          c.out() << " other";
          procs.push_back(std::move(p));
        }
        else if (!procs.empty())
        {
          auto& p = procs[c.draw(procs.size())];
          p->mood = static_cast<int>(c.chance(1, 20) ? 3 : c.draw(3));
          p->t->up = p->mood != 1;
          if (p->mood == 2)
            p->nonsense = nonsense_answer(c, "threads", json{ { "pid", p->info.pid }, { "name", p->info.name }, { "threads", p->info.threads } });
          c.out() << " mood" << p->mood;
        }
        break;
      case 7:
      {
        c.out() << " info";
        Info got;
        got.pid = 0;
        if (!eventually([&] { got = consumer->processInfo(); return got.pid == ::getpid(); }, 5)) soft = true, err = "the process info carries the process id " + std::to_string(got.pid);
        else if (got.name != process_name) err = "the process name is '" + got.name + "'";
        else if (got.threads != model)
        {
          err = "thread names:";
          for (auto& t : got.threads) err += " " + std::to_string(t.first) + "=" + pbt::esc(t.second.substr(0, 20));
          err += " instead of";
          for (auto& t : model) err += " " + std::to_string(t.first) + "=" + pbt::esc(t.second.substr(0, 20));
        }
        asked++;
        break;
      }
      default:
      {
        c.out() << " events";
        std::multiset<std::string> want;
        auto add = [&](int pid, const std::string& name, const Threads& ts) {
          want.insert(key(json{ { "ph", "M" }, { "name", "process_name" }, { "pid", pid }, { "args", { { "name", name } } } }));
          for (auto& t : ts) want.insert(key(json{ { "ph", "M" }, { "name", "thread_name" }, { "pid", pid }, { "tid", t.first }, { "args", { { "name", t.second } } } }));
        };
        if (own_connected) add(::getpid(), process_name, model);
        for (auto& p : procs) if (p->mood == 0) add(p->info.pid, p->info.name, p->info.threads);
        std::multiset<std::string> got;
        // processes that did not answer in time are missing: ask again
        for (int tries = 0; tries < 10; tries++)
        {
          std::vector<json> events;
          source->startInterval();
          try { events = source->finishInterval(); }
          catch (const std::exception& e) { err = std::string("a process that can not be asked aborts the recording: ") + e.what(); break; }
          got.clear();
          for (auto e : events)
          {
            if (e["name"] == "process_name") e.erase("tid");
            e.erase("cat");
            e.erase("ts");
            got.insert(key(e));
          }
          if (got == want) break;
        }
        if (err.empty() && got != want)
        {
          soft = true;
          err = "metadata events:";
          for (auto& e : got) if (!want.count(e)) err += " unexpected " + e.substr(0, 200);
          for (auto& e : want) if (!got.count(e)) err += " missing " + e.substr(0, 200);
          if (got.size() != want.size()) err += " " + std::to_string(got.size()) + " instead of " + std::to_string(want.size());
        }
        asked++;
      }
    }
  }
  threads.clear();
  client.reset();
  if (!err.empty()) { if (soft) c.fail_soft(err); c.fail(err); }
  c.label("threads with the id of an ended one", reused);
  c.label("named threads that ended", gone);
  if (asked && (!model.empty() || gone)) c.nontrivial();
}
PBT_MAIN(run)
