// Stand-ins for processes on the other side of a transport.
#ifndef VERIF_FAKES_H
#define VERIF_FAKES_H
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_interface/exceptions.h>
#include <nlohmann/json.hpp>
#include "common.h"

namespace vf
{
using nlohmann::json;

// A transport that answers requests at once from a function: nullopt-like (false) means no answer.
class FakeTransport : public scalopus::Transport
{
public:
  using Ptr = std::shared_ptr<FakeTransport>;
  using Answer = std::function<bool(const std::string&, const Data&, Data&)>;
  explicit FakeTransport(Answer a) : answer(std::move(a)) {}
  PendingResponse request(const std::string& name, const Data& out) override
  {
    requests++;
    std::promise<Data> p;
    Data d;
    if (!up)
      p.set_exception(std::make_exception_ptr(scalopus::communication_error("Connection lost.")));
    else if (answer(name, out, d))
      p.set_value(d);
    else
    {
      silent.push_back(std::move(p));
      return std::make_shared<std::future<Data>>(silent.back().get_future());
    }
    return std::make_shared<std::future<Data>>(p.get_future());
  }
  std::size_t pendingRequests() const override { return 0; }
  bool isConnected() const override { return up; }
  Answer answer;
  std::atomic<bool> up{ true };
  std::atomic<int> requests{ 0 };
  std::deque<std::promise<Data>> silent;
};

class FakeManager : public scalopus::EndpointManager
{
public:
  TransportEndpoints endpoints() const override { std::lock_guard<std::mutex> l(m); return te; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  template <typename E>
  void add(const scalopus::Transport::Ptr& t)
  {
    auto e = E::factory(t);
    std::lock_guard<std::mutex> l(m);
    te[t][E::name] = e;
  }
  void remove(const scalopus::Transport::Ptr& t) { std::lock_guard<std::mutex> l(m); te.erase(t); }
  TransportEndpoints te;
  mutable std::mutex m;
};

// Documents (or arrays) nested any number of levels deep, with lengths that are right.
inline Data deep_bson(Case& c)
{
  const std::size_t n = c.draw(4) ? 1 + c.draw(200) : 1000 + c.draw(250000);
  const std::uint8_t type = c.boolean() ? 3 : 4;
  Data d;
  d.reserve(5 + n * 8);
  for (std::size_t i = 0; i <= n; i++)
  {
    const std::uint32_t len = static_cast<std::uint32_t>(5 + (n - i) * 8);
    for (int b = 0; b < 4; b++) d.push_back(static_cast<std::uint8_t>(len >> (8 * b)));
    if (i < n) { d.push_back(type); d.push_back('0'); d.push_back(0); }
  }
  d.insert(d.end(), n + 1, 0);
  return d;
}

// An answer that can not be what was asked for: "key" has to be there and to be neither a number nor a text.
inline Data nonsense_answer(Case& c, const std::string& key, const json& good)
{
  switch (c.draw(9))
  {
    case 0: return c.bytes(c.draw(4));
    case 1: return json::to_bson(json::object());
    case 2: return json::to_bson(json{ { key, 3 } });
    case 3: return json::to_bson(json{ { key, "x" } });
    case 4: return {};
    case 5: { json j = good; j[key] = json{ { "x", json::array({ 1, nullptr, "y" }) } }; return json::to_bson(j); }
    case 6: { json j = good; j.erase(key); return json::to_bson(j); }
    case 7: { Data d = json::to_bson(good); d.resize(c.draw(d.size())); return d; }  // cut off
    default: return deep_bson(c);
  }
}

// A text that is valid UTF-8 and may be anything a user calls something.
inline std::string any_name(Case& c, std::size_t max = 10)
{
  switch (c.draw(6))
  {
    case 0: return std::string();
    case 1: return std::string(c.draw(3000), 'x');
    case 2: { std::string s = c.text(max); s += std::string(1, '\0'); s += c.text(max); return s; }
    default: return c.text(max);
  }
}

// A thread that executes what it is given, in order, one at a time.
class Actor
{
public:
  Actor() : th([this] { loop(); }) {}
  ~Actor() { finish(); }
  void run(const std::function<void()>& f)
  {
    std::unique_lock<std::mutex> l(m);
    job = f;
    have = true;
    cv.notify_all();
    cv.wait(l, [this] { return !have; });
  }
  void finish()
  {
    if (!th.joinable()) return;
    {
      std::lock_guard<std::mutex> l(m);
      quit = true;
      cv.notify_all();
    }
    th.join();
  }
  unsigned long tid() { return static_cast<unsigned long>(th.native_handle()); }

private:
  void loop()
  {
    std::unique_lock<std::mutex> l(m);
    while (true)
    {
      cv.wait(l, [this] { return have || quit; });
      if (have)
      {
        auto j = job;
        l.unlock();
        j();
        l.lock();
        have = false;
        cv.notify_all();
      }
      else if (quit) return;
    }
  }
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool have{ false }, quit{ false };
  std::thread th;
};
}  // namespace vf
#endif
