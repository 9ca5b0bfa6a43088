// Stand-in for seasocks' Server: one loop thread executes runnables in order, exactly as seasocks does; connections and
// messages are injected by a harness. Nothing touches the network.
#ifndef VERIF_SEASOCKS_SERVER_H
#define VERIF_SEASOCKS_SERVER_H
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "Logger.h"
#include "PageHandler.h"
#include "WebSocket.h"
namespace seasocks
{
class Server
{
public:
  using Executable = std::function<void()>;
  explicit Server(std::shared_ptr<Logger> logger) : logger_(std::move(logger))
  {
    std::lock_guard<std::mutex> l(registryMutex());
    registry().insert(this);
  }
  ~Server()
  {
    std::lock_guard<std::mutex> l(registryMutex());
    registry().erase(this);
  }
  void setClientBufferSize(size_t s) { client_buffer_ = s; }
  void addWebSocketHandler(const char* endpoint, std::shared_ptr<WebSocket::Handler> handler, bool = false)
  {
    ws_[endpoint] = std::move(handler);
  }
  void addPageHandler(std::shared_ptr<PageHandler> handler) { pages_.push_back(std::move(handler)); }
  bool startListening(int port)
  {
    port_ = port;
    if (const char* f = std::getenv("SEASOCKS_SHIM_PORTFILE"))
    {
      if (FILE* o = std::fopen(f, "w")) { std::fprintf(o, "%d\n", port); std::fclose(o); }
    }
    return true;
  }
  bool startListening(uint32_t, int port) { return startListening(port); }
  void execute(Executable e)
  {
    std::lock_guard<std::mutex> l(m_);
    q_.push_back(std::move(e));
    cv_.notify_all();
  }
  void loop()
  {
    std::unique_lock<std::mutex> l(m_);
    while (!terminate_)
    {
      // as the real event loop does: take what is queued, run it, look for more
      cv_.wait(l, [&] { return terminate_ || !q_.empty(); });
      if (terminate_) break;
      std::deque<Executable> now;
      now.swap(q_);
      l.unlock();
      for (auto& e : now) e();
      now.clear();
      l.lock();
    }
    // seasocks shuts its connections down when the loop ends.
    l.unlock();
    if (on_loop_end) on_loop_end();
  }
  void terminate()
  {
    std::lock_guard<std::mutex> l(m_);
    terminate_ = true;
    cv_.notify_all();
  }
  // ---- harness side
  static std::mutex& registryMutex() { static std::mutex m; return m; }
  static std::set<Server*>& registry() { static std::set<Server*> s; return s; }
  std::map<std::string, std::shared_ptr<WebSocket::Handler>> ws_;
  std::vector<std::shared_ptr<PageHandler>> pages_;
  int port_{ -1 };
  size_t client_buffer_{ 0 };
  std::function<void()> on_loop_end;
private:
  std::shared_ptr<Logger> logger_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<Executable> q_;
  bool terminate_{ false };
};
}
#endif
