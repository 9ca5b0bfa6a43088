#ifndef VERIF_SEASOCKS_WEBSOCKET_H
#define VERIF_SEASOCKS_WEBSOCKET_H
#include <cstddef>
#include <cstdint>
#include <string>
#include "Request.h"
namespace seasocks
{
class WebSocket : public Request
{
public:
  virtual void send(const char* data) = 0;
  virtual void send(const uint8_t* data, size_t length) = 0;
  void send(const std::string& data) { send(data.c_str()); }
  virtual void close() = 0;
  class Handler
  {
  public:
    virtual ~Handler() = default;
    virtual void onConnect(WebSocket* connection) = 0;
    virtual void onData(WebSocket*, const char*) {}
    virtual void onData(WebSocket*, const uint8_t*, size_t) {}
    virtual void onDisconnect(WebSocket* connection) = 0;
  };
protected:
  WebSocket() = default;
  virtual ~WebSocket() = default;
};
}
#endif
