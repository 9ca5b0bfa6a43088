#ifndef VERIF_SEASOCKS_RESPONSE_H
#define VERIF_SEASOCKS_RESPONSE_H
#include <memory>
#include <string>
namespace seasocks
{
enum class ResponseCode { NotFound = 404, Ok = 200 };
class Response
{
public:
  virtual ~Response() = default;
  static std::shared_ptr<Response> unhandled() { return nullptr; }
  static std::shared_ptr<Response> htmlResponse(const std::string& s)
  {
    auto r = std::make_shared<Response>();
    r->body = s;
    r->contentType = "text/html";
    return r;
  }
  static std::shared_ptr<Response> textResponse(const std::string& s) { auto r = htmlResponse(s); r->contentType = "text/plain"; return r; }
  static std::shared_ptr<Response> jsonResponse(const std::string& s) { auto r = htmlResponse(s); r->contentType = "application/json"; return r; }
  std::string body, contentType;
};
}
#endif
