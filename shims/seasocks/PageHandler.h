#ifndef VERIF_SEASOCKS_PAGEHANDLER_H
#define VERIF_SEASOCKS_PAGEHANDLER_H
#include "Request.h"
#include "Response.h"
namespace seasocks
{
class PageHandler
{
public:
  virtual ~PageHandler() = default;
  virtual std::shared_ptr<Response> handle(const Request& request) = 0;
};
}
#endif
