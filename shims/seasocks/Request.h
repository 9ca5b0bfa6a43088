#ifndef VERIF_SEASOCKS_REQUEST_H
#define VERIF_SEASOCKS_REQUEST_H
#include <string>
namespace seasocks
{
class Request
{
public:
  virtual ~Request() = default;
  virtual const std::string& getRequestUri() const = 0;
};
}
#endif
