#ifndef VERIF_SEASOCKS_LOGGER_H
#define VERIF_SEASOCKS_LOGGER_H
#include <memory>
#include <string>
namespace seasocks
{
class Logger
{
public:
  virtual ~Logger() = default;
  enum class Level { Debug, Access, Info, Warning, Error, Severe };
  virtual void log(Level, const char*) {}
};
}
#endif
