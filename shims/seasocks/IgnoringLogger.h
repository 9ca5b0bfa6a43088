#ifndef VERIF_SEASOCKS_IGNORINGLOGGER_H
#define VERIF_SEASOCKS_IGNORINGLOGGER_H
#include "Logger.h"
namespace seasocks { class IgnoringLogger : public Logger {}; }
#endif
