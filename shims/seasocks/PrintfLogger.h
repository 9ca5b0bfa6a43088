#ifndef VERIF_SEASOCKS_PRINTFLOGGER_H
#define VERIF_SEASOCKS_PRINTFLOGGER_H
#include "Logger.h"
namespace seasocks { class PrintfLogger : public Logger { public: explicit PrintfLogger(Level = Level::Debug) {} }; }
#endif
