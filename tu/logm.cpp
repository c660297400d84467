// one use of the logging macro per level; no logic of its own
#include "Logger.h"
#define USE(L) void tu_say_##L() { LOG(L); }
USE(EMERG) USE(ALERT) USE(CRIT) USE(ERR) USE(WARNING) USE(NOTICE) USE(INFO) USE(DEBUG)
