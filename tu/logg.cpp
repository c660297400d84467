// one use of the logging macro per level with a group; no logic of its own
#include <syslog.h>
#define LOG_GROUP LogGroup::GSM
#include "Logger.h"
#define USEG(L) void tu_gsay_##L() { LOG(L); }
USEG(EMERG) USEG(ALERT) USEG(CRIT) USEG(ERR) USEG(WARNING) USEG(NOTICE) USEG(INFO) USEG(DEBUG)
