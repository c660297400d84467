// makes the inline members of Timeval appear in the IR; no logic of its own
#include "Timeval.h"
long tu_tv(Timeval&a,const struct timeval&t,unsigned s,unsigned u){ Timeval b(s,u),c(t),d,e(s); a.now(); a.addMinutes(s); (void)a.sec(); (void)a.usec(); return a.elapsed()+a.remaining()+b.sec()+c.sec()+d.sec()+e.sec(); }
