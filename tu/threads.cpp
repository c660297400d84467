// makes the inline members appear in the IR; no logic of its own
#include <string.h>
#include <string>
#include "Threads.h"
void verif_may_throw();
void tu_scoped(Mutex&m){ ScopedLock l(m); verif_may_throw(); }
void tu_scoped_file(Mutex&m,const char*f){ ScopedLock l(m,f,7); verif_may_throw(); }
void tu_threads(Mutex&a,Mutex&b,Mutex&c){ ScopedLockMultiple x(0,a,b,c); ScopedLockMultiple y(0,a,b,c,"f",1); ScopedLockMultiple z(0,a,b); ScopedLockMultiple w(0,a,b,"f",1); RWLock r; r.wlock(); r.rlock(); r.trywlock(); r.tryrlock(); r.unlock(); a._lock(); a.lockcnt(); }
