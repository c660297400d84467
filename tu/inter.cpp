// makes the inline members and template instances appear in the IR; no logic of its own
#include "Interthread.h"
struct Elem { int v; bool operator>(const Elem&o) const { return v>o.v; } };
typedef InterthreadQueue<Elem> Q; typedef InterthreadQueueWithWait<Elem> W; typedef InterthreadPriorityQueue<Elem> R; typedef InterthreadMap<int,Elem> M; typedef InterthreadMap1<int,Elem*> M1;
void tu_q(Q&q,Q&o,Elem*e,unsigned t){ Q n; q.iqConnect(o); q.clear(); q.flushNoDelete(); q.size(); q.iqWaitForEither(o,t); q.read(); q.read(t); q.readNoBlock(); q.front(); q.write(e); q.write_front(e); q.qGetLock(); q.begin(); q.end(); const Q&c=q; c.begin(); c.end(); }
void tu_w(W&q,Elem*e,unsigned t){ W n; q.clear(); q.size(); q.read(); q.read(t); q.readNoBlock(); q.write(e); q.wait(t); }
void tu_r(R&q,Elem*e,unsigned t){ R n; q.clear(); q.size(); q.readNoBlock(); q.read(); q.read(t); q.peek(); q.write(e); }
void tu_m(M&q,Elem*e,unsigned t,int k){ M n; M1 n1; q.write(k,e); q.size(); Elem*r; q.getNoBlock(k,r,true); q.get(k,r,t,true); q.get(k,r,true); q.remove(k); q.readNoBlock(k); q.read(k,t); q.read(k); q.qGetLock(); q.begin(); q.end(); }
void tu_s(){ Semaphore s; s.post(); s.get(); s.semtry(); }
