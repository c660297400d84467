// SRCS: Threads.cpp Timeval.cpp Logger.cpp Utils.cpp Configuration.cpp sqlite3util.cpp
// LIBS: -lsqlite3 -ldl
#include "drv.h"
#include <pthread.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include "Threads.h"
#include "Configuration.h"
#undef BAD
static char g_msg[500];
#define BAD(...) do{ snprintf(g_msg,sizeof g_msg,__VA_ARGS__); return 1; }while(0)
ConfigurationTable gConfig;
// The mutexes under test live in g_mem; their pthread calls are simulated here: hold counts of this thread, and a script of outcomes of the attempts.
static const int N=4; alignas(16) static char g_mem[N][sizeof(Mutex)]; alignas(16) static char g_slm[sizeof(ScopedLockMultiple)+16];
static int g_depth[N+2]; static bool g_alive[N+2]; static int g_kind[N+2]; static std::vector<uint64_t> g_script; static size_t g_pos; static const char*g_bad; static bool g_rec=true;
static char g_snap[sizeof(Mutex)]; static int g_snapof=-1; static int g_made; static int g_taken;
static int slot(const void*p){ for(int k=0;k<N;k++) if((char*)p>=g_mem[k]&&(char*)p<g_mem[k]+sizeof(Mutex)) return k; if((char*)p>=g_slm&&(char*)p<g_slm+sizeof g_slm) return N; return (char*)p>=(char*)&gStreamLock&&(char*)p<(char*)(&gStreamLock+1)?N+1:-1; }
static Mutex*mtx(int k){ return k<N?(Mutex*)g_mem[k]:k==N?(Mutex*)g_slm:&gStreamLock; }
static void settle(){ if(g_snapof>=0&&g_depth[g_snapof]==0&&memcmp(g_snap,mtx(g_snapof),sizeof(Mutex))) g_bad="the lock record was changed while the lock was not held"; g_snapof=-1; }
static void snap(int k){ settle(); if(g_depth[k]==0){ g_snapof=k; memcpy(g_snap,(void*)mtx(k),sizeof(Mutex)); } }
static void take(int k){ settle(); if(g_depth[k]==0&&mtx(k)->lockcnt()!=0) g_bad="the lock count is not 0 when a free lock is taken"; g_depth[k]++; g_taken++; }
static bool outcome(){ return g_pos<g_script.size()?g_script[g_pos++]&1:true; }
template<class F> static F real(F,const char*n){ return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a) noexcept { int k=slot(m); if(k<0||k==N+1) return real(&pthread_mutex_init,"pthread_mutex_init")(m,a); if(g_alive[k]) g_bad="mutex initialised twice"; g_alive[k]=true; g_kind[k]=0; if(a) pthread_mutexattr_gettype(a,&g_kind[k]); g_made++; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m) noexcept { int k=slot(m); if(k<0||k==N+1) return real(&pthread_mutex_destroy,"pthread_mutex_destroy")(m); settle(); if(!g_alive[k]) g_bad="mutex destroyed twice"; if(g_depth[k]) g_bad="mutex destroyed while held"; g_alive[k]=false; return 0; }
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { int k=slot(m); static auto f=real(&pthread_mutex_lock,"pthread_mutex_lock"); if(k<0) return f(m); take(k); return 0; }
int pthread_mutex_trylock(pthread_mutex_t*m) noexcept { int k=slot(m); static auto f=real(&pthread_mutex_trylock,"pthread_mutex_trylock"); if(k<0) return f(m); if(outcome()){ take(k); return 0; } snap(k); return 16; }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*t) noexcept { int k=slot(m); static auto f=real(&pthread_mutex_timedlock,"pthread_mutex_timedlock"); if(k<0) return f(m,t); if(outcome()){ take(k); return 0; } snap(k); return 110; }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { int k=slot(m); static auto f=real(&pthread_mutex_unlock,"pthread_mutex_unlock"); if(k<0) return f(m); settle(); if(g_depth[k]<=0){ g_bad="unlock of a mutex that is not held"; return 1; } if(--g_depth[k]==0&&mtx(k)->lockcnt()!=0) g_bad="the lock count is not 0 when the lock is given up"; snap(k); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept; 
}
struct RwLog { int wr=0,rd=0,twr=0,trd=0,un=0,init=0,destroy=0; }; static RwLog g_rw;
extern "C" {
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept { g_rw.wr++; return 0; } int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { g_rw.rd++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t*) noexcept { bool o=outcome(); g_rw.twr++; return o?0:16; } int pthread_rwlock_tryrdlock(pthread_rwlock_t*) noexcept { bool o=outcome(); g_rw.trd++; return o?0:16; }
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept { g_rw.un++; return 0; } 
int pthread_rwlock_init(pthread_rwlock_t*,const pthread_rwlockattr_t*) noexcept { g_rw.init++; return 0; } int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { g_rw.destroy++; return 0; }
}
static int rw(uint64_t want){ g_rw=RwLog(); g_script={want}; g_pos=0; 
  { RWLock l; if(g_rw.init!=1) BAD("rwlock initialised %d times",g_rw.init); l.wlock(); l.rlock(); l.unlock(); if(g_rw.wr!=1||g_rw.rd!=1||g_rw.un!=1) BAD("rwlock operations: %d %d %d",g_rw.wr,g_rw.rd,g_rw.un);
    if(l.trywlock()!=(want&1)||g_rw.twr!=1||g_rw.trd) BAD("trywlock"); g_pos=0; if(l.tryrlock()!=(want&1)||g_rw.trd!=1||g_rw.twr!=1||g_rw.wr!=1||g_rw.rd!=1||g_rw.un!=1) BAD("tryrlock"); }
  if(g_rw.destroy!=1) BAD("rwlock destroyed %d times",g_rw.destroy); return 0; }
static void scope(Mutex&m,bool file,bool thr,int*in,bool named){ try { if(file){ ScopedLock l(m,"a.cpp",3); *in=m.lockcnt(); if(thr) throw 1; } else { ScopedLock l(m); *in=m.lockcnt(); if(thr) throw 1; } } catch(int){} }
// history on one mutex: code%10: 0 lock 1 lock with location 2 trylock 3 trylock with location 4 timed lock 5,6,7 unlock (when held) 8 scope 9 scope that throws
static int hist(const std::vector<uint64_t>&ops){
  int w=0; Mutex*m=new(g_mem[0])Mutex; if(!g_alive[0]||g_kind[0]!=PTHREAD_MUTEX_RECURSIVE) BAD("mutex is not initialised as a recursive mutex");
  for(auto o:ops){ int k=o%10; size_t p=g_pos; bool ok=p<g_script.size()?g_script[p]&1:true,r=true; const char*f=o&1024?"b.cpp":0; int t0=g_taken;
    if(k==0) m->lock(); else if(k==1) m->lock("c.cpp",9); else if(k==2||k==3) r=m->trylock(k==3?"d.cpp":f,4); else if(k==4) r=m->timedlock((o>>16)%100000);
    else if(k<=7){ if(!w) continue; m->unlock(); w--; }
    else { int in=-1; scope(*m,f!=0,k==9,&in,true); if(in!=w+1) BAD("lock count %d inside a scope, expected %d",in,w+1); }
    settle(); if(g_bad) BAD("%s",g_bad);
    if(k>=2&&k<=4){ if(r!=ok) BAD("attempt returned %d although it %s the lock",r,ok?"took":"did not take"); w+=ok; } else if(k<2) w++;
    if(g_depth[0]!=w) BAD("mutex is held %d times, expected %d",g_depth[0],w); if(w&&m->lockcnt()!=w) BAD("lock count %d, expected %d",m->lockcnt(),w);
    if(w&&w<9){ std::string t=m->mutext(); if(t.size()<8||t.compare(0,8,"lockcnt=")) BAD("mutext %s",t.c_str()); if(k==1&&w<=5&&t.find("c.cpp:9")==std::string::npos) BAD("mutext lacks the location: %s",t.c_str()); } }
  while(w){ m->unlock(); w--; if(g_bad) BAD("%s",g_bad); if(g_depth[0]!=w) BAD("mutex is held %d times, expected %d",g_depth[0],w); }
  if(m->lockcnt()) BAD("lock count at the end"); m->~Mutex(); if(g_alive[0]) BAD("mutex is not destroyed"); if(g_bad) BAD("%s",g_bad); return 0; }
static int multi(int n,int own,int file,int flags){
  for(int k=0;k<3;k++){ new(g_mem[k])Mutex; if(k<n&&(own>>k&1)) mtx(k)->lock(); } Mutex&a=*mtx(0),&b=*mtx(1),&c=*mtx(2); int o=own|flags<<3; ScopedLockMultiple*s=(ScopedLockMultiple*)g_slm;
  if(n==3) file?new(g_slm)ScopedLockMultiple(o,a,b,c,"e.cpp",5):new(g_slm)ScopedLockMultiple(o,a,b,c); else file?new(g_slm)ScopedLockMultiple(o,a,b,"e.cpp",5):new(g_slm)ScopedLockMultiple(o,a,b);
  settle(); if(g_bad) BAD("%s",g_bad);
  for(int k=0;k<3;k++){ int w=k<n; if(g_depth[k]!=w) BAD("inside: mutex %c is held %d times, expected %d",'A'+k,g_depth[k],w); if(w&&mtx(k)->lockcnt()!=1) BAD("inside: lock count of %c is %d",'A'+k,mtx(k)->lockcnt()); }
  s->~ScopedLockMultiple(); settle(); if(g_bad) BAD("%s",g_bad); if(g_alive[N]) BAD("the internal mutex is not destroyed");
  for(int k=0;k<3;k++){ int w=k<n&&(own>>k&1); if(g_depth[k]!=w) BAD("afterwards: mutex %c is held %d times, expected %d",'A'+k,g_depth[k],w); if(mtx(k)->lockcnt()!=w) BAD("afterwards: lock count of %c is %d",'A'+k,mtx(k)->lockcnt()); if(w) mtx(k)->unlock(); mtx(k)->~Mutex(); }
  if(g_bad) BAD("%s",g_bad); return 0; }
static int stream(){ std::ostringstream n; auto*o=std::cout.rdbuf(n.rdbuf()); auto*e=std::cerr.rdbuf(n.rdbuf()); int r=0; g_depth[N+1]=0;
  lockCout(); if(g_depth[N+1]!=1) r=1; std::cout<<"x"; unlockCout(); if(g_depth[N+1]) r=2; lockCerr(); if(g_depth[N+1]!=1) r=3; unlockCerr(); if(g_depth[N+1]) r=4; std::cout.rdbuf(o); std::cerr.rdbuf(e); if(r) BAD("stream lock, step %d",r); if(g_bad) BAD("%s",g_bad); return 0; }
static void fresh(const std::vector<uint64_t>&v){ memset(g_depth,0,sizeof g_depth); for(int k=0;k<=N;k++) g_alive[k]=false; g_bad=0; g_snapof=-1; g_taken=0; g_script=v; g_pos=0; }
static int run(const In&in){
  std::string op=in.s("op"); int h=in.i("held"),f=in.i("file"); std::vector<uint64_t> script=in.a("outcomes"); fresh(script);
  if(op=="multi"){ int n=in.i("n",3)==2?2:3,own=in.i("own")&((1<<n)-1); if(in.has("outcomes")) return multi(n,own,f,in.i("flags")&0xffff);
    for(unsigned x=0;x<4096;x++){ std::vector<uint64_t> v; for(int k=0;k<12;k++) v.push_back(x>>k&1); fresh(v); if(multi(n,own,f,0)) return 1; } return 0; }
  if(op=="stream") return stream();
  if(op=="rw") return rw(1)||rw(0);
  if(in.has("ops")) return hist(in.a("ops"));
  // one operation of a mutex already held h times: every kind of outcome and of scope end
  for(int v=0;v<4;v++){ std::vector<uint64_t> o,s; for(int k=0;k<h&&k<1000;k++){ o.push_back(k&1); if(k&1) s.push_back(1); } s.push_back(v&1);
    if(op=="lock") o.push_back(f); else if(op=="trylock") o.push_back(2+f); else if(op=="timedlock") o.push_back(4); else if(op=="unlock") o.push_back(5); else if(op=="sctor"||op=="sdtor"||op=="body") o.push_back(f?1024+4+(v>>1)+0*8:8+(v>>1));
    if(f&&o.back()>=1028){ uint64_t x=1024; while(x%10!=8+(uint64_t)(v>>1)||!(x&1024)) x++; o.back()=x; }
    fresh(s); if(hist(o)) return 1; }
  return 0; }
static int one(const In&in){ // the library prints warnings about slow locks: keep them out of the output
  fflush(stdout); int sv=dup(1),nl=open("/dev/null",1); dup2(nl,1); close(nl); g_msg[0]=0; int r=run(in); fflush(stdout); std::cout.flush(); dup2(sv,1); close(sv); if(r) printf("VIOLATED: %s\n",g_msg); return r; }
static In gen(Rng&r,const std::string&h){ In i; int k=r.below(h.find("Multiple")!=std::string::npos?2:12); std::vector<uint64_t> s; uint64_t n=r.below(30); for(uint64_t j=0;j<n;j++) s.push_back(r.flip()); i.arr("outcomes",s);
  if(k<=1){ i.sets("op","multi"); i.set("n",2+r.below(2)); i.set("own",r.below(8)); i.set("file",r.below(2)); i.set("flags",r.below(4)==0?r.u()&0xfff:0); }
  else if(k==2) i.sets("op",r.flip()?"stream":"rw");
  else { i.sets("op","hist"); std::vector<uint64_t> o; n=r.below(14); if(r.below(100)==0) n=100; for(uint64_t j=0;j<n;j++){ uint64_t x=r.u()>>8; if(r.below(3)==0) x=x/10*10+r.below(5); o.push_back(x); } i.arr("ops",o); }
  return i; }
