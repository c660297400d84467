// One thread runs the operation under test; everything the other threads do happens at the points where the real code lets them in: before it takes a
// lock, after it gives it up, and while it waits. Locks, conditions and the clock of the object under test are simulated, so every run is repeatable.
// What happened is compared with a reference container: some moment between call and return must explain all results and the final contents.
#include <pthread.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <deque>
#include <set>
#include <algorithm>
#include <iostream>
#include <sys/syscall.h>
#include "Interthread.h"
#include "Configuration.h"
ConfigurationTable gConfig;
extern "C" int __lsan_is_turned_off(){ return 1; }      // elements are counted here; the nodes a PointerFIFO leaves behind are no matter of these properties
#undef BAD
static char g_msg[500];
#define BAD(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); return 1; }while(0)
#define FAIL(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); throw Stop(); }while(0)
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
struct Stop{};
static std::vector<int> g_freed;
struct Elem { int v; int pad; Elem(int x):v(x),pad(x){} ~Elem(){ if(v<0||v>=(int)g_freed.size()) { NOTE("something that is no element is deleted"); return; } g_freed[v]++; } bool operator>(const Elem&o) const { return v>o.v; } bool operator<(const Elem&o) const { return v<o.v; } };
typedef InterthreadQueue<Elem> Q; typedef InterthreadQueueWithWait<Elem> W; typedef InterthreadPriorityQueue<Elem> R; typedef InterthreadMap<int,Elem> M; typedef InterthreadMap1<int,Elem*> M1;
enum { MEM=1024 }; alignas(16) static char g_mem[2][MEM];
static bool g_on=false; static int g_who=0;
static std::map<const void*,int> g_depth; static std::set<const void*> g_mut,g_cond;
static std::vector<uint64_t> g_script; static size_t g_pos; static int g_locks,g_waits,g_rounds;
static uint64_t g_now=1700000000000000ull,g_first; static bool g_timed; static uint64_t g_timeout,g_limit;
static bool mine(const void*p){ return g_on&&(char*)p>=g_mem[0]&&(char*)p<g_mem[0]+sizeof g_mem; }
template<class F> static F real(F,const char*n){ return (F)dlsym(RTLD_NEXT,n); }
static void others(int where); static void woken(const void*c,bool all); static bool ready(); static void settle();
static const void*g_waitcond; static bool g_signalled; static void rescue(); static bool g_probe; static const void*g_asked; static const void*g_lk;
static bool idle(){ for(auto&d:g_depth) if(d.second) return false; return true; }
static int lock(const void*m){ int&d=g_depth[m]; if(!g_mut.count(m)) NOTE("lock of a mutex that does not exist"); if(g_who==0&&!d&&idle()) others(0); if(g_who==0&&(!g_lk||m==g_lk)) g_locks++; d++; if(g_who==0&&!g_script.empty()&&(g_script[g_pos%g_script.size()]>>24&7)==0) others(3); return 0; }
static int unlock(const void*m){ int&d=g_depth[m]; if(d<=0){ NOTE("unlock of a mutex that is not held"); return 1; } if(--d==0&&g_who==0){ settle(); if(idle()) others(1); } return 0; }
static uint64_t clk(){ g_now+=g_script.empty()?1:g_script[g_pos%g_script.size()]%3; if(g_who==0&&!g_first) g_first=g_now; return g_now; }
static int wait(const void*c,const void*m,const struct timespec*t){
  if(g_probe){ g_asked=c; throw Stop(); }
  if(g_who) { NOTE("waits in a non-blocking operation"); throw Stop(); }
  if(!g_cond.count(c)) FAIL("wait for a condition that does not exist"); if(g_depth[m]!=1) FAIL("waits while holding the lock %d times",g_depth[m]);
  for(auto&d:g_depth) if(d.first!=m&&d.second) FAIL("waits while holding another lock");
  if(++g_waits>60) FAIL("does not return although its condition was met again and again"); if(ready()) FAIL("waits although its condition is met");
  uint64_t abs=0;
  if(t){ if(t->tv_nsec<0||t->tv_nsec>=1000000000) FAIL("malformed time limit: %ld ns",(long)t->tv_nsec); abs=(uint64_t)t->tv_sec*1000000+t->tv_nsec/1000;
    if(g_timed&&abs>g_first+g_timeout*1000+3000+(uint64_t)0) FAIL("waits %llu us beyond the deadline",(unsigned long long)(abs-g_first-g_timeout*1000));
    if(g_timed&&g_now>=g_first+g_timeout*1000+2000&&++g_rounds>2) FAIL("goes on waiting after the deadline"); }
  else if(g_timed) FAIL("a timed operation waits without a limit");
  g_depth[m]=0; g_waitcond=c; g_signalled=false; int r=0; settle();
  for(int k=0;k<200&&!g_signalled;k++){
    if(g_pos>=g_script.size()){ if(t){ g_now=std::max(g_now,abs)+(g_pos&1)+(g_script.empty()||g_script[0]>>27&1?0:(g_script[0]>>28)%20000); r=110; break; } if(ready()) FAIL("a waiting thread is not woken although its condition is met"); rescue(); if(!g_signalled&&ready()) FAIL("a waiting thread is not woken although its condition is met"); continue; }
    uint64_t s=g_script[g_pos]; if((s>>8&15)==15){ g_pos++; if(t) g_now=std::min(std::max(g_now,abs),g_now+(s>>16)%(g_timeout*500+3000)); break; }      // spurious wake-up
    if(t&&(s>>8&15)==14){ g_pos++; g_now=std::max(g_now,abs)+1+(s>>20&1?0:(s>>21)%20000); r=110; break; }
    others(2); }
  g_waitcond=0; for(int k=0;k<8&&g_pos<g_script.size()&&(g_script[g_pos]>>29&3);k++) others(2);
  g_depth[m]=1; if(!g_lk||m==g_lk) g_locks++; return r; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a) noexcept { if(mine(m)){ g_mut.insert(m); return 0; } return real(&pthread_mutex_init,"pthread_mutex_init")(m,a); }
int pthread_mutex_destroy(pthread_mutex_t*m) noexcept { if(mine(m)){ if(!g_mut.erase(m)) NOTE("mutex destroyed twice"); if(g_depth[m]) NOTE("mutex destroyed while held"); return 0; } return real(&pthread_mutex_destroy,"pthread_mutex_destroy")(m); }
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { if(mine(m)) return lock(m); static auto f=real(&pthread_mutex_lock,"pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t*m) noexcept { if(mine(m)) return lock(m); static auto f=real(&pthread_mutex_trylock,"pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { if(mine(m)) return unlock(m); static auto f=real(&pthread_mutex_unlock,"pthread_mutex_unlock"); return f(m); }
static const void*g_tlock; static struct timespec g_tlim; static int g_tres;
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*t) noexcept { if(mine(m)){ g_tlock=m; g_tlim=*t; if(g_tres) return g_tres; return lock(m); } static auto f=real(&pthread_mutex_timedlock,"pthread_mutex_timedlock"); return f(m,t); }
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a) noexcept { if(mine(c)){ g_cond.insert(c); return 0; } return real(&pthread_cond_init,"pthread_cond_init")(c,a); }
int pthread_cond_destroy(pthread_cond_t*c) noexcept { if(mine(c)){ if(!g_cond.erase(c)) NOTE("condition destroyed twice"); return 0; } return real(&pthread_cond_destroy,"pthread_cond_destroy")(c); }
int pthread_cond_signal(pthread_cond_t*c) noexcept { if(mine(c)){ woken(c,false); return 0; } return real(&pthread_cond_signal,"pthread_cond_signal")(c); }
int pthread_cond_broadcast(pthread_cond_t*c) noexcept { if(mine(c)){ woken(c,true); return 0; } return real(&pthread_cond_broadcast,"pthread_cond_broadcast")(c); }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(mine(c)) return wait(c,m,0); static auto f=real(&pthread_cond_wait,"pthread_cond_wait"); return f(c,m); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*t){ if(mine(c)) return wait(c,m,t); static auto f=real(&pthread_cond_timedwait,"pthread_cond_timedwait"); return f(c,m,t); }
int gettimeofday(struct timeval*t,void*z) noexcept { if(!g_on) return syscall(SYS_gettimeofday,t,z); uint64_t n=clk(); t->tv_sec=n/1000000; t->tv_usec=n%1000000; return 0; }
int clock_gettime(clockid_t k,struct timespec*t) noexcept { if(!g_on||k!=CLOCK_REALTIME) return syscall(SYS_clock_gettime,k,t); uint64_t n=clk(); t->tv_sec=n/1000000; t->tv_nsec=n%1000000*1000; return 0; }
}
// ------------------------------------------------------------------ reference
// one action: kind and arguments, and what it returned
struct Act { std::string op; int key=0; int val=-1; bool rem=false; long res=-2; };       // res: element number, size, 0/1; -1: null
struct Ref { std::string obj; std::deque<int> q,q2; std::map<int,int> m; int flag=0; std::map<int,int> freed;
  bool apply(const Act&a){                                     // does the action give this result now?
    const std::string&o=a.op; if(o=="none") return true; std::deque<int>&d=a.key==1&&obj!="map"&&obj!="map1"?q2:q;
    if(obj=="map"||obj=="map1"){ auto i=m.find(a.key); bool f=i!=m.end();
      if(o=="write"){ if(f&&obj=="map") freed[i->second]++; m[a.key]=a.val; return true; }
      if(o=="remove"){ if(a.res!=(long)f) return false; if(f){ if(obj=="map") freed[i->second]++; m.erase(i);} return true; }
      if(o=="size") return a.res==(long)m.size();
      if(o=="dtor"){ if(obj=="map") for(auto&x:m) freed[x.second]++; m.clear(); return true; }
      if(a.res!=(f?(long)i->second:-1)) return false; if(f&&a.rem) m.erase(i); return true; }
    if(obj=="sem"){ if(o=="post"){ flag=1; return true; } if(o=="get"){ if(!flag) return false; flag=0; return true; } if(a.res!=flag) return false; flag=0; return true; }
    if(o=="write"){ if(obj=="prio") d.insert(std::upper_bound(d.begin(),d.end(),a.val),a.val); else d.push_back(a.val); return true; }
    if(o=="write_front"){ d.push_front(a.val); return true; }
    if(o=="read"){ if(a.res!=(d.empty()?-1:d.front())) return false; if(!d.empty()) d.pop_front(); return true; }
    if(o=="front") return a.res==(d.empty()?-1:d.front());
    if(o=="size") return a.res==(long)d.size();
    if(o=="clear"){ for(int x:d) freed[x]++; d.clear(); return true; }
    if(o=="flush"){ d.clear(); return true; }
    if(o=="waitfor") return (long)d.size()<=a.val;
    if(o=="either") return a.res==0||!q.empty()||!q2.empty();
    return true; } };
static std::string g_obj; static std::vector<Act> g_log; static std::vector<Elem*> g_el; static int g_key; static std::string g_want; static long g_mark;
static Q*q_; static Q*o_; static W*w_; static R*r_; static M*m_; static M1*m1_; static Semaphore*s_;
static Elem*mk(){ g_freed.push_back(0); g_el.push_back(new Elem(g_el.size())); return g_el.back(); }
static long id(Elem*e){ if(!e) return -1; for(size_t k=0;k<g_el.size();k++) if(g_el[k]==e) return k; NOTE("something that is no element is returned"); return -3; }
static bool mapobj(){ return g_obj=="map"||g_obj=="map1"; }
// an action of another thread
static void doit(Act a){
  for(const void*x:g_mut) g_depth[x]; std::map<const void*,int> dep=g_depth;
  int w=g_who; g_who=1; const void*wc=g_waitcond; Elem*e=0; if(a.op=="write"||a.op=="write_front"){ e=mk(); a.val=g_el.size()-1; }
  if(mapobj()){
    M1&m=*m1_; if(a.op=="write") m.write(a.key,e); else if(a.op=="remove") a.res=m.remove(a.key); else if(a.op=="size") a.res=m.size(); else { Elem*x=0; bool f=m.getNoBlock(a.key,x,a.rem); a.res=f?id(x):-1; } }
  else if(g_obj=="sem"){ if(a.op=="post") s_->post(); else a.res=s_->semtry(); }
  else if(g_obj=="prio"){ if(a.op=="write") r_->write(e); else if(a.op=="size") a.res=r_->size(); else if(a.op=="clear") r_->clear(); else a.res=id(r_->readNoBlock()); }
  else if(g_obj=="waitq"){ if(a.op=="write") w_->write(e); else if(a.op=="size") a.res=w_->size(); else if(a.op=="clear") w_->clear(); else a.res=id(w_->readNoBlock()); }
  else { Q&x=a.key==1&&o_?*o_:*q_; if(a.op=="write") x.write(e); else if(a.op=="write_front") x.write_front(e); else if(a.op=="size") a.res=x.size(); else if(a.op=="front") a.res=id(x.front()); else if(a.op=="clear") x.clear(); else if(a.op=="flush") x.flushNoDelete(); else a.res=id(x.readNoBlock()); }
  g_who=w; g_waitcond=wc; g_log.push_back(a); if(g_depth!=dep) NOTE("lock not released"); }
// a thread that waits beside the operation under test (first come, first woken by a signal)
struct Waiter { const void*c; Act a; bool up; bool done; }; static std::vector<Waiter> g_wt;
static bool can(const Act&a){ int w=g_who; g_who=1; long n; bool r; if(mapobj()){ Elem*x=0; r=m1_->getNoBlock(a.key,x,false); } else if(g_obj=="sem"){ r=s_->semtry(); if(r) s_->post(); } else { n=g_obj=="prio"?r_->size():g_obj=="waitq"?w_->size():a.key==1&&o_?o_->size():q_->size(); r=a.op=="waitfor"?n<=a.val:n>0; if(a.op=="either") r=r||o_->size()>0; } g_who=w; return r; }
static bool g_quiet=false;
static void woken(const void*c,bool all){ if(g_quiet) return; if(g_who==1&&g_waitcond==c&&!g_signalled) { g_signalled=true; if(!all) return; } for(auto&w:g_wt) if(!w.done&&!w.up&&w.c==c){ w.up=true; if(!all) break; } if(g_who==1) return; settle(); }
static bool g_late; static void settle(){ if(!idle()||g_who==1) return; if(g_late&&g_pos<g_script.size()&&(g_script[g_pos]>>32&1)) return; for(size_t k=0;k<g_wt.size();k++) if(g_wt[k].up&&!g_wt[k].done){ g_quiet=true; bool c=can(g_wt[k].a); g_quiet=false; if(c){ g_wt[k].done=true; if(g_wt[k].a.op!="waitfor") doit(g_wt[k].a); } else g_wt[k].up=false; } }
static bool ready(){ if(g_want.empty()) return false; Act a; a.op=g_want; a.key=mapobj()?g_key:0; a.val=g_mark; std::map<const void*,int> d=g_depth; for(auto&x:g_depth) x.second=0; g_quiet=true; bool r=can(a); g_quiet=false; g_depth=d; return r; }
static void rescue(){ Act a; a.op=g_obj=="sem"?"post":g_want=="waitfor"?"read":"write"; a.key=mapobj()?g_key:0; doit(a); }
static const void*lockof(const void*o){ for(const void*m:g_mut) if(m>=o&&(const char*)m<(const char*)o+sizeof(Mutex)) return m; return 0; }
static void others(int where){
  if(g_pos>=g_script.size()) return; uint64_t s=g_script[g_pos++]; g_now+=(s>>40)%5000; Act a; int k=s%8; a.rem=s>>4&1; a.key=mapobj()?(s>>5&1?g_key:g_key+1+(s>>6&3)-((s>>33&7)==0?5:0)):o_&&(s>>5&1)?1:0;
  if(k==0) return; static const char*qn[]={"","write","write","read","read","size","clear","write_front"}; static const char*mn[]={"","write","write","get","get","remove","size","get"};
  a.op=g_obj=="sem"?(k<4?"post":"semtry"):mapobj()?mn[k]:qn[k]; if(g_obj!="queue"&&g_obj!="connected"&&a.op=="write_front") a.op="write"; if(a.op=="clear"&&(s>>7&3)) a.op="read";
  if(where==3){ if(mapobj()||!q_) return; Q&x=a.key==1&&o_?*o_:*q_; if(g_depth[lockof(&x.qGetLock())]) return; }
  doit(a); }
static bool explain(const Act&a,size_t lo,size_t hi){
  for(size_t p=lo;p<=hi;p++){ Ref r; r.obj=g_obj; bool ok=true; for(size_t k=0;k<=g_log.size()&&ok;k++){ if(k==p) ok=r.apply(a); if(k<g_log.size()&&ok) ok=r.apply(g_log[k]); }
    if(!ok) continue; for(size_t k=0;k<g_freed.size();k++){ auto i=r.freed.find(k); if(g_freed[k]!=(i==r.freed.end()?0:i->second)) ok=false; } if(ok) return true; }
  return false; }
// which condition does a thread that wants this wait for? the real code tells, at its first wait
static const void*askcond(const Act&a){
  int w=g_who; g_who=1; g_probe=true; g_asked=0; try { if(mapobj()){ Elem*x; m1_->get(a.key,x,true); } else if(g_obj=="sem") s_->get(); else if(g_obj=="prio") r_->read(); else if(g_obj=="waitq"){ if(a.op=="waitfor") w_->wait(a.val); else w_->read(); } else (a.key==1&&o_?o_:q_)->read(); } catch(Stop){}
  g_probe=false; g_who=w; for(auto&d:g_depth) if(d.second) NOTE("lock not released"); return g_asked; }
static int sig(const In&in,const std::string&op){
  g_obj="signal"; Signal*s=new(g_mem[0])Signal; Mutex*m=new(g_mem[1])Mutex; const void*c=g_cond.empty()?0:*g_cond.begin(); if(!c) BAD("no condition is created"); int64_t t=in.i("timeout",5); int r=0;
  struct Rec { static void none(){} }; g_want=""; g_first=0; g_timed=false; m->lock(); g_depth[*g_mut.begin()]=1;
  Waiter w; w.c=c; w.up=w.done=false; g_wt.assign(2,w); g_quiet=false;
  if(op=="signal"||op=="broadcast"){ for(auto&x:g_wt) x.up=false; if(op=="signal") s->signal(); else s->broadcast(); if(!g_wt[0].up||op=="broadcast"&&!g_wt[1].up) { NOTE("the waiting threads are not woken"); r=1; } }
  else if(op=="timedlock"){ g_wt.clear(); g_tlock=0; g_tres=in.i("res",0); m->unlock(); g_script.clear(); uint64_t n0=g_now+1; int ms=(int)t; if(ms<0) ms=-(ms+1); m->timedlock(ms); if(!g_tlock) BAD("no attempt is made"); uint64_t a=(uint64_t)g_tlim.tv_sec*1000000+g_tlim.tv_nsec/1000; if(g_tlim.tv_nsec<0||g_tlim.tv_nsec>=1000000000) BAD("malformed time limit"); if(a<n0+(uint64_t)ms*1000||a>g_now+(uint64_t)ms*1000) BAD("time limit is %lld us off",(long long)(a-n0-(uint64_t)ms*1000)); if(!g_tres) m->unlock(); g_tres=0; m->lock(); }
  else { g_script={in.u("code",15<<8),15<<8}; g_pos=0; g_waits=0; g_wt.clear(); bool timed=op!="wait"; if(timed){ t=(int64_t)((uint64_t)t&0xffffffff); if(op=="waitt0") t=-t; g_timed=true; g_timeout=t>0?t:0; g_script.clear(); uint64_t n0=g_now; s->wait(*m,t); if(t<=0&&g_waits) BAD("waits although the time is over"); if(t>0&&(g_waits!=1||g_now<n0+(uint64_t)t*1000)) BAD("waits %d times, until %lld us after the call, timeout %lld ms",g_waits,(long long)(g_now-n0),(long long)t); }
    else { s->wait(*m); if(g_waits!=1) BAD("waits %d times",g_waits); } }
  g_timed=false; g_wt.clear(); m->unlock(); s->~Signal(); m->~Mutex(); if(!g_cond.empty()||!g_mut.empty()) BAD("not destroyed"); return r||g_msg[0]; }
static int scenario(const In&in){
  std::string obj=in.s("obj","queue"),op=in.s("op","read"); g_obj=obj; bool rem=in.u("rem",1)&1; int held=in.i("held",0); uint64_t tmo=in.u("timeout",0); g_script=in.a("others"); uint64_t init=in.u("init",0)%6; unsigned wts=in.u("waiters",0);
  bool t0=op.size()>1&&(op=="readt0"||op=="gett0"); if(op=="readt"||op=="gett"||op=="eithert"){ if(tmo==0) tmo=1; } else tmo=0; tmo&=0xffffffff; if(!tmo&&(op=="readt"||op=="gett"||op=="eithert")) tmo=1;
  g_on=true; g_who=1; g_depth.clear(); g_mut.clear(); g_cond.clear(); g_log.clear(); g_el.clear(); g_freed.clear(); g_wt.clear(); g_locks=g_waits=g_rounds=0; g_pos=0; g_first=0; g_timed=tmo>0; g_timeout=tmo; g_want=""; g_waitcond=0; q_=o_=0;w_=0;r_=0;m_=0;m1_=0;s_=0; g_quiet=false; g_key=in.i("key",5); g_mark=0; g_el.reserve(400);
  memset(g_mem,0xa5,sizeof g_mem); g_lk=0; g_late=in.u("late",0);
  if(obj=="signal"){ g_who=0; return sig(in,op); }
  if(obj=="prio"&&op=="compare"){ Elem*a=mk(),*b=mk(); PointerCompare<Elem> c; if(!c(b,a)||c(a,b)||c(a,a)) BAD("the elements are compared the wrong way round"); delete a; delete b; return 0; }
  if(obj=="queue") q_=new(g_mem[0])Q; else if(obj=="connected"){ q_=new(g_mem[0])Q; o_=new(g_mem[1])Q; q_->iqConnect(*o_); } else if(obj=="waitq") w_=new(g_mem[0])W; else if(obj=="prio") r_=new(g_mem[0])R; else if(obj=="map") m1_=m_=new(g_mem[0])M; else if(obj=="map1") m1_=new(g_mem[0])M1; else if(obj=="sem") s_=new(g_mem[0])Semaphore; else return 3;
  if(obj=="queue"&&(op=="either"||op=="eithert"||op=="connect")){ o_=new(g_mem[1])Q; g_obj="connected"; q_->iqConnect(*o_); }
  auto clear=[&]{ g_who=1; if(q_){ q_->flushNoDelete(); } };
  for(uint64_t k=0;k<init;k++){ Act a; a.op=obj=="sem"?"post":"write"; a.key=mapobj()?g_key+((int)in.u("spread",0)?(int)(k*in.u("spread",0)%5)-1:k%3==0?1:0):0; if(obj=="connected"&&k%2) a.key=1; doit(a); }
  if(mapobj()&&init==5){ Act a; a.op="get"; a.rem=true; a.key=g_key; doit(a); }
  bool dtor=op=="dtor"; if(dtor) g_script.clear();
  // waiting threads: only while what they wait for is not there
  if(g_obj=="connected"&&(op[0]=='r'&&op!="readNoBlock"||op[0]=='e')) wts=0;      // connected queues are read by one thread (their wake-ups are shared)
  if(!dtor&&wts&&!held){ g_who=1; 
    Act a; a.op=obj=="waitq"&&(op=="read"||op=="readnb"||op=="readNoBlock"||op=="clear"||op=="readt"||op=="readt0")?"waitfor":obj=="sem"?"semtry":mapobj()?"get":"read"; a.rem=true; a.val=0; a.key=mapobj()?g_key:0;
    if(!can(a)){ if(mapobj()&&(wts&2)){ Act b=a; b.key=g_key+7; Waiter w; w.a=b; w.up=w.done=false; w.c=askcond(b); g_wt.push_back(w); } if(!can(a)){ Waiter w; w.a=a; w.up=w.done=false; w.c=askcond(a); g_wt.push_back(w); if((wts&2)&&!mapobj()&&a.op=="read"&&g_obj!="connected") g_wt.push_back(w); } } g_who=1; }
  Mutex*lk=0; if(q_) lk=&q_->qGetLock(); else if(m1_) lk=&m1_->qGetLock(); if(!lk||dtor||op=="read"||op=="readt"||op=="get"||op=="gett"||op=="either"||op=="eithert"||op=="connect"||op=="getlock") held=0;
  for(int k=0;k<held;k++) lk->lock(); g_lk=lk?lockof(lk):0; std::map<const void*,int> before=g_depth; if(!held) before.clear();
  Act a; a.rem=rem; a.key=mapobj()?g_key:0; Elem*e=0; if(op=="write"||op=="write_front"){ e=mk(); a.val=g_el.size()-1; }
  size_t lo=g_log.size(); bool gaveup=false; const char*what=0; g_locks=0; g_now+=in.u("clock",0)%1000000; g_who=0; bool look=true;
  #define DO(x) x
  if(mapobj()){ M1&m=*m1_; Elem*x=0; long f=-9;
    if(op=="write"){ a.op="write"; m.write(g_key,e); } else if(op=="remove"){ a.op="remove"; a.res=m.remove(g_key); } else if(op=="size"){ a.op="size"; a.res=m.size(); }
    else if(op=="getnb"){ a.op="get"; f=m.getNoBlock(g_key,x,rem); } else if(op=="get"){ a.op=g_want="get"; f=m.get(g_key,x,rem); } else if(op=="gett"||op=="gett0"){ a.op="get"; if(tmo) g_want="get"; f=m.get(g_key,x,(unsigned)tmo,rem); }
    else if(op=="readnb"){ a.op="get"; a.rem=false; a.res=id(m.readNoBlock(g_key)); } else if(op=="read"){ a.op=g_want="get"; a.rem=false; a.res=id(m.read(g_key)); } else if(op=="readt"||op=="readt0"){ a.op="get"; a.rem=false; if(tmo) g_want="get"; a.res=id(m.read(g_key,(unsigned)tmo)); }
    else if(op=="dtor"){ a.op="dtor"; if(m_) m_->~M(); else m1_->~M1(); look=false; } else if(op=="getlock"){ look=false; a.op="none"; } else if(op=="begin"||op=="end"){ look=false; a.op="none"; g_who=1; long n=0; for(auto i=m.begin();i!=m.end();++i) n++; if(n!=(long)m.size()) BAD("iteration meets %ld of %u entries",n,m.size()); } else return 3;
    if(f!=-9){ if(f&&!x) BAD("reports an element but returns none"); if(!f&&x) BAD("reports no element but returns one"); a.res=f?id(x):-1; }
    if((op=="get"||op=="read")&&a.res==-1) BAD("a blocking read returns without an element"); gaveup=tmo&&a.res==-1; }
  else if(obj=="sem"){ if(op=="post"){ a.op="post"; s_->post(); } else if(op=="get"){ a.op="get"; g_want="semtry"; s_->get(); } else if(op=="semtry"){ a.op="semtry"; a.res=s_->semtry(); } else return 3; }
  else {
    #define COMMON(X) if(op=="read"){ a.op=g_want="read"; a.res=id((X).read()); } else if(op=="readt"||op=="readt0"){ a.op="read"; if(tmo) g_want="read"; a.res=id((X).read((unsigned)tmo)); } else if(op=="readNoBlock"){ a.op="read"; a.res=id((X).readNoBlock()); } else if(op=="size"){ a.op="size"; a.res=(X).size(); } else if(op=="write"){ a.op="write"; (X).write(e); } else if(op=="clear"){ a.op="clear"; (X).clear(); }
    if(obj=="prio"){ COMMON(*r_) else if(op=="peek"){ a.op="front"; a.res=id(r_->peek()); } else if(dtor){ a.op="clear"; r_->~R(); look=false; } else return 3; }
    else if(obj=="waitq"){ COMMON(*w_) else if(op=="wait"){ a.op=g_want="waitfor"; a.val=g_mark=in.u("mark",0)%4; w_->wait(g_mark); } else if(dtor){ a.op="clear"; w_->~W(); look=false; } else return 3; }
    else { COMMON(*q_) else if(op=="front"){ a.op="front"; a.res=id(q_->front()); } else if(op=="flush"){ a.op="flush"; q_->flushNoDelete(); } else if(op=="write_front"){ a.op="write_front"; q_->write_front(e); }
      else if(op=="either"||op=="eithert"){ a.op=g_want="either"; q_->iqWaitForEither(*o_,(unsigned)tmo); a.res=tmo&&g_first&&g_now+3000>=g_first+tmo*1000?0:1; }
      else if(op=="connect"||op=="getlock"){ look=false; a.op="none"; if(o_&&&q_->qGetLock()!=&o_->qGetLock()) BAD("connected queues do not share their lock"); }
      else if(op=="begin"||op=="end"||op=="cbegin"||op=="cend"){ look=false; a.op="none"; g_who=1; lk->lock(); long n=0; if(op[0]=='c'){ const Q&c=*q_; for(auto i=c.begin();i!=c.end();++i) n++; } else for(auto i=q_->begin();i!=q_->end();++i) n++; if(n!=(long)q_->size()) BAD("iteration meets %ld of %lu elements",n,(unsigned long)q_->size()); lk->unlock(); if(child([&]{ for(auto&d:g_depth) while(d.second) lk->unlock(); if(op[0]=='c'){ const Q&c=*q_; op=="cbegin"?c.begin():c.end(); } else op=="begin"?q_->begin():q_->end(); return 0; })!=128+SIGABRT) BAD("iterator given out without the lock"); }
      else if(dtor){ a.op="clear"; q_->~Q(); look=false; } else return 3; }
    if(op=="read"&&a.res==-1) BAD("a blocking read returns without an element"); gaveup=(op=="readt"&&a.res==-1); if(op=="eithert"&&a.res==0) gaveup=true; }
  g_who=1; size_t hi=g_log.size(); g_want=""; if(g_msg[0]) return 1;
  if(look&&!g_locks) BAD("the lock is not taken");
  for(auto&d:g_depth) if(d.second!=(before.count(d.first)?before[d.first]:0)) BAD("the lock is held %d times afterwards, %d before",d.second,before.count(d.first)?before[d.first]:0);
  if(gaveup&&(!g_first||g_now+3000<g_first+tmo*1000)) BAD("gives up %lld us before the deadline",(long long)(g_first+tmo*1000-g_now));
  for(int k=0;k<held;k++) lk->unlock();
  g_who=0; g_late=false; settle(); g_who=1;
  for(auto&w:g_wt) if(!w.done&&can(w.a)) BAD("a waiting thread is not woken after the change");
  // what is left
  if(!dtor){ if(mapobj()){ std::vector<int> ks={g_key}; for(int d=-4;d<8;d++) if(d) ks.push_back(g_key+d); Act z; z.op="size"; doit(z); for(int k:ks){ Act x; x.op="get"; x.rem=true; x.key=k; doit(x); } z.op="size"; doit(z); }
    else if(obj=="sem"){ Act x; x.op="semtry"; doit(x); } else for(int k=0;k<(o_?2:1);k++) for(int n=0;n<300;n++){ Act x; x.op="read"; x.key=k; doit(x); if(g_log.back().res<0) break; } }
  if(g_msg[0]) return 1;
  if(!explain(a,lo,hi)){ std::string t; for(size_t k=0;k<g_log.size();k++){ if(k==lo) t+=" <call"; t+=" "+g_log[k].op+(g_log[k].val>=0?"("+std::to_string(g_log[k].val)+")":"")+(g_log[k].res!=-2?"="+std::to_string(g_log[k].res):""); if(k+1==hi) t+=" return>"; } BAD("%s%s result %ld: no moment explains the results, contents and released elements:%s",a.op.c_str(),a.rem&&mapobj()?" (removing)":"",a.res,t.substr(0,300).c_str()); }
  if(!dtor){ if(m_) m_->~M(); else if(m1_) m1_->~M1(); else if(q_){ if(o_&&!q_->size()){ } q_->~Q(); if(o_) o_->~Q(); } else if(w_) w_->~W(); else if(r_) r_->~R(); else if(s_) s_->~Semaphore(); }
  else if(o_) o_->~Q();
  if(g_msg[0]) return 1; if(!g_mut.empty()||!g_cond.empty()) BAD("locks or conditions are left behind");
  return 0; }
static void cleanup(){ g_on=false; for(size_t k=0;k<g_el.size();k++) if(!g_freed[k]) delete g_el[k]; g_el.clear(); }
static int run_(const In&in){ g_msg[0]=0; int r; g_tres=0; try { r=scenario(in); } catch(Stop){ r=1; } bool m=g_msg[0]; char keep[sizeof g_msg]; memcpy(keep,g_msg,sizeof keep); cleanup(); memcpy(g_msg,keep,sizeof keep); return m?1:r; }
