// SRCS: Timeval.cpp
#include "drv.h"
#include <sys/time.h>
#include <time.h>
static int64_t g_s=1000,g_us=5; 
extern "C" int gettimeofday(struct timeval*t,void*) noexcept { t->tv_sec=g_s; t->tv_usec=g_us; return 0; }
extern "C" int clock_gettime(clockid_t,struct timespec*t) noexcept { t->tv_sec=g_s; t->tv_nsec=g_us*1000+77; return 0; }
#include "Timeval.h"
typedef __int128 i128;
struct Peek { struct timeval t; };
static struct timeval val(const Timeval&t){ static_assert(sizeof(Timeval)==sizeof(struct timeval),""); struct timeval r; memcpy(&r,&t,sizeof r); return r; }
static Timeval mk(int64_t s,int64_t u){ struct timeval t; t.tv_sec=s; t.tv_usec=u; return Timeval(t); }
#define IS(v,S,U,what) do{ struct timeval _t=val(v); if(_t.tv_sec!=(S)||_t.tv_usec!=(U)) BAD("%s gives %lld.%06lld, expected %lld.%06lld",what,(long long)_t.tv_sec,(long long)_t.tv_usec,(long long)(S),(long long)(U)); }while(0)
static int one(const In&in){
  std::string op=in.s("op"); int64_t s=in.i("s"),us=in.i("us"); g_s=in.i("now"); g_us=in.i("nowus"); uint64_t x=in.u("x"); int64_t xs=in.i("x"),y=in.i("y"); const int64_t L=1ll<<40; if(g_s<0||g_s>=L||g_us<0||g_us>999999) return 3;
  bool nrm=us>=0&&us<1000000&&s>=-L&&s<=L;
  if(op=="now"){ Timeval t=mk(s,us); t.now(); IS(t,g_s,g_us,"now"); return 0; }
  if(op=="future"||op=="ctor"){ uint32_t ms=x; i128 w=((i128)g_s*1000000+g_us)+(i128)ms*1000; Timeval t=mk(s,us); if(op=="ctor") t=Timeval(ms); else t.future(ms); IS(t,(int64_t)(w/1000000),(int64_t)(w%1000000),"time in the future"); return 0; }
  if(op=="ctor2"){ Timeval t((unsigned)x,(unsigned)y); IS(t,(int64_t)(uint32_t)x,(int64_t)(uint32_t)y,"construction"); return 0; }
  if(op=="ctortv"){ Timeval t=mk(xs,y); IS(t,xs,y,"construction"); return 0; }
  Timeval t=mk(s,us);
  if(op=="timespec"){ if(us<0||us>999999) return 3; struct timespec r=t.timespec(); if(r.tv_sec!=s||r.tv_nsec!=us*1000) BAD("timespec is %lld,%ld",(long long)r.tv_sec,r.tv_nsec); return 0; }
  if(op=="sec"){ if(t.sec()!=(uint32_t)s) BAD("sec() is %u",t.sec()); return 0; } if(op=="usec"){ if(t.usec()!=(uint32_t)us) BAD("usec() is %u",t.usec()); return 0; }
  if(op=="addMinutes"){ t.addMinutes((unsigned)x); IS(t,(int64_t)((uint64_t)s+60ull*(uint32_t)x),us,"addMinutes"); return 0; }
  if(!nrm) return 3;
  i128 T=(i128)s*1000000+us,N=(i128)g_s*1000000+g_us;
  if(op=="passed"){ if(t.passed()!=(N>T)) BAD("passed() is %d",t.passed()); return 0; }
  i128 d; long r;
  if(op=="delta"){ if(y<0||y>999999||xs<-L||xs>L) return 3; Timeval o=mk(xs,y); d=(i128)xs*1000000+y-T; r=t.delta(o); IS(o,xs,y,"delta (operand)"); }
  else if(op=="elapsed"){ d=N-T; r=t.elapsed(); } else if(op=="remaining"){ d=T-N; r=t.remaining(); if(r!=-t.elapsed()) BAD("remaining is not the opposite of elapsed"); } else return 3;
  i128 e=(i128)r*1000-d; if(e<=-1000||e>=1000) BAD("%s is %ld ms, exact difference %lld us",op.c_str(),r,(long long)d); IS(t,s,us,"operand"); return 0; }
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"now","future","ctor","ctor2","ctortv","timespec","sec","usec","addMinutes","passed","delta","delta","elapsed","remaining"}; std::string op=ops[r.below(14)]; i.sets("op",op);
  auto us=[&]()->int64_t{ switch(r.below(4)){case 0:return r.below(4);case 1:return 999999-r.below(4);case 2:return r.below(1000)*1000;default:return r.below(1000000);} };
  int64_t n=r.below(4)?1500000000+r.below(1000000000):r.below(1ull<<40); i.seti("now",n); int64_t nu=us(); i.seti("nowus",nu); auto near=[&](int64_t b)->int64_t{ switch(r.below(5)){case 0:return b;case 1:return b+(int64_t)r.below(3)-1;case 2:return b+(int64_t)r.below(200000)-100000; case 3:return b+(int64_t)r.below(1ull<<35)-(1ll<<34); default:return b+(int64_t)r.below(10000000)-5000000;} };
  int64_t s=near(n); if(s>(1ll<<40)) s=n; i.seti("s",s); i.seti("us",r.below(4)?us():nu+(int64_t)r.below(2)); if(i.i("us")>999999) i.seti("us",0); 
  if(op=="delta"||op=="ctortv") i.seti("x",near(s)); else i.set("x",r.below(4)==0?(uint32_t)r.edge():r.below(3)?r.below(5000):(uint32_t)r.u()); if(i.i("x")>(1ll<<40)) i.seti("x",s); if(op=="future"||op=="ctor") if(r.below(3)==0){ i.set("x",1000-nu/1000); if(r.flip()) i.seti("nowus",nu/1000*1000); }
  i.seti("y",us()); return i; }
