// SRCS: Utils.cpp Threads.cpp Timeval.cpp Logger.cpp Configuration.cpp sqlite3util.cpp Reporting.cpp
// LIBS: -lsqlite3 -ldl
// FLAGS: -Wno-all
#include "drv.h"
#include <dlfcn.h>
#include <iostream>
#include <algorithm>
#include "sqlite3util.h"
#include "Configuration.h"
#include "Logger.h"
#include "Reporting.h"
ConfigurationTable gConfig;
using std::string; using std::vector;
// A table on a real database in memory; the committing thread is not started: commits are operations like others. Statements that change rows may be refused; at a
// chosen moment when the batch lock is free another operation runs (as another thread would). Reference: per name the increments accepted since it was created or cleared.
static bool g_on=false,g_quiet=false; static sqlite3*g_db; static vector<int> g_script; static size_t g_pos; static ReportingTable*g_t; static char g_msg[300]; static std::function<void()> g_other; static int g_at=-1,g_depth=0;
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
static bool mine(pthread_mutex_t*m){ return g_on&&g_t&&(char*)m>=(char*)g_t&&(char*)m<(char*)(g_t+1); }
static void moment(){ if(g_depth==0&&g_other&&g_at--==0){ auto f=g_other; g_other=nullptr; f(); } }
static std::vector<void*>&g_kept=*new std::vector<void*>; // threads that never run keep their argument
extern "C" {
int pthread_create(pthread_t*t,const pthread_attr_t*a,void*(*f)(void*),void*x) noexcept { static auto q=(int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*))dlsym(RTLD_NEXT,"pthread_create"); if(g_on){ g_kept.push_back(x); *t=0; return 0; } return q(t,a,f,x); }
int sqlite3_open(const char*f,sqlite3**d){ static auto q=(int(*)(const char*,sqlite3**))dlsym(RTLD_NEXT,"sqlite3_open"); int r=q(f,d); if(g_on) g_db=*d; return r; }
int sqlite3_close(sqlite3*d){ static auto f=(int(*)(sqlite3*))dlsym(RTLD_NEXT,"sqlite3_close"); if(d==g_db) g_db=nullptr; return f(d); }
int sqlite3_step(sqlite3_stmt*s){ static auto f=(int(*)(sqlite3_stmt*))dlsym(RTLD_NEXT,"sqlite3_step"); if(g_on&&!g_quiet&&!sqlite3_stmt_readonly(s)){ int c=g_pos<g_script.size()?g_script[g_pos]:0; g_pos++; if(c) return SQLITE_FULL; } return f(s); }
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock"); bool my=mine(m); if(my) moment(); int r=f(m); if(my) g_depth++; return r; }
int pthread_mutex_trylock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_trylock"); bool my=mine(m); if(my) moment(); int r=f(m); if(my&&!r) g_depth++; return r; }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*t) noexcept { static auto f=(int(*)(pthread_mutex_t*,const struct timespec*))dlsym(RTLD_NEXT,"pthread_mutex_timedlock"); bool my=mine(m); if(my) moment(); int r=f(m,t); if(my&&!r) g_depth++; return r; }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_unlock"); bool my=mine(m); int r=f(m); if(my){ g_depth--; moment(); } return r; }
}
static bool row(const string&k,long long&v){ g_quiet=true; sqlite3_stmt*s=0; bool r=false; sqlite3_prepare_v2(g_db,"SELECT VALUE FROM REPORTING WHERE NAME=?",-1,&s,0); sqlite3_bind_text(s,1,k.data(),k.size(),SQLITE_TRANSIENT); if(sqlite3_step(s)==100){ v=sqlite3_column_int64(s,0); r=true; } sqlite3_finalize(s); g_quiet=false; return r; }
struct Ref { bool made=false; long long stored=0,pending=0; bool unsure=false; };
static std::map<string,Ref> g_ref;
static const char*KEYS[]={"a","b","A","ab","OpenBTS.GSM.RR.Assign","a.1","b.0","a.4294967295","x"};
static string base(Rng&r){ switch(r.below(12)){ case 0: return string(80+r.below(140),'n'); case 1: return string(100+r.below(3000),'m'); default: return KEYS[r.below(9)]; } }
static unsigned idx(Rng&r){ return r.below(3)==0?(unsigned)r.edge():r.below(12); }
static const char*names[]={"create","incr","incr(index)","max","max(index)","clear","clear(index)","create(set)","clear(all)","commit"};
static bool next_ok(){ return !(g_pos<g_script.size()&&g_script[g_pos]); }
static int run(unsigned op,Rng r,const vector<int>&script){
  g_msg[0]=0; g_script.clear(); g_pos=0; g_ref.clear(); g_on=true; g_depth=0; g_other=nullptr; g_t=nullptr; void*mem=operator new(sizeof(ReportingTable)); memset(mem,0,sizeof(ReportingTable)); g_t=(ReportingTable*)mem; new(mem) ReportingTable(":memory:"); ReportingTable&t=*g_t; g_depth=0; g_script=script; g_pos=0; vector<string> used;
  int steps=1+r.below(14); bool dead=false;
  if(r.below(25)==0){ unsigned n=20+r.below(300); if(script.empty()&&t.create("burst",0,n-1)) for(unsigned i=0;i<n;i++){ string k="burst."+std::to_string(i); g_ref[k].made=true; if(r.below(8)){ t.incr("burst",i); g_ref[k].pending++; } } }
  for(int i=0;i<steps&&!g_msg[0]&&!dead;i++){
    unsigned o=i==steps-1||r.below(3)==0?op:r.below(11)?(r.below(4)==0?9:r.below(8)):8; string b=used.empty()||r.below(4)==0?base(r):used[r.below(used.size())]; if(b.size()<200||r.below(3)==0) used.push_back(b); unsigned n=idx(r),v=r.below(3)==0?(unsigned)r.edge():r.below(50); string k=o==2||o==4||o==6?b+"."+std::to_string(n):b; 
    // another thread increments at a moment when the batch is free
    g_other=nullptr; if(r.below(5)==0&&!used.empty()){ g_at=r.below(5); string ok=used[r.below(used.size())]; g_other=[&t,ok]{ t.incr(ok.c_str()); g_ref[ok].pending++; }; }
    bool ok=next_ok(),z=false,w=true; Ref&x=g_ref[k]; string arg(b); const char*c=arg.c_str();
    switch(o){
      case 0: w=ok; z=t.create(c); if(ok&&!x.made) x.made=true; break;
      case 1: z=t.incr(c); x.pending++; break; case 2: z=t.incr(c,n); x.pending++; break;
      case 3: w=ok; z=t.max(c,v); if(ok&&x.made&&x.stored<v) x.stored=v; break; case 4: w=ok; z=t.max(c,n,v); if(ok&&x.made&&x.stored<v) x.stored=v; break;
      case 5: w=ok; z=t.clear(c); if(ok) x.stored=0; break; case 6: w=ok; z=t.clear(c,n); if(ok) x.stored=0; break;
      case 7: { unsigned lo=r.below(4)==0?(unsigned)r.edge():r.below(5),hi=r.below(8)==0?lo-1-r.below(3):lo+r.below(4); if(hi<lo&&r.flip()) hi=lo; if(hi==0xFFFFFFFFu) { lo=7; hi=9; } if(lo>hi&&lo-hi>100){ lo=hi; } if(hi>lo&&hi-lo>50) hi=lo; size_t p=g_pos; for(unsigned j=lo;j<=hi;j++){ bool good=!(p<g_script.size()&&g_script[p]); p++; if(!good){ w=false; break; } g_ref[b+"."+std::to_string(j)].made=true; } z=t.create(c,lo,hi); if(g_pos!=p&&!g_msg[0]) NOTE("create of a set runs %d statements, expected %d",(int)g_pos,(int)p); break; }
      case 8: w=ok; z=t.clear(); if(ok) for(auto&q:g_ref) q.second.stored=0; break;
      default: { z=t.commit(); break; } }
    if(arg!=b){ NOTE("the name given was changed"); break; }
    g_other=nullptr; if(g_depth){ NOTE("the lock is not given up"); break; } if(z!=w){ NOTE("%s says %d, expected %d",names[o],z,w); break; }
    if(o==9) { for(auto&q:g_ref) if(q.second.made){ long long v=0; if(!row(q.first,v)) continue; long long got=v-q.second.stored; if(q.second.unsure){ q.second.stored=v; continue; } if(got!=0&&!(got>0&&got<=q.second.pending)){ NOTE("a commit adds %lld to a counter with %lld pending",got,q.second.pending); break; } q.second.stored=v; q.second.pending-=got; } else if(q.second.pending){ q.second.unsure=true; } }
    else for(auto&q:g_ref){ long long v=0; bool has=row(q.first,v); if(has!=q.second.made){ NOTE("after %s: counter %s there",names[o],has?"is":"is not"); break; } if(has&&v!=q.second.stored){ NOTE("after %s: counter is %lld, expected %lld",names[o],v,q.second.stored); break; } }
  }
  // everything pending arrives in the end
  if(!g_msg[0]&&!dead){ g_script.clear(); t.commit(); for(auto&q:g_ref) if(q.second.made&&!q.second.unsure){ long long v=0; row(q.first,v); if(v!=q.second.stored+q.second.pending){ NOTE("counter is %lld in the end, %lld events were reported (operation tried: %s)",v,q.second.stored+q.second.pending,names[op]); break; } } }
  g_on=false; g_other=nullptr; g_t->~ReportingTable(); operator delete(mem); g_t=nullptr; if(g_db) sqlite3_close(g_db); return g_msg[0]!=0; }
static int all(unsigned op,uint64_t seed,const vector<int>&s){ int z=run(op,Rng(seed),s); if(z) printf("VIOLATED: %s\n",g_msg); return z; }
static vector<int> faults(Rng&r){ vector<int> s; if(r.flip()){ int n=1+r.below(12); for(int i=0;i<n;i++) s.push_back(r.below(3)==0); } return s; }
ReportingTable*gDummy; 
alignas(ReportingTable) char gReportsMem[sizeof(ReportingTable)] asm("gReports");
static int one(const In&in){ freopen("/dev/null","w",stderr);
  if(in.has("code")){ vector<int> s; for(auto x:in.a("script")) s.push_back(x); return all(in.u("code")%10,in.u("seed"),s); }
  string n=in.s("op"); unsigned op=9; for(unsigned i=0;i<10;i++) if(n==names[i]) op=i; for(uint64_t k=0;k<1500;k++){ Rng r(k); auto s=faults(r); if(all(op,k,s)) return 1; } return 0; }
static In gen(Rng&r,const std::string&){ In i; i.set("code",r.below(10)); i.set("seed",r.u()>>1); i.arr("script",faults(r)); return i; }
