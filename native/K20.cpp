// SRCS: Utils.cpp Threads.cpp Timeval.cpp Logger.cpp Configuration.cpp sqlite3util.cpp
// LIBS: -lsqlite3 -ldl
#include "drv.h"
#include <dlfcn.h>
#include <iostream>
#include <set>
#include <limits.h>
#include <math.h>
#include "sqlite3util.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using std::string; using std::vector;
// A table on a real database in memory. The clock is driven, statements that change rows may fail, and at a chosen moment when the table's lock is free another
// operation runs (as another thread would). Reference: the rows of the database read directly, and the defaults of the schema.
static bool g_on=false; static time_t g_now=1000000; static sqlite3*g_db; static bool g_fail=false; static ConfigurationTable*g_t; static char g_msg[300]; static std::function<void()> g_other; static int g_at=-1,g_depth=0; static vector<std::pair<bool,string>> g_seen;
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
static bool mine(pthread_mutex_t*m){ return g_on&&g_t&&(char*)m>=(char*)g_t&&(char*)m<(char*)(g_t+1); }
static void moment(){ if(g_depth==0&&g_other&&g_at--==0){ auto f=g_other; g_other=nullptr; f(); } }
extern "C" {
time_t time(time_t*p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); time_t v=g_on?g_now:t.tv_sec; if(p) *p=v; return v; }
int sqlite3_open(const char*f,sqlite3**d){ static auto q=(int(*)(const char*,sqlite3**))dlsym(RTLD_NEXT,"sqlite3_open"); int r=q(f,d); if(g_on) g_db=*d; return r; }
int sqlite3_step(sqlite3_stmt*s){ static auto f=(int(*)(sqlite3_stmt*))dlsym(RTLD_NEXT,"sqlite3_step"); if(g_on&&g_fail&&!sqlite3_stmt_readonly(s)) return SQLITE_FULL; return f(s); }
int sqlite3_close(sqlite3*d){ static auto f=(int(*)(sqlite3*))dlsym(RTLD_NEXT,"sqlite3_close"); if(d==g_db) g_db=nullptr; return f(d); }
int sqlite3_exec(sqlite3*d,const char*q,int(*cb)(void*,int,char**,char**),void*x,char**e){ static auto f=(int(*)(sqlite3*,const char*,int(*)(void*,int,char**,char**),void*,char**))dlsym(RTLD_NEXT,"sqlite3_exec"); if(g_on&&g_fail) return SQLITE_FULL; return f(d,q,cb,x,e); }
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock"); bool my=mine(m); if(my) moment(); int r=f(m); if(my) g_depth++; return r; }
int pthread_mutex_trylock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_trylock"); bool my=mine(m); if(my) moment(); int r=f(m); if(my&&!r) g_depth++; return r; }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*t) noexcept { static auto f=(int(*)(pthread_mutex_t*,const struct timespec*))dlsym(RTLD_NEXT,"pthread_mutex_timedlock"); bool my=mine(m); if(my) moment(); int r=f(m,t); if(my&&!r) g_depth++; return r; }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_unlock"); bool my=mine(m); int r=f(m); if(my){ g_depth--; moment(); } return r; }
}
typedef std::pair<bool,string> Val;
static std::map<string,std::pair<string,bool>> g_schema;
static bool row(const string&k,string&v){ bool o=g_on; g_on=false; sqlite3_stmt*s=0; bool r=false; sqlite3_prepare_v2(g_db,"SELECT VALUESTRING FROM CONFIG WHERE KEYSTRING=?",-1,&s,0); sqlite3_bind_text(s,1,k.data(),k.size(),SQLITE_TRANSIENT); if(sqlite3_step(s)==100&&sqlite3_column_text(s,0)){ v=(const char*)sqlite3_column_text(s,0); r=true; } sqlite3_finalize(s); g_on=o; return r; }
static void direct(const string&k,const Val&v){ bool o=g_on; g_on=false; sqlite3_stmt*s=0; sqlite3_prepare_v2(g_db,v.first?"INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES(?,?,1)":"DELETE FROM CONFIG WHERE KEYSTRING=?",-1,&s,0); sqlite3_bind_text(s,1,k.data(),k.size(),SQLITE_TRANSIENT); if(v.first) sqlite3_bind_text(s,2,v.second.data(),v.second.size(),SQLITE_TRANSIENT); sqlite3_step(s); sqlite3_finalize(s); g_on=o; }
static Val want(const string&k){ string v; if(row(k,v)) return Val(true,v); auto i=g_schema.find(k); return i!=g_schema.end()?Val(true,i->second.first):Val(false,""); }
static const char*KEYS[]={"A.b","A.B","a.b","A","Log.Level","Control.NumSQLTries","X1","X2","SGSN.T3314","ba","ab"};
static string key(Rng&r){ if(r.below(20)==0) return string(300+r.below(300),'k'); return KEYS[r.below(11)]; }
static string value(Rng&r){ switch(r.below(9)){ case 0: return ""; case 1: return std::to_string((long)r.edge()); case 2: return std::to_string(r.below(3)); case 3: { char b[40]; sprintf(b,"0x%lx",(long)r.below(70000)); return b; } case 4: return "0"+std::to_string(r.below(7778)); case 5: return std::to_string(r.below(1000))+" "+std::to_string(r.below(10)); case 6: { char b[40]; sprintf(b,"%.3f",(double)(long)r.below(1000000)/997-300); return b; } case 7: return string(100+r.below(3000),'v'); default: return "value"+std::to_string(r.below(5)); } }
static bool sameval(const Val&a,const Val&b){ return a.first==b.first&&(!a.first||a.second==b.second); }
// one read: its answer must be that of a value the key had while the read ran
static bool readop(unsigned how,const string&k,ConfigurationTable&t){
  g_seen.clear(); g_seen.push_back(want(k)); Val before=g_seen[0]; bool thrown=false; string s; long n=0; float f=0; bool b=false; string tk;
  try{ switch(how){ case 0: s=t.getStr(k); break; case 1: n=t.getNum(k); break; case 2: b=t.getBool(k); break; case 3: f=t.getFloat(k); break; default: b=t.defines(k); } }catch(ConfigurationTableKeyNotFound&e){ thrown=true; tk=e.key(); }catch(...){ NOTE("another exception than not-found"); return false; }
  if(g_depth){ NOTE("the lock is not given up"); return false; }
  g_seen.push_back(want(k)); if(thrown&&tk!=k){ NOTE("the key reported as not found is another one"); return false; }
  static const char*nm[]={"getStr","getNum","getBool","getFloat","defines"};
  for(auto&v:g_seen){ bool ok; if(how==4) ok=!thrown&&b==v.first; else if(!v.first) ok=thrown; else if(thrown) ok=false; else { long wn=strtol(v.second.c_str(),0,0); float wf=strtof(v.second.c_str(),0); ok=how==0?s==v.second:how==1?n==wn:how==2?b==(wn!=0):(f==wf||(isnan(f)&&isnan(wf))); } if(ok) return true; }
  NOTE("%s(%.40s) does not give the current value%s",nm[how],k.c_str(),before.first?"":" (there is none)"); return false; }
static const char*names[]={"getStr","getNum","getBool","getFloat","defines","set(text)","set(number)","remove","purge","keyDefinedInSchema","isStatic","less"};
static int run(unsigned op,Rng r,bool alone){
  g_msg[0]=0; g_schema.clear(); ConfigurationKeyMap m; int ns=r.below(5); for(int i=0;i<ns;i++){ string k=key(r),d=value(r); if(k.size()>200) continue; bool st=r.flip(); m[k]=ConfigurationKey(k,d,"units",ConfigurationKey::CUSTOMER,ConfigurationKey::STRING,"",st,r.flip()?"a description, with = and () signs":""); }
  g_on=true; g_fail=false; g_depth=0; g_other=nullptr; g_t=nullptr; g_now+=r.below(10); void*mem=operator new(sizeof(ConfigurationTable)); memset(mem,r.below(256),sizeof(ConfigurationTable)); g_t=(ConfigurationTable*)mem; new(mem) ConfigurationTable(":memory:",0,m); ConfigurationTable&t=*g_t; g_depth=0;
  for(auto&p:t.getSimilarKeys("")) g_schema[p.first]={p.second.getDefaultValue(),p.second.isStatic()};
  int steps=1+r.below(9); vector<string> used; string dirty; bool isdirty=false;
  for(int i=0;i<steps&&!g_msg[0];i++){
    unsigned o=i==steps-1||r.below(3)==0?op:r.below(11); if(o==11) o=r.below(9); string k=used.empty()||r.below(3)==0?key(r):used[r.below(used.size())]; used.push_back(k); if(r.below(3)==0) g_now+=r.below(5); 
    if(!alone&&r.below(4)==0){ unsigned o2=r.below(5); string v2=value(r); g_at=r.below(4); g_other=[&t,k,o2,v2]{ bool f=g_fail; g_fail=false; if(o2==0) t.remove(k); else if(o2==1) t.purge(); else if(o2==2){ try{ t.getStr(k); }catch(...){} } else t.set(k,v2); g_fail=f; g_seen.push_back(want(k)); }; } else g_other=nullptr;
    bool meet=(bool)g_other; 
    if(o<5){ if(!readop(o,k,t)) break; }
    else if(o<=7){ Val b=want(k); string v=value(r); long n=r.edge(); g_fail=r.below(4)==0; bool f=g_fail; bool z; try{ z=o==5?t.set(k,v):o==6?t.set(k,n):t.remove(k); }catch(...){ NOTE("%s throws",names[o]); break; } g_fail=false; if(g_depth){ NOTE("the lock is not given up"); break; }
      if(z==f&&!(o==7&&f)){ NOTE("%s says %d although the database %s",names[o],z,f?"refused":"accepted"); break; } if(o==7&&z==f){ NOTE("remove says %d although the database %s",z,f?"refused":"accepted"); break; }
      if(!meet){ string rv; bool has=row(k,rv); Val e=f?b:o==7?Val(false,""):Val(true,o==5?v:std::to_string(n)); Val now=want(k); if(!f&&o!=7&&!(has&&rv==e.second)){ NOTE("%s does not store the value given",names[o]); break; } if(!f&&o==7&&has){ NOTE("remove does not remove the value"); break; } if(f&&!sameval(now,b)){ NOTE("a refused change changed the value"); break; } } }
    else if(o==8){ g_other=nullptr; if(r.flip()){ vector<string> ks=used; vector<Val> vs; for(auto&x:ks){ Val v=r.below(3)==0?Val(false,""):Val(true,value(r)); direct(x,v); } } t.purge(); if(g_depth){ NOTE("the lock is not given up"); break; } for(auto&x:used) if(!readop(r.below(5),x,t)) break; if(g_msg[0]) break; }
    else if(o==9){ if(t.keyDefinedInSchema(k)!=(g_schema.count(k)>0)){ NOTE("keyDefinedInSchema is wrong"); break; } }
    else { auto x=g_schema.find(k); if(t.isStatic(k)!=(x!=g_schema.end()&&x->second.second)){ NOTE("isStatic is wrong"); break; } }
    g_other=nullptr; if(!g_msg[0]) for(unsigned q=0;q<2&&!g_msg[0];q++) readop(r.below(5),q?used[r.below(used.size())]:k,t);
  }
  g_on=false; g_other=nullptr; g_t->~ConfigurationTable(); operator delete(mem); g_t=nullptr; if(g_db) sqlite3_close(g_db); return g_msg[0]!=0; }
static int less(Rng r){ std::less<HashString> l; std::string a=value(r),b=r.flip()?value(r):a; if(r.below(3)==0){ a=key(r); b=key(r); } HashString x(a),y(b); bool xy=l(x,y),yx=l(y,x); if((!xy&&!yx)!=(a==b)||(xy&&yx)){ NOTE("keys are not ordered by their text"); return 1; } return 0; }
static int all(unsigned op,uint64_t seed){ static bool w=false; if(!w){ w=true; } int z=op==11?(g_msg[0]=0,less(Rng(seed))):run(op,Rng(seed),seed%2); if(z) printf("VIOLATED: %s\n",g_msg); return z; }
static int one(const In&in){ freopen("/dev/null","w",stderr);
  if(in.has("code")) return all(in.u("code")%12,in.u("seed"));
  string n=in.s("op"); unsigned op=12; for(unsigned i=0;i<12;i++) if(n==names[i]||n=="set"&&i==5) op=i; if(op==12) op=5; for(uint64_t k=0;k<1500;k++) if(all(op,k)) return 1; if(n=="set"&&op==5) for(uint64_t k=0;k<1500;k++) if(all(6,k)) return 1; return 0; }
static In gen(Rng&r,const std::string&){ In i; i.set("code",r.below(12)); i.set("seed",r.u()>>1); return i; }
