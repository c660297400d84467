// SRCS: Threads.cpp Timeval.cpp Logger.cpp Utils.cpp Configuration.cpp sqlite3util.cpp LinkedLists.cpp
// LIBS: -lsqlite3 -ldl
#include "drv.h"
#include "inter.h"
static int one(const In&in){ int r=run_(in); if(r==1) printf("VIOLATED: %s\n",g_msg); return r; }
static void script(In&i,Rng&r,int n){ std::vector<uint64_t> s; n=r.below(n+1); for(int k=0;k<n;k++) s.push_back(r.u()>>8&0xffffffffffffull); i.arr("others",s); }
static std::string pick(Rng&r,std::vector<std::string> v){ return v[r.below(v.size())]; }
static uint64_t tmo(Rng&r){ switch(r.below(6)){ case 0: return 1+r.below(4); case 1: return 0xffffffffull-r.below(4); case 2: return r.u()&0xffffffff; default: return 1+r.below(5000);} }
static void mapop(In&i,Rng&r){ i.sets("obj",r.below(4)?"map":"map1"); i.sets("op",pick(r,{"write","getnb","gett","gett0","get","remove","readnb","readt","readt0","read","size","getlock","begin","end","dtor"})); i.set("rem",r.below(2)); i.seti("key",r.below(5)?5:(int)r.u()); if(r.below(4)==0) i.set("held",1+r.below(2)); }
static In gen(Rng&r,const std::string&h){ In i; mapop(i,r);
  i.set("init",r.below(6)); i.set("timeout",tmo(r)); i.set("waiters",r.below(4)); i.set("late",r.below(2)); i.set("spread",r.below(5)); i.set("clock",r.flip()?999990+r.below(10):r.below(1000000)); script(i,r,12); return i; }
