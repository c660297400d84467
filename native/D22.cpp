// SRCS: Utils.cpp Threads.cpp Timeval.cpp Logger.cpp Configuration.cpp sqlite3util.cpp
// LIBS: -lsqlite3 -ldl
#include "drv.h"
#include <dlfcn.h>
#include <iostream>
#include <set>
#include "sqlite3util.h"
#include "Configuration.h"
ConfigurationTable gConfig;
using std::string; using std::vector;
string sqlite_single_lookup_string(sqlite3* db,const char*,const char*,const char*,const char*);
// A real database in memory; every attempt to prepare or step a statement may be made to end in another result code (script: 0 = leave it alone).
static sqlite3*g_db; static bool g_on=false; static vector<int> g_script; static size_t g_pos; static std::set<sqlite3_stmt*> g_live; static char g_msg[300];
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
static int inject(){ return g_pos<g_script.size()?g_script[g_pos++]:(g_pos++,0); }
extern "C" {
int sqlite3_prepare_v2(sqlite3*d,const char*q,int n,sqlite3_stmt**s,const char**t){ static auto f=(int(*)(sqlite3*,const char*,int,sqlite3_stmt**,const char**))dlsym(RTLD_NEXT,"sqlite3_prepare_v2"); if(!g_on||d!=g_db) return f(d,q,n,s,t); int c=inject(); if(c){ *s=0; return c; } c=f(d,q,n,s,t); if(*s) g_live.insert(*s); return c; }
int sqlite3_step(sqlite3_stmt*s){ static auto f=(int(*)(sqlite3_stmt*))dlsym(RTLD_NEXT,"sqlite3_step"); if(!g_on) return f(s); if(!g_live.count(s)){ NOTE("step of something that is no live statement"); return 21; } int c=inject(); return c?c:f(s); }
int sqlite3_finalize(sqlite3_stmt*s){ static auto f=(int(*)(sqlite3_stmt*))dlsym(RTLD_NEXT,"sqlite3_finalize"); if(!g_on) return f(s); if(!s) return 0; if(!g_live.erase(s)){ NOTE("something that is no live statement is finalised"); return 21; } return f(s); }
}
static bool busy(int c){ return c==5||c==6; }
struct Row { string k,v; bool null; unsigned n; long long num; };
static string text(Rng&r,int n,bool raw){ string s; for(int i=0;i<n;i++) s+=raw&&r.below(6)==0?char(r.below(256)):"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-:."[r.below(67)]; return s; }
static int length(Rng&r){ static const int crit[]={199,200,198,100,99,101}; static const int over[]={28,13,60,77,50,41,35}; switch(r.below(5)){ case 0: return 1+r.below(10); case 1: return 60+r.below(300); case 2: return 900+r.below(1200); case 3: return std::max(1,crit[r.below(6)]-over[r.below(7)]+(int)r.below(5)-2); default: return 1+r.below(60); } }
// reference: what the attempts of one phase come to
struct Sim { size_t pos; int phase(unsigned retries,int real){ int c=5; for(unsigned i=0;i<retries;i++){ int s=pos<g_script.size()?g_script[pos]:0; pos++; c=s?s:real; if(!busy(c)) break; } return c; } };
#define BADX(...) do{ NOTE(__VA_ARGS__); return 1; }while(0)
static int run(unsigned op,Rng r,const vector<int>&script){
  g_msg[0]=0; g_live.clear(); g_script=script; g_pos=0; Sim sim{0}; g_on=false;
  bool rawv=op!=3&&op!=4; vector<Row> rows; int n=r.below(5); for(int i=0;i<n;i++){ Row x; x.k="k"+std::to_string(i)+text(r,length(r),false); x.null=r.below(5)==0; x.v=text(r,r.below(4)==0?0:length(r),rawv); x.n=i*1000000007u+r.below(3); x.num=(long long)r.u(); if(r.flip()) x.num=r.below(1000); rows.push_back(x); }
  string K="K",T="T"; if(r.below(4)==0) T="T"+string(1+r.below(150),'t'); 
  sqlite3_open(":memory:",&g_db); auto ex=[&](const string&q){ sqlite3_exec(g_db,q.c_str(),0,0,0); };
  ex("CREATE TABLE "+T+" (K TEXT, V TEXT, N INTEGER, NUM INTEGER)"); { sqlite3_stmt*s; sqlite3_prepare_v2(g_db,("INSERT INTO "+T+" VALUES(?,?,?,?)").c_str(),-1,&s,0); for(auto&x:rows){ sqlite3_bind_text(s,1,x.k.data(),x.k.size(),SQLITE_STATIC); if(x.null) sqlite3_bind_null(s,2); else sqlite3_bind_text(s,2,x.v.data(),x.v.size(),SQLITE_STATIC); sqlite3_bind_int64(s,3,x.n); sqlite3_bind_int64(s,4,x.num); sqlite3_step(s); sqlite3_reset(s); } sqlite3_finalize(s); }
  unsigned retries=r.below(6); bool defr=r.flip(); if(defr) retries=5; int hit=n&&r.below(4)?(int)r.below(n):-1; string key=hit>=0?rows[hit].k:"x"+text(r,length(r),false); unsigned nkey=hit>=0?rows[hit].n:4000000000u; const Row*row=hit>=0?&rows[hit]:0;
  bool badcol=r.below(10)==0; const char*col=badcol?"NOSUCH":"V",*ncol=badcol?"NOSUCH":"NUM"; bool late=false; int rp=badcol?1:0; g_on=true;
  auto expect=[&](int real_p,int real_s,unsigned rt,int&pc,int&sc){ pc=sim.phase(rt,real_p); sc=-1; if(pc==0) sc=sim.phase(rt,real_s); };
  auto done=[&]()->int{ if(!g_msg[0]&&!g_live.empty()) NOTE("a prepared statement is not released"); if(!g_msg[0]&&g_pos!=sim.pos) NOTE("%d attempts were made, expected %d",(int)g_pos,(int)sim.pos); return g_msg[0]!=0; };
  int pc,sc; (void)late;
  switch(op){
    case 0: { string ins="INSERT INTO "+T+" (K,N) VALUES('"+key+"+',7)",q; int rs=101; rp=0; switch(r.below(4)){ case 0: q="GARBAGE "+key; rp=1; break; case 1: q="SELECT * FROM "+T; rs=n?100:101; break; default: q=ins; }
      expect(rp,rs,retries,pc,sc); int code=12345; bool want=sc==100||sc==101,z; unsigned how=r.below(3); if(how==0) z=defr?sqlite_command(g_db,q.c_str(),&code):sqlite_command(g_db,q.c_str(),&code,retries); else if(how==1) z=defr?sqlite_command(g_db,q.c_str()):sqlite_command(g_db,q.c_str(),0,retries); else z=defr?sqlite3_command(g_db,q.c_str()):sqlite3_command(g_db,q.c_str(),retries);
      if(z!=want) BADX("command returns %d although the database %s",z,want?"ran it":"did not run it"); if(how==0&&code!=(pc?-2:sc)) BADX("result code %d, expected %d",code,pc?-2:sc); if(done()) return 1;
      if(q==ins){ g_on=false; sqlite3_stmt*s; sqlite3_prepare_v2(g_db,("SELECT N FROM "+T+" WHERE K='"+key+"+'").c_str(),-1,&s,0); bool there=sqlite3_step(s)==100; sqlite3_finalize(s); if(there!=want) BADX("the statement reported %s was %s",want?"run":"not run",there?"run":"not run"); } return 0; }
    case 1: { expect(0,row?100:101,retries,pc,sc); bool z=defr?sqlite3_exists(g_db,T.c_str(),"K",key.c_str()):sqlite3_exists(g_db,T.c_str(),"K",key.c_str(),retries); if(z!=(sc==100)) BADX("sqlite3_exists gives %d, expected %d",z,sc==100); return done(); }
    case 2: { expect(rp,row?100:101,retries,pc,sc); unsigned v=77; bool z=defr?sqlite3_single_lookup(g_db,T.c_str(),"K",key.c_str(),ncol,v):sqlite3_single_lookup(g_db,T.c_str(),"K",key.c_str(),ncol,v,retries); if(z!=(sc==100)) BADX("lookup gives %d, expected %d",z,sc==100); if(v!=(z?(unsigned)row->num:77u)) BADX("lookup gives the number %u",v); return done(); }
    case 3: case 4: { expect(rp,row?100:101,retries,pc,sc); char*v=(char*)1; bool z=op==3?(defr?sqlite3_single_lookup(g_db,T.c_str(),"K",key.c_str(),col,v):sqlite3_single_lookup(g_db,T.c_str(),"K",key.c_str(),col,v,retries)):(defr?sqlite3_single_lookup(g_db,T.c_str(),"N",nkey,col,v):sqlite3_single_lookup(g_db,T.c_str(),"N",nkey,col,v,retries));
      if(z!=(sc==100)) BADX("lookup gives %d, expected %d",z,sc==100); if(!z||row->null){ if(v) BADX("lookup without a value gives a text"); } else { if(!v) BADX("lookup gives no text"); if(row->v!=v) BADX("lookup gives the wrong text"); } free(v); return done(); }
    case 5: case 6: { expect(rp,row?100:101,5,pc,sc); string v="before"; bool z=op==5?sqlite_single_lookup(g_db,T.c_str(),"K",key.c_str(),col,v):sqlite_single_lookup(g_db,T.c_str(),"N",nkey,col,v); if(z!=(sc==100)) BADX("lookup gives %d, expected %d",z,sc==100); if(v!=(!z?"before":row->null?string():row->v)) BADX("lookup gives the wrong text"); return done(); }
    case 7: { expect(rp,row?100:101,5,pc,sc); string v=sqlite_single_lookup_string(g_db,T.c_str(),"K",key.c_str(),col); if(v!=(sc!=100||row->null?string():row->v)) BADX("lookup gives the wrong text"); return done(); }
    case 8: { string v=text(r,length(r),false); int c1=0,s1=0,c2=-1,s2=-1; expect(0,101,5,c1,s1); if(c1==0&&(s1==101||s1==100)) expect(0,101,5,c2,s2); bool want=s2==101,z=sqlite_set_attr(g_db,key.c_str(),v.c_str()); if(z!=want) BADX("sqlite_set_attr gives %d, expected %d",z,want); if(done()) return 1; bool tab=c1==0&&s1==101;
      int real=tab?0:1; expect(real,want?100:101,5,pc,sc); string g=sqlite_get_attr(g_db,key.c_str()); if(g!=(sc==100?v:"")) BADX("the attribute stored does not come back"); return done(); }
    case 9: { unsigned how=r.below(3); vector<const Row*> sel; if(how==0) for(auto&x:rows) sel.push_back(&x); else if(row) sel.push_back(row); expect(0,sel.empty()?101:100,5,pc,sc); { string cond=r.flip()?"ORDER BY ROWID":"WHERE 1"; if(r.flip()) cond+=" LIMIT "+std::to_string(1000000+r.below(9)); if(r.below(3)==0) cond+=string(r.below(200),' ');
        sqlQuery*q=how==0?new sqlQuery(g_db,T.c_str(),"K,V,NUM",cond.c_str()):how==1?new sqlQuery(g_db,T.c_str(),"K,V,NUM","K",key.c_str()):new sqlQuery(g_db,T.c_str(),"K,V,NUM","N",nkey); size_t at=0; int cur=sc; int steps=1+r.below(6);
        for(int i=0;i<steps;i++){ bool has=cur==100; if(q->sqlSuccess()!=has) { delete q; BADX("sqlSuccess gives %d, expected %d",!has,has); } if(q->sqlResultSize()!=(has?3u:0u)){ delete q; BADX("number of columns wrong"); }
          for(int j=0;j<3;j++){ int c=r.below(3); if(c==2){ if(q->getResultInt(2)!=(has?sel[at]->num:0)){ delete q; BADX("number of the row wrong"); } } else { string want=!has?"":c==0?sel[at]->k:sel[at]->null?"":sel[at]->v,got=c==0&&r.flip()?q->getResultText():q->getResultText(c); if(got!=want){ delete q; BADX("text of the row wrong"); } } }
          int next=cur; if(has){ next=sim.phase(5,at+1<sel.size()?100:101); if(next==100) at++; } bool z=q->sqlStep(); if(z!=(next==100)){ delete q; BADX("sqlStep gives %d, expected %d",z,next==100); } cur=next; }
        delete q; } return done(); }
    default: { string q=r.below(4)?"SELECT K FROM "+T:"GARBAGE"; int p0=q=="GARBAGE"; pc=sim.phase(retries,p0); sqlite3_stmt*s=(sqlite3_stmt*)0x10; int c=sqlite3_prepare_statement(g_db,&s,q.c_str(),retries); if(c!=pc) BADX("sqlite3_prepare_statement gives %d, expected %d",c,pc); if(pc==0){ if(!g_live.count(s)) BADX("no statement is handed over"); sc=sim.phase(retries,n?100:101); c=sqlite3_run_query(g_db,s,retries); if(c!=sc) BADX("sqlite3_run_query gives %d, expected %d",c,sc); sqlite3_finalize(s); } return done(); }
  } return 0; }
static int all(unsigned op,uint64_t seed,const vector<int>&script){ int r=run(op,Rng(seed),script); g_on=false; for(auto s:std::set<sqlite3_stmt*>(g_live)) sqlite3_finalize(s); g_live.clear(); sqlite3_close_v2(g_db); if(r) printf("VIOLATED: %s\n",g_msg); return r; }
static vector<int> faults(Rng&r){ vector<int> s; static const int code[]={5,6,5,6,1,11,10,7,17,21,517}; int m=r.below(3); if(m) { int n=1+r.below(14); for(int i=0;i<n;i++) s.push_back(m==1?(r.below(3)?0:code[r.below(11)]):(r.below(4)?code[r.below(4)]:r.below(3)?0:code[r.below(11)])); } return s; }
static const char*names[]={"sqlite_command","sqlite3_exists","sqlite3_single_lookup (number)","sqlite3_single_lookup (text)","sqlite3_single_lookup (text, numeric key)","sqlite_single_lookup (text)","sqlite_single_lookup (text, numeric key)","sqlite_single_lookup_string","sqlite_set_attr","sqlQuery","sqlite3_prepare_statement"};
static int one(const In&in){ freopen("/dev/null","w",stderr);
  if(in.has("code")){ vector<int> s; for(auto x:in.a("script")) s.push_back(x); return all(in.u("code")%11,in.u("seed"),s); }
  unsigned op=in.u("op")%11; for(uint64_t k=0;k<3000;k++){ Rng r(k); auto s=faults(r); if(all(op,k,s)) return 1; } return 0; }
static In gen(Rng&r,const std::string&){ In i; i.set("code",r.below(11)); i.set("seed",r.u()>>1); i.arr("script",faults(r)); return i; }
