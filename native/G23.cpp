// SRCS: Utils.cpp Threads.cpp Timeval.cpp Logger.cpp Configuration.cpp sqlite3util.cpp
// LIBS: -lsqlite3 -ldl
// FLAGS: -Wno-all
#include "drv.h"
#include <iostream>
#include <deque>
#include <syslog.h>
#include <stdarg.h>
#include "sqlite3util.h"
#define LOG_GROUP LogGroup::GSM
#include "Configuration.h"
#include "Logger.h"
ConfigurationTable gConfig;
int levelStringToInt(const std::string&); void addAlarm(const std::string&);
using std::string; using std::vector;
// The real logger on a configuration in memory; syslog is captured. Reference: the level a text names, the settings read directly.
static vector<std::pair<int,string>>& g_sysf(){ static auto&v=*new vector<std::pair<int,string>>; return v; }
#define g_sys g_sysf()
static char g_msg[300];
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
static void took(int p,const char*f,va_list a){ char b[8192]; vsnprintf(b,sizeof b,f,a); g_sys.push_back({p,b}); }
extern "C" { void syslog(int p,const char*f,...){ va_list a; va_start(a,f); took(p,f,a); va_end(a); } void __syslog_chk(int p,int,const char*f,...){ va_list a; va_start(a,f); took(p,f,a); va_end(a); } void vsyslog(int p,const char*f,va_list a){ took(p,f,a); } void __vsyslog_chk(int p,int,const char*f,va_list a){ took(p,f,a); } void openlog(const char*,int,int){} }
static const char*NM[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG"};
static const char*TX[]={"EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG","INFORMATION","WARN","ERROR","CRITICAL","EMERGENCY","","debug","7","NOTICEX","DEBU"," INFO","level"};
static int levref(const string&t){ for(int i=0;i<8;i++) if(t==NM[i]) return i; if(t=="INFORMATION") return 6; if(t=="WARN") return 4; if(t=="ERROR") return 3; if(t=="CRITICAL") return 2; if(t=="EMERGENCY") return 0; return -1; }
static int levref2(const string&t){ int l=levref(t); return l<0?5:l; }
static string text(Rng&r){ if(r.below(12)==0){ string s; unsigned n=r.below(40); for(unsigned i=0;i<n;i++) s+=(char)(33+r.below(90)); for(auto&c:s) if(c=='"'||c=='\'') c='q'; return s; } return TX[r.below(20)]; }
static int inforce(const string&f){ string k="Log.Level."+f; if(gConfig.defines(k)){ string v=gConfig.getStr(k); if(v.size()) return levref2(v); } return levref2(gConfig.getStr("Log.Level")); }
static int get(const string&f){ char*p=strdup(f.c_str()); int l=gGetLoggingLevel(p); free(p); return l; }
static const char*names[]={"levels","gGetLoggingLevel","addAlarm","gGetLoggerAlarms","emit","LOG","setAll"};
static void levels(Rng&r){ for(int k=0;k<20;k++){ string t=text(r); int l=levelStringToInt(t); if(l!=levref(t)) NOTE("\"%s\" is level %d, expected %d",t.c_str(),l,levref(t)); } }
static void files(Rng&r){ static unsigned long serial=0; string base="f"+std::to_string(r.u()%1000000)+"."; gConfig.set("Log.Level",text(r).c_str()); vector<string> used; int n=1+r.below(6);
  for(int i=0;i<n&&!g_msg[0];i++){ string f=r.below(8)==0?string(1+r.below(250),'p')+base:base+std::to_string(i); f+=std::to_string(serial++); int m=r.below(4); if(m) gConfig.set("Log.Level."+f,m==1?string(""):text(r)); if(r.below(5)==0) gConfig.set("Log.Level",text(r)); int e=inforce(f),l=get(f); used.push_back(f); if(l!=e) NOTE("level of a file is %d, %d is in force",l,e); else if(inforce(f)!=e&&e!=5) NOTE("asking for a level changed it");
    l=get(f); if(l!=e) NOTE("level of a file is %d when asked again, expected %d",l,e); }
  if(!g_msg[0]&&r.below(10)==0){ string f=used[r.below(used.size())]; gConfig.set("Log.Level."+f,r.flip()?"ALERT":"DEBUG"); bool w=r.flip(); for(int i=0;i<1002;i++) get(w?f:base); int e=inforce(f); get(base); int l=get(f); if(l!=e) NOTE("a new level is not used after 1002 uses (%d, expected %d)",l,e); }
  if(!g_msg[0]&&r.below(6)==0){ gConfig.set("Log.Level",TX[r.below(8)]); gConfig.remove("Log.Level."); for(int i=0;i<1002;i++) get(base); int e=inforce(""),l=gGetLoggingLevel(NULL); if(l!=e) NOTE("the global level is %d, expected %d",l,e); } }
static string alarmtext(Rng&r){ string s; unsigned n=r.below(60); if(r.below(10)==0) n=r.below(4000); for(unsigned i=0;i<n;i++) s+=r.below(9)==0?'%':(char)(33+r.below(90)); return s; }
static void samealarms(const std::deque<string>&w){ std::list<string> l=gGetLoggerAlarms(); if(l.size()!=w.size()){ NOTE("%d alarms are remembered, expected %d",(int)l.size(),(int)w.size()); return; } unsigned k=0; for(auto&x:l) if(x!=w[k++]) { NOTE("alarm %u remembered is another one",k-1); return; } }
static void alarms(Rng&r){ std::list<string> l=gGetLoggerAlarms(); std::deque<string> w(l.begin(),l.end()); int n=1+r.below(100); unsigned mx=gConfig.getNum("Log.Alarms.Max");
  for(int i=0;i<n&&!g_msg[0];i++){ if(r.below(6)==0){ mx=r.below(4)?r.below(12):20+r.below(90); gConfig.set("Log.Alarms.Max",(long)mx); } string s=alarmtext(r); w.push_back(s); while(w.size()>mx) w.pop_front(); addAlarm(s); samealarms(w); } gConfig.set("Log.Alarms.Max",(long)20); }
static void emit(Rng&r){ gConfig.set("Log.Alarms.Max",(long)20); std::list<string> l=gGetLoggerAlarms(); std::deque<string> w(l.begin(),l.end()); int p=r.below(8); string s=alarmtext(r); g_sys.clear(); { Log(p).get()<<s; } string e=string(NM[p])+" "+s; if(g_sys.size()!=1) NOTE("a message is sent %d times",(int)g_sys.size()); else if(g_sys[0].first!=p) NOTE("a message of severity %d is sent with %d",p,g_sys[0].first); else if(g_sys[0].second!=e) NOTE("a message is not sent as it is");
  if(p<=2){ w.push_back(e); while(w.size()>20) w.pop_front(); } samealarms(w); }
#define SAY(L) { g_sys.clear(); LOG(L)<<"said"; bool on=false; for(auto&m:g_sys) if(m.first==LOG_##L&&m.second.find("said")!=string::npos) on=true; bool e=LOG_##L<=own||LOG_##L<=gLogGroup.mDebugLevel[LogGroup::GSM]; if(on!=e) NOTE("LOG(" #L ") is %s with level %d and group level %d",on?"emitted":"not emitted",own,gLogGroup.mDebugLevel[LogGroup::GSM]); if((int)g_sys.size()>1) NOTE("a message is sent twice"); }
static void say(Rng&r){ string k=string("Log.Level.")+__FILE__; for(auto&c:k) if(c=='"') c='_'; int own=r.below(8); gConfig.set(k,NM[own]); for(int i=0;i<1002;i++) get("spin"); get(__FILE__); for(int i=0;i<6;i++) gLogGroup.mDebugLevel[i]=r.below(8); SAY(EMERG) SAY(ALERT) SAY(CRIT) SAY(ERR) SAY(WARNING) SAY(NOTICE) SAY(INFO) SAY(DEBUG) }
static void groups(Rng&r){ static const char*G[]={"Control","SIP","GSM","GPRS","Layer2","SMS"}; int e[12]; gConfig.set("Log.Level","NOTICE");
  for(int j=0;j<12;j++){ string k=string(j<6?"Log.Group.":"Log.Watch.")+G[j%6]; int m=r.below(4); gConfig.remove(k); if(m) { string t=m==1?string(""):text(r); if(r.below(6)==0) t+=string(40,'x'); gConfig.set(k,t); e[j]=t.size()?levref2(t):0; } else e[j]=0; }
  gLogGroup.setAll(); for(int j=0;j<12;j++){ int v=j<6?gLogGroup.mDebugLevel[j]:gLogGroup.mWatchLevel[j-6]; if(v!=e[j]) NOTE("%s level of group %s is %d, expected %d",j<6?"log":"watch",G[j%6],v,e[j]); } }
static int run(unsigned op,uint64_t seed){ Rng r(seed); g_msg[0]=0; g_sys.clear(); switch(op){ case 0: levels(r); break; case 1: files(r); break; case 2: case 3: alarms(r); break; case 4: emit(r); break; case 5: say(r); break; default: groups(r); } if(g_msg[0]) printf("VIOLATED: %s\n",g_msg); return g_msg[0]!=0; }
static int one(const In&in){ if(!getenv("G23ERR")) freopen("/dev/null","w",stderr); if(in.has("code")) return run(in.u("code")%7,in.u("seed")); string n=in.s("op"); unsigned op=6; for(unsigned i=0;i<7;i++) if(n.compare(0,strlen(names[i]),names[i])==0) op=i; for(uint64_t k=0;k<(op==1||op==5?300:2000);k++) if(run(op,k)) return 1; return 0; }
static In gen(Rng&r,const std::string&){ In i; unsigned c=r.below(7); if(c==5&&r.below(4)) c=6; i.set("code",c); i.set("seed",r.u()>>1); return i; }
