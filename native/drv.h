// common part of the native replay/search drivers: drv replay FILE | drv search OUTFILE seed secs hint
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <stdint.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <functional>
#include <random>
#include <sys/wait.h>
#include <unistd.h>
struct In {
  std::map<std::string,std::vector<std::string>> m;
  bool has(const std::string&k) const { return m.count(k); }
  std::string s(const std::string&k,std::string d="") const { auto i=m.find(k); return i==m.end()||i->second.empty()?d:i->second[0]; }
  uint64_t u(const std::string&k,uint64_t d=0) const { auto i=m.find(k); return i==m.end()||i->second.empty()?d:strtoull(i->second[0].c_str(),0,0); }
  int64_t i(const std::string&k,int64_t d=0) const { auto x=m.find(k); if(x==m.end()||x->second.empty())return d; const char*c=x->second[0].c_str(); return *c=='-'?strtoll(c,0,0):(int64_t)strtoull(c,0,0); }
  std::vector<uint64_t> a(const std::string&k) const { std::vector<uint64_t> r; auto i=m.find(k); if(i!=m.end()) for(size_t j=1;j<i->second.size();j++) r.push_back(strtoull(i->second[j].c_str(),0,0)); return r; }
  void set(const std::string&k,uint64_t v){ m[k]={std::to_string(v)}; }
  void seti(const std::string&k,int64_t v){ m[k]={std::to_string(v)}; }
  void sets(const std::string&k,std::string v){ m[k]={v}; }
  template<class T> void arr(const std::string&k,const std::vector<T>&v){ std::vector<std::string> r={std::to_string(v.size())}; for(auto x:v) r.push_back(std::to_string((uint64_t)x)); m[k]=r; }
  std::string text() const { std::string o; for(auto&p:m){ o+=p.first; for(auto&x:p.second) o+=" "+x; o+="\n"; } return o; }
  static In parse(std::istream&f){ In r; std::string l; while(std::getline(f,l)){ if(l.empty()||l[0]=='#') continue; std::istringstream t(l); std::string k,x; t>>k; std::vector<std::string> v; while(t>>x) v.push_back(x); r.m[k]=v; } return r; }
};
struct Rng { std::mt19937_64 g; Rng(uint64_t s):g(s){} uint64_t u(){return g();} uint64_t below(uint64_t n){return n?g()%n:0;} bool flip(){return g()&1;} 
  uint64_t edge(){ switch(below(4)){case 0:return below(4); case 1:return ~below(4); case 2:return (1ull<<below(64))+below(3)-1; default:return g();} } };
static std::string &g_cur=*new std::string,&g_out=*new std::string; static bool g_search=false;
static void g_save(){ if(!g_search) return; FILE*f=fopen(g_out.c_str(),"w"); if(f){ fwrite(g_cur.data(),1,g_cur.size(),f); fclose(f);} }
static void g_sig(int n){ const char*m=n==SIGALRM?"hang: operation did not return\n":n==SIGABRT?"abort or failed assertion\n":"crash signal\n"; (void)!write(1,m,strlen(m)); g_save(); _exit(n==SIGALRM?98:99); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void(*)(void)); extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak)); extern "C" void __lsan_do_leak_check(void);
static bool g_leaks(){ const char*e=getenv("ASAN_OPTIONS"); return e&&strstr(e,"detect_leaks=1")&&__lsan_do_recoverable_leak_check; }
#endif
static int one(const In&);          // 0 holds, 1 violated (message printed), 3 not applicable
static In gen(Rng&,const std::string&hint);
// run f in a child: returns exit status 0..255, or 128+signal
static int child(std::function<int()> f){ fflush(stdout); pid_t p=fork(); if(!p){ signal(SIGABRT,SIG_DFL); signal(SIGSEGV,SIG_DFL); signal(SIGALRM,SIG_DFL); g_search=false; freopen("/dev/null","w",stderr); alarm(8); int r=f(); fflush(stdout); _exit(r);} int st=0; waitpid(p,&st,0); return WIFSIGNALED(st)?128+WTERMSIG(st):WEXITSTATUS(st); }
#define BAD(...) do{ printf("VIOLATED: "); printf(__VA_ARGS__); printf("\n"); return 1; }while(0)
int main(int c,char**v){
  setvbuf(stdout,0,_IOLBF,0);
  signal(SIGABRT,g_sig); signal(SIGSEGV,g_sig); signal(SIGALRM,g_sig); signal(SIGFPE,g_sig);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(g_save);
#endif
  if(c>=3&&!strcmp(v[1],"replay")){ std::ifstream f(v[2]); In in=In::parse(f); alarm(15); return one(in); }
  if(c>=5&&!strcmp(v[1],"search")){
    g_search=true; g_out=v[2]; Rng r(strtoull(v[3],0,0)); double secs=atof(v[4]); std::string hint=c>5?v[5]:""; time_t t0=time(0); unsigned long n=0; std::vector<std::string> hist;
    while(difftime(time(0),t0)<secs){ In in=gen(r,hint); g_cur=in.text(); hist.push_back(g_cur); alarm(10); int x=one(in); alarm(0); if(x!=0&&x!=3){ g_save(); return x; } n++;
#if defined(__SANITIZE_ADDRESS__)
      // a leak: find the input by running the recent ones again, each in a process of its own
      if(hist.size()>=(g_leaks()?400u:1u)||difftime(time(0),t0)>=secs){ if(g_leaks()&&__lsan_do_recoverable_leak_check()) for(auto&h:hist){ g_cur=h; g_save(); std::string cmd="/proc/self/exe"; fflush(stdout); pid_t p=fork(); if(!p){ freopen("/dev/null","w",stdout); freopen("/dev/null","w",stderr); execl("/proc/self/exe","drv","replay",g_out.c_str(),(char*)0); _exit(9);} int w=0; waitpid(p,&w,0); if(w){ printf("VIOLATED: memory is leaked\n"); fflush(stdout); _exit(77);} } hist.clear(); }
#else
      hist.clear();
#endif
    }
#if defined(__SANITIZE_ADDRESS__)
    printf("searched %lu inputs\n",n); fflush(stdout); _exit(0);
#endif
    printf("searched %lu inputs\n",n); return 0;
  }
  return 2;
}
