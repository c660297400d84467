// SRCS: LinkedLists.cpp
#include "drv.h"
#include "LinkedLists.h"
#include <deque>
#include <set>
// nodes allocated inside the library: counted, and freed by the driver (a PointerFIFO has no destructor)
static bool g_in=false,g_busy=false; static long g_count=0; static std::set<void*>&g_nodes=*new std::set<void*>;
void*operator new(size_t n){ void*p=malloc(n?n:1); if(g_in){ g_in=false; g_nodes.insert(p); g_count++; g_in=true; } return p; }
void operator delete(void*p) noexcept { if(p&&!g_busy&&!g_nodes.empty()){ g_busy=true; bool i=g_in; g_in=false; g_nodes.erase(p); g_in=i; g_busy=false; } free(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
template<class F> static auto lib(F f){ g_in=true; auto r=f(); g_in=false; return r; }
// history: "ops" array of numbers; code%4: 0 put, 1 push-front, 2 get, 3 a run of gets until empty (rarely); every element is a distinct number or null
struct El : SingleLinkListNode { unsigned sz; long tag; unsigned size(){ return sz; } };
static int fifo(const std::vector<uint64_t>&ops){
  struct Free{ ~Free(){ g_busy=true; for(void*p:g_nodes) free(p); g_nodes.clear(); g_busy=false; } } fr; PointerFIFO f; std::deque<void*> w; long n=0; size_t most=0; g_count=0; 
  auto same=[&]{ if(f.size()!=w.size()) return false; return f.front()==(w.empty()?0:w.front()); };
  for(auto o:ops){ int k=o%8;
    if(k<=2){ void*v=(o>>8)%7==0?0:(void*)(0x1000+8*++n); lib([&]{f.put(v);return 0;}); w.push_back(v); }
    else if(k==3){ void*v=(void*)(0x1000+8*++n); lib([&]{f.push_front(v);return 0;}); w.push_front(v); }
    else if(k<=6){ void*v=lib([&]{return f.get();}),*x=w.empty()?0:w.front(); if(!w.empty()) w.pop_front(); if(v!=x) BAD("get returned %p, expected %p",v,x); }
    else { while(!w.empty()){ void*v=lib([&]{return f.get();}); if(v!=w.front()) BAD("draining: got %p, expected %p",v,w.front()); w.pop_front(); } if(f.get()) BAD("get of an empty FIFO"); }
    if(w.size()>most) most=w.size(); if((size_t)g_count>most) BAD("%ld nodes were allocated although never more than %zu elements were present",g_count,most); if(!same()) BAD("size %u, expected %zu (or front differs)",f.size(),w.size()); }
  while(!w.empty()){ void*v=lib([&]{return f.get();}); if(v!=w.front()) BAD("at the end: got %p, expected %p",v,w.front()); w.pop_front(); }
  if(f.get()||f.size()) BAD("not empty at the end"); return 0; }
static int intrusive(const std::vector<uint64_t>&ops){
  SingleLinkList<> l; std::deque<El*> w; std::vector<El*> all; long n=0; unsigned tot=0; int r=0;
  auto mk=[&](uint64_t o){ El*e=new El; e->sz=(o>>16)%1000; e->tag=++n; e->mNext=(El*)0x8888; all.push_back(e); return e; };
  auto go=[&]()->int{
    for(auto o:ops){ int k=o%8;
      if(k<=2){ El*e=mk(o); if(o&256) l.put(e); else l.push_back(e); w.push_back(e); tot+=e->sz; }
      else if(k==3){ El*e=mk(o); l.push_front(e); w.push_front(e); tot+=e->sz; }
      else { int m=k==7?w.size()+1:1; while(m--){ El*v=(El*)(o&256?l.get():l.pop_front()),*x=w.empty()?0:w.front(); if(x){ w.pop_front(); tot-=x->sz; } if(v!=x) BAD("pop_front returned the wrong element"); if(v&&v->next()) BAD("a removed element still points into the list"); if(v&&(o&512)){ w.push_back(v); l.push_back(v); tot+=v->sz; } } }
      if(l.size()!=w.size()||l.totalSize()!=tot) BAD("size %u total %u, expected %zu and %u",l.size(),l.totalSize(),w.size(),tot);
      if(l.front()!=(w.empty()?0:w.front())||l.back()!=(w.empty()?0:w.back())) BAD("front or back differ"); }
    return 0; };
  r=go(); long t=0; for(El*e:all){ if(e->tag!=++t) { printf("VIOLATED: an element's contents changed\n"); r=1; } delete e; } return r; }
static int one(const In&in){ std::vector<uint64_t> ops=in.a("ops");
  if(!in.has("ops")){ // shape given by the verifier: build it, apply the operation, then drain, refill and drain
    int n=in.i("n"),p=in.i("pool"); std::string op=in.s("op"); for(int k=0;k<n+p;k++) ops.push_back(256); for(int k=0;k<p;k++) ops.push_back(4); for(int rep=0;rep<3;rep++){ ops.push_back(op=="put"?256:op=="push_back"?0:op=="push_front"?3:op=="get"?260:op=="pop_front"?4:0); } ops.push_back(7); for(int k=0;k<3;k++) ops.push_back(1); ops.push_back(4); ops.push_back(3); ops.push_back(7); }
  if(ops.size()>2000000) return 3;
  return in.s("list")=="intrusive"?intrusive(ops):fifo(ops); }
static In gen(Rng&r,const std::string&h){ In i; bool s=h.find("SingleLink")!=std::string::npos,f=h.find("FIFO")!=std::string::npos; i.sets("list",s&&!f?"intrusive":f&&!s?"fifo":r.flip()?"fifo":"intrusive"); std::vector<uint64_t> o; uint64_t n=r.below(200)==0?20000+r.below(200000):r.below(10)==0?r.below(400):r.below(12); int b=r.below(3); for(uint64_t k=0;k<n;k++){ uint64_t x=r.u()>>8; if(n>1000&&b==0) x=x%97==0?x&~7ull|4:x&~7ull; if(n>1000&&x%8==7&&r.below(500)) x^=3; o.push_back(x); } i.arr("ops",o); return i; }
