// SRCS: Utils.cpp Threads.cpp Timeval.cpp Logger.cpp Configuration.cpp sqlite3util.cpp
// LIBS: -lsqlite3 -ldl
#include "drv.h"
#include <pthread.h>
#include <dlfcn.h>
#include <iostream>
#include "Utils.h"
#include "Configuration.h"
#undef BAD
ConfigurationTable gConfig;
// This thread runs counted-pointer operations; the other threads copy and drop their own pointers to the same objects wherever the real code lets them
// in: before it takes an object's lock and after it gives it up. Objects count their destructions; use after deletion is caught by the sanitizer.
static char g_msg[300];
#define BAD(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); return 1; }while(0)
#define NOTE(...) do{ if(!g_msg[0]) snprintf(g_msg,sizeof g_msg,__VA_ARGS__); }while(0)
struct Obj; struct Info { Obj*p; int dead; int cnt; int depth; };
static std::vector<Info> g_obj; static bool g_on=false,g_other=false; static std::vector<uint64_t> g_script; static size_t g_pos;
struct Obj : public RefCntBase { int id; RefCntPointer<Obj> next; Obj(int i):id(i){} virtual ~Obj(); };
typedef RefCntPointer<Obj> Ptr;
Obj::~Obj(){ if(id<0||id>=(int)g_obj.size()) { NOTE("something that is no object is destroyed"); return; } Info&i=g_obj[id]; if(i.dead++) NOTE("object %d is destroyed twice",id); if(i.depth) NOTE("object %d is destroyed while its lock is held",id); i.p=0; }
static std::vector<Ptr>*g_theirs;           // pointers of the other threads
static int find(const void*m){ if(g_on) for(size_t k=0;k<g_obj.size();k++) if(g_obj[k].p&&(char*)m>=(char*)g_obj[k].p&&(char*)m<(char*)(g_obj[k].p+1)) return k; return -1; }
static void settle(int k,const char*w){ Info&i=g_obj[k]; if(i.p&&i.p->getRefCnt()!=i.cnt) NOTE("the count of object %d changed from %d to %d without its lock (%s)",k,i.cnt,i.p->getRefCnt(),w); }
static void others(){ if(g_other||g_msg[0]) return; for(auto&i:g_obj) if(i.depth) return; g_other=true;
  for(int n=0;n<4&&g_pos<g_script.size();n++){ uint64_t s=g_script[g_pos++]; std::vector<Ptr>&t=*g_theirs; if((s&3)==3) break; if(t.empty()) continue; size_t x=(s>>2)%t.size(); if((s&3)==0&&t.size()<12) t.push_back(Ptr(t[x])); else t.erase(t.begin()+x); }
  g_other=false; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock"); int k=find(m); if(k<0) return f(m); others(); k=find(m); if(k<0){ NOTE("the lock of an object is taken after the object is gone"); return f(m); } if(!g_obj[k].depth++) settle(k,"before the lock was taken"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { static auto f=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_unlock"); int k=find(m); if(k<0) return f(m); if(g_obj[k].depth<=0) NOTE("an object's lock is given up although it is not held"); else if(!--g_obj[k].depth) g_obj[k].cnt=g_obj[k].p->getRefCnt(); int r=f(m); if(!g_obj[k].depth) others(); return r; }
}
enum { NP=4 }; static Ptr*g_ptr; static int g_ref[NP];
static Obj*make(){ int k=g_obj.size(); g_obj.push_back(Info{0,0,0,0}); Obj*o=new Obj(k); g_obj[k].p=o; if(o->getRefCnt()!=0) NOTE("a new object has the count %d",o->getRefCnt()); return o; }
static int audit(){ if(g_msg[0]) return 1; std::vector<int> n(g_obj.size(),0);
  for(int k=0;k<NP;k++){ Obj*want=g_ref[k]<0?0:g_obj[g_ref[k]].p; if(g_ref[k]>=0&&!want) BAD("object %d was deleted although a pointer refers to it",g_ref[k]); if(g_ptr[k].self()!=want) BAD("pointer %d refers to the wrong object",k); if(want) n[g_ref[k]]++; }
  for(auto&p:*g_theirs){ if(p.self()==0) BAD("a pointer of another thread is null"); for(size_t k=0;k<g_obj.size();k++) if(g_obj[k].p==p.self()) { n[k]++; goto ok; } BAD("object was deleted although a pointer of another thread refers to it"); ok:; }
  for(size_t k=0;k<g_obj.size();k++) if(g_obj[k].p&&g_obj[k].p->next.self()) for(size_t j=0;j<g_obj.size();j++) if(g_obj[j].p==g_obj[k].p->next.self()) n[j]++;
  for(size_t k=0;k<g_obj.size();k++){ Info&i=g_obj[k]; if(i.depth) BAD("the lock of object %d is still held",(int)k); if(n[k]&&!i.p) BAD("object %d was deleted although a pointer refers to it",(int)k); if(i.p){ if(!n[k]) BAD("object %d was not deleted although its last pointer is gone",(int)k); settle(k,"at the end of the operation"); if(i.p->getRefCnt()!=n[k]) BAD("object %d has the count %d, expected %d",(int)k,i.p->getRefCnt(),n[k]); } }
  return g_msg[0]!=0; }
static Ptr pass(Ptr p){ return p; }
// code: op + 32*(p + NP*(q + NP*extra)); q also selects where a plain pointer comes from
static int step(uint64_t c){ int op=c%20,a=c/32%NP,b=c/32/NP%NP; unsigned e=c/32/NP/NP%8; Ptr&p=g_ptr[a],&q=g_ptr[b]; Obj*pp=g_ref[a]<0?0:g_obj[g_ref[a]].p,*qq=g_ref[b]<0?0:g_obj[g_ref[b]].p; bool z; int rp=g_ref[a];
  auto raw=[&]()->Obj*{ if(e==0) return 0; if(e<4) return make(); return qq; }; Obj*r=0; auto id=[&](Obj*o){ return o?o->id:-1; };
  switch(op){
    case 0: { r=raw(); int k=id(r); p=r; g_ref[a]=k; break; }
    case 1: { r=raw(); int k=id(r); p=Ptr(r); g_ref[a]=k; break; }
    case 2: { const Ptr&cq=q; if(e&1) p=cq; else p=q; g_ref[a]=g_ref[b]; break; }
    case 3: p=(Obj*)0; g_ref[a]=-1; break;
    case 4: p.free(); g_ref[a]=-1; break;
    case 5: p.~Ptr(); new(&p) Ptr; g_ref[a]=-1; break;
    case 6: if(a!=b){ p.~Ptr(); const Ptr&cq=q; if(e&1) new(&p) Ptr(cq); else new(&p) Ptr(q); g_ref[a]=g_ref[b]; } break;
    case 7: { r=raw(); int k=id(r); { Ptr x(r); p.~Ptr(); new(&p) Ptr(r); } g_ref[a]=k; break; }
    case 8: p=pass(q); g_ref[a]=g_ref[b]; break;
    case 9: { Ptr t(p); p=q; q=t; g_ref[a]=g_ref[b]; g_ref[b]=rp; break; }
    case 10: z=(p==q); if(z!=(pp==qq)) BAD("p == q gives %d",z); if((p!=q)!=(pp!=qq)) BAD("p != q is wrong"); break;
    case 11: z=(p==(const Obj*)qq); if(z!=(pp==qq)) BAD("p == plain pointer gives %d",z); if((p!=(const Obj*)qq)!=(pp!=qq)) BAD("p != plain pointer is wrong"); break;
    case 12: if(p.isNULL()!=(pp==0)) BAD("isNULL() gives %d",p.isNULL()); if(p.operator->()!=pp) BAD("operator-> gives the wrong object"); if(pp&&&*p!=pp) BAD("operator* gives the wrong object"); break;
    case 13: if(pp&&pp->getRefCnt()<1) BAD("getRefCnt() gives %d",pp->getRefCnt()); break;
    case 14: if(pp&&g_theirs->size()<12) { g_other=true; g_theirs->push_back(p); g_other=false; } break;      // another thread is given a pointer
    case 15: if(pp&&qq&&g_ref[b]>g_ref[a]&&pp->next.self()==0) { pp->next=q; } break;             // chains of objects: deleting one drops another
    case 16: if(pp&&pp->next.self()){ Obj*n=pp->next.self(); int k=n->id; if(e&1) p=pp->next; else p=n; g_ref[a]=k; } break;
    case 17: { static int many; std::vector<Ptr> v(e<6?e:e==6?100+e*30:many++%50==0?30000:9,q); for(auto&x:v) if(x!=q) BAD("copies differ"); break; }
    default: others(); }
  return audit(); }
static int hist(const std::vector<uint64_t>&ops,const std::vector<uint64_t>&script){
  g_msg[0]=0; g_obj.clear(); g_script=script; g_pos=0; g_theirs=new std::vector<Ptr>; g_ptr=new Ptr[NP]; for(int k=0;k<NP;k++) g_ref[k]=-1; g_on=true; int r=0;
  for(auto o:ops) if((r=step(o))) break;
  if(!r){ for(int k=0;k<NP&&!r;k++){ g_ptr[k]=(Obj*)0; g_ref[k]=-1; r=audit(); } g_other=true; while(!r&&!g_theirs->empty()){ g_theirs->pop_back(); r=audit(); } g_other=false; }
  if(!r) for(size_t k=0;k<g_obj.size();k++) if(g_obj[k].dead!=1){ NOTE("object %d was destroyed %d times",(int)k,g_obj[k].dead); r=1; }
  g_on=false; if(!r){ delete g_theirs; delete[] g_ptr; } return r; }
static uint64_t C(int op,int p,int q,int e){ return op+32*(p+NP*(q+NP*(uint64_t)e)); }
static int one(const In&in){
  if(in.has("ops")){ std::vector<uint64_t> o; for(auto x:in.a("ops")) o.push_back(x%32<20?x:x-x%32+19); if(hist(o,in.a("script"))){ printf("VIOLATED: %s\n",g_msg); return 1; } return 0; }
  // one operation: pointers 0 (p) and 1 (q), objects A and B, with several behaviours of the other threads
  std::string op=in.s("op"),p=in.s("p","-"),q=in.s("q","-"),raw=in.s("raw","-"); bool same=in.u("same"); int b=same?0:1;
  for(int v=0;v<64;v++){ std::vector<uint64_t> o,s; std::map<std::string,int> at;
    auto put=[&](int k,std::string w){ if(w!="A"&&w!="B") return; if(at.count(w)) o.push_back(C(2,k,at[w],0)); else { o.push_back(C(0,k,0,1)); at[w]=k; } };
    put(0,p); if(!same) put(1,q); if(raw=="A"||raw=="B"){ if(!at.count(raw)&&!(v&32)) put(2,raw); }
    if(v&16) for(int k=0;k<3;k++){ o.push_back(C(14,k,0,0)); } if(v&8&&!same) { o.push_back(C(14,0,0,0)); }
    for(int k=0;k<12;k++) s.push_back((v>>(k%3)&1)?1:3);
    int rq=raw=="null"?0:at.count(raw)?at[raw]:0,re=raw=="null"?0:at.count(raw)?5:1;
    if(op=="assignraw") o.push_back(C(0,0,rq,re)); else if(op=="assignnew") o.push_back(C(1,0,rq,re)); else if(op=="assign"||op=="assignc") o.push_back(C(2,0,b,op=="assignc")); else if(op=="reset") o.push_back(C(3,0,0,0)); else if(op=="free") o.push_back(C(4,0,0,0)); else if(op=="destroy"||op=="default") o.push_back(C(5,0,0,0));
    else if(op=="copy"||op=="copyc") o.push_back(C(6,0,1,op=="copyc")); else if(op=="from") o.push_back(C(7,0,rq,re)); else if(op=="pass") o.push_back(C(8,0,1,0)); else if(op=="swap") o.push_back(C(9,0,b,0)); else if(op=="eq"||op=="ne") o.push_back(C(10,0,b,0)); else if(op=="eqraw"||op=="neraw") o.push_back(C(11,0,rq,0)); else if(op=="count") o.push_back(C(13,2,0,0)); else o.push_back(C(12,0,0,0));
    if(hist(o,s)){ printf("VIOLATED: %s\n",g_msg); return 1; } }
  return 0; }
static In gen(Rng&r,const std::string&){ In i; std::vector<uint64_t> o,s; int n=1+r.below(r.below(50)==0?200:16); for(int k=0;k<n;k++){ static const int w[]={0,0,1,2,2,2,3,4,4,5,6,6,7,8,9,10,11,12,13,14,14,14,15,16,17,18}; o.push_back(C(w[r.below(sizeof w/sizeof*w)],r.below(NP),r.below(NP),r.below(8))); } int m=r.below(4)*r.below(30),bias=r.below(3); for(int k=0;k<m;k++) s.push_back((bias==2||r.flip()?r.below(4):bias?1:3)+4*r.below(64)); i.arr("ops",o); i.arr("script",s); return i; }
