// SRCS: BitVector.cpp
// FLAGS: -Dprotected=public
#include <sstream>
#include <iostream>
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64; typedef unsigned long long ull;
// random history of operations over a few vectors; a model keeps, per vector, the block it owns or the view it is; ASan/LSan watch the memory
template<class T> static T elt(u64 x){ return (T)(x%100+1); }
template<class T> static std::vector<T> get(const VectorBase<T>&v){ return std::vector<T>(v.begin(),v.end()); }
template<class T> static void put(VectorBase<T>&v,u64 seed){ for(size_t i=0;i<v.size();i++) v.begin()[i]=elt<T>(seed+i*7); }
#define EQ(a,b,w) do{ if(get<T>(a)!=(b)) BAD("%s: contents differ (size %zu, expected %zu)",w,(a).size(),(b).size()); }while(0)
template<class T,class VT> int pair_(const std::string&op,const std::string&t,const std::string&k,u64 n1,u64 n2,u64 off,bool constsrc){
  T blk1[64],blk2[64]; for(int i=0;i<64;i++){ blk1[i]=elt<T>(i); blk2[i]=elt<T>(i+33); } if(n1>50) n1=50; if(n2>50) n2=50;
  std::vector<T> keep1(blk1,blk1+64),keep2(blk2,blk2+64);
  VT *a=t=="owner"?new VT(n1):t=="alias"?new VT((T*)0,blk1+2,blk1+2+n1):new VT((size_t)0); if(t=="owner") put<T>(*a,5);
  VT *b=k=="self"?a:k=="owner"?new VT(n2):k=="alias"?new VT((T*)0,blk2+2,blk2+2+n2):k=="own"?0:new VT((size_t)0); if(k=="owner") put<T>(*b,77);
  if(k=="own"){ u64 o=off>a->size()?a->size():off; u64 m=n2>a->size()-o?a->size()-o:n2; b=new VT((T*)0,a->begin()+o,a->begin()+o+m); }
  std::vector<T> sa=get<T>(*a),sb=get<T>(*b); T*bs=b->begin(); bool bo=b->isOwner(); int r=0;
  auto fin=[&]{ if(b!=a) delete b; delete a; };
  auto body=[&]()->int{
    if(op=="clone"){ a->clone(*b); EQ(*a,sb,"clone"); if(k!="self"&&k!="own") { EQ(*b,sb,"clone source"); } if(a->size()&&!a->isOwner()) BAD("a clone does not own its block"); if(k!="self"&&a->size()&&a->begin()==bs) BAD("a clone shares its source's block"); return 0; }
    if(op=="assign"){ (VectorBase<T>&)*a=(const VectorBase<T>&)*b; EQ(*a,sb,"assignment"); EQ(*b,sb,"assignment source"); if(k!="self"){ if(bo&&(!a->isOwner()||a->begin()==bs)) BAD("assignment from an owner is not an independent owner"); if(!bo&&(a->isOwner()||a->begin()!=bs)) BAD("assignment from an alias is not an alias"); if(bo!=b->isOwner()) BAD("assignment changed the source's ownership"); } else if(bo!=a->isOwner()) BAD("self-assignment changed ownership"); return 0; }
    if(op=="shift"){ a->shiftMem(*b); EQ(*a,sb,"shift"); if(k!="self"){ if(b->isOwner()) BAD("shift leaves the source an owner"); if(a->isOwner()!=bo||a->begin()!=bs) BAD("shift does not transfer"); } else if(a->isOwner()!=bo) BAD("self-shift lost ownership"); return 0; }
    if(op=="alias"&&k!="own"&&k!="self"){ a->makeAlias(*b); EQ(*a,sb,"makeAlias"); if(a->isOwner()||a->begin()!=bs) BAD("makeAlias is not an alias"); return 0; }
    if(op=="resize"){ a->resize(n2); if(a->size()!=n2||(n2&&(!a->isOwner()))) BAD("resize(%llu) size %zu owner %d",(ull)n2,a->size(),a->isOwner()); put<T>(*a,9); return 0; }
    if(op=="clear"){ a->clear(); if(a->size()||a->isOwner()) BAD("clear()"); return 0; }
    if(op=="copy"){ if(constsrc){ VT c((const VT&)*b); EQ(c,sb,"copy"); EQ(*b,sb,"copy source"); if(c.size()&&!c.isOwner()) BAD("const copy is not an owner"); if(c.size()&&c.begin()==bs) BAD("copy shares the block"); } else { VT c(*b); EQ(c,sb,"shift construction"); if(b->isOwner()||c.isOwner()!=bo) BAD("shift construction does not transfer ownership"); } return 0; }
    return 0; };
  r=body(); fin(); if(r) return r;
  if(t!="alias"||1){ if(std::vector<T>(blk2,blk2+64)!=keep2) BAD("%s wrote to the source block",op.c_str()); if(std::vector<T>(blk1,blk1+64)!=keep1&&op!="resize") BAD("%s wrote to an aliased block",op.c_str()); }
  return 0; }
int bvcopy(const std::string&k,u64 n){ typedef char T; char blk[64]; for(int i=0;i<64;i++) blk[i]=i; if(n>50) n=50; BitVector o(n); put<char>(o,3); BitVector al((char*)0,blk+1,blk+1+n); BitVector em; BitVector&s=k=="owner"?o:k=="alias"?al:em; std::vector<T> ss=get<T>(s); bool own=s.isOwner();
  { BitVector c(s); EQ(c,ss,"BitVector copy"); if(own&&(!c.isOwner()||c.begin()==s.begin())) BAD("copy of an owner is not an independent owner"); if(!own&&(c.isOwner()||c.begin()!=s.begin())) BAD("copy of an alias is not an alias"); }
  { BitVector c(7); c=s; EQ(c,ss,"BitVector assignment"); if(own&&(!c.isOwner()||c.begin()==s.begin())) BAD("assigned copy of an owner is not an independent owner"); if(!own&&(c.isOwner()||c.begin()!=s.begin())) BAD("assignment of an alias is not an alias"); BitVector&r=(s=s); if(&r!=&s) BAD("operator= result"); EQ(s,ss,"BitVector self-assignment"); }
  { BitVector c; void (BitVector::*dp)(BitVector&)=&BitVector::dup; (c.*dp)(s); EQ(c,ss,"dup"); if(c.isOwner()||c.begin()!=s.begin()) BAD("dup is not an alias"); }
  EQ(s,ss,"source"); return 0; }
static int one(const In&in){ std::string op=in.s("op"),t=in.s("t"),k=in.s("k"); if(t=="-") t="empty"; if(k=="-") k="empty"; u64 n1=in.u("n1"),n2=in.has("len")?in.u("len"):in.u("n2"); 
  auto sane=[](u64&n){ if(n>50) n=n%51; }; sane(n1);sane(n2);
  int r=bvcopy(k,n2); if(r) return r; if(op=="len") op="resize";
  r=in.u("float")?pair_<float,Vector<float>>(op,t,k,n1,n2,in.u("off"),in.u("c")):pair_<char,Vector<char>>(op,t,k,n1,n2,in.u("off"),in.u("c")); if(r) return r;
  // every ownership operation of the small case, whatever the failing obligation was about
  { Vector<float> f(n2); put<float>(f,1); SoftVector s(f); if(f.isOwner()||(n2&&!s.isOwner())) BAD("SoftVector(Vector<float>) does not take over the block"); SoftVector z(n1); if(z.size()!=n1||(n1&&!z.isOwner())) BAD("SoftVector(n)"); Vector<float> w((float*)s.begin(),n2); if(w.isOwner()||w.size()!=n2) BAD("Vector(ptr,span)"); Vector<char> e(n1); if(e.size()!=n1) BAD("Vector(n)"); const Vector<char>&ce=e; put<char>(e,4); Vector<char> g(3); g=ce; if(get<char>(g)!=get<char>(e)||(n1&&!e.isOwner())) BAD("const assignment"); Vector<char> h(2); h=e; if(h.size()!=n1||e.isOwner()) BAD("shifting assignment"); BitVector q(n1); BitVector d; if(q.size()!=n1||d.size()||(n1&&!q.isOwner())||d.isOwner()) BAD("BitVector(n)"); }
  return 0; }
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"clone","assign","shift","alias","resize","clear","copy"}; const char*ks[]={"owner","alias","empty","self","own"}; std::string op=ops[r.below(7)]; i.sets("op",op); std::string t=ks[r.below(3)],k=ks[r.below(op=="clone"?5:4)]; if(k=="own"&&t!="owner") k="alias"; i.sets("t",t);i.sets("k",k); i.set("n1",r.below(9));i.set("n2",r.below(9));i.set("off",r.below(9));i.set("float",r.flip());i.set("c",r.flip()); return i; }
