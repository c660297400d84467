// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64; typedef unsigned long long ull;
static bool has(const std::string&s,const char*t){ return s.find(t)!=std::string::npos; }
template<class T> struct Mem { std::vector<T> m,keep; u64 n; Mem(u64 n_,int tag):m(n_+8),n(n_){ for(u64 i=0;i<m.size();i++) m[i]=(T)(1+(i*7+tag*31)%97); keep=m; } T*b(){return m.data()+4;} T*e(){return b()+n;} };
// element i of the block, what it must hold; returns first difference
template<class T,class F> long differs(Mem<T>&M,F want){ for(u64 i=0;i<M.m.size();i++){ T w=want((long)i-4); if(memcmp(&M.m[i],&w,sizeof(T))) return i; } return -1; }
template<class T,class VT> VT make(const std::string&kind,Mem<T>&M,T*&base){ if(kind=="empty"){ base=0; return VT((T*)0,(T*)0,(T*)0);} base=M.b(); return VT((T*)0,M.b(),M.e()); }
template<class V> int ck(V&r,const void*b,const void*e,const char*w){ if((void*)r.begin()!=b||(void*)r.end()!=e||r.isOwner()) BAD("%s refers to [%p,%p) owner %d, expected [%p,%p)",w,(void*)r.begin(),(void*)r.end(),r.isOwner(),b,e); return 0; }
template<class T,class VT> int views(const In&in,VT&a,T*b,u64 n){ std::string op=in.s("op"); u64 st=in.u("start"),sp=in.u("span"); bool c=has(op,")const"); const VT&ca=a;
  if(has(op,"segment")){ if(c){ auto r=ca.segment(st,sp); return ck(const_cast<VT&>((const VT&)r),b+st,b+st+sp,"segment() const"); } auto r=a.segment(st,sp); return ck(r,b+st,b+st+sp,"segment()"); }
  if(has(op,"head")){ if(c){ auto r=ca.head(sp); return ck(const_cast<VT&>((const VT&)r),b,b+sp,"head() const"); } auto r=a.head(sp); return ck(r,b,b+sp,"head()"); }
  if(c){ auto r=ca.tail(st); return ck(const_cast<VT&>((const VT&)r),b+st,b+n,"tail() const"); } auto r=a.tail(st); return ck(r,b+st,b+n,"tail()"); }
struct BVN: BitVector { using BitVector::BitVector; BitVector segment(u64 a,u64 b) const { return const_cast<BVN*>(this)->BitVector::segment(a,b);} };
template<class T,class VB> int copies(const In&in){ std::string op=in.s("op"); u64 n1=in.u("n1"),n2=in.u("n2"),st=in.u("start"),sp=in.u("span"); Mem<T> A(n1,1),B(n2,2); VB a((T*)0,A.b(),A.e()),b((T*)0,B.b(),B.e()); bool from=has(op,"segmentCopyTo"); const VB&ca=a;
  if(from) ca.segmentCopyTo(b,st,sp); else if(has(op,"copyTo(")){ st=0;sp=n1; ca.copyTo(b);} else if(has(op,"&,unsignedlong)")){ sp=n1; ca.copyToSegment(b,st);} else ca.copyToSegment(b,st,sp);
  long so=from?st:0,d0=from?0:st; long x=differs(B,[&](long i){ return i>=d0&&i<d0+(long)sp?A.keep[4+so+i-d0]:B.keep[4+i]; }); if(x>=0) BAD("%s: target element %ld is wrong",op.c_str(),x-4); if(A.m!=A.keep) BAD("%s changed its source",op.c_str()); return 0; }
template<class T,class VT> int fills(const In&in){ std::string op=in.s("op"); u64 n1=in.u("n1"); unsigned st=in.u("start"),sp=in.u("span"); Mem<T> A(n1,1); VT a((T*)0,A.b(),A.e()); T v=(T)55; u64 lo=0,hi=n1; 
  if(has(op,"unsigned")){ a.fill(v,st,sp); lo=st;hi=(u64)st+sp; } else a.fill(v);
  long x=differs(A,[&](long i){ return i>=0&&(u64)i>=lo&&(u64)i<hi?v:A.keep[4+i]; }); if(x>=0) BAD("%s: element %ld is wrong",op.c_str(),x-4); return 0; }
static int run(const In&in){ std::string op=in.s("op"); u64 n1=in.u("n1"); bool fl=in.u("float"); u64 st=in.u("start"); std::string kind=in.s("kind");
  if(has(op,"opyTo")||has(op,"copyToSegment")) return fl?copies<float,Vector<float>>(in):copies<char,Vector<char>>(in);
  if(has(op,"fill")) return fl?fills<float,Vector<float>>(in):fills<char,Vector<char>>(in);
  if(has(op,"zero")){ Mem<char> A(n1,1); BitVector a((char*)0,A.b(),A.e()); a.zero(); long x=differs(A,[&](long i){return i>=0&&(u64)i<n1?(char)0:A.keep[4+i];}); if(x>=0) BAD("zero(): element %ld",x-4); return 0; }
  if(has(op,"unknown")){ Mem<float> A(n1,1); SoftVector a((float*)0,A.b(),A.e()); a.unknown(); long x=differs(A,[&](long i){return i>=0&&(u64)i<n1?0.5f:A.keep[4+i];}); if(x>=0) BAD("unknown(): element %ld",x-4); return 0; }
  if(has(op,"segment")||has(op,"head")||has(op,"tail")){
    if(fl){ Mem<float> A(n1,1); float*b; if(has(op,"SoftVector")){ SoftVector a(make<float,SoftVector>(kind,A,b)); a.isOwner(); SoftVector s((float*)0,b,b?b+n1:0); int r=views<float,SoftVector>(in,s,b,b?n1:0); if(r) return r; if(A.m!=A.keep) BAD("a view changed memory"); return 0; } b=kind=="empty"?0:A.b(); Vector<float> s((float*)0,b,b?b+n1:0); return views<float,Vector<float>>(in,s,b,b?n1:0); }
    Mem<char> A(n1,1); char*b=kind=="empty"?0:A.b(); u64 n=b?n1:0; if(!has(op,"BitVector")){ Vector<char> s((char*)0,b,b?b+n1:0); return views<char,Vector<char>>(in,s,b,n); }
    BitVector s((char*)0,b,b?b+n:0); u64 sp=in.u("span"); if(has(op,"segment")){ BitVector r=s.segment(st,sp); return ck(r,b+st,b+st+sp,"segment()"); } if(has(op,"head")){ BitVector r=s.head(sp); return ck(r,b,b+sp,"head()"); } BitVector r=s.tail(st); return ck(r,b+st,b+n,"tail()"); }
  if(has(op,"alias")){ Mem<char> A(n1,1); BitVector s((char*)0,A.b(),A.e()); BitVector r=s.alias(); int x=ck(r,A.b(),A.e(),"alias()"); if(x) return x; Mem<float> F(n1,1); SoftVector t((float*)0,F.b(),F.e()); SoftVector q=t.alias(); return ck(q,F.b(),F.e(),"SoftVector::alias()"); }
  if(has(op,"clone")){ Mem<char> A(n1,1); BitVector s((char*)0,A.b(),A.e()); u64 sp=in.u("span"); const BitVector r=s.cloneSegment(st,sp); if(r.size()!=sp) BAD("cloneSegment size %zu",r.size()); if(sp&&(r.begin()>=A.b()&&r.begin()<A.e()||!r.getData())) BAD("cloneSegment is not a copy"); for(u64 i=0;i<sp;i++) if(r[i]!=A.keep[4+st+i]) BAD("cloneSegment element %llu",(ull)i); if(A.m!=A.keep) BAD("cloneSegment changed its source"); return 0; }
  if(fl){ Mem<float> A(n1,1); SoftVector a((float*)0,A.b(),A.e()); const SoftVector&ca=a; Vector<float>&va=a; const Vector<float>&cva=a; float*p=A.b()+st;
    if(has(op,"operator[]")){ if(&va[st]!=p||&cva[st]!=p) BAD("operator[] refers to the wrong element"); return 0; }
    if(has(op,"softbit")){ if(ca.softbit(st)!=*p) BAD("softbit"); return 0; }
    if(has(op,"settfb")){ a.settfb(st,0.25f); long x=differs(A,[&](long i){return (u64)i==st&&i>=0?0.25f:A.keep[4+i];}); if(x>=0) BAD("settfb wrote element %ld",x-4); return 0; }
    const float t[]={0.5f,0.50000006f,-1,0.49999997f,7}; for(float f:t){ *p=f; if(ca.bit(st)!=(f>0.5f)) BAD("bit of %.9g",f);} return 0; }
  Mem<char> A(n1,1); BitVector a((char*)0,A.b(),A.e()); const BitVector&ca=a; Vector<char> va((char*)0,A.b(),A.e()); const Vector<char>&cva=va; char*p=A.b()+st;
  if(has(op,"operator[]")){ if(&a[st]!=p||&ca[st]!=p||&va[st]!=p||&cva[st]!=p) BAD("operator[] refers to the wrong element"); return 0; }
  if(has(op,"settfb")){ a.settfb(st,0x1234); long x=differs(A,[&](long i){return (u64)i==st&&i>=0?(char)0x34:A.keep[4+i];}); if(x>=0) BAD("settfb wrote element %ld",x-4); return 0; }
  for(int v=0;v<256;v++){ *p=v; if(ca.bit(st)!=(v&1)) BAD("bit of %d",v);} return 0; }
static int one(const In&in){ if(in.u("n1")>100000||in.u("n2")>100000) return 3;
  if(in.u("fits",1)) return run(in);
  In q=in; int r=child([&]{ return run(q); }); if(r!=128+6) BAD("%s: a request that does not fit (start %llu span %llu of %llu) is not refused by an assertion: status %d",in.s("op").c_str(),(ull)in.u("start"),(ull)in.u("span"),(ull)in.u("n1"),r); return 0; }
static In gen(Rng&r,const std::string&hint){ static const char*ops[]={"BitVector::segment(","BitVector::head(","BitVector::tail(","BitVector::cloneSegment","alias","Vector<char>::segment(","Vector<float>::segment()const","SoftVector::segment()","SoftVector::segment()const","SoftVector::tail()const","Vector<float>::tail()","Vector<float>::head(","VectorBase::copyToSegment(VectorBase&,unsignedlong,unsignedlong)","copyToSegment(VectorBase&,unsignedlong)","copyTo(","segmentCopyTo(","fill(","fill(unsigned","zero","unknown","operator[]","bit(","softbit","settfb","SoftVector::bit"};
  In i; std::string op=ops[r.below(25)]; bool fl=has(op,"float")||has(op,"Soft")||op=="softbit"||(!has(op,"Vector")&&r.flip()); i.sets("op",op); i.set("float",fl); i.sets("kind","alias"); bool big=r.below(40)==0; u64 n1=big?65500+r.below(2000):r.below(10),n2=big&&r.flip()?65500+r.below(3000):r.below(10),st,sp; 
  bool from=has(op,"segmentCopyTo"),to=!from&&(has(op,"opyTo")),el=has(op,"operator[]")||has(op,"bit")||has(op,"settfb"); u64 lim=to?n2:n1; bool fits=r.below(12)!=0; st=0;sp=0;
  if(has(op,"copyTo(")){ fits=n1<=n2; } else if(to&&!has(op,"long,unsignedlong")){ st=r.below(12)+(big?r.below(3000):0); fits=st<=n2&&n1<=n2-st; } else if(el){ st=r.below(n1+3); fits=st<n1; } else if(has(op,"tail")){ st=r.below(n1+2); fits=st<=n1; } else if(has(op,"head")){ sp=r.below(n1+2); fits=sp<=n1; }
  else { st=r.below(lim+2); sp=r.flip()&&st<=lim?lim-st:r.below(lim+2); fits=st<=lim&&sp<=lim-st; if(to) fits=fits&&sp<=n1; if(from) fits=fits&&sp<=n2; }
  if(has(op,"zero")||has(op,"unknown")||has(op,"alias")||(has(op,"fill")&&!has(op,"unsigned"))) fits=true;
  i.set("n1",n1);i.set("n2",n2);i.set("start",st);i.set("span",sp);i.set("fits",fits); return i; }
