// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64;
template<class T> struct Raw { std::vector<T> m; std::vector<T> keep; u64 n; Raw(const std::vector<u64>&b,u64 n_):m(n_+8),n(n_){ for(u64 i=0;i<n;i++){ if(sizeof(T)==4){ uint32_t x=i<b.size()?b[i]:0; memcpy(&m[4+i],&x,4);} else m[4+i]=i<b.size()?b[i]:0; } keep=m; } bool same(){ return !memcmp(m.data(),keep.data(),m.size()*sizeof(T)); } T*b(){return m.data()+4;} T*e(){return b()+n;} };
template<class T,class VT> int cat(const In&in){ u64 n1=in.u("n1"),n2=in.u("n2"); Raw<T> A(in.a("a"),n1),B(in.a("b"),n2); VT a((T*)0,A.b(),A.e()),b((T*)0,B.b(),B.e()); const VT&ca=a;const VT&cb=b; VT c(ca,cb);
  if(c.size()!=n1+n2) BAD("concatenation size %zu",c.size()); for(u64 i=0;i<n1+n2;i++){ const T*w=i<n1?A.b()+i:B.b()+(i-n1); if(memcmp(c.begin()+i,w,sizeof(T))) BAD("concatenation element %llu",(unsigned long long)i);} 
  if(n1+n2&&(c.begin()==A.b()||!c.isOwner())) BAD("concatenation is not a fresh vector"); if(!A.same()||!B.same()) BAD("concatenation changed an operand"); 
  const VT copy(c); const VT z((T*)0,(T*)0,(T*)0); VT d(copy,z); if(d.size()!=c.size()||(d.size()&&memcmp(d.begin(),c.begin(),d.size()*sizeof(T)))) BAD("concatenation with an empty vector"); return 0; }
static int one(const In&in){
  std::string op=in.s("op"); u64 n1=in.u("n1"),n2=in.u("n2"); if(n1>100000||n2>100000) return 3;
  if(op=="eq"){ Raw<char> A(in.a("a"),n1),B(in.a("b"),n2); BitVector a((char*)0,A.b(),A.e()),b((char*)0,B.b(),B.e()); bool w=n1==n2; for(u64 i=0;w&&i<n1;i++) w=(A.b()[i]&1)==(B.b()[i]&1); if((a==b)!=w) BAD("operator== is %d, expected %d (sizes %llu %llu)",a==b,w,(unsigned long long)n1,(unsigned long long)n2); if(!(a==a)) BAD("a vector differs from itself"); if(!A.same()||!B.same()) BAD("operator== changed an operand"); return 0; }
  if(op=="concat"){ if(in.u("float")) return cat<float,Vector<float>>(in); int r=cat<char,BitVector>(in); return r?r:cat<char,Vector<char>>(in); }
  if(op=="soft"){ Raw<char> A(in.a("a"),n1); BitVector a((char*)0,A.b(),A.e()); SoftVector s(a); if(s.size()!=n1) BAD("soft vector size"); for(u64 i=0;i<n1;i++) if(s.begin()[i]!=((A.b()[i]&1)?1.0f:0.0f)) BAD("soft element %llu is %g",(unsigned long long)i,s.begin()[i]); BitVector h=s.sliced(); if(!(h==a)) BAD("slicing does not undo the conversion"); return 0; }
  if(op=="slice"){ Raw<float> A(in.a("a"),n1); SoftVector s((float*)0,A.b(),A.e()); BitVector h=s.sliced(); if(h.size()!=n1) BAD("sliced size"); for(u64 i=0;i<n1;i++) if((h.bit(i)?1:0)!=(A.b()[i]>0.5f)) BAD("sliced element %llu of %.9g is %d",(unsigned long long)i,A.b()[i],h.bit(i)); if(!A.same()) BAD("slicing changed the soft vector"); return 0; }
  return 3;
}
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"eq","concat","soft","slice"}; std::string op=ops[r.below(4)]; i.sets("op",op); u64 n1=r.below(200)==0?65500+r.below(5000):r.below(5)==0?r.below(600):r.below(12),n2=r.below(3)?n1:r.below(12); i.set("n1",n1);i.set("n2",n2); bool fl=op=="slice"||(op=="concat"&&r.flip()); i.set("float",fl); bool w=r.below(2); std::vector<u64> a,b;
  auto el=[&]()->u64{ if(fl){ float f; switch(r.below(6)){case 0:f=0.5f;break;case 1:f=0.50000006f;break;case 2:f=0.49999997f;break;case 3:f=r.below(1000)/999.0f;break;case 4:f=-1;break;default:f=2;} uint32_t x; memcpy(&x,&f,4); if(r.below(20)==0) x=0x7fc00000; return x;} return w?r.below(256):r.below(2); };
  for(u64 k=0;k<n1;k++) a.push_back(el()); for(u64 k=0;k<n2;k++) b.push_back(op=="eq"&&k<n1?(a[k]&1)|(w?r.below(128)*2:0):el()); if(op=="eq"&&n2&&r.flip()) b[r.flip()?n2-1:r.below(n2)]^=1; i.arr("a",a); i.arr("b",b); return i; }
