// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64;
struct Buf { std::vector<char> m,want; u64 n; Buf(const In&in,const char*k,u64 n_):m(n_+32,0x55),n(n_){ std::vector<u64> b=in.a(k); b.resize(n); for(u64 i=0;i<n;i++) m[16+i]=(char)b[i]; want=m; } BitVector v(){ return BitVector((char*)NULL,m.data()+16,m.data()+16+n); } char&w(u64 i){return want[16+i];} char at(u64 i){return m[16+i];}
 bool same(long&at){ for(size_t i=0;i<m.size();i++) if(m[i]!=want[i]){ at=(long)i-16; return false;} return true; } };
static int one(const In&in){
  std::string op=in.s("op"); u64 n=in.u("n"); long k;
  if(op=="text"){ std::vector<u64> t=in.a("text"); std::string s; for(u64 c:t){ if(!(c&255)) break; s+=(char)c; } BitVector v(s.c_str()); if(v.size()!=s.size()) BAD("text of %zu characters gives %zu bits",s.size(),v.size());
    for(size_t i=0;i<s.size();i++) if((v.bit(i)?1:0)!=(s[i]=='1')||v.begin()[i]!=(s[i]=='1')) BAD("bit %zu of text constructor",i); return 0; }
  if(n>100000) return 3;
  Buf b(in,"bits",n); BitVector v=b.v();
  if(op=="reverse8"){ if(n<8) return 3; v.reverse8(); for(int i=0;i<8;i++) b.w(i)=0; std::vector<u64> o=in.a("bits"); o.resize(n); for(int i=0;i<8;i++) b.w(i)=(char)o[7-i]; }
  else if(op=="lsb8msb"){ std::vector<u64> o=in.a("bits"); o.resize(n); v.LSB8MSB(); for(u64 i=0;i<n/8*8;i++) b.w(i)=(char)o[i^7]; }
  else if(op=="invert"){ std::vector<char> o=b.m; v.invert(); for(size_t i=0;i<b.m.size();i++){ bool inr=i>=16&&i<16+n; if(inr?((b.m[i]^o[i])&1)!=1:b.m[i]!=o[i]) BAD("invert: element %ld",(long)i-16);} return 0; }
  else if(op=="sum"){ unsigned w=0; for(u64 i=0;i<n;i++) w+=b.at(i)&1; unsigned s=v.sum(); if(s!=w) BAD("sum %u expected %u",s,w); }
  else if(op=="map"||op=="unmap"){ bool un=op=="unmap"; u64 dn=in.u("dn"),m=in.u("m"); if(dn>100000||m>(un?n:dn)) return 3; std::vector<u64> mp=in.a("map"); mp.resize(m); std::vector<unsigned> M; for(u64 x:mp){ if(x>=(un?dn:n)) return 3; M.push_back(x);} M.push_back(0);
    Buf d(in,"dest",dn); BitVector D=d.v(); if(un) v.unmap(M.data(),m,D); else v.map(M.data(),m,D); for(u64 i=0;i<m;i++) if(un) d.w(M[i])=b.at(i); else d.w(i)=b.at(M[i]); if(!d.same(k)) BAD("%s: destination element %ld",op.c_str(),k); }
  else return 3;
  if(!b.same(k)) BAD("%s: element %ld is %d expected %d",op.c_str(),k,b.m[k+16],b.want[k+16]);
  return 0;
}
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"reverse8","lsb8msb","invert","sum","text","map","unmap"}; i.sets("op",ops[r.below(7)]); u64 n=r.below(6)==0?r.below(700):r.below(40); bool big=i.s("op")=="sum"&&r.below(20)==0; if(big) n=70000+r.below(20000); i.set("n",n); bool w=r.below(3)==0; std::vector<int> b; for(u64 k=0;k<n;k++) b.push_back(big?1:w?r.below(256):r.below(2)); i.arr("bits",b);
  u64 dn=r.below(40); i.set("dn",dn); std::vector<int> d; for(u64 k=0;k<dn;k++) d.push_back(r.below(2)); i.arr("dest",d); bool un=i.s("op")=="unmap"; u64 m=(un?dn:n)?r.below((un?n:dn)+1):0; i.set("m",m); std::vector<u64> mp; for(u64 k=0;k<m;k++) mp.push_back(r.below(un?dn:n)); i.arr("map",mp);
  std::vector<int> t; u64 tn=r.below(40); for(u64 k=0;k<tn;k++) t.push_back(r.below(5)?'0'+r.below(2):1+r.below(255)); i.arr("text",t); return i; }
