// SRCS: BitVector.cpp
#include "drv.h"
#define private public
#define protected public
#include "BitVector.h"
#undef private
#undef protected
typedef uint64_t u64;
static u64 remstep(u64 g,unsigned r,u64 s,unsigned b){ unsigned __int128 t=((unsigned __int128)s<<1)|b; if((t>>r)&1) t^=((unsigned __int128)1<<r)|(g&((1ull<<r)-1)); return (u64)t&((1ull<<r)-1); }
static u64 encstep(u64 g,unsigned r,u64 s,unsigned b){ unsigned __int128 t=((unsigned __int128)s<<1); if(b) t^=(unsigned __int128)1<<r; if((t>>r)&1) t^=((unsigned __int128)1<<r)|(g&((1ull<<r)-1)); return (u64)t&((1ull<<r)-1); }
static int one(const In&in){
  std::string op=in.s("op"); u64 g=in.u("coeff"),state=in.u("state"); unsigned r=in.u("r"); if(r<1||r>63) return 3;
  u64 mask=(1ull<<r)-1; std::vector<u64> b=in.a("bits"); u64 n=in.u("n",b.size()); if(n>100000) return 3; b.resize(n);
  std::vector<char> mem(n+32,0x55); for(u64 i=0;i<n;i++) mem[16+i]=(char)b[i]; std::vector<char> before=mem;
  BitVector v((char*)NULL,mem.data()+16,mem.data()+16+n);
  u64 syn=0,par=0; for(u64 i=0;i<n;i++){ syn=remstep(g,r,syn,b[i]&1); par=encstep(g,r,par,b[i]&1); }
  if(op=="shift"||op=="eshift"){ Generator G(g,r); G.mState=state; unsigned bit=in.u("in"); if(op=="shift")G.syndromeShift(bit); else G.encoderShift(bit);
    u64 w=op=="shift"?remstep(g,r,state&mask,bit&1):encstep(g,r,state&mask,bit&1); if((G.mState&mask)!=w||G.state()!=w) BAD("%s: register %llx expected %llx",op.c_str(),(unsigned long long)(G.mState&mask),(unsigned long long)w); return 0; }
  if(op=="syndrome"){ Generator G(g,r); G.mState=state; u64 x=v.syndrome(G); if(x!=syn) BAD("syndrome %llx expected %llx",(unsigned long long)x,(unsigned long long)syn);
    Parity P(g,r,n+r); P.mState=state; x=P.syndrome(v); if(x!=syn) BAD("Parity::syndrome %llx expected %llx",(unsigned long long)x,(unsigned long long)syn); }
  else if(op=="parity"){ Generator G(g,r); G.mState=state; u64 x=v.parity(G); if(x!=par) BAD("parity %llx expected %llx",(unsigned long long)x,(unsigned long long)par); }
  else if(op=="write"){ bool inv=in.u("invert"); u64 tn=in.u("tn"); if(tn<r||tn>100000) return 3; std::vector<u64> t=in.a("target"); t.resize(tn); std::vector<char> tm(tn+32,0x33); for(u64 i=0;i<tn;i++) tm[16+i]=t[i]; std::vector<char> te=tm;
    BitVector T((char*)NULL,tm.data()+16,tm.data()+16+tn); Parity P(g,r,n+r); P.mState=state; P.writeParityWord(v,T,inv); for(unsigned j=0;j<r;j++) te[16+j]=((inv?~par:par)>>(r-1-j))&1;
    for(size_t i=0;i<tm.size();i++) if(tm[i]!=te[i]) BAD("writeParityWord: target element %ld is %d expected %d",(long)i-16,tm[i],te[i]); }
  else if(op=="code"){ Parity P(g,r,n+r); BitVector c(n+r); for(u64 i=0;i<n;i++) c[i]=b[i]&1; BitVector T=c.segment(n,r); BitVector D=c.head(n); P.writeParityWord(D,T,false);
    if(P.syndrome(c)!=0) BAD("codeword of %llu data bits has a nonzero syndrome",(unsigned long long)n); }
  else return 3;
  if(mem!=before) BAD("%s changed the data vector",op.c_str());
  return 0;
}
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"shift","eshift","syndrome","parity","write","code"}; i.sets("op",ops[r.below(6)]); i.set("coeff",r.edge()); i.set("state",r.edge()); unsigned d=r.below(4)?1+r.below(63):(r.flip()?1:63); i.set("r",d); i.set("in",r.flip()?r.below(2):r.u()&0xffffffff);
  u64 n=r.below(3)==0?r.below(400):r.below(70); i.set("n",n); std::vector<int> b; bool w=r.below(3)==0; for(u64 k=0;k<n;k++) b.push_back(w?r.below(256):r.below(2)); i.arr("bits",b); i.set("invert",r.below(2)); u64 tn=d+r.below(20); i.set("tn",tn); std::vector<int> t; for(u64 k=0;k<tn;k++) t.push_back(r.below(2)); i.arr("target",t); return i; }
