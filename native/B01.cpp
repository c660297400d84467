// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64;
static int one(const In&in){
  std::string op=in.s("op"); bool msb=in.u("msb"); u64 n=in.u("n"),pos=in.u("pos"),L=in.u("len"),val=in.u("value");
  std::vector<u64> b=in.a("bits");
  if(n>100000||L>64||pos>n||L>n-pos) return 3;
  b.resize(n);
  std::vector<char> mem(n+32,0x55); for(u64 i=0;i<n;i++) mem[16+i]=(char)b[i];
  std::vector<char> before=mem;
  BitVector v((char*)NULL,mem.data()+16,mem.data()+16+n);
  u64 want=0; for(u64 j=0;j<L;j++){ u64 bit=before[16+pos+(msb?j:L-1-j)]&1; want=(want<<1)|bit; }
  size_t cur=pos; u64 got=0; bool rd=false;
  char*d=mem.data()+16; (void)d;
  BitVector*pv=&v;
  if(op=="peek"){ got=msb?pv->peekField(pos,L):pv->peekFieldReversed(pos,L); rd=true; }
  else if(op=="read"){ got=msb?pv->readField(cur,L):pv->readFieldReversed(cur,L); rd=true; }
  else if(op=="fill"){ if(msb)pv->fillField(pos,val,L); else pv->fillFieldReversed(pos,val,L); }
  else if(op=="write"){ if(msb)pv->writeField(cur,val,L); else pv->writeFieldReversed(cur,val,L); }
  else return 3;
  size_t wc=(op=="read"||op=="write")?pos+L:pos;
  if(cur!=wc) BAD("%s%s: cursor %zu, expected %zu",op.c_str(),msb?"":"Reversed",cur,wc);
  if(rd&&got!=want) BAD("%s%s(pos %llu, length %llu) returned %llx, expected %llx",op.c_str(),msb?"":"Reversed",(unsigned long long)pos,(unsigned long long)L,(unsigned long long)got,(unsigned long long)want);
  std::vector<char> exp=before;
  if(!rd) for(u64 j=0;j<L;j++) exp[16+pos+j]=(val>>(msb?L-1-j:j))&1;
  for(size_t i=0;i<mem.size();i++) if(mem[i]!=exp[i]) BAD("%s%s(pos %llu, length %llu, value %llx): element %ld is %d, expected %d",op.c_str(),msb?"":"Reversed",(unsigned long long)pos,(unsigned long long)L,(unsigned long long)val,(long)i-16,mem[i],exp[i]);
  return 0;
}
static In gen(Rng&r,const std::string&h){
  In i; static const char*ops[]={"peek","read","fill","write"}; i.sets("op",ops[r.below(4)]); i.set("msb",r.below(2));
  u64 n=r.below(140),pos=r.below(n+1),L=r.below(std::min<u64>(64,n-pos)+1); if(r.below(3)==0) L=std::min<u64>(64,n-pos);
  i.set("n",n);i.set("pos",pos);i.set("len",L);i.set("value",r.edge()); std::vector<int> b; bool w=r.below(4)==0; for(u64 k=0;k<n;k++) b.push_back(w?r.below(256):r.below(2)); i.arr("bits",b); return i;
}
