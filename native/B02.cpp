// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64;
static int one(const In&in){
  std::string op=in.s("op"); u64 n=in.u("n"); if(n>100000) return 3; std::vector<u64> b=in.a("bits"); b.resize(n); u64 m=(n+7)/8;
  std::vector<char> mem(n+32,0x55); for(u64 i=0;i<n;i++) mem[16+i]=(char)b[i]; std::vector<char> before=mem; BitVector v((char*)NULL,mem.data()+16,mem.data()+16+n);
  std::vector<unsigned char> want(m,0); for(u64 i=0;i<n;i++) want[i/8]|=(b[i]&1)<<(7-i%8);
  if(op=="pack"){ std::vector<unsigned char> t(m+16,0xa5); v.pack(t.data()+8); for(u64 i=0;i<t.size();i++){ unsigned char w=i>=8&&i<8+m?want[i-8]:0xa5; if(t[i]!=w) BAD("pack: byte %ld is %02x expected %02x",(long)i-8,t[i],w);} }
  else if(op=="packstr"){ std::string s=v.packToString(); if(s.size()!=m) BAD("packToString of %llu bits gives %zu bytes",(unsigned long long)n,s.size()); for(u64 i=0;i<m;i++) if((unsigned char)s[i]!=want[i]) BAD("packToString: byte %llu is %02x expected %02x",(unsigned long long)i,(unsigned char)s[i],want[i]); }
  else if(op=="unpack"){ std::vector<u64> sv=in.a("src"); sv.resize(m); unsigned char*src=new unsigned char[m]; for(u64 i=0;i<m;i++) src[i]=sv[i]; v.unpack(src); for(u64 i=0;i<n;i++) before[16+i]=(src[i/8]>>(7-i%8))&1; delete[] src; }
  else return 3;
  for(size_t i=0;i<mem.size();i++) if(mem[i]!=before[i]) BAD("%s: element %ld is %d expected %d",op.c_str(),(long)i-16,mem[i],before[i]);
  return 0;
}
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"pack","packstr","unpack"}; i.sets("op",ops[r.below(3)]); u64 n=r.below(8)==0?r.below(5000):r.below(60); i.set("n",n); bool w=r.below(3)==0; std::vector<int> b; for(u64 k=0;k<n;k++) b.push_back(w?r.below(256):r.below(2)); i.arr("bits",b); std::vector<int> s; for(u64 k=0;k<(n+7)/8;k++) s.push_back(r.below(256)); i.arr("src",s); return i; }
