// SRCS: URLEncode.cpp
#include "drv.h"
#include "URLEncode.h"
static bool safe(unsigned char c){ return (c>='0'&&c<='9')||(c>='A'&&c<='Z')||(c>='a'&&c<='z')||(c&&strchr("-_.!~'()",c)); }
static int one(const In&in){ auto a=in.a("text"); if(a.size()>2000000) return 3; std::string t; for(auto x:a) t+=(char)x; const std::string keep=t; std::string r=URLEncode(t),w; for(unsigned char c:keep){ if(safe(c)) w+=c; else { char b[8]; snprintf(b,8,"%%%02X",c); w+=b; } }
  if(t!=keep) BAD("the input changed"); if(r.size()!=w.size()) BAD("encoding has %zu characters, expected %zu",r.size(),w.size()); for(size_t k=0;k<w.size();k++) if(r[k]!=w[k]) BAD("character %zu of the encoding is 0x%02x, expected 0x%02x",k,(unsigned char)r[k],(unsigned char)w[k]);
  return 0; }
static In gen(Rng&r,const std::string&){ In i; std::vector<uint64_t> a; uint64_t n=r.below(300)==0?60000+r.below(20000):r.below(20)==0?r.below(1000):r.below(10); int m=r.below(3); for(uint64_t k=0;k<n;k++) a.push_back(m==0?r.below(256):m==1?32+r.below(95):"-_.!~'()*%+ /:"[r.below(14)]); i.arr("text",a); return i; }
