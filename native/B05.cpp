// SRCS: BitVector.cpp
#include "drv.h"
#include "BitVector.h"
typedef uint64_t u64;
template<class T> struct Raw { std::vector<T> m,keep; u64 n; Raw(u64 n_):m(n_+64),n(n_){} void snap(){keep=m;} T*b(){return m.data()+32;} T*e(){return b()+n;} };
static int one(const In&in){
  u64 n1=in.u("n1"),n2=in.u("n2"),m=in.u("m"); if(n1>100000||n2>100000||m>100000) return 3; bool un=in.s("op")=="un";
  std::vector<u64> pv=in.a("puncture"),av=in.a("a"); pv.resize(m); std::vector<unsigned> p(pv.begin(),pv.end()); u64 N=un?n2:n1;
  bool ok=un?n1+m==n2:(m<=n1&&n1-m==n2); for(u64 i=0;ok&&i<m;i++) if(p[i]>=N||(i&&p[i]<=p[i-1])) ok=false;
  unsigned*pp=(unsigned*)malloc(m*sizeof(unsigned)+1); if(m) memcpy(pp,p.data(),m*sizeof(unsigned));
  int r=0;
  if(un){ Raw<float> A(n1),D(n2); for(u64 i=0;i<A.m.size();i++) A.m[i]=i*0.001f+7; for(u64 i=0;i<D.m.size();i++) D.m[i]=-9-(float)i; A.snap();D.snap();
    r=child([&]{ SoftVector a((float*)0,A.b(),A.e()),d((float*)0,D.b(),D.e()); signal(SIGABRT,SIG_DFL); a.copyUnPunctured(d,pp,m); u64 s=0; std::vector<float> w=D.keep; if(ok){ std::vector<char> is(n2,0); for(unsigned x:p) is[x]=1; for(u64 j=0;j<n2;j++) w[32+j]=is[j]?0.5f:A.keep[32+s++]; } if(ok&&(memcmp(w.data(),D.m.data(),w.size()*4)||A.m!=A.keep)) return 41; return ok?40:42; });
  } else { Raw<char> A(n1),D(n2); for(u64 i=0;i<A.m.size();i++) A.m[i]=i*31+(i>>8); for(u64 i=0;i<D.m.size();i++) D.m[i]=i*17; for(u64 i=0;i<n1&&i<av.size();i++) A.b()[i]=av[i]; A.snap();D.snap();
    r=child([&]{ BitVector a((char*)0,A.b(),A.e()),d((char*)0,D.b(),D.e()); a.copyPunctured(d,pp,m); u64 j=0; std::vector<char> w=D.keep; if(ok){ std::vector<char> is(n1,0); for(unsigned x:p) is[x]=1; for(u64 s=0;s<n1;s++) if(!is[s]) w[32+j++]=A.keep[32+s]; } if(ok&&(w!=D.m||A.m!=A.keep)) return 41; return ok?40:42; });
  }
  free(pp);
  if(ok&&r==40) return 0; if(!ok&&(r==128+SIGABRT)) return 0;
  if(r==41) BAD("%s: wrong contents",un?"copyUnPunctured":"copyPunctured"); if(r==42) BAD("%s: invalid request was not refused",un?"copyUnPunctured":"copyPunctured");
  if(ok&&r==128+SIGABRT) BAD("%s: valid request was refused",un?"copyUnPunctured":"copyPunctured");
  BAD("%s: crashed or touched memory outside the vectors (status %d)",un?"copyUnPunctured":"copyPunctured",r);
}
static In gen(Rng&r,const std::string&){ In i; bool un=r.flip(); i.sets("op",un?"un":"p"); u64 N=r.below(6)==0?r.below(3000):r.below(14); std::vector<u64> p; unsigned den=1+r.below(6); for(u64 k=0;k<N;k++) if(r.below(den)==0||(k+1==N&&r.flip())) p.push_back(k); i.set("m",p.size());
  u64 o=N-p.size(); if(r.below(3)==0){ switch(r.below(6)){ case 0:o+=1;break; case 1:if(o)o--;break; case 2:if(p.size()) p[r.below(p.size())]=N+r.below(5);break; case 3:if(p.size()>1){u64 k=1+r.below(p.size()-1);p[k]=p[k-1];}break; case 4:if(p.size()) p.back()=0xffffffffu-r.below(4);break; default:if(p.size()) p.back()=N+r.below(2);} }
  i.set(un?"n2":"n1",N); i.set(un?"n1":"n2",o); i.arr("puncture",p); if(!un){ std::vector<u64> a; for(u64 k=0;k<N&&k<4096;k++) a.push_back(r.below(256)); i.arr("a",a);} return i; }
