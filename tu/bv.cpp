// instantiates header-only code so that its IR is available; no logic of its own
#include "BitVector.h"
Parity* tu_parity(uint64_t a,unsigned b,unsigned c){ return new Parity(a,b,c); }
Generator* tu_gen(uint64_t a,unsigned b){ return new Generator(a,b); }
uint64_t tu_state(Generator&g){ g.clear(); return g.state()+g.size(); }
template class VectorBase<char>;
template class VectorBase<float>;
template class Vector<char>;
template class Vector<float>;
void tu_p(BitVector&a,BitVector&b,SoftVector&c,SoftVector&d,const unsigned*p,size_t n){ a.copyPunctured(b,p,n); c.copyUnPunctured(d,p,n); }
void tu_bv(BitVector&a,const BitVector&b,const char*s,size_t i,size_t j){
  BitVector c(a); BitVector d(b,c); BitVector e(i); BitVector f; BitVector g(s); BitVector h((char*)0,a.begin(),a.end());
  f=a; f=a.segment(i,j); f=a.head(i); f=a.tail(i); f=b.alias(); BitVector k=b.cloneSegment(i,j); a.zero(); size_t w=i; a.write0(w); a.write1(w);
  void (BitVector::*pd)(BitVector&)=&BitVector::dup; (a.*pd)(c); BitVector z; z.dup(b); a[i]=b[j]; a.settfb(i,b.bit(j));
}
void tu_v(Vector<char>&a,Vector<float>&b,SoftVector&c){ Vector<char> x(a); const Vector<char> y(static_cast<const Vector<char>&>(a)); SoftVector s(b); SoftVector t(c); BitVector k; k=k; }
void tu_sv(SoftVector&a,const SoftVector&b,const BitVector&v,float*p,size_t i,size_t j){
  SoftVector c(i), d(v), e(p,p,p+i); SoftVector g=a.segment(i,j), h=a.alias(), k=a.head(i), l=a.tail(i);
  const SoftVector m=b.segment(i,j), n=b.head(i), o=b.tail(i); a.unknown(); a.settfb(i,b.softbit(j)); (void)b.bit(i); BitVector s=a.sliced();
}
