// makes the inline members of F16 appear in the IR; no logic of its own
#include "F16.h"
#include <sstream>
F16 tu_f16(F16&a,const F16&b,float f,double d,int i,bool*r){
  F16 x(i),y(f),z(d),w(b); a=f; a=i; a=b; x=a+b; x+=b; y=a-b; y-=b; z=a*b; z*=b; w=a/b; w/=b; x=a*f; x*=f; y=a/f; y/=f;
  r[0]=a>b; r[1]=a<b; r[2]=a==b; r[3]=a>f; r[4]=a<f; r[5]=a==f; r[6]=a.f()>0; r[7]=x.raw()==b.raw(); return w; }
