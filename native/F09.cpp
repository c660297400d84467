// NOCHECK: shift-base
#include "drv.h"
#include "F16.h"
#include <math.h>
typedef __int128 i128; typedef long double ld;
static F16 mk(int32_t v){ F16 x; x.raw()=v; return x; }
static float fb(uint32_t b){ float f; memcpy(&f,&b,4); return f; } static double db(uint64_t b){ double f; memcpy(&f,&b,8); return f; }
static bool fit(ld x){ return x>=-2147483648.0L&&x<=2147483647.0L; }
static int one(const In&in){
  std::string op=in.s("op"),ot=in.s("other"); int32_t a=(int32_t)in.u("a"); uint64_t bb=in.u("b"); int32_t b=ot=="self"?a:(int32_t)bb; F16 x=mk(a),y=mk(b); F16&o=ot=="self"?x:y; bool c=op.size()==2&&op[1]=='='&&op!="=="; char k=op[0];
  if(op=="raw"){ if(x.raw()!=a||((const F16&)x).raw()!=a) BAD("raw"); return 0; }
  if(op=="f"){ if(x.f()!=(float)a/65536.0F) BAD("f() of raw %d is %.9g",a,x.f()); return 0; }
  if(op=="ctor"||op=="="){ int32_t want; F16 r; bool as=op=="=";
    if(ot=="int"){ if(b<-32768||b>32767) return 3; want=b*65536; if(as){ r=(x=b); } else { F16 t(b); x=t; r=t; } }
    else if(ot=="F16"||ot=="self"){ if(!as) return 3; want=b; F16 t; t=mk(a); r=(t=mk(b)); x=o; F16 z,w; z=w=o; if(z.raw()!=b||w.raw()!=b) BAD("chained assignment stores %d",z.raw()); }
    else { if(as&&ot=="double") return 3; ld p=(ot=="float"?(ld)fb(bb):(ld)db(bb))*65536.0L; if(!(p>-2147483648.4L&&p<2147483647.4L)) return 3; want=(int32_t)roundl(p); if(as){ r=(x=fb(bb)); } else if(ot=="float"){ F16 t(fb(bb)); x=t; r=t; } else { F16 t(db(bb)); x=t; r=t; } }
    if(x.raw()!=want) BAD("%s from %s stores %d, expected %d",op.c_str(),ot.c_str(),x.raw(),want); if(r.raw()!=want) BAD("assignment returns %d, expected %d",r.raw(),want); return 0; }
  if(op==">"||op=="<"||op=="=="){ bool got,want; if(ot=="float"){ float f=fb(bb); double e=a/65536.0; got=k=='>'?x>f:k=='<'?x<f:x==f; want=k=='>'?e>f:k=='<'?e<f:e==f; } else { got=k=='>'?x>o:k=='<'?x<o:x==o; want=k=='>'?a>b:k=='<'?a<b:a==b; } if(got!=want) BAD("comparison %s of %d with %s %llu is %d",op.c_str(),a,ot.c_str(),(unsigned long long)bb,got); return 0; }
  int32_t want,got,st;
  if(ot=="float"){ float f=fb(bb); float p=k=='*'?(float)a*f:(float)a/f; if(!(p>=-2147483648.0F&&p<2147483648.0F)) return 3; want=(int32_t)p; if(c){ F16&r=k=='*'?(x*=f):(x/=f); if(&r!=&x) BAD("compound operator returns another object"); got=x.raw(); st=want; } else { got=(k=='*'?x*f:x/f).raw(); st=a; } }
  else { i128 A=a,B=b,r; if(k=='/'&&b==0) return 3; r=k=='+'?A+B:k=='-'?A-B:k=='*'?(A*B)>>16:(A*65536)/B; if(r<-2147483648LL||r>2147483647LL) return 3; want=(int32_t)r;
    if(c){ F16&q=k=='+'?(x+=o):k=='-'?(x-=o):k=='*'?(x*=o):(x/=o); if(&q!=&x) BAD("compound operator returns another object"); got=x.raw(); st=want; } else { got=(k=='+'?x+o:k=='-'?x-o:k=='*'?x*o:x/o).raw(); st=a; } if(ot!="self"&&y.raw()!=b) BAD("operand changed"); }
  if(got!=want) BAD("%d %s %s %llu gives %d, expected %d",a,op.c_str(),ot.c_str(),(unsigned long long)bb,got,want); if(x.raw()!=st) BAD("left side holds %d after %s",x.raw(),op.c_str()); return 0; }
static In gen(Rng&r,const std::string&){ In i; const char*ops[]={"ctor","=","+","+=","-","-=","*","*=","/","/=",">","<","==","f","raw"}; std::string op=ops[r.below(15)]; i.sets("op",op); const char*ot; bool md=op[0]=='*'||op[0]=='/', cmp=op==">"||op=="<"||op=="==";
  if(op=="ctor"){ const char*t[]={"int","float","double"}; ot=t[r.below(3)]; } else if(op=="="){ const char*t[]={"int","float","F16","self"}; ot=t[r.below(4)]; } else if(md||cmp){ const char*t[]={"F16","F16","float","self"}; ot=t[r.below(4)]; } else ot=r.below(8)?"F16":"self";
  i.sets("other",ot); int32_t a=r.below(3)?(int32_t)r.u()>>r.below(32):(int32_t)r.edge(); i.set("a",(uint32_t)a); uint64_t b; 
  if(!strcmp(ot,"float")){ float f; switch(r.below(4)){case 0: f=(float)(int)r.u()/65536.0f; break; case 1: f=(float)((int)r.below(2001)-1000)/(1<<r.below(20)); break; case 2: f=a/65536.0f; break; default: f=(float)((int)r.below(65536)-32768);} uint32_t x; memcpy(&x,&f,4); x+=(int)r.below(3)-1; b=x; }
  else if(!strcmp(ot,"double")){ double d; switch(r.below(3)){case 0: d=(int)r.u()/65536.0; break; case 1: d=(int)r.u()/131072.0; break; default: d=((int)r.u()+r.below(1000)/1000.0)/65536.0/(1<<r.below(16));} memcpy(&b,&d,8); }
  else if(!strcmp(ot,"int")) b=(uint32_t)((int)r.below(65536)-32768); else b=(uint32_t)(r.below(3)?(int32_t)r.u()>>r.below(32):r.below(2)?(int32_t)r.edge():(int32_t)((int64_t)a+(int64_t)r.below(3)-1));
  i.set("b",b); return i; }
