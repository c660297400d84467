"""F16: 16.16 fixed-point arithmetic"""
from engine.verify import *
from engine.models import MODELS
SRCS=['tu:f16.cpp']
NATIVE='F09.cpp'
F32=z3.Float32(); F64=z3.Float64(); RNE=z3.RNE(); RNA=z3.RNA(); RTZ=z3.RTZ()
def D(x): return z3.FPVal(x,F64)
def S(x): return z3.FPVal(x,F32)
def w64(x): return z3.SignExt(32,x)
def fits64(x): return sbool(z3.And(x>=-(1<<31),x<(1<<31)))
def fval(bits): return z3.fpBVToFP(bits,F32 if bits.size()==32 else F64)
class Op(Contract):
    """one member of F16; other: 'F16' (distinct object), 'self' (same object), 'float', 'double', 'int'"""
    def __init__(s,op,other):
        s.op=op; s.other=other; t='F16 const&' if other in('F16','self') else other
        s.compound=op in('+=','-=','*=','/=','='); s.ctor=op=='ctor'
        s.name={'ctor':'F16::F16(%s)'%t,'f':'F16::f() const','raw':'F16::raw() const'}.get(op) or 'F16::operator%s(%s)%s'%(op,t,'' if s.compound else ' const')
        s.title='%s%s'%(s.name,' [operand is the object itself]' if other=='self' else '')
    def setup(s,V,st):
        s.a=fresh('a',32); s.o=V.new(st,'number',4,'heap',Cells() if s.ctor else Cells({0:(4,s.a)})); r=[P(s.o,0)]
        s.b=fresh('b',64 if s.other=='double' else 32)
        if s.other=='F16': s.q=V.new(st,'operand',4,'heap',Cells({0:(4,s.b)})); r.append(P(s.q,0))
        elif s.other=='self': s.b=s.a; r.append(P(s.o,0))
        elif s.other in('float','double'): r.append(fval(s.b))
        elif s.other=='int': r.append(s.b)
        return r
    def value(s,V,st,a):
        """(resulting raw value, condition that it fits)"""
        x=s.a; op=s.op.rstrip('=') if s.compound and s.op!='=' else s.op
        if op in('ctor','='):
            if s.other in('F16','self'): return s.b,True
            if s.other=='int': return simp(s.b<<16),sbool(z3.And(s.b>=-32768,s.b<=32767))
            # 65536 times the number: exact in either format (a power of two), whenever the result fits
            p=z3.fpMul(RNE,fval(s.b),D(65536.0)) if s.other=='double' else z3.fpFPToFP(RNE,z3.fpMul(RNE,fval(s.b),S(65536.0)),F64)
            return z3.fpToSBV(RNA,p,z3.BitVecSort(32)),sbool(z3.And(z3.fpLT(D(-2147483648.5),p),z3.fpLT(p,D(2147483647.5))))
        if s.other in('F16','self'):
            A,B=w64(x),w64(s.b)
            if op=='+': r=A+B
            elif op=='-': r=A-B
            elif op=='*': r=(A*B)>>16
            elif op=='/': r=(A<<16)/B
            f=fits64(r)
            if op=='/': f=And(Not(eq(s.b,0)),f)
            return simp(z3.Extract(31,0,r)),f
        m=z3.fpSignedToFP(RNE,x,F32); r=(z3.fpMul if op=='*' else z3.fpDiv)(RNE,m,fval(s.b))
        return z3.fpToSBV(RTZ,r,z3.BitVecSort(32)),sbool(z3.And(z3.fpLEQ(S(-2147483648.0),r),z3.fpLT(r,S(2147483648.0))))
    def requires(s,V,st,a):
        if s.op in('>','<','==','f','raw'): return []
        return [('the result fits',s.value(V,st,a)[1])]
    def spec(s,V,st,a):
        if s.op=='raw': return a[0]
        exact=z3.fpDiv(RNE,z3.fpSignedToFP(RNE,s.a,F64),D(65536.0))      # exact: 32-bit integer scaled by a power of two
        if s.op=='f': return z3.fpDiv(RNE,z3.fpSignedToFP(RNE,s.a,F32),S(65536.0))
        if s.op in('>','<','=='):
            if s.other=='float':
                f=z3.fpFPToFP(RNE,fval(s.b),F64); return sbool({'>':z3.fpGT,'<':z3.fpLT,'==':z3.fpEQ}[s.op](exact,f))
            return sbool({'>':s.a>s.b,'<':s.a<s.b,'==':s.a==s.b}[s.op])
        v,_=s.value(V,st,a)
        if s.ctor or s.compound: V.setc(st,s.o,Cells({0:(4,v)}))
        if s.ctor: return None
        if s.compound and s.op!='=': return a[0]
        return v
    def inputs(s,V,st,a): return [('op','str',s.op),('other','str',s.other),('a','term',s.a),('b','term',s.b)]
CONTRACTS=[]
OPS=[('ctor',o) for o in('int','float','double')]+[('=',o) for o in('int','float','F16','self')]+[(x+e,o) for x in '+-*/' for e in('','=') for o in('F16','self')]+[(x+e,'float') for x in '*/' for e in('','=')]
OPS+=[(c,o) for c in('>','<','==') for o in('F16','self','float')]+[('f',''),('raw','')]
TASKS=[(lambda a=a,b=b:Op(a,b)) for a,b in OPS]
ASSUME=['multiplying or dividing a finite IEEE number by 2^16 is exact when the result is in range','the result fits 16.16 (what happens otherwise is not specified)']
OPTS={'timeout':60000}
