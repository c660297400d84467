from props.bvlib import *
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='B06.cpp'
def low(x): return (x&1) if isint(x) else z3.Extract(0,0,x)
class Eq(Contract):
    """D: the first position below the common length whose bits differ, or the common length"""
    name='BitVector::operator==(BitVector const&) const'
    def __init__(s,k1,k2,same=False): s.k1=k1;s.k2=k2;s.same=same; s.title='%s [%s vs %s]'%(s.name,'itself' if same else k1,k2)
    def setup(s,V,st):
        if s.same:
            s.a=s.b=Vec(V,st,'left',s.k1); s.D=s.a.n; return [s.a.ptr,s.a.ptr]
        empty='empty' in(s.k1,s.k2)
        if empty:
            s.a=Vec(V,st,'left',s.k1); s.b=Vec(V,st,'right',s.k2); s.D=0; return [s.a.ptr,s.b.ptr]
        D=s.D=fresh('firstdiff')
        fa=z3.Function('left!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(8)); fb=z3.Function('right!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(8))
        na=Base('left',8); nb=Base('right',8); na.f=fa; nb.f=fb
        s.a=Vec(V,st,'left',s.k1,node=na); s.b=Vec(V,st,'right',s.k2,node=nb)
        A,B=s.a.s0,s.b.s0
        na.axioms=[lambda i,v: z3.Implies(z3.ULT(simp(bv(i)-A),D),z3.Extract(0,0,v)==z3.Extract(0,0,fb(simp(bv(i)-A+B))))]
        nb.axioms=[lambda i,v: z3.Implies(z3.ULT(simp(bv(i)-B),D),z3.Extract(0,0,v)==z3.Extract(0,0,fa(simp(bv(i)-B+A))))]
        n=z3.If(z3.ULT(s.a.n,s.b.n),s.a.n,s.b.n)
        st.assume(z3.ULE(D,n)); st.assume(z3.Implies(z3.ULT(D,n),z3.Extract(0,0,fa(simp(A+D)))!=z3.Extract(0,0,fb(simp(B+D)))))
        V.terms+=[D]
        return [s.a.ptr,s.b.ptr]
    def spec(s,V,st,a):
        if s.same: return True
        e=eq(s.a.n,s.b.n)
        if e is False: return False
        return sbool(z3.And(bz(e),bz(eq(s.D,s.a.n))))
    def inputs(s,V,st,a): return [('op','str','eq'),('n1','term',s.a.n),('n2','term',s.b.n)]+[(k,'arr',v.data,v.s0,v.n,1) for k,v in(('a',s.a),('b',s.b)) if v.data is not None]
    def small(s,V,st,a): return [ule(v.n,4) for v in(s.a,s.b) if not isint(v.n)]
def size_of(es): return 4 if es=='f' else es
class Concat(Contract):
    NAMES={('vConcat',1):'VectorBase<char>::vConcat(VectorBase<char> const&, VectorBase<char> const&)',('vConcat',4):'VectorBase<float>::vConcat(VectorBase<float> const&, VectorBase<float> const&)',
      ('ctor',1):'BitVector::BitVector(BitVector const&, BitVector const&)',('vctor',1):'Vector<char>::Vector(Vector<char> const&, Vector<char> const&)',('vctor',4):'Vector<float>::Vector(Vector<float> const&, Vector<float> const&)'}
    def __init__(s,op,es,k1,k2,same=False,old='empty'):
        s.op=op;s.es=es;s.k1=k1;s.k2=k2;s.same=same;s.old=old; s.name=s.NAMES[(op,es)]; s.title='%s [%s + %s%s]'%(s.name,k1,'itself' if same else k2,', target '+old if op=='vConcat' else '')
    def setup(s,V,st):
        mk=lambda n,k: Vec(V,st,n,k,es=s.es,node=Base(n,8 if s.es==1 else 'f32'),maxn=1<<31)
        s.a=mk('left',s.k1); s.b=s.a if s.same else mk('right',s.k2)
        if s.op=='vConcat': s.t=mk('target',s.old); p=s.t.ptr; s.o=s.t.obj
        else: s.t=None; s.o=V.new(st,'this',24,'heap',Cells()); p=P(s.o,0)
        return [p,s.a.ptr,s.b.ptr]
    def spec(s,V,st,a):
        if s.t is not None and s.t.kind=='owner': V.kill(st,s.t.data)
        n1,n2=s.a.n,s.b.n; n=add(64,n1,n2); es=s.es
        na=elems(V,st,s.a.data,es) if s.a.data is not None else None; nb=elems(V,st,s.b.data,es) if s.b.data is not None else None
        w=8 if es==1 else 'f32'
        def fn(i,ax):
            if na is None: return nb.read(add(64,s.b.s0,i),ax)
            x=na.read(add(64,s.a.s0,i),ax)
            if nb is None: return x
            c=ult(i,n1); y=nb.read(add(64,s.b.s0,sub(64,i,n1)),ax)
            return x if c is True else y if c is False else z3.If(c,bv(x,8) if es==1 else x,bv(y,8) if es==1 else y)
        if isint(n) and n==0: V.setc(st,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)})); return
        x=None
        if not isint(n): x=st.fork(); x.assume(n==0); V.setc(x,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)})); st.assume(n!=0)
        d=V.new(st,'elements',mul(64,n,es),'heaparr',ArrC(es,Lam(w,fn)))
        V.array_specs.append(ArrSpec(es,Lam(w,fn),0,n,None))
        V.setc(st,s.o,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,mul(64,n,es)))}))
        return [(st,None)]+([(x,None)] if x is not None else [])
    def inputs(s,V,st,a): return [('op','str','concat'),('float','int',int(s.es==4)),('how','str',s.op),('n1','term',s.a.n),('n2','term',s.b.n)]+[(k,'arr',v.data,v.s0,v.n,s.es) for k,v in(('a',s.a),('b',s.b)) if v.data is not None]
    def small(s,V,st,a): return [ule(v.n,3) for v in(s.a,s.b) if not isint(v.n)]
F32=z3.Float32()
def fval(x): return z3.FPVal(x,F32)
class Soft(Contract):
    name='SoftVector::SoftVector(BitVector const&)'
    def __init__(s,k): s.k=k; s.title='%s [%s]'%(s.name,k)
    def setup(s,V,st): s.v=Vec(V,st,'bits',s.k); s.o=V.new(st,'this',24,'heap',Cells()); return [P(s.o,0),s.v.ptr]
    def spec(s,V,st,a):
        n=s.v.n; nl=lambda x: V.setc(x,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)}))
        if isint(n): nl(st); return
        x=st.fork(); x.assume(n==0); nl(x); st.assume(n!=0); nd=elems(V,st,s.v.data)
        node=Lam('f32',lambda i,ax: z3.If(z3.Extract(0,0,bv(nd.read(add(64,s.v.s0,i),ax),8))==1,fval(1.0),fval(0.0)))
        d=V.new(st,'elements',mul(64,n,4),'heaparr',ArrC(4,node)); V.array_specs.append(ArrSpec(4,node,0,n,None))
        V.setc(st,s.o,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,mul(64,n,4)))}))
        return [(st,None),(x,None)]
    def inputs(s,V,st,a): return [('op','str','soft'),('n1','term',s.v.n)]+([('a','arr',s.v.data,s.v.s0,s.v.n,1)] if s.v.data is not None else [])
    def small(s,V,st,a): return [ule(s.v.n,4)] if not isint(s.v.n) else []
class Sliced(Contract):
    name='SoftVector::sliced() const'
    def __init__(s,k): s.k=k; s.title='%s [%s]'%(s.name,k)
    def setup(s,V,st):
        s.v=Vec(V,st,'soft',s.k,es=4,node=Base('soft','f32')); s.o=V.new(st,'result',24,'heap',Cells()); return [P(s.o,0),s.v.ptr]
    def spec(s,V,st,a):
        n=s.v.n; nl=lambda x: V.setc(x,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)}))
        if isint(n): nl(st); return
        x=st.fork(); x.assume(n==0); nl(x); st.assume(n!=0); nd=elems(V,st,s.v.data,4)
        node=Lam(8,lambda i,ax: z3.If(z3.fpGT(nd.read(add(64,s.v.s0,i),ax),fval(0.5)),bv(1,8),bv(0,8)))
        d=V.new(st,'elements',n,'heaparr',ArrC(1,node)); V.array_specs.append(ArrSpec(1,node,0,n,None))
        V.setc(st,s.o,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,n))}))
        return [(st,None),(x,None)]
    def inputs(s,V,st,a): return [('op','str','slice'),('n1','term',s.v.n)]+([('a','arr',s.v.data,s.v.s0,s.v.n,4)] if s.v.data is not None else [])
    def small(s,V,st,a): return [ule(s.v.n,4)] if not isint(s.v.n) else []
class Undo(Lemma):
    title='lemma: slicing a converted bit vector gives the bits back'
    def prove(s,L):
        b=z3.BitVec('b',8); x=z3.If(z3.Extract(0,0,b)==1,fval(1.0),fval(0.0))
        L('slice(convert(b)) is b',z3.fpGT(x,fval(0.5))==(z3.Extract(0,0,b)==1))
CONTRACTS=[]
TASKS=[lambda:Undo(),lambda:Eq('alias','alias',True)]+[(lambda a=a,b=b:Eq(a,b)) for a in('alias','owner','empty') for b in('alias','owner','empty')]
TASKS+=[(lambda op=op,es=es,a=a,b=b:Concat(op,es,a,b)) for op,es in(('ctor',1),('vctor',1),('vctor',4)) for a,b in(('alias','alias'),('owner','alias'),('alias','owner'),('empty','alias'),('alias','empty'),('empty','empty'))]
TASKS+=[(lambda es=es,old=old:Concat('vConcat',es,'alias','alias',False,old)) for es in(1,4) for old in('empty','owner','alias')]+[lambda:Concat('ctor',1,'alias','alias',True)]
TASKS+=[(lambda k=k:Soft(k)) for k in('alias','owner','empty')]+[(lambda k=k:Sliced(k)) for k in('alias','owner','empty')]
ASSUME=['vectors hold fewer than 2^32 elements (concatenation operands fewer than 2^31)','the target of vConcat is not one of its operands']
