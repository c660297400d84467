"""Contract building blocks for the vector classes."""
from engine.verify import *
from engine.models import MODELS

MAXN=1<<32      # vectors of fewer than 2^32 elements (sizes in the API are partly 32-bit)
class Vec:
    """symbolic vector: object of class VectorBase<T> (mData,mStart,mEnd)"""
    def __init__(s,V,st,name,kind='alias',es=1,node=None,maxn=MAXN,data=None,start=None,n=None):
        s.es=es; s.name=name; s.kind=kind
        if n is None:
            n=fresh(name+'_n'); st.assume(z3.ULE(n,maxn-1))
        s.n=n
        if kind=='empty':
            s.n=0; s.s0=0; s.data=None
            cells={0:(8,NULL),8:(8,NULL),16:(8,NULL)}
        elif kind=='owner':
            if data is None: data=V.new(st,name+'_data',mul(64,n,es),'heaparr',ArrC(es,node or Base(name,8*es if es!='f' else 'f32')))
            s.data=data; s.s0=0
            cells={0:(8,P(data,0)),8:(8,P(data,0)),16:(8,P(data,mul(64,n,es)))}
        else:
            if data is None:
                pre=fresh(name+'_s0'); post=fresh(name+'_after')
                st.assume(z3.ULE(pre,1<<20)); st.assume(z3.ULE(post,1<<20))
                data=V.new(st,name+'_data',mul(64,simp(pre+n+post),es),'heaparr',ArrC(es,node or Base(name,8*es)))
                s.s0=pre; s.post=post
            else: s.s0=start
            s.data=data
            cells={0:(8,NULL),8:(8,P(data,mul(64,s.s0,es))),16:(8,P(data,mul(64,add(64,s.s0,n),es)))}
        if s.data is not None:
            V.ranges[s.data.id]=(s.s0,add(64,s.s0,s.n)); V.terms+=[t for t in (s.n,s.s0,add(64,s.s0,s.n)) if not isint(t)]
        s.obj=V.new(st,name,24,'heap',Cells(cells))
        s.ptr=P(s.obj,0)
def vview(V,st,p):
    """(data object, start element, element count) of the vector at pointer p, element size es"""
    o=p.obj
    a=V.get(st,o,add(64,p.off,8)); b=V.get(st,o,add(64,p.off,16))
    return a,b
def view(V,st,p,es=1):
    a,b=vview(V,st,p)
    if a.obj is None: return None,0,0
    sh=es.bit_length()-1
    d=lambda x: x if sh==0 else (x>>sh if isint(x) else simp(z3.LShR(x,sh)))
    return a.obj,d(a.off),d(sub(64,b.off,a.off))
def elems(V,st,o,es=1):
    c=V.content(st,o)
    if isinstance(c,ArrC) and c.es==es: return c.node
    return V.to_arr(st,o,es).node
def bitof(x): 
    return (x&1) if isint(x) else z3.Extract(0,0,x)
def setnode(V,st,o,es,node): V.setc(st,o,ArrC(es,node))

def field_msb(V,st,node,start,L):
    """number formed by elements start..start+L-1, most significant first. L: int or 32-bit/64-bit term (<=64)"""
    ax=[]
    if isint(L):
        bs=[z3.Extract(0,0,bv(node.read(add(64,start,j),ax),8)) for j in range(L)]
        r=0 if L==0 else simp(z3.ZeroExt(64-L,z3.Concat(*bs) if L>1 else bs[0]) if L<64 else z3.Concat(*bs))
    else:
        L=zext(L,L.size(),64); acc=bv(0,64)
        mx=getattr(V,'maxfield',64)
        for j in range(mx):
            b=bv(node.read(simp(start+L-1-j),ax),8)
            acc=acc|z3.If(z3.UGT(L,j),z3.ZeroExt(63,z3.Extract(0,0,b))<<j,bv(0,64))
        r=simp(acc)
    for a in ax: st.assume(bz(a))
    return r
def field_lsb(V,st,node,start,L):
    ax=[]
    if isint(L):
        bs=[z3.Extract(0,0,bv(node.read(add(64,start,j),ax),8)) for j in range(L)][::-1]
        r=0 if L==0 else simp(z3.ZeroExt(64-L,z3.Concat(*bs) if L>1 else bs[0]) if L<64 else z3.Concat(*bs))
    else:
        L=zext(L,L.size(),64); acc=bv(0,64)
        for j in range(64):
            b=bv(node.read(simp(start+j),ax),8)
            acc=acc|z3.If(z3.UGT(L,j),z3.ZeroExt(63,z3.Extract(0,0,b))<<j,bv(0,64))
        r=simp(acc)
    for a in ax: st.assume(bz(a))
    return r
def fill_node(old,start,value,L,msb):
    """elements start..start+L-1 take the bits of value"""
    if isint(L):
        nd=old
        for k in range(L):
            sh=L-1-k if msb else k
            b=(value>>sh)&1 if isint(value) else simp(z3.ZeroExt(7,z3.Extract(sh,sh,value)))
            nd=Store(nd,add(64,start,k),b)
        return nd
    L=zext(L,L.size(),64)
    def fn(i,ax):
        k=sub(64,i,start)
        c=ult(k,L)
        if c is False: return old.read(i,ax)
        sh=sub(64,sub(64,L,1),k) if msb else k
        v=bv(value,64)
        if isint(sh): b=simp(z3.ZeroExt(7,z3.Extract(sh&63,sh&63,v)))
        else: b=simp(z3.ZeroExt(7,z3.Extract(0,0,z3.LShR(v,sh))))
        if c is True: return b
        return ite(c,b,old.read(i,ax),8)
    return Lam(8,fn)

def concretize(V,st,x,w):
    """the value of a term that the path condition determines"""
    if isint(x): return x
    so=V.lia; 
    try:
        so.sync(st.pc); so.sol.set('timeout',500)
        e,defs,_=so.bool(x==z3.BitVec('conc!%d'%w,w))
        so.sol.push()
        for d in defs: so.sol.add(d)
        so.sol.add(e); r=so.sol.check(); m=so.sol.model() if r==z3.sat else None
        so.sol.pop()
        if m is None: return x
        v=so.val(z3.BitVec('conc!%d'%w,w)); k=m.eval(so.expr(v),model_completion=True).as_long()
    except (z3.Z3Exception,AttributeError): return x
    return k if V.must(st,x==k) else x
class Field(Contract):
    """peek/read/fill/write of a bit field; one instance per concrete length when verified"""
    NAMES={
     ('peek',True):'BitVector::peekField(unsigned long, unsigned int) const',
     ('peek',False):'BitVector::peekFieldReversed(unsigned long, unsigned int) const',
     ('read',True):'BitVector::readField(unsigned long&, unsigned int) const',
     ('read',False):'BitVector::readFieldReversed(unsigned long&, unsigned int) const',
     ('fill',True):'BitVector::fillField(unsigned long, unsigned long, unsigned int)',
     ('fill',False):'BitVector::fillFieldReversed(unsigned long, unsigned long, unsigned int)',
     ('write',True):'BitVector::writeField(unsigned long&, unsigned long, unsigned int)',
     ('write',False):'BitVector::writeFieldReversed(unsigned long&, unsigned long, unsigned int)'}
    def __init__(s,op,msb,L=None,kind='alias'):
        s.op=op;s.msb=msb;s.L=L;s.kind=kind; s.name=s.NAMES[(op,msb)]
        s.title='%s [length %s, %s vector]'%(s.name,L,kind)
        s.reads=op in('peek','read'); s.cursor=op in('read','write')
    def setup(s,V,st):
        s.v=Vec(V,st,'bits',s.kind); s.pos=fresh('pos'); s.value=fresh('value')
        a=[s.v.ptr]
        if s.cursor:
            s.cur=V.new(st,'cursor',8,'heap',Cells({0:(8,s.pos)})); a.append(P(s.cur,0))
        else: a.append(s.pos)
        if not s.reads: a.append(s.value)
        a.append(s.L)
        return a
    def parts(s,V,st,a):
        pos=V.load(st,a[1],I(64),V.prog.mods[0]) if s.cursor else a[1]
        L=concretize(V,st,a[-1],32)
        return pos,L
    def requires(s,V,st,a):
        pos,L=s.parts(V,st,a)
        o,s0,n=view(V,st,a[0])
        L64=L if isint(L) else zext(L,32,64)
        return [('length at most 64',ule(L64,64)),('field inside the vector',And(ule(pos,n),ule(L64,sub(64,n,pos))))]
    def spec(s,V,st,a):
        pos,L=s.parts(V,st,a); o,s0,n=view(V,st,a[0])
        L64=L if isint(L) else zext(L,32,64)
        r=None
        if isint(L) and L==0: r=0 if s.reads else None
        elif o is None: r=0 if s.reads else None
        elif s.reads:
            r=(field_msb if s.msb else field_lsb)(V,st,elems(V,st,o),add(64,s0,pos),L)
        else:
            setnode(V,st,o,1,fill_node(elems(V,st,o),add(64,s0,pos),a[2],L,s.msb))
        if s.cursor: V.store(st,a[1],add(64,pos,L64),I(64),V.prog.mods[0])
        return r
    def inputs(s,V,st,a):
        return [('op','str',s.op),('msb','int',int(s.msb)),('n','term',s.v.n),('pos','term',s.pos),('len','int',s.L),('value','term',s.value),('bits','arr',s.v.data,s.v.s0,s.v.n,1)]
    def small(s,V,st,a):
        c=[ule(s.v.n,80)]
        if s.kind=='alias': c+=[ule(s.v.s0,4),ule(s.v.post,4)]
        return c
ALLFIELDS=[(o,m) for o in('peek','read','fill','write') for m in(True,False)]
FIELD_CONTRACTS=[Field(o,m) for o,m in ALLFIELDS]
