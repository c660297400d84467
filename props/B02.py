from props.bvlib import *
from engine.strings import Str
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='B02.cpp'
def bvec(V,st,kind,r):
    """a vector whose length is congruent to r modulo 8 (one task per remainder)"""
    q=z3.BitVec('q!%d'%uid(),61); st.assume(z3.ULE(q,(1<<28)-2)); n=z3.Concat(q,bv(r,3)); V.terms+=[simp(z3.LShR(n,3))]
    return Vec(V,st,'bits',kind,n=simp(n))
def byte_of(node,s0,n,i,ax,partial):
    """byte i of the packed form of n bits; a position past the end is zero"""
    base=add(64,s0,mul(64,i,8)); bs=[]
    for b in range(8):
        e=z3.Extract(0,0,bv(node.read(add(64,base,b),ax),8))
        bs.append(e if not partial else z3.If(bz(ult(add(64,mul(64,i,8),b),n)),e,bv(0,1)))
    return simp(z3.Concat(*bs))
def packed(node,s0,n):
    full=simp(z3.LShR(n,3)) if not isint(n) else n//8
    def fn(i,ax):
        c=ult(i,full)
        if c is True: return byte_of(node,s0,n,i,ax,False)
        return z3.If(bz(c),byte_of(node,s0,n,i,ax,False),byte_of(node,s0,n,i,ax,True))
    return Lam(8,fn)
def ceil8(n): return (n+7)//8 if isint(n) else simp(z3.LShR(n+7,3))
class Pack(Contract):
    name='BitVector::pack(unsigned char*) const'; op='pack'
    def __init__(s,kind='alias',r=0): s.kind=kind;s.r=r; s.title='%s [%s, length = %d mod 8]'%(s.name,kind,r)
    def bits(s,V,st): s.v=Vec(V,st,'bits','empty') if s.kind=='empty' else bvec(V,st,s.kind,s.r)
    def setup(s,V,st):
        s.bits(V,st); n=s.v.n; s.m=ceil8(n)
        s.pre=fresh('before'); s.post=fresh('after'); st.assume(z3.ULE(s.pre,64)); st.assume(z3.ULE(s.post,64))
        s.tn=Base('target',8); s.t=V.new(st,'target',simp(bv(s.m)+s.pre+s.post),'heaparr',ArrC(1,s.tn)); V.terms+=[s.pre]
        return [s.v.ptr,P(s.t,s.pre)]
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        if o is None: return
        pk=packed(elems(V,st,o),s0,n); m=ceil8(n)
        def fn(i,ax):
            k=sub(64,i,s.pre); c=ult(k,m)
            return ite(c,pk.read(k,ax),s.tn.read(i,ax),8) if not isinstance(c,bool) else (pk.read(k,ax) if c else s.tn.read(i,ax))
        V.ranges[s.t.id]=(s.pre,add(64,s.pre,m))
        setnode(V,st,s.t,1,Lam(8,fn))
    def inputs(s,V,st,a): return [('op','str',s.op),('n','term',s.v.n)]+([('bits','arr',s.v.data,s.v.s0,s.v.n,1)] if s.v.data is not None else [])
    def small(s,V,st,a): return [ule(s.v.n,40)] if not isint(s.v.n) else []
class PackStr(Pack):
    name='BitVector::packToString[abi:cxx11]() const'; op='packstr'
    def setup(s,V,st):
        s.bits(V,st); s.o=V.new(st,'result',32,'heap',Cells()); return [P(s.o,0),s.v.ptr]
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[1])
        v=StrV(0,Const(8,0)) if o is None else StrV(ceil8(n),packed(elems(V,st,o),s0,n))
        V.setc(st,s.o,Cells({0:(32,v)}))
class Unpack(Pack):
    name='BitVector::unpack(unsigned char const*)'; op='unpack'
    def setup(s,V,st):
        s.bits(V,st); s.m=ceil8(s.v.n)
        s.sn=Base('source',8); s.src=V.new(st,'source',s.m,'heaparr',ArrC(1,s.sn))
        return [s.v.ptr,P(s.src,0)]
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        if o is None: return
        old=elems(V,st,o)
        def fn(i,ax):
            k=sub(64,i,s0); c=ult(k,n)
            k=bv(k); by=bv(s.sn.read(simp(z3.LShR(k,3)),ax),8)
            j=z3.ZeroExt(5,z3.Extract(2,0,simp(k)))
            bit=z3.ZeroExt(7,z3.Extract(7,7,by<<j))
            return z3.If(bz(c),simp(bit),bv(old.read(i,ax),8))
        setnode(V,st,o,1,Lam(8,fn))
    def inputs(s,V,st,a): return [('op','str',s.op),('n','term',s.v.n),('src','arr',s.src,0,s.m,1)]+([('bits','arr',s.v.data,s.v.s0,s.v.n,1)] if s.v.data is not None else [])
class Inverse(Lemma):
    title='lemma: unpacking what was packed restores every bit'
    def prove(s,L):
        bits=z3.Function('bits',z3.BitVecSort(64),z3.BitVecSort(1)); n,k=z3.BitVecs('n k',64)
        i=z3.LShR(k,3); by=z3.Concat(*[z3.If(z3.ULT(8*i+b,n),bits(8*i+b),bv(0,1)) for b in range(8)])
        j=z3.ZeroExt(5,z3.Extract(2,0,k))
        L('bit k of the unpacked vector is bit k of the packed one',z3.Implies(z3.And(z3.ULT(n,1<<32),z3.ULT(k,n)),z3.Extract(7,7,by<<j)==bits(k)))
        by2=[z3.BitVec('b%d'%q,8) for q in range(1)][0]
        L('every byte equals the packing of its own bits',z3.Concat(*[z3.Extract(7,7,by2<<b) for b in range(8)])==by2)
CONTRACTS=[Field('peek',True),Field('fill',True)]
TASKS=[(lambda c=c,k=k,r=r:c(k,r)) for c in(Pack,PackStr,Unpack) for k in('alias','owner') for r in range(8)]
TASKS+=[(lambda c=c:c('empty')) for c in(Pack,PackStr,Unpack)]+[lambda:Inverse()]
TASKS+=[(lambda o=o,l=l:Field(o,True,l,'alias')) for o in('peek','fill') for l in list(range(0,17))+[32,64]]
ASSUME=['vectors hold fewer than 2^31 elements','byte buffers do not overlap the vector']
