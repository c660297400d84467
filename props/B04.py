from props.bvlib import *
from engine.strings import CStr
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='B04.cpp'
def vin(s,op): return [('op','str',op),('n','term',s.v.n)]+([('bits','arr',s.v.data,s.v.s0,s.v.n,1)] if s.v.data is not None else [])
class Op(Contract):
    op='?'
    kind='alias'
    def __init__(s,kind='alias'): s.kind=kind; s.title='%s [%s]'%(s.name,kind)
    def setup(s,V,st): s.v=Vec(V,st,'bits',s.kind); return [s.v.ptr]
    def inputs(s,V,st,a): return vin(s,s.op)
    def small(s,V,st,a): return [ule(s.v.n,24)] if not isint(s.v.n) else []
def rev_chunk(old,base,cnt8):
    """elements base..base+8*cnt8-1 with every group of 8 mirrored"""
    def fn(i,ax):
        k=sub(64,i,base); c=ult(k,mul(64,cnt8,8) if not isint(cnt8) else cnt8*8)
        if c is False: return old.read(i,ax)
        m=k^7 if isint(k) else simp(bv(k)^7)
        return ite(c,old.read(add(64,base,m),ax),old.read(i,ax),8)
    return Lam(8,fn)
class Reverse8(Op):
    op='reverse8'; name='BitVector::reverse8()'
    def requires(s,V,st,a):
        o,s0,n=view(V,st,a[0]); return [('at least eight bits',ule(8,n))]
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0]); old=elems(V,st,o); nd=old; ax=[]
        for k in range(8): nd=Store(nd,add(64,s0,k),old.read(add(64,s0,7-k),ax))
        for q in ax: st.assume(q)
        setnode(V,st,o,1,nd)
class Lsb(Op):
    op='lsb8msb'; name='BitVector::LSB8MSB()'
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        if o is None: return
        setnode(V,st,o,1,rev_chunk(elems(V,st,o),s0,n//8 if isint(n) else simp(z3.LShR(n,3))))
class Invert(Op):
    """bit values flip; the other bits of an element are not specified"""
    op='invert'; name='BitVector::invert()'
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        if o is None: return
        s.o,s.s0,s.n,s.old=o,s0,n,elems(V,st,o)
        s.frame_only=True
        old=s.old
        # exact candidates the elementwise result may take; the obligation itself is on the bit value
        V.alts=[('not',lambda v: ~v),('lognot',lambda v: z3.If(z3.Extract(0,0,v)==0,bv(1,8),bv(0,8))),('xor1',lambda v: v^1),('not&1',lambda v: (~v)&1),('1-v',lambda v: 1-v),('zero?',lambda v: z3.If(v==0,bv(1,8),bv(0,8)))]
        for nm,f in V.alts:
            V.array_specs.append(ArrSpec(1,Lam(8,lambda i,ax,f=f: ite(And(ule(s0,i),ult(sub(64,i,s0),n)),f(bv(old.read(i,ax),8)),old.read(i,ax),8)),s0,add(64,s0,n),None))
        V.setc(st,o,ANY)
    def extra(s,V,pre,act,out,a):
        if s.v.data is None: return
        k=fresh('k'); X=act.fork(); X.assume(bz(ult(k,s.v.post+s.v.n+s.v.s0 if s.kind=='alias' else s.v.n)))
        nd=elems(V,X,s.o); new=bv(V.rd(X,nd,k),8); old=bv(V.rd(X,s.old,k),8)
        inr=And(ule(s.s0,k),ult(sub(64,k,s.s0),s.n))
        V.oblige(X,Implies(inr,(new&1)==((~old)&1)),'every bit value is flipped',loc='(post)')
        V.oblige(X,Implies(Not(inr),new==old),'nothing outside the vector changes',loc='(post)')
class Sum(Op):
    op='sum'; name='BitVector::sum() const'
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        if o is None: return 0
        nd=elems(V,st,o)
        F=Fold('ones',32,0,lambda f,x,q: f+z3.ZeroExt(31,z3.Extract(0,0,bv(nd.read(x,q),8))),s0); V.folds.append(F)
        ax=[]; F.axioms(simp(bv(s0)+n),ax)
        for q in ax: st.assume(q)
        return F.at(simp(bv(s0)+n))
class FromText(Op):
    op='text'; name='BitVector::BitVector(char const*)'
    def setup(s,V,st):
        s.o=V.new(st,'this',24,'heap',Cells()); s.t=CStr(V,st,'text') if s.kind!='empty' else CStr(V,st,'text',text='')
        return [P(s.o,0),s.t.ptr]
    def spec(s,V,st,a):
        n=s.t.len
        if isint(n) and n==0: V.setc(st,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)})); return
        nd=s.t.node
        def node(base): return Lam(8,lambda i,ax: ite(eq(nd.read(sub(64,i,base),ax),ord('1')),1,0,8))
        if not isint(n):
            x=st.fork(); x.assume(n==0); V.setc(x,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)}))
            st.assume(n!=0)
        d=V.new(st,'elements',n,'heaparr',ArrC(1,node(0)))
        V.array_specs.append(ArrSpec(1,node(0),0,n,None))
        V.setc(st,s.o,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,n))}))
        return [(st,None)]+([(x,None)] if not isint(n) else [])
    def inputs(s,V,st,a): return [('op','str','text'),('text','node',s.t.node,0,s.t.len)]
    def small(s,V,st,a): return [ule(s.t.len,5)] if not isint(s.t.len) else []
class Map(Contract):
    """dest[i]=this[map[i]] / dest[map[i]]=this[i]; the map stays within both vectors"""
    def __init__(s,un): s.un=un; s.name='BitVector::%smap(unsigned int const*, unsigned long, BitVector&) const'%('un' if un else '')
    def setup(s,V,st):
        s.v=Vec(V,st,'bits'); s.d=Vec(V,st,'dest'); s.m=fresh('mapsize'); st.assume(z3.ULE(s.m,1<<31))
        lim=s.d.n if s.un else s.v.n
        s.mnode=Base('map',32,[lambda i,v: z3.Implies(z3.ULT(i,s.m),z3.ULT(z3.ZeroExt(32,v),lim))])
        s.mo=V.new(st,'map',simp(4*s.m),'heaparr',ArrC(4,s.mnode))
        return [s.v.ptr,P(s.mo,0),s.m,s.d.ptr]
    def requires(s,V,st,a): return [('the vectors hold the mapped positions',ule(s.m,s.v.n if s.un else s.d.n))]
    def spec(s,V,st,a):
        old=elems(V,st,s.d.data); src=elems(V,st,s.v.data); m=s.m
        if not s.un:
            def fn(i,ax):
                k=sub(64,i,s.d.s0); c=ult(k,m)
                return ite(c,src.read(add(64,s.v.s0,zext(s.mnode.read(k,ax),32,64)),ax),old.read(i,ax),8)
            setnode(V,st,s.d.data,1,Lam(8,fn)); return
        # unmap: element p takes this[k] for the last k with map[k]=p; last(t,p)=1+that k among the first t, or 0
        last=z3.Function('last!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(64),z3.BitVecSort(64))
        def axioms(t,p,ax):
            t=bv(t);p=bv(p)
            ax.append(last(bv(0),p)==0)
            for x in (t,simp(t-1)):
                x=bv(x)
                hit=z3.ZeroExt(32,bv(s.mnode.read(x,ax),32))==p
                ax.append(z3.Implies(z3.ULT(x,m),last(simp(x+1),p)==z3.If(hit,x+1,last(x,p))))
                ax.append(z3.Implies(z3.ULE(x,m),z3.ULE(last(x,p),x)))
        def at(t):
            def fn(i,ax):
                p=simp(bv(i)-bv(s.d.s0)); axioms(t,p,ax); l=last(bv(t),p)
                return z3.If(l==0,bv(old.read(i,ax),8),bv(src.read(simp(bv(s.v.s0)+l-1),ax),8))
            return Lam(8,fn)
        final=at(m)
        setnode(V,st,s.d.data,1,final)
        # progress template: after t entries
        V.array_specs.append(ArrSpec(1,final,0,m,s.d.data.id,None))
        V.array_specs[-1].prog=lambda t: at(t)
    def inputs(s,V,st,a): return [('op','str','unmap' if s.un else 'map'),('n','term',s.v.n),('dn','term',s.d.n),('m','term',s.m),('bits','arr',s.v.data,s.v.s0,s.v.n,1),('dest','arr',s.d.data,s.d.s0,s.d.n,1),('map','node',s.mnode,0,s.m)]
    def small(s,V,st,a): return [ule(s.v.n,6),ule(s.d.n,6),ule(s.m,4)]
KINDS=('alias','owner','empty')
CONTRACTS=[Reverse8()]
TASKS=[lambda:Reverse8('alias'),lambda:Reverse8('owner')]+[(lambda c=c,k=k:c(k)) for c in(Lsb,Invert,Sum) for k in KINDS]+[lambda:FromText('alias'),lambda:FromText('empty'),lambda:Map(False),lambda:Map(True)]
ASSUME=['vectors hold fewer than 2^32 elements','source, destination and map do not overlap in memory','map entries lie within the mapped vector']
