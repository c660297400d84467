from props.bvlib import *
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='V08.cpp'
F32=z3.Float32()
CT={1:'char',4:'float'}
BIG=1<<59           # requests whose byte offsets do not wrap the address space
def setvec(V,st,o,obj,start,n,es):
    """vector object o becomes an alias of n elements of obj from start"""
    V.setc(st,o,Cells({0:(8,NULL),8:(8,P(obj,mul(64,start,es))),16:(8,P(obj,mul(64,add(64,start,n),es)))}))
class R(Contract):
    """base: mode 'fits' (the request lies inside the vector) or 'misfit' (it does not; nothing wraps)"""
    def __init__(s,name,es,kind,mode='fits',**k):
        s.name=name;s.es=es;s.kind=kind;s.mode=mode; s.__dict__.update(k)
        s.title='%s [%s%s, %s]'%(name,kind,''.join(', %s'%v for v in k.values() if isinstance(v,str)),mode)
        s.asserts='forbidden' if mode=='fits' else 'allowed'
    def vec(s,V,st,n,k): return Vec(V,st,n,k,es=s.es,node=Base(n,8*s.es),maxn=1<<32)
    def inside(s,st,start,span,n):
        c=And(ule(start,n),ule(span,sub(64,n,start)))
        if s.mode=='fits': st.assume(bz(c))
        else: st.assume(bz(Not(c)))
    def inputs(s,V,st,a):
        r=[('op','str',s.name.replace(' ','')),('float','int',int(s.es==4)),('fits','int',int(s.mode=='fits')),('kind','str',s.kind)]
        for k in('start','span'):
            if hasattr(s,k): r.append((k,'term',getattr(s,k)))
        for k,v in(('n1',getattr(s,'a',None)),('n2',getattr(s,'b',None))):
            if v is not None: r.append((k,'term',v.n))
        return r
    def small(s,V,st,a): return [ule(v.n,4) for v in(getattr(s,'a',None),getattr(s,'b',None)) if v is not None and not isint(v.n)]
class View(R):
    """segment/head/tail/alias and the copying forms; how: segment|head|tail|alias|clone"""
    def setup(s,V,st):
        s.a=s.vec(V,st,'this',s.kind); s.res=V.new(st,'result',24,'heap',Cells()); n=s.a.n
        args=[P(s.res,0),s.a.ptr]
        if s.how in('segment','clone'): s.start=fresh('start');s.span=fresh('span'); args+=[s.start,s.span]
        elif s.how=='head': s.start=0;s.span=fresh('span'); args+=[s.span]
        elif s.how=='tail': s.start=fresh('start'); s.span=sub(64,n,s.start); args+=[s.start]
        else: s.start=0;s.span=n
        if s.mode!='fits' and s.how!='tail': st.assume(bz(ule(s.start,BIG))); st.assume(bz(ule(s.span,BIG)))
        if s.how=='tail': st.assume(bz(ule(s.start,n) if s.mode=='fits' else Not(ule(s.start,n))))
        else: s.inside(st,s.start,s.span,n)
        return args
    def spec(s,V,st,a):
        if s.mode!='fits': return [(st,ABORT)]
        if s.how!='clone':
            if s.a.data is None: V.setc(st,s.res,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)})); return
            setvec(V,st,s.res,s.a.data,add(64,s.a.s0,s.start),s.span,s.es); return
        nul=lambda x: V.setc(x,s.res,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)}))
        if s.a.data is None: nul(st); return
        z=st.fork(); z.assume(bz(eq(s.span,0))); nul(z); st.assume(bz(Not(eq(s.span,0))))
        nd=elems(V,st,s.a.data,s.es); b=add(64,s.a.s0,s.start)
        d=V.new(st,'elements',mul(64,s.span,s.es),'heaparr',ArrC(s.es,Lam(8*s.es,lambda i,ax: nd.read(add(64,b,i),ax))))
        V.setc(st,s.res,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,mul(64,s.span,s.es)))}))
        return [(st,None),(z,None)]
class Copy(R):
    """how: to3 copyToSegment(other,start,span), to1 copyToSegment(other,start), all copyTo(other), from segmentCopyTo(other,start,span)
    same: both vectors view disjoint parts of one block"""
    same=''
    def setup(s,V,st):
        s.a=s.vec(V,st,'this',s.kind); es=s.es
        if s.same:
            # other is a view of the same block, after this one
            m=fresh('other_n'); g=fresh('gap'); st.assume(z3.ULE(m,1<<31)); st.assume(z3.ULE(g,1<<20))
            s.b=Vec(V,st,'other','alias',es=es,data=s.a.data,start=simp(s.a.s0+s.a.n+g),n=m)
            st.assume(z3.ULE(simp(s.a.n+g+m),s.a.n+s.a.post))
        else: s.b=s.vec(V,st,'other',s.k2)
        args=[s.a.ptr,s.b.ptr]; n1,n2=s.a.n,s.b.n
        if s.how in('to3','from'): s.start=fresh('start');s.span=fresh('span'); args+=[s.start,s.span]
        elif s.how=='to1': s.start=fresh('start');s.span=n1; args+=[s.start]
        else: s.start=0; s.span=n1
        if s.mode!='fits':
            st.assume(bz(ule(s.start,BIG))); st.assume(bz(ule(s.span,BIG)))
        if s.how=='from': c=And(ule(s.start,n1),ule(s.span,sub(64,n1,s.start)),ule(s.span,n2))
        else: c=And(ule(s.start,n2),ule(s.span,sub(64,n2,s.start)),ule(s.span,n1))
        st.assume(bz(c if s.mode=='fits' else Not(c)))
        if s.same: V.setc(st,s.a.data,ArrC(es,Base('block',8*es)))
        return args
    def spec(s,V,st,a):
        if s.mode!='fits': return [(st,ABORT)]
        if s.a.data is None or s.b.data is None: return
        es=s.es; sn=elems(V,st,s.a.data,es); dn=elems(V,st,s.b.data,es)
        so=s.a.s0 if s.how!='from' else add(64,s.a.s0,s.start); do=s.b.s0 if s.how=='from' else add(64,s.b.s0,s.start)
        w=8*es; span=s.span
        def fn(i,ax):
            k=sub(64,i,do); c=ult(k,span)
            return ite(c,sn.read(add(64,so,k),ax),dn.read(i,ax),8*es)
        setnode(V,st,s.b.data,es,Lam(w,fn))
class Fill(R):
    """how: all fill(v), part fill(v,start,length), zero, unknown"""
    def setup(s,V,st):
        s.a=s.vec(V,st,'this',s.kind); args=[s.a.ptr]
        s.val=fresh('v',8*s.es)
        if s.how in('all','part'):
            s.cell=V.new(st,'value',s.es,'heap',Cells({0:(s.es,s.val)})); args.append(P(s.cell,0))
        else: s.val=0 if s.how=='zero' else 0x3f000000
        s.start=0;s.span=s.a.n
        if s.how=='part':
            x,y=fresh('start',32),fresh('length',32); s.start=zext(x,32,64); s.span=zext(y,32,64); args+=[x,y]
            s.inside(st,s.start,s.span,s.a.n)
        return args
    def spec(s,V,st,a):
        if s.mode!='fits': return [(st,ABORT)]
        if s.a.data is None: return
        es=s.es; dn=elems(V,st,s.a.data,es); b=add(64,s.a.s0,s.start); span=s.span;v=s.val
        setnode(V,st,s.a.data,es,Lam(8*es,lambda i,ax: ite(ult(sub(64,i,b),span),v,dn.read(i,ax),8*es)))
class Elem(R):
    """how: ref operator[], bit, softbit, set"""
    def setup(s,V,st):
        s.a=s.vec(V,st,'this',s.kind); s.start=fresh('index'); s.span=1
        args=[s.a.ptr,s.start]
        st.assume(bz(ult(s.start,s.a.n) if s.mode=='fits' else And(Not(ult(s.start,s.a.n)),ule(s.start,BIG))))
        if s.how=='set':
            if s.es==1: s.val=fresh('v',32); s.v8=trunc(s.val,8)
            else: s.v8=fresh('v',32); s.val=z3.fpBVToFP(s.v8,F32)
            args.append(s.val)
        return args
    def spec(s,V,st,a):
        if s.mode!='fits': return [(st,ABORT)]
        es=s.es; i=add(64,s.a.s0,s.start); nd=elems(V,st,s.a.data,es)
        if s.how=='ref': return P(s.a.data,mul(64,i,es))
        if s.how=='set': setnode(V,st,s.a.data,es,Store(nd,i,s.v8)); return
        x=V.rd(st,nd,i)
        if es==4: x=z3.fpBVToFP(x,F32)
        if s.how=='softbit': return x
        return sbool(z3.Extract(0,0,bv(x,8))==1) if es==1 else sbool(z3.fpGT(x,z3.FPVal(0.5,F32)))
CONTRACTS=[]
T=[];KIN=('alias','owner','empty')
def add_(cls,name,es,kinds,modes=('fits','misfit'),**k):
    for kind in kinds:
        for m in modes: T.append(lambda cls=cls,name=name,es=es,kind=kind,m=m,k=k: cls(name,es,kind,m,**k))
B='BitVector';S='SoftVector'
U2='(unsigned long, unsigned long)';U1='(unsigned long)'
for c,es,cs in((B,1,('',)),('Vector<char>',1,('',' const')),('Vector<float>',4,('',' const')),(S,4,('',' const'))):
    for q in cs:
        add_(View,c+'::segment'+U2+q,es,KIN,how='segment'); add_(View,c+'::head'+U1+q,es,KIN,how='head'); add_(View,c+'::tail'+U1+q,es,KIN,how='tail')
add_(View,'BitVector::alias() const',1,KIN,('fits',),how='alias'); add_(View,'SoftVector::alias()',4,KIN,('fits',),how='alias')
add_(View,'BitVector::cloneSegment'+U2+' const',1,KIN,how='clone')
for es in(1,4):
    b='VectorBase<%s>::'%CT[es]; o='(VectorBase<%s>&'%CT[es]
    for how,nm in(('to3','copyToSegment'+o+', unsigned long, unsigned long) const'),('to1','copyToSegment'+o+', unsigned long) const'),('all','copyTo'+o+') const'),('from','segmentCopyTo'+o+', unsigned long, unsigned long) const')):
        for k1,k2 in(('alias','alias'),('owner','alias'),('alias','owner'),('owner','owner'),('empty','alias'),('alias','empty'),('empty','empty')):
            add_(Copy,b+nm,es,(k1,),('fits',) if (how=='all' and k1=='empty') else ('fits','misfit'),how=how,k2=k2)
        add_(Copy,b+nm,es,('alias',),how=how,k2='',same='same block')
    add_(Fill,b+'fill(%s const&)'%CT[es],es,KIN,('fits',),how='all'); add_(Fill,b+'fill(%s const&, unsigned int, unsigned int)'%CT[es],es,KIN,how='part')
    for q in('',' const'): add_(Elem,b+'operator[]'+U1+q,es,('alias','owner'),how='ref'); add_(Elem,b+'operator[]'+U1+q,es,('empty',),('misfit',),how='ref')
add_(Fill,'BitVector::zero()',1,KIN,('fits',),how='zero'); add_(Fill,'SoftVector::unknown()',4,KIN,('fits',),how='unknown')
for nm,es,how in(('BitVector::operator[](unsigned long)',1,'ref'),('BitVector::operator[](unsigned long) const',1,'ref'),('BitVector::bit(unsigned long) const',1,'bit'),('BitVector::settfb(unsigned long, int)',1,'set'),('SoftVector::bit(unsigned long) const',4,'bit'),('SoftVector::softbit(unsigned long) const',4,'softbit'),('SoftVector::settfb(unsigned long, float)',4,'set')):
    add_(Elem,nm,es,('alias','owner'),how=how); add_(Elem,nm,es,('empty',),('misfit',),how=how)
TASKS=T
ASSUME=['vectors hold fewer than 2^32 elements','requests that do not fit have offsets and spans below 2^59 elements (nothing wraps the address space); tail() has no such limit','source and destination of a copy do not overlap']
