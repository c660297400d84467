from props.bvlib import *
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='V07.cpp'
CT={1:'char',4:'float'}
NIL=lambda: Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL)})
def fields(V,st,v): c=V.content(st,v.obj).d; return [c[k][1] for k in(0,8,16)]
class O(Contract):
    """target/source kinds: owner, alias, empty (also 'own': the source is an alias into the target's block, 'self': target and source are one vector)"""
    def __init__(s,name,es,op,t=None,k=None,**x):
        s.name=name;s.es=es;s.op=op;s.t=t;s.k=k; s.__dict__.update(x)
        s.title='%s [%s]'%(name,', '.join(y for y in('target '+t if t else '','source '+k if k else '') if y))
    def vec(s,V,st,nm,k,**kw):
        v=Vec(V,st,nm,k,es=s.es,node=Base(nm,8*s.es),maxn=1<<32,**kw)
        if k=='owner': st.assume(v.n!=0)      # class invariant: a vector without elements owns no block
        return v
    def setup(s,V,st):
        if s.t: s.v=s.vec(V,st,'target',s.t); tp=s.v.ptr; s.to=s.v.obj
        else: s.v=None; s.to=V.new(st,'target',24,'heap',Cells()); tp=P(s.to,0)
        args=[tp]
        if s.k=='self': s.w=s.v; args.append(tp)
        elif s.k=='own':
            off=fresh('off'); m=fresh('span'); st.assume(z3.And(z3.ULE(off,s.v.n),z3.ULE(m,s.v.n-off)))
            s.w=s.vec(V,st,'source','alias',data=s.v.data,start=off,n=m); args.append(s.w.ptr)
        elif s.k: s.w=s.vec(V,st,'source',s.k); args.append(s.w.ptr)
        else: s.w=None
        if s.op in('resize','len'):
            s.len=fresh('elements'); st.assume(z3.ULE(s.len,MAXN)); args.append(s.len)
        if s.op=='raw':
            # explicit data/start/end: the vector takes what it is given
            s.blk=V.new(st,'block',64,'heaparr',Cells()); args+= [P(s.blk,0),P(s.blk,8),P(s.blk,40)]
        if s.op=='wrap':
            n=s.len=fresh('span'); st.assume(z3.ULE(n,1<<32)); s.blk=V.new(st,'block',mul(64,n,s.es),'heaparr',ArrC(s.es,Base('blk',8*s.es))); args+=[P(s.blk,0),n]
        return args
    def spec(s,V,st,a):
        r=s.spec_(V,st,a)
        if s.name.startswith('BitVector::operator='):
            me=P(s.to,0); return [(x,me) for x,_ in r] if isinstance(r,list) else me
        return r
    def spec_(s,V,st,a):
        o=s.to; es=s.es; op=s.op
        if op=='isOwner': return (s.v.kind=='owner')
        def drop(x):
            if s.v is not None and s.v.kind=='owner': V.kill(x,s.v.data)
        def copy_of(x,w,nd,start,n,cut=True):
            """target becomes the owner of a fresh block holding n elements"""
            if isint(n) and n==0: V.setc(x,o,NIL()); return [(x,None)]
            z=x.fork(); z.assume(bz(eq(n,0))); V.setc(z,o,NIL()); x.assume(bz(Not(eq(n,0))))
            d=V.new(x,'elements',mul(64,n,es),'heaparr',ArrC(es,Lam(8*es,lambda i,ax: nd.read(add(64,start,i),ax))) if nd is not None else ANY)
            if nd is None: x.mem[d.id]=(True,ANY,d)
            V.setc(x,o,Cells({0:(8,P(d,0)),8:(8,P(d,0)),16:(8,P(d,mul(64,n,es)))}))
            return [(x,None),(z,None)]
        if op in('clear','dtor'):
            drop(st); V.setc(st,o,NIL() if op=='clear' else ANY); return
        if op=='resize': drop(st); return copy_of(st,None,None,0,s.len)
        if op=='len': return copy_of(st,None,None,0,s.len)
        if op=='default': V.setc(st,o,NIL()); return
        if op=='raw': V.setc(st,o,Cells({0:(8,P(s.blk,0)),8:(8,P(s.blk,8)),16:(8,P(s.blk,40))})); return
        if op=='wrap': V.setc(st,o,Cells({0:(8,NULL),8:(8,P(s.blk,0)),16:(8,P(s.blk,mul(64,s.len,es)))})); return
        w=s.w; d0,b,e=fields(V,st,w)
        if op=='shift':
            if s.k=='self': return
            drop(st); V.setc(st,o,Cells({0:(8,d0),8:(8,b),16:(8,e)})); c=V.content(st,w.obj).copy(); c.d[0]=(8,NULL); V.setc(st,w.obj,c); return
        how=op
        if op in('copy','assign'): how='clone' if w.kind=='owner' else 'alias'
        if how=='clone':
            nd=elems(V,st,w.data,es) if w.data is not None else None
            if w.data is None: drop(st); V.setc(st,o,NIL()); return
            drop(st)
            if s.k=='self' or s.k=='own':
                # the block read from is the one released: contents as they were
                pass
            return copy_of(st,w,nd,w.s0,w.n)
        if how=='alias':
            if s.k=='self': return
            drop(st); V.setc(st,o,Cells({0:(8,NULL),8:(8,b),16:(8,e)})); return
        raise Unsupported(op)
    def inputs(s,V,st,a):
        r=[('op','str',s.op),('float','int',int(s.es==4)),('name','str',s.name.replace(' ','')),('t','str',s.t or '-'),('k','str',s.k or '-')]
        if s.v is not None: r.append(('n1','term',s.v.n))
        if s.w is not None: r+= [('n2','term',s.w.n),('off','term',s.w.s0 if s.k=='own' else 0)]
        if hasattr(s,'len'): r.append(('len','term',s.len))
        return r
    def small(s,V,st,a): return [ule(v.n,3) for v in(s.v,s.w) if v is not None and not isint(v.n)]
CONTRACTS=[]
TASKS=[]
KIN=('owner','alias','empty')
def t_(name,es,op,ts=(None,),ks=(None,),**x):
    for t in ts:
        for k in ks: TASKS.append(lambda t=t,k=k: O(name,es,op,t,k,**x))
for es in(1,4):
    c=CT[es]; b='VectorBase<%s>::'%c; r='(VectorBase<%s> const&)'%c; v='Vector<%s>'%c
    t_(b+'clone'+r,es,'clone',KIN,KIN+('self',)); t_(b+'clone'+r,es,'clone',('owner',),('own',))
    t_(b+'operator='+r,es,'assign',KIN,KIN+('self',))
    t_(b+'makeAlias'+r,es,'alias',KIN,('alias','empty','owner'))
    t_(b+'shiftMem(VectorBase<%s>&)'%c,es,'shift',KIN,KIN+('self',))
    t_(b+'resize(unsigned long)',es,'resize',KIN); t_(b+'clear()',es,'clear',KIN); t_(b+'vInit(unsigned long)',es,'len'); t_(b+'~VectorBase()',es,'dtor',KIN)
    t_(b+'isOwner()',es,'isOwner',KIN); t_(b+'VectorBase()',es,'default'); t_(b+'VectorBase(%s*, %s*, %s*)'%(c,c,c),es,'raw')
    t_(v+'::Vector(unsigned long)',es,'len'); t_(v+'::Vector(%s&)'%v,es,'shift',(None,),KIN); t_(v+'::Vector(%s const&)'%v,es,'clone',(None,),KIN)
    t_(v+'::Vector(%s*, %s*, %s*)'%(c,c,c),es,'raw'); t_(v+'::Vector(%s*, unsigned long)'%c,es,'wrap')
    t_(v+'::operator=(%s&)'%v,es,'shift',KIN,KIN+('self',)); t_(v+'::operator=(%s const&)'%v,es,'clone',KIN,KIN+('self',))
B='BitVector::'
t_(B+'BitVector(BitVector const&)',1,'copy',(None,),KIN); t_(B+'BitVector(unsigned long)',1,'len'); t_(B+'BitVector()',1,'default'); t_(B+'BitVector(char*, char*, char*)',1,'raw'); t_(B+'operator=(BitVector const&)',1,'assign',KIN,KIN+('self',)); t_(B+'dup(BitVector&)',1,'alias',KIN,KIN); t_(B+'~BitVector()',1,'dtor',KIN)
t_('SoftVector::SoftVector(unsigned long)',4,'len'); t_('SoftVector::SoftVector(Vector<float>)',4,'shift',(None,),KIN); t_('SoftVector::SoftVector(float*, float*, float*)',4,'raw'); t_('SoftVector::~SoftVector()',4,'dtor',KIN)
t_(B+'dup(BitVector)',1,'alias',('alias','empty'),('alias','empty'))
ASSUME=['vectors hold fewer than 2^32 elements','a vector is not made an alias of (a part of) its own block','explicitly given data/start/end pointers belong together']
