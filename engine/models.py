"""Trusted contracts on the C/C++ runtime and libraries (keyed by demangled name)."""
from .exec import *
MODELS={}; RX=[]
def model(*names):
    def d(f):
        for n in names: MODELS[norm(n)]=f
        return f
    return d
def rmodel(rx):
    def d(f): RX.append((re.compile(rx),f)); return f
    return d

@model('__assert_fail')
def m_assert(c,st,a,i):
    if c.opts['assert_abort'] or (c.target is not None and c.target.asserts=='allowed'): raise Abort('assertion')
    c.oblige(st,False,'assertion in the source holds')
    raise DeadPath()
@model('abort','exit','_exit','std::terminate()','__clang_call_terminate')
def m_abort(c,st,a,i): raise Abort(i['name'])
@model('operator new(unsigned long)','malloc')
def m_new(c,st,a,i):
    k='heap' if i['name']!='malloc' else 'malloc'
    o=c.new(st,'new',a[0],k); return P(o,0)
@model('operator new[](unsigned long)')
def m_newa(c,st,a,i):
    n=a[0]
    if not isint(n):
        if not c.must(st,ule(n,1<<40)): st.assume(ule(n,1<<40))   # allocation succeeds (trusted)
    elif n>1<<40: raise DeadPath()
    o=c.new(st,'new[]',n,'heaparr',None if not isint(n) or n>256 else Cells()); return P(o,0)
def release(c,st,p,kind,what):
    if p.obj is None:
        z=eq(p.off,0)
        c.oblige(st,z,'%s of an address that was not allocated'%what); return
    o=p.obj
    if o.kind!=kind: c.oblige(st,False,'%s matches the allocation of %s'%(what,o.name.split('#')[0]))
    c.oblige(st,eq(p.off,0) if not isint(p.off) else p.off==0,'%s at the start of the block'%what)
    if not c.live(st,o): c.oblige(st,False,'%s of a block not yet released'%what)
    c.kill(st,o)
@model('operator delete[](void*)','operator delete[](void*, unsigned long)')
def m_dela(c,st,a,i): release(c,st,a[0],'heaparr','delete[]')
@model('operator delete(void*)','operator delete(void*, unsigned long)')
def m_del(c,st,a,i): release(c,st,a[0],'heap','delete')
@model('free')
def m_free(c,st,a,i): release(c,st,a[0],'malloc','free')
def no_overlap(c,st,a):
    d,s,n=a[:3]
    if d.obj is None or d.obj is not s.obj or same(d.off,s.off) or d.obj.kind=='strdata': return
    g=sub(64,d.off,s.off); h=sub(64,s.off,d.off)
    c.oblige(st,Or(eq(n,0),eq(d.off,s.off),And(ule(s.off,d.off),ule(n,g)),And(ule(d.off,s.off),ule(n,h))),'memcpy does not overlap')
@rmodel(r'llvm\.memcpy')
def m_memcpy0(c,st,a,i): no_overlap(c,st,a); c.memcpy(st,a[0],a[1],a[2])
@rmodel(r'llvm\.memmove')
def m_memcpy(c,st,a,i): c.memcpy(st,a[0],a[1],a[2])
@model('memcpy')
def m_memcpy3(c,st,a,i): no_overlap(c,st,a); c.memcpy(st,a[0],a[1],a[2]); return a[0]
@model('memmove')
def m_memcpy2(c,st,a,i): c.memcpy(st,a[0],a[1],a[2]); return a[0]
@rmodel(r'llvm\.memset')
def m_memset(c,st,a,i): c.memset(st,a[0],a[1],a[2])
@model('memset')
def m_memset2(c,st,a,i): c.memset(st,a[0],trunc(a[1],8),a[2]); return a[0]
@rmodel(r'llvm\.umul\.with\.overflow\.i64')
def m_umulo(c,st,a,i):
    x,y=a
    if isint(x) and isint(y): return ((x*y)&M64,x*y>M64)
    return (mul(64,x,y),sbool(z3.Not(z3.BVMulNoOverflow(bv(x),bv(y),False))))
@rmodel(r'llvm\.(assume|experimental|prefetch)')
def m_nop(c,st,a,i): return None
@rmodel(r'llvm\.expect')
def m_expect(c,st,a,i): return a[0]
@rmodel(r'llvm\.eh\.typeid\.for')
def m_typeid(c,st,a,i): return c.tid(a[0].obj.name.rsplit('#',1)[0])
@model('__cxa_allocate_exception')
def m_exalloc(c,st,a,i): return P(c.new(st,'exception',a[0],'exception',Cells()),0)
@model('__cxa_free_exception')
def m_exfree(c,st,a,i): c.kill(st,a[0].obj) if a[0].obj is not None else None
@model('__cxa_throw')
def m_throw(c,st,a,i):
    st.ghost['~exdtor']={**(st.ghost.get('~exdtor') or {}),a[0].obj.id:a[2]}
    return Throw(a[0],a[1].obj.name.rsplit('#',1)[0])
@model('__cxa_begin_catch')
def m_begincatch(c,st,a,i): st.ghost['~caught']=(st.ghost.get('~caught') or ())+((a[0],st.exc[1] if st.exc else None),); return a[0]
@model('__cxa_get_exception_ptr')
def m_exptr(c,st,a,i): return a[0]
@model('__cxa_rethrow')
def m_rethrow(c,st,a,i):
    g=st.ghost.get('~caught') or ()
    if not g: raise Abort('rethrow without an exception')
    p,ti=g[-1]; st.ghost['~kept']=(st.ghost.get('~kept') or ())+((p.obj.id if p.obj else None),); return Throw(p,ti)
@model('__cxa_end_catch')
def m_endcatch(c,st,a,i):
    g=st.ghost.get('~caught') or ()
    if not g: raise Unsupported('end of a handler')
    p,_=g[-1]; st.ghost['~caught']=g[:-1]; k=st.ghost.get('~kept') or ()
    if p.obj is None or p.obj.kind!='exception' or p.obj.id in k: st.ghost['~kept']=tuple(x for x in k if p.obj is None or x!=p.obj.id); return None
    d=(st.ghost.get('~exdtor') or {}).get(p.obj.id)
    if d is None or d.obj is None or d.obj.kind!='fn': c.kill(st,p.obj); return None
    m=c.find_model(d.obj.fn)
    if m is not None:
        r=m(c,st,[p],dict(name=d.obj.fn,dem=norm(c.prog.dem.get(d.obj.fn,d.obj.fn)),ins=i['ins']))
        if r is INLINE or isinstance(r,(Forks,Throw)): raise Unsupported('destructor of an exception')
        return None
    f=c.prog.find(d.obj.fn,st.frames[-1].f.mod)
    if f is None: raise Unsupported('destructor of an exception')
    return c.push_call(st,f,[p])
def cstr_axiom_len(): pass
MODELS['*regex']=RX
# exact library arithmetic
def fpround(rm): 
    def f(c,st,a,i): c.fp=True; return z3.simplify(z3.fpRoundToIntegral(rm,a[0]))
    return f
for _n,_rm in(('round',z3.RNA()),('floor',z3.RTN()),('ceil',z3.RTP()),('trunc',z3.RTZ()),('rint',z3.RNE()),('nearbyint',z3.RNE())):
    MODELS[_n]=MODELS[_n+'f']=fpround(_rm); RX.append((re.compile(r'llvm\.%s\.f'%_n),fpround(_rm)))
def fptoint(rm,w):
    def f(c,st,a,i): c.fp=True; return simp(z3.fpToSBV(rm,a[0],z3.BitVecSort(w)))
    return f
for _n in('lround','llround','lroundf','llroundf'): MODELS[_n]=fptoint(z3.RNA(),64)
for _n in('lrint','llrint','lrintf','llrintf'): MODELS[_n]=fptoint(z3.RNE(),64)
def m_fabs(c,st,a,i): c.fp=True; return z3.simplify(z3.fpAbs(a[0]))
MODELS['fabs']=MODELS['fabsf']=m_fabs; RX.append((re.compile(r'llvm\.fabs\.f'),m_fabs))
def m_minmax(pick):
    def f(c,st,a,i): return ite(pick(a[0],a[1]),a[0],a[1],a[0].size() if not isint(a[0]) else a[1].size())
    return f
for _n,_p in(('smin',slt),('smax',lambda x,y:slt(y,x)),('umin',ult),('umax',lambda x,y:ult(y,x))): RX.append((re.compile(r'llvm\.%s\.i'%_n),m_minmax(_p)))
RX.append((re.compile(r'llvm\.abs\.i'),lambda c,st,a,i: ite(slt(a[0],0),sub(a[0].size(),0,a[0]),a[0],a[0].size())))
