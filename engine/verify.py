"""Contracts: setup (symbolic pre-state), requires, spec (functional post-state); verification and application."""
from .loops import *
import tempfile, shutil, hashlib

class Contract:
    name=None          # demangled name
    no_apply=False     # True: never used at call sites (the callee is inlined there)
    asserts='forbidden'   # or 'allowed'
    opts={}
    def __init__(s,**k): s.__dict__.update(k)
    def requires(s,V,st,args): return []
    def apply(s,V,st,args):
        for n,c in s.requires(V,st,args): V.oblige(st,c,'precondition of %s: %s'%(s.name,n))
        r=s.spec(V,st,args)
        if isinstance(r,list): 
            return Forks([(x,v) for x,v in r])
        return r
    def inputs(s,V,st,args): return []
    def small(s,V,st,args): return []
    def extra(s,V,pre,act,out,args): pass     # further obligations on an outcome
    def label(s): return getattr(s,'title',None) or s.name

class AbortCase: pass
ABORT=AbortCase()

class V(LoopExec):
    """verification session with helpers used by contracts"""
    def mkobj(s,st,name,size,kind='heap',content='auto'): return s.new(st,name,size,kind,content)
    def get(s,st,o,off,n=8):
        """field of an object (value as stored)"""
        e=s.cellval(st,o,off,n)
        if e is None: raise Unsupported('field not initialised: %s+%d'%(o.name,off))
        return e[1]
    def put(s,st,o,off,v,n=8): s.store_raw(st,P(o,off),n,v)
    def arr(s,st,o,es=1):
        c=s.content(st,o)
        if isinstance(c,ArrC) and c.es==es: return c.node
        a=s.to_arr(st,o,es); return a.node

def compare(ctx,pre,act,spec,args_new=()):
    """obligations: actual post-state equals the contract's post-state (frame included)"""
    pairs=[]; done={}
    def pair(a,b,what):
        """objects created by the function vs created by the contract"""
        if a is b: return True
        ka=done.get(a.id)
        if ka is not None: return ka is b
        if a.id in pre.mem or b.id in pre.mem: return False
        done[a.id]=b; pairs.append((a,b,what)); return True
    def cmpval(x,y,what):
        if y is ANY or x is ANY: return
        if isinstance(y,tuple) and y and isinstance(y[0],str) and y[0]=='pred':
            ctx.oblige(act,y[1](x),what); return
        if isinstance(y,P) or isinstance(x,P):
            if not isinstance(x,P): x=ctx.itop(act,x)
            if not isinstance(y,P): y=ctx.itop(act,y)
            if x.obj is not None and y.obj is not None:
                ok=pair(x.obj,y.obj,what)
                if ok: ctx.oblige(act,eq(x.off,y.off),what); return
                ctx.oblige(act,ctx.pcmp(act,'eq',x,y),what); return
            ctx.oblige(act,ctx.pcmp(act,'eq',x,y),what); return
        if isinstance(y,StrV) or isinstance(x,StrV):
            if not(isinstance(x,StrV) and isinstance(y,StrV)):
                ctx.oblige(act,False,what+' (string)'); return
            if x.same(y): ctx.oblige(act,True,what); return
            ctx.oblige(act,eq(x.len,y.len),what+' length')
            if isint(x.len) and x.len==0: return
            idx=[];nd=x.node
            while isinstance(nd,Store):
                if not any(same(nd.i,j) for j in idx): idx.append(nd.i)
                nd=nd.prev
            k=fresh('k')
            for i,src in [(i,x.node) for i in idx]+[(k,nd)]:
                X=act.fork(); c=ult(i,x.len)
                if c is False: continue
                if c is not True: X.assume(c)
                if i is k:
                    for j in idx: X.assume(Not(eq(k,j)))
                a=ctx.rd(X,src,i); b=ctx.rd(X,y.node,i)
                ctx.oblige(X,eq(bv(a,8),bv(b,8)),what+' characters')
            return
        if isinstance(x,tuple) and isinstance(y,tuple):
            for i,(p,q) in enumerate(zip(x,y)): cmpval(p,q,what+'.%d'%i)
            return
        if x is None and y is None: return
        if isinstance(x,bool) or isinstance(y,bool) or z3.is_bool(x):
            ctx.oblige(act,sbool(bz(x)==bz(y)),what); return
        if not isint(x) and z3.is_fp(x) or not isint(y) and z3.is_fp(y):
            if not isint(x) and z3.is_bv(x): x=z3.fpBVToFP(x,y.sort())
            ctx.oblige(act,sbool(x==y),what); return
        w=x.size() if not isint(x) else (y.size() if not isint(y) else None)
        if isint(x) and isint(y): ctx.oblige(act,x==y,what); return
        if not isint(x) and not isint(y) and x.size()!=y.size(): raise Unsupported('width mismatch in '+what)
        ctx.oblige(act,eq(x,y),what)
    ctx._cmpval=cmpval
    return cmpval,pairs,done

def compare_content(ctx,pre,act,spec,oa,ob,what,cmpval):
    ca=act.mem[oa.id][1] if oa.id in act.mem else ctx.globinit[oa.id]
    cb=spec.mem[ob.id][1] if ob.id in spec.mem else ctx.globinit[ob.id]
    if ca is cb: 
        return
    if cb is ANY: return
    if isinstance(ca,Cells) and isinstance(cb,Cells):
        for off in sorted(set(ca.d)|set(cb.d)):
            ea=ca.d.get(off); eb=cb.d.get(off)
            if eb is not None and eb[1] is ANY: continue
            if any(isinstance(v,Any_) and k<=off<k+m for k,(m,v) in cb.d.items()): continue
            if eb is None:
                if cb.init=='undef': continue
                eb=ctx.cellval(spec,ob,off,ea[0])
                if eb is None: continue
            if ea is None:
                if ca.init=='undef':
                    if oa.kind=='strdata': continue
                    ctx.oblige(act,False,'%s+%d is initialised'%(what,off)); continue
                ea=ctx.cellval(act,oa,off,eb[0])
            if ea[0]!=eb[0]:
                va=ctx.load_raw(act,P(oa,off),eb[0],I(8*eb[0])); ea=(eb[0],va)
            if same(ea[1],eb[1]): continue
            va,vb=ea[1],eb[1]
            if isinstance(vb,P) and not isinstance(va,P) and isint(va): va=P(None,va)
            cmpval(va,vb,'%s+%d'%(what,off))
        return
    if cb is None: return
    es=cb.es if isinstance(cb,ArrC) else ca.es
    flt=(isinstance(cb,ArrC) and cb.node.w=='f32') or (isinstance(ca,ArrC) and ca.node.w=='f32')
    k=fresh('k')
    X=act.fork(); 
    sz=oa.size
    cnt=sz//es if isint(sz) else simp(z3.LShR(bv(sz),es.bit_length()-1))
    c=ult(k,cnt)
    if c is False: return
    X.assume(c)
    na=ctx.to_arr(X,oa,es,flt).node if not(isinstance(ca,ArrC) and ca.es==es) else ca.node
    Sp=spec.fork(); nb=ctx.to_arr(Sp,ob,es,flt).node if not(isinstance(cb,ArrC) and cb.es==es) else cb.node
    def cmp(X,i,tag=''):
        a=ctx.rd(X,na,i); b=ctx.rd(X,nb,i)
        if (not isint(a) and z3.is_fp(a)) or (not isint(b) and z3.is_fp(b)): ctx.oblige(X,sbool(a==b),'contents of '+what+tag,loc='(post)')
        else: ctx.oblige(X,eq(bv(a,8*es),bv(b,8*es)) ,'contents of '+what+tag,loc='(post)')
    idx=[]
    roots=[]
    for nd in (na,nb):
        while isinstance(nd,Store): idx.append(nd.i); nd=nd.prev
        roots.append(nd)
    uniq=[]
    for i in idx:
        if not any(same(i,j) for j in uniq): uniq.append(i)
    if uniq and len(uniq)<=200:
        # finitely many written elements: each on its own, then everything else
        for i in uniq:
            Y=act.fork(); Y.assume(ult(i,cnt)) if ult(i,cnt) is not True else None
            cmp(Y,i)
        if roots[0] is roots[1]: ctx.oblige(X,True,'rest of '+what,loc='(post)'); return
        for i in uniq: X.assume(Not(eq(k,i)))
        na,nb=roots
        cmp(X,k,' (rest)')
        return
    cmp(X,k)

def check_post(ctx,pre,out,specs,args,con):
    """out: Outcome; specs: list of (spec_state, ret, extra pc)"""
    n=0
    for (sp,ret) in specs:
        act=out.st.fork()
        ext=sp.pc[len(pre.pc):]
        for c in ext: act.assume(c)
        if len(specs)>1 and ctx.check(act)=='unsat': continue
        n+=1
        bad=None
        if ret is ABORT:
            if out.kind=='abort': continue
            bad='request is refused'
        elif out.kind=='abort':
            if con.asserts=='allowed': continue
            bad='no abort: %s'%out.val
        elif isinstance(ret,Throw):
            if out.kind!='throw' or not ctx.catches(ret.ti,out.val[1]): bad='exception is thrown'
        elif out.kind=='throw' and not getattr(con,'anyexit',False): bad='no exception escapes (%s)'%(out.val,)
        if bad:
            try: ctx.oblige(act,False,bad,loc='(post)')
            except DeadPath: pass
            continue
        try:
            cmpval,pairs,done=compare(ctx,pre,act,sp)
            if not isinstance(ret,Throw) and ret is not ANY: cmpval(out.val,ret,'return value')
            ids=[oid for oid in sp.mem if sp.mem[oid][2].kind!='strdata']
            for oid in ids:
                if oid not in pre.mem and sp.mem[oid][2].kind not in('global','const'): continue
                lv,cb,o=sp.mem[oid]
                if oid not in act.mem:
                    if o.kind in('global','const'): continue
                    ctx.oblige(act,False,'%s still exists'%o.name,loc='(post)')
                la=act.mem[oid][0]
                if la!=lv:
                    ctx.oblige(act,False,('%s is not released'%o.name.split('#')[0]) if lv else ('%s is released'%o.name.split('#')[0]),loc='(post)')
                if not lv: continue
                compare_content(ctx,pre,act,sp,o,o,o.name.split('#')[0],cmpval)
            for oid,(lv,c,o) in act.mem.items():
                if getattr(con,'free_globals',False): break
                if o.kind in('global',) and oid not in sp.mem and oid in ctx.globinit and c is not ctx.globinit[oid]:
                    compare_content(ctx,pre,act,sp,o,o,o.name.split('#')[0],cmpval)
            i=0
            while i<len(pairs):
                a,b,w=pairs[i]; i+=1
                if not b.id in sp.mem or not a.id in act.mem: ctx.oblige(act,False,'object identity of '+w,loc='(post)'); continue
                if act.mem[a.id][0]!=sp.mem[b.id][0]: ctx.oblige(act,False,'liveness of new '+a.name,loc='(post)')
                if act.mem[a.id][0]:
                    ctx.oblige(act,eq(a.size,b.size) if not(isint(a.size) and isint(b.size)) else a.size==b.size,'size of new '+a.name.split('#')[0],loc='(post)')
                    if b.kind!=a.kind and b.kind in('heap','heaparr'): ctx.oblige(act,False,'allocation kind of '+a.name,loc='(post)')
                    compare_content(ctx,pre,act,sp,a,b,'new '+w,cmpval)
            for oid,(lv,c,o) in act.mem.items():
                if oid in pre.mem or not lv or o.kind in('global','const','strdata','fn'): continue
                if oid not in done and not getattr(con,'may_leak',False):
                    if o.kind in('heap','heaparr'): ctx.oblige(act,False,'no leak of %s'%o.name.split('#')[0],loc='(post)')
            for oid,(lv,c,o) in sp.mem.items():
                if oid in pre.mem or not lv or o.kind not in('heap','heaparr'): continue
                if not any(b is o for b in done.values()): ctx.oblige(act,False,'expected new object %s exists'%o.name,loc='(post)')
            ga,gb=act.ghost,sp.ghost
            for k in sorted(set(ga)|set(gb)):
                if k.startswith('~'): continue
                a,b=ga.get(k),gb.get(k)
                if b is ANY or ghost_same(a,b): continue
                if a is None or b is None: ctx.oblige(act,False,'effect %s'%k,loc='(post)'); continue
                cmpval(a,b,'effect %s'%k)
            con.extra(ctx,pre,act,out,args)
        except DeadPath: pass
    return n

def verify(ctx,con,f):
    """discharge every obligation of f against con; obligations are left in ctx.obs"""
    ctx.target=con
    ctx.opts.update(con.opts)
    st=State()
    args=con.setup(ctx,st)
    for n,c in con.requires(ctx,st,args): st.assume(c)
    if ctx.opts['refute']:
        for c in con.small(ctx,st,args): st.assume(c)
    r=ctx.check(st,tmo=20000)
    if r=='unsat': raise Unsupported('contradictory precondition (vacuous contract) for '+con.name)
    sp=st.fork()
    ctx.mute+=1
    try: ret=con.spec(ctx,sp,args)
    finally: ctx.mute-=1
    specs=ret if isinstance(ret,list) else [(sp,ret)]
    # array targets for loop templates
    for (x,_) in specs:
        for oid,(lv,c,o) in x.mem.items():
            if isinstance(c,ArrC) and lv:
                old=st.mem.get(oid)
                if old is not None and old[1] is c: continue
                rng=getattr(con,'ranges',{}).get(oid) or ctx.ranges.get(oid) or (0,simp(z3.LShR(bv(o.size),c.es.bit_length()-1)))
                ctx.array_specs.append(ArrSpec(c.es,c.node,rng[0],rng[1],None))
            elif isinstance(c,Cells) and lv:
                for off,(n,v) in c.d.items():
                    if isinstance(v,StrV):
                        ctx.str_specs.append(v)
                        ctx.array_specs.append(ArrSpec(1,v.node,0,v.len,None))
    con.hook(ctx,st,args) if hasattr(con,'hook') else None
    run=st.fork()
    ctx.precheck=st
    outs=ctx.run_function(run,f,args)
    ctx.inputs=con.inputs(ctx,st,args)
    n=0
    for o in outs: n+=check_post(ctx,st,o,specs,args,con)
    ctx.outcomes=[(o.kind) for o in outs]
    return ctx.obs

class Lemma:
    """obligations over the mathematical definitions used in contracts (no code executed)"""
    asserts='forbidden'; opts={}; name='(lemma)'
    def label(s): return s.title
    def prove(s,L): pass
def verify_lemma(ctx,lem):
    def L(name,f):
        st=State(); c=sbool(f)
        ctx.oblige(st,c,name,loc='(lemma)')
    lem.prove(L)
    return ctx.obs
