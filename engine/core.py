"""Symbolic executor / verification-condition generator over clang -O0 LLVM IR."""
import re, subprocess, time, os, sys
import z3
from .ir import *
from .values import *
from .lia import LIA
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class PathEnd(Exception): pass
class DeadPath(PathEnd): pass

class Program:
    def __init__(s,modules):
        s.mods=modules
        s.fn={}
        for m in modules:
            for n,f in m.funcs.items():
                if n not in s.fn: s.fn[n]=m
        names=set(s.fn)
        for m in modules: names|=set(m.decls)
        names=sorted(names)
        out=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
        s.dem=dict(zip(names,out))
        s.bydem={}
        for n,d in s.dem.items(): s.bydem.setdefault(norm(d),[]).append(n)
    def find(s,name,mod=None):
        """defining function object for a mangled name"""
        if mod is not None and name in mod.funcs: return mod.func(name)
        m=s.fn.get(name)
        return m.func(name) if m else None
    def lookup(s,dem):
        """function object by demangled name"""
        for n in sorted(s.bydem.get(norm(dem),[]),key=lambda n: bool(re.search(r'D0Ev$',n))):
            if n in s.fn and not (n.find('C1E')>=0 and False):
                # prefer complete-object constructors being defined
                return s.find(n)
        return None

def norm(d):
    d=d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >','std::string')
    d=d.replace('std::__cxx11::','std::').replace('[abi:cxx11]','')
    return re.sub(r'\s+',' ',d).strip()

class Frame:
    __slots__=('f','env','block','ip','prev','allocas','tag')
    def __init__(s,f): s.f=f;s.env={};s.block=f.order[0];s.ip=0;s.prev=None;s.allocas=[];s.tag=None
    def copy(s):
        n=Frame.__new__(Frame); n.f=s.f;n.env=dict(s.env);n.block=s.block;n.ip=s.ip;n.prev=s.prev;n.allocas=list(s.allocas);n.tag=s.tag
        return n

class State:
    def __init__(s): s.frames=[];s.mem={};s.pc=[];s.ghost={};s.reads=None;s.exc=None;s.ret=None;s.trace=[]
    def fork(s):
        n=State(); n.frames=[f.copy() for f in s.frames]; n.mem=dict(s.mem); n.pc=list(s.pc)
        n.ghost={k:(v.copy() if hasattr(v,'copy') else v) for k,v in s.ghost.items()}
        n.reads=s.reads; n.exc=s.exc; n.ret=s.ret; n.trace=list(s.trace)
        return n
    def assume(s,c):
        if c is True: return
        if c is False: c=z3.BoolVal(False)
        if isinstance(c,z3.BoolRef):
            s.pc.append(c)
        else: raise TypeError(c)

class Obligation:
    __slots__=('name','loc','ok','why','model','fn','path')
    def __init__(s,name,loc,fn): s.name=name;s.loc=loc;s.fn=fn;s.ok=None;s.why='';s.model=None

class Outcome:
    def __init__(s,kind,st,val=None): s.kind=kind;s.st=st;s.val=val

class Ctx:
    """one verification session (one function under contract)"""
    def __init__(s,prog,models,contracts=None,opts=None):
        s.prog=prog;s.models=models;s.contracts=contracts or {};s.opts=dict(unroll=0,timeout=20000,refute=False,refute_k=6,max_paths=3000,assert_abort=False,deadline=None,nsw=False)
        if opts: s.opts.update(opts)
        s.sol=z3.Solver(); s.levels=[]; s.lia=LIA()
        s.obs=[];s.mute=0;s.qtime=0.0;s.nq=0
        s.gobj={};s.fobj={}
        s.templates=[];s.folds=[];s.terms=[];s.array_specs=[];s.str_specs=[];s.hints=[]
        s.used_models=set();s.used_contracts=set();s.used_funcs=set()
        s.unknowns=0; s.loopinfo=[]; s.backends={}
        s.modelcache={}
        s.cutcount=0; s.paths=0; s.dropped=0
        s.fp=False
        s.globinit=dict()
        s.target=None
        s.variants=True; s.ranges={}; s.str_specs=[]; s.inputs=[]
    # ------------------------------------------------------- solver
    def sync(s,pc):
        # find common prefix at level boundaries
        k=0
        while s.levels:
            a,chunk=s.levels[-1]
            b=a+len(chunk)
            if b<=len(pc) and all(x is y for x,y in zip(chunk,pc[a:b])) and s._prefix_ok(pc,a): break
            s.sol.pop(); s.levels.pop()
        start=s.levels[-1][0]+len(s.levels[-1][1]) if s.levels else 0
        if start<len(pc):
            chunk=pc[start:]
            s.sol.push()
            for c in chunk: s.sol.add(c)
            s.levels.append((start,chunk))
    def _prefix_ok(s,pc,a):
        for st,ch in s.levels[:-1]:
            if len(pc)<st+len(ch): return False
            for x,y in zip(ch,pc[st:st+len(ch)]):
                if x is not y: return False
        return True
    def check(s,st,extra=None,tmo=None,want_model=False):
        """sat check of pc & extra: 'sat','unsat','unknown'"""
        if s.opts['deadline'] and time.time()>s.opts['deadline']: raise Unsupported('time budget of the check used up')
        t0=time.time(); s.nq+=1
        try:
            s.sync(st.pc)
            s.sol.set('timeout',int(tmo or s.opts['timeout']))
            if extra is not None:
                s.sol.push(); s.sol.add(extra)
            r=s.sol.check()
            res=str(r)
            m=s.sol.model() if (r==z3.sat and want_model) else None
            if extra is not None: s.sol.pop()
        except z3.Z3Exception as e:
            s.sol=z3.Solver(); s.levels=[]; res='unknown'; m=None
        s.qtime+=time.time()-t0
        if want_model: return res,m
        return res
    def feasible(s,st,c):
        if c is True: return True
        if c is False: return False
        r,ex=s.liacheck(st,c)
        if r=='unsat': return False
        if r=='sat' and ex==0: return True
        return s.check(st,c,tmo=4000)!='unsat'
    def liacheck(s,st,c,tmo=1500):
        if s.opts['deadline'] and time.time()>s.opts['deadline']: raise Unsupported('time budget of the check used up')
        t0=time.time(); r=s.lia.check(st.pc,c,tmo); s.qtime+=time.time()-t0; s.nq+=1
        return r
    def ctxsimp(s,st,e,limit=40):
        """e with the conditions of its if-then-else terms replaced where the path condition decides them"""
        tried=set()
        for _ in range(4):
            conds=[];seen=set();stack=[e]
            while stack and len(conds)<limit:
                x=stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_ITE:
                    c=x.arg(0)
                    if c.get_id() not in tried and not z3.is_true(c) and not z3.is_false(c): conds.append(c); tried.add(c.get_id())
                stack+=x.children()
            if not conds: break
            sub=[]
            for c in conds:
                if s.liacheck(st,z3.Not(c),300)[0]=='unsat': sub.append((c,z3.BoolVal(True)))
                elif s.liacheck(st,c,300)[0]=='unsat': sub.append((c,z3.BoolVal(False)))
            if not sub: break
            e=z3.simplify(z3.substitute(e,*sub))
            if z3.is_true(e) or z3.is_false(e): break
        return e
    def must(s,st,c,tmo=8000):
        """pc |= c ?  (used for decisions; not an obligation)"""
        if c is True: return True
        c=sbool(c) if not isinstance(c,bool) else c
        if isinstance(c,bool): return c
        r,ex=s.liacheck(st,z3.Not(c))
        if r=='unsat': return True
        if r=='sat' and ex==0: return False
        return s.check(st,z3.Not(c),tmo=tmo)=='unsat'
    def prove(s,st,c):
        """returns (ok, why, model, backend)"""
        if c is True: return True,'',None,'syntactic'
        if c is False:
            r,m=s.check(st,None,want_model=True)
            if r=='unsat': return True,'',None,'z3'
            return False,('sat' if r=='sat' else 'unknown'),m,'z3'
        n=z3.Not(c)
        if s.liacheck(st,n)[0]=='unsat': return True,'',None,'z3/int'
        c2=s.ctxsimp(st,bz(c))
        if z3.is_true(c2): return True,'',None,'z3/int'
        if not c2.eq(bz(c)):
            n=z3.Not(c2)
            if s.liacheck(st,n)[0]=='unsat': return True,'',None,'z3/int'
        r,m=s.check(st,n,tmo=min(4000,s.opts['timeout']),want_model=True)
        if r=='unsat': return True,'',None,'z3'
        if r=='sat': return False,'sat',m,'z3'
        # second attempt: fresh non-incremental solver
        t0=time.time()
        for tac in ('qfufbv','smt'):
            if s.fp and tac=='qfufbv': continue
            try:
                so=z3.Tactic('qfufbv').solver() if tac=='qfufbv' else z3.SimpleSolver()
                so.set('timeout',s.opts['timeout'])
                so.add(*st.pc); so.add(n)
                r=so.check()
                if r==z3.unsat: s.qtime+=time.time()-t0; return True,'',None,'z3/'+tac
                if r==z3.sat: s.qtime+=time.time()-t0; return False,'sat',so.model(),'z3/'+tac
            except z3.Z3Exception: pass
        r=s.cvc5(st.pc+[n])
        s.qtime+=time.time()-t0
        if r=='unsat': return True,'',None,'cvc5'
        return False,'unknown' if r!='sat' else 'sat',None,'cvc5'
    def cvc5(s,cs):
        import tempfile
        so=z3.Solver(); so.add(*cs)
        txt='(set-logic ALL)\n'+so.to_smt2()
        with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(txt); fn=f.name
        try:
            r=subprocess.run(['cvc5','--tlimit=%d'%s.opts['timeout'],fn],capture_output=True,text=True,timeout=s.opts['timeout']/1000+5).stdout.split('\n')[0]
        except Exception: r='unknown'
        os.unlink(fn)
        return r
    # ------------------------------------------------------- obligations
    def loc(s,st):
        for fr in reversed(st.frames):
            try:
                ins=fr.f.blocks[fr.block][fr.ip]
            except IndexError: continue
            if ins.line:
                l=fr.f.mod.line(ins.line)
                if l and not l.startswith('/usr'): return l
        return '?'
    def oblige(s,st,c,name,loc=None):
        """obligation: pc => c; afterwards c is assumed"""
        if c is True:
            if not s.mute:
                o=Obligation(name,loc or s.loc(st),s.fname(st)); o.ok=True; s.obs.append(o); s.backends['syntactic']=s.backends.get('syntactic',0)+1
            return True
        if not isinstance(c,bool):
            c=sbool(c)
            if c is True: return s.oblige(st,True,name,loc)
        if s.mute:
            if c is False: raise DeadPath()
            st.assume(c); return True
        o=Obligation(name,loc or s.loc(st),s.fname(st))
        ok,why,m,be=s.prove(st,c)
        o.ok=ok;o.why=why;o.model=m
        s.obs.append(o)
        if ok: s.backends[be]=s.backends.get(be,0)+1
        else:
            o.path=list(st.pc)
            if s.opts.get('stop_on_fail'): raise Failed(o)
        if c is False:
            raise DeadPath()
        if not(ok and be=='z3/int'): st.assume(c)
        return ok
    def fname(s,st):
        return norm(s.prog.dem.get(st.frames[-1].f.name,st.frames[-1].f.name)) if st.frames else ''
    # ------------------------------------------------------- memory
    def new(s,st,name,size,kind,content='auto',assume=True):
        o=Obj(name,size,kind)
        if content=='auto':
            content=Cells() if isint(size) else None
        st.mem[o.id]=(True,content,o)
        if assume and kind!='stack':
            if isint(size): st.assume(z3.And(z3.UGT(o.base,4096),z3.ULT(o.base,1<<46)))
            else: st.assume(z3.And(z3.UGT(o.base,4096),z3.ULT(o.base,1<<46),z3.ULE(bv(size),1<<40)))
        return o
    def live(s,st,o): return o.id in st.mem and st.mem[o.id][0]
    def content(s,st,o):
        return st.mem[o.id][1]
    def setc(s,st,o,c): st.mem[o.id]=(st.mem[o.id][0],c,o)
    def kill(s,st,o): st.mem[o.id]=(False,st.mem[o.id][1],o)
    def ensure_glob(s,st,o):
        if o.id not in st.mem and o.kind in('global','const'):
            st.mem[o.id]=(True,s.globinit[o.id],o)
    def access(s,st,p,n,what):
        """obligations for an access of n bytes (int or term) at p"""
        if p.obj is None:
            s.oblige(st,False,'%s through a null or unknown pointer'%what)
        o=p.obj
        if o.kind=='fn': s.oblige(st,False,'%s of function memory'%what)
        s.ensure_glob(st,o)
        if o.kind=='strdata': return
        if not s.live(st,o):
            s.oblige(st,False,'%s of freed or out-of-scope memory'%what)
        if what=='store' and o.kind=='const': s.oblige(st,False,'store to constant')
        if o.guard is not None: o.guard(s,st,p,n,what)
        size=o.size
        if isint(p.off) and isint(n) and isint(size):
            s.oblige(st,p.off+n<=size,'%s in bounds of %s'%(what,o.name.split('#')[0])); return
        b=And(ule(p.off,sub(64,size,n)),ule(n,size)) if not isint(n) or not isint(size) else (ule(p.off,size-n) if n<=size else False)
        s.oblige(st,b,'%s in bounds of %s'%(what,o.name.split('#')[0]))
    def rd(s,st,node,i):
        ax=[]
        v=node.read(i,ax)
        for a in ax:
            st.assume(a)
        return v if isint(v) or z3.is_fp(v) else simp(v)
    def to_arr(s,st,o,es,flt=False):
        c=s.content(st,o)
        if isinstance(c,ArrC):
            if c.es==es: return c
            if es==1 and not (isinstance(c.node.w,str)):
                # view as bytes
                nd=c.node; k=c.es; sh=k.bit_length()-1
                def fn(i,ax,nd=nd,k=k,sh=sh):
                    if isint(i):
                        v=nd.read(i//k,ax); r=i%k
                        return (v>>(8*r))&255 if isint(v) else z3.Extract(8*r+7,8*r,v)
                    v=bv(nd.read(z3.LShR(i,sh),ax),8*k)
                    r=v
                    out=z3.Extract(7,0,v)
                    for j in range(1,k): out=z3.If((i&(k-1))==j,z3.Extract(8*j+7,8*j,v),out)
                    return out
                return ArrC(1,Lam(8,fn))
            raise Unsupported('array of %d-byte elements accessed with %d bytes (%s)'%(c.es,es,o.name))
        w='f32' if flt else es*8
        if c is None: return ArrC(es,Base('undef_'+o.name,w))
        if isinstance(c,Cells):
            node=Const(w,0 if not flt else z3.FPVal(0,F32S)) if c.init=='zero' else Base('init_'+o.name,w)
            for off,(n,v) in sorted(c.d.items()):
                if isinstance(v,(P,StrV)) or not (isint(v) or z3.is_bv(v) or z3.is_fp(v)):
                    raise Unsupported('symbolic index into object holding pointers (%s)'%o.name)
                if n==es: node=Store(node,off//es,v)
                elif n>es and n%es==0 and not flt:
                    for j in range(n//es): node=Store(node,off//es+j,(v>>(8*es*j))&mask(8*es) if isint(v) else simp(z3.Extract(8*es*(j+1)-1,8*es*j,v)))
                else: raise Unsupported('mixed cell sizes in %s'%o.name)
            return ArrC(es,node)
        raise Unsupported('content')
    def load(s,st,p,ty,mod):
        ty=mod.resolve(ty); n=mod.size(ty)
        if ty.k in('struct','arr'):
            # aggregate load: by fields
            if ty.k=='struct':
                return tuple(s.load(st,P(p.obj,add(64,p.off,o)),t,mod) for t,o in zip(ty.a,mod.offsets(ty)))
            es=mod.size(ty.b)
            return tuple(s.load(st,P(p.obj,add(64,p.off,i*es)),ty.b,mod) for i in range(ty.a))
        s.access(st,p,n,'load')
        v=s.load_raw(st,p,n,ty)
        return s.totype(st,v,ty)
    def load_raw(s,st,p,n,ty=None):
        o=p.obj
        flt=ty is not None and ty.k=='float'
        if o.kind=='strdata':
            if n!=1: raise Unsupported('wide load from string data')
            return s.str_read(st,o,p.off)
        c=s.content(st,o)
        if isinstance(c,Cells) and isint(p.off):
            if st.reads is not None: st.reads.add((o.id,p.off))
            e=c.d.get(p.off)
            if e and e[0]==n: return e[1]
            return s.cells_assemble(st,o,c,p.off,n,ty)
        if isinstance(c,Cells):
            ks=set(k for k,_ in c.d.values())
            if c.init=='undef' and ty is not None and ty.k=='ptr':
                raise Unsupported('symbolic index into pointer table '+o.name)
            a=s.to_arr(st,o,n,flt)
        elif c is None: a=s.to_arr(st,o,n,flt); s.setc(st,o,a)
        else: a=c
        if a.es==n:
            return s.rd(st,a.node,s.index(st,p.off,n))
        if a.es<n and n%a.es==0:
            k=n//a.es; i0=s.index(st,p.off,a.es)
            vs=[bv(s.rd(st,a.node,add(64,i0,j)),8*a.es) for j in range(k)]
            return simp(z3.Concat(*reversed(vs)))
        a=s.to_arr(st,o,n)
        return s.rd(st,a.node,s.index(st,p.off,n))
    def index(s,st,off,es):
        if es==1: return off
        if isint(off):
            if off%es: raise Unsupported('misaligned element access')
            return off//es
        sh=es.bit_length()-1
        if es!=1<<sh: raise Unsupported('element size')
        low=simp(z3.Extract(sh-1,0,off))
        if not(isint(low) and low==0):
            s.oblige(st,eq(low,0),'element-aligned access')
        q=simp(z3.LShR(off,sh))
        return s.shr_simplify(off,sh,q)
    def shr_simplify(s,off,sh,q):
        # off == Concat(x[61:0], 00)  -> x  is what z3 produces for 4*x; keep plain form when high bits are dropped
        return q
    def cells_assemble(s,st,o,c,off,n,ty):
        bs=[]
        overl=[(k,m,v) for k,(m,v) in c.d.items() if k<off+n and off<k+m]
        if not overl:
            if c.init=='zero': return 0 if not(ty is not None and ty.k in('float','double')) else z3.FPVal(0,F32S if ty.k=='float' else F64S)
            nm='%s_%d'%(o.name,off)
            if ty is not None and ty.k=='float': v=z3.FP('%s!%d'%(nm,uid()),F32S)
            elif ty is not None and ty.k=='double': v=z3.FP('%s!%d'%(nm,uid()),F64S)
            elif c.init=='sym': v=z3.BitVec('sym_%s_%d_%d'%(o.name,off,n),8*n)
            else: v=fresh(nm,8*n)
            nc=c.copy(); nc.d[off]=(n,v); s.setc(st,o,nc)
            if ty is not None and ty.k=='ptr': nc.d[off]=(n,P(None,v)); return nc.d[off][1]
            return v
        for i in range(n):
            x=off+i; b=None
            for k,m,v in overl:
                if k<=x<k+m:
                    if isinstance(v,P): v=s.ptoi(v)
                    if not isint(v) and z3.is_fp(v): v=simp(z3.fpToIEEEBV(v))
                    if not(isint(v) or z3.is_bv(v)): raise Unsupported('partial read of abstract value in '+o.name)
                    j=x-k
                    b=(v>>(8*j))&255 if isint(v) else z3.Extract(8*j+7,8*j,v)
            if b is None:
                b=0 if c.init=='zero' else fresh('%s_%d'%(o.name,x),8)
            bs.append(bv(b,8))
        return simp(z3.Concat(*reversed(bs))) if n>1 else simp(bs[0])
    def ptoi(s,p):
        if p.obj is None: return p.off
        return simp(p.obj.base+bv(p.off))
    def itop(s,st,v):
        if isinstance(v,P): return v
        if isint(v): return P(None,v)
        # recognise base+off
        k=v
        if z3.is_bv(v):
            names={}
            def kids(e): return e.children() if z3.is_app_of(e,z3.Z3_OP_BADD) else [e]
            ch=kids(v)
            for i,cx in enumerate(ch):
                if z3.is_const(cx) and cx.decl().name().startswith('base!'):
                    for (lv,ct,o) in st.mem.values():
                        if o.base.eq(cx):
                            return P(o,simp(v-o.base))
        return P(None,v)
    def totype(s,st,v,ty):
        k=ty.k
        if k=='ptr':
            return v if isinstance(v,P) else s.itop(st,v)
        if k=='int':
            if isinstance(v,P): v=s.ptoi(v)
            if isinstance(v,bool): v=int(v)
            if not isint(v):
                if z3.is_fp(v): v=simp(z3.fpToIEEEBV(v))
                elif z3.is_bool(v): v=ite(v,1,0,8)
            if ty.a==1:
                if isint(v): return bool(v&1)
                return sbool(z3.Extract(0,0,v)==1)
            if isinstance(v,StrV): raise Unsupported('raw access to a std::string representation')
            return v
        if k in('float','double'):
            S=F32S if k=='float' else F64S
            s.fp=True
            if isinstance(v,float): return z3.FPVal(v,S)
            if isint(v): return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v,32 if k=='float' else 64),S))
            if z3.is_bv(v): return z3.fpBVToFP(v,S)
            return v
        raise Unsupported('load type '+repr(ty))
    def store(s,st,p,v,ty,mod):
        ty=mod.resolve(ty)
        if ty.k=='struct':
            for x,t,o in zip(v,ty.a,mod.offsets(ty)): s.store(st,P(p.obj,add(64,p.off,o)),x,t,mod)
            return
        if ty.k=='arr':
            es=mod.size(ty.b)
            for i,x in enumerate(v): s.store(st,P(p.obj,add(64,p.off,i*es)),x,ty.b,mod)
            return
        n=mod.size(ty)
        s.access(st,p,n,'store')
        if ty.k=='int' and ty.a==1: v=ite(v,1,0,8)
        s.store_raw(st,p,n,v)
    def store_raw(s,st,p,n,v):
        o=p.obj
        if o.kind=='strdata':
            if n!=1: raise Unsupported('wide store to string data')
            return s.str_write(st,o,p.off,v)
        c=s.content(st,o)
        if isinstance(c,Cells) and isint(p.off):
            nc=c.copy()
            e=nc.d.get(p.off)
            if e is None or e[0]!=n:
                for k,(m,old) in list(nc.d.items()):
                    if k<p.off+n and p.off<k+m:
                        del nc.d[k]
                        if k<p.off or k+m>p.off+n:   # keep the bytes not overwritten
                            if isinstance(old,P): old=s.ptoi(old)
                            if not isint(old) and z3.is_fp(old): old=z3.fpToIEEEBV(old)
                            if not(isint(old) or z3.is_bv(old)): raise Unsupported('partial overwrite of abstract value in '+o.name)
                            for j in range(m):
                                if not(p.off<=k+j<p.off+n): nc.d[k+j]=(1,(old>>(8*j))&255 if isint(old) else simp(z3.Extract(8*j+7,8*j,old)))
            nc.d[p.off]=(n,v); s.setc(st,o,nc); return
        flt=(not isint(v)) and not isinstance(v,P) and z3.is_fp(v)
        if isinstance(v,P):
            if isinstance(c,ArrC) or c is None or isinstance(c,Cells):
                raise Unsupported('pointer stored at symbolic offset')
        if flt and v.sort()==F64S: raise Unsupported('double array')
        if isinstance(c,ArrC): a=c
        else: a=s.to_arr(st,o,n,flt)
        if flt and a.node.w!='f32': v=fpbits(v)
        if a.es==n:
            s.setc(st,o,ArrC(n,Store(a.node,s.index(st,p.off,n),v)))
        elif a.es<n and n%a.es==0:
            k=n//a.es; i0=s.index(st,p.off,a.es); nd=a.node
            for j in range(k):
                nd=Store(nd,add(64,i0,j),(v>>(8*a.es*j))&mask(8*a.es) if isint(v) else simp(z3.Extract(8*a.es*(j+1)-1,8*a.es*j,v)))
            s.setc(st,o,ArrC(a.es,nd))
        else:
            a1=s.to_arr(st,o,n)
            s.setc(st,o,ArrC(n,Store(a1.node,s.index(st,p.off,n),v)))
    # string data views -------------------------------------------------
    def str_get(s,st,p):
        """StrV stored at pointer p (a std::string object)"""
        s.access(st,p,32,'string access')
        if not isint(p.off): raise Unsupported('string object at symbolic offset')
        c=s.content(st,p.obj)
        e=c.d.get(p.off) if isinstance(c,Cells) else None
        if st.reads is not None: st.reads.add((p.obj.id,p.off))
        if e is None or not isinstance(e[1],StrV):
            if isinstance(c,Cells) and c.init=='sym':
                v=s.str_fresh(st,'str')
                nc=c.copy(); nc.d[p.off]=(32,v); s.setc(st,p.obj,nc); return v
            s.oblige(st,False,'string object used before construction or after destruction')
        return e[1]
    def str_set(s,st,p,v):
        s.access(st,p,32,'string access')
        if not isint(p.off): raise Unsupported('string object at symbolic offset')
        c=s.content(st,p.obj)
        if c is None: c=Cells()
        nc=c.copy()
        for k in list(nc.d):
            if p.off<=k<p.off+32: del nc.d[k]
        nc.d[p.off]=(32,v); s.setc(st,p.obj,nc)
    def str_fresh(s,st,name,maxlen=1<<30):
        n=fresh(name+'_len'); st.assume(z3.ULE(n,maxlen))
        return StrV(n,Base(name,8))
    def str_data(s,st,p):
        """pointer to the characters of the string object at p"""
        key=(p.obj.id,p.off)
        d=s.strobj.get(key) if hasattr(s,'strobj') else None
        if d is None:
            if not hasattr(s,'strobj'): s.strobj={}
            d=Obj('strdata',0,'strdata'); d.owner=p; s.strobj[key]=d
        if d.id not in st.mem: st.mem[d.id]=(True,Cells(),d)
        return P(d,0)
    def str_read(s,st,o,off):
        v=s.str_get(st,o.owner)
        s.oblige(st,ule(off,v.len),'read within string')
        x=s.rd(st,v.node,off)
        if isint(off) and isint(v.len): return x if off<v.len else 0
        return ite(eq(off,v.len),0,x,8)
    def str_write(s,st,o,off,x):
        v=s.str_get(st,o.owner)
        s.oblige(st,ult(off,v.len),'write within string')
        s.str_set(st,o.owner,StrV(v.len,Store(v.node,off,x)))
    # bulk ---------------------------------------------------------------
    def memcpy(s,st,d,sr,n,move=False):
        if isint(n) and n==0: return
        if not isint(n):
            # zero-length copies touch nothing
            if not s.must(st,Not(eq(n,0)),2000):
                if s.check(st,bv(n)==0,tmo=4000)!='unsat':
                    # bounds only needed when n>0
                    if d.obj is None or sr.obj is None:
                        s.oblige(st,eq(n,0),'copy of nonzero length through a null pointer'); return
                    nz=Not(eq(n,0))
                    for q,w in((sr,'copy source'),(d,'copy destination')):
                        s.acc_cond(st,q,n,w,nz)
                    return s.memcpy_do(st,d,sr,n)
        s.access(st,sr,n,'copy source'); s.access(st,d,n,'store')
        s.memcpy_do(st,d,sr,n)
    def acc_cond(s,st,p,n,what,cond):
        o=p.obj; s.ensure_glob(st,o)
        if o.kind=='strdata':
            v=s.str_get(st,o.owner); s.oblige(st,Implies(cond,And(ule(p.off,v.len),ule(n,sub(64,add(64,v.len,1),p.off)))),what+' in bounds'); return
        if not s.live(st,o): s.oblige(st,Not(cond),what+' of freed memory'); return
        s.oblige(st,Implies(cond,And(ule(n,o.size),ule(p.off,sub(64,o.size,n)))),what+' in bounds of '+o.name.split('#')[0])
    def memcpy_do(s,st,d,sr,n):
        src=sr.obj
        if src.kind=='strdata':
            v=s.str_get(st,src.owner)
            sc=ArrC(1,Lam(8,lambda i,ax,v=v: ite(eq(i,v.len),0,v.node.read(i,ax),8)))
        else: sc=s.content(st,src)
        if d.obj.kind=='strdata':
            v=s.str_get(st,d.obj.owner)
            if not isinstance(sc,ArrC): sc=s.to_arr(st,src,1)
            nd=s.copy_node(v.node,sc.node,d.off,sr.off,n)
            s.str_set(st,d.obj.owner,StrV(v.len,nd)); return
        dc=s.content(st,d.obj)
        if isinstance(sc,Cells) and isinstance(dc,Cells) and isint(n) and isint(d.off) and isint(sr.off):
            nc=dc.copy()
            for k,(m,v) in list(nc.d.items()):
                if k<d.off+n and d.off<k+m:
                    if k<d.off or k+m>d.off+n: raise Unsupported('memcpy partial overlap')
                    del nc.d[k]
            for k,(m,v) in sc.d.items():
                if sr.off<=k and k+m<=sr.off+n: nc.d[d.off+k-sr.off]=(m,v)
                elif k<sr.off+n and sr.off<k+m: raise Unsupported('memcpy partial source')
            s.setc(st,d.obj,nc); return
        if sc is None and dc is None: return
        es=(sc.es if isinstance(sc,ArrC) else dc.es if isinstance(dc,ArrC) else 1)
        if isinstance(dc,ArrC) and isinstance(sc,ArrC) and dc.es!=sc.es: es=1
        flt=(isinstance(sc,ArrC) and sc.node.w=='f32') or (isinstance(dc,ArrC) and dc.node.w=='f32')
        a=sc if isinstance(sc,ArrC) and sc.es==es else s.to_arr(st,src,es,flt)
        b=s.to_arr(st,d.obj,es,flt)
        if es>1:
            di=s.index(st,d.off,es); si=s.index(st,sr.off,es)
            if isint(n):
                if n%es: raise Unsupported('memcpy of partial elements')
                cnt=n//es
            else:
                sh=es.bit_length()-1
                if s.must(st,simp(z3.Extract(sh-1,0,n))==0 if not isint(simp(z3.Extract(sh-1,0,n))) else simp(z3.Extract(sh-1,0,n))==0): cnt=simp(z3.LShR(n,sh))
                else: raise Unsupported('memcpy of partial elements')
        else: di,si,cnt=d.off,sr.off,n
        s.setc(st,d.obj,ArrC(es,s.copy_node(b.node,a.node,di,si,cnt)))
    def copy_node(s,old,src,di,si,cnt):
        w=old.w
        def fn(i,ax):
            k=sub(64,i,di)
            c=ult(k,cnt)
            if c is True: return src.read(add(64,k,si),ax)
            if c is False: return old.read(i,ax)
            x=src.read(add(64,k,si),ax); y=old.read(i,ax)
            return ite(c,x,y,w)
        return Lam(w,fn)
    def memset(s,st,d,val,n):
        if isint(n) and n==0: return
        s.access(st,d,n,'store')
        if d.obj.kind=='strdata': raise Unsupported('memset of string data')
        dc=s.content(st,d.obj)
        if isinstance(dc,Cells) and isint(n) and isint(d.off):
            nc=dc.copy()
            for k,(m,v) in list(nc.d.items()):
                if k<d.off+n and d.off<k+m:
                    if k<d.off or k+m>d.off+n: raise Unsupported('memset partial overlap')
                    del nc.d[k]
            if d.off==0 and n==d.obj.size and val==0: nc.init='zero'
            else:
                if n>4096: raise Unsupported('big memset')
                for j in range(n): nc.d[d.off+j]=(1,val)
            s.setc(st,d.obj,nc); return
        b=s.to_arr(st,d.obj,1 if not isinstance(dc,ArrC) else dc.es)
        if b.es!=1: raise Unsupported('memset es')
        old=b.node
        s.setc(st,d.obj,ArrC(1,Lam(8,lambda i,ax: ite(ult(sub(64,i,d.off),n),val,old.read(i,ax),8))))
    # ------------------------------------------------------- globals and constants
    def globj(s,st,name,mod):
        # find definition
        if s.prog.find(name,mod) is not None or name in mod.decls and name not in mod.globals:
            o=s.fobj.get(name)
            if o is None: o=s.fobj[name]=Obj(name,0,'fn'); o.fn=name
            return P(o,0)
        key=name; m=mod
        g=mod.glob(name) if name in mod.globals else None
        if g is None: raise Unsupported('unknown global '+name)
        local=name.startswith('.') or 'internal' in str(mod.globals.get(name,''))[:40]
        if g[0]=='alias': return s.cval(st,g[1],PTR,mod)
        if not name.startswith('.') and g[2] is None:
            for mm in s.prog.mods:
                if name in mm.globals and mm is not mod:
                    gg=mm.glob(name)
                    if gg[0]!='alias' and gg[2] is not None: m=mm; g=gg; break
        key=(name if not name.startswith('.') else (id(m),name))
        o=s.gobj.get(key)
        if o is None:
            kind,ty,init=g
            try: size=m.size(ty)
            except ValueError: size=8
            o=Obj(name,size,'const' if kind=='constant' else 'global')
            s.gobj[key]=o
            s.globinit[o.id]=Cells()
            if name in s.opts.get('globals',{}):
                c=s.opts['globals'][name](s,st,o)
            elif init is None: c=Cells(init='sym')
            elif kind=='constant' or s.opts.get('globals_init'): c=s.initc(st,ty,init,m,o)
            else: c=Cells(init='sym')
            s.globinit[o.id]=c
            s.gassume=getattr(s,'gassume',[]); s.gassume.append(z3.And(z3.UGT(o.base,4096),z3.ULT(o.base,1<<46)))
        if o.id not in st.mem:
            st.mem[o.id]=(True,s.globinit[o.id],o)
        return P(o,0)
    def initc(s,st,ty,init,m,o):
        ty=m.resolve(ty)
        if init[0]=='str': return ArrC(1,Lit(8,list(init[1])))
        if init[0]=='zero': return Cells(init='zero')
        if ty.k=='arr' and m.resolve(ty.b).k=='int' and init[0]=='agg':
            return ArrC(m.size(ty.b),Lit(8*m.size(ty.b),[s.cval(st,v,t,m) for t,v in init[1]]))
        c=Cells(init='zero')
        def go(ty,v,off):
            ty=m.resolve(ty)
            if v[0]=='zero': return
            if v[0]=='undef': return
            if ty.k=='struct':
                for (t,x),oo in zip(v[1],m.offsets(ty)): go(t,x,off+oo)
            elif ty.k=='arr':
                es=m.size(ty.b)
                if v[0]=='str':
                    for i,b in enumerate(v[1]): c.d[off+i]=(1,b)
                else:
                    for i,(t,x) in enumerate(v[1]): go(t,x,off+i*es)
            else: c.d[off]=(m.size(ty),s.cval(st,v,ty,m))
        go(ty,init,0)
        return c
    def cval(s,st,v,ty,mod):
        k=v[0]
        if k=='int':
            if ty.k=='int':
                if ty.a==1: return bool(v[1]&1)
                return v[1]&mask(ty.a)
            if ty.k in('float','double'): return z3.FPVal(float(v[1]),F32S if ty.k=='float' else F64S)
            return v[1]
        if k=='null': return NULL
        if k=='glob': return s.globj(st,v[1],mod)
        if k=='undef':
            ty=mod.resolve(ty)
            if ty.k=='struct': return tuple(s.cval(st,('undef',),t,mod) for t in ty.a)
            if ty.k=='int': return freshb('undef') if ty.a==1 else fresh('undef',ty.a)
            if ty.k=='ptr': return P(None,fresh('undef'))
            if ty.k in('float','double'): return z3.FP('undef!%d'%uid(),F32S if ty.k=='float' else F64S)
            return None
        if k=='zero':
            ty=mod.resolve(ty)
            if ty.k=='int': return False if ty.a==1 else 0
            if ty.k=='ptr': return NULL
            if ty.k=='struct': return tuple(s.cval(st,('zero',),t,mod) for t in ty.a)
            if ty.k=='arr': return tuple(s.cval(st,('zero',),ty.b,mod) for _ in range(ty.a))
            if ty.k in('float','double'): return z3.FPVal(0,F32S if ty.k=='float' else F64S)
        if k=='fp':
            s.fp=True
            return z3.FPVal(v[1],F32S if ty.k=='float' else F64S)
        if k=='ce':
            if v[1]=='getelementptr':
                return s.gep(st,v[2],[(t,s.cval(st,x,t,mod)) for t,x in v[3]],mod)
            if v[1]=='cast':
                x=s.cval(st,v[4],v[3],mod)
                return s.cast(st,v[2],v[3],x,v[5])
            if v[1]=='bin':
                a=s.cval(st,v[4],v[3],mod);b=s.cval(st,v[5],v[3],mod)
                return s.binop(st,v[2],v[3],a,b,())
        if k=='agg': return tuple(s.cval(st,x,t,mod) for t,x in v[1])
        if k=='str': return tuple(v[1])
        if k=='meta': return None
        raise Unsupported('constant '+str(v)[:80])
    def val(s,st,v,ty):
        fr=st.frames[-1]
        if v[0]=='reg': return fr.env[v[1]]
        return s.cval(st,v,ty,fr.f.mod)
    def gep(s,st,bt,ops,mod):
        p=ops[0][1]
        off=p.off
        t0,i0=ops[1]
        def scale(i,ity,k):
            i=i if ity.a==64 else sext(i,ity.a,64)
            return mul(64,i,k)
        off=add(64,off,scale(i0,t0,mod.size(bt)))
        ty=bt
        for (it,i) in ops[2:]:
            ty=mod.resolve(ty)
            if ty.k=='struct':
                off=add(64,off,mod.offsets(ty)[i]); ty=ty.a[i]
            elif ty.k in('arr','vec'):
                off=add(64,off,scale(i,it,mod.size(ty.b))); ty=ty.b
            else: raise Unsupported('gep')
        return P(p.obj,off)
    # ------------------------------------------------------- operations
    def cast(s,st,op,sty,v,ty):
        if op=='zext':
            if sty.a==1: return ite(v,1,0,ty.a)
            return zext(v,sty.a,ty.a)
        if op=='sext':
            if sty.a==1: return ite(v,mask(ty.a),0,ty.a)
            return sext(v,sty.a,ty.a)
        if op=='trunc':
            if ty.a==1:
                if isint(v): return bool(v&1)
                return sbool(z3.Extract(0,0,v)==1)
            return trunc(v,ty.a)
        if op=='ptrtoint':
            x=s.ptoi(v); return x if ty.a==64 else trunc(x,ty.a)
        if op=='inttoptr': return s.itop(st,v if sty.a==64 else zext(v,sty.a,64))
        if op in('bitcast','addrspacecast'): 
            return s.totype(st,v,ty)
        s.fp=True
        if op in('fpext','fptrunc'): return z3.simplify(z3.fpFPToFP(RNE,v,F64S if ty.k=='double' else F32S))
        S=F64S if ty.k=='double' else F32S
        if op=='sitofp': return z3.simplify(z3.fpSignedToFP(RNE,bv(v,sty.a) if sty.a>1 else bv(ite(v,1,0,8),8),S))
        if op=='uitofp': return z3.simplify(z3.fpUnsignedToFP(RNE,bv(v,sty.a) if sty.a>1 else bv(ite(v,1,0,8),8),S))
        if op in('fptosi','fptoui') and v.decl().kind()==z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:    # conversion of an already rounded value: one rounding
            return simp((z3.fpToSBV if op=='fptosi' else z3.fpToUBV)(v.arg(0),v.arg(1),z3.BitVecSort(ty.a)))
        if op=='fptosi': return simp(z3.fpToSBV(RTZ,v,z3.BitVecSort(ty.a)))
        if op=='fptoui': return simp(z3.fpToUBV(RTZ,v,z3.BitVecSort(ty.a)))
        raise Unsupported('cast '+op)
    def binop(s,st,op,ty,a,b,fl):
        ty=ty if ty.k!='named' else ty
        if ty.k in('float','double'):
            s.fp=True
            r={'fadd':lambda:z3.fpAdd(RNE,a,b),'fsub':lambda:z3.fpSub(RNE,a,b),'fmul':lambda:z3.fpMul(RNE,a,b),'fdiv':lambda:z3.fpDiv(RNE,a,b),'frem':lambda:z3.fpRem(a,b)}[op]()
            return z3.simplify(r)
        w=ty.a
        if w==1:
            a_,b_=bz(a),bz(b)
            if op=='and': return sbool(z3.And(a_,b_))
            if op=='or': return sbool(z3.Or(a_,b_))
            if op in('xor','add','sub'): return sbool(z3.Xor(a_,b_))
            raise Unsupported('i1 '+op)
        if 'nsw' in fl and s.opts['nsw'] and op in('add','sub','mul'):
            A,B=bv(a,w),bv(b,w)
            if op=='add': ok=z3.And(z3.BVAddNoOverflow(A,B,True),z3.BVAddNoUnderflow(A,B))
            elif op=='sub': ok=z3.And(z3.BVSubNoOverflow(A,B),z3.BVSubNoUnderflow(A,B,True))
            else: ok=z3.And(z3.BVMulNoOverflow(A,B,True),z3.BVMulNoUnderflow(A,B))
            s.oblige(st,sbool(ok),'no signed overflow')
        if op=='add': return add(w,a,b)
        if op=='sub': return sub(w,a,b)
        if op=='mul': return mul(w,a,b)
        if op in('udiv','sdiv','urem','srem'):
            s.oblige(st,Not(eq(b,0)) if not isint(b) else b!=0,'division by nonzero')
            if isint(a) and isint(b):
                if op=='udiv': return a//b
                if op=='urem': return a%b
                x,y=sgn(a,w),sgn(b,w); q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q
                return (q if op=='sdiv' else x-q*y)&mask(w)
            A,B=bv(a,w),bv(b,w)
            return simp({'udiv':lambda:z3.UDiv(A,B),'sdiv':lambda:A/B,'urem':lambda:z3.URem(A,B),'srem':lambda:z3.SRem(A,B)}[op]())
        if op in('shl','lshr','ashr'):
            s.oblige(st,ult(b,w) if not isint(b) else b<w,'shift amount below operand width')
            if isint(a) and isint(b):
                if op=='shl': return (a<<b)&mask(w)
                if op=='lshr': return a>>b
                return (sgn(a,w)>>b)&mask(w)
            A,B=bv(a,w),bv(b,w)
            return simp({'shl':lambda:A<<B,'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B}[op]())
        if isint(a) and isint(b): return {'and':a&b,'or':a|b,'xor':a^b}[op]
        A,B=bv(a,w),bv(b,w)
        return simp({'and':lambda:A&B,'or':lambda:A|B,'xor':lambda:A^B}[op]())
    def pcmp(s,st,pred,a,b):
        if pred=='ne': return Not(s.pcmp(st,'eq',a,b))
        if a.obj is b.obj:
            x,y=a.off,b.off
            if a.obj is None:
                return {'eq':lambda:eq(x,y),'ult':lambda:ult(x,y),'ule':lambda:ule(x,y),'ugt':lambda:ult(y,x),'uge':lambda:ule(y,x)}[pred]()
            return {'eq':lambda:eq(x,y),'ult':lambda:slt(x,y),'ule':lambda:sle(x,y),'ugt':lambda:slt(y,x),'uge':lambda:sle(y,x),
                    'slt':lambda:slt(x,y),'sle':lambda:sle(x,y),'sgt':lambda:slt(y,x),'sge':lambda:sle(y,x)}[pred]()
        if pred in('ugt','uge'): return s.pcmp(st,{'ugt':'ult','uge':'ule'}[pred],b,a)
        # distinct objects / absolute
        for x,y,sw in((a,b,False),(b,a,True)):
            if x.obj is None and isint(x.off) and x.off==0 and y.obj is not None:
                if pred=='eq' and isint(y.off) and y.off<(1<<62): return False
                if pred=='ule' and not sw: return True
                if pred=='ule' and sw and isint(y.off) and y.off<(1<<62): return False
                if pred=='ult' and sw: return False
                if pred=='ult' and not sw and isint(y.off) and y.off<(1<<62): return True
        if a.obj is not None and b.obj is not None and pred=='eq':
            if a.obj.kind=='fn' or b.obj.kind=='fn': return False
            if isint(a.off) and isint(b.off) and isint(a.obj.size) and isint(b.obj.size) and a.off<a.obj.size and b.off<b.obj.size: return False
        for o in(a.obj,b.obj):
            if o is not None and o.kind=='global' or o is not None and o.kind=='const':
                st.assume(z3.And(z3.UGT(o.base,4096),z3.ULT(o.base,1<<46)))
        if a.obj is not None and b.obj is not None and a.obj.kind!='strdata' and b.obj.kind!='strdata':
            # live objects are disjoint
            if s.live(st,a.obj) and s.live(st,b.obj):
                za,zb=bv(a.obj.size),bv(b.obj.size)
                st.assume(z3.Or(z3.ULE(a.obj.base+za,b.obj.base),z3.ULE(b.obj.base+zb,a.obj.base)))
                if pred=='eq':
                    # zero-sized objects may share an address; otherwise start addresses differ
                    pass
        x,y=bv(s.ptoi(a)),bv(s.ptoi(b))
        return sbool({'eq':lambda:x==y,'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y)}[pred]())
    def icmp(s,st,pred,ty,a,b):
        if isinstance(a,P) or isinstance(b,P):
            if not isinstance(a,P): a=s.itop(st,a)
            if not isinstance(b,P): b=s.itop(st,b)
            return s.pcmp(st,pred,a,b)
        if ty.k=='int' and ty.a==1:
            a,b=ite(a,1,0,8),ite(b,1,0,8)
            if pred[0]=='s': raise Unsupported('signed i1 compare')
        w=ty.a if ty.a>1 else 8
        if isint(a) and isint(b):
            x,y=sgn(a,w),sgn(b,w)
            return {'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b,'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[pred]
        A,B=bv(a,w),bv(b,w)
        return sbool({'eq':lambda:A==B,'ne':lambda:A!=B,'ult':lambda:z3.ULT(A,B),'ule':lambda:z3.ULE(A,B),'ugt':lambda:z3.UGT(A,B),'uge':lambda:z3.UGE(A,B),
            'slt':lambda:A<B,'sle':lambda:A<=B,'sgt':lambda:A>B,'sge':lambda:A>=B}[pred]())
    def fcmp(s,pred,a,b):
        s.fp=True
        un=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        base={'eq':lambda:z3.fpEQ(a,b),'gt':lambda:z3.fpGT(a,b),'ge':lambda:z3.fpGEQ(a,b),'lt':lambda:z3.fpLT(a,b),'le':lambda:z3.fpLEQ(a,b),'ne':lambda:z3.Not(z3.fpEQ(a,b))}
        if pred=='ord': return sbool(z3.Not(un))
        if pred=='uno': return sbool(un)
        c=base[pred[1:]]()
        return sbool(z3.And(z3.Not(un),c) if pred[0]=='o' else z3.Or(un,c))

def fpbits(v):
    """bit pattern of a floating-point value; the pattern it was made from when it is known"""
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_FPA_TO_FP and v.num_args()==1 and z3.is_bv(v.arg(0)): return simp(v.arg(0))
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ITE: return simp(z3.If(v.arg(0),bv(fpbits(v.arg(1)),32),bv(fpbits(v.arg(2)),32)))
    return simp(z3.fpToIEEEBV(v))
class Failed(Exception):
    def __init__(s,o): s.o=o
