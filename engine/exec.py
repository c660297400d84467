"""Execution of functions: branches, calls, exceptions, loop cutting."""
from .core import *

class Forks:
    def __init__(s,l): s.l=l        # list of (state, value | Throw)
class Throw:
    def __init__(s,ptr,ti): s.ptr=ptr;s.ti=ti
class Abort(PathEnd):
    def __init__(s,why): s.why=why

class Region:
    def __init__(s,depth,fname,header,blocks): s.depth=depth;s.f=fname;s.header=header;s.blocks=blocks

class Exec(Ctx):
    # ---------------------------------------------------------- driving
    def start(s,st,f,args):
        fr=Frame(f)
        for (ty,nm,at),v in zip(f.params,args): fr.env[nm]=v
        fr.tag='top'
        st.frames.append(fr)
        s.used_funcs.add(f.name)
    def run_function(s,st,f,args):
        """symbolically execute f; returns list of Outcome(kind in ret/throw/abort)"""
        depth=len(st.frames)
        s.start(st,f,args)
        outs=[]
        work=[st]
        while work:
            x=work.pop()
            for k,y in s.advance(x,None,depth):
                if k=='cont': work.append(y)
                elif k in('ret','throw','abort'): outs.append(Outcome(k,y,y.ret)); s.paths+=1
                else: raise Unsupported('kind '+k)
            if len(work)+len(outs)>s.opts['max_paths']: raise Unsupported('too many paths')
        return outs
    def explore(s,st,region,base):
        """run until region exits; returns list of (kind,state) kind in back/exit/ret/throw/abort"""
        res=[];work=[st]
        while work:
            x=work.pop()
            for k,y in s.advance(x,region,base):
                if k=='cont': work.append(y)
                else: res.append((k,y))
            if len(work)+len(res)>s.opts['max_paths']: raise Unsupported('too many paths in loop')
        return res
    def advance(s,st,region,base):
        """execute st until it forks or reaches an end; returns list of (kind,state)"""
        try:
            while True:
                r=s.step(st,region,base)
                if r is None: continue
                return r
        except DeadPath: return []
        except Abort as e:
            st.ret=e.why
            return [('abort',st)]
        except PathEnd: return []
    # ---------------------------------------------------------- control transfer
    def goto(s,st,b,region,base):
        fr=st.frames[-1]
        f=fr.f
        fr.prev=fr.block; src=fr.block
        depth=len(st.frames)
        loops=f.loops()
        # phis
        blk=f.blocks[b]
        env=[]
        ip=0
        while ip<len(blk) and blk[ip].op=='phi':
            for v,pb in blk[ip].a['inc']:
                if pb==src: env.append((blk[ip].dst,s.val(st,v,blk[ip].ty))); break
            ip+=1
        for d,v in env: fr.env[d]=v
        fr.block=b; fr.ip=ip
        if region is not None and depth==region.depth and f is region.f:
            if b==region.header and src in region.blocks: return [('back',st)]
            if b not in region.blocks: return [('exit',st)]
        if b in loops and src not in loops[b]:
            return s.do_loop(st,b,loops[b],region,base)
        return None
    def do_return(s,st,v,region,base):
        fr=st.frames.pop()
        for o in fr.allocas:
            if o.id in st.mem: del st.mem[o.id]
        if len(st.frames)==base:
            st.ret=v; return [('ret',st)]
        cf=st.frames[-1]
        ins=cf.f.blocks[cf.block][cf.ip]
        if fr.tag is not None and fr.tag!='top':
            # continuation installed by a model
            return fr.tag(s,st,v,region,base)
        if ins.dst is not None: cf.env[ins.dst]=v
        return s.after_call(st,ins,region,base)
    def after_call(s,st,ins,region,base):
        cf=st.frames[-1]
        if ins.op=='invoke':
            r=s.goto(st,ins.a['normal'],region,base)
            if r is not None: return r
        else: cf.ip+=1
        if region is not None and len(st.frames)<region.depth: return [('exit',st)]
        return None
    def unwind(s,st,exc,region,base):
        """propagate exception exc=(ptr,typeinfo) from the current call instruction of the top frame"""
        while True:
            fr=st.frames[-1]
            ins=fr.f.blocks[fr.block][fr.ip]
            if ins.op=='invoke':
                st.exc=exc
                r=s.goto(st,ins.a['unwind'],region,base)
                return r if r is not None else [('cont',st)]
            st.frames.pop()
            for o in fr.allocas:
                if o.id in st.mem: del st.mem[o.id]
            if len(st.frames)==base:
                st.ret=exc; return [('throw',st)]
            if region is not None and len(st.frames)<region.depth:
                # continue unwinding outside the region
                r=s.unwind(st,exc,None,base)
                return [('exit' if k=='cont' else k,y) for k,y in r]
    # ---------------------------------------------------------- one instruction
    def step(s,st,region,base):
        fr=st.frames[-1]; f=fr.f
        ins=f.blocks[fr.block][fr.ip]
        op=ins.op; a=ins.a; mod=f.mod
        if op=='alloca':
            cnt=1 if a['count'] is None else s.val(st,a['count'][1],a['count'][0])
            o=s.new(st,ins.dst,mod.size(ins.ty)*cnt if isint(cnt) else mul(64,zext(cnt,cnt.size(),64) if cnt.size()<64 else cnt,mod.size(ins.ty)),'stack',assume=True)
            fr.allocas.append(o); fr.env[ins.dst]=P(o,0)
        elif op=='load': fr.env[ins.dst]=s.load(st,s.val(st,a['p'],PTR),ins.ty,mod)
        elif op=='store': s.store(st,s.val(st,a['p'],PTR),s.val(st,a['v'],ins.ty),ins.ty,mod)
        elif op=='getelementptr':
            fr.env[ins.dst]=s.gep(st,a['bt'],[(t,s.val(st,v,t)) for t,v in a['ops']],mod)
        elif op=='icmp': fr.env[ins.dst]=s.icmp(st,a['pred'],ins.ty,s.val(st,a['x'],ins.ty),s.val(st,a['y'],ins.ty))
        elif op in('call','invoke'): return s.call(st,ins,region,base)
        elif op=='br':
            if a['cond'] is None: return s.goto(st,a['targets'][0],region,base)
            c=s.val(st,a['cond'],I(1))
            if isinstance(c,bool): return s.goto(st,a['targets'][0 if c else 1],region,base)
            out=[]
            t=s.feasible(st,c); e=s.feasible(st,Not(c)) if t else True
            todo=[]
            if t and e: 
                st2=st.fork(); todo=[(st,c,0),(st2,Not(c),1)]
            elif t: todo=[(st,c,0)]
            else: todo=[(st,Not(c),1)]
            if len(todo)==1:
                x,cc,k=todo[0]; x.assume(cc)
                return s.goto(x,a['targets'][k],region,base)
            for x,cc,k in todo:
                x.assume(cc)
                try:
                    r=s.goto(x,a['targets'][k],region,base)
                    out+= r if r is not None else [('cont',x)]
                except Abort as ab:
                    x.ret=ab.why; out.append(('abort',x))
                except PathEnd: pass
            return out
        elif op=='switch':
            v=s.val(st,a['v'],ins.ty); out=[]
            if isint(v):
                for cv,l in a['cases']:
                    if cv&mask(ins.ty.a)==v: return s.goto(st,l,region,base)
                return s.goto(st,a['default'],region,base)
            nots=[]
            for cv,l in a['cases']+[(None,a['default'])]:
                c=(v==cv) if cv is not None else z3.And(*nots)
                if cv is not None: nots.append(v!=cv)
                if s.feasible(st,c):
                    x=st.fork(); x.assume(c)
                    try:
                        r=s.goto(x,l,region,base); out+= r if r is not None else [('cont',x)]
                    except PathEnd: pass
            return out
        elif op=='ret':
            v=None if a['v'] is None else s.val(st,a['v'],ins.ty)
            return s.do_return(st,v,region,base)
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            fr.env[ins.dst]=s.binop(st,op,ins.ty,s.val(st,a['x'],ins.ty),s.val(st,a['y'],ins.ty),a['fl'])
        elif op=='fneg': fr.env[ins.dst]=z3.fpNeg(s.val(st,a['x'],ins.ty))
        elif op=='fcmp': fr.env[ins.dst]=s.fcmp(a['pred'],s.val(st,a['x'],ins.ty),s.val(st,a['y'],ins.ty))
        elif op in('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            fr.env[ins.dst]=s.cast(st,op,a['st'],s.val(st,a['v'],a['st']),ins.ty)
        elif op=='select':
            c=s.val(st,a['c'],I(1)); x=s.val(st,a['x'],ins.ty); y=s.val(st,a['y'],ins.ty)
            if isinstance(c,bool): fr.env[ins.dst]=x if c else y
            elif isinstance(x,P) or isinstance(y,P):
                if x.obj is y.obj: fr.env[ins.dst]=P(x.obj,ite(c,x.off,y.off,64))
                else:
                    out=[]
                    for cc,v in((c,x),(Not(c),y)):
                        if s.feasible(st,cc):
                            z=st.fork(); z.assume(cc); z.frames[-1].env[ins.dst]=v; z.frames[-1].ip+=1; out.append(('cont',z))
                    return out
            else: fr.env[ins.dst]=ite(c,x,y,ins.ty.a if ins.ty.k=='int' else 64)
        elif op=='extractvalue':
            v=s.val(st,a['v'],ins.ty)
            for i in a['ix']: v=v[i]
            fr.env[ins.dst]=v
        elif op=='insertvalue':
            v=s.val(st,a['v'],ins.ty); e=s.val(st,a['e'],a['et'])
            def upd(v,ix):
                l=list(v); l[ix[0]]=e if len(ix)==1 else upd(l[ix[0]],ix[1:]); return tuple(l)
            fr.env[ins.dst]=upd(v,a['ix'])
        elif op=='landingpad':
            ptr,ti=st.exc; sel=0; hit=False
            for cl in a['clauses']:
                if cl[0]=='null': sel=1<<20; hit=True; break
                if cl[0]=='filter': continue
                if cl[0]=='glob' and s.catches(cl[1],ti): sel=s.tid(cl[1]); hit=True; break
            if not hit and not a['cleanup']:
                return s.unwind_from_pad(st,region,base)
            fr.env[ins.dst]=(ptr,sel)
        elif op=='resume':
            v=s.val(st,a['v'],ins.ty)
            exc=st.exc
            # continue unwinding in the caller
            fr=st.frames.pop()
            for o in fr.allocas:
                if o.id in st.mem: del st.mem[o.id]
            if len(st.frames)==base: st.ret=exc; return [('throw',st)]
            if region is not None and len(st.frames)<region.depth:
                r=s.unwind(st,exc,None,base); return [('exit' if k=='cont' else k,y) for k,y in r]
            return s.unwind(st,exc,region,base)
        elif op=='unreachable':
            s.oblige(st,False,'unreachable code is not reached')
            raise DeadPath()
        elif op=='freeze': fr.env[ins.dst]=s.val(st,a['v'],ins.ty)
        elif op=='atomicrmw':
            p=s.val(st,a['p'],PTR); old=s.load(st,p,ins.ty,mod); v=s.val(st,a['v'],ins.ty); w=ins.ty.a
            nv={'add':lambda:add(w,old,v),'sub':lambda:sub(w,old,v),'xchg':lambda:v,'or':lambda:simp(bv(old,w)|bv(v,w)),'and':lambda:simp(bv(old,w)&bv(v,w))}[a['o']]()
            s.store(st,p,nv,ins.ty,mod); fr.env[ins.dst]=old
        elif op=='fence': pass
        else: raise Unsupported('instruction '+op)
        fr.ip+=1
        return None
    def unwind_from_pad(s,st,region,base):
        exc=st.exc
        fr=st.frames.pop()
        for o in fr.allocas:
            if o.id in st.mem: del st.mem[o.id]
        if len(st.frames)==base: st.ret=exc; return [('throw',st)]
        if region is not None and len(st.frames)<region.depth:
            r=s.unwind(st,exc,None,base); return [('exit' if k=='cont' else k,y) for k,y in r]
        return s.unwind(st,exc,region,base)
    TI={}
    BASES={'_ZTISt12out_of_range':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt12length_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error','_ZTISt9exception']}
    def tid(s,ti):
        if ti not in s.TI: s.TI[ti]=len(s.TI)+1
        return s.TI[ti]
    def catches(s,cl,ti):
        return cl==ti or cl in s.BASES.get(ti,()) or cl in s.opts.get('bases',{}).get(ti,()) or any(s.catches(cl,b) for b in s.tibases(ti))
    def tibases(s,ti):
        """classes a thrown class derives from, as its type information says"""
        c=s.__dict__.setdefault('_tib',{})
        if ti not in c:
            c[ti]=set()
            for mm in s.prog.mods:
                if ti and ti in mm.globals: c[ti]|=set(re.findall(r'_ZTI\w+',repr(mm.glob(ti))))-{ti}
        return c[ti]
    # ---------------------------------------------------------- calls
    def call(s,st,ins,region,base):
        fr=st.frames[-1]; mod=fr.f.mod; fnv=ins.a['fn']
        if fnv[0]=='asm': raise Unsupported('inline asm')
        if fnv[0]=='glob': name=fnv[1]
        else:
            p=s.val(st,fnv,PTR)
            if p.obj is None or p.obj.kind!='fn':
                m=s.models.get('*indirect')
                if m: 
                    args=[s.val(st,v,t) for t,v,_ in ins.a['args']]
                    return s.finish_model(st,ins,m(s,st,args,dict(ptr=p,ins=ins)),region,base)
                raise Unsupported('call through unknown function pointer')
            name=p.obj.fn
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            fr.ip+=1; return None
        args=[None if t.k=='meta' else s.val(st,v,t) for t,v,_ in ins.a['args']]
        g=mod.globals.get(name)
        return s.call_named(st,name,args,ins,region,base)
    def find_model(s,name):
        r=s.modelcache.get(name)
        if r is None:
            d=norm(s.prog.dem.get(name,name))
            r=s.models.get(name) or s.models.get(d)
            if r is None:
                for rx,fn in s.models.get('*regex',[]):
                    m=rx.match(d)
                    if m: r=fn; break
            s.modelcache[name]=r or False
        return r or None
    def call_named(s,st,name,args,ins,region,base):
        d=norm(s.prog.dem.get(name,name))
        m=s.find_model(name)
        if m is not None:
            s.used_models.add(d)
            r=m(s,st,args,dict(name=name,dem=d,ins=ins))
            if r is not INLINE:
                return s.finish_model(st,ins,r,region,base)
        c=s.contracts.get(d)
        if c is not None and not (s.target is c) and not c.no_apply:
            s.used_contracts.add(d)
            r=c.apply(s,st,args)
            if r is not INLINE:
                return s.finish_model(st,ins,r,region,base)
        f=s.prog.find(name,st.frames[-1].f.mod)
        if f is None:
            for mm in [st.frames[-1].f.mod]+s.prog.mods:
                if name in mm.globals:
                    g=mm.glob(name)
                    if g[0]=='alias' and g[1][0]=='glob': f=s.prog.find(g[1][1],mm); break
        if f is None: raise Unsupported('external function without a contract: '+d)
        if len(st.frames)>60: raise Unsupported('call depth')
        for fr in st.frames[-12:]:
            pass
        if sum(1 for fr in st.frames if fr.f is f)>s.opts.get('recursion',4): raise Unsupported('recursion in '+d)
        nf=Frame(f)
        if len(args)<len(f.params): raise Unsupported('argument count')
        for (ty,nm,at),v in zip(f.params,args):
            if 'byval' in at: raise Unsupported('byval')
            nf.env[nm]=v
        if f.varargs: nf.env['...']=[(ins.a['args'][k][0],v) for k,v in enumerate(args)][len(f.params):]
        s.used_funcs.add(name)
        st.frames.append(nf)
        return None
    def finish_model(s,st,ins,r,region,base):
        if isinstance(r,Throw):
            return s.unwind(st,(r.ptr,r.ti),region,base)
        if isinstance(r,Forks):
            out=[]
            for x,v in r.l:
                try:
                    q=s.finish_model(x,ins,v,region,base)
                    out+= q if q is not None else [('cont',x)]
                except Abort as ab:
                    x.ret=ab.why; out.append(('abort',x))
                except PathEnd: pass
            return out
        if isinstance(r,PushFrame):
            st.frames.append(r.frame); return None
        if ins.dst is not None: st.frames[-1].env[ins.dst]=r
        return s.after_call(st,ins,region,base)
    def push_call(s,st,f,args,cont=None):
        nf=Frame(f)
        for (ty,nm,at),v in zip(f.params,args): nf.env[nm]=v
        nf.tag=cont
        s.used_funcs.add(f.name)
        return PushFrame(nf)
    # ---------------------------------------------------------- loops
    def do_loop(s,st,h,blocks,region,base):
        fr=st.frames[-1]
        reg=Region(len(st.frames),fr.f,h,blocks)
        lname='%s loop at %s'%(s.fname(st),s.loc(st))
        # 1. complete unrolling when each iteration's continuation is decided
        snap=(len(s.obs),dict(s.backends))
        saved=st.fork()
        maxu=s.opts['refute_k']*1 if s.opts['refute'] else (s.opts['unroll'] or 80)
        symbolic_ok=s.opts['refute'] or s.opts['unroll']
        cur=[st];outs=[];cnt=0;ok=True
        limit=s.opts.get('refute_hard',70) if s.opts['refute'] else maxu
        symb=0
        while cur:
            nxt=[]
            for x in cur:
                rs=s.explore(x,reg,base)
                backs=[y for k,y in rs if k=='back']; ex=[(k,y) for k,y in rs if k!='back']
                if backs and [1 for k,_ in ex if k!='abort']:
                    symb+=1
                    if not symbolic_ok: ok=False; break
                nxt+=backs; outs+=ex
            if not ok: break
            cnt+=1
            if s.opts['refute'] and (symb>maxu or cnt>limit):
                s.dropped+=len(nxt); nxt=[]
            elif cnt>limit and nxt:
                ok=False; break
            if len(nxt)>(400 if symbolic_ok else 40):
                if s.opts['refute']: s.dropped+=len(nxt); nxt=nxt[:50]
                else: ok=False; break
            cur=nxt
        if ok:
            res=[]
            for k,y in outs:
                if k=='exit': 
                    res+=s.resume_after(y,region,base)
                else: res.append((k,y))
            return res
        del s.obs[snap[0]:]; s.backends=snap[1]
        if s.opts.get('loops')=='abstract': return s.abs_loop(saved,h,blocks,reg,region,base,lname)
        return s.cut_loop(saved,h,blocks,reg,region,base,lname)
    def resume_after(s,y,region,base):
        """state that left an inner loop: classify against the outer region"""
        if region is None: 
            # the block reached may itself be a loop header
            fr=y.frames[-1]; 
            return s.enter_block(y,region,base)
        d=len(y.frames)
        if d<region.depth: return [('exit',y)]
        fr=y.frames[-1]
        if d==region.depth and fr.f is region.f and fr.ip==s.first_ip(fr):
            if fr.block==region.header and fr.prev in region.blocks: return [('back',y)]
            if fr.block not in region.blocks: return [('exit',y)]
        return s.enter_block(y,region,base)
    def first_ip(s,fr):
        i=0
        for ins in fr.f.blocks[fr.block]:
            if ins.op!='phi': break
            i+=1
        return i
    def enter_block(s,y,region,base):
        fr=y.frames[-1]; loops=fr.f.loops()
        if fr.ip==s.first_ip(fr) and fr.block in loops and fr.prev is not None and fr.prev not in loops[fr.block]:
            try: return s.do_loop(y,fr.block,loops[fr.block],region,base)
            except Abort as ab: y.ret=ab.why; return [('abort',y)]
            except PathEnd: return []
        return [('cont',y)]
class _Inline: pass
INLINE=_Inline()
class PushFrame:
    def __init__(s,f): s.frame=f
