"""Loop cutting: modified-set fixpoint, closed forms, Houdini invariants, array templates from the contract."""
from .exec import *

class ArrSpec:
    """content an array is expected to have after the function (from the contract)"""
    def __init__(s,es,node,lo=None,hi=None,oid=None,w=None,dones=()): s.es=es;s.node=node;s.lo=lo;s.hi=hi;s.oid=oid;s.dones=dones
class Fold:
    """F(t): value of an accumulator after t elements. base: value at lo; step(F(t),t)->F(t+1)"""
    def __init__(s,name,w,base,step,lo=0,match=None,mults=(1,),down=False):
        s.f=z3.Function('%s!%d'%(name,uid()),z3.BitVecSort(64),z3.BitVecSort(w)); s.w=w;s.base=base;s.step=step;s.lo=lo;s.match=match;s.mults=mults;s.name=name
    def at(s,t):
        return s.f(bv(t))
    def axioms(s,t,ax):
        """definitional instances around t"""
        t=bv(t); lo=bv(s.lo)
        ax.append(s.f(lo)==bv(s.base,s.w))
        for x in (t,t-1):
            x=z3.simplify(x); q=[]
            e=s.f(z3.simplify(x+1))==bv(s.step(s.f(x),x,q),s.w)
            # guarded: the recursion only runs upwards from lo (keeps the definition consistent)
            ax.append(z3.Implies(z3.And(z3.ULE(lo,x),z3.ULT(x,1<<62)),e))
            ax.extend(q)

class LoopExec(Exec):
    # ------------------------------------------------------------ state differences
    def cellval(s,st,o,off,n=None):
        c=st.mem[o.id][1] if o.id in st.mem else s.globinit[o.id]
        e=c.d.get(off) if isinstance(c,Cells) else None
        if e is None:
            if isinstance(c,Cells) and c.init=='zero' and n: return (n,0)
            if isinstance(c,Cells) and c.init=='sym' and n: return (n,z3.BitVec('sym_%s_%d_%d'%(o.name,off,n),8*n))
            return None
        return e
    def diff(s,H,B,mods):
        """keys of locations whose content differs between header state and back-edge state"""
        out=set()
        for oid,(live,c,o) in B.mem.items():
            if o.kind=='strdata': continue
            if oid not in H.mem:
                if o.kind in('global','const'): hc=s.globinit[oid]; hl=True
                elif not live: continue
                else: raise Unsupported('object allocated inside a loop survives the iteration (%s)'%o.name)
            else: hl,hc,_=H.mem[oid]
            if hl!=live: raise Unsupported('object released inside a loop (%s)'%o.name)
            if c is hc: continue
            if isinstance(c,Cells) and isinstance(hc,Cells):
                for off in set(c.d)|set(hc.d):
                    e=c.d.get(off); g=hc.d.get(off)
                    if e is None:
                        # overwritten with a different layout
                        out.add(('x',o,off)); continue
                    if g is None:
                        if hc.init=='undef': continue
                        g=s.cellval(H,o,off,e[0])
                        if g is not None and same(g[1],e[1]): continue
                        if isinstance(e[1],P) and e[1].obj is None and g is not None and same(e[1].off,g[1]): continue
                        out.add(('c',o,off,e[0])); continue
                    if g[0]!=e[0]: out.add(('x',o,off)); continue
                    if not same(e[1],g[1]): out.add(('c',o,off,e[0]))
            elif isinstance(c,ArrC) and isinstance(hc,ArrC):
                if c.node is not hc.node: s.fltarr(o,c); out.add(('a',o,c.es))
            elif isinstance(c,ArrC): s.fltarr(o,c); out.add(('a',o,c.es))
            elif c is None: pass
            else: raise Unsupported('loop diff')
        for k in set(H.ghost)|set(B.ghost):
            a,b=H.ghost.get(k),B.ghost.get(k)
            if isinstance(b,int) and not isinstance(b,bool) or isinstance(b,z3.BitVecRef):
                if not same(a,b): out.add(('g',k))
            elif k.startswith('~'): pass
            elif not ghost_same(a,b): raise Unsupported('ghost state %s changes in a loop'%k)
        return out
    def fltarr(s,o,c):
        if c.node.w=='f32': s.fltobjs.add(o.id)
    fltobjs=set()
    def getv(s,st,key):
        if key[0]=='g': return st.ghost.get(key[1],0)
        if key[0]=='c':
            e=s.cellval(st,key[1],key[2],key[3])
            return None if e is None else e[1]
    def setv(s,st,key,v):
        if key[0]=='g': st.ghost[key[1]]=v; return
        o=key[1]
        if o.id not in st.mem: s.ensure_glob(st,o)
        c=s.content(st,o).copy(); c.d[key[2]]=(key[3],v); s.setc(st,o,c)
    def term(s,v):
        """scalar term + width of a value (offset for pointers)"""
        if isinstance(v,P): return v.off,64
        if isint(v): return v,None
        if z3.is_bv(v): return v,v.size()
        return None,None
    def width(s,key): return 64 if key[0]=='g' else 8*key[3]
    # ------------------------------------------------------------ the cut
    def cut_loop(s,st,h,blocks,reg,region,base,lname):
        s.cutcount+=1
        if s.opts['refute']: raise Unsupported('cut in refute mode')
        entry=st; entry.reads=set() if entry.reads is None else entry.reads
        myreads=set()
        mods=set(); objkeys={}
        if not s.mute and s.opts.get('debug'): print('CUT',lname,flush=True)
        s.mute+=1
        try:
            rounds=0
            nullable=set()
            while True:
                rounds+=1
                if rounds>12: raise Unsupported('modified set does not stabilise')
                H,vals=s.havoc(entry,mods,None,{},nullable)
                H.reads=myreads
                rs=s.explore(H.fork(),reg,base)
                backs=[y for k,y in rs if k=='back']
                new=set();again=False
                for B in backs: new|=s.diff(H,B,mods)
                # objects of pointer cells must not change
                for B in backs:
                    for key in new|mods:
                        if key[0]=='c':
                            bvv=s.getv(B,key); hv=s.getv(entry,key)
                            if isinstance(bvv,P) and key not in nullable:
                                es=s.elemsize(B,bvv)
                                if es>1 and not s.aligned(bvv.off,es): nullable.add(key); again=True
                            if isinstance(bvv,P) and isinstance(hv,P) and bvv.obj is not hv.obj: 
                                raise Unsupported('pointer changes object in a loop')
                norm_new=set()
                for k in new:
                    if k[0]=='x': raise Unsupported('cell layout changes in a loop')
                    norm_new.add(k)
                if norm_new<=mods and not again: break
                # an object that becomes an array swallows its cells
                mods|=norm_new
                arrs={k[1].id for k in mods if k[0]=='a'}
                mods={k for k in mods if not(k[0]=='c' and k[1].id in arrs)}
            if not backs:
                # body never comes back: no loop on feasible paths
                s.mute-=1
                try:
                    H=entry.fork(); rs=s.explore(H,reg,base)
                finally: s.mute+=1
                res=[]
                for k,y in rs:
                    if k=='exit': res.append(y)
                s.mute-=1
                try:
                    out=[]
                    for k,y in rs:
                        if k=='exit': out+=s.resume_after(y,region,base)
                        elif k=='back': raise Unsupported('unexpected back edge')
                        else: out.append((k,y))
                    return out
                finally: s.mute+=1
            # ---- closed forms
            steps={}
            for key in mods:
                if key[0]=='a': continue
                ds=set(); ok=True
                for B in backs:
                    hv=s.getv(H,key); b=s.getv(B,key)
                    ht,_=s.term(hv); bt,_=s.term(b)
                    if ht is None or bt is None: ok=False;break
                    w=s.width(key)
                    if isinstance(hv,P): w=64
                    d=sub(w,bt,ht) if not(isint(bt) and isint(ht)) else (bt-ht)&mask(w)
                    if not isint(d): ok=False;break
                    ds.add(d)
                if ok and len(ds)==1: steps[key]=ds.pop()
            n=fresh('iter')
            # ---- candidates
            H,vals=s.havoc(entry,mods,n,steps,nullable)
            H.reads=myreads
            H.assume(z3.ULE(n,(1<<62)))
            cands=s.candidates(entry,mods,steps,n,myreads,H,backs)
            ent=lambda key: s.getv(entry,key)
            cur=[c for c in cands]
            # established at entry
            cur=s.filter(entry,cur,lambda c:c.fn(s,ent,0,'entry'),'entry')
            # preserved
            rounds=0
            while True:
                rounds+=1
                H,vals=s.havoc(entry,mods,n,steps,nullable); H.reads=myreads
                H.assume(z3.ULE(n,(1<<62)))
                hv=lambda key: s.getv(H,key)
                for c in cur:
                    x=c.fn(s,hv,n,'head',H)
                    if x is not None and x is not True: H.assume(bz(x))
                rs=s.explore(H.fork(),reg,base)
                backs=[y for k,y in rs if k=='back']
                before=len(cur)
                for B in backs:
                    bvv=lambda key,B=B: s.getv(B,key)
                    cur=s.filter(B,cur,lambda c:c.fn(s,bvv,simp(n+1),'back',B),'back')
                if len(cur)==before: break
                if rounds>15: raise Unsupported('invariants do not stabilise')
            cur=s.prune(entry,cur)
            # ---- array templates
            arrs=[k for k in mods if k[0]=='a']
            choice={}
            strs=[k for k in mods if k[0]!='a' and isinstance(s.getv(entry,k),StrV)] if s.str_specs else []
            arrs=arrs+strs
            if arrs:
                choice=s.choose_arrays(entry,mods,n,steps,cur,arrs,reg,base,myreads,H,nullable)
        finally:
            s.mute-=1
        # ---- final run with all obligations
        H,vals=s.havoc(entry,mods,n,steps,nullable); H.reads=myreads
        H.assume(z3.ULE(n,(1<<62)))
        hv=lambda key: s.getv(H,key)
        for c in cur:
            x=c.fn(s,hv,n,'head',H)
            if x is not None and x is not True: H.assume(bz(x))
        for key,(tm,_) in choice.items(): s.apply_template(H,key,tm,hv,n,entry)
        start=H
        rs=s.explore(H.fork(),reg,base)
        backs=[y for k,y in rs if k=='back']
        if not s.mute:
            for c in cur:
                for ph in ('established','preserved'):
                    o=Obligation('invariant %s %s'%(c.name,ph),lname,s.fname(st)); o.ok=True; s.obs.append(o); s.backends['z3']=s.backends.get('z3',0)+1
            for key in choice:
                for ph in ('established','preserved'):
                    o=Obligation('array invariant (%s) %s'%(choice[key][1],ph),lname,s.fname(st)); o.ok=True; s.obs.append(o); s.backends['z3']=s.backends.get('z3',0)+1
            if s.variants: s.termination(start,backs,mods,entry,n,steps,lname,st,myreads)
            s.loopinfo.append(dict(loop=lname,invariants=[c.name for c in cur],arrays=[v[1] for v in choice.values()],unmatched=[k[1].name for k in mods if k[0]=='a' and k not in choice]))
            if s.opts.get('debug'): print('LOOP',s.loopinfo[-1],'steps',{k[1] if k[0]=='g' else k[1].name:v for k,v in steps.items()},'mods',[(k[0],k[1].name if k[0]!='g' else k[1]) for k in mods],flush=True)
        if entry.reads is not None: entry.reads|=myreads
        out=[]
        for k,y in rs:
            if k=='back': continue
            y.reads=entry.reads
            if k=='exit': out+=s.resume_after(y,region,base)
            else: out.append((k,y))
        return out
    # ------------------------------------------------------------ loops over finitely many control states
    def abs_loop(s,st,h,blocks,reg,region,base,lname):
        """invariant = a finite disjunction of header states: concrete values are kept apart (up to LIMIT per location), every other
        location that changes is arbitrary (objects with a refresh hook: any content their owner's invariant allows). Established by
        exploring the body from every header state until each back edge falls into one of them; path conditions of earlier iterations are forgotten."""
        s.cutcount+=1
        if s.opts['refute']: raise Unsupported('cut in refute mode')
        entry=st; hav=set()
        if s.__dict__.get('loop_entry'): s.loop_entry(s,entry)
        def make(B,pc=True):
            C=B.fork(); C.pc=list(entry.pc); C.reads=entry.reads
            done=set()
            for k in sorted(hav,key=str):
                if k[0]=='g':
                    f=s.__dict__.get('ghost_refresh',{}).get(k[1])
                    C.ghost[k[1]]=f(s,C) if f else fresh('h_'+k[1],C.ghost[k[1]].size() if z3.is_bv(C.ghost.get(k[1])) else 64)
                    continue
                o=k[1]
                if o.refresh is not None and (k[0]=='a' or o.refresh.covers(k[2])):
                    if o.id not in done: done.add(o.id); o.refresh(s,C)
                    continue
                if k[0]=='a':
                    c=s.content(C,o); s.setc(C,o,ArrC(k[2],Base('hav_'+o.name,c.node.w if isinstance(c,ArrC) else 8*k[2]))); continue
                if not isinstance(s.content(C,o),Cells): continue
                e=s.cellval(C,o,k[2],k[3])
                if e is None: continue
                s.setv(C,k,s.fresh_like(C,e[1],8*k[3],k))
            if s.__dict__.get('headfacts'): s.headfacts(s,C)
            return C
        def diff2(H,B):
            out=set()
            for oid,(live,c,o) in B.mem.items():
                if o.kind=='strdata': continue
                if oid not in H.mem:
                    if o.kind in('global','const'): hl,hc=True,s.globinit[oid]
                    elif not live: continue
                    else: raise Unsupported('object allocated inside a loop survives the iteration (%s)'%o.name)
                else: hl,hc,_=H.mem[oid]
                if hl!=live: out.add(('live',o)); continue
                if c is hc or not live: continue
                if isinstance(c,Cells) and isinstance(hc,Cells):
                    for off in set(c.d)|set(hc.d):
                        e=c.d.get(off); g=hc.d.get(off)
                        if g is None or e is None:
                            x=e or g; ini=hc.init if g is None else c.init
                            if ini=='undef' and o.kind=='stack': continue
                            y=s.cellval(H if g is None else B,o,off,x[0])
                            if y is not None and same(y[1],x[1]): continue
                            out.add(('c',o,off,x[0])); continue
                        if g[0]!=e[0]:
                            if not covered(('c',o,off)): raise Unsupported('cell layout changes in a loop')
                            out.add(('c',o,off,e[0])); continue
                        if not same(e[1],g[1]): out.add(('c',o,off,e[0]))
                elif isinstance(c,ArrC):
                    if not(isinstance(hc,ArrC) and hc.node is c.node): out.add(('a',o,c.es))
                elif c is not None: raise Unsupported('loop diff')
            for k in set(H.ghost)|set(B.ghost):
                if k.startswith('~'): continue
                if not ghost_same(H.ghost.get(k),B.ghost.get(k)): out.add(('g',k))
            return out
        def val(S,k):
            if k[0]=='g': return S.ghost.get(k[1])
            if k[0]=='live': return S.mem[k[1].id][0]
            if k[0]=='a': return None
            e=s.cellval(S,k[1],k[2],k[3]); return ('undefined',) if e is None else e[1]
        def concrete(v): return hasattr(v,'absk') and v.absk() is not None or z3.is_bv(v) and any(v.eq(k) for k in s.__dict__.get('keep',())) or isinstance(v,P) and v.obj is None and any(v.off is k or not isint(v.off) and v.off.eq(k) for k in s.__dict__.get('keep',())) or isint(v) or isinstance(v,P) and v.obj is not None and isint(v.off) or isinstance(v,P) and v.obj is None and isint(v.off) or isinstance(v,tuple)
        def vkey(v): return v.absk() if hasattr(v,'absk') else ('P',v.obj.id if v.obj else None,v.off if isint(v.off) else str(v.off)) if isinstance(v,P) else str(v) if z3.is_bv(v) else v
        def absclass(v): return v.absclass() if hasattr(v,'absclass') else None     # refreshed ghost values stay within their class
        def covered(k): return k[0] in('c','a') and k[1].refresh is not None and (k[0]=='a' or k[1].refresh.covers(k[2]))
        s.mute+=1
        try:
            for rounds in range(40):
                heads=[make(entry)]; work=list(heads); again=False
                while work and not again:
                    S=work.pop()
                    for k,B in s.explore(S.fork(),reg,base):
                        if k!='back': continue
                        C=make(B); best=None
                        def free(k,H): return k in hav and not(k[0]=='g' and absclass(val(H,k))!=absclass(val(C,k))) or covered(k) and any(covered(q) and q[1] is k[1] for q in hav)
                        for H in heads:
                            d={k for k in diff2(H,C) if not free(k,H)}
                            # prefer the header state that differs in arbitrary values only
                            r=(len(d)-(0.5 if d and all(k[0]!='live' and not(concrete(val(C,k)) or isinstance(val(C,k),(bool,str)) or val(C,k) is None) for k in d) else 0))
                            if best is None or r<best[2]: best=(d,H,r)
                            if not d: break
                        if not best[0]: continue
                        new=set()
                        for k in best[0]:
                            vals={vkey(val(X,k)) if concrete(val(X,k)) or isinstance(val(X,k),bool) else None for X in heads+[C]}
                            if k[0]=='live' or k in hav: continue
                            if k[0]=='g' and isinstance(val(C,k),(str,tuple)): continue
                            if None in vals or len(vals)>(s.opts['limit'](vals) if 'limit' in s.opts else LIMIT): new.add(k)
                        if new: hav|=new; again=True; break
                        heads.append(C); work.append(C)
                        if s.opts.get('debug'): print('NEWHEAD',len(heads),[[(k[1] if k[0]=='g' else (k[1].name,k[2:]),val(C,k),val(H,k)) for k in diff2(H,C) if not free(k,H)] for H in heads],flush=True)
                        if len(heads)>48: raise Unsupported('too many control states in a loop')
                if not again: break
            else: raise Unsupported('loop states do not stabilise')
            # arbitrary numbers whose difference never changes
            def views(S):
                r={}
                for k in sorted(hav,key=str):
                    if k[0]=='a' or covered(k): continue
                    v=val(S,k)
                    if hasattr(v,'nums'):
                        for nm,t in v.nums(): r[(k,nm)]=t
                    elif isinstance(v,bool) or z3.is_bool(v): continue
                    elif isint(v) or z3.is_bv(v) and v.size()<=64: r[(k,'')]=v if isint(v) else zext(v,v.size(),64)
                    elif isinstance(v,P) and v.obj is not None and v.obj.kind!='fn': r[(k,v.obj.id)]=v.off if isint(v.off) else v.off
                return r
            ev=views(entry); ks=list(ev); rel=[]
            def nm(k): return k[0][1] if k[0][0]=='g' else k[0][1].name.split('#')[0]
            for i,x in enumerate(ks):
                for y in ks[i+1:]: rel.append((x,y,sub(64,ev[x],ev[y]),'-'))
            if len(rel)>60: rel=[]
            if rel and len(ks)<=6 and s.opts.get('bounds'):
                for i,x in enumerate(ks):
                    for y in ks[i+1:]: rel.append((x,y,add(64,ev[x],ev[y]),'+'))
                for x in ks:
                    for T in list(s.terms)+list(s.opts['bounds'] if s.opts['bounds'] is not True else ()):
                        for op,c in(('<',ult(ev[x],T)),('<=',ule(ev[x],T))):
                            if c is True or c is not False and s.quick(entry,bz(Not(c)),3000)[0]=='unsat': rel.append((x,x,T,op)); break
            def facts(S):
                w=views(S); r=[]
                for x,y,d,op in rel: r.append((eq(sub(64,w[x],w[y]),d) if op=='-' else eq(add(64,w[x],w[y]),d) if op=='+' else ult(w[x],d) if op=='<' else ule(w[x],d)) if x in w and y in w else False)
                return r
            while rel:
                gone=set()
                for H in heads:
                    H0=H.fork()
                    for e in facts(H0):
                        if e is not True: H0.assume(bz(e))
                    for k,B in s.explore(H0,reg,base):
                        if k!='back': continue
                        for i,e in enumerate(facts(B)):
                            if i in gone or e is True: continue
                            if e is False or s.quick(B,bz(Not(e)),3000)[0]!='unsat': gone.add(i)
                        if len(gone)==len(rel): break
                    if len(gone)==len(rel): break
                if not gone: break
                rel=[x for i,x in enumerate(rel) if i not in gone]
            for H in heads:
                for e in facts(H):
                    if e is not True: H.assume(bz(e))
            # which counters are not zero in which control state (option nonzero; counters of iterations do not wrap: trusted)
            nz=set(); nzc=[]
            def tail(k,S): return s.cellval(S,k[1],k[2],k[3])[1]
            def head_of(B):
                C=make(B)
                for n,H in enumerate(heads):
                    if not {k for k in diff2(H,C) if not(k in hav and not(k[0]=='g' and absclass(val(H,k))!=absclass(val(C,k))) or covered(k) and any(covered(q) and q[1] is k[1] for q in hav))}: return n
            if s.opts.get('nonzero'):
                nzc=[k for k in hav if k[0]=='c' and k[3] in(4,8) and not covered(k) and all(s.cellval(H,k[1],k[2],k[3]) is not None and z3.is_bv(tail(k,H)) for H in heads)]
                nz={(n,k) for n in range(len(heads)) for k in nzc}
                for k in nzc:
                    v=s.cellval(entry,k[1],k[2],k[3])
                    if v is None or not(isint(v[1]) or z3.is_bv(v[1])): nz={x for x in nz if x[1]!=k}
                    elif eq(v[1],0) is not False: nz.discard((0,k))
                def nzfacts(n,H):
                    for k in {k for _,k in nz}: H.assume(z3.ULT(tail(k,H),1<<31))
                    for m,k in nz:
                        if m==n: H.assume(tail(k,H)!=0)
                while nz:
                    gone=set()
                    for n,H in enumerate(heads):
                        H0=H.fork(); nzfacts(n,H0)
                        for kk,B in s.explore(H0,reg,base):
                            if kk!='back': continue
                            m=head_of(B)
                            for k in {k for _,k in nz}:
                                v=s.cellval(B,k[1],k[2],k[3]); d=None if v is None else simp(bv(v[1],8*k[3])-bv(tail(k,H),8*k[3]))
                                d=None if d is None else d if isint(d) else d.as_long() if z3.is_bv_value(d) else None
                                if d not in(0,1): gone|={x for x in nz if x[1]==k}
                                elif (m,k) in nz and s.quick(B,bz(eq(v[1],0)),3000)[0]!='unsat': gone.add((m,k))
                    if not gone: break
                    nz-=gone
                for n,H in enumerate(heads): nzfacts(n,H)
        finally: s.mute-=1
        out=[];nb=0
        def owners(y):
            """what a header state forgets is what its owner's invariant allows: checked at the entry and at every back edge"""
            for o in {k[1] for k in hav if covered(k)}:
                try: o.refresh(s,y.fork())
                except DeadPath: pass
            for k in hav:
                if k[0]=='g' and k[1] in s.__dict__.get('ghost_refresh',{}):
                    try: s.ghost_refresh[k[1]](s,y.fork())
                    except DeadPath: pass
        owners(entry)
        for H in heads:
            H0=H.fork()
            for k,y in s.explore(H0,reg,base):
                y.reads=entry.reads
                if k=='back':
                    nb+=1
                    owners(y)      # the owners' invariants hold again
                    for e in facts(y): s.oblige(y,e,'values keep their distance in a loop')
                    if nz:
                        m=head_of(y)
                        for n,k in sorted(nz,key=str):
                            if n==m: s.oblige(y,Not(eq(s.cellval(y,k[1],k[2],k[3])[1],0)),'a counter stays positive in a loop')
                    if s.__dict__.get('backhook') and not s.mute:
                        try: s.backhook(s,H,y)
                        except DeadPath: pass
                elif k=='exit': out+=s.resume_after(y,region,base)
                else: out.append((k,y))
        if not s.mute:
            for ph in ('established','preserved'):
                o=Obligation('loop invariant (%d control states) %s'%(len(heads),ph),lname,s.fname(st)); o.ok=True; s.obs.append(o); s.backends['z3']=s.backends.get('z3',0)+1
            s.loopinfo.append(dict(loop=lname,invariants=['%d control states'%len(heads)]+['%s %s %s constant'%(nm(x),op,nm(y)) if op in'+-' else '%s %s bound'%(nm(x),op) for x,y,_,op in rel]+sorted('any '+(k[1] if k[0]=='g' else k[1].name.split('#')[0]) for k in hav),arrays=[],unmatched=[]))
            if s.opts.get('debug'): print('LOOP',s.loopinfo[-1],nb,'back edges',flush=True)
        return out
    def havoc(s,entry,mods,n,steps,nullable):
        H=entry.fork(); vals={}
        for key in sorted(mods,key=lambda k:(k[0],str(k[1]),k[2] if len(k)>2 else 0)):
            if key[0]=='a':
                o,es=key[1],key[2]
                s.ensure_glob(H,o)
                c=s.content(H,o)
                w='f32' if isinstance(c,ArrC) and c.node.w=='f32' or o.id in s.fltobjs else es*8
                s.setc(H,o,ArrC(es,Base('hav_'+o.name,w)))
                continue
            ev=s.getv(entry,key); w=s.width(key)
            if key in steps and n is not None:
                d=steps[key]
                t,_=s.term(ev)
                if isinstance(ev,P): w=64
                k=trunc(n,w) if w<=64 else zext(n,64,w)
                nv=add(w,t,mul(w,k,d))
                v=P(ev.obj,nv) if isinstance(ev,P) else nv
            else:
                v=s.fresh_like(H,ev,w,key,nullable)
            s.setv(H,key,v)
        return H,vals
    def elemsize(s,st,p):
        c=st.mem[p.obj.id][1] if p.obj is not None and p.obj.id in st.mem else None
        return c.es if isinstance(c,ArrC) and c.es in(2,4,8) else 1
    def aligned(s,off,es):
        x=off%es if isint(off) else simp(z3.Extract(es.bit_length()-2,0,off))
        return isint(x) and x==0
    def fresh_like(s,st,ev,w,key,unaligned=()):
        nm='h_%s'%(key[1].name if key[0]!='g' else key[1])
        if isinstance(ev,P):
            es=s.elemsize(st,ev)
            # a pointer into an array of wide elements that stays element-aligned
            if es>1 and key not in unaligned and s.aligned(ev.off,es): return P(ev.obj,mul(64,zext(fresh(nm,60),60,64),es))
            return P(ev.obj,fresh(nm))
        if isint(ev) or z3.is_bv(ev): return fresh(nm,w)
        if z3.is_fp(ev): return z3.FP('%s!%d'%(nm,uid()),ev.sort())
        if isinstance(ev,StrV): return s.str_fresh(st,nm)
        raise Unsupported('havoc of '+str(type(ev)))
    # ------------------------------------------------------------ candidates
    def candidates(s,entry,mods,steps,n,reads,H,backs):
        cs=[]
        keys=[k for k in mods if k[0]!='a']
        objs={o.id:o for (_,_,o) in entry.mem.values()}
        # loop constants
        T=[]   # (term64 z, term64 s, kind, obj)
        seen=set()
        def addT(v,w,obj):
            if v is None: return
            if isint(v): z=v; sx=sext(v,w or 64,64)
            else: z=zext(v,w,64); sx=sext(v,w,64)
            kx=(str(z)[:200],obj.id if obj else None)
            if kx in seen: return
            seen.add(kx); T.append((z,sx,obj))
        modkeys={(k[1].id,k[2]) for k in mods if k[0]=='c'}
        for (oid,off) in sorted(reads):
            o=objs.get(oid)
            if o is None or (oid,off) in modkeys: continue
            c=entry.mem[oid][1]
            e=c.d.get(off) if isinstance(c,Cells) else None
            if e is None: continue
            v=e[1]
            if isinstance(v,P):
                if v.obj is not None: addT(v.off,64,v.obj)
            elif isinstance(v,StrV): addT(v.len,64,None)
            elif isint(v) or z3.is_bv(v):
                if e[0] in (1,4,8,2): addT(v,8*e[0],None)
        for t in s.terms: addT(t,64,None)
        for key in keys:
            v=s.getv(entry,key); t,w=s.term(v)
            if t is None: 
                if isinstance(v,StrV): addT(v.len,64,None)
                continue
            addT(t,s.width(key) if not isinstance(v,P) else 64,v.obj if isinstance(v,P) else None)
        addT(0,64,None)
        def u64(key,get,sg):
            v=get(key); t,_=s.term(v); w=64 if isinstance(v,P) else s.width(key)
            if isint(t): return (sext(t,w,64) if sg else t)
            if w>64: return t
            return sext(t,w,64) if sg else zext(t,w,64)
        for key in keys:
            v=s.getv(entry,key)
            if isinstance(v,StrV):
                # string lengths
                def fs(sx,get,nn,ph,X=None,key=key): 
                    x=get(key); return eq(x.len,add(64,s.getv(entry,key).len,nn)) if isinstance(x,StrV) else False
                cs.append(Cand('strlen grows by one',fs))
                for (z,sx_,ob) in T:
                    if ob is None:
                        cs.append(Cand('strlen<=t',lambda sx,get,nn,ph,X=None,key=key,z=z: ule(get(key).len,z)))
                def fs2(sx,get,nn,ph,X=None,key=key):
                    x=get(key); return ule(x.len,1<<40)
                continue
            t,w=s.term(v)
            if t is None: continue
            ptr=isinstance(v,P); po=v.obj if ptr else None
            nm=key[1].name.split('#')[0] if key[0]!='g' else key[1]
            d=steps.get(key)
            wd=64 if ptr else s.width(key)
            if wd>64: continue
            sd=sgn(d,wd) if d is not None else None
            for tgi,(z,sx,ob) in enumerate(T):
                if ptr and ob is not None and ob is not po: continue
                if not ptr and ob is not None: continue
                es=1
                alts=[(z,sx)]
                if ptr and ob is None:
                    if po is None: pass
                    c=entry.mem[po.id][1] if po is not None and po.id in entry.mem else None
                    if isinstance(c,ArrC) and c.es>1: alts=[(mul(64,z,c.es),mul(64,sx,c.es))]
                dl=[0]
                if sd is not None and sd!=0: dl+=[sd]
                if sd is not None and abs(sd)>1: dl+=[sd-(1 if sd>0 else -1)]
                if sd in (1,-1): dl+=[-sd]
                for (zz,ss) in alts:
                    for dd in dl:
                        zb=add(64,zz,dd&M64); sb=add(64,ss,dd&M64)
                        tag='%s vs %s'%(nm,short(zb))
                        if not ptr and not s.opts.get('lean'):
                            cs.append(Cand('%s <=u'%tag,lambda sx_,get,nn,ph,X=None,key=key,b=zb: ule(u64(key,get,False),b),False,(str(key),tgi,'ule'),dd))
                            cs.append(Cand('%s >=u'%tag,lambda sx_,get,nn,ph,X=None,key=key,b=zb: ule(b,u64(key,get,False)),False,(str(key),tgi,'uge'),-dd))
                        cs.append(Cand('%s <=s'%tag,lambda sx_,get,nn,ph,X=None,key=key,b=sb: sle(u64(key,get,True),b),False,(str(key),tgi,'sle'),dd))
                        cs.append(Cand('%s >=s'%tag,lambda sx_,get,nn,ph,X=None,key=key,b=sb: sle(b,u64(key,get,True)),False,(str(key),tgi,'sge'),-dd))
                    if s.opts.get('lean'): continue
                    if not ptr:
                        cs.append(Cand('iter <= %s'%short(zz),lambda sx_,get,nn,ph,X=None,b=zz: ule(nn,b),False,('iter',zz)))
                        e0,_=s.term(v); z0=zext(e0,wd,64) if not isint(e0) else e0
                        for dif in (sub(64,zz,z0),sub(64,z0,zz),add(64,sub(64,z0,zz),1),add(64,sub(64,zz,z0),1)):
                            cs.append(Cand('iter <= %s'%short(dif),lambda sx_,get,nn,ph,X=None,b=dif: ule(nn,b),False,('iter',dif)))
                    elif sd:
                        e0,_=s.term(v)
                        for dif in (sub(64,zz,e0),sub(64,e0,zz),add(64,sub(64,e0,zz),1)):
                            cs.append(Cand('iter*step <= %s'%short(dif),lambda sx_,get,nn,ph,X=None,b=dif,k=abs(sd): And(ule(nn,b),ule(mul(64,nn,k),b)),False,('iter',dif)))
            # pairs: same displacement
            for k2 in keys:
                if k2 is key or str(k2)<=str(key): continue
                v2=s.getv(entry,k2)
                if isinstance(v2,StrV):
                    continue
                t2,_=s.term(v2)
                if t2 is None or k2 in steps and key in steps: continue
                def pr(sx_,get,nn,ph,X=None,a=key,b=k2):
                    A=u64(a,get,False);Bx=u64(b,get,False); ent=lambda k:s.getv(entry,k)
                    return eq(sub(64,A,u64(a,ent,False)),sub(64,Bx,u64(b,ent,False)))
                if (64 if isinstance(v2,P) else s.width(k2))==wd: cs.append(Cand('%s and %s advance together'%(nm,str(k2[1])),pr))
        for key in keys:   # string length vs counters
            v=s.getv(entry,key)
            if not isinstance(v,StrV): continue
            for k2 in keys:
                v2=s.getv(entry,k2)
                if k2 is key or isinstance(v2,StrV): continue
                t2,_=s.term(v2)
                if t2 is None: continue
                def pr(sx_,get,nn,ph,X=None,a=key,b=k2):
                    ent=lambda k:s.getv(entry,k)
                    return eq(sub(64,get(a).len,ent(a).len),sub(64,u64(b,get,False),u64(b,ent,False)))
                cs.append(Cand('string length advances with %s'%k2[1],pr))
        if s.opts.get('lean') and not [1 for k in keys if k in steps]: return s.morecands(cs,entry,keys,steps,n)
        cs.append(Cand('iter<=2^40',lambda sx_,get,nn,ph,X=None: ule(nn,1<<40)))
        return s.morecands(cs,entry,keys,steps,n)
    def morecands(s,cs,entry,keys,steps,n):
        def u64(key,get,sg):
            v=get(key); t,_=s.term(v); w=64 if isinstance(v,P) else s.width(key)
            if isint(t): return (sext(t,w,64) if sg else t)
            if w>64: return t
            return sext(t,w,64) if sg else zext(t,w,64)
        # folds
        for F in s.folds:
            for key in keys:
                v=s.getv(entry,key)
                if isinstance(v,P): continue
                for tn,tf in s.index_terms(entry,keys,steps,F.mults,[F.lo]):
                    def ff(sx_,get,nn,ph,X=None,F=F,key=key,tf=tf):
                        t=tf(get,nn)
                        if X is not None:
                            ax=[]; F.axioms(t,ax)
                            for a in ax: X.assume(bz(a))
                        else:
                            ax=[];F.axioms(t,ax)
                            for a in ax: entry.assume(bz(a))
                        c=get(key)
                        if isinstance(c,StrV): return eq(bv(c.len),zext(F.at(t),F.w,64))
                        if F.match: return F.match(c,F.at(t),s.width(key))
                        w=s.width(key)
                        if isinstance(c,P) : return False
                        return eq(bv(c,w),zext(F.at(t),F.w,w) if F.w<w else trunc(F.at(t),w))
                    cs.append(Cand('%s == %s(%s)'%(key[1] if key[0]=='g' else key[1].name.split('#')[0],F.name,tn),ff,True))
        for hfn in s.hints:
            cs+=hfn(s,entry,keys,steps,n)
        return cs
    def index_terms(s,entry,keys,steps,mults,los,es=1,obj=None):
        """candidate element-index progress terms: base + m*(v - v0), and hi - m*(v0 - v)"""
        out=[]
        for lo in los:
            for m in mults:
                out.append(('%s+%d*iter'%(short(lo),m),lambda get,nn,lo=lo,m=m: add(64,lo,mul(64,nn,m))))
                out.append(('%s-%d*iter'%(short(lo),m),lambda get,nn,lo=lo,m=m: sub(64,lo,mul(64,nn,m))))
        for key in keys:
            if key in steps: continue
            v=s.getv(entry,key)
            t,_=s.term(v)
            if isinstance(v,StrV): 
                out.append(('len',lambda get,nn,key=key: get(key).len)); continue
            if t is None: continue
            w=64 if isinstance(v,P) else s.width(key)
            if w>64: continue
            if isinstance(v,P):
                c=entry.mem[v.obj.id][1] if v.obj is not None and v.obj.id in entry.mem else None
                pes=c.es if isinstance(c,ArrC) else es
                if v.obj is obj and obj is not None: pes=es
                sh=pes.bit_length()-1
                f=lambda get,nn,key=key,sh=sh: simp(z3.LShR(bv(get(key).off),sh)) if sh else get(key).off
                out.append((key[1].name.split('#')[0]+'.off',f))
                for lo in los:
                    out.append(('lo+d',lambda get,nn,f=f,lo=lo: add(64,lo,sub(64,f(get,nn),f(lambda k:s.getv(entry,k),0)))))
                    out.append(('lo-d',lambda get,nn,f=f,lo=lo: add(64,lo,sub(64,f(lambda k:s.getv(entry,k),0),f(get,nn)))))
            else:
                f=lambda get,nn,key=key,w=w: (lambda x: x if isint(x) else zext(x,w,64))(get(key))
                for m in mults: out.append(('%d*%s'%(m,key[1].name.split('#')[0] if key[0]!='g' else key[1]),lambda get,nn,f=f,m=m: mul(64,f(get,nn),m)))
                for lo in los:
                    if isint(lo) and lo==0: continue
                    for m in mults: out.append(('lo+%d*%s'%(m,key[1].name.split('#')[0] if key[0]!='g' else key[1]),lambda get,nn,f=f,m=m,lo=lo: add(64,lo,mul(64,f(get,nn),m))))
        return out
    def filter(s,st,cur,fn,what):
        # force axiom assumptions first
        exprs=[]
        for c in cur:
            x=fn(c)
            exprs.append(x)
        alive=[(c,x) for c,x in zip(cur,exprs) if x is not False and x is not None]
        keep=[(c,x) for c,x in alive if x is True]
        act=[(c,x) for c,x in alive if x is not True]
        if what=='back' or what=='entry':
            # integer reasoning first; bit-vector solving only for what is left
            if s.opts['deadline'] and time.time()>s.opts['deadline']: raise Unsupported('time budget of the check used up')
            t0=time.time(); cls,lv=s.lia.batch(st.pc,[x for _,x in act]); s.qtime+=time.time()-t0; s.nq+=1
            rest=[]
            for (c,x),r,ex in zip(act,cls,lv):
                if r=='proved': keep.append((c,x))
                elif r=='false' and (ex==0 or (ex==1 and not getattr(c,'fold',False))): continue
                else: rest.append((c,x))
            act=rest
            for _ in range(60):
                if not act: break
                bad=z3.Or([z3.Not(x) for _,x in act])
                r,m=s.check(st,bad,tmo=s.opts.get('houdini_timeout',3000),want_model=True)
                if r=='unsat': break
                if r=='sat':
                    na=[]
                    for c,x in act:
                        v=m.eval(x,model_completion=True)
                        if z3.is_false(v): continue
                        na.append((c,x))
                    if len(na)==len(act):
                        # model evaluation undecided: check one by one
                        na=[(c,x) for c,x in act if s.check(st,z3.Not(x),tmo=3000)=='unsat']
                        act=na; break
                    act=na
                else:
                    act=[(c,x) for c,x in act if s.check(st,z3.Not(x),tmo=1000)=='unsat']
                    break
            else:
                act=[(c,x) for c,x in act if s.check(st,z3.Not(x),tmo=1000)=='unsat']
        keepset={id(c) for c,_ in keep+act}
        return [c for c in cur if id(c) in keepset]
    def quick(s,X,f,tmo):
        if f is False: return 'unsat',None
        f=bz(f)
        r,lv=s.liacheck(X,f,3000)
        if r=='unsat' or (r=='sat' and lv==0 and not s.opts.get('debug')=='2'): return r,None
        return s.check(X,f,tmo=tmo,want_model=True)
    def prune(s,entry,cur):
        """drop syntactic duplicates (keeps queries small)"""
        out=[];seen=set()
        best={}
        for c in cur:
            if c.grp and c.grp[0]!='iter' and (c.grp not in best or c.rank<best[c.grp]): best[c.grp]=c.rank
        for c in cur:
            if c.name in seen: continue
            seen.add(c.name)
            if c.grp and c.grp[0]!='iter' and best[c.grp]<c.rank: continue      # implied by a tighter bound
            out.append(c)
        big=[c for c in out if c.grp and c.grp[0]=='iter']
        if big and any(c.name=='iter<=2^40' for c in out):
            cls,_=s.lia.batch(entry.pc,[bz(ule(1<<40,c.grp[1])) for c in big],400)
            drop={id(c) for c,r in zip(big,cls) if r=='proved'}
            out=[c for c in out if id(c) not in drop]
        return out
    # ------------------------------------------------------------ array templates
    def choose_arrays(s,entry,mods,n,steps,cur,arrs,reg,base,reads,H0,nullable):
        keys=[k for k in mods if k[0]!='a']
        options={}
        for key in arrs:
            if key[0]!='a':
                good=[]
                for sv in s.str_specs:
                    nm='the expected text'; node=sv.node
                    X=entry.fork(); v=s.getv(entry,key); k=fresh('k')
                    e=eq(s.rd(X,v.node,k),s.rd(X,node,k)) if not(isint(v.len) and v.len==0) else True
                    if s.quick(X,And(ult(k,v.len),Not(e)),5000)[0]=='unsat': good.append(StrTmpl(nm,node))
                options[key]=(good,None); continue
            o,es=key[1],key[2]
            opts=[]
            for sp in s.array_specs:
                if sp.es!=es: continue
                if sp.oid is not None and sp.oid!=o.id and sp.oid>=0: continue
                los=[x for x in (sp.lo,sp.hi) if x is not None] or [0]
                mults=s.opts.get('mults',(1,8))
                terms=s.index_terms(entry,keys,steps,mults,los,es,o)
                # pointers into this very object
                for k in keys:
                    v=s.getv(entry,k)
                    if isinstance(v,P) and v.obj is o:
                        sh=es.bit_length()-1
                        for c in (0,1):
                            terms.insert(0,('%s+%d'%(k[1].name.split('#')[0],c),lambda get,nn,k=k,c=c,sh=sh: add(64,simp(z3.LShR(bv(get(k).off),sh)) if sh else get(k).off,c)))
                for tn,tf in terms:
                    for dn in (('prog',) if getattr(sp,'prog',None) else ('below','from')+tuple(range(len(sp.dones)))):
                        opts.append(Tmpl(sp,tn,tf,dn))
            # entry check
            good=[]
            ent=lambda k: s.getv(entry,k)
            ec=s.content(entry,o) if o.id in entry.mem else s.globinit[o.id]
            E=entry.fork()
            flt=isinstance(ec,ArrC) and ec.node.w=='f32' or o.id in s.fltobjs
            ea=s.to_arr(E,o,es,flt); opts=[tm for tm in opts if getattr(tm.sp.node,'w',None) is None or (tm.sp.node.w=='f32')==flt]
            k=fresh('k')
            for tm in opts:
                tm.ea=ea
                X=entry.fork(); ax=[]
                a=s.tmpl_read(tm,ea.node,ent,0,k,ax); b=ea.node.read(k,ax)
                for q in ax: X.assume(q)
                rg=s.in_range(o,es,k)
                e=s.veq(a,b,es)
                if s.quick(X,And(bz(rg),Not(e)),5000)[0]=='unsat': good.append(tm)
            options[key]=(good,ea)
            if s.opts.get('debug'): print('TEMPLATES',o.name,len(opts),'entry-ok',len(good),[ (t.tn,t.dn) for t in good][:12],flush=True)
        cand={k:0 for k in arrs if options[k][0]}
        failed=set(k for k in arrs if not options[k][0])
        if not cand: return {}
        for rnd in range(s.opts.get('tmpl_rounds',80)):
            H,vals=s.havoc(entry,mods,n,steps,nullable); H.reads=reads
            H.assume(z3.ULE(n,1<<62))
            hv=lambda key: s.getv(H,key)
            for c in cur:
                x=c.fn(s,hv,n,'head',H)
                if x is not None and x is not True: H.assume(bz(x))
            for key,i in cand.items():
                s.apply_template(H,key,options[key][0][i],hv,n,entry)
            rs=s.explore(H.fork(),reg,base)
            backs=[y for k,y in rs if k=='back']
            bad=None
            for key,i in cand.items():
                tm=options[key][0][i]; o,es=(key[1],key[2]) if key[0]=='a' else (None,1)
                for B in backs:
                    if key[0]!='a':
                        v=s.getv(B,key)
                        r,mm,e=s.cmp_nodes(B,v.node,lambda k,ax: tm.node.read(k,ax),lambda k: ult(k,v.len),1)
                        if r!='unsat':
                            bad=key
                            if s.opts.get('debug'): print('  string template',tm.sp.name if hasattr(tm,'sp') else tm.nm,'rejected',r,flush=True)
                            break
                        continue
                    bvv=lambda kk,B=B: s.getv(B,kk)
                    bc=s.content(B,o)
                    if not(isinstance(bc,ArrC) and bc.es==es): bad=key;break
                    r,mm,e=s.cmp_nodes(B,bc.node,lambda k,ax: s.tmpl_read(tm,options[key][1].node,bvv,simp(n+1),k,ax),lambda k: s.in_range(o,es,k),es)
                    if r!='unsat':
                        bad=key
                        if s.opts.get('debug'): print('  tmpl',tm.tn,tm.dn,'rejected',r,flush=True)
                        if s.opts.get('debug')=='2' and r=='sat': print(simp(e),'\n  k=',mm,flush=True)
                        break
                if bad: break
            if bad is None or not cand: break
            cand[bad]+=1
            if cand[bad]>=len(options[bad][0]):
                del cand[bad]; failed.add(bad)
                for k in cand: cand[k]=0
        else: cand={}
        return {k:(options[k][0][i],options[k][0][i].label()) for k,i in cand.items()}
    def cmp_nodes(s,B,node,want,rng,es):
        """does node agree with want at every index of the range?  written elements one by one, then everything else"""
        idx=[];nd=node
        while isinstance(nd,Store):
            if not any(same(nd.i,j) for j in idx): idx.append(nd.i)
            nd=nd.prev
        if len(idx)>100: idx=[];nd=node
        k=fresh('k')
        for i,src in [(i,node) for i in idx]+[(k,nd)]:
            X=B.fork(); ax=[]
            c=rng(i)
            if c is False: continue
            if c is not True: X.assume(bz(c))
            w=want(i,ax); g=src.read(i,ax)
            for q in ax: X.assume(bz(q))
            if i is k:
                for j in idx: X.assume(bz(Not(eq(k,j))))
            e=s.veq(w,g,es)
            if e is True: continue
            if e is not False: e=sbool(s.ctxsimp(X,e))
            if e is True: continue
            r,mm=s.quick(X,bz(Not(e)),15000)
            if r!='unsat': return r,mm,e
        return 'unsat',None,None
    def in_range(s,o,es,k):
        sz=o.size
        if o.kind=='strdata': return True
        c=sz//es if isint(sz) else z3.LShR(bv(sz),es.bit_length()-1)
        return ult(k,c)
    def veq(s,a,b,es):
        if not isint(a) and z3.is_fp(a): return sbool(a==b)
        return eq(a,b) if isint(a) or isint(b) else sbool(bv(a,8*es)==bv(b,8*es))
    def tmpl_read(s,tm,entry_node,get,nn,k,ax):
        t=tm.tf(get,nn)
        if tm.dn=='prog': return tm.sp.prog(t).read(k,ax)
        if tm.dn=='below': c=ult(k,t)
        elif tm.dn=='from': c=ule(t,k)
        else: c=tm.sp.dones[tm.dn](k,t,ax)
        a=tm.sp.node.read(k,ax); b=entry_node.read(k,ax)
        return ite(c,a,b,entry_node.w if not isinstance(entry_node.w,str) else 32)
    def apply_template(s,H,key,tm,hv,n,entry):
        if key[0]!='a':
            v=s.getv(H,key); s.setv(H,key,StrV(v.len,tm.node)); return
        o,es=key[1],key[2]; ea=tm.ea
        node=Lam(ea.node.w,lambda i,ax: s.tmpl_read(tm,ea.node,hv,n,i,ax))
        s.setc(H,o,ArrC(es,node))
    # ------------------------------------------------------------ termination
    def termination(s,H,backs,mods,entry,n,steps,lname,st,reads):
        """some measure strictly decreases on every iteration"""
        ob=Obligation('loop terminates (variant)',lname,s.fname(st))
        if not backs: ob.ok=True; s.obs.append(ob); return
        keys=[k for k in mods if k[0]!='a']
        ms=[]
        def t64(v,key,sg):
            t,_=s.term(v); w=64 if isinstance(v,P) else s.width(key)
            if isint(t): return sext(t,w,64) if sg else t
            return sext(t,w,64) if sg else zext(t,w,64)
        consts=[]
        objs={o.id:o for (_,_,o) in entry.mem.values()}
        for (oid,off) in sorted(reads):
            o=objs.get(oid)
            if o is None: continue
            c=entry.mem[oid][1]; e=c.d.get(off) if isinstance(c,Cells) else None
            if e is None: continue
            v=e[1]
            if isinstance(v,P): consts.append(v.off)
            elif isinstance(v,StrV): consts.append(v.len)
            elif (isint(v) or z3.is_bv(v)) and e[0] in(1,2,4,8): consts.append(v if isint(v) else zext(v,8*e[0],64)); consts.append(sext(v,8*e[0],64))
        consts+=list(s.terms)+[1<<40]
        # iteration counter bounded by a loop constant
        for b in consts: ms.append(('%s - iter'%short(b),lambda S,nn,b=b: sub(64,b,nn)))
        for key in keys:
            v=s.getv(entry,key)
            if isinstance(v,StrV) or s.term(v)[0] is None: continue
            if (64 if isinstance(v,P) else s.width(key))>64: continue
            for sg in (False,True):
                ms.append(('v',lambda S,nn,key=key,sg=sg: t64(s.getv(S,key),key,sg)))
                for b in consts: ms.append(('b-v',lambda S,nn,key=key,sg=sg,b=b: sub(64,b,t64(s.getv(S,key),key,sg))))
        for key in keys:
            for k2 in keys:
                if k2 is key: continue
                va,vb=s.getv(entry,key),s.getv(entry,k2)
                if isinstance(va,StrV) or isinstance(vb,StrV) or s.term(va)[0] is None or s.term(vb)[0] is None: continue
                ms.append(('a-b',lambda S,nn,a=key,b=k2: sub(64,t64(s.getv(S,a),a,False),t64(s.getv(S,b),b,False))))
        for extra in s.opts.get('measures',()): ms.append(extra)
        # lexicographic over conditionally executed parts is not needed so far: single measure
        alive=[(nm,m(H,n),[m(B,simp(n+1)) for B in backs]) for nm,m in ms]
        for i,B in enumerate(backs):
            for _ in range(40):
                if not alive: break
                conds=[]
                for nm,a,bs in alive:
                    # strictly smaller, as signed non-negative numbers
                    conds.append(And(slt(bs[i],a),sle(0,a)))
                al2=[(x,c) for x,c in zip(alive,conds) if c is not False]
                act=[(x,c) for x,c in al2 if c is not True]; keep=[x for x,c in al2 if c is True]
                if not act: alive=keep; break
                cls,lv=s.lia.batch(B.pc,[c for _,c in act])
                pr=[x for (x,_),q in zip(act,cls) if q=='proved']
                if pr: alive=keep+pr; break
                act=[(x,c) for (x,c),q,l in zip(act,cls,lv) if not(q=='false' and l==0)]
                if not act: alive=keep; break
                r,m=s.check(B,z3.Or([z3.Not(c) for _,c in act]),tmo=10000,want_model=True)
                if r=='unsat': alive=keep+[x for x,_ in act]; break
                if r=='sat':
                    na=[x for x,c in act if not z3.is_false(m.eval(c,model_completion=True))]
                    if len(na)==len(act): na=[x for x,c in act if s.check(B,z3.Not(c),tmo=2000)=='unsat']
                    alive=keep+na
                else:
                    alive=keep+[x for x,c in act if s.check(B,z3.Not(c),tmo=1500)=='unsat']; break
        ob.ok=bool(alive); ob.why='' if alive else 'sat'
        if alive: s.backends['z3']=s.backends.get('z3',0)+1
        s.obs.append(ob)
        if not alive and s.opts.get('stop_on_fail'): raise Failed(ob)

class Cand:
    __slots__=('name','fn','fold','grp','rank')
    def __init__(s,name,fn,fold=False,grp=None,rank=0): s.name=name;s.fn=fn;s.fold=fold;s.grp=grp;s.rank=rank
class StrTmpl:
    def __init__(s,nm,node): s.nm=nm;s.node=node
    def label(s): return 'text so far is a prefix of '+s.nm
class Tmpl:
    def label(s): return '%s %s'%(s.dn,s.tn)
    def __init__(s,sp,tn,tf,dn): s.sp=sp;s.tn=tn;s.tf=tf;s.dn=dn;s.ea=None
LIMIT=4   # abs_loop: distinct concrete values of one location that are kept apart
def short(x):
    t=str(x).replace('\n',' ')
    return t if len(t)<60 else t[:57]+'...'
def ghost_same(a,b):
    if a is b: return True
    if isinstance(a,dict) and isinstance(b,dict):
        return a.keys()==b.keys() and all(ghost_same(a[k],b[k]) for k in a)
    if isinstance(a,(list,tuple)) and isinstance(b,(list,tuple)): return len(a)==len(b) and all(ghost_same(x,y) for x,y in zip(a,b))
    return same(a,b)
