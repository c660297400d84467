"""Thread-safe containers by lock invariant (monitor) reasoning. Every time the lock of an object is taken for the first time, and after every wait,
the guarded container holds arbitrary contents (whatever the other threads did); every time it is released, and at every wait, the contents
must be unchanged or changed by the operation's one transition. A queue's contents are a sequence: `pop` elements gone from the front of an
arbitrary sequence, elements put in front and behind; a map's contents are the entry of the operation's key (the others are its frame).
Time is a ghost clock in microseconds that never runs backwards; Timeval is used through its contract (property T16).
Properties Q11, Q12, Q13 and T14 share these contracts and differ in the obligations they keep (MODE)."""
from engine.verify import *
from engine.models import MODELS
from . import T16
from .T15 import IRT, fields
ob_all=('Q11','Q12','Q13','T14')
# ------------------------------------------------------------------ state of a container
class Seq:
    """kind: 'any' | 'empty' | 'some' (at least one more element) for what lies behind `pop` removed elements; front/back: elements added"""
    __slots__=('kind','pop','front','back','c')
    def __init__(s,c,kind='any',pop=0,front=(),back=()): s.c=c;s.kind=kind;s.pop=pop;s.front=front;s.back=back
    def same(s,o): return isinstance(o,Seq) and s.c is o.c and s.kind==o.kind and same(s.pop,o.pop) and same(s.front,o.front) and same(s.back,o.back)
    def absk(s):
        """a value that loop headers keep apart"""
        return ('seq',s.kind,s.pop,str(s.front),str(s.back)) if isint(s.pop) and not s.c.all else None
    def nums(s): return [('pop',s.pop)] if s.c.all else []
    def absclass(s): return s.absk() or ('seq','all',str(s.front),str(s.back))
    def but(s,**k):
        r=Seq(s.c,s.kind,s.pop,s.front,s.back)
        for a,v in k.items(): setattr(r,a,v)
        return r
class Cont:
    def __init__(s,V,key,obj,off,typ):
        s.key=key;s.obj=obj;s.off=off;s.typ=typ;s.lock=None;s.var=None;s.n=z3.BitVec('left_'+key,64); s.all=False
        V.volatile.append(s.n)
def cont(V,st,p,what):
    c=V.conts.get((p.obj.id,p.off)) if p.obj is not None and isint(p.off) else None
    if c is None:
        for k in V.conts.values():
            if p.obj is k.obj and isint(p.off) and 'dead:'+k.key in st.ghost: c=k
        if c is None: V.oblige(st,False,'%s of one of the containers in play'%what)
    V.oblige(st,'dead:'+c.key not in st.ghost,'%s of a container that still exists'%what)
    if c.lock is not None and not V.building: V.oblige(st,st.ghost['held:%d'%c.lock]>=1,'the container is used only while its lock is held')
    return c
def seq(V,st,c): return st.ghost['q:'+c.key]
def setq(V,st,c,q): st.ghost['q:'+c.key]=q
def head_const(V,c,j,k=0):
    if (c.key,j,k) not in V.heads: x=V.heads[(c.key,j,k)]=z3.BitVec('element_%s_%d_%d'%(c.key,j,k),64); V.keep.append(x)
    return V.heads[(c.key,j,k)]
def head(V,st,c,q):
    """the first remaining element of the arbitrary part"""
    if c.all:
        i=bv(q.pop); v=V.E(i); st.assume(z3.UGT(v,4096)); return P(None,v)
    j=st.ghost['heads']
    if not isint(q.pop) or q.pop>3: raise Unsupported('more than four elements taken in one critical section')
    x=head_const(V,c,j,q.pop); st.assume(z3.UGT(x,4096)); st.ghost['seen']=True; return P(None,x)
def cases(V,st,c):
    """[(state,nonempty?)]"""
    q=seq(V,st,c)
    if q.front or q.back: return [(st,True)]
    if c.all:
        e=eq(q.pop,c.n); r=[]
        for cond,ne in((e,False),(Not(e),True)):
            if V.feasible(st,bz(cond)): x=st.fork(); x.assume(bz(cond)); r.append((x,ne))
        return r
    if q.kind=='empty': return [(st,False)]
    if q.kind=='some': return [(st,True)]
    x=st.fork(); setq(V,x,c,q.but(kind='empty')); setq(V,st,c,q.but(kind='some')); st.assume(z3.And(z3.UGE(c.n,1),z3.ULT(c.n,1<<31)))
    return [(x,False),(st,True)]
def size(V,st,c):
    q=seq(V,st,c); k=len(q.front)+len(q.back)
    if c.all: return add(64,sub(64,c.n,q.pop),k)
    return k if q.kind=='empty' else add(64,c.n,k)
def qempty(V,st,a,i):
    c=cont(V,st,a[0],'test'); return Forks([(x,not ne) for x,ne in cases(V,st,c)])
def qsize(V,st,a,i):
    c=cont(V,st,a[0],'size'); w=32 if i['dem'].startswith('PointerFIFO') else 64; return Forks([(x,trunc(size(V,x,c),w)) for x,ne in cases(V,st,c)])
def first(V,st,c):
    q=seq(V,st,c)
    if q.front: return P(None,q.front[0]) if not isinstance(q.front[0],P) else q.front[0]
    if q.kind=='empty' and not c.all: return q.back[0]
    if c.all and q.back: raise Unsupported('mixed use in a clearing operation')
    return head(V,st,c,q)
def drop(V,st,c):
    q=seq(V,st,c)
    if q.front: setq(V,st,c,q.but(front=q.front[1:])); return
    if q.kind=='empty' and not c.all: setq(V,st,c,q.but(back=q.back[1:])); return
    if not c.all: head(V,st,c,q)
    if c.all: setq(V,st,c,q.but(pop=add(64,q.pop,1))); return
    setq(V,st,c,q.but(kind='any',pop=q.pop+1)); st.pc=strip(st.pc,[c.n])      # at least the removed one was there
def need(V,st,c,what):
    r=[]
    for x,ne in cases(V,st,c):
        if not ne:
            try: V.oblige(x,False,'%s only when the container is not empty'%what)
            except DeadPath: pass
        else: r.append(x)
    return r
def qget(V,st,a,i):
    c=cont(V,st,a[0],'get'); r=[]
    for x,ne in cases(V,st,c):
        if not ne: r.append((x,NULL))
        else: v=first(V,x,c); drop(V,x,c); r.append((x,v))
    return Forks(r)
def qpeek(V,st,a,i):          # PointerFIFO::front
    c=cont(V,st,a[0],'front'); return Forks([(x,first(V,x,c) if ne else NULL) for x,ne in cases(V,st,c)])
def cellptr(V,st,c,p):
    """the location of the first element (for the reference results of the standard containers); undefined once the element is removed"""
    V.setc(st,c.ref,Cells({0:(8,p)})); return P(c.ref,0)
def noref(V,st,c): V.setc(st,c.ref,Cells())
def qfrontref(V,st,a,i):
    c=cont(V,st,a[0],'front'); return Forks([(x,cellptr(V,x,c,first(V,x,c))) for x in need(V,st,c,'front')])
def qpop(V,st,a,i):
    c=cont(V,st,a[0],'removal'); r=[]
    for x in need(V,st,c,'removal'): drop(V,x,c); noref(V,x,c); r.append((x,None))
    return Forks(r)
def element(V,st,a,i):
    if 'PointerFIFO' in i['dem']: return a[1]
    e=V.load(st,a[1],PTR,V.prog.mods[0]); return e if isinstance(e,P) else P(None,e)
def qput(V,st,a,i):
    c=cont(V,st,a[0],'insertion'); noref(V,st,c); q=seq(V,st,c); setq(V,st,c,q.but(back=q.back+(element(V,st,a,i),)))
def qputfront(V,st,a,i):
    c=cont(V,st,a[0],'insertion in front'); noref(V,st,c); q=seq(V,st,c); setq(V,st,c,q.but(front=(element(V,st,a,i),)+q.front))
def qclear(V,st,a,i):
    c=cont(V,st,a[0],'clearing')
    if not c.all: raise Unsupported('container cleared')
    setq(V,st,c,seq(V,st,c).but(pop=c.n))
def qctor(V,st,a,i):
    c=Cont(V,'%s%d'%(V.cname,len(V.conts)),a[0].obj,a[0].off,'seq'); c.ref=V.new(st,'element reference',8,'heap',Cells(),assume=False); V.conts[(a[0].obj.id,a[0].off)]=c; setq(V,st,c,Seq(c,'empty'))
def qdtor(V,st,a,i):
    c=V.conts.get((a[0].obj.id,a[0].off))
    if c is None: V.oblige(st,False,'destruction of one of the containers in play')
    V.oblige(st,'dead:'+c.key not in st.ghost,'container is destroyed once'); st.ghost['dead:'+c.key]=1
def iterref(V,st,a,i):
    c=cont(V,st,a[0],'iteration'); st.ghost['iter']=('begin' if 'begin' in i['dem'].split('::')[-1] else 'end',c.key); V.itp[st.ghost['iter']]=P(V.iters,8*(1 if 'end' in i['dem'].split('::')[-1] else 0)); return V.itp[st.ghost['iter']]
# ------------------------------------------------------------------ locks and signals
def strip(pc,vs):
    ids={v.get_id() for v in vs}; seen={}
    def has(e):
        k=e.get_id()
        if k in ids: return True
        r=seen.get(k)
        if r is None: r=seen[k]=any(has(x) for x in e.children())
        return r
    return [c for c in pc if not has(c)]
def mutex(V,st,p,what):
    k=V.mutexes.get((p.obj.id,p.off)) if p.obj is not None and isint(p.off) else None
    if k is None: V.oblige(st,False,'%s of one of the locks in play'%what)
    V.oblige(st,'gone:m%d'%k not in st.ghost,'%s of a lock that still exists'%what)
    return k
def advance(V,st):
    """time passes"""
    n=fresh('now'); st.assume(z3.And(z3.UGE(n,bv(st.ghost['now'])),z3.ULT(n,1<<60))); st.ghost['now']=n
def refresh(V,st,k):
    """the lock's containers hold whatever other threads left there"""
    if V.target.alone and st.ghost.get('entered'): return      # nobody else uses an object while it is destroyed
    st.pc=strip(st.pc,V.volatile); unalias(V,st)
    if st.ghost.get('seen'): st.ghost['heads']=st.ghost['heads']+1; st.ghost['seen']=False
    for c in V.conts.values():
        if c.lock==k:
            if c.typ=='seq': setq(V,st,c,Seq(c,'any',0)); noref(V,st,c)
            else: c.fresh(V,st)
            if c.all: st.assume(z3.ULT(c.n,1<<31))
    st.ghost['entered']=1
    st.ghost['empty']=False
def section(V,st,k,wait):
    """the critical section ends (release, or wait): unchanged, or the operation's transition"""
    con=V.target
    for c in V.conts.values():
        if c.lock!=k or 'dead:'+c.key in st.ghost: continue
        if c.typ!='seq': changed_=c.section(V,st,wait); wake(V,st,changed_); continue
        q=seq(V,st,c); un=isint(q.pop) and q.pop==0 and not q.front and not q.back
        if c.all: con.cleared(V,st,c,q,wait); wake(V,st,True); continue
        if un:
            st.ghost['saw:'+c.key]=q.kind
            if c is V.main:
                st.ghost['empty']=q.kind=='empty'; st.ghost['size']=size(V,st,c)
                if q.kind=='some': st.ghost['head']=head(V,st.fork(),c,q)
        else:
            V.oblige(st,not wait,'the contents are not changed before a wait'); con.change(V,st,c,q)
            st.ghost['done']=st.ghost['done']+1
            V.oblige(st,st.ghost['done']==1,'the operation takes effect only once')
        wake(V,st,not un)
    for j in range(len(V.signals)): st.ghost.pop('pend:%d'%j,None)
def wake(V,st,ch):
    """a signal given before the change, but while the lock was held until after it, is as good as one after it"""
    if ch:
        for j in range(len(V.signals)): st.ghost['woken:%d'%j]=max(st.ghost.get('woken:%d'%j,0),st.ghost.get('pend:%d'%j,0))
def m_ctor(V,st,a,i): V.__dict__.setdefault('mobj',{})[a[0].obj.id]=a[0].obj; V.mutexes[(a[0].obj.id,a[0].off)]=len(V.mutexes); st.ghost['held:%d'%(len(V.mutexes)-1)]=0
def m_dtor(V,st,a,i): k=mutex(V,st,a[0],'destruction'); V.oblige(st,st.ghost['held:%d'%k]==0,'a lock is free when it is destroyed'); st.ghost['gone:m%d'%k]=1
def take(V,st,k):
    h=st.ghost['held:%d'%k]
    if h==0: advance(V,st); refresh(V,st,k); st.ghost['read']=None
    st.ghost['held:%d'%k]=h+1
def m_lock(V,st,a,i): take(V,st,mutex(V,st,a[0],'lock'))
def m_trylock(V,st,a,i):
    k=mutex(V,st,a[0],'lock attempt'); x=st.fork(); 
    if st.ghost['held:%d'%k]>=1: take(V,st,k); return True
    take(V,x,k); return Forks([(x,True),(st,False)])
def m_unlock(V,st,a,i):
    k=mutex(V,st,a[0],'unlock'); h=st.ghost['held:%d'%k]; V.oblige(st,h>=1,'unlock of a lock that is held')
    if h==1: section(V,st,k,False)
    st.ghost['held:%d'%k]=h-1
def m_lockcnt(V,st,a,i):
    k=mutex(V,st,a[0],'lock count'); h=st.ghost['held:%d'%k]
    if h: return h
    x=fresh('lockcnt',32); return x if not V.target.lockcnt0 else 0      # another thread may hold it
def signal(V,st,p,what):
    k=V.signals.get((p.obj.id,p.off)) if p.obj is not None and isint(p.off) else None
    if k is None: V.oblige(st,False,'%s of one of the conditions in play'%what)
    V.oblige(st,'gone:s%d'%k not in st.ghost,'%s of a condition that still exists'%what)
    return k
def s_ctor(V,st,a,i): V.signals[(a[0].obj.id,a[0].off)]=len(V.signals)
def s_dtor(V,st,a,i): st.ghost['gone:s%d'%signal(V,st,a[0],'destruction')]=1
def s_signal(V,st,a,i):
    k=signal(V,st,a[0],'signal')
    if st.ghost['done'] or V.main.lock is not None and st.ghost['held:%d'%V.main.lock]:
        w=('woken:%d' if st.ghost['done'] else 'pend:%d')%k; st.ghost[w]=max(st.ghost.get(w,0),2 if 'broadcast' in i['dem'] else 1)
def s_wait(V,st,a,i):
    sg=signal(V,st,a[0],'wait'); k=mutex(V,st,a[1],'wait'); con=V.target
    V.oblige(st,st.ghost['held:%d'%k]==1,'a waiting thread gives its lock up completely')
    for j in range(len(V.mutexes)):
        if j!=k: V.oblige(st,st.ghost['held:%d'%j]==0,'no other lock is held while waiting')
    section(V,st,k,True); con.waits(V,st,k,sg,a[2] if len(a)>2 else None)
    advance(V,st); st.ghost['read']=None
    refresh(V,st,k)
# ------------------------------------------------------------------ time (Timeval by its contract, T16)
def ms(V,x): return zext(x,32,64) if isint(x) or x.size()==32 else x
def t_read(V,st):
    advance(V,st)
    if st.ghost['first'] is None: st.ghost['first']=st.ghost['now']
    st.ghost['read']=st.ghost['now']; st.ghost['~read']=st.ghost['now']; return st.ghost['now']
def t_set(V,st,p,t): V.store_raw(st,p,8,t); st.mem[p.obj.id]; c=V.content(st,p.obj).copy(); c.d[p.off+8]=(8,P(None,fresh('abstract time'))); V.setc(st,p.obj,c)
def t_get(V,st,p): return V.load_raw(st,p,8,I(64))
def t_future(V,st,a,i): n=t_read(V,st); t_set(V,st,a[0],add(64,n,mul(64,1000,ms(V,a[1]))))
def t_now(V,st,a,i): t_set(V,st,a[0],t_read(V,st))
def t_diff(V,st,d):
    r=fresh('msecs'); x=simp(r*1000); st.assume(z3.And(sub(64,d,1000)<x,x<add(64,d,1000),r>-(1<<51),r<(1<<51))); return r
def t_remaining(V,st,a,i): t=t_get(V,st,a[0]); n=t_read(V,st); return t_diff(V,st,sub(64,t,n))
def t_elapsed(V,st,a,i): t=t_get(V,st,a[0]); n=t_read(V,st); return t_diff(V,st,sub(64,n,t))
def t_delta(V,st,a,i): return t_diff(V,st,sub(64,t_get(V,st,a[1]),t_get(V,st,a[0])))
def t_passed(V,st,a,i): t=t_get(V,st,a[0]); n=t_read(V,st); return sbool(z3.UGT(bv(n),bv(t)))
# ------------------------------------------------------------------ elements
def m_delete(V,st,a,i):
    p=a[0]
    if p.obj is not None: return MODELS['operator delete(void*)'](V,st,a,i)
    if isint(p.off) and p.off==0: return
    V.target.freed(V,st,p)
MODELS_=dict(MODELS)
def put(names,f):
    for n in names.split('|'): MODELS_[norm(n)]=f
LST='std::list<Elem*, std::allocator<Elem*> >::'
PQ='std::priority_queue<Elem*, std::vector<Elem*, std::allocator<Elem*> >, PointerCompare<Elem> >::'
for pre in(LST,PQ):
    put(pre+'size() const',qsize); put(pre+'empty() const',qempty); put(pre+'~'+pre.split('<')[0][5:]+'()',qdtor)
put(LST+'list()',qctor); put(LST+'front()|'+LST+'front() const',qfrontref); put(LST+'pop_front()',qpop); put(LST+'push_back(Elem* const&)|'+LST+'push_back(Elem*&&)',qput); put(LST+'push_front(Elem* const&)|'+LST+'push_front(Elem*&&)',qputfront); put(LST+'clear()',qclear)
for m in('begin','end'): put(LST+m+'()|'+LST+m+'() const',iterref)
put(PQ+'priority_queue<std::vector<Elem*, std::allocator<Elem*> >, void>()',qctor); put(PQ+'top() const',qfrontref); put(PQ+'pop()',qpop); put(PQ+'push(Elem* const&)|'+PQ+'push(Elem*&&)',qput)
for n,f in(('PointerFIFO()',qctor),('put(void*)',qput),('push_front(void*)',qputfront),('get()',qget),('front()',qpeek),('size() const',qsize)): put('PointerFIFO::'+n,f)
for n,f in(('Mutex()',m_ctor),('~Mutex()',m_dtor),('lock(char const*, unsigned int)',m_lock),('_lock()',m_lock),('trylock(char const*, unsigned int)',m_trylock),('timedlock(int)',m_trylock),('unlock()',m_unlock),('lockcnt()',m_lockcnt)): put('Mutex::'+n,f)
for n,f in(('Signal()',s_ctor),('~Signal()',s_dtor),('signal()',s_signal),('broadcast()',s_signal),('wait(Mutex&) const',s_wait),('wait(Mutex&, long) const',s_wait)): put('Signal::'+n,f)
for n,f in(('future(unsigned int)',t_future),('Timeval(unsigned int)',t_future),('now()',t_now),('remaining() const',t_remaining),('elapsed() const',t_elapsed),('delta(Timeval const&) const',t_delta),('passed() const',t_passed)): put('Timeval::'+n,f)
put('operator delete(void*)|operator delete(void*, unsigned long)',m_delete)
def volatile_strip(V,st):
    if not any(c.all for c in V.conts.values()): st.pc=strip(st.pc,V.volatile)
def unalias(V,st):
    """terms about the contents of an earlier critical section are no longer about the current one"""
    ids={v.get_id() for v in V.volatile}
    def has(e): return e.get_id() in ids or any(has(x) for x in e.children())
    sub_=[(v,z3.BitVec('stale%d_%s'%(uid(),v),v.size())) for v in V.volatile]
    def fix(v):
        if isinstance(v,P):
            if v.obj is not None and v.obj.id in V.nodes: return P(V.staleobj,v.off)
            o=fix(v.off); return v if o is v.off else P(v.obj,o)
        if isinstance(v,tuple): return tuple(fix(x) for x in v)
        if isinstance(v,z3.ExprRef) and has(v): return simp(z3.substitute(v,*sub_))
        return v
    for f in st.frames:
        for k,v in f.env.items():
            if not isinstance(v,(int,bool)) and v is not None: f.env[k]=fix(v)
    for k in ('size','head','got','flag','old'):
        if k in st.ghost: st.ghost[k]=fix(st.ghost[k])
    for oid,(live,c,o) in list(st.mem.items()):
        if live and isinstance(c,Cells) and o.kind in('stack','heap'):
            for k,(n,v) in list(c.d.items()):
                if not isinstance(v,(int,bool)):
                    w=fix(v)
                    if w is not v: c=c.copy(); c.d[k]=(n,w); V.setc(st,o,c)
def prepare(ctx):
    ctx.mutexes={}; ctx.signals={}; ctx.conts={}; ctx.heads={}; ctx.keep=[]; ctx.volatile=[]; ctx.main=None; ctx.nodes=set(); ctx.staleobj=None; ctx.cname='q'; ctx.building=False; ctx.itp={}; ctx.variants=False
    ctx.E=z3.Function('E!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(64)); ctx.loop_entry=lambda V,st: volatile_strip(V,st); ctx.headfacts=lambda V,st: [st.assume(z3.UGT(x,4096)) for x in V.keep]+[st.assume(z3.ULE(c.var,1)) for c in V.conts.values() if c.typ=='flag'] and None
# ------------------------------------------------------------------ keyed maps
class MapSt:
    """what the map holds for the operation's key: kind 'any' (not looked at yet) | 'absent' | 'present' (value: in the node); orig: at the start of the
    critical section. A destructor goes over all entries instead: kind 'at' (entry number pos) | 'end'; base: entries removed so far"""
    __slots__=('kind','orig','base','pos')
    def __init__(s,kind='any',orig=None,base=0,pos=0): s.kind=kind;s.orig=orig;s.base=base;s.pos=pos
    def absk(s): return ('map',s.kind,s.orig) if s.kind in('any','absent','present') else ('walk',s.kind) if s.kind!='at' else None
    def nums(s): return [('base',s.base),('pos',s.pos)] if s.kind in('at','end') else []
    def absclass(s): return s.absk() or ('walk','at','none removed' if isint(s.base) and s.base==0 else 'all removed')
    def same(s,o): return isinstance(o,MapSt) and s.kind==o.kind and s.orig==o.orig and same(s.base,o.base) and same(s.pos,o.pos)
class MapCont(Cont):
    def setup(s,V,st,key):
        s.opkey=key; s.node=V.new(st,'map entry',48,'heap',Cells(),assume=False); V.staleobj=V.new(st,'map entry that may be gone',48,'heap',Cells(),assume=False); V.nodes.add(s.node.id)
        s.node.guard=s.nodeguard; V.staleobj.guard=s.stale
        s.other=V.new(st,'entry of another key',48,'heap',Cells(),assume=False); s.other.guard=s.otherguard; s.passed=V.new(st,'entry passed by',48,'heap',Cells(),assume=False); s.passed.guard=s.otherguard
    def stale(s,V,st,p,n,what): V.oblige(st,False,'an entry is used only while it is known to be in the map')
    def nodeguard(s,V,st,p,n,what):
        V.oblige(st,seq(V,st,s).kind in('present','at') and not(seq(V,st,s).kind=='end'),'only an entry that is in the map is used'); s.locked(V,st)
        if what!='load' and isint(p.off): V.oblige(st,p.off>=40,'the key of an entry is not written')
    def otherguard(s,V,st,p,n,what): s.locked(V,st); V.oblige(st,what=='load','only the entry of the given key is changed')
    def locked(s,V,st):
        if s.lock is not None and not V.building: V.oblige(st,st.ghost['held:%d'%s.lock]>=1,'the container is used only while its lock is held')
    def fresh(s,V,st):
        V.setc(st,s.other,Cells()); V.setc(st,s.passed,Cells())
        setq(V,st,s,MapSt('any') if not s.all else MapSt('start')); V.setc(st,s.node,Cells())
    def value(s,V,st): return V.content(st,s.node).d[40][1]
    def section(s,V,st,wait):
        q=seq(V,st,s); con=V.target
        if s.all: con.mapcleared(V,st,s,q); return False
        st.ghost['saw']=q.orig
        if q.orig=='present': st.ghost['old']=P(None,head_const(V,s,st.ghost['heads']))
        if q.kind=='any': return False
        if q.kind==q.orig and(q.kind=='absent' or vsame(s.value(V,st),st.ghost['old'])):
            st.ghost['empty']=q.kind=='absent'; con.unchanged(V,st,s,q); return False
        V.oblige(st,not wait,'the contents are not changed before a wait'); con.mchange(V,st,s,q); st.ghost['done']=st.ghost['done']+1
        V.oblige(st,st.ghost['done']==1,'the operation takes effect only once'); return True
    def split(s,V,st):
        q=seq(V,st,s)
        if q.kind!='any': return [st]
        x=st.fork(); setq(V,x,s,MapSt('absent','absent')); setq(V,st,s,MapSt('present','present'))
        v=head_const(V,s,st.ghost['heads']); st.assume(z3.UGT(v,4096)); st.ghost['seen']=True
        st.assume(z3.And(z3.UGE(s.n,1),z3.ULT(s.n,1<<31)))
        V.setc(st,s.node,Cells({32:(4,s.opkey),40:(8,P(None,v))})); return [x,st]
    def at(s,V,st,pos,base):
        """[states] with the cursor at entry number pos, or at the end"""
        r=[]; e=eq(pos,s.n)
        for cond,end in((e,True),(Not(e),False)):
            if V.feasible(st,bz(cond)):
                x=st.fork(); x.assume(bz(cond)); setq(V,x,s,MapSt('end' if end else 'at',None,base,pos))
                if not end: v=V.E(bv(pos)); x.assume(z3.UGT(v,4096)); V.setc(x,s.node,Cells({32:(4,fresh('key',32)),40:(8,P(None,v))}))
                else: V.setc(x,s.node,Cells())
                r.append((x,P(s.obj,s.off+8) if end else P(s.node,0)))
        return r
def vsame(x,y):
    x=x if isinstance(x,P) else P(None,x); y=y if isinstance(y,P) else P(None,y); return x.obj is y.obj and same(x.off,y.off)
def mcont(V,st,p,what,key=None):
    c=cont(V,st,p,what)
    if key is not None and not V.building:
        V.oblige(st,eq(V.load(st,key,I(32),V.prog.mods[0]),c.opkey),'only the entry of the given key is touched')
    return c
def map_ctor(V,st,a,i):
    c=MapCont(V,'%s%d'%(V.cname,len(V.conts)),a[0].obj,a[0].off,'map'); c.setup(V,st,None); V.conts[(a[0].obj.id,a[0].off)]=c; setq(V,st,c,MapSt('absent','absent'))
def map_find(V,st,a,i):
    c=mcont(V,st,a[0],'search',a[1]); return Forks([(x,P(c.node,0) if seq(V,x,c).kind=='present' else P(c.obj,c.off+8)) for x in c.split(V,st)])
def map_count(V,st,a,i):
    c=mcont(V,st,a[0],'search',a[1]); return Forks([(x,1 if seq(V,x,c).kind=='present' else 0) for x in c.split(V,st)])
def map_end(V,st,a,i):
    c=cont(V,st,a[0],'iteration') if not V.target.free_iter else iterc(V,st,a[0]); return P(c.obj,c.off+8)
def iterc(V,st,p): return V.conts[(p.obj.id,p.off)]
def map_begin(V,st,a,i):
    if V.target.free_iter: st.ghost['iter']=('begin',iterc(V,st,a[0]).key); V.itp[st.ghost['iter']]=P(V.iters,0); return P(V.iters,0)
    c=cont(V,st,a[0],'iteration')
    if not c.all: raise Unsupported('iteration over a map')
    q=seq(V,st,c); return Forks(c.at(V,st,q.base,q.base))
def map_next(V,st,a,i):
    p=V.load(st,a[0],PTR,V.prog.mods[0]); c=V.main
    if not(isinstance(p,P) and p.obj is c.node and c.all): V.oblige(st,False,'an iterator is moved on only from an entry of the map')
    q=seq(V,st,c); V.oblige(st,q.kind=='at','an iterator is not moved beyond the end'); c.locked(V,st); r=[]
    for x,v in c.at(V,st,add(64,q.pos,1),q.base): V.put(x,a[0].obj,a[0].off,8,v) if False else V.store_raw(x,a[0],8,v); r.append((x,a[0]))
    return Forks(r)
def map_nextpost(V,st,a,i):
    p=V.load(st,a[0],PTR,V.prog.mods[0]); c=V.main
    if not(isinstance(p,P) and p.obj is c.node and c.all): raise Unsupported('an iterator is moved on')
    V.setc(st,c.passed,V.content(st,c.node).copy()); st.ghost['~passed']=seq(V,st,c).pos; x=map_next(V,st,a,i); return Forks([(y,P(c.passed,0)) for y,_ in x.l])
def map_lower(V,st,a,i):
    c=mcont(V,st,a[0],'search',a[1]); r=[]
    for x in c.split(V,st):
        if seq(V,x,c).kind=='present': r.append((x,P(c.node,0))); continue
        y=x.fork(); r.append((x,P(c.obj,c.off+8))); k=fresh('another key',32); y.assume(bv(k)>bv(c.opkey)); v=fresh('element of another key',64); y.assume(z3.UGT(v,4096)); y.assume(z3.And(z3.UGE(c.n,1),z3.ULT(c.n,1<<31))); V.setc(y,c.other,Cells({32:(4,k),40:(8,P(None,v))})); r.append((y,P(c.other,0)))
    return Forks(r)
def map_insert(how):
    def f(V,st,a,i):
        M=V.prog.mods[0]; a=list(a); hint=False
        if how=='pair':
            hint=len(a)==3; p=a[-1]; k=p; v=P(p.obj,add(64,p.off,8))
        else:
            if len(a)==4: a.pop(1); hint=True
            k,v=a[1],a[2]
        c=mcont(V,st,a[0],'insertion',k); r=[]
        for x in c.split(V,st):
            q=seq(V,x,c); w=V.load(x,v,PTR,M); new=q.kind=='absent'
            if new: setq(V,x,c,MapSt('present',q.orig)); V.setc(x,c.node,Cells({32:(4,c.opkey),40:(8,w)}))
            elif how=='assign': V.store_raw(x,P(c.node,40),8,w)
            r.append((x,P(c.node,0) if hint else (P(c.node,0),1 if new else 0)))
        return Forks(r)
    return f
def unmodelled(V,st,a,i): raise Unsupported('container function '+i['dem'])
def map_erase(V,st,a,i):
    c=cont(V,st,a[0],'removal'); q=seq(V,st,c)
    if c.all:
        if a[1].obj is c.passed and q.kind in('at','end') and same(q.base,st.ghost.get('~passed')): setq(V,st,c,MapSt(q.kind,None,add(64,q.base,1),q.pos)); return P(c.passed,0)
        if not(a[1].obj is c.node and q.kind=='at' and same(q.base,q.pos)): raise Unsupported('entry erased from the middle')
        b=add(64,q.pos,1); return Forks(c.at(V,st,b,b))
    V.oblige(st,a[1].obj is c.node and q.kind=='present','only an entry that is in the map is removed'); setq(V,st,c,MapSt('absent',q.orig)); V.setc(st,c.node,Cells()); return P(c.obj,c.off+8)
def map_erasekey(V,st,a,i):
    c=mcont(V,st,a[0],'removal',a[1]); r=[]
    for x in c.split(V,st):
        q=seq(V,x,c); r.append((x,1 if q.kind=='present' else 0)); setq(V,x,c,MapSt('absent',q.orig)); V.setc(x,c.node,Cells())
    return Forks(r)
def map_at(V,st,a,i):
    c=mcont(V,st,a[0],'insertion',a[1]); r=[]
    for x in c.split(V,st):
        q=seq(V,x,c)
        if q.kind=='absent': setq(V,x,c,MapSt('present',q.orig)); V.setc(x,c.node,Cells({32:(4,c.opkey),40:(8,NULL)}))
        r.append((x,P(c.node,40)))
    return Forks(r)
def map_clear(V,st,a,i):
    c=cont(V,st,a[0],'clearing')
    if not c.all: raise Unsupported('map cleared')
    setq(V,st,c,MapSt('end',None,c.n,c.n)); V.setc(st,c.node,Cells())
def map_size(V,st,a,i):
    c=cont(V,st,a[0],'size'); q=seq(V,st,c)
    if c.all: n=sub(64,c.n,q.base)
    elif q.kind==q.orig or q.kind=='any': n=c.n; st.ghost['size']=n
    else: raise Unsupported('size of a changed map')
    return n if 'empty' not in i['dem'] else sbool(eq(n,0)) if not isint(n) else n==0
MAP='std::map<int, Elem*, std::less<int>, std::allocator<std::pair<int const, Elem*> > >::'
IT='std::_Rb_tree_iterator<std::pair<int const, Elem*> >'
put(MAP+'map()',map_ctor); put(MAP+'~map()',qdtor); put(MAP+'find(int const&)|'+MAP+'find(int const&) const',map_find); put(MAP+'count(int const&) const',map_count); put(MAP+'end()|'+MAP+'end() const|'+MAP+'cend() const',map_end); put(MAP+'begin()|'+MAP+'begin() const|'+MAP+'cbegin() const',map_begin)
put(MAP+'erase('+IT+')|'+MAP+'erase('+IT.replace('tree_it','tree_const_it')+')',map_erase); put(MAP+'erase(int const&)',map_erasekey); put(MAP+'operator[](int const&)|'+MAP+'operator[](int&&)',map_at); put(MAP+'clear()',map_clear); put(MAP+'size() const|'+MAP+'empty() const',map_size)
put(IT+'::operator++(int)|'+IT.replace('tree_it','tree_const_it')+'::operator++(int)',map_nextpost); put(MAP+'lower_bound(int const&)|'+MAP+'lower_bound(int const&) const',map_lower)
def RX(c,m): return re.compile(r'(?:std::(?!_Rb_tree<|pair<.*::pair\().* )?'+re.escape(norm(c))+m)
MODELS_['*regex']=list(MODELS_.get('*regex',[]))+[(RX(MAP,r'insert\b.*pair<int.*Elem\*>.*\)$'),map_insert('pair')),(RX(MAP,r'(?:try_emplace|emplace)<[^()]*\b(?:const )?[^()]*>\(.*int const&.*\)$'),map_insert('kv')),(RX(MAP,r'insert_or_assign<.*'),map_insert('assign')),(RX(MAP,r''),unmodelled),(RX(LST,''),unmodelled),(RX(PQ,''),unmodelled)]
put(IT+'::operator++()|'+IT.replace('tree_it','tree_const_it')+'::operator++()',map_next)
# ------------------------------------------------------------------ semaphore flag
class FlagCont(Cont):
    """a flag kept in the object itself"""
    def setup(s,V,st):
        s.var=z3.BitVec('flag_'+s.key,8); V.volatile.append(s.var); s.obj.guard=s.guard
    def guard(s,V,st,p,n,what):
        if V.building or not isint(p.off) or not(p.off<s.off+1 and s.off<p.off+n): return
        V.oblige(st,st.ghost['held:%d'%s.lock]>=1,'the flag is used only while its lock is held')
    def val(s,V,st): return V.content(st,s.obj).d[s.off][1]
    def fresh(s,V,st):
        c=V.content(st,s.obj).copy(); c.d[s.off]=(1,s.var); V.setc(st,s.obj,c); st.assume(z3.ULE(s.var,1))
    def section(s,V,st,wait): return V.target.flagsection(V,st,s,s.val(V,st),wait)
# ------------------------------------------------------------------ contracts
class Op(Contract):
    """an operation of one object; held: how often the caller already holds the lock"""
    no_apply=True; lockcnt0=False; blocking=False; timed=None; kind='read'; wakes=None; wsignal=0; held=0; all=False; alone=False; mode='Q11'; free_iter=False
    def unchanged(s,V,st,c,q): pass
    def ob(s,V,st,tag,c,name):
        if tag is None or s.mode in tag: V.oblige(st,c,name)
        elif c is not True and not isinstance(c,bool): pass
    def ctor(s,V,st,cls,name):
        n=fields(V,'class.'+cls)[1]; o=V.new(st,name,n,'heap',Cells()); V.mute+=1; V.building=True
        try:
            f=V.prog.lookup(s.ctors[cls]); r=V.run_function(st,f,[P(o,0)])
        finally: V.mute-=1; V.building=False
        if len(r)!=1 or r[0].kind!='ret': raise Unsupported('construction of '+cls)
        y=r[0].st
        if y is not st: st.mem=y.mem; st.ghost=y.ghost; st.pc=y.pc
        return o
    ctors={'InterthreadQueue':'InterthreadQueue<Elem, PtrList<Elem> >::InterthreadQueue()','InterthreadQueueWithWait':'InterthreadQueueWithWait<Elem>::InterthreadQueueWithWait()','InterthreadPriorityQueue':'InterthreadPriorityQueue<Elem, std::vector<Elem*, std::allocator<Elem*> >, PointerCompare<Elem> >::InterthreadPriorityQueue()',
        'InterthreadMap':'InterthreadMap<int, Elem>::InterthreadMap()','InterthreadMap1':'InterthreadMap1<int, Elem*>::InterthreadMap1()','Semaphore':'Semaphore::Semaphore()'}
    def ghosts(s,V,st):
        t=fresh('now'); st.assume(z3.And(z3.UGE(t,1<<40),z3.ULT(t,1<<59))); V.now0=t
        st.ghost.update(now=t,read=None,heads=0,done=0,empty=False,seen=False,first=None); st.ghost['~read']=t
        V.iters=V.new(st,'iterators',16,'heap',Cells())
        V.ghost_refresh={'now':s.r_now,'read':s.r_read,'freed':lambda V,st: st.ghost['freed']}
        for c in V.conts.values(): V.ghost_refresh['q:'+c.key]=(lambda V,st,c=c: s.r_seq(V,st,c)) if c.typ=='seq' else (lambda V,st,c=c: s.r_map(V,st,c))
        V.backhook=s.back; V.target=s; s.freedn=V.freedn=z3.BitVec('freed',64)
    def r_now(s,V,st):
        n=fresh('now'); st.assume(z3.And(z3.UGE(n,V.now0),z3.ULT(n,1<<60))); st.ghost['~read']=None; return n
    def r_read(s,V,st): return None
    def r_seq(s,V,st,c):
        q=seq(V,st,c)
        if not c.all: return q
        V.oblige(st,bz(And(ule(q.pop,c.n),not q.front,not q.back)),'elements are removed one after the other')
        p=fresh('removed'); st.assume(z3.ULE(p,c.n))
        if s.kind=='clear': V.oblige(st,eq(st.ghost['freed'],q.pop),'every removed element is released once, in order'); st.ghost['freed']=p
        return q.but(pop=p)
    def back(s,V,H,y): pass
    def change(s,V,st,c,q): V.oblige(st,False,'the operation does not change the container')
    def cleared(s,V,st,c,q,wait):
        V.oblige(st,eq(q.pop,c.n),'all elements are removed'); V.oblige(st,not q.front and not q.back,'nothing is added')
        if s.kind=='clear': V.oblige(st,eq(st.ghost['freed'],c.n),'every element is released exactly once')
        st.ghost['done']=1; st.ghost['empty']=True
    def waits(s,V,st,k,sg,ms): V.oblige(st,False,'the operation does not wait')
    def freed(s,V,st,p):
        if s.kind!='clear': V.oblige(st,False,'no element is released')
        c=V.main; q=seq(V,st,c); f=st.ghost['freed']
        V.oblige(st,ult(f,q.pop),'an element is released only after it was removed'); V.oblige(st,eq(p.off,V.E(bv(f))),'the element released is the one removed'); st.ghost['freed']=add(64,f,1)
    def free_at_end(s,V,out):
        for k in range(len(V.mutexes)): V.oblige(out.st,out.st.ghost['held:%d'%k]==(s.held if k==s.lock else 0),'the lock is released exactly as often as it was taken')
    def settle(s,V,st):
        """end of the operation when the caller still holds the lock: what was done so far"""
        if s.held: section(V,st,s.lock,False)
    def extra(s,V,pre,act,out,args):
        if out.kind!='ret': return
        s.free_at_end(V,out); st=act; s.settle(V,st); s.final(V,st,out.val)
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        st.ghost.update({k:ANY for k in ('iter','freed','got','size','head','flag','old','entered','saw')})
        for k in range(4): st.ghost['woken:%d'%k]=ANY; st.ghost['pend:%d'%k]=ANY; st.ghost['gone:m%d'%k]=ANY; st.ghost['gone:s%d'%k]=ANY
        for c in V.conts.values(): st.ghost['dead:'+c.key]=ANY; st.ghost['saw:'+c.key]=ANY
        return ANY
    def woken(s,V,st,k,n=1): V.oblige(st,st.ghost.get('woken:%d'%k,0)>=n,'the threads waiting for the change are woken after it')
    def inputs(s,V,st,a): return [('obj','str',s.obj),('op','str',s.op)]+([('timeout','term',s.tmo)] if getattr(s,'tmo',None) is not None else [])

    def peq(s,V,st,tag,x,y,name): s.ob(V,st,tag,V.pcmp(st,'eq',x if isinstance(x,P) else P(None,x),y if isinstance(y,P) else P(None,y)),name)
    # timed operations
    def deadline(s,st): return add(64,st.ghost['first'],mul(64,1000,zext(s.tmo,32,64)))
    def timed_wait(s,V,st,ms):
        if ms is None: s.ob(V,st,('T14',),False,'a timed operation never waits without a limit'); return
        r=st.ghost['read']; s.ob(V,st,('T14',),r is not None and st.ghost['first'] is not None,'the clock is read before every wait')
        if r is not None: s.ob(V,st,('T14',),sbool(z3.And(bv(ms)*1000<=sub(64,s.deadline(st),r)+1000,bv(ms)<(1<<52),bv(ms)>-(1<<52))),'the time given to a wait is not more than what is left until the deadline')
    def back(s,V,H,y):
        if s.timed:
            r=y.ghost.get('~read'); s.ob(V,y,('T14',),r is not None,'every round of the loop reads the clock')
            if r is not None: s.ob(V,y,('T14',),sbool(sub(64,r,s.deadline(y))<=1000),'no further round once the deadline has passed')
    def gave_up(s,V,st):
        r=st.ghost.get('~read'); s.ob(V,st,('T14',),r is not None,'gives up only after reading the clock')
        if r is not None: s.ob(V,st,('T14',),sbool(sub(64,r,s.deadline(st))>=-3000),'gives up only at the deadline')
Q='InterthreadQueue<Elem, PtrList<Elem> >::'; W='InterthreadQueueWithWait<Elem>::'; R='InterthreadPriorityQueue<Elem, std::vector<Elem*, std::allocator<Elem*> >, PointerCompare<Elem> >::'
PRE={'queue':Q,'connected':Q,'waitq':W,'prio':R}
CLS={'queue':'InterthreadQueue','connected':'InterthreadQueue','waitq':'InterthreadQueueWithWait','prio':'InterthreadPriorityQueue'}
SIG={'read':'read()','readt':'read(unsigned int)','readt0':'read(unsigned int)','readNoBlock':'readNoBlock()','front':'front() const','peek':'peek()','size':'size() const','write':'write(Elem*)','write_front':'write_front(Elem*)','clear':'clear()','flush':'flushNoDelete()','wait':'wait(unsigned long)','either':'iqWaitForEither(InterthreadQueue<Elem, PtrList<Elem> >&, unsigned int)','eithert':'iqWaitForEither(InterthreadQueue<Elem, PtrList<Elem> >&, unsigned int)','connect':'iqConnect(InterthreadQueue<Elem, PtrList<Elem> >&)','getlock':'qGetLock() const','begin':'begin()','end':'end()','cbegin':'begin() const','cend':'end() const'}
KIND={'read':'read','readt':'read','readt0':'read','readNoBlock':'read','front':'peek','peek':'peek','size':'size','write':'write','write_front':'write','clear':'clear','flush':'flush','dtor':'clear','wait':'wait','either':'wait','eithert':'wait','connect':'none','getlock':'none','begin':'iter','end':'iter','cbegin':'iter','cend':'iter'}
class QOp(Op):
    def __init__(s,mode,obj,op,held=0):
        s.mode=mode;s.obj=obj;s.op=op;s.held=held;s.kind=KIND[op]
        c=CLS[obj]; s.name=PRE[obj]+('~'+c+'()' if op=='dtor' else SIG[op])
        s.title='%s [%s%s]'%(c+'::'+('~'+c+'()' if op=='dtor' else SIG[op]),{'queue':'own lock','connected':'lock shared through iqConnect','waitq':'','prio':''}[obj]+{'readt':', timeout over 0','readt0':', timeout 0','eithert':', timeout over 0','either':', no timeout'}.get(op,''),', lock held by the caller' if held else ''); s.title=s.title.replace('[, ','[').replace(' []','')
        s.timed=op in('readt','eithert'); s.blocking=op in('read','readt','either','eithert','wait'); s.all=s.kind in('clear','flush'); s.alone=op=='dtor'; s.tmo=None
        if s.kind=='iter': s.asserts='allowed'; s.lockcnt0=True
    def setup(s,V,st):
        o=s.o=s.ctor(V,st,CLS[s.obj],'queue'); s.lock=0; s.wsig=0; s.rsig=1 if s.obj=='waitq' else None
        other=None
        if s.obj=='connected' or s.op in('connect','either','eithert'): other=s.other=s.ctor(V,st,CLS[s.obj],'other')
        if s.obj=='connected' or s.op in('either','eithert'):
            V.mute+=1; V.building=True
            try: r=V.run_function(st,V.prog.lookup(Q+SIG['connect']),[P(o,0),P(other,0)])
            finally: V.mute-=1; V.building=False
            if len(r)!=1 or r[0].st is not st: raise Unsupported('iqConnect')
            s.lock=1; s.wsig=1
        V.main=list(V.conts.values())[0]; V.main.all=s.all
        for c in V.conts.values(): c.lock=s.lock
        s.ghosts(V,st); s.base=P(o,0)
        for c in V.conts.values(): setq(V,st,c,Seq(c,'any',0))
        if s.all: st.ghost['freed']=0; st.assume(z3.ULT(V.main.n,1<<31))
        st.ghost['held:%d'%s.lock]=s.held
        a=[P(o,0)]
        if s.kind=='write': s.v=fresh('written'); st.assume(z3.UGT(s.v,4096)); a.append(P(None,s.v))
        if s.op in('readt','readt0','either','eithert'):
            if s.op in('either','eithert'): a.append(P(other,0))
            s.tmo=fresh('timeout',32) if s.timed else 0
            if s.timed: st.assume(s.tmo!=0)
            a.append(s.tmo)
        if s.op=='connect': a.append(P(other,0))
        if s.op=='wait': s.mark=fresh('mark'); a.append(s.mark)
        V.strip_frames=True
        return a
    def change(s,V,st,c,q):
        T=('Q11',)
        if s.kind=='read':
            s.ob(V,st,None,c is V.main and q.pop==1 and not q.front and not q.back,'exactly the first element is removed')
            st.ghost['got']=P(None,head_const(V,c,st.ghost['heads']))
        elif s.kind=='write':
            fr=s.op=='write_front'; add_=q.front if fr else q.back
            s.ob(V,st,None,c is V.main and isint(q.pop) and q.pop==0 and not(q.back if fr else q.front) and len(add_)==1,'exactly one element is added, at the right end')
            if len(add_)==1: s.peq(V,st,None,add_[0],s.v,'the element added is the one given')
        else: V.oblige(st,False,'the operation does not change the container')
    def waits(s,V,st,k,sg,ms):
        s.ob(V,st,('Q11','Q12'),s.blocking,'the operation does not wait')
        s.ob(V,st,('Q12',),sg==(s.rsig if s.op=='wait' else s.wsig) and k==s.lock,'waits for the condition that is signalled by the opposite operation, with the lock that guards it')
        if s.op=='wait': s.ob(V,st,('Q12',),ult(s.mark,size(V,st,V.main)),'waits only while the condition is not met')
        else:
            s.ob(V,st,('Q12',),all(seq(V,st,c).kind=='empty' for c in V.conts.values() if c is V.main or s.op in('either','eithert')),'waits only while there is no element')
        if s.timed: s.timed_wait(V,st,ms)
    def final(s,V,st,ret):
        g=st.ghost; T=('Q11','Q12')
        if s.op in('read',): s.ob(V,st,T,g['done']==1,'a blocking read returns only with an element')
        if s.kind=='read':
            if g['done']: s.peq(V,st,('Q11','T14'),ret,g['got'],'the element returned is the one removed')
            else:
                s.peq(V,st,('Q11','T14'),ret,NULL,'null when no element was removed'); s.ob(V,st,('Q11','T14'),g['empty'],'no element is returned only when there was none')
                if s.timed: s.gave_up(V,st)
            if g['done'] and s.rsig is not None: s.ob(V,st,('Q12',),g.get('woken:%d'%s.rsig,0)>=1,'those waiting for the queue to shrink are woken after the change')
        elif s.kind=='peek':
            s.ob(V,st,None,'saw:'+V.main.key in g,'the queue was looked at')
            k=g['saw:'+V.main.key]
            if k=='empty': s.peq(V,st,('Q11',),ret,NULL,'null when empty')
            else: s.ob(V,st,('Q11',),k=='some','the queue was looked at'); s.peq(V,st,('Q11',),ret,g['head'],'the first element is returned')
        elif s.kind=='size': s.ob(V,st,('Q11',),eq(ret,g.get('size',-1)),'the number of elements is returned')
        elif s.kind=='write':
            s.ob(V,st,('Q11',),g['done']==1,'the element is added'); s.ob(V,st,('Q12',),g.get('woken:%d'%s.wsig,0)>=1,'the readers are woken after the element was added')
        elif s.kind in('clear','flush'):
            s.ob(V,st,('Q11',),g['done']==1,'the queue is emptied')
            if s.rsig is not None and s.op=='clear': s.ob(V,st,('Q12',),g.get('woken:%d'%s.rsig,0)>=1,'those waiting for the queue to shrink are woken after the change')
            if s.op=='dtor':
                s.ob(V,st,('Q11',),'gone:m0' in g,'the lock is destroyed')
        elif s.op=='wait': s.ob(V,st,('Q12',),ule(g['size'],s.mark),'returns only when the queue is short enough')
        elif s.op in('either','eithert'):
            some=any(g.get('saw:'+c.key)=='some' for c in V.conts.values())
            if s.timed:
                if not some: s.gave_up(V,st)
            else: s.ob(V,st,('Q11','Q12'),some,'returns only when there is an element')
        elif s.op=='connect':
            pass
        elif s.op=='getlock': s.peq(V,st,None,ret,s.mutexptr(V),'the lock that guards the queue')
        elif s.kind=='iter':
            s.ob(V,st,None,bool(s.held),'iterators are given out only while the lock is held'); w=('begin' if 'begin' in s.op else 'end',V.main.key)
            s.ob(V,st,('Q11',),g.get('iter')==w,'the right iterator'); 
            if g.get('iter')==w: s.peq(V,st,('Q11',),ret,V.itp[w],'the right iterator')
    def mutexptr(s,V): (o,f)=[k for k,v in V.mutexes.items() if v==s.lock][0]; return P(V.mobj[o],f)
    def spec(s,V,st,a):
        Op.spec(s,V,st,a)
        if s.op=='connect':
            # the pointers to the lock and the condition are those of the other queue
            f,n=fields(V,'class.InterthreadQueue'); ps=f['ptr']; c=V.content(st,s.o).copy(); oc=V.content(st,s.other)
            for k in ps:
                if k in oc.d: c.d[k]=oc.d[k]
            V.setc(st,s.o,c); return None
        if s.kind=='iter' and not s.held: return [(st,ABORT)]
        return ANY
MSIG={'write':'write(int const&, Elem*)','getnb':'getNoBlock(int const&, Elem*&, bool)','gett':'get(int const&, Elem*&, unsigned int, bool)','gett0':'get(int const&, Elem*&, unsigned int, bool)','get':'get(int const&, Elem*&, bool)','remove':'remove(int const&)','readnb':'readNoBlock(int const&) const','readt':'read(int const&, unsigned int) const','readt0':'read(int const&, unsigned int) const','read':'read(int const&) const','size':'size() const','getlock':'qGetLock()','begin':'begin()','end':'end()'}
class MOp(Op):
    """keyed hand-off map; obj 'map' (of pointers: elements are released) or 'map1' (elements are left alone); rem: does the read remove the entry"""
    def __init__(s,mode,obj,op,held=0,rem=None):
        s.mode=mode;s.obj=obj;s.op=op;s.held=held;s.rem=rem; c=s.cls='InterthreadMap' if obj=='map' else 'InterthreadMap1'
        s.name=('InterthreadMap1<int, Elem*>::' if op!='dtor' or obj=='map1' else 'InterthreadMap<int, Elem>::')+(MSIG[op] if op!='dtor' else '~'+c+'()')
        w=[x for x in({'readt':'timeout over 0','gett':'timeout over 0','readt0':'timeout 0','gett0':'timeout 0'}.get(op),None if rem is None else 'removing' if rem else 'peeking','lock held by the caller' if held else None) if x]
        s.title=c+'::'+(MSIG[op] if op!='dtor' else '~'+c+'()')+(' [%s]'%', '.join(w) if w else '')
        s.timed=op in('readt','gett'); s.blocking=op in('read','get','readt','gett'); s.all=s.alone=op=='dtor'; s.kind='map'; s.free_iter=op in('begin','end'); s.tmo=None; s.reads=op in('getnb','gett','gett0','get','readnb','readt','readt0','read'); s.takes=bool(rem) or op=='remove'
    def setup(s,V,st):
        o=s.o=s.ctor(V,st,s.cls,'map'); s.lock=0; s.wsig=0; V.main=c=list(V.conts.values())[0]; c.all=s.all; c.lock=0
        s.ghosts(V,st); s.base=P(o,0); st.ghost['held:0']=s.held; st.ghost['freed']=0; s.key=fresh('key',32); c.opkey=s.key; c.fresh(V,st)
        if s.all: st.assume(z3.ULT(c.n,1<<31))
        a=[P(o,0)]
        if s.op in('write','remove') or s.reads: a.append(P(V.new(st,'key',4,'heap',Cells({0:(4,s.key)})),0))
        if s.op=='write': s.v=fresh('written'); st.assume(z3.UGT(s.v,4096)); a.append(P(None,s.v))
        if s.op in('getnb','gett','gett0','get'): s.res0=P(None,fresh('result_before')); s.res=V.new(st,'result',8,'heap',Cells({0:(8,s.res0)})); a.append(P(s.res,0))
        if s.op in('readt','readt0','gett','gett0'):
            s.tmo=fresh('timeout',32) if s.timed else 0
            if s.timed: st.assume(s.tmo!=0)
            a.append(s.tmo)
        if s.rem is not None: a.append(bool(s.rem))
        V.strip_frames=True; return a
    def old(s,V,st): return P(None,head_const(V,V.main,st.ghost['heads']))
    def freed(s,V,st,p):
        c=V.main
        if s.all: f=st.ghost['freed']; s.ob(V,st,('Q13',),bz(And(ult(f,c.n),eq(p.off,V.E(bv(f))))) if not(isint(f) and False) else True,'a destructor releases every element once, in order'); st.ghost['freed']=add(64,f,1); return
        V.oblige(st,s.obj=='map' and s.op in('write','remove'),'no element is released')
        h=st.ghost['held:0']; was=seq(V,st,c).orig=='present' if h and not st.ghost['done'] else st.ghost.get('saw')=='present'
        V.oblige(st,was,'only an element that was in the map is released'); V.oblige(st,V.pcmp(st,'eq',p,s.old(V,st)),'the element released is the one that was in the map')
        st.ghost['freed']=st.ghost['freed']+1; s.ob(V,st,('Q13',),st.ghost['freed']==1,'an element is released once')
    def unchanged(s,V,st,c,q): V.oblige(st,not st.ghost['freed'],'no element is released while it is still in the map')
    def mchange(s,V,st,c,q):
        if s.op=='write':
            s.ob(V,st,None,q.kind=='present','the element is in the map')
            if q.kind=='present': s.peq(V,st,None,c.value(V,st),s.v,'the element in the map is the one given')
        else:
            s.ob(V,st,None,s.takes and q.kind=='absent' and q.orig=='present','exactly the entry asked for is removed'); st.ghost['got']=st.ghost['old']
    def mapcleared(s,V,st,c,q):
        pass
    def r_map(s,V,st,c):
        q=seq(V,st,c)
        if not s.all: return MapSt('any')
        f=st.ghost['freed']; free=s.obj=='map'
        if q.kind=='end':
            if free: V.oblige(st,eq(f,c.n),'every element is released when the end is reached'); st.ghost['freed']=c.n
            return q
        if q.kind!='at': return q
        if free: V.oblige(st,eq(f,q.pos),'every element passed is released')
        p=fresh('entry'); st.assume(z3.ULT(p,c.n)); none=isint(q.base) and q.base==0; b=0 if none else p
        if not none: V.oblige(st,eq(q.base,q.pos),'entries are removed in order')
        if free: st.ghost['freed']=p
        V.setc(st,c.node,Cells({32:(4,fresh('key',32)),40:(8,P(None,V.E(p)))})); st.assume(z3.UGT(V.E(p),4096)); return MapSt('at',None,b,p)
    def waits(s,V,st,k,sg,ms):
        s.ob(V,st,None,s.blocking,'the operation does not wait')
        s.ob(V,st,('Q12',),sg==s.wsig and k==s.lock,'waits for the condition that insertions signal, with the lock that guards the map')
        s.ob(V,st,('Q12',),seq(V,st,V.main).kind=='absent','waits only while there is no such entry')
        if s.timed: s.timed_wait(V,st,ms)
    def final(s,V,st,ret):
        g=st.ghost; saw=g.get('saw'); T=('Q13','T14')
        if s.op=='write':
            s.ob(V,st,('Q13',),g['done']==1,'the element is put into the map'); s.ob(V,st,('Q13',),s.obj=='map1' or g['freed']==(1 if saw=='present' else 0),'a replaced element is released'); s.ob(V,st,('Q12',),g.get('woken:0',0)>=2,'all waiting readers are woken after the change')
        elif s.op=='remove':
            s.ob(V,st,('Q13',),saw is not None and g['done']==(1 if saw=='present' else 0),'the entry is removed'); s.ob(V,st,('Q13',),s.obj=='map1' or g['freed']==(1 if saw=='present' else 0),'the removed element is released'); s.ob(V,st,('Q13',),eq(one(ret),1 if saw=='present' else 0),'reports whether there was such an entry')
        elif s.reads:
            out=s.op in('getnb','gett','gett0','get'); found=saw=='present'
            if s.op in('read','get'): s.ob(V,st,('Q12','Q13'),found,'a blocking read returns only with an element')
            s.ob(V,st,T,saw is not None,'the map was looked at'); s.ob(V,st,('Q13',),g['done']==(1 if found and s.takes else 0),'exactly the entry asked for is removed')
            if out:
                s.ob(V,st,T,eq(one(ret),1 if found else 0),'reports whether there was such an entry')
                v=V.content(st,s.res).d[0][1]
                s.peq(V,st,T,v,g['old'] if found else s.res0,'the element found is handed over')
            else: s.peq(V,st,T,ret,g['old'] if found else NULL,'the element found is returned, or null')
            if not found and s.timed: s.gave_up(V,st)
            s.ob(V,st,('Q13',),not g['freed'],'no element is released')
        elif s.op=='size': s.ob(V,st,('Q13',),eq(ret,trunc(g['size'],32)) if 'size' in g else False,'the number of entries is returned')
        elif s.op=='getlock': s.peq(V,st,None,ret,s.mutexptr(V),'the lock that guards the map')
        elif s.op in('begin','end'):
            s.peq(V,st,('Q13',),ret,P(V.iters,0) if s.op=='begin' else P(V.main.obj,V.main.off+8),'the right iterator')
        elif s.op=='dtor':
            c=V.main; s.ob(V,st,('Q13',),'dead:'+c.key in g and 'gone:m0' in g and 'gone:s0' in g,'the map, its lock and its condition are destroyed')
            if s.obj=='map': s.ob(V,st,('Q13',),eq(g['freed'],c.n),'every remaining element is released once')
            else: s.ob(V,st,('Q13',),eq(g['freed'],0),'no element is released')
    mutexptr=QOp.mutexptr
    def spec(s,V,st,a):
        Op.spec(s,V,st,a)
        if hasattr(s,'res'): V.setc(st,s.res,Cells({0:(8,ANY)}))
        if s.op=='dtor': c=V.content(st,s.o).copy(); c.d[0]=(8,ANY); V.setc(st,s.o,c)
        return ANY
    def inputs(s,V,st,a): return [('obj','str',s.obj),('op','str',s.op),('rem','str',str(int(bool(s.rem))))]+([('timeout','term',s.tmo)] if s.tmo is not None else [])
def map_tasks(mode):
    t=[]
    for op,rem in [('write',None),('getnb',0),('getnb',1),('gett',0),('gett',1),('gett0',0),('gett0',1),('get',0),('get',1),('remove',None),('readnb',None),('readt',None),('readt0',None),('read',None),('size',None),('getlock',None),('begin',None),('end',None),('dtor',None)]:
        if mode=='Q12' and op not in('write','get','gett','read','readt'): continue
        if mode=='T14' and op not in('gett','readt'): continue
        for held in(0,1):
            if held and(mode!='Q13' or op in('get','gett','read','readt','dtor','getlock','begin','end')): continue
            for obj in('map','map1'):
                if obj=='map1' and(held or op not in('write','remove','dtor') or mode!='Q13'): continue
                t.append(lambda op=op,rem=rem,held=held,obj=obj: MOp(mode,obj,op,held,rem))
    return t
def one(x):
    if isinstance(x,bool) or isint(x): return int(x)
    return zext(ite(x,1,0,8) if z3.is_bool(x) else x,8 if z3.is_bool(x) else x.size(),64)
class SOp(Op):
    """semaphore: post sets the flag and wakes a waiter, get waits until it is set and clears it, semtry tests and clears it"""
    def __init__(s,mode,op):
        s.mode=mode; s.op=op; s.obj='sem'; s.kind='sem'; s.name=s.title='Semaphore::%s()'%op; s.blocking=op=='get'; s.tmo=None; s.timed=False
    def setup(s,V,st):
        o=s.o=s.ctor(V,st,'Semaphore','semaphore'); s.lock=0; s.wsig=0; f,n=fields(V,'class.Semaphore')
        V.cname='flag'; off=f['i8'][0]; c=V.main=FlagCont(V,'flag',o,off,'flag'); c.lock=0; V.conts[(o.id,off)]=c
        v=V.content(st,o).d.get(off); s.start=v[1] if v else None
        s.ghosts(V,st); c.setup(V,st); c.fresh(V,st); V.strip_frames=True
        return [P(o,0)]
    def flagsection(s,V,st,c,v,wait):
        if wait: V.oblige(st,sbool(v==c.var) if not isint(v) else same(v,c.var),'the flag is not changed before a wait'); return False
        if s.op=='post': V.oblige(st,eq(v,1),'the semaphore is posted')
        else:
            V.oblige(st,eq(v,0),'a post is used up')
            if s.op=='get': V.oblige(st,eq(c.var,1),'returns only after a post')
        st.ghost['flag']=c.var; st.ghost['done']=st.ghost['done']+1; V.oblige(st,st.ghost['done']==1,'the operation takes effect only once'); return True
    def r_map(s,V,st,c): return st.ghost.get('q:'+c.key)
    def spec(s,V,st,a):
        Op.spec(s,V,st,a); c=V.content(st,s.o).copy(); c.d[V.main.off]=(1,ANY); V.setc(st,s.o,c); return ANY
    def waits(s,V,st,k,sg,ms):
        V.oblige(st,s.blocking,'the operation does not wait'); V.oblige(st,sg==0 and k==0,'waits for the condition that post signals, with the lock that guards the flag'); V.oblige(st,eq(V.main.val(V,st),0),'waits only while nothing is posted'); V.oblige(st,ms is None,'waits without a limit')
    def final(s,V,st,ret):
        g=st.ghost; V.oblige(st,g['done']==1,'the operation takes effect')
        V.oblige(st,eq(s.start,0) if s.start is not None else False,'a new semaphore is not posted')
        if s.op=='post': V.oblige(st,g.get('woken:0',0)>=1 or eq(g['flag'],1),'the waiting threads are woken after a post')
        if s.op=='semtry': V.oblige(st,eq(one(ret),zext(g['flag'],8,64)),'reports whether there was a post')
class Compare(Contract):
    """PointerCompare: the most urgent element is the one no other is smaller than"""
    name='PointerCompare<Elem>::operator()(Elem const*, Elem const*)'; title=name; no_apply=True
    def setup(s,V,st):
        s.x,s.y=fresh('first',32),fresh('second',32); o=V.new(st,'compare',1,'heap',Cells()); return [P(o,0),P(V.new(st,'e1',4,'heap',Cells({0:(4,s.x)})),0),P(V.new(st,'e2',4,'heap',Cells({0:(4,s.y)})),0)]
    def spec(s,V,st,a): return slt(s.y,s.x,32)
    def inputs(s,V,st,a): return [('obj','str','prio'),('op','str','compare')]
def queue_tasks(mode):
    t=[]
    for obj in('queue','connected','waitq','prio'):
        base=['read','readt','readt0','readNoBlock','size','write','clear','dtor']+{'queue':['front','write_front','flush','connect','getlock','begin','end','cbegin','cend'],'connected':['front','write_front','flush','getlock','begin','end','cbegin','cend','either','eithert'],'waitq':['wait'],'prio':['peek']}[obj]
        for op in base:
            if mode=='Q12' and not(KIND[op] in('read','write','wait') or op=='clear' and obj=='waitq'): continue
            if mode=='T14' and op not in('readt','eithert'): continue
            for held in (0,1):
                if held and (op in('read','readt','dtor','either','eithert','wait','connect','getlock') or mode!='Q11'): continue
                t.append(lambda obj=obj,op=op,held=held: QOp(mode,obj,op,held))
    return t

# ------------------------------------------------------------------ conditions and timed locks: real code against the operating system's interface
class Cond(Contract):
    """Signal and Mutex::timedlock call the operating system with their own condition and lock and with the right absolute time"""
    no_apply=True
    SIGS={'ctor':'Signal::Signal()','dtor':'Signal::~Signal()','signal':'Signal::signal()','broadcast':'Signal::broadcast()','wait':'Signal::wait(Mutex&) const','waitt':'Signal::wait(Mutex&, long) const','waitt0':'Signal::wait(Mutex&, long) const','timedlock':'Mutex::timedlock(int)'}
    def __init__(s,op): s.op=op; s.name=s.SIGS[op]; s.title=s.name+{'waitt':' [timeout over 0]','waitt0':' [timeout 0 or less]'}.get(op,'')
    def setup(s,V,st):
        from . import T15
        T15.prepare(V); V.models=dict(T15.MODELS_); V.models.update(COND_); V.clock=[]; s.calls=[]; V.target=s; T16.clock(V,st,0)
        n=fields(V,'class.Mutex')[1]; s.m=V.new(st,'lock',n,'heap',Cells()); V.mute+=1
        try:
            for y in V.run_function(st,V.prog.lookup('Mutex::Mutex()'),[P(s.m,0)]): assert y.kind=='ret'; z=y.st
        finally: V.mute-=1
        if z is not st: st.mem=z.mem; st.ghost=z.ghost; st.pc=z.pc
        s.c=V.new(st,'condition',fields(V,'class.Signal')[1],'heap',Cells()); st.ghost['calls']=(); s.tmo=None
        if s.op=='timedlock': s.tmo=fresh('msecs',32); st.assume(s.tmo>=0); return [P(s.m,0),s.tmo]
        a=[P(s.c,0)]
        if s.op in('wait','waitt','waitt0'): a.append(P(s.m,0))
        if s.op in('waitt','waitt0'):
            s.tmo=fresh('timeout',64); st.assume(s.tmo<=0 if s.op=='waitt0' else z3.And(s.tmo>0,s.tmo<(1<<32))); a.append(s.tmo)
        return a
    def call(s,V,st,f,a):
        st.ghost['calls']=st.ghost['calls']+(f,)
        if 'mutex' in f: V.oblige(st,a[0].obj is s.m and isint(a[0].off) and a[0].off==0,'operation on its own lock')
        else: V.oblige(st,a[0].obj is s.c and isint(a[0].off) and a[0].off==0,'operation on its own condition')
        if 'wait' in f: V.oblige(st,a[1].obj is s.m and isint(a[1].off) and a[1].off==0,'waits with the lock given')
        if 'timed' in f:
            t=a[-1]; sec=V.load(st,t,I(64),V.prog.mods[0]); ns=V.load(st,P(t.obj,add(64,t.off,8)),I(64),V.prog.mods[0])
            V.oblige(st,ult(ns,1000000000),'the time limit is well-formed'); k=st.ghost.get('~clock',0)
            V.oblige(st,k>=1,'the clock was read')
            ms=s.tmo if s.tmo.size()==64 else sext(s.tmo,32,64)
            q=z3.UDiv(ms,bv(1000)); r=z3.URem(ms,bv(1000)); u=V.clock[0][1]+r*1000; c=z3.UGE(u,bv(1000000))
            V.oblige(st,sbool(z3.And(bv(sec)==simp(z3.If(c,V.clock[0][0]+q+1,V.clock[0][0]+q)),z3.UDiv(bv(ns),bv(1000))==simp(z3.If(c,u-1000000,u)))),'the time limit is the current time plus the timeout')
    def extra(s,V,pre,act,out,args):
        if out.kind!='ret': return
        want={'ctor':[('pthread_cond_init',)],'dtor':[('pthread_cond_destroy',)],'signal':[('pthread_cond_signal',),('pthread_cond_broadcast',)],'broadcast':[('pthread_cond_broadcast',)],'wait':[('pthread_cond_wait',)],'waitt':[('pthread_cond_timedwait',)],'waitt0':[()],'timedlock':[('pthread_mutex_timedlock',)]}[s.op]
        V.oblige(out.st,out.st.ghost['calls'] in want,'calls %s exactly once'%want[0][0] if want[0] else 'returns at once')
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        for k in('calls','~clock','held:new0','kind:new0','~attempt'): st.ghost[k]=ANY
        if s.op=='timedlock': V.setc(st,s.m,Cells({k:(n,ANY) for k,(n,v) in V.content(st,s.m).d.items()}))
        return ANY
    def inputs(s,V,st,a): return [('obj','str','signal'),('op','str',s.op)]+([('timeout','term',s.tmo)] if s.tmo is not None else [])
def c_call(V,st,a,i): V.target.call(V,st,i['dem'],a); return 0
def c_timed(V,st,a,i):
    V.target.call(V,st,i['dem'],a); e=fresh('error',32); st.assume(z3.And(e>=0,e<134)); return e
def c_lock(V,st,a,i):
    from . import T15
    V.target.call(V,st,i['dem'],a); return T15.MODELS_['pthread_mutex_timedlock'](V,st,a,i)
COND_={'pthread_cond_'+n: c_call for n in('init','destroy','signal','broadcast','wait')}; COND_['pthread_cond_timedwait']=c_timed; COND_['pthread_mutex_timedlock']=c_lock
