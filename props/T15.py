"""Mutex counting and scoped locks. The operating system's mutex is a ghost hold count of the calling thread per mutex; each attempt to take
a lock may succeed or fail (shared symbolic outcome). Monitor invariant: the lock record of a mutex is read and written only while the mutex is held
by the calling thread, mLockCnt equals the hold count while it is held, and is 0 when it is given up (so it is 0 when it is next taken)."""
from engine.verify import *
from engine.strings import *
from . import T16
SRCS=['Threads.cpp','Timeval.cpp','tu:threads.cpp']
NATIVE='T15.cpp'
OPTS=dict(loops='abstract')
# ------------------------------------------------------------------ ghost mutexes
def fields(V,name):
    """offsets of the fields by type: scalars ('i32','ptr') and arrays ('3i8','5ptr',...), in order of declaration"""
    m=V.prog.mods[0]; t=m.resolve(IRT(name)); r={}
    for e,off in zip(t.a,m.offsets(t)):
        x=m.resolve(e); el=m.resolve(x.b) if x.k=='arr' else x
        k=('%d'%x.a if x.k=='arr' else '')+('ptr' if el.k=='ptr' else 'i%d'%el.a if el.k=='int' else el.k); r.setdefault(k,[]).append(off)
    return r,m.size(t)
def lay(V):
    f,n=fields(V,'class.Mutex'); return (0,f['struct'][1] if 'struct' in f else 40,f['i32'][0],f['i32'][1],f['5ptr'][0],f['5i32'][0]),n
def IRT(n):
    from engine.ir import Ty
    return Ty('named',n)
class Refresh:
    """any lock record the monitor invariant allows"""
    def __init__(s,m): s.m=m
    def covers(s,off): return off in s.m.canon
    def __call__(s,V,st):
        h=st.ghost.get('held:'+s.m.key)
        if h is None: return
        if not(isint(h) and h==0): V.oblige(st,eq(V.get(st,s.m.obj,s.m.cnt,4),h if isint(h) else simp(z3.Extract(31,0,h))),'mLockCnt equals the hold count')
        s.m.put(V,st,h)
class Mx:
    def __init__(s,V,st,key,obj,off,held,live=True):
        s.key=key;s.obj=obj;s.off=off
        V.__dict__.setdefault('mx',{})[(obj.id,off)]=s
        o,n=lay(V); s.cnt=off+o[2]; s.end=off+n; s.file=off+o[4]; s.line=off+o[5]; s.lvl=off+o[3]; s.attr=off+o[1]
        s.canon={s.lvl:(4,fresh('loglevel',32)),s.cnt:(4,fresh('cnt_unheld',32))}
        for k in range(5): s.canon[s.file+8*k]=(8,P(None,fresh('lockfile'))); s.canon[s.line+4*k]=(4,fresh('lockline',32))
        obj.guard=guard; obj.refresh=Refresh(s)
        if live:
            st.ghost['held:'+key]=held; st.ghost['kind:'+key]=1; s.put(V,st,held)
    def put(s,V,st,held):
        """contents of the lock record"""
        c=V.content(st,s.obj).copy()
        for k in [k for k in c.d if s.file<=k<s.end]: del c.d[k]
        for k,v in s.canon.items(): c.d[k]=v
        if not(isint(held) and held==0): c.d[s.cnt]=(4,held if isint(held) else simp(z3.Extract(31,0,held)))
        V.setc(st,s.obj,c)
    def acquired(s,V,st):
        s.put(V,st,0); c=V.content(st,s.obj).copy(); c.d[s.cnt]=(4,0); V.setc(st,s.obj,c)
    def any(s,V,st,cnt=None):
        c=V.content(st,s.obj).copy()
        for k,(n,_) in s.canon.items(): c.d[k]=(n,ANY)
        if cnt is not None: c.d[s.cnt]=(4,cnt if isint(cnt) else simp(z3.Extract(31,0,cnt)))
        V.setc(st,s.obj,c)
def find(V,st,p,what):
    m=V.mx.get((p.obj.id,p.off)) if p.obj is not None and isint(p.off) else None
    if m is None: V.oblige(st,False,'%s of one of the mutexes in play'%what)
    return m
def guard(V,st,p,n,what):
    for m in V.mx.values():
        if m.obj is p.obj and isint(p.off) and m.cnt<=p.off<m.end and 'held:'+m.key in st.ghost and not V.mute_guard:
            h=st.ghost['held:'+m.key]
            if isint(h) and h==0:
                if what=='store': V.oblige(st,False,'the lock record is written only while the lock is held')
                elif p.off in m.canon:
                    c=V.content(st,m.obj).copy(); k=m.canon[p.off][0]; c.d[p.off]=(k,fresh('racy',8*k) if k==4 else P(None,fresh('racy'))); V.setc(st,m.obj,c)
def bump(V,st,m):
    h=st.ghost['held:'+m.key]
    if isint(h) and h==0: m.acquired(V,st)
    st.ghost['held:'+m.key]=h+1 if isint(h) else simp(h+1)
def attempt(V,k):
    l=V.__dict__.setdefault('attempts',[])
    while len(l)<=k: l.append(freshb('taken%d'%len(l)))
    return l[k]
def m_lock(V,st,a,i): bump(V,st,find(V,st,a[0],'lock')); return 0
def m_try(V,st,a,i):
    m=find(V,st,a[0],'lock attempt'); k=st.ghost.get('~attempt',0); st.ghost['~attempt']=k+1; ok=attempt(V,k)
    x=st.fork(); x.assume(ok); bump(V,x,m); st.assume(z3.Not(ok)); e=fresh('error',32); st.assume(z3.And(e>0,e<134)); return Forks([(x,0),(st,e)])
def m_unlock(V,st,a,i):
    m=find(V,st,a[0],'unlock'); h=st.ghost['held:'+m.key]
    if isint(h):
        V.oblige(st,h>=1,'unlock of a mutex held by this thread')
        if h==1: V.oblige(st,eq(V.get(st,m.obj,m.cnt,4),0),'the hold count is 0 when the mutex is given up'); m.put(V,st,0)
        st.ghost['held:'+m.key]=h-1
    else: st.ghost['held:'+m.key]=simp(h-1)
    return 0
def m_attrinit(V,st,a,i): st.ghost['~attr%d'%a[0].obj.id]=0; return 0
def m_settype(V,st,a,i): st.ghost['~attr%d'%a[0].obj.id]=a[1]; return 0
def m_init(V,st,a,i):
    if (a[0].obj.id,a[0].off) not in V.mx: Mx(V,st,'new%d'%sum(1 for m in V.mx.values() if m.obj is a[0].obj),a[0].obj,a[0].off,0,False)
    m=V.mx[(a[0].obj.id,a[0].off)]
    V.oblige(st,'held:'+m.key not in st.ghost,'mutex is initialised once')
    st.ghost['held:'+m.key]=0; st.ghost['kind:'+m.key]=st.ghost.get('~attr%d'%a[1].obj.id,0) if a[1].obj is not None else 0
    return 0
def m_destroy(V,st,a,i):
    m=find(V,st,a[0],'destruction'); V.oblige(st,'held:'+m.key in st.ghost,'mutex is destroyed once'); V.oblige(st,eq(st.ghost['held:'+m.key],0),'a mutex is free when it is destroyed')
    del st.ghost['held:'+m.key]; del st.ghost['kind:'+m.key]; return 0
def zero(V,st,a,i): return 0
def anyint(V,st,a,i): return fresh('result',64 if i['dem'] in('syscall','pthread_self') else 32)
def sret_text(V,st,a,i): V.str_set(st,a[0],V.str_fresh(st,'text'))
def m_text(V,st,a,i):
    V.access(st,P(a[1].obj,a[1].off),1,'load'); V.str_set(st,a[0],V.str_fresh(st,'text'))
def same_stream(V,st,a,i): return a[0]
def m_throw(V,st,a,i):
    x=st.fork(); x.assume(V.threw); st.assume(z3.Not(V.threw)); return Forks([(st,None),(x,Throw(P(None,fresh('exception')),'_ZTISt9exception'))])
# read-write locks: ghost counts of this thread's holds
def rw(V,st,a,i):
    n=i['dem']; V.oblige(st,a[0].obj is V.rwobj and isint(a[0].off) and a[0].off==0,'operation on this lock')
    if 'try' in n:
        k=st.ghost.get('~attempt',0); st.ghost['~attempt']=k+1; ok=attempt(V,k)
        x=st.fork(); x.assume(ok); g='writes' if 'wr' in n else 'reads'; x.ghost[g]=x.ghost[g]+1; st.assume(z3.Not(ok)); e=fresh('error',32); st.assume(z3.And(e>0,e<134)); return Forks([(x,0),(st,e)])
    if n.endswith('unlock'): st.ghost['unlocks']=st.ghost['unlocks']+1
    else: g='writes' if 'wr' in n else 'reads'; st.ghost[g]=st.ghost[g]+1
    return 0
def rwlife(V,st,a,i): st.ghost['rwlife']=st.ghost.get('rwlife','')+i['dem'][15:]+';'; return 0
MODELS_=dict(MODELS); MODELS_.update(T16.MODELS_)
MODELS_.update({'pthread_mutex_lock':m_lock,'pthread_mutex_trylock':m_try,'pthread_mutex_timedlock':m_try,'pthread_mutex_unlock':m_unlock,'pthread_mutex_init':m_init,'pthread_mutex_destroy':m_destroy,
  'pthread_mutexattr_init':m_attrinit,'pthread_mutexattr_settype':m_settype,'pthread_mutexattr_destroy':zero,'syscall':anyint,'pthread_self':anyint,'syslog':zero,'printf':anyint,
  'Utils::timestr()':sret_text,'Utils::timestr(unsigned int, bool)':sret_text,'Utils::rn_backtrace()':sret_text,'Utils::format(char const*, ...)':sret_text,'Utils::format1(char const*, ...)':sret_text,'Mutex::mutext() const':m_text,'verif_may_throw()':m_throw})
def s_fromptr(V,st,a,i):
    """a location remembered in the lock record: some C string of the caller"""
    if a[1].obj is None: V.oblige(st,Not(eq(a[1].off,0)),'location is not null'); V.str_set(st,a[0],V.str_fresh(st,'location')); return
    return STRCTOR(V,st,a,i)
_n=norm('std::string::basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)'); STRCTOR=MODELS[_n]; MODELS_[_n]=s_fromptr
for f in('wrlock','rdlock','trywrlock','tryrdlock','unlock'): MODELS_['pthread_rwlock_'+f]=rw
for f in('pthread_rwlock_init','pthread_rwlock_destroy'): MODELS_[f]=rwlife
for f in('pthread_rwlockattr_init','pthread_rwlockattr_destroy'): MODELS_[f]=zero
MODELS_['*regex']=[(re.compile(r'.*operator<<.*'),same_stream),(re.compile(r'.*std::(endl|flush|dec).*'),same_stream)]+MODELS['*regex']
def prepare(ctx): ctx.mx={}; ctx.mute_guard=False; ctx.threw=freshb('threw'); ctx.variants=False
# ------------------------------------------------------------------ contracts
BIG='6 or more'
class M(Contract):
    """operations of one mutex already held h times by this thread"""
    def __init__(s,op,h,file=False): s.op=op; s.h=h; s.file=file; s.name='Mutex::'+{'trylock':'trylock(char const*, unsigned int)','lock':'lock(char const*, unsigned int)','timedlock':'timedlock(int)','unlock':'unlock()','lockcnt':'lockcnt()','scoped':'','mutext':'mutext[abi:cxx11]() const'}.get(op,''); s.title='%s [held %s times%s]'%(s.name,h,', with a location' if file else '')
    def mutex(s,V,st):
        s.o=V.new(st,'mutex',lay(V)[1],'heap',Cells())
        if s.h==BIG: s.n=fresh('holds'); st.assume(z3.And(z3.UGE(s.n,6),z3.ULT(s.n,(1<<31)-2)))
        else: s.n=s.h
        s.m=Mx(V,st,'m',s.o,0,s.n); return P(s.o,0)
    def loc(s,V,st): return [CStr(V,st,'file',text='x.cpp').ptr if s.file else NULL,fresh('line',32)]
    def setup(s,V,st):
        a=[s.mutex(V,st)]
        if s.op in('trylock','lock'): a+=s.loc(V,st)
        if s.op=='timedlock': x=fresh('msecs',32); st.assume(z3.And(x>=0)); a.append(x)
        return a
    def to(s,V,st,d):
        n=add(64,s.n,d) if not isint(s.n) else s.n+d
        st.ghost['held:m']=n; s.m.any(V,st,None if isint(n) and n==0 else n)
    def spec(s,V,st,a):
        if s.op in('trylock','timedlock'):
            x=st.fork(); x.assume(attempt(V,0)); s.to(V,x,1); st.assume(z3.Not(attempt(V,0))); s.to(V,st,0); return [(x,True),(st,False)]
        if s.op=='lockcnt': return s.n if isint(s.n) else simp(z3.Extract(31,0,s.n))
        s.to(V,st,1 if s.op=='lock' else -1)
    def inputs(s,V,st,a): return [('op','str',s.op),('held','int',7 if s.h==BIG else s.h),('file','int',int(s.file))]
class Text(M):
    """the lock record is only read"""
    def __init__(s,h): M.__init__(s,'mutext',h); s.name='Mutex::mutext() const'; s.title='Mutex::mutext() const [held %d times]'%h; s.no_apply=True
    def setup(s,V,st): V.models=dict(V.models); V.models.pop('Mutex::mutext() const'); s.r=V.new(st,'text',32,'heap',Cells()); return [P(s.r,0),s.mutex(V,st)]
    def spec(s,V,st,a): V.setc(st,s.r,Cells({0:(32,ANY)}))
    def inputs(s,V,st,a): return [('op','str','mutext'),('held','int',s.h),('file','int',0)]
class Life(Contract):
    def __init__(s,op): s.op=op; s.name='Mutex::'+op; s.title=s.name
    def setup(s,V,st):
        s.o=V.new(st,'mutex',lay(V)[1],'heap',Cells())
        if s.op=='~Mutex()': s.m=Mx(V,st,'m',s.o,0,0)
        else: s.m=Mx(V,st,'m',s.o,0,0,False)
        return [P(s.o,0)]
    def spec(s,V,st,a):
        if s.op=='~Mutex()': del st.ghost['held:m']; del st.ghost['kind:m']; V.setc(st,s.o,ANY); return
        st.ghost['held:m']=0; st.ghost['kind:m']=1      # PTHREAD_MUTEX_RECURSIVE
        s.m.any(V,st,0)
    def inputs(s,V,st,a): return [('op','str','life'),('held','int',0),('file','int',0)]
class Scoped(M):
    def __init__(s,op,h,file=False):
        M.__init__(s,op,h,file); s.name={'sctor':'ScopedLock::ScopedLock(Mutex&)' if not file else 'ScopedLock::ScopedLock(Mutex&, char const*, unsigned int)','sdtor':'ScopedLock::~ScopedLock()','body':'tu_scoped(Mutex&)' if not file else 'tu_scoped_file(Mutex&, char const*)'}[op]; s.title='%s [mutex held %s times]'%(s.name if op!='body' else 'a scope with a ScopedLock%s that may throw'%(' with a location' if file else ''),h); s.no_apply=True
    def setup(s,V,st):
        m=s.mutex(V,st)
        if s.op=='body': return [m]+(s.loc(V,st)[:1] if s.file else [])
        s.l=V.new(st,'scoped',8,'heap',Cells() if s.op=='sctor' else Cells({0:(8,m)})); return [P(s.l,0)]+([m]+(s.loc(V,st) if s.file else []) if s.op=='sctor' else [])
    def spec(s,V,st,a):
        if s.op=='body':
            s.to(V,st,0); x=st.fork(); x.assume(V.threw); st.assume(z3.Not(V.threw)); return [(x,Throw(NULL,'_ZTISt9exception')),(st,None)]
        s.to(V,st,1 if s.op=='sctor' else -1)
        if s.op=='sctor': V.setc(st,s.l,Cells({0:(8,P(s.o,0))}))
        else: V.setc(st,s.l,ANY)
def c_lock(V,st,a,i):
    """contract of Mutex::lock (proved above for every hold count)"""
    m=find(V,st,a[0],'lock'); h=st.ghost['held:'+m.key]+1; st.ghost['held:'+m.key]=h; m.put(V,st,h)
def c_try(V,st,a,i):
    m=find(V,st,a[0],'lock attempt'); k=st.ghost.get('~attempt',0); st.ghost['~attempt']=k+1; ok=freshb('taken')
    x=st.fork(); x.assume(ok); c_lock(V,x,a,i); st.assume(z3.Not(ok)); return Forks([(x,True),(st,False)])
def c_unlock(V,st,a,i):
    m=find(V,st,a[0],'unlock'); h=st.ghost['held:'+m.key]; V.oblige(st,h>=1,'unlock of a mutex held by this thread'); V.oblige(st,eq(V.get(st,m.obj,m.cnt,4),h),'mLockCnt equals the hold count'); st.ghost['held:'+m.key]=h-1; m.put(V,st,h-1)
class Multi(Contract):
    def __init__(s,op,n,own,file): s.op=op;s.n=n;s.own=own;s.file=file; ty='int, '+', '.join(['Mutex&']*n)+(', char const*, int' if file else ''); s.name='ScopedLockMultiple::ScopedLockMultiple(%s)'%ty if op=='ctor' else 'ScopedLockMultiple::~ScopedLockMultiple()'; s.title='%s [%d mutexes, caller owns %s%s]'%(s.name,n,'+'.join(x for k,x in enumerate('ABC') if own>>k&1) or 'none',', with a location' if file else '')
    def setup(s,V,st):
        s.f,n=fields(V,'class.ScopedLockMultiple'); s.o=V.new(st,'scoped',n,'heap',Cells()); sz=lay(V)[1]
        s.mx=[]
        for k in range(s.n):
            o=V.new(st,'mutex'+'ABC'[k],sz,'heap',Cells()); s.mx.append(Mx(V,st,'ABC'[k],o,0,(s.own>>k&1) if s.op=='ctor' else 1))
        s.fp=CStr(V,st,'file',text='x.cpp').ptr if s.file else NULL; s.ln=fresh('line',32) if s.file else 0
        s.garbage=Mx(V,st,'garbage',s.o,0,0,False)
        V.models=dict(V.models); V.models.update({'Mutex::lock(char const*, unsigned int)':c_lock,'Mutex::trylock(char const*, unsigned int)':c_try,'Mutex::unlock()':c_unlock})
        if s.op=='ctor':
            hi=fresh('flags',29); return [P(s.o,0),simp(z3.Concat(hi,z3.BitVecVal(s.own,3)))]+[P(x.obj,0) for x in s.mx]+([s.fp,s.ln] if s.file else [])
        g=0 if s.n==3 else 1
        st.ghost['held:garbage']=g; st.ghost['kind:garbage']=1; s.garbage.put(V,st,g); s.fields(V,st); return [P(s.o,0)]
    def fields(s,V,st):
        """representation: which mutexes, which the caller owned, all taken"""
        c=V.content(st,s.o).copy(); f=s.f; third=P(s.mx[2].obj,0) if s.n==3 else P(s.o,0)
        for k,p in enumerate([P(s.mx[0].obj,0),P(s.mx[1].obj,0),third]): c.d[f['3ptr'][0]+8*k]=(8,p)
        for k in range(3): c.d[f['3i8'][0]+k]=(1,s.own>>k&1); c.d[f['3i8'][1]+k]=(1,1)
        c.d[f['ptr'][0]]=(8,s.fp); c.d[f['i32'][0]]=(4,s.ln); V.setc(st,s.o,c)
    def spec(s,V,st,a):
        for k,x in enumerate(s.mx):
            h=1 if s.op=='ctor' else s.own>>k&1; st.ghost['held:'+x.key]=h; x.any(V,st,h or None)
        if s.op=='ctor':
            g=0 if s.n==3 else 1
            st.ghost['held:garbage']=g; st.ghost['kind:garbage']=1; s.garbage.any(V,st,g or None); s.fields(V,st)
        else: del st.ghost['held:garbage']; del st.ghost['kind:garbage']; V.setc(st,s.o,ANY)
    def inputs(s,V,st,a): return [('op','str','multi'),('n','int',s.n),('own','int',s.own),('file','int',int(s.file))]
class Stream(Contract):
    def __init__(s,op): s.op=op; s.name=op+'()'; s.title=s.name
    def setup(s,V,st):
        p=V.globj(st,'gStreamLock',next(m for m in V.prog.mods if 'gStreamLock' in m.globals)); V.setc(st,p.obj,Cells()); s.m=Mx(V,st,'m',p.obj,0,1 if s.op.startswith('un') else 0); return []
    def spec(s,V,st,a): h=0 if s.op.startswith('un') else 1; st.ghost['held:m']=h; s.m.any(V,st,h or None)
    def inputs(s,V,st,a): return [('op','str','stream'),('held','int',0),('file','int',0)]
class RW(Contract):
    def __init__(s,op): s.op=op; s.name='RWLock::'+op; s.title=s.name
    def setup(s,V,st):
        s.o=V.rwobj=V.new(st,'rwlock',64,'heap',Cells()); 
        for g in('writes','reads','unlocks'): st.ghost[g]=0
        st.ghost['rwlife']=''; return [P(s.o,0)]
    def spec(s,V,st,a):
        op=s.op
        if op in('RWLock()','~RWLock()'): st.ghost['rwlife']='init;' if op[0]=='R' else 'destroy;'; V.setc(st,s.o,ANY); return
        g='unlocks' if op=='unlock()' else 'writes' if 'wlock' in op else 'reads'
        if op.startswith('try'):
            x=st.fork(); x.assume(attempt(V,0)); x.ghost[g]=1; st.assume(z3.Not(attempt(V,0))); return [(x,True),(st,False)]
        st.ghost[g]=1; return ANY
    def inputs(s,V,st,a): return [('op','str','rw'),('held','int',0),('file','int',0)]
CONTRACTS=[]
TASKS=[lambda:Life('Mutex()'),lambda:Life('~Mutex()')]
for op in('lock','trylock','timedlock','unlock','lockcnt','sctor','sdtor','body'):
    for h in(0,1,2,3,4,5,BIG):
        if h==0 and op in('unlock','lockcnt','sdtor'): continue
        for f in((False,True) if op in('lock','trylock','sctor','body') else (False,)):
            if op in('sctor','sdtor','body'):
                if h in(0,2,BIG,1): TASKS.append(lambda op=op,h=h,f=f: Scoped(op,h,f))
            else: TASKS.append(lambda op=op,h=h,f=f: M(op,h,f))
for h in range(1,8): TASKS.append(lambda h=h: Text(h))
for n in(2,3):
    for own in range(1<<n):
        for f in(False,True): TASKS.append(lambda n=n,own=own,f=f: Multi('ctor',n,own,f))
        for f in(False,True): TASKS.append(lambda n=n,own=own,f=f: Multi('dtor',n,own,f))
for op in('lockCout','unlockCout','lockCerr','unlockCerr'): TASKS.append(lambda op=op: Stream(op))
for op in('RWLock()','~RWLock()','wlock()','rlock()','trywlock()','tryrlock()','unlock()'): TASKS.append(lambda op=op: RW(op))
ASSUME=['pthread_mutex_lock succeeds; pthread_mutex_trylock and pthread_mutex_timedlock take the mutex exactly when they return 0','fewer than 2^31-2 recursive holds; timedlock is given a non-negative time','ScopedLockMultiple is given different mutexes, and the caller holds exactly the ones it says it owns, once each (asserted by the library)','text output, system log, back traces and stream output do not touch locks (beyond gStreamLock)','waiting for a lock may take for ever: no termination claim']
