"""Timeval: normalised values, exact arithmetic. The k-th reading of the clock is a symbolic pair shared by code and contract."""
from engine.verify import *
from engine.models import MODELS
SRCS=['Timeval.cpp','tu:timeval.cpp']
NATIVE='T16.cpp'
LIM=1<<40          # seconds; within tens of thousands of years of the epoch
def clock(V,st,k):
    """k-th reading: any time not before the previous one"""
    c=V.__dict__.setdefault('clock',[])
    while len(c)<=k: c.append((fresh('clock%d_s'%len(c)),fresh('clock%d_us'%len(c))))
    return c[k]
def clock_ok(V,k):
    s,u=V.clock[k]; r=[z3.ULT(s,LIM),z3.ULT(u,1000000)]
    if k: p,q=V.clock[k-1]; r.append(z3.Or(z3.UGT(s,p),z3.And(s==p,z3.UGE(u,q))))
    return z3.And(*r)
def tick(V,st):
    k=st.ghost.get('~clock',0); st.ghost['~clock']=k+1; r=clock(V,st,k); st.assume(clock_ok(V,k)); return r
def m_gettimeofday(c,st,a,i):
    s,u=tick(c,st); mod=c.prog.mods[0]
    c.store(st,a[0],s,I(64),mod); c.store(st,P(a[0].obj,add(64,a[0].off,8)),u,I(64),mod); return 0
def m_clock_gettime(c,st,a,i):
    s,u=tick(c,st); mod=c.prog.mods[0]; n=fresh('ns'); st.assume(z3.ULT(n,1000))
    c.store(st,a[1],s,I(64),mod); c.store(st,P(a[1].obj,add(64,a[1].off,8)),simp(u*1000+n),I(64),mod); return 0
def m_time(c,st,a,i):
    s,u=tick(c,st)
    if a[0].obj is not None: c.store(st,a[0],s,I(64),c.prog.mods[0])
    return s
MODELS_=dict(MODELS); MODELS_.update({'gettimeofday':m_gettimeofday,'clock_gettime':m_clock_gettime,'time':m_time})
def tv(V,st,p): return V.get(st,p.obj,p.off),V.get(st,p.obj,add(64,p.off,8))
def later(s,us,ms):
    """s.us plus ms milliseconds, normalised"""
    ms=zext(ms,32,64); q=simp(z3.UDiv(bv(ms),bv(1000))); r=simp(z3.URem(bv(ms),bv(1000)))
    u=simp(us+r*1000); c=z3.UGE(u,bv(1000000))
    return simp(z3.If(c,s+q+1,s+q)),simp(z3.If(c,u-1000000,u))
def norm_(s,u): return And(ult(u,1000000),sle(sub(64,0,LIM),s),sle(s,LIM))
class TV(Contract):
    def mk(s,V,st,name,init=True):
        a,b=fresh(name+'_s'),fresh(name+'_us'); o=V.new(st,name,16,'heap',Cells({0:(8,a),8:(8,b)}) if init else Cells())
        return o,a,b
    def setup(s,V,st):
        clock(V,st,0); s.o,s.s,s.u=s.mk(V,st,'time',not s.title.startswith('construct')); st.assume(clock_ok(V,0)); return [P(s.o,0)]+s.args(V,st)
    def args(s,V,st): return []
    def put2(s,V,st,a,b): V.setc(st,s.o,Cells({0:(8,a),8:(8,b)}))
    def base(s): return []
    def inputs(s,V,st,a): return [('op','str',s.op),('s','term',s.s),('us','term',s.u),('now','term',V.clock[0][0]),('nowus','term',V.clock[0][1])]+s.base()
class Now(TV):
    name='Timeval::now()'; op='now'; title='Timeval::now()'
    def spec(s,V,st,a): s.put2(V,st,*tick(V,st))
class Future(TV):
    op='future'
    def __init__(s,ctor=False): s.name='Timeval::Timeval(unsigned int)' if ctor else 'Timeval::future(unsigned int)'; s.title=('construct ' if ctor else '')+s.name; s.op='ctor' if ctor else 'future'
    def args(s,V,st): s.ms=fresh('ms',32); return [s.ms]
    def spec(s,V,st,a): n=tick(V,st); s.put2(V,st,*later(n[0],n[1],a[1]))
    def base(s): return [('x','term',s.ms)]
class Ctor2(TV):
    name='Timeval::Timeval(unsigned int, unsigned int)'; title='construct '+name; op='ctor2'
    def args(s,V,st): s.x,s.y=fresh('sec',32),fresh('usec',32); return [s.x,s.y]
    def spec(s,V,st,a): s.put2(V,st,zext(s.x,32,64),zext(s.y,32,64))
    def base(s): return [('x','term',s.x),('y','term',s.y)]
class CtorTv(TV):
    name='Timeval::Timeval(timeval const&)'; title='construct '+name; op='ctortv'
    def args(s,V,st): s.q,s.x,s.y=s.mk(V,st,'timeval'); return [P(s.q,0)]
    def spec(s,V,st,a): s.put2(V,st,s.x,s.y)
    def base(s): return [('x','term',s.x),('y','term',s.y)]
class Spec(TV):
    name='Timeval::timespec() const'; title=name; op='timespec'
    def requires(s,V,st,a): return [('normalised',ult(s.u,1000000))]
    def spec(s,V,st,a): return (s.s,simp(s.u*1000))
class Acc(TV):
    def __init__(s,op): s.op=op; s.name='Timeval::%s() const'%op; s.title=s.name
    def spec(s,V,st,a): return simp(z3.Extract(31,0,s.s if s.op=='sec' else s.u))
class AddMin(TV):
    name='Timeval::addMinutes(unsigned int)'; title=name; op='addMinutes'
    def args(s,V,st): s.x=fresh('minutes',32); return [s.x]
    def spec(s,V,st,a): s.put2(V,st,simp(s.s+zext(s.x,32,64)*60),s.u)
    def base(s): return [('x','term',s.x)]
class Passed(TV):
    name='Timeval::passed() const'; title=name; op='passed'
    def requires(s,V,st,a): return [('normalised',norm_(s.s,s.u))]
    def spec(s,V,st,a): n,m=tick(V,st); return sbool(z3.Or(n>s.s,z3.And(n==s.s,z3.UGT(m,s.u))))
def within(d_s,d_us):
    """within one millisecond of d_s seconds plus d_us microseconds"""
    d=simp(d_s*1000000+d_us)
    return ('pred',lambda r: And(slt(sub(64,d,1000),simp(bv(r)*1000)),slt(simp(bv(r)*1000),add(64,d,1000)),And(sle(sub(64,0,1<<51),r),sle(r,1<<51))))
class Delta(TV):
    op='delta'; name='Timeval::delta(Timeval const&) const'
    def __init__(s,same=False): s.same=same; s.title=s.name+(' [itself]' if same else '')
    def args(s,V,st):
        if s.same: s.x,s.y=s.s,s.u; return [P(s.o,0)]
        s.q,s.x,s.y=s.mk(V,st,'other'); return [P(s.q,0)]
    def requires(s,V,st,a): 
        p,q=tv(V,st,a[0]); x,y=tv(V,st,a[1]); return [('normalised',And(norm_(p,q),norm_(x,y)))]
    def spec(s,V,st,a): return within(sub(64,s.x,s.s),sub(64,s.y,s.u))
    def base(s): return [('x','term',s.x),('y','term',s.y)]
class Elapsed(TV):
    def __init__(s,op): s.op=op; s.name='Timeval::%s() const'%op; s.title=s.name
    def requires(s,V,st,a): return [('normalised',norm_(s.s,s.u))]
    def spec(s,V,st,a):
        n,m=tick(V,st); a,b=sub(64,n,s.s),sub(64,m,s.u)
        return within(a,b) if s.op=='elapsed' else within(sub(64,0,a),sub(64,0,b))
CONTRACTS=[]
TASKS=[lambda:Now(),lambda:Future(),lambda:Future(True),lambda:Ctor2(),lambda:CtorTv(),lambda:Spec(),lambda:Acc('sec'),lambda:Acc('usec'),lambda:AddMin(),lambda:Passed(),lambda:Delta(),lambda:Delta(True),lambda:Elapsed('elapsed'),lambda:Elapsed('remaining')]
ASSUME=['gettimeofday succeeds, returns normalised, non-decreasing times below 2^40 seconds','times are within 2^40 seconds of the epoch and normalised (the constructors from raw seconds and microseconds store what they are given)','Timeval::seconds, isoTime and the output operators are not covered']
