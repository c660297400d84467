"""Reference-counted objects. Rely-guarantee reasoning per object: the calling thread holds `own` of its references (its counted pointers that refer
to it) and the other threads hold an arbitrary number that may have changed whenever the object's lock is taken; the count always is the sum.
Holding a reference keeps the object alive; a thread that has dropped its last one may not touch the object again, unless its own decrement brought the count
to zero, and then it must delete the object, once."""
from engine.verify import *
from engine.models import MODELS
from .T15 import IRT, fields
from .logs import *
SRCS=['tu:refcnt.cpp','Utils.cpp']
NATIVE='R18.cpp'
OPTS=dict(loops='abstract')
MAXREF=32766
# ------------------------------------------------------------------ counted objects
def lay(V):
    f,n=fields(V,'class.Utils::RefCntBase'); k=[x for x in f if x in('i16','i32','i64','i8')]
    if len(k)!=1 or len(f[k[0]])!=1: raise Unsupported('layout of a counted object: '+str(f))
    return f[k[0]][0],n,int(k[0][1:])
class Counted:
    def __init__(s,V,st,key,prot=False):
        s.key=key; s.prot=prot; n=fields(V,'struct.Obj')[1]; s.obj=V.new(st,'object '+key,n,'heap',Cells()); s.obj.guard=None
        V.counted[s.obj.id]=s; V.building=True; V.mute+=1
        try: r=V.run_function(st,V.prog.lookup('Obj::Obj()'),[P(s.obj,0)])
        finally: V.building=False; V.mute-=1
        if len(r)!=1 or r[0].kind!='ret' or r[0].st is not st: raise Unsupported('construction of the object')
        s.cnt,_,s.w=lay(V); V.oblige(st,s.w>=16,'the count has room for 32766 references'); s.obj.guard=s.guard; s.others=None
        st.ghost.update({'own:'+key:0,'held:'+key:0,'sum:'+key:None,'zero:'+key:False,'freed:'+key:False})
    def alive(s,V,st): g=st.ghost; return not g['freed:'+s.key] and (g['own:'+s.key]>=1 or s.prot and not g['zero:'+s.key] or g['zero:'+s.key])
    def guard(s,V,st,p,n,what):
        if V.building: return
        V.oblige(st,s.alive(V,st),'an object is used only while a reference to it is held')
        if not(isint(p.off) and p.off+n<=s.cnt or isint(p.off) and p.off>=s.cnt+s.w//8):
            if what!='load': V.oblige(st,st.ghost['held:'+s.key]>=1,'the count is changed only under its lock')
            elif not st.ghost['held:'+s.key] and not st.ghost['zero:'+s.key]: V.put(st,s.obj,s.cnt,s.total(V,st),s.w//8)
    def total(s,V,st):
        """the count, as far as this thread can know it"""
        o=fresh('others',s.w); own=st.ghost['own:'+s.key]; st.assume(z3.And(o>=0,o<=min(MAXREF,(1<<s.w-1)-2)-own)); return simp(o+own)
def counted(V,st,p,what):
    c=V.counted.get(p.obj.id) if p.obj is not None else None
    if c is None: V.oblige(st,False,what+' of an object in play')
    return c
def m_ctor(V,st,a,i): pass
def m_lock(V,st,a,i):
    c=counted(V,st,a[0],'lock'); g=st.ghost; V.oblige(st,c.alive(V,st),'the lock of an object is taken only while a reference to it is held')
    if g['held:'+c.key]==0:
        t=c.total(V,st); V.put(st,c.obj,c.cnt,t,c.w//8); g['sum:'+c.key]=t
    g['held:'+c.key]+=1
def m_unlock(V,st,a,i):
    c=counted(V,st,a[0],'unlock'); g=st.ghost; k=c.key; V.oblige(st,g['held:'+k]>=1,'unlock of a lock that is held')
    g['held:'+k]-=1
    if g['held:'+k]: return
    v=V.get(st,c.obj,c.cnt,c.w//8); d=simp(v-g['sum:'+k]) if not isint(v) else None
    d=sgn(d,c.w) if d is not None and isint(d) else None
    V.oblige(st,d is not None and -2<=d<=2,'the count changes by the number of references taken or dropped')
    own=g['own:'+k]+d; V.oblige(st,own>=0,'only a reference that is held is dropped'); g['own:'+k]=own; g['sum:'+k]=None
    if d<0 and own==0:
        x=st.fork(); r=[]
        for y,z in((x,True),(st,False)):
            e=v==0
            if V.feasible(y,e if z else z3.Not(e)): y.assume(e if z else z3.Not(e)); y.ghost['zero:'+k]=z; y.ghost['gone:'+k]=not z; r.append((y,None))
        return Forks(r)
def m_dtor(V,st,a,i):
    c=counted(V,st,a[0],'destruction'); g=st.ghost; V.oblige(st,g['zero:'+c.key] and not g['freed:'+c.key],'an object is destroyed only when the last reference is gone, once'); V.oblige(st,g['held:'+c.key]==0,'the lock is free when the object is destroyed')
def m_delete(V,st,a,i):
    c=V.counted.get(a[0].obj.id) if a[0].obj is not None else None
    if c is None: return MODELS['operator delete(void*)'](V,st,a,i)
    V.oblige(st,isint(a[0].off) and a[0].off==0,'the whole object is deleted'); V.oblige(st,st.ghost['zero:'+c.key] and not st.ghost['freed:'+c.key],'an object is deleted only when the last reference is gone, once'); st.ghost['freed:'+c.key]=True
MODELS_=logmodels(dict(MODELS))
for n,f in(('Mutex::Mutex()',m_ctor),('Mutex::~Mutex()',m_dtor),('Mutex::lock(char const*, unsigned int)',m_lock),('Mutex::_lock()',m_lock),('Mutex::unlock()',m_unlock),('operator delete(void*)',m_delete),('operator delete(void*, unsigned long)',m_delete)): MODELS_[norm(n)]=f
def prepare(ctx): ctx.counted={}; ctx.building=False; ctx.variants=False; ctx.level=None; ctx.onelevel=False
# ------------------------------------------------------------------ operations
class ROp(Contract):
    """p, q: counted pointers ('A', 'B' or None: what they refer to); same: both names mean one pointer; raw: an object given by a plain pointer"""
    def __init__(s,op,p=0,q=0,raw=0,same=False,held=0):
        s.op=op;s.p=p;s.q=q;s.raw=raw;s.sameptr=same
        sg={'default':'void*','copy':'void*, Utils::RefCntPointer<Obj>&','copyc':'void*, Utils::RefCntPointer<Obj> const&','from':'void*, Obj*','destroy':'R','assign':'R, R','assignc':'R, C','assignraw':'R, Obj*','assignnew':'R, Obj*','reset':'R','free':'R','eq':'C, C','ne':'C, C','eqraw':'C, Obj const*','neraw':'C, Obj const*','arrow':'C','star':'C','self':'C','isnull':'C','count':'Obj*','new':'void*','swap':'R, R','pass':'Utils::RefCntPointer<Obj>'}[op]
        s.name='tu_%s(%s)'%(op,sg.replace('R,','Utils::RefCntPointer<Obj>&,').replace('C,','Utils::RefCntPointer<Obj> const&,') if False else ', '.join({'R':'Utils::RefCntPointer<Obj>&','C':'Utils::RefCntPointer<Obj> const&'}.get(x,x) for x in sg.split(', ')))
        w=lambda x: 'null' if x is None else 'to '+x
        s.title={'default':'RefCntPointer()','copy':'RefCntPointer(RefCntPointer&)','copyc':'RefCntPointer(const RefCntPointer&)','from':'RefCntPointer(Type*)','destroy':'~RefCntPointer()','assign':'p = q','assignc':'p = q (const)','assignraw':'p = plain pointer','assignnew':'p = RefCntPointer(plain pointer)','reset':'p = NULL','free':'free()','eq':'p == q','ne':'p != q','eqraw':'p == plain pointer','neraw':'p != plain pointer','arrow':'operator->','star':'operator*','self':'self()','isnull':'isNULL()','count':'getRefCnt()','new':'RefCntBase()','swap':'swap by three copies','pass':'passed and returned by value'}[op]+' ['+', '.join(([('p '+w(p))] if p!=0 else [])+([('q '+w(q))] if q!=0 else [])+(['p and q are the same pointer'] if same else [])+(['plain pointer '+w(raw)] if raw!=0 else []))+']'
    def setup(s,V,st):
        s.cs={}; V.onelevel=s.op=='swap'
        for k in('A','B'):
            if k in(s.p,s.q,s.raw): s.cs[k]=Counted(V,st,k,s.raw==k)
        def ptr(nm,w):
            o=V.new(st,nm,8,'stack',Cells({0:(8,P(s.cs[w].obj,0) if w else NULL)}))
            if w: st.ghost['own:'+w]+=1
            return o
        s.po=ptr('p',s.p) if s.p!=0 else None; s.qo=s.po if s.sameptr else ptr('q',s.q) if s.q!=0 else None
        s.mem=V.new(st,'new pointer',8,'stack',Cells()) if s.op in('default','copy','copyc','from','pass') else V.new(st,'new object',fields(V,'struct.Obj')[1],'heap',Cells()) if s.op=='new' else None
        for c in s.cs.values(): V.put(st,c.obj,c.cnt,c.total(V,st),c.w//8)
        rawp=[] if s.raw==0 else [P(s.cs[s.raw].obj,0) if s.raw else NULL]
        return ([P(s.mem,0)] if s.mem else [])+([P(s.po,0)] if s.po else [])+([P(s.qo,0)] if s.qo else [])+rawp
    def value(s,V,st,o):
        e=V.content(st,o).d.get(0); return e and e[1]
    def same(s,V,st,x,w,nm):
        want=P(s.cs[w].obj,0) if w else NULL; x=x if isinstance(x,P) or x is None else P(None,x)
        V.oblige(st,x is not None and V.pcmp(st,'eq',x,want) if x is None or not(isinstance(x,P) and x.obj is want.obj and isint(x.off) and x.off==want.off) else True,nm)
    def extra(s,V,pre,act,out,args):
        if out.kind!='ret': return
        st=act; p,q=s.p,s.q; g=st.ghost; refs=[]
        def holds(o,w,nm):
            s.same(V,st,s.value(V,st,o),w,nm); refs.append(w)
        for k in s.cs: V.oblige(st,g['held:'+k]==0,'the locks are released')
        op=s.op
        if op in('default','copy','copyc','from','pass'): holds(s.mem,{'default':None,'copy':q,'copyc':q,'from':s.raw,'pass':q}[op],'the new pointer refers to what it was made from')
        if s.po is not None and op!='destroy': holds(s.po,{'assign':q if not s.sameptr else p,'assignc':q if not s.sameptr else p,'assignraw':s.raw,'assignnew':s.raw,'reset':None,'free':None,'swap':q if not s.sameptr else p}.get(op,p),'the pointer refers to what it is said to')
        if s.qo is not None and not s.sameptr: holds(s.qo,p if op=='swap' else q,'the other pointer refers to what it did' if op!='swap' else 'the pointers are exchanged')
        for k,c in s.cs.items():
            n=sum(1 for r in refs if r==k); z=g['zero:'+k]
            V.oblige(st,g['own:'+k]==n,'one reference is counted for every pointer to the object'); V.oblige(st,g['freed:'+k]==z,'an object is deleted exactly when its last reference goes')
        r=out.val
        if op in('eq','ne','eqraw','neraw','isnull'):
            e={'eq':p==(p if s.sameptr else q),'ne':p!=(p if s.sameptr else q),'eqraw':p==s.raw,'neraw':p!=s.raw,'isnull':p is None}[op]; V.oblige(st,eq(one(r),1 if e else 0),'the comparison is right')
        if op in('arrow','star','self'): s.same(V,st,r,p,'the object pointed to')
        if op=='count': V.oblige(st,eq(r,(lambda v,w: sext(v,w,32) if w<32 else v)(V.get(st,s.cs[s.raw].obj,s.cs[s.raw].cnt,s.cs[s.raw].w//8),s.cs[s.raw].w)),'the count')
        if op=='new': V.oblige(st,eq(V.get(st,s.mem,lay(V)[0],lay(V)[2]//8),0),'a new object has no references')
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        for c in s.cs.values(): st.ghost['gone:'+c.key]=ANY; V.setc(st,c.obj,Cells({k:(n,ANY) for k,(n,v) in V.content(st,c.obj).d.items()}))
        for o in(s.po,s.qo): o and V.setc(st,o,Cells({0:(8,ANY)}))
        if s.mem: V.setc(st,s.mem,Cells({0:(8,ANY)}) if s.op!='new' else V.content(st,s.mem))
        if s.op=='new': s.newspec(V,st)
        return ANY
    def newspec(s,V,st):
        V.building=True; V.mute+=1
        try: V.run_function(st,V.prog.lookup('Obj::Obj()'),[P(s.mem,0)])
        finally: V.building=False; V.mute-=1
        c=V.content(st,s.mem); V.setc(st,s.mem,Cells({k:(n,ANY) for k,(n,v) in c.d.items()}))
    def inputs(s,V,st,a): return [('op','str',s.op)]+[(n,'str',{None:'null',0:'-'}.get(v,v)) for n,v in(('p',s.p),('q',s.q),('raw',s.raw))]+[('same','str',str(int(s.sameptr)))]
def one(x): return x if isint(x) else zext(x,x.size(),64) if z3.is_bv(x) else x if isinstance(x,int) else simp(z3.If(x,z3.BitVecVal(1,64),z3.BitVecVal(0,64)))
def tasks():
    t=[ROp('default'),ROp('new'),ROp('count',raw='A')]
    for w in('A',None):
        t+=[ROp('copy',q=w),ROp('copyc',q=w),ROp('pass',q=w),ROp('from',raw=w),ROp('destroy',p=w),ROp('reset',p=w),ROp('free',p=w),ROp('self',p=w),ROp('isnull',p=w),ROp('arrow',p=w)]
        if w: t.append(ROp('star',p=w))
        for op in('eqraw','neraw','assignraw','assignnew'):
            for r in('A','B',None): 
                if not(w is None and r=='B'): t.append(ROp(op,p=w,raw=r))
        for op in('eq','ne','assign','assignc','swap'):
            for q in('A','B',None):
                if not(w is None and q=='B'): t.append(ROp(op,p=w,q=q))
            if op!='swap' or 1: t.append(ROp(op,p=w,same=True))
    for x in t:
        if x.sameptr: x.q=0
    return t
CONTRACTS=[]
TASKS=[lambda t=t: t for t in tasks()]
ASSUME=['an object has fewer than 32767 counted pointers (the counter is a short)','a plain pointer handed to a counted pointer is to an object that exists during the call','logging has no effect on counted objects; its level is arbitrary','Mutex and ScopedLock as proved for T15','objects are created by new and managed by counted pointers only']
