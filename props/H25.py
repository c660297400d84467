"""Performance counters. One arbitrary counter is followed: what is pending for it in the batch and what is stored in its row. The batch is a monitor:
each time its lock is taken what is pending is arbitrary. Accounting: an operation changes (pending + stored) by exactly what it stands for. Statements are recognised by
their composed text; each may be refused. Other counters: arbitrary names different from the one followed."""
from engine.verify import *
from engine.models import MODELS
from engine.cfmt import *
from .logs import *
import re as _re
from .maps import *
SRCS=['Reporting.cpp','Utils.cpp']
NATIVE='H25.cpp'
OPTS=dict(loops='abstract',nonzero=True)
MAX=4000
M32=(1<<32)-1
def newother(V,st,o):
    t=ctext(V,st,'other name',MAX); V.others.append(t.node); V.setc(st,o,Cells({32:(32,t),64:(4,fresh('other pending',32))}))
class Other:
    def __init__(s,o): s.o=o
    def __call__(s,V,st): newother(V,st,s.o)
    def covers(s,off): return True
class Batch(TMap):
    def __init__(s,V,st,nm,owner,on=None):
        TMap.__init__(s,V,st,nm,owner,'std::string','unsigned int',V.key,on=on); s.newother=newother; s.default=lambda V,st: V.store_raw(st,P(s.node,s.voff),4,0)
        s.scratch=V.new(st,nm+' entry of another name',s.node.size,'stack',Cells(),assume=False); newother(V,st,s.scratch)
        for o in s.other+[s.scratch]: o.refresh=Other(o)
    def isother(s,V,st,v): return V.anylen or any(v.node is n for n in V.others)
def setup_table(V,st,key):
    ps,n=parts(V,'class.ReportingTable'); V.tab=V.new(st,'table',n,'heap',Cells()); V.db=P(None,z3.BitVec('database',64)); V.keep=[V.db.off]; st.assume(V.db.off!=0)
    V.key=key; V.others=[]; pp=[x for x in ps if x[2]=='ptr']; V.setc(st,V.tab,Cells({pp[0][0]:(8,V.db),**{x[0]:(4,fresh('number',32)) for x in ps if x[2]=='i32'}})); V.mx=[x for x in ps if x[2]=='class.Mutex'][0][0]
    V.batch=Batch(V,st,'batch',V.tab,on=lambda V,st,w: V.oblige(st,st.ghost['held']>=1,'the batch is used only while its lock is held'))
    g=st.ghost; g['held']=0; g['delta']=0; g['stored']=0; g['cmd']='none'; g['accepted']='none'; g['emptied']='no'; g['refused']='no'; g['~start']=0; g['~cmdval']=None
def m_lock(V,st,a,i):
    V.oblige(st,a[0].obj is V.tab and isint(a[0].off) and a[0].off==V.mx,'the lock of the batch is taken'); g=st.ghost; g['held']+=1
    if g['held']>1: return None
    x=st.fork(); p=fresh('pending',32); V.keep.append(p); V.batch.setentry(V,x,{0:(4,p)}); x.ghost['~start']=p; r=[(x,None)]
    if V.batching: z=st.fork(); x.assume(Not(eq(p,0))); V.batch.setentry(V,z,{0:(4,0)}); z.ghost['~start']=0; r.append((z,None))
    V.batch.absent(V,st); g['~start']=0; return Forks(r+[(st,None)])
def m_unlock(V,st,a,i):
    V.oblige(st,a[0].obj is V.tab and isint(a[0].off) and a[0].off==V.mx,'the lock of the batch is given up'); g=st.ghost; V.oblige(st,g['held']>=1,'the lock is given up only when it is held'); g['held']-=1
    if g['held']: return None
    v=V.batch.value(V,st,0,4) if g['map:batch']=='present' else 0
    if v is None: raise Unsupported('value of an entry')
    d=add(32,g['delta'],sub(32,v,g['~start'])); d=d if isint(d) else simp(d)
    if not isint(d): V.keep.append(d)
    if V.batching: V.oblige(st,Or(eq(v,0),eq(v,g['~start']),sbool(g['refused']=='yes')),'events are kept or taken all together, and put back only when their statement was refused')
    g['delta']=d; V.batch.absent(V,st); V.setc(st,V.batch.node,Cells())
    for k in('stale','passed','at'): g[k+':batch']='none'
    if V.batching and g['emptied']=='no' and not(isint(v) and v!=0):
        if isint(v): g['emptied']='yes'; return None
        x=st.fork(); x.assume(eq(v,0)); x.ghost['emptied']='yes'; st.assume(Not(eq(v,0))); return Forks([(x,None),(st,None)])
    return None
# ------------------------------------------------------------------ statements
def squeeze(t): return _re.sub(r'\s*==?\s*','=',_re.sub(r'\s*([(),+])\s*',r'\1',_re.sub(r'\s+',' ',t.replace('"',"'"))))
def command(V,st,v):
    """kind, number, whose ('key','other','all')"""
    p=pieces(v)
    if p is None: raise Unsupported('statement text')
    t=''.join(squeeze(x.decode('latin1')) if isinstance(x,bytes) else '\x01%d\x02'%k for k,x in enumerate(p)); t=squeeze(t).strip().rstrip(';').strip(); t=t.upper()
    def name(x):
        w=EMPTY
        for y in _re.findall(r'\x01\d+\x02|[^\x01]+',x):
            if y[0]!='\x01': w=cat(w,lit(y)); continue
            q=p[int(y[1:-1])]; w=cat(w,numtext(V,st,q[1],q[3],q[2]) if q[0]=='num' else StrV(q[1],q[0]))
        if any(w.node is n for n in V.others): return 'other'
        q=pieces(w)
        if q is not None and len(q)==1 and not isinstance(q[0],bytes) and any(q[0][0] is n for n in V.others): return 'other'
        sametext(V,st,w,V.key,'the statement is about the counter named'); return 'key'
    def number(x):
        if _re.fullmatch(r'\d+',x): return int(x)&M32
        m=_re.fullmatch(r'\x01(\d+)\x02',x); q=p[int(m.group(1))] if m else None
        if q is None or q[0]!='num': raise Unsupported('statement text')
        V.oblige(st,q[2]==32 and q[1][-1]=='u','a count is written as an unsigned number'); return q[3]
    m=_re.fullmatch(r"INSERT OR IGNORE INTO REPORTING ?\(([A-Z,]*)\) ?VALUES ?\((.*)\)",t,_re.S)
    if m:
        c=m.group(1).split(','); d=m.group(2).split(',')
        if len(c)!=len(d) or 'NAME' not in c: raise Unsupported('statement text')
        q=d[c.index('NAME')]
        if q[0]!="'" or q[-1]!="'": raise Unsupported('statement text')
        V.oblige(st,'VALUE' not in c or d[c.index('VALUE')] in('0',"'0'"),'a counter is created as 0'); V.oblige(st,'CLEAREDTIME' in c,'a counter is created with a time'); return 'create',0,name(q[1:-1])
    m=_re.fullmatch(r"UPDATE REPORTING SET (.*?)(?: WHERE NAME='(.*)')?",t,_re.S)
    if m:
        who='all' if m.group(2) is None else name(m.group(2)); k='nothing',0; sets=_re.findall(r'([A-Z]+)=((?:[^,()]|\([^()]*\))+)',m.group(1))
        for col,x in sets:
            if col in('UPDATETIME','CLEAREDTIME'): continue
            if col!='VALUE': raise Unsupported('statement text')
            q=_re.fullmatch(r'VALUE\+(.*)|MAX\((?:VALUE,(.*)|(.*),VALUE)\)|(.*)',x,_re.S)
            if q.group(1): k='add',number(q.group(1))
            elif q.group(2) or q.group(3): k='max',number(q.group(2) or q.group(3))
            else: k='set',number(x)
        return k[0],k[1],who
    raise Unsupported('statement text: '+t[:60])
def m_command(V,st,a,i):
    V.oblige(st,V.pcmp(st,'eq',a[0],V.db),'the database of the table is used')
    if V.anylen: c_strv(V,st,a[1],'statement'); k='any',0,'other'
    else: k=command(V,st,c_strv(V,st,a[1],'statement'))
    if not(a[2].obj is None): V.store_raw(st,a[2],4,fresh('code',32))
    x=st.fork(); 
    if k[2]!='other':
        g=st.ghost
        if V.batching:
            V.oblige(st,k[0]=='add' and k[2]=='key','pending increments are added'); s=add(32,g['stored'],k[1]); s=s if isint(s) else simp(s)
            if not isint(s): V.keep.append(s)
            g['stored']=s; x.ghost['refused']='yes'
        else:
            V.oblige(st,g['cmd']=='none','one statement')
            for y,ok in((st,'yes'),(x,'no')): y.ghost['cmd']=k[0]+' '+k[2]; y.ghost['~cmdval']=k[1]; y.ghost['accepted']=ok
    return Forks([(st,True),(x,False)])
def m_mapmake(V,st,a,i):
    if any(m.owner is a[0].obj for m in V.tmaps): raise Unsupported('a map within an object')
    Batch(V,st,'map of %s'%a[0].obj.name,a[0].obj); return None
def m_mapdrop(V,st,a,i):
    for m in V.tmaps:
        if m.owner is a[0].obj and m is not V.batch:
            for k in('map','stale','passed','at','some'): st.ghost.pop(k+':'+m.name,None)
def m_time(V,st,a,i):
    if a[0].obj is not None: V.store_raw(st,a[0],8,fresh('time'))
    return fresh('time')
def m_createone(V,st,a,i):
    """the counters of a set are created one by one, in order, until one cannot be"""
    if not V.making: return INLINE
    g=st.ghost; V.oblige(st,a[0].obj is V.tab,'the table given is used'); V.oblige(st,g['failed']=='no','no counter is created after one that could not be')
    want=cat(cat(V.base,lit('.')),numtext(V,st,'%u',g['next'],32)); v=c_strv(V,st,a[1],'name'); V.oblige(st,ule(g['next'],V.last),'no counter beyond the last one is created'); sametext(V,st,v,want,'the counters are named by base and index, in order')
    g['next']=add(32,g['next'],1); x=st.fork(); x.ghost['failed']='yes'; return Forks([(st,True),(x,False)])
MODELS_=mapmodels(logmodels(dict(MODELS)))
for n,f in(('Mutex::lock(char const*, unsigned int)',m_lock),('Mutex::_lock()',m_lock),('Mutex::unlock()',m_unlock),('sqlite_command(sqlite3*, char const*, int*, unsigned int)',m_command),('time',m_time),('syslog',nothing),('gLogEarly(int, char const*, ...)',nothing),
  ('sqlite3_errmsg',lambda V,st,a,i: P(None,fresh('message'))),('gettimeofday',nothing),('Timeval::now()',nothing),('Timeval::future(unsigned int)',nothing),('Timeval::Timeval(unsigned int)',nothing),('Timeval::elapsed() const',lambda V,st,a,i: fresh('elapsed')),('ReportingTable::create(char const*)',m_createone)): MODELS_[norm(n)]=f
MODELS_['*regex']=[(_re.compile(r'std::map<std::string, unsigned int,.*>::map\(\)$'),m_mapmake),(_re.compile(r'std::map<std::string, unsigned int,.*>::~map\(\)$'),m_mapdrop)]+MODELS_['*regex']
def prepare(ctx): ctx.level=None; ctx.onelevel=True; ctx.variants=False; ctx.tmaps=[]; ctx.anylen=False; ctx.batching=False; ctx.making=False; ctx.others=[]; ctx.keep=[]; ctx.convs=[]
# ------------------------------------------------------------------ operations
class Op(Contract):
    no_apply=True; free_globals=True; may_leak=False
    def __init__(s,name,title,args,result,long=False): s.name='ReportingTable::'+name; s.op=title; s.title=title+(' [names of any length]' if long else ''); s.args=args; s.result=result; s.long=long
    def setup(s,V,st):
        V.anylen=s.long; V.batching=s.op=='commit'; V.making=False; n=(1<<20) if s.long else MAX; base=ctext(V,st,'name',n)
        if 'index' in s.args: s.index=z3.BitVec('index',32); V.key=cat(cat(base,lit('.')),numtext(V,st,'%u',s.index,32))
        else: V.key=base
        setup_table(V,st,V.key); r=[]
        for a in s.args:
            if a=='this': r.append(P(V.tab,0))
            elif a=='name': r.append(cobj(V,st,base,'name given','heap'))
            elif a=='index': r.append(s.index)
            elif a=='value': s.v=z3.BitVec('value_given',32); V.keep.append(s.v); r.append(s.v)
        return r
    def extra(s,V,pre,act,out,args):
        st=act; g=st.ghost; V.oblige(st,g['held']==0,'the lock is given up')
        if s.long: return
        s.result(s,V,st,out.val)
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        for m in V.tmaps:
            for o in [m.node,m.scratch]+m.other:
                if o.id in st.mem: V.setc(st,o,ANY)
        return ANY
    def inputs(s,V,st,a): return [('op','str',s.op)]
def said(V,st,r,ok,what):
    r=Not(eq(r,0)) if isint(r) or z3.is_bv(r) else r; V.oblige(st,sbool(bz(r)==bz(ok)),what)
def by_command(kind,val=lambda s: 0):
    def f(s,V,st,r):
        g=st.ghost; V.oblige(st,g['cmd']==kind,'the statement that does it is run'); V.oblige(st,g['~cmdval'] is not None and eq(g['~cmdval'],val(s)),'with the value given'); V.oblige(st,eq(g['delta'],0),'pending increments stay as they are'); said(V,st,r,g['accepted']=='yes','success is reported exactly when the database accepted it')
    return f
def r_incr(s,V,st,r): g=st.ghost; V.oblige(st,g['cmd']=='none','no statement is run'); V.oblige(st,eq(g['delta'],1),'the counter grows by one'); said(V,st,r,True,'success is reported')
def r_commit(s,V,st,r): g=st.ghost; V.oblige(st,g['emptied']=='yes','at some moment no event was pending any more'); V.oblige(st,eq(add(32,g['delta'],g['stored']),0),'what is no longer pending was stored, once'); said(V,st,r,True,'success is reported')
class CreateSet(Op):
    def setup(s,V,st):
        V.anylen=s.long; V.batching=False; V.making=True; V.base=ctext(V,st,'name',(1<<20) if s.long else MAX); V.first=z3.BitVec('first',32); V.last=z3.BitVec('last',32); setup_table(V,st,ctext(V,st,'any',MAX)); V.keep+=[V.first,V.last]
        st.assume(z3.ULT(V.last,M32)); st.ghost['next']=V.first; st.ghost['failed']='no'; return [P(V.tab,0),cobj(V,st,V.base,'name given','heap'),V.first,V.last]
    def extra(s,V,pre,act,out,args):
        g=act.ghost; ok=g['failed']=='no'; said(V,act,out.val,ok,'success is reported exactly when every counter could be created')
        if ok: V.oblige(act,ult(V.last,g['next']),'every counter of the set is created')
def tasks():
    t=[]
    for lg in(False,True):
        t+=[Op('create(char const*)','create',['this','name'],by_command('create key'),lg),Op('incr(char const*)','incr',['this','name'],r_incr,lg),Op('incr(char const*, unsigned int)','incr(index)',['this','name','index'],r_incr,lg),
            Op('max(char const*, unsigned int)','max',['this','name','value'],by_command('max key',lambda s: s.v),lg),Op('max(char const*, unsigned int, unsigned int)','max(index)',['this','name','index','value'],by_command('max key',lambda s: s.v),lg),
            Op('clear(char const*)','clear',['this','name'],by_command('set key'),lg),Op('clear(char const*, unsigned int)','clear(index)',['this','name','index'],by_command('set key'),lg),CreateSet('create(char const*, unsigned int, unsigned int)','create(set)',[],None,lg)]
    t+=[Op('clear()','clear(all)',['this'],by_command('set all')),Op('commit()','commit',['this'],r_commit)]
    return t
CONTRACTS=[]
TASKS=[lambda t=t: t for t in tasks()]
ASSUME=['the database does what the statement says or refuses it (sqlite_command: contract proved for D22); what SQL means is trusted','names need no quoting in SQL and contain no NUL; for the accounting they have at most 4000 characters (longer ones: memory safety only; their statements are cut off at 5000 characters)','std::map behaves as documented (props/maps.py)','there are fewer than 2^31 counters, and a set of counters does not end at index 2^32-1','logging and the clock have no effect on counters','formatted numbers: an uninterpreted text per number, no longer than the conversion can give','the constructor and the committing thread\'s loop are not under contract']
