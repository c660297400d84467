"""Configuration table. The table is a monitor: whatever its lock guards (the cache entry and the stored value of the key asked for) is arbitrary,
subject to the invariant, each time the lock is taken, and must satisfy it again when it is given up. Invariant: a cached record says what is stored, or
the default of the schema when nothing is stored, or that there is no value when there is neither. Database commands are recognised by their text; each
may fail. sqlite helpers come with the contracts proved for D22."""
from engine.verify import *
from engine.models import MODELS
from engine.cfmt import *
from .logs import *
import re as _re
from .maps import *
SRCS=['Configuration.cpp']
NATIVE='K20.cpp'
OPTS=dict(loops='abstract')
# ------------------------------------------------------------------ the table
def held(V,st,what): V.oblige(st,st.ghost['held']>=1,what+' only while the lock of the table is held')
class Rec:
    """layout of a cached record"""
    def __init__(s,V):
        p,s.size=parts(V,'class.ConfigurationRecord'); t=[x for x in p if x[2]=='str']; b=[x for x in p if x[2]=='i8']
        if len(t)!=2 or len(b)!=2 or len(p)!=4: raise Unsupported('layout of a record')
        s.key,s.val,s.defd,s.warn=t[0][0],t[1][0],b[0][0],b[1][0]
    def cells(s,V,st,key,val,defd):
        w=fresh('warned',8); st.assume(z3.ULE(w,1)); return {s.key:(32,key),s.val:(32,val),s.defd:(1,int(defd)),s.warn:(1,w)}
def setup_table(s,V,st,schema):
    ps,n=parts(V,'class.ConfigurationTable'); V.tab=V.new(st,'table',n,'heap',Cells()); V.db=P(None,z3.BitVec('database',64)); V.keep=[V.db.off]; st.assume(V.db.off!=0)
    pp=[x for x in ps if x[2]=='ptr']
    V.setc(st,V.tab,Cells({pp[0][0]:(8,V.db),**{x[0]:(8,P(None,fresh('hook'))) for x in pp[1:]}})); V.mx=[x for x in ps if x[2]=='class.Mutex'][0][0]
    V.key=ctext(V,st,'key',400); V.rec=Rec(V)
    V.cache=TMap(V,st,'cache','' ,'HashString','ConfigurationRecord',V.key,on=lambda V,st,w: held(V,st,'the cache is used')); V.cache.owner=V.tab; V.cache.default=default_record
    V.schema=TMap(V,st,'schema',V.tab,'std::string','ConfigurationKey',V.key,fixed=True)
    p,_=parts(V,'class.ConfigurationKey'); t=[x for x in p if x[2]=='str']
    if len(t)!=5: raise Unsupported('layout of a schema entry')
    V.deflt=ctext(V,st,'default',400); V.descr=ctext(V,st,'description',400); V.static=fresh('static',8); st.assume(z3.ULE(V.static,1))
    if schema:
        d={}
        for j,x in enumerate(t): d[x[0]]=(32,[V.key,V.deflt,ctext(V,st,'units',100),ctext(V,st,'valid',100),V.descr][j])
        b=[x for x in p if x[2]=='i8'][0]
        for x in p:
            if x[2]=='i32': d[x[0]]=(4,fresh('kind',32))
        d[b[0]]=(1,V.static); V.schema.setentry(V,st,d)
    V.hasschema=schema; V.convs=[]
    st.ghost['held']=0; st.ghost['~now']=None; st.ghost['~db']=None; st.ghost['~cmd']=None; st.ghost['~fail']=False; st.ghost['~locked']=0
def default_record(V,st):
    f=V.prog.lookup('ConfigurationRecord::ConfigurationRecord()')
    r=V.run_function(st,f,[P(V.cache.node,V.cache.voff)])
    if len(r)!=1 or r[0].kind!='ret' or r[0].st is not st: raise Unsupported('construction of a record')
def expected(V,db):
    """the value a read gives: text or None"""
    return db if db is not None else V.deflt if V.hasschema else None
def m_lock(V,st,a,i):
    V.oblige(st,a[0].obj is V.tab and isint(a[0].off) and a[0].off==V.mx,'the lock of the table is taken'); g=st.ghost; g['held']+=1
    if g['held']>1: return None
    g['~locked']+=1; k=g['~locked']; r=[]
    for db in(True,False):
        for ca in(False,True):
            x=st.fork(); t=ctext(V,x,'stored%d'%k,400) if db else None; x.ghost['~db']=('db',t); x.ghost['~now']=('db',t); x.ghost['~cmd']=None
            if ca:
                e=expected(V,t); x.assume(True); V.cache.setentry(V,x,V.rec.cells(V,x,ctext(V,x,'recordkey',400),e if e is not None else EMPTY,e is not None))
            else: V.cache.absent(V,x)
            r.append((x,None))
    return Forks(r)
def m_unlock(V,st,a,i):
    V.oblige(st,a[0].obj is V.tab and isint(a[0].off) and a[0].off==V.mx,'the lock of the table is given up'); g=st.ghost; V.oblige(st,g['held']>=1,'the lock is given up only when it is held'); g['held']-=1
    if g['held']: return None
    if g['map:cache']=='present':
        e=expected(V,g['~db'][1]); d=V.cache.value(V,st,V.rec.defd,1); V.oblige(st,d is not None and eq(d,1 if e is not None else 0),'a cached record says whether there is a value')
        if e is not None:
            v=V.cache.value(V,st,V.rec.val); V.oblige(st,isinstance(v,StrV),'a cached record holds the stored value'); sametext(V,st,v,e,'a cached record holds the stored value')
    V.cache.absent(V,st); g['~dbend']=g['~db']; g['~db']=None
# ------------------------------------------------------------------ the database
def lits(V,st,p,what):
    v=c_strv(V,st,p,what); q=pieces(v)
    return q[0].decode('latin1') if q is not None and len(q)==1 and isinstance(q[0],bytes) else None
def known(V,st,a):
    V.oblige(st,V.pcmp(st,'eq',a[0],V.db),'the database of the table is used'); held(V,st,'the database is read')
    if (lits(V,st,a[1],'table name') or '').upper()!='CONFIG' or (lits(V,st,a[2],'key name') or '').upper()!='KEYSTRING' or (lits(V,st,a[4],'value name') or '').upper()!='VALUESTRING': raise Unsupported('another query')
    sametext(V,st,c_strv(V,st,a[3],'key'),V.key,'the value read is that of the key asked for')
def m_single(V,st,a,i):
    known(V,st,a); t=st.ghost['~db'][1]
    if t is not None: V.store_raw(st,a[5],8,cobj(V,st,t,'value read')); return True
    V.store_raw(st,a[5],8,NULL); return freshb('null value')
def m_singles(V,st,a,i):
    known(V,st,a); t=st.ghost['~db'][1]
    if t is not None: V.str_set(st,a[5],t); return True
    x=st.fork(); V.str_set(x,a[5],EMPTY); return Forks([(x,True),(st,False)])
def squeeze(t): return _re.sub(r'\s*==?\s*','=',_re.sub(r'\s*([(),])\s*',r'\1',_re.sub(r'\s+',' ',t.replace('"',"'"))))
def command(V,st,v):
    """('set'|'delete', value) of a statement for the key followed"""
    p=pieces(v)
    if p is None: raise Unsupported('statement text')
    t=''.join(squeeze(x.decode('latin1')) if isinstance(x,bytes) else '\x01%d\x02'%k for k,x in enumerate(p)).strip().rstrip(';').strip()
    def val(x):
        m=_re.fullmatch(r"'((?:[^'\x01]|\x01\d+\x02)*)'",x)
        if not m: raise Unsupported('statement text')
        w=EMPTY
        for y in _re.findall(r'\x01\d+\x02|[^\x01]+',m.group(1)):
            w=cat(w,lit(y) if y[0]!='\x01' else one(p[int(y[1:-1])]))
        return w
    def one(x): return StrV(x[1],x[0]) if x[0]!='num' else numtext(V,st,x[1],x[3],x[2])
    m=_re.fullmatch(r'(?:INSERT OR REPLACE|REPLACE) INTO CONFIG\(([A-Z,]*)\) ?VALUES ?\((.*)\)',_re.sub(r'CONFIG \(','CONFIG(',t),_re.S)
    if m:
        cols=m.group(1).split(','); vals=m.group(2).split(',')
        if len(cols)!=len(vals) or 'KEYSTRING' not in cols or 'VALUESTRING' not in cols: raise Unsupported('statement text')
        sametext(V,st,val(vals[cols.index('KEYSTRING')]),V.key,'the value is stored for the key asked for'); return 'set',val(vals[cols.index('VALUESTRING')])
    m=_re.fullmatch(r"DELETE FROM CONFIG WHERE KEYSTRING=('.*')",t,_re.S)
    if m: sametext(V,st,val(m.group(1)),V.key,'the value removed is that of the key asked for'); return 'delete',None
    raise Unsupported('statement text: '+t[:80].replace('\x01','<').replace('\x02','>'))
def m_command(V,st,a,i):
    V.oblige(st,V.pcmp(st,'eq',a[0],V.db),'the database of the table is used'); held(V,st,'the database is changed')
    k,v=command(V,st,c_strv(V,st,a[1],'statement'))
    if not(a[2].obj is None): V.store_raw(st,a[2],4,fresh('code',32))
    x=st.fork(); x.ghost['~cmd']=(k,v,False); st.ghost['~db']=('db',v); st.ghost['~cmd']=(k,v,True)
    return Forks([(st,True),(x,False)])
# ------------------------------------------------------------------ numbers
def conv(V,st,v,base,w):
    for t,b,r,e,k in V.convs:
        if t.same(v) and b==base and k==w: return r,e
    r=fresh('number',w); e=fresh('parsed'); V.convs.append((v,base,r,e,w)); return r,e
def m_conv(w,base=None):
    def f(V,st,a,i):
        v=c_strv(V,st,a[0],'text of a number'); b=a[2] if base is None else base
        if not isint(b): raise Unsupported('a number base')
        r,e=conv(V,st,v,b,w); st.assume(bz(ule(e,v.len))); st.assume(z3.Implies(bz(eq(v.len,0)),r==0))
        if a[1].obj is not None: V.store_raw(st,a[1],8,P(a[0].obj,add(64,a[0].off,e)))
        if w==64: return r
        V.fp=True; return z3.fpBVToFP(r,z3.Float32())
    return f
def m_hash(V,st,a,i): 
    p,_=parts(V,'class.HashString'); V.access(st,a[0],40,'store'); V.store_raw(st,P(a[0].obj,add(64,a[0].off,p[1][0])),8,fresh('hash'))
def m_time(V,st,a,i):
    t=fresh('time'); st.assume(z3.ULE(t,1<<40))
    if a[0].obj is not None: V.store_raw(st,a[0],8,t)
    return t
def m_less(V,st,a,i):
    V.oblige(st,a[0].obj is V.l.obj and a[1].obj is V.r.obj and a[0].off==0 and a[1].off==0,'the keys given are compared'); return V.order
MODELS_=mapmodels(logmodels(dict(MODELS)))
for n,f in(('Mutex::lock(char const*, unsigned int)',m_lock),('Mutex::_lock()',m_lock),('Mutex::unlock()',m_unlock),('sqlite3_single_lookup(sqlite3*, char const*, char const*, char const*, char const*, char*&, unsigned int)',m_single),
  ('sqlite_single_lookup(sqlite3*, char const*, char const*, char const*, char const*, std::string&)',m_singles),('sqlite_command(sqlite3*, char const*, int*, unsigned int)',m_command),('HashString::computeHash()',m_hash),('time',m_time),
  ('strtol',m_conv(64)),('__isoc23_strtol',m_conv(64)),('strtof',m_conv(32,0)),('syslog',nothing),('gLogEarly(int, char const*, ...)',nothing)): MODELS_[norm(n)]=f
MODELS_['*regex']=[(_re.compile(r'bool std::operator< <char.*>\(std::string const&, std::string const&\)$'),m_less)]+MODELS_['*regex']
def prepare(ctx): ctx.level=None; ctx.onelevel=False; ctx.variants=False; ctx.tmaps=[]
# ------------------------------------------------------------------ operations
class Op(Contract):
    no_apply=True; anyexit=True; free_globals=True; may_leak=False
    def __init__(s,name,title,args,result,schema): s.name='ConfigurationTable::'+name; s.op=title.split('(')[0]; s.title=title+(' [in the schema]' if schema else ' [not in the schema]' if schema is False else ''); s.args=args; s.result=result; s.schema=schema
    def setup(s,V,st):
        setup_table(s,V,st,bool(s.schema)); r=[]; s.out=None; s.v=None
        for a in s.args:
            if a=='sret': s.out=V.new(st,'result',32,'heap',Cells()); r.append(P(s.out,0))
            elif a=='this': r.append(P(V.tab,0))
            elif a=='key': s.ko=V.new(st,'key text',32,'heap',Cells({0:(32,V.key)})); r.append(P(s.ko,0))
            elif a=='value': s.v=ctext(V,st,'value',400); o=V.new(st,'value text',32,'heap',Cells({0:(32,s.v)})); r.append(P(o,0))
            elif a=='long': s.n=z3.BitVec('number_given',64); s.v=numtext(V,st,'%d',s.n,64); r.append(s.n)
        return r
    def extra(s,V,pre,act,out,args):
        st=act; g=st.ghost
        V.oblige(st,g['held']==0,'the lock is given up'); V.oblige(st,g['map:schema']==('present' if s.schema else 'absent'),'the schema is not changed')
        if out.kind=='throw':
            p=out.val[0]; V.oblige(st,'ConfigurationTableKeyNotFound' in str(out.val[1]),'only not-found is thrown'); off=[x for x in parts(V,'class.ConfigurationTableKeyNotFound')[0] if x[2]=='str'][0][0]
            if p.obj is not None: sametext(V,st,V.str_get(st,P(p.obj,add(64,p.off,off))),V.key,'the key not found is the one asked for')
        s.result(s,V,st,out,out.val if out.kind=='ret' else None)
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        if s.out is not None: V.setc(st,s.out,Cells({0:(32,ANY)}))
        for o in [V.cache.node,V.schema.node]+V.cache.other+V.schema.other: V.setc(st,o,ANY)
        return ANY
    def inputs(s,V,st,a): return [('op','str',s.op)]
def tob(x): return Not(eq(x,0)) if isint(x) or z3.is_bv(x) else x
def truth(V,st,r,want,what): V.oblige(st,sbool(bz(tob(r))==bz(want)),what)
def current(s,V,st,out):
    """the value at the time the lock was last taken; checks that not-found is reported exactly when there is none"""
    n=st.ghost['~now']; V.oblige(st,n is not None,'the value is read'); e=expected(V,n[1]); V.oblige(st,(out.kind=='throw')==(e is None),'not-found is reported exactly when there is no value'); return e
def untouched(V,st): V.oblige(st,st.ghost['~cmd'] is None,'a read does not change the database')
def r_str(s,V,st,out,r):
    e=current(s,V,st,out); untouched(V,st)
    if out.kind=='ret': sametext(V,st,V.str_get(st,P(s.out,0)),e,'the current value is returned')
def number(V,st,e,w):
    n=[r for t,b,r,_,k in V.convs if t.same(e) and b==0 and k==w]
    return n[0] if n else None
def r_num(w,post=lambda x: x):
    def f(s,V,st,out,r):
        e=current(s,V,st,out); untouched(V,st)
        if out.kind!='ret': return
        z=eq(e.len,0); n=number(V,st,e,w)
        if post is tob:
            if n is None: V.oblige(st,z,'the number of the current value is returned'); truth(V,st,r,False,'false without a value'); return
            truth(V,st,r,And(Not(z),Not(eq(n,0))),'true exactly when the number of the current value is not 0'); return
        if w==32: r=simp(z3.fpToIEEEBV(r)) if z3.is_fp(r) else r
        if n is None: V.oblige(st,z,'the number of the current value is returned'); V.oblige(st,eq(r,0),'0 without a value'); return
        if w==32: r=bv(r,32); same=sbool(z3.fpBVToFP(r,z3.Float32())==z3.fpBVToFP(n,z3.Float32())); V.oblige(st,Or(And(z,eq(r,0)),And(Not(z),same)),'the number of the current value is returned')
        else: V.oblige(st,Or(And(z,eq(r,0)),And(Not(z),eq(r,n))),'the number of the current value is returned')
    return f
def r_defines(s,V,st,out,r):
    n=st.ghost['~now']; V.oblige(st,out.kind=='ret' and n is not None,'no exception'); untouched(V,st); truth(V,st,r,expected(V,n[1]) is not None,'tells whether there is a value')
def r_inschema(s,V,st,out,r): V.oblige(st,out.kind=='ret','no exception'); truth(V,st,r,bool(s.schema),'tells whether the key is in the schema')
def r_static(s,V,st,out,r): V.oblige(st,out.kind=='ret','no exception'); truth(V,st,r,Not(eq(V.static,0)) if s.schema else False,'tells whether the key is static')
def r_set(s,V,st,out,r):
    c=st.ghost['~cmd']; V.oblige(st,out.kind=='ret','no exception'); V.oblige(st,c is not None and c[0]=='set','the value is stored'); truth(V,st,r,c[2],'success is reported exactly when the value was stored'); sametext(V,st,c[1],s.v,'the value stored is the one given')
def r_remove(s,V,st,out,r):
    c=st.ghost['~cmd']; V.oblige(st,out.kind=='ret','no exception'); V.oblige(st,c is not None and c[0]=='delete','the value is removed'); truth(V,st,r,c[2],'success is reported exactly when the value was removed')
def r_purge(s,V,st,out,r): V.oblige(st,out.kind=='ret','no exception'); untouched(V,st); V.oblige(st,st.ghost['~locked']>=1,'the lock is taken')
class Purge(Op):
    def setup(s,V,st):
        r=Op.setup(s,V,st); s.purged=[]
        return r
    def extra(s,V,pre,act,out,args): Op.extra(s,V,pre,act,out,args); V.oblige(act,act.ghost.get('~left')=='absent','no cached record survives a purge')
class Less(Contract):
    name='std::less<HashString>::operator()(HashString const&, HashString const&) const'; title='cache keys are ordered by their text'; no_apply=True
    def setup(s,V,st):
        n=parts(V,'class.HashString')[1]; mk=lambda nm: P(V.new(st,nm,n,'heap',Cells({0:(32,ctext(V,st,nm)),32:(8,fresh('hash'))})),0)
        V.l=mk('left'); V.r=mk('right'); V.order=freshb('order'); V.convs=[]; return [P(V.new(st,'less',8,'heap',Cells()),0),V.l,V.r]
    def spec(s,V,st,a): return V.order
    def inputs(s,V,st,a): return [('op','str','less')]
def m_unlock_purge(V,st,a,i):
    st.ghost['~left']=st.ghost['map:cache']; return m_unlock(V,st,a,i)
MODELS_[norm('Mutex::unlock()')]=m_unlock_purge
def tasks():
    t=[]; k='(std::string const&)'
    for sc in(True,False):
        t+=[Op('getStr'+k,'getStr',['sret','this','key'],r_str,sc),Op('getNum'+k,'getNum',['this','key'],r_num(64),sc),Op('getBool'+k,'getBool',['this','key'],r_num(64,tob),sc),Op('getFloat'+k,'getFloat',['this','key'],r_num(32),sc),
            Op('defines'+k,'defines',['this','key'],r_defines,sc),Op('keyDefinedInSchema'+k,'keyDefinedInSchema',['this','key'],r_inschema,sc),Op('isStatic'+k,'isStatic',['this','key'],r_static,sc),
            Op('set(std::string const&, std::string const&)','set(text)',['this','key','value'],r_set,sc),Op('set(std::string const&, long)','set(number)',['this','key','long'],r_set,sc),Op('remove'+k,'remove',['this','key'],r_remove,sc)]
    t+=[Purge('purge()','purge',['this'],r_purge,sc) for sc in(True,False)]+[Less()]
    return t
CONTRACTS=[]
TASKS=[lambda t=t: t for t in tasks()]
ASSUME=['the database can be read (a failed read is taken for a missing value by ConfigurationTable::lookup, as its comment says)','only this table changes the rows it reads','keys, values and descriptions need no quoting in SQL and contain no NUL','a new table has an empty cache (its constructor is not under contract) and its database could be opened','the schema does not change while operations run','std::map behaves as documented (props/maps.py)','the sqlite helpers behave as proved for D22','logging has no effect on the table','formatted numbers: an uninterpreted text per number, no longer than the conversion can give']
