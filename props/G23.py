"""Logging. The configuration is stable during one operation (reads and writes of it: contract proved for K20). The remembered levels and the alarms are monitors: what their
lock guards is arbitrary each time the lock is taken. One arbitrary file name is followed through the cache; the list of alarms is followed by its size and what is added or dropped."""
from engine.verify import *
from engine.models import MODELS
from engine.strings import *
from engine.cfmt import compose
from .logs import *
from .maps import *
import re as _re
SRCS=['Logger.cpp','tu:logm.cpp','tu:logg.cpp']
NATIVE='G23.cpp'
OPTS=dict(loops='abstract',globals_init=True,unroll=20,limit=lambda v: 40)
NAMES=["EMERG","ALERT","CRIT","ERR","WARNING","NOTICE","INFO","DEBUG"]
MORE={"INFORMATION":6,"WARN":4,"ERROR":3,"CRITICAL":2,"EMERGENCY":0}
LEVELS=[(n,k) for k,n in enumerate(NAMES)]+list(MORE.items())
M32=(1<<32)-1
def textlevel(V,st,v):
    """the level a text stands for, -1 if none"""
    r=bv(M32,32)
    for n,k in LEVELS:
        e=eq_strv(V,st,v,lit(n)); r=simp(z3.If(bz(e),bv(k,32),r))
    return r
def level(V,st,v): t=textlevel(V,st,v); return simp(z3.If(t==M32,textlevel(V,st,V.deflt),t))
def glob(V,st,part):
    for m in V.prog.mods:
        for n in m.globals:
            if part in n and not n.startswith('_ZGV') and not n.startswith('.'):
                p=V.globj(st,n,m)
                if p.obj.kind=='global': return p.obj
    return None
# ------------------------------------------------------------------ configuration
class Key:
    def __init__(s,name,text,must=False): s.name=name;s.text=text;s.must=must;s.val=None
def sameas(V,a,b):
    if a.same(b) or isint(a.len) and isint(b.len) and a.len==b.len==0: return True
    p,q=pieces(a),pieces(b)
    return p is not None and q is not None and len(p)==len(q) and all(x==y if isinstance(x,bytes) or isinstance(y,bytes) else x[0] is y[0] and same(x[1],y[1]) for x,y in zip(p,q))
def which(V,st,p):
    v=V.str_get(st,p)
    for k in V.keys:
        if sameas(V,v,k.text): return k
    if V.otherkeys: return None
    raise Unsupported('another configuration key')
def cfg(V,st,a): V.oblige(st,a.obj is V.globj(st,'gConfig',next(m for m in V.prog.mods if 'gConfig' in m.globals)).obj,'the configuration is used')
def m_defines(V,st,a,i):
    cfg(V,st,a[0]); k=which(V,st,a[1])
    if k is None: return True if V.anylog else freshb('defined')
    g=st.ghost; n='cfg:'+k.name
    if g[n]=='?': x=st.fork(); x.ghost[n]='yes'; g[n]='no'; return Forks([(x,True),(st,False)])
    return g[n]=='yes'
def m_getstr(V,st,a,i):
    cfg(V,st,a[1]); k=which(V,st,a[2])
    if k is None:
        t=ctext(V,st,'other value',400); st.assume(z3.UGE(t.len,1)); V.str_set(st,a[0],t); return None
    g=st.ghost; n='cfg:'+k.name
    if V.anylog and k.name=='own' and g[n]=='yes':
        x=st.fork(); x.assume(eq(k.val.len,0)); x.ghost[n]='empty'; st.assume(Not(eq(k.val.len,0))); g[n]='text'; V.str_set(x,a[0],k.val); V.str_set(st,a[0],k.val); return Forks([(x,None),(st,None)])
    V.oblige(st,g[n]!='no','only a value that is defined is read')
    if g[n]=='?': raise Unsupported('a value is read without asking whether there is one')
    V.str_set(st,a[0],k.val)
def m_set(V,st,a,i):
    cfg(V,st,a[0]); k=which(V,st,a[1]); v=V.str_get(st,a[2])
    if k is not None: V.oblige(st,textlevel(V,st,k.val)==M32,'a setting is replaced only if it is no level'); sametext(V,st,v,V.deflt,'a setting is replaced by the default level')
    return freshb('set')
def m_getnum(V,st,a,i):
    cfg(V,st,a[0]); v=V.str_get(st,a[1])
    if not sameas(V,v,lit('Log.Alarms.Max')): raise Unsupported('another configuration number')
    return V.max
# ------------------------------------------------------------------ locks
def m_lock(V,st,a,i):
    g=st.ghost; V.oblige(st,a[0].obj.kind=='global','a lock of the logger is taken'); n='held:'+str(a[0].obj.name); V.oblige(st,g.get(n,'no')=='no','a lock is not taken twice'); g[n]='yes'
    return V.onlock(V,st,a[0].obj) if getattr(V,'onlock',None) else None
def m_unlock(V,st,a,i):
    g=st.ghost; n='held:'+str(a[0].obj.name); V.oblige(st,g.get(n,'no')=='yes','only a lock that is held is given up'); g.pop(n,None)
    return V.onunlock(V,st,a[0].obj) if getattr(V,'onunlock',None) else None
def anyheld(g): return any(k.startswith('held:') and v=='yes' for k,v in g.items())
# ------------------------------------------------------------------ remembered levels
def m_levels(V,st,a,i):
    d=i['dem']; g=st.ghost; m=_re.search(r'> > >::(~?\w+|operator\[\])(<.*>)?\(.*\)( const)?$',d); op=m.group(1) if m else '?'
    if not V.cacheobj: raise Unsupported('a map of levels here')
    if op in('map','~map'): raise Unsupported('a map of levels of its own')
    V.oblige(st,a[0].obj.kind=='global','the remembered levels are used'); V.oblige(st,anyheld(g),'the remembered levels are used only while their lock is held')
    def key(p):
        k=V.load_raw(st,p,8); V.oblige(st,eq(k,V.hash),'a level is remembered under the hash of the file name')
    def use(): g['uses']=add(64,g['uses'],1); V.keep.append(g['uses']) if not isint(g['uses']) else 0
    there=g['entry']!='no'; end=P(V.levend,0); node=P(V.levnode,0)
    if op in('find','count'):
        key(a[1]); use()
        if there: g['~seen']=g['~seen']+(V.load_raw(st,P(V.levnode,40),4),)
        return (node if there else end) if op=='find' else int(there)
    if op in('end','cend'): return end
    if op=='clear': g['entry']='no'; g['uses']=0; return None
    if op=='operator[]':
        key(a[1]); V.setc(st,V.levnode,V.content(st,V.levnode) if there else Cells({32:(8,V.hash),40:(4,0)})); g['entry']='yes'; return P(V.levnode,40)
    if op in('insert','emplace') and len(a)==2:
        key(a[1]); v=V.load_raw(st,add_p(a[1],8),4)
        if not there: V.setc(st,V.levnode,Cells({32:(8,V.hash),40:(4,v)})); g['entry']='yes'
        return (node,0 if there else 1)
    if op in('size','empty'): n=fresh('levels'); return n if op=='size' else freshb('empty')
    raise Unsupported('std::map::'+op)
def add_p(p,n): return P(p.obj,add(64,p.off,n))
# ------------------------------------------------------------------ alarms
def m_alarms(V,st,a,i):
    d=i['dem']; g=st.ghost; m=_re.search(r'> ?>::(~?\w+)(<.*>)?\(.*\)( const)?$',d); op=m.group(1) if m else '?'; ar=d[d.rindex('('):] if m else ''
    loc=a[0].obj.kind!='global'
    if loc:
        n='~list:%d'%a[0].obj.id
        if op=='list' and len(a)==1: g[n]='empty'; V.setc(st,a[0].obj,V.content(st,a[0].obj)); return None
        if op=='list' and len(a)==2 and a[1].obj.kind=='global': V.oblige(st,anyheld(g),'the alarms are used only while their lock is held'); g[n]='alarms'; return None
        if op=='operator=' : raise Unsupported('list assignment')
        if op in('~list',): g.pop(n,None); return None
        if op in('begin','end','cbegin','cend'): return P(V.listmark[0] ,0)
        raise Unsupported('std::list::'+op)
    V.oblige(st,anyheld(g),'the alarms are used only while their lock is held')
    if op in('push_back','emplace_back'):
        sametext(V,st,V.str_get(st,a[1]),V.alarm,'the alarm remembered is the one raised'); V.oblige(st,g['pushed']=='no','an alarm is remembered once'); g['pushed']='yes'; g['n']=add(64,g['n'],1); V.keep.append(g['n']); return None
    if op in('size',): return g['n']
    if op=='empty': return eq(g['n'],0)
    if op=='pop_front':
        V.oblige(st,ult(V.max,g['n']),'an alarm is dropped only when there are too many'); g['n']=sub(64,g['n'],1); return None
    if op in('begin','cbegin'): return P(V.listmark[1],0)
    if op in('end','cend'): return P(V.listmark[2],0)
    raise Unsupported('std::list::'+op)
def m_copy(V,st,a,i):
    if len(a)!=4: raise Unsupported('a copy')
    V.oblige(st,a[0].obj is V.listmark[1] and a[1].obj is V.listmark[2],'all alarms are copied'); V.oblige(st,anyheld(st.ghost),'the alarms are used only while their lock is held')
    n='~list:%d'%a[2].obj.id; V.oblige(st,st.ghost.get(n)=='empty','the alarms are copied once'); st.ghost[n]='alarms'; return (a[2],a[3])
def m_iterctor(V,st,a,i): V.store_raw(st,a[0],8,a[1]); V.store_raw(st,add_p(a[0],8),8,a[2])
# ------------------------------------------------------------------ messages
def m_str(V,st,a,i): V.str_set(st,a[0],V.message if getattr(V,'message',None) is not None else V.str_fresh(st,'text'))
def m_syslog(V,st,a,i):
    if getattr(V,'message',None) is None: return None
    g=st.ghost; V.oblige(st,eq(a[0],V.prio),'the message is sent with its severity'); b=lit_bytes(V,st,a[1])
    if b is None: V.oblige(st,False,'the message is not used as a format'); return None
    v=compose(V,st,bytes(b),[(i['ins'].a['args'][k][0],a[k]) for k in range(2,len(a))]); sametext(V,st,v,V.message,'the message is sent as it is'); g['sent']+=1
def num(n): return lambda V,st,a,i: fresh('result',32)
def m_logctor(V,st,a,i):
    if V.logging is None: return None
    V.oblige(st,st.ghost['logs']=='none','one message'); V.oblige(st,eq(a[1],V.logging),'the message has the severity given'); st.ghost['logs']='open'
def m_logdtor(V,st,a,i):
    if V.selfdtor: return INLINE
    if V.logging is not None: V.oblige(st,st.ghost['logs']=='open','a message ends once'); st.ghost['logs']='sent'
def m_loglevel(V,st,a,i):
    if V.anylog: return fresh('level',32)
    if V.logging is None: return INLINE
    return V.inforce
MODELS_=mapmodels(logmodels(dict(MODELS)))
for n,f in(('ConfigurationTable::defines(std::string const&)',m_defines),('ConfigurationTable::getStr(std::string const&)',m_getstr),('ConfigurationTable::set(std::string const&, std::string const&)',m_set),('ConfigurationTable::getNum(std::string const&)',m_getnum),
  ('Mutex::lock(char const*, unsigned int)',m_lock),('Mutex::_lock()',m_lock),('Mutex::unlock()',m_unlock),('syslog',m_syslog),('fputs',num(1)),('fputc',num(1)),('fflush',num(1)),('Log::Log(int)',m_logctor),('Log::~Log()',m_logdtor),('gGetLoggingLevel(char const*)',m_loglevel),
  ('std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >::str() const',m_str),('std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >::~basic_ostringstream()',nothing)): MODELS_[norm(n)]=f
def m_hash(V,st,a,i):
    p,_=parts(V,'class.HashString'); v=V.str_get(st,a[0]); V.store_raw(st,P(a[0].obj,add(64,a[0].off,p[1][0])),8,V.hash if V.hash is not None and sameas(V,v,V.name) else fresh('hash'))
MODELS_[norm('HashString::computeHash()')]=m_hash
MODELS_['*regex']=[(_re.compile(r'(.* )?std::map<unsigned long, int,.*>::.*'),m_levels),(_re.compile(r'(.* )?std::list<std::string, std::allocator<std::string ?> ?>::.*'),m_alarms),
  (_re.compile(r'std::insert_iterator<std::list<std::string,.*std::copy<std::_List_(const_)?iterator.*'),m_copy),(_re.compile(r'std::insert_iterator<std::list<std::string, [^()]*>::insert_iterator\(.*'),m_iterctor)]+MODELS_['*regex']
def prepare(ctx):
    for k in('level','message','onlock','onunlock','hash','logging','inforce','name'): setattr(ctx,k,None)
    ctx.onelevel=True; ctx.ownlevel=False; ctx.anylog=False; ctx.variants=False; ctx.tmaps=[]; ctx.keys=[]; ctx.otherkeys=False; ctx.cacheobj=False; ctx.selfdtor=False; ctx.keep=[]; ctx.ghost_refresh={}
def m_text2level(V,st,a,i):
    if V.ownlevel: return INLINE
    if V.anylog:
        v=V.str_get(st,a[0])
        if v.same(V.deflt): t=textlevel(V,st,v); V.keep.append(t); return t
        if not v.same(V.keys[0].val): t=fresh('level',32); st.assume(z3.And(t>=0,t<=7)); return t
        t=textlevel(V,st,v); V.keep+=[t,simp(z3.Extract(7,0,t))]; x=st.fork(); x.assume(t==M32); x.ghost['bad']='yes'; st.assume(t!=M32); st.ghost['bad']='no'; return Forks([(x,M32),(st,t)])
    t=textlevel(V,st,V.str_get(st,a[0])); V.keep.append(t); return t
MODELS_[norm('levelStringToInt(std::string const&)')]=m_text2level
# ------------------------------------------------------------------ contracts
class Base_(Contract):
    no_apply=True; free_globals=True; may_leak=True
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        for oid,(live,c,o) in list(st.mem.items()):
            if o.kind=='global' and live: V.setc(st,o,ANY)
        for o in getattr(V,'touched',[]):
            if o.id in st.mem: V.setc(st,o,ANY)
        return ANY
    def inputs(s,V,st,a): return [('op','str',s.op)]
def settings(V,st,keys):
    V.keys=keys; V.max=fresh('max'); st.assume(z3.ULT(V.max,1<<31)); V.keep.append(V.max); V.deflt=ctext(V,st,'default level',400)
    for k in keys: st.ghost['cfg:'+k.name]='yes' if k.must else '?'; k.val=k.val or ctext(V,st,k.name,400)
    c=V.globj(st,'gConfig',next(m for m in V.prog.mods if 'gConfig' in m.globals)).obj
    V.schema=TMap(V,st,'schema',c,'std::string','ConfigurationKey',lit('Log.Level'),fixed=True); p,_=parts(V,'class.ConfigurationKey'); t=[x for x in p if x[2]=='str']; d={}
    for j,x in enumerate(t): d[x[0]]=(32,V.deflt if j==1 else ctext(V,st,'schema text',200))
    for x in p:
        if x[2]=='i32': d[x[0]]=(4,fresh('kind',32))
        elif x[2]=='i8': b=fresh('flag',8); st.assume(z3.ULE(b,1)); d[x[0]]=(1,b)
    V.schema.setentry(V,st,d); V.touched=[V.schema.node]+V.schema.other
class Level(Base_):
    def __init__(s,op,null): s.name='gGetLoggingLevel(char const*)'; s.op=op; s.title=op; s.null=null
    def setup(s,V,st):
        V.cacheobj=True; V.name=EMPTY if s.null else ctext(V,st,'file',400); V.hash=fresh('hash'); V.keep.append(V.hash)
        settings(V,st,[Key('own',cat(lit('Log.Level.'),V.name)),Key('global',lit('Log.Level'),True)])
        V.levnode=V.new(st,'remembered level',48,'stack',Cells(),assume=False); V.levend=V.new(st,'end of the remembered levels',48,'stack',Cells(),assume=False); V.touched+=[V.levnode,V.levend]
        for g in('sLogCacheE',):
            for m in V.prog.mods:
                for n in m.globals:
                    if n.startswith('_ZGVZ16gGetLoggingLevel'): V.setc(st,V.globj(st,n,m).obj,Cells({0:(1,1)}))
        V.cnt=glob(V,st,'CacheCount')
        g=st.ghost; g['entry']='no'; g['uses']=0; g['~seen']=()
        V.onlock=s.lock; V.onunlock=s.unlock
        return [NULL if s.null else cobj(V,st,V.name,'file name','heap')]
    def lock(s,V,st,m):
        u=fresh('uses'); c=fresh('count',32); st.assume(z3.ULE(u,1001)); st.assume(z3.And(z3.UGE(z3.ZeroExt(32,c),u),z3.ULE(c,1001))); V.keep+=[u,c]; st.ghost['uses']=u
        if V.cnt is not None: V.setc(st,V.cnt,Cells({0:(4,c)}))
        x=st.fork(); v=fresh('remembered',32); V.keep.append(v); V.setc(x,V.levnode,Cells({32:(8,V.hash),40:(4,v)})); x.ghost['entry']='was'; x.ghost['~entry']=v; st.ghost['entry']='no'; return Forks([(x,None),(st,None)])
    def unlock(s,V,st,m):
        g=st.ghost
        if V.cnt is None: raise Unsupported('counting of the uses')
        c=V.load_raw(st,P(V.cnt,0),4); V.oblige(st,And(ule(g['uses'],zext(c,32,64) if not isint(c) else c),ule(c,1001)),'levels are forgotten after at most 1001 uses')
        if g['entry'] in('yes','was'):
            v=V.load_raw(st,P(V.levnode,40),4); e=s.expect(V,st); V.oblige(st,Or(*([eq(v,e)]+([eq(v,g['~entry'])] if g['entry']=='was' else []))),'the level remembered is the one in force')
        g['entry']='no'; V.setc(st,V.levnode,Cells())
    def expect(s,V,st):
        own,gl=V.keys; t=level(V,st,gl.val); u=level(V,st,own.val); o=st.ghost['cfg:own']
        w=simp(z3.If(bz(eq(own.val.len,0)),t,u))
        if o=='?': b=freshb('own level'); return simp(z3.If(b,w,t))
        return w if o=='yes' else t
    def extra(s,V,pre,act,out,args):
        V.oblige(act,not anyheld(act.ghost),'the lock is given up'); e=s.expect(V,act); r=bv(out.val,32) if isint(out.val) else out.val
        V.oblige(act,Or(*([eq(r,e)]+[eq(r,x) for x in act.ghost['~seen']])),'the level is the one remembered for the file, or the one in force')
class TextLevel(Base_):
    name='levelStringToInt(std::string const&)'; op='levels'; title='levelStringToInt'
    def setup(s,V,st):
        V.ownlevel=True; V.touched=[]; s.t=ctext(V,st,'level text',400); V.deflt=s.t; return [P(V.new(st,'text given',32,'heap',Cells({0:(32,s.t)})),0)]
    def extra(s,V,pre,act,out,args):
        r=bv(out.val&M32,32) if isint(out.val) else out.val; V.oblige(act,eq(r,textlevel(V,act,s.t)),'the level is the one the text names, -1 if none')
GROUPS=['Control','SIP','GSM','GPRS','Layer2','SMS']
class SetAll(Base_):
    name='LogGroup::setAll()'; op='setAll'
    def __init__(s,g,watch): s.g=g; s.watch=watch; s.title='LogGroup::setAll (%s of group %s)'%('watch level' if watch else 'level',GROUPS[g])
    def setup(s,V,st):
        V.anylog=True; V.otherkeys=True; settings(V,st,[Key('own',lit(('Log.Watch.' if s.watch else 'Log.Group.')+GROUPS[s.g]))]); st.ghost['bad']='?'
        ps,n=parts(V,'class.LogGroup'); s.o=V.new(st,'groups',n,'heap',Cells(init='sym')); V.touched.append(s.o)
        if n!=2*len(GROUPS): raise Unsupported('number of groups')
        d=textlevel(V,st,V.deflt); V.keep+=[d,simp(z3.Extract(7,0,d))]; return [P(s.o,0)]
    def extra(s,V,pre,act,out,args):
        st=act; g=st.ghost; v=V.load_raw(st,P(s.o,s.g+(len(GROUPS) if s.watch else 0)),1); v=bv(v&255,8) if isint(v) else v; c=g['cfg:own']; V.oblige(st,c!='?','the level of every group is read')
        if c in('no','empty'): V.oblige(st,eq(v,0),'a group without a level gets none')
        elif c=='text': e=textlevel(V,st,V.deflt if g['bad']=='yes' else V.keys[0].val); V.oblige(st,v==z3.Extract(7,0,e),'a group gets the level configured')
        else: raise Unsupported('setting of a group')
class Alarms:
    @staticmethod
    def setup(V,st):
        g=st.ghost; g['n']=0; g['pushed']='no'; V.listmark=[V.new(st,x,32,'stack',Cells(),assume=False) for x in('a place in the copy','first alarm','end of the alarms')]
        def lock(V,st,m):
            if not 'alarm' in str(m.name): return None
            n=fresh('alarms'); st.assume(z3.ULT(n,1<<31)); st.ghost['n']=n; V.keep.append(n)
        V.onlock=lock; V.onunlock=None
        def unlock(V,st,m):
            if 'alarm' in str(m.name): V.oblige(st,Or(ule(st.ghost['n'],V.max),sbool(st.ghost['pushed']=='no')),'no more alarms are remembered than configured')
        V.onunlock=unlock; V.ghost_refresh['n']=lambda V,st: fresh('alarms')
class AddAlarm(Base_):
    name='addAlarm(std::string const&)'; op='addAlarm'; title='addAlarm'
    def setup(s,V,st):
        settings(V,st,[Key('global',lit('Log.Level'),True)]); Alarms.setup(V,st); V.alarm=ctext(V,st,'alarm',4000); o=V.new(st,'alarm given',32,'heap',Cells({0:(32,V.alarm)})); s.o=o; return [P(o,0)]
    def extra(s,V,pre,act,out,args):
        g=act.ghost; V.oblige(act,not anyheld(g),'the lock is given up'); V.oblige(act,g['pushed']=='yes','the alarm is remembered')
class GetAlarms(Base_):
    name='gGetLoggerAlarms()'; op='gGetLoggerAlarms'; title='gGetLoggerAlarms'
    def setup(s,V,st):
        settings(V,st,[Key('global',lit('Log.Level'),True)]); Alarms.setup(V,st); s.o=V.new(st,'result',24,'heap',Cells(init='sym')); V.touched.append(s.o); return [P(s.o,0)]
    def extra(s,V,pre,act,out,args):
        g=act.ghost; V.oblige(act,not anyheld(g),'the lock is given up'); V.oblige(act,g.pop('~list:%d'%s.o.id,'')=='alarms','all alarms are returned'); V.oblige(act,g['pushed']=='no','no alarm is added')
class Emit(Base_):
    name='Log::~Log()'; op='emit'; title='end of a message'
    def setup(s,V,st):
        settings(V,st,[Key('global',lit('Log.Level'),True)]); Alarms.setup(V,st); V.selfdtor=True; V.message=V.alarm=ctext(V,st,'message',4000); V.prio=z3.BitVec('severity',32); st.assume(z3.ULE(V.prio,7)); V.keep.append(V.prio)
        ps,n=parts(V,'class.Log'); ii=[x for x in ps if x[2]=='i32']; bb=[x for x in ps if x[2]=='i8']
        if len(ii)!=1 or len(bb)!=1: raise Unsupported('layout of Log')
        s.dummy=fresh('dummy',8); st.assume(z3.ULE(s.dummy,1)); o=V.new(st,'message object',n,'heap',Cells({ii[0][0]:(4,V.prio),bb[0][0]:(1,s.dummy)})); V.touched.append(o)
        for nm in('gLogToConsole','gLogToFile'):
            x=glob(V,st,nm)
            if x is not None: V.setc(st,x,Cells({0:(x.size,fresh('choice',8) if x.size==1 else P(None,fresh('file')))}))
            if x is not None and x.size==1: st.assume(z3.ULE(V.content(st,x).d[0][1],1))
        x=glob(V,st,'sLoggerInited')
        if x is None: raise Unsupported('whether the logger is ready')
        V.setc(st,x,Cells({0:(1,1)})); st.ghost['sent']=0; return [P(o,0)]
    def extra(s,V,pre,act,out,args):
        g=act.ghost; V.oblige(act,not anyheld(g),'the locks are given up'); d=Not(eq(s.dummy,0)); V.oblige(act,eq_bool(g['sent']==1,Not(d)),'a message is sent exactly once'); V.oblige(act,g['sent']<=1,'a message is sent once')
        V.oblige(act,eq_bool(g['pushed']=='yes',And(Not(d),ule(V.prio,2))),'exactly messages of severity CRIT and above are alarms')
def eq_bool(c,x): return sbool(bz(x)==bz(c))
class Say(Base_):
    def __init__(s,lv,group): s.lv=NAMES.index(lv); s.group=group; s.name='tu_%ssay_%s()'%('g' if group else '',lv); s.op='LOG'; s.title='LOG(%s)%s'%(lv,' with a group' if group else '')
    def setup(s,V,st):
        V.logging=s.lv; V.inforce=z3.BitVec('level_in_force',32); V.keep.append(V.inforce); st.ghost['logs']='none'; V.touched=[]; return []
    def extra(s,V,pre,act,out,args):
        x=V.inforce>=s.lv
        if s.group:
            ps,n=parts(V,'class.LogGroup'); o=V.globj(act,'gLogGroup',next(m for m in V.prog.mods if 'gLogGroup' in m.globals)).obj; q=V.load_raw(act,P(o,2),1); x=z3.Or(x,z3.SignExt(24,bv(q,8))>=s.lv)
        V.oblige(act,sbool(x==(act.ghost['logs']=='sent')),'the message is emitted exactly when it passes the level in force'); V.oblige(act,act.ghost['logs']!='open','a message is ended')
def tasks():
    return [TextLevel(),Level('gGetLoggingLevel',False),Level('gGetLoggingLevel(NULL)',True),*[SetAll(g,w) for g in range(6) for w in(False,True)],AddAlarm(),GetAlarms(),Emit()]+[Say(l,g) for g in(False,True) for l in NAMES]
CONTRACTS=[]
TASKS=[lambda t=t: t for t in tasks()]
ASSUME=['at most 2^31 alarms are remembered','the configuration does not change during one operation, and "Log.Level" has a value (schema default)','ConfigurationTable behaves as proved for K20','std::list and std::map behave as documented','different file names have different hashes (64 bit)','iostream, syslog and files do what they are told','what sLoggerInited and the schema are set to by start-up code']
