"""Database helpers over the contract of the sqlite3 C interface: a statement object is live from a successful prepare to its one finalize; rows and
columns may be read only while the last step returned a row; every attempt may end in any result code. The text of the statement prepared is
part of the contract (compared piece by piece: literals, argument texts, formatted numbers)."""
from engine.verify import *
from engine.models import MODELS
from engine.cfmt import *
from .logs import *
import re as _re
SRCS=['sqlite3util.cpp','Utils.cpp','tu:sql.cpp']
NATIVE='D22.cpp'
OPTS=dict(loops='abstract',limit=lambda vals: 1 if {0,1}<=vals or {4,5}<=vals else 8,bounds=(5,))
OK,ERROR,BUSY,LOCKED,ROW,DONE=0,1,5,6,100,101
KEY,NUM=object(),object()
# ------------------------------------------------------------------ the database
def is_db(V,st,p): V.oblige(st,V.pcmp(st,'eq',p,V.db),'the database given is used')
def stmt(V,st,p,what):
    s=st.ghost['stmt']
    V.oblige(st,s is not None and p.obj is s.obj and isint(p.off) and p.off==0 and V.live(st,s.obj),what+' of a live statement')
def squash(ps):
    """pieces with SQL's insignificant differences in the literal parts removed"""
    out=[]
    for k,x in enumerate(ps):
        if not isinstance(x,bytes): out.append(x); continue
        t=x.decode('latin1').replace('"',"'").upper()
        t=_re.sub(r'\s+',' ',t); t=_re.sub(r'\s*==?\s*','=',t); t=_re.sub(r'\s*([(),])\s*',r'\1',t)
        if k==len(ps)-1: t=_re.sub(r'[\s;]+$','',t)
        if k==0: t=t.lstrip()
        if out and isinstance(out[-1],str): out[-1]+=t
        elif t: out.append(t)
    return out
def samepiece(a,b):
    if isinstance(a,str) or isinstance(b,str): return a==b
    if a[0]=='num' or b[0]=='num': return a[0]==b[0] and a[1].replace('i','d')==b[1].replace('i','d') and a[2]==b[2] and same(a[3],b[3])
    return a[0] is b[0] and same(a[1],b[1])
def is_query(V,st,v,want,what):
    p=pieces(v)
    if p is not None:
        a,b=squash(p),squash(want)
        if len(a)==len(b) and all(samepiece(x,y) for x,y in zip(a,b)): V.oblige(st,True,what); return
    w=EMPTY
    for x in want: w=cat(w,lit(x) if isinstance(x,bytes) else x[4] if x[0]=='num' else StrV(x[1],x[0]))
    k=fresh('k'); V.oblige(st,eq(v.len,w.len),what+' (length)')
    ax=[]; a=v.node.read(k,ax); b=w.node.read(k,ax); y=st.fork()
    for q in ax: y.assume(q)
    V.oblige(y,Implies(ult(k,v.len),eq(bv(a,8),bv(b,8))),what)
def attempt(V,st,what):
    g=st.ghost; V.oblige(st,ult(g['tries'],V.retries),what+' no more often than configured'); 
    if g['last'] is not None: V.oblige(st,g['last']=='busy',what+' again only while the database is busy')
    g['tries']=add(64,g['tries'],1)
def codes(V,st,names):
    r=[]
    for k in names:
        x=st.fork(); c={'ok':OK,'busy':BUSY,'locked':LOCKED,'row':ROW,'done':DONE}.get(k)
        if c is None:
            c=z3.BitVec('code_%d_%s'%(st.ghost['stage'],st.ghost['prepared']),32); V.keep.append(c); x.assume(z3.And(c>0,*[c!=q for q in(5,6,100,101)]))
        x.ghost['last']='busy' if k=='locked' else k; k in('row','done','error') and x.ghost.update(tries=0); x.ghost['code']=c; r.append((x,k,c))
    return r
def m_prepare(V,st,a,i):
    is_db(V,st,a[0]); g=st.ghost; n=g['stage']
    V.oblige(st,g['stmt'] is None,'one statement at a time'); V.oblige(st,n<len(V.texts),'no further statement is run')
    v=c_strv(V,st,a[1],'query text'); V.oblige(st,Or(eq(a[2],bv(v.len if isint(v.len) else trunc(v.len,32),32)),sbool(bv(a[2],32)<0),eq(a[2],trunc(add(64,v.len,1),32))),'the whole query is prepared')
    is_query(V,st,v,V.texts[n],'the query is the one asked for')
    attempt(V,st,'a statement is prepared'); r=[]
    for x,k,c in codes(V,st,('ok','busy','locked','error')):
        if k=='ok':
            o=V.new(x,'statement %d'%n,64,'malloc',Cells()); o.guard=lambda V,st,p,n,what: V.oblige(st,False,'a statement is used through the interface only')
            V.store_raw(x,a[3],8,P(o,0)); x.ghost['stmt']=P(o,0); x.ghost['last']=None; x.ghost['tries']=0; x.ghost['prepared']=True
        else: V.store_raw(x,a[3],8,NULL)
        r.append((x,c))
    if not(a[4].obj is None and isint(a[4].off) and a[4].off==0):
        for x,c in r: V.store_raw(x,a[4],8,P(None,fresh('tail')))
    return Forks(r)
def row_gone(V,st):
    t=st.ghost.get('~text')
    if t: t[0].obj is not None and V.live(st,t[0].obj) and V.kill(st,t[0].obj)
    st.ghost['~text']=None; st.ghost['~int']=None
def m_step(V,st,a,i):
    g=st.ghost; stmt(V,st,a[0],'step'); V.oblige(st,g['last'] not in('done','error','over'),'no step after the end of a result or an error')
    if g['last']=='row': g['last']=None
    attempt(V,st,'a statement is stepped'); row_gone(V,st)
    return Forks([(x,c) for x,k,c in codes(V,st,('row','done','busy','locked','error'))])
def m_finalize(V,st,a,i):
    g=st.ghost
    if a[0].obj is None and eq(a[0].off,0) is True: return fresh('finalize',32)
    stmt(V,st,a[0],'release'); g['~gottext']=g.get('~text'); g['~gotint']=g.get('~int'); row_gone(V,st); V.kill(st,g['stmt'].obj); g['stmt']=None; g['done:%d'%g['stage']]=(g['last'],g['code'],g['tries']) ; g['stage']+=1; g['prepared']=False
    if g['stage']<len(V.texts): g['last']=None; g['tries']=0
    return fresh('finalize',32)
def at_row(V,st,a,what):
    stmt(V,st,a[0],what); V.oblige(st,st.ghost['last']=='row',what+' only of a row'); V.oblige(st,eq(bv(a[1],32),bv(V.col,32)),what+' of the column asked for')
def text(V,st):
    t=st.ghost.get('~text')
    if t: return [(st,t)]
    y=st.fork(); y.ghost['~text']=(NULL,EMPTY); r=[(y,y.ghost['~text'])]
    n=fresh('text_len'); st.assume(z3.ULT(n,1<<30))
    node=Base('text',8,[lambda i,v: z3.And(z3.Implies(i==n,v==0),*([z3.Implies(z3.ULT(i,n),v!=0)] if V.nonul else []))])
    if V.nonul: node.cstr=n
    o=V.new(st,'column text',simp(n+1),'malloc',ArrC(1,node)); st.ghost['~text']=(P(o,0),StrV(n,node)); r.append((st,st.ghost['~text']))
    return r
def m_text(V,st,a,i): at_row(V,st,a,'a value is read'); return Forks([(x,t[0]) for x,t in text(V,st)])
def m_bytes(V,st,a,i):
    at_row(V,st,a,'a value is read'); return Forks([(x,trunc(t[1].len,32) if not isint(t[1].len) else t[1].len) for x,t in text(V,st)])
def m_int(V,st,a,i):
    at_row(V,st,a,'a value is read')
    if st.ghost.get('~int') is None: st.ghost['~int']=fresh('column_int',64)
    r=st.ghost['~int']; return trunc(r,32) if i['name'].endswith('_int') else r
def m_count(V,st,a,i): stmt(V,st,a[0],'column count'); return V.ncols
def cstring(V,st,nm): return CStr(V,st,nm,4000).ptr
def m_errmsg(V,st,a,i): is_db(V,st,a[0]); return once(V,st,'error message')
def m_sql(V,st,a,i): stmt(V,st,a[0],'text'); return once(V,st,'statement text')
def once(V,st,nm): return V.texts_for_logging[nm]
MODELS_=logmodels(dict(MODELS))
MODELS_.update({'sqlite3_prepare_v2':m_prepare,'sqlite3_prepare':m_prepare,'sqlite3_step':m_step,'sqlite3_finalize':m_finalize,'sqlite3_column_text':m_text,'sqlite3_column_bytes':m_bytes,'sqlite3_column_int64':m_int,'sqlite3_column_int':m_int,'sqlite3_column_count':m_count,'sqlite3_errmsg':m_errmsg,'sqlite3_sql':m_sql})
# ------------------------------------------------------------------ any use of a query object
def settle(V,st):
    g=st.ghost
    if g['stmt'] is not None and g['last']=='busy': V.oblige(st,eq(g['tries'],V.retries),'a busy database is tried again as often as configured'); g['last']='over'; g['tries']=0
def h_made(V,st,a,i): settle(V,st)
def h_choice(V,st,a,i): return fresh('choice',32)
def h_column(V,st,a,i): V.col=fresh('column',32); return V.col
def has(st): return st.ghost['stmt'] is not None and st.ghost['last']=='row'
def h_success(V,st,a,i): V.oblige(st,sbool(bz(tob(a[0]))==has(st)),'success means that there is a row')
def h_columns(V,st,a,i): V.oblige(st,eq(a[0],V.ncols if has(st) else 0),'the number of columns, 0 without a row')
def h_step(V,st,a,i):
    g=st.ghost; V.oblige(st,sbool(bz(tob(a[0]))==has(st)),'a step tells whether there is a further row'); settle(V,st)
def tob(x): return Not(eq(x,0)) if isint(x) or z3.is_bv(x) else x
def h_text(V,st,a,i):
    v=V.str_get(st,a[0])
    if has(st):
        t=st.ghost.get('~text'); V.oblige(st,t is not None,'the text is that of the row')
        V._cmpval(v,t[1],'the text is that of the row') if False else sametext(V,st,v,t[1],'the text is that of the row')
        row_gone(V,st)
    else: V.oblige(st,eq(v.len,0),'no text without a row')
    V.col=0
def h_int(V,st,a,i):
    if has(st): t=st.ghost.get('~int'); V.oblige(st,t is not None,'the number is that of the row'); V.oblige(st,eq(a[0],t),'the number is that of the row'); st.ghost['~int']=None
    else: V.oblige(st,eq(a[0],0),'no number without a row')
    V.col=0
for n,f in(('made()',h_made),('choice()',h_choice),('column()',h_column),('saw_success(bool)',h_success),('saw_columns(unsigned int)',h_columns),('saw_step(bool)',h_step),('saw_text(std::string const&)',h_text),('saw_int(long long)',h_int)): MODELS_[norm(n)]=f
def sametext(V,st,v,w,what):
    if v.same(w): V.oblige(st,True,what); return
    V.oblige(st,eq(v.len,w.len),what+' (length)')
    if isint(w.len) and w.len==0: return
    k=fresh('k'); y=st.fork(); ax=[]; a=v.node.read(k,ax); b=w.node.read(k,ax)
    for q in ax: y.assume(q)
    V.oblige(y,Implies(ult(k,v.len),eq(bv(a,8),bv(b,8))),what)
def ghostfacts(V,st):
    """what the result codes and the number of attempts recorded have to do with each other (assumed at loop headers, checked at every back edge)"""
    t=st.ghost['tries']; c=st.ghost['code']; k=st.ghost['last']; r=[]
    if not isint(t): r.append(z3.ULE(t,bv(V.retries)) if k=='busy' else t==0)
    if not isint(c): r.append({'row':c==ROW,'done':c==DONE,'busy':z3.Or(c==BUSY,c==LOCKED),'error':z3.And(z3.ULT(c,1<<31),c!=0,*[c!=q for q in(5,6,100,101)])}.get(k,z3.BoolVal(True)))
    return r
def headfacts(V,st):
    for f in ghostfacts(V,st): st.assume(f)
def backhook(V,H,st):
    for f in ghostfacts(V,st): V.oblige(st,f,'attempts and result codes recorded agree')
def prepare(ctx): ctx.variants=False; ctx.level=None; ctx.onelevel=False; ctx.col=0; ctx.nonul=False
# ------------------------------------------------------------------ operations
class DB(Contract):
    """texts: the statements, in order; each a list of literal bytes and argument names"""
    def __init__(s,name,title,args,texts,result,nonul=False,preset=None,retries=None): s.name=name;s.title=title;s.args=args;s.texts=texts;s.result=result;s.nonul=nonul;s.preset=preset;s.ret=retries
    def setup(s,V,st):
        V.db=P(None,z3.BitVec('database',64)); V.keep=[V.db.off]; V.col=0; V.ncols=z3.BitVec('columns',32); V.nonul=s.nonul; V.headfacts=headfacts; V.backhook=backhook
        V.texts_for_logging={n:CStr(V,st,n,1000).ptr for n in('error message','statement text')}
        st.ghost.update({'stage':0,'tries':0,'last':None,'code':BUSY,'stmt':None,'prepared':False}); V.retries=5; s.v={}; s.out=None; r=[]
        for a in s.args:
            if a=='db': r.append(V.db); continue
            if a.startswith('&'):
                n={'&u':4,'&p':8,'&code':4,'&stmt':8}.get(a)
                if a=='&s': s.out=V.new(st,'result',32,'heap',Cells()); s.old=V.str_fresh(st,'before'); V.str_set(st,P(s.out,0),s.old)
                else: s.old=fresh('before',8*n) if a!='&p' else P(None,fresh('before')); s.out=V.new(st,'result',n,'heap',Cells({0:(n,s.old)} if a!='&stmt' else {}))
                r.append(P(s.out,0)); continue
            if a=='NULL': r.append(NULL); continue
            if a=='sret': s.out=V.new(st,'result',32,'heap',Cells()); r.append(P(s.out,0)); continue
            if a=='stmt': o=V.new(st,'statement',64,'malloc',Cells()); o.guard=lambda V,st,p,n,what: V.oblige(st,False,'a statement is used through the interface only'); st.ghost['stmt']=P(o,0); r.append(P(o,0)); continue
            if a=='retries': s.r=z3.BitVec('retries',32); V.retries=zext(s.r,32,64); V.terms.append(V.retries); r.append(s.r); continue
            if a.startswith('#'): s.v[a[1:]]=z3.BitVec(a[1:],32); r.append(s.v[a[1:]]); continue
            s.v[a]=CStr(V,st,a,900); r.append(s.v[a].ptr)
        V.texts=[]
        for t in s.texts:
            p=[]
            for x in t:
                if isinstance(x,bytes): p.append(x)
                elif isinstance(s.v[x],CStr): p.append((s.v[x].node,s.v[x].len))
                else: p.append(('num','%u',32,s.v[x],numtext(V,st,'%u',s.v[x],32)))
            V.texts.append(p)
        return r
    def extra(s,V,pre,act,out,args):
        if out.kind!='ret': return
        st=act; g=st.ghost; r=out.val
        V.oblige(st,g['last'] !='busy' or eq(g['tries'],V.retries),'a busy database is tried as often as configured')
        if 'stmt' not in s.args and '&stmt' not in s.args: V.oblige(st,g['stmt'] is None,'every statement prepared is released')
        s.result(s,V,st,r,g)
    def spec(s,V,st,a):
        for k in list(st.ghost): st.ghost[k]=ANY
        for k in range(3): st.ghost['done:%d'%k]=ANY
        if s.out is not None: V.setc(st,s.out,Cells({0:(s.out.size if s.out.size!=32 else 32,ANY)}))
        return ANY
    def inputs(s,V,st,a):
        k=['sqlite_command','sqlite3_exists','sqlite3_single_lookup (number)','sqlite3_single_lookup (text)','sqlite3_single_lookup (text, numeric key)','sqlite_single_lookup (text)','sqlite_single_lookup (text, numeric key)','sqlite_single_lookup_string','sqlite_set_attr','sqlQuery','sqlite3_prepare_statement']
        t=s.title; n=k.index(t) if t in k else 0 if 'command' in t else 8 if 'attr' in t else 9 if 'sqlQuery' in t else 10
        return [('op','str',str(n))]
def c32(x): return bv(x,32) if isint(x) or x.size()==32 else trunc(x,32)
def ended(g,k=0):
    """(last,code) of the k-th statement run, None when it was never prepared"""
    x=g.get('done:%d'%k); return x
def truth(V,st,r,want,what): V.oblige(st,sbool(bz(tob(r))==bz(want)),what)
def never(g): return not any(k.startswith('done:') for k in g if not k.startswith('~'))
def r_prepare(s,V,st,r,g):
    if g['stmt'] is not None: V.oblige(st,eq(r,0),'success is reported'); x=V.get(st,s.out,0); V.oblige(st,x.obj is g['stmt'].obj and eq(x.off,0),'the statement is handed over')
    else: V.oblige(st,Not(eq(r,0)),'failure is reported'); V.oblige(st,g['last'] is None or eq(bv(r,32),c32(g['code'])),'the result code of the database is reported')
def r_run(s,V,st,r,g): 
    V.oblige(st,g['stmt'] is not None,'the statement stays with the caller'); V.oblige(st,eq(bv(r,32),c32(g['code'])) if g['last'] is not None else Or(eq(r,BUSY),eq(r,LOCKED)),'the result code of the database is reported')
def lastof(g,k):
    d=g.get('done:%d'%k); return d[0] if d else None
def success(g,k=0): return lastof(g,k) in('row','done')
def r_command(s,V,st,r,g):
    truth(V,st,r,success(g),'success is reported exactly when the statement ran')
    if '&code' in s.args:
        x=V.get(st,s.out,0,4); d=g.get('done:0')
        if d is None: V.oblige(st,eq(x,0xfffffffe),'the result code of a statement that could not be prepared is -2')
        elif d[0] is not None: V.oblige(st,eq(bv(x,32),c32(d[1])),'the result code of the database is reported')
def r_found(s,V,st,r,g): truth(V,st,r,lastof(g,0)=='row','found is reported exactly when there is a row')
def r_uint(s,V,st,r,g):
    r_found(s,V,st,r,g); x=V.get(st,s.out,0,4)
    if lastof(g,0)=='row': V.oblige(st,g.get('~gotint') is not None and eq(x,trunc(g['~gotint'],32)),'the value of the row is returned')
    else: V.oblige(st,eq(x,s.old),'no value without a row')
def r_ptr(s,V,st,r,g):
    r_found(s,V,st,r,g); x=V.get(st,s.out,0); x=x if isinstance(x,P) else P(None,x)
    isnull=V.pcmp(st,'eq',x,NULL)
    if lastof(g,0)=='row':
        t=g.get('~gottext'); V.oblige(st,t is not None,'the value of the row is returned')
        if t[0].obj is None: V.oblige(st,isnull,'a row without a value gives a null pointer')
        else:
            V.oblige(st,x.obj is not None and x.obj.kind=='malloc' and V.live(st,x.obj) and isint(x.off) and x.off==0,'the text is allocated for the caller')
            a=V.to_arr(st,x.obj,1); n=t[1].len; V.oblige(st,ult(n,x.obj.size),'the text has room'); sametext(V,st,StrV(n,a.node),t[1],'the text is that of the row'); V.oblige(st,eq(V.rd(st,a.node,n),0),'the text is terminated')
    else: V.oblige(st,isnull,'no text without a row')
def r_string(s,V,st,r,g):
    if 'sret' not in s.args: r_found(s,V,st,r,g)
    v=V.str_get(st,P(s.out,0))
    if lastof(g,0)=='row':
        t=g.get('~gottext'); V.oblige(st,t is not None,'the value of the row is returned'); sametext(V,st,v,t[1],'the text is that of the row')
    else: sametext(V,st,v,EMPTY if 'sret' in s.args else s.old,'no text without a row')
def r_setattr(s,V,st,r,g): truth(V,st,r,success(g,0) and success(g,1),'success is reported exactly when the value was stored')
def r_use(s,V,st,r,g): pass
def tasks():
    S='char const*'; D='sqlite3*'
    sel=lambda *w: [b'SELECT ']+list(w)
    q=lambda k: [b'SELECT ','valueName',b' FROM ','tableName',b' WHERE ','keyName']+([b" = '",'keyData',b"'"] if k=='c' else [b' = ','keyData'])
    t=[DB('sqlite3_prepare_statement(sqlite3*, sqlite3_stmt**, char const*, unsigned int)','sqlite3_prepare_statement',['db','&stmt','query','retries'],[['query']],r_prepare),
       DB('sqlite3_run_query(sqlite3*, sqlite3_stmt*, unsigned int)','sqlite3_run_query',['db','stmt','retries'],[[]],r_run),
       DB('sqlite_command(sqlite3*, char const*, int*, unsigned int)','sqlite_command (result code wanted)',['db','query','&code','retries'],[['query']],r_command),
       DB('sqlite_command(sqlite3*, char const*, int*, unsigned int)','sqlite_command (result code not wanted)',['db','query','NULL','retries'],[['query']],r_command),
       DB('tu_command(sqlite3*, char const*, unsigned int)','sqlite3_command',['db','query','retries'],[['query']],r_command),
       DB('sqlite3_exists(sqlite3*, char const*, char const*, char const*, unsigned int)','sqlite3_exists',['db','tableName','keyName','keyData','retries'],[[b'SELECT * FROM ','tableName',b' WHERE ','keyName',b" = '",'keyData',b"'"]],r_found),
       DB('sqlite3_single_lookup(sqlite3*, char const*, char const*, char const*, char const*, unsigned int&, unsigned int)','sqlite3_single_lookup (number)',['db','tableName','keyName','keyData','valueName','&u','retries'],[q('c')],r_uint),
       DB('sqlite3_single_lookup(sqlite3*, char const*, char const*, char const*, char const*, char*&, unsigned int)','sqlite3_single_lookup (text)',['db','tableName','keyName','keyData','valueName','&p','retries'],[q('c')],r_ptr,nonul=True),
       DB('sqlite3_single_lookup(sqlite3*, char const*, char const*, unsigned int, char const*, char*&, unsigned int)','sqlite3_single_lookup (text, numeric key)',['db','tableName','keyName','#keyData','valueName','&p','retries'],[q('u')],r_ptr,nonul=True),
       DB('sqlite_single_lookup(sqlite3*, char const*, char const*, char const*, char const*, std::string&)','sqlite_single_lookup (text)',['db','tableName','keyName','keyData','valueName','&s'],[q('c')],r_string),
       DB('sqlite_single_lookup(sqlite3*, char const*, char const*, unsigned int, char const*, std::string&)','sqlite_single_lookup (text, numeric key)',['db','tableName','keyName','#keyData','valueName','&s'],[q('u')],r_string),
       DB('sqlite_single_lookup_string(sqlite3*, char const*, char const*, char const*, char const*)','sqlite_single_lookup_string',['sret','db','tableName','keyName','keyData','valueName'],[q('c')],r_string),
       DB('sqlite_get_attr(sqlite3*, char const*)','sqlite_get_attr',['sret','db','keyData'],[[b"SELECT ATTR_VALUE FROM ATTR_TABLE WHERE ATTR_NAME = '",'keyData',b"'"]],r_string),
       DB('sqlite_set_attr(sqlite3*, char const*, char const*)','sqlite_set_attr',['db','keyData','value'],[[b'CREATE TABLE IF NOT EXISTS ATTR_TABLE (ATTR_NAME TEXT PRIMARY KEY, ATTR_VALUE TEXT)'],[b"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('",'keyData',b"','",'value',b"')"]],r_setattr),
       DB('tu_use(sqlite3*, char const*, char const*, char const*)','sqlQuery (condition given)',['db','tableName','valueName','condition'],[[b'SELECT ','valueName',b' FROM ','tableName',b' ','condition']],r_use),
       DB('tu_useu(sqlite3*, char const*, char const*, char const*, unsigned int)','sqlQuery (numeric key)',['db','tableName','valueName','keyName','#keyData'],[q('u')],r_use),
       DB('tu_usec(sqlite3*, char const*, char const*, char const*, char const*)','sqlQuery (text key)',['db','tableName','valueName','keyName','keyData'],[q('c')],r_use)]
    return t
CONTRACTS=[]
TASKS=[lambda t=t: t for t in tasks()]
ASSUME=['the sqlite3 C interface behaves as documented (contracts in props/D22.py): an attempt may end in any result code, a failed prepare stores a null statement, a row\'s values stay the same until the next step, a text column of a lookup that returns a C string has no NUL','the texts composed for a sqlQuery, sqlite_set_attr and sqlite_get_attr are shorter than 5000 characters (longer ones are cut off on purpose)','keys and values need no quoting in SQL','queries are not empty','formatted numbers: an uninterpreted text per number, no longer than the conversion can give','logging has no effect on the database']
