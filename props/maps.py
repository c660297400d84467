"""std::map with text keys through a contract that follows one arbitrary key: whether it is in the map and what it is mapped to. Every other entry is
arbitrary; iteration meets any number of other entries and the tracked one exactly once if it is there."""
from engine.verify import *
from engine.strings import *
from .T15 import IRT, fields
import re as _re
def sametext(V,st,v,w,what):
    if v.same(w): V.oblige(st,True,what); return
    V.oblige(st,eq(v.len,w.len),what+' (length)')
    if isint(w.len) and w.len==0: return
    k=fresh('k'); y=st.fork(); ax=[]; a=v.node.read(k,ax); b=w.node.read(k,ax)
    for q in ax: y.assume(q)
    V.oblige(y,Implies(ult(k,v.len),eq(bv(a,8),bv(b,8))),what)
def ctext(V,st,nm,maxlen=1<<20):
    """an arbitrary text without NUL"""
    n=fresh(nm+'_len'); st.assume(z3.ULE(n,maxlen)); node=Base(nm,8,[lambda i,v: z3.And(z3.Implies(i==n,v==0),z3.Implies(z3.ULT(i,n),v!=0))]); node.cstr=n; node.nonul=True
    return StrV(n,node)
def cobj(V,st,v,nm,kind='malloc'):
    """a C string object holding the text"""
    if getattr(v.node,'cstr',None) is not None and same(v.node.cstr,v.len) and isinstance(v.node,Base): return P(V.new(st,nm,simp(v.len+1),kind,ArrC(1,v.node)),0)
    from engine.cfmt import write_text
    o=V.new(st,nm,v.len+1 if isint(v.len) else add(64,v.len,1),kind,ArrC(1,Base(nm,8))); write_text(V,st,P(o,0),v,'text'); return P(o,0)
def parts(V,cls):
    """fields of a class: list of (offset, size, kind) in order; kind 'str', 'iN', 'ptr', or the type's name"""
    m=V.prog.mods[0]; t=m.resolve(IRT(cls)); r=[]
    for e,off in zip(t.a,m.offsets(t)):
        n=e.a if e.k=='named' else None; x=m.resolve(e)
        if x.k=='arr': continue
        r.append((off,m.size(x),'str' if n is not None and 'basic_string' in n else 'i%d'%x.a if x.k=='int' else x.k if n is None else n))
    return r,m.size(t)
class TMap:
    """key: the text followed; ktype/vtype: as in the demangled type; on: hook(V,st,what) called at every operation; fixed: entries may not be added or removed"""
    def __init__(s,V,st,nm,owner,ktype,vtype,key,on=None,fixed=False):
        s.name=nm;s.owner=owner;s.ktype=ktype;s.vtype=vtype;s.key=key;s.on=on;s.fixed=fixed
        s.ksize=parts(V,'class.'+ktype)[1] if ktype!='std::string' else 32
        s.kextra=parts(V,'class.'+ktype)[0][1:] if ktype!='std::string' else []
        s.vsize={'unsigned int':4,'int':4}.get(vtype) or parts(V,'class.'+vtype)[1]
        al=8 if s.vsize>4 else 4; s.voff=32+(s.ksize+al-1)//al*al; size=(s.voff+s.vsize+7)//8*8
        s.node=V.new(st,nm+' entry',size,'stack',Cells(),assume=False); s.other=[V.new(st,nm+' other entry %d'%k,size,'stack',Cells(init='sym'),assume=False) for k in(0,1)]
        s.end=V.new(st,nm+' end',size,'stack',Cells(),assume=False)
        for o in [s.node]+s.other+[s.end]: o.guard=s.guard; o.refresh=None
        s.walk=0
        V.__dict__.setdefault('tmaps',[]).append(s); st.ghost['map:'+nm]='absent'; st.ghost['stale:'+nm]=st.ghost['passed:'+nm]=st.ghost['at:'+nm]='none'; st.ghost['some:'+nm]='unknown'
    def keycells(s,V,st):
        d={32:(32,s.key)}
        for off,n,k in s.kextra: d[32+off]=(n,fresh('keypart',8*n))
        return d
    def setentry(s,V,st,cells):
        d=s.keycells(V,st); d.update({s.voff+k:v for k,v in cells.items()}); V.setc(st,s.node,Cells(d)); st.ghost['map:'+s.name]='present'
    def absent(s,V,st): V.setc(st,s.node,Cells()); st.ghost['map:'+s.name]='absent'
    def value(s,V,st,off,n=8):
        e=V.content(st,s.node).d.get(s.voff+off); return e and e[1]
    def guard(s,V,st,p,n,what):
        if p.obj is s.end: V.oblige(st,False,'the end of a map is not an entry')
        if p.obj is s.node: V.oblige(st,st.ghost['map:'+s.name]=='present','only an entry that is in the map is used')
        if p.obj in s.other: V.oblige(st,st.ghost['stale:'+s.name]!=str(s.other.index(p.obj)),'only an entry that is in the map is used')
        if p.obj in s.other and isint(p.off) and p.off<s.voff+s.vsize: s.otheruse(V,st,p,n,what)
        s.on and s.on(V,st,'an entry is used')
    def otheruse(s,V,st,p,n,what): pass
    def __repr__(s): return 'map '+s.name
def mymap(V,st,p,kt,vt):
    for m in getattr(V,'tmaps',[]):
        if p.obj is m.owner and m.ktype==kt and m.vtype==vt: return m
    raise Unsupported('a map of its own')
def keyed(V,st,m,p):
    """is it the key followed? (otherwise it must be one known to be another)"""
    v=V.str_get(st,p)
    if hasattr(m,'isother') and m.isother(V,st,v): return False
    sametext(V,st,v,m.key,'the entry looked up is that of the key asked for'); return True
def ptr(o): return P(o,0)
def nxt(V,st,m,frm):
    """where an iterator may go next"""
    r=[]; g=st.ghost; here=g['map:'+m.name]=='present'; passed=g['passed:'+m.name]=='yes'
    k=1-m.other.index(frm) if frm in m.other else 0
    x=st.fork(); x.ghost['stale:'+m.name]='none'; V.setc(x,m.other[k],Cells(init='sym')); m.newother(V,x,m.other[k]) if hasattr(m,'newother') else None; r.append((x,ptr(m.other[k])))
    if here and not passed: y=st.fork(); y.ghost['passed:'+m.name]='yes'; r.append((y,ptr(m.node)))
    some=g['some:'+m.name] if frm is None else 'unknown'
    if (not here or passed) and some!='some': r.append((st,ptr(m.end)))
    if some=='none' and not here: r=[(st,ptr(m.end))]
    for x,q in r: x.ghost['at:'+m.name]=str(q.obj.id)
    return r
RXM=_re.compile(r'std::map<(std::string|\w+), ([\w ]+),.*>::(~?\w+|operator\[\])\((.*)\)( const)?$')
RXI=_re.compile(r'std::_Rb_tree_(const_)?iterator<std::pair<(std::string|\w+) const, ([\w ]+)> >::operator(\+\+|--)\((int)?\)$')
def m_map(V,st,a,i):
    kt,vt,op,ar,_=RXM.match(i['dem']).groups()
    m=mymap(V,st,a[0],kt,vt); g=st.ghost; me='map:'+m.name
    m.on and m.on(V,st,'a map is used')
    if op in('find','lower_bound') and op=='find':
        if not keyed(V,st,m,a[1]): return Forks([(st.fork(),ptr(m.scratch)),(st,ptr(m.end))])
        return ptr(m.node if g[me]=='present' else m.end)
    if op=='count':
        if not keyed(V,st,m,a[1]): return Forks([(st.fork(),1),(st,0)])
        return 1 if g[me]=='present' else 0
    if op in('end','cend'): return ptr(m.end)
    if op in('begin','cbegin'): g['passed:'+m.name]='no'; return Forks(nxt(V,st,m,None))
    if op=='operator[]':
        if not keyed(V,st,m,a[1]):
            V.oblige(st,not m.fixed,'no entry is added'); g['some:'+m.name]='unknown'; m.newother(V,st,m.scratch); return P(m.scratch,m.voff)
        if g[me]!='present':
            V.oblige(st,not m.fixed,'no entry is added'); g['some:'+m.name]='unknown'; m.setentry(V,st,{}); c=m.default(V,st)
        return P(m.node,m.voff)
    if op=='at':
        if not keyed(V,st,m,a[1]): raise Unsupported('std::map::at of another key')
        if g[me]!='present': return Forks([(st,Throw(NULL,'_ZTISt12out_of_range'))])
        return P(m.node,m.voff)
    if op=='erase':
        V.oblige(st,not m.fixed,'no entry is removed'); g['some:'+m.name]='unknown'
        if 'iterator' in ar:
            if 'iterator' in ar[ar.index('iterator')+8:]:
                if a[1].obj in(m.node,)+tuple(m.other) or a[1].obj is m.end: raise Unsupported('a range is removed')
            p=a[1]; V.oblige(st,p.obj is m.node and g[me]=='present' or p.obj in m.other and g['stale:'+m.name]!=str(m.other.index(p.obj)),'only an entry that is in the map is removed')
            at=g['at:'+m.name]
            if p.obj is m.node:
                if g['passed:'+m.name]!='none': g['passed:'+m.name]='yes'
                m.absent(V,st)
            else: g['stale:'+m.name]=str(m.other.index(p.obj))
            if at=='none': return P(None,fresh('next entry'))
            if at!=str(p.obj.id): return P(next(o for o in [m.node,m.end]+m.other if str(o.id)==at),0)
            return Forks(nxt(V,st,m,p.obj))
        if not keyed(V,st,m,a[1]): raise Unsupported('std::map::erase of another key')
        was=g[me]=='present'; m.absent(V,st); return 1 if was else 0
    if op=='clear': V.oblige(st,not m.fixed,'no entry is removed'); m.absent(V,st); return None
    if op=='empty':
        if g[me]=='present': return False
        k='some:'+m.name
        if g[k]!='unknown': return g[k]=='none'
        x=st.fork(); x.ghost[k]='none'; g[k]='some'; return Forks([(x,True),(st,False)])
    raise Unsupported('std::map::'+op)
def m_iter(V,st,a,i):
    kt,vt,op,post=(lambda q:(q[1],q[2],q[3],q[4]))(RXI.match(i['dem']).groups())
    if op=='--': raise Unsupported('iterating backwards')
    p=V.load_raw(st,a[0],8,PTR)
    m=next((m for m in getattr(V,'tmaps',[]) if p.obj is m.node or p.obj in m.other or p.obj is m.end),None)
    if m is None: raise Unsupported('an iterator into a map of its own')
    V.oblige(st,p.obj is not m.end and (p.obj is m.node and st.ghost['map:'+m.name]=='present' or p.obj in m.other and st.ghost['stale:'+m.name]!=str(m.other.index(p.obj))),'an iterator is moved on only from an entry of the map')
    m.on and m.on(V,st,'a map is used'); r=[]
    if st.ghost['passed:'+m.name]=='none': raise Unsupported('moving on from an entry looked up')
    for x,q in nxt(V,st,m,p.obj): V.store_raw(x,a[0],8,q); r.append((x,p if post else a[0]))
    return Forks(r)
def mapmodels(m):
    m['*regex']=[(RXM,m_map),(RXI,m_iter)]+list(m.get('*regex',[])); return m
