"""Trusted contracts on std::string and C string functions (values: StrV = length + byte function)."""
from .models import *
S='std::string::'
EMPTY=StrV(0,Const(8,0))
def sub_node(node,off):
    if isint(off) and off==0: return node
    return Lam(8,lambda i,ax: node.read(add(64,i,off),ax))
def cat_node(a,la,b):
    if isint(la) and la==0: return b
    def fn(i,ax):
        c=ult(i,la)
        if c is True: return a.read(i,ax)
        y=lambda: b.read(sub(64,i,la),ax)
        if c is False: return y()
        return ite(c,a.read(i,ax),y(),8)
    return Lam(8,fn)
def cat(a,b):
    if isint(b.len) and b.len==0: return a
    if isint(a.len) and a.len==0: return b
    if isint(a.len) and isint(b.len) and isinstance(a.node,Lit) and isinstance(b.node,Lit):
        return StrV(a.len+b.len,Lit(8,list(a.node.vals[:a.len])+list(b.node.vals[:b.len])))
    node=cat_node(a.node,a.len,b.node); p,q=pieces(a),pieces(b)
    if p is not None and q is not None: node.pieces=(p+q,add(64,a.len,b.len))
    return StrV(add(64,a.len,b.len),node)
def pieces(v):
    """what a text is composed of: literals, whole named texts, formatted numbers; None when not known"""
    if isint(v.len) and isinstance(v.node,Lit) and all(isint(x) for x in v.node.vals[:v.len]): return [bytes(v.node.vals[:v.len])] if v.len else []
    p=getattr(v.node,'pieces',None)
    if p is not None: return p[0] if same(p[1],v.len) else None
    L=getattr(v.node,'cstr',None)
    if L is not None and same(L,v.len) or isinstance(v.node,Base): return [(v.node,v.len)]
    return None
def c_nonul(c,st,v):
    """texts composed of C strings, numbers and literals contain no NUL"""
    p=pieces(v)
    if p is None: return getattr(v.node,'nonulprefix',False)
    return all(0 not in x if isinstance(x,bytes) else x[0]=='num' or getattr(x[0],'cstr',None) is not None or getattr(x[0],'nonul',False) for x in p)
def lit(s):
    if isinstance(s,str): s=s.encode('latin1')
    return StrV(len(s),Lit(8,list(s)))
def bytes_at(c,st,p,n,what='source'):
    """StrV of the n bytes at p (access checked)"""
    if isint(n) and n==0: return EMPTY
    o=p.obj
    if o is None:
        c.oblige(st,eq(n,0),'%s: bytes taken from a null pointer'%what); return EMPTY
    if o.kind=='strdata':
        v=c.str_get(st,o.owner)
        c.oblige(st,And(ule(p.off,add(64,v.len,1)),ule(n,sub(64,add(64,v.len,1),p.off))),'%s within string'%what)
        full=isint(p.off) and p.off==0 and same(n,v.len)
        if full: return v
        return StrV(n,Lam(8,lambda i,ax: (lambda k: ite(eq(k,v.len),0,v.node.read(k,ax),8))(add(64,i,p.off))))
    c.access(st,p,n,what)
    a=c.to_arr(st,o,1)
    return StrV(n,sub_node(a.node,p.off))
def c_strlen(c,st,p,what='C string'):
    """(length) of the NUL-terminated string at p; the terminator must lie inside the object"""
    if p.obj is None:
        c.oblige(st,False,'%s is not null'%what); raise DeadPath()
    o=p.obj; c.ensure_glob(st,o)
    if not c.live(st,o) and o.kind!='strdata': c.oblige(st,False,'%s lies in live memory'%what)
    if o.kind=='strdata':
        v=c.str_get(st,o.owner)
        key=('slen',v.node,v.len); avail=v.len
        c.oblige(st,ule(p.off,v.len),'%s starts within the string'%what)
        if isint(v.len) and isinstance(v.node,Lit) and isint(p.off) and all(isint(x) for x in v.node.vals[:v.len]):
            for k in range(p.off,v.len):
                if v.node.vals[k]==0: return k-p.off
            return v.len-p.off
        if getattr(v,'nonul',False) or getattr(v.node,'nonul',False) or pieces(v) is not None and c_nonul(c,st,v): return sub(64,v.len,p.off)
        node=Lam(8,lambda i,ax: ite(eq(i,v.len),0,v.node.read(i,ax),8)); size=add(64,v.len,1); bound=v.len; always=True
    else:
        a=c.to_arr(st,o,1); node=a.node; size=o.size; always=False
        L=getattr(node,'cstr',None)
        if L is not None:
            c.oblige(st,ule(p.off,L),'%s starts before its terminator'%what)
            return sub(64,L,p.off)
        if isint(size) and isint(p.off):
            # known bytes?
            vals=[]
            for k in range(p.off,min(size,p.off+4096)):
                v=node.read(k,[])
                if not isint(v): break
                if v==0: return k-p.off
                vals.append(v)
    # memo per (node,offset)
    cache=c.__dict__.setdefault('_slen',[])
    ck=v.node if o.kind=='strdata' else node
    for nd,off,n,ax0 in cache:
        if nd is ck and same(off,p.off):
            for q in ax0: st.assume(q)
            if not always: c.oblige(st,ult(add(64,n,p.off),size),'%s is terminated inside its memory'%what)
            return n
    n=fresh('strlen')
    ax0=[]
    t=node.read(add(64,p.off,n),ax0)
    ax0=[bz(q) for q in ax0]+[bz(eq(t,0)),z3.ULE(n,1<<40)]
    if always: ax0.append(bz(ule(add(64,n,p.off),bound)))
    cache.append((ck,p.off,n,ax0))
    ax0=[q for q in ax0]
    if not always:
        # termination inside the object cannot be derived: it must be known
        c.oblige(st,False,'%s is terminated inside its memory'%what)
    for q in ax0: st.assume(q)
    st.ghost['~slen']=list(st.ghost.get('~slen',[]))+[(ck,p.off,n)]
    return n
def first_nul_axiom(node,off,n):
    """node wrapped so that reading at index i in [off,off+n) also states the byte is not NUL"""
    def fn(i,ax):
        v=node.read(i,ax)
        k=sub(64,i,off); cnd=ult(k,n)
        if cnd is not False: ax.append(bz(Implies(cnd,Not(eq(v,0)))))
        return v
    return Lam(8,fn)
def c_strv(c,st,p,what='C string'):
    n=c_strlen(c,st,p,what)
    o=p.obj
    if o.kind=='strdata':
        v=c.str_get(st,o.owner)
        if isint(p.off) and p.off==0 and (same(n,v.len) or v.len is n): return v
        node=sub_node(v.node,p.off)
        return StrV(n,first_nul_axiom(node,0,n) if not isinstance(v.node,Lit) else node)
    a=c.to_arr(st,o,1)
    t=getattr(a.node,'text',None)
    if t is not None and isint(p.off) and p.off==0 and same(t.len,n): return t
    if isint(n) and isint(p.off):
        vals=[a.node.read(p.off+k,[]) for k in range(n)]
        if all(isint(x) for x in vals): return StrV(n,Lit(8,vals))
    return StrV(n,sub_node(a.node,p.off))
class CStr:
    """a NUL-terminated character array of symbolic length"""
    def __init__(s,V,st,name,maxlen=1<<20,extra=None,text=None):
        if text is not None:
            b=text.encode('latin1') if isinstance(text,str) else bytes(text)
            s.len=len(b); node=Lit(8,list(b)+[0]); size=len(b)+1
        else:
            s.len=fresh(name+'_len'); st.assume(z3.ULE(s.len,maxlen))
            ex=fresh(name+'_room'); st.assume(z3.ULE(ex,64))
            L=s.len; V.terms.append(L)
            def axm(i,v): 
                return z3.And(z3.Implies(z3.ULT(i,L),v!=0),z3.Implies(i==L,v==0))
            node=Base(name,8,[axm]+(list(extra) if extra else [])); node.cstr=L; size=simp(L+1+ex)
        s.node=node
        s.obj=V.new(st,name,size,'heaparr',ArrC(1,node)); s.ptr=P(s.obj,0)
    def strv(s): return StrV(s.len,s.node)
class Str:
    """a std::string object holding a symbolic value"""
    def __init__(s,V,st,name,maxlen=1<<30,nonul=False,text=None,kind='heap'):
        if text is not None: s.v=lit(text)
        else:
            n=fresh(name+'_len'); st.assume(z3.ULE(n,maxlen))
            ax=[]
            if nonul: ax=[lambda i,v: z3.Implies(z3.ULT(i,n),v!=0)]
            s.v=StrV(n,Base(name,8,ax))
            if nonul: s.v.node.nonul=True
        s.obj=V.new(st,name,32,kind,Cells({0:(32,s.v)})); s.ptr=P(s.obj,0)
def destroy_str(c,st,p):
    c.str_get(st,p)
    k=c.content(st,p.obj).copy()
    for q in list(k.d):
        if p.off<=q<p.off+32: del k.d[q]
    c.setc(st,p.obj,k)
    d=getattr(c,'strobj',{}).get((p.obj.id,p.off))
# ---------------------------------------------------------------- std::string
@model(S+'basic_string()',S+'basic_string(std::allocator<char> const&)')
def s_ctor0(c,st,a,i): c.str_set(st,a[0],EMPTY)
@model(S+'basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)',S+'basic_string(char const*, std::allocator<char> const&)',S+'basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)')
def s_ctorc(c,st,a,i): c.str_set(st,a[0],c_strv(c,st,a[1],'string argument'))
@model(S+'basic_string(char const*, unsigned long, std::allocator<char> const&)')
def s_ctorn(c,st,a,i): c.str_set(st,a[0],bytes_at(c,st,a[1],a[2],'string source'))
@model(S+'basic_string(unsigned long, char, std::allocator<char> const&)',S+'basic_string<std::allocator<char> >(unsigned long, char, std::allocator<char> const&)')
def s_ctorfill(c,st,a,i): c.str_set(st,a[0],StrV(a[1],Const(8,a[2])))
@model(S+'basic_string(std::string const&)')
def s_copy(c,st,a,i): c.str_set(st,a[0],c.str_get(st,a[1]))
@model(S+'basic_string(std::string const&, unsigned long, unsigned long)')
def s_copysub(c,st,a,i): return m_substr(c,st,[a[0],a[1],a[2],a[3]],i)
@model(S+'basic_string(std::string&&)')
def s_move(c,st,a,i):
    c.str_set(st,a[0],c.str_get(st,a[1])); c.str_set(st,a[1],EMPTY)
@model(S+'~basic_string()')
def s_dtor(c,st,a,i): destroy_str(c,st,a[0])
@model(S+'operator=(std::string const&)',S+'assign(std::string const&)')
def s_assign(c,st,a,i): 
    v=c.str_get(st,a[1]); c.str_get(st,a[0]); c.str_set(st,a[0],v); return a[0]
@model(S+'operator=(std::string&&)')
def s_assignm(c,st,a,i):
    v=c.str_get(st,a[1]); c.str_get(st,a[0])
    if not(a[0].obj is a[1].obj and same(a[0].off,a[1].off)): c.str_set(st,a[1],EMPTY)
    c.str_set(st,a[0],v); return a[0]
@model(S+'operator=(char const*)',S+'assign(char const*)')
def s_assignc(c,st,a,i): 
    v=c_strv(c,st,a[1],'assigned text'); c.str_get(st,a[0]); c.str_set(st,a[0],v); return a[0]
@model(S+'assign(char const*, unsigned long)')
def s_assignn(c,st,a,i):
    v=bytes_at(c,st,a[1],a[2],'assigned text'); c.str_get(st,a[0]); c.str_set(st,a[0],v); return a[0]
@model(S+'operator=(char)')
def s_assignch(c,st,a,i): c.str_get(st,a[0]); c.str_set(st,a[0],StrV(1,Lit(8,[a[1]]))); return a[0]
@model(S+'push_back(char)')
def s_push(c,st,a,i): s_appch(c,st,a)
@model(S+'operator+=(char)')
def s_pluseqch(c,st,a,i): s_appch(c,st,a); return a[0]
def s_appch(c,st,a):
    v=c.str_get(st,a[0]); x=trunc(a[1],8) if not isint(a[1]) else a[1]&255
    if isint(v.len) and isinstance(v.node,Lit): c.str_set(st,a[0],StrV(v.len+1,Lit(8,list(v.node.vals[:v.len])+[x])))
    else: c.str_set(st,a[0],StrV(add(64,v.len,1),Store(v.node,v.len,x)))
@model(S+'append(std::string const&)',S+'operator+=(std::string const&)')
def s_app(c,st,a,i): c.str_set(st,a[0],cat(c.str_get(st,a[0]),c.str_get(st,a[1]))); return a[0]
@model(S+'append(char const*)',S+'operator+=(char const*)')
def s_appc(c,st,a,i):
    v=c_strv(c,st,a[1],'appended text'); c.str_set(st,a[0],cat(c.str_get(st,a[0]),v)); return a[0]
@model(S+'append(char const*, unsigned long)')
def s_appn(c,st,a,i):
    v=bytes_at(c,st,a[1],a[2],'appended text'); c.str_set(st,a[0],cat(c.str_get(st,a[0]),v)); return a[0]
@model(S+'append(unsigned long, char)')
def s_appfill(c,st,a,i): c.str_set(st,a[0],cat(c.str_get(st,a[0]),StrV(a[1],Const(8,a[2])))); return a[0]
@model(S+'append(std::string const&, unsigned long, unsigned long)')
def s_appsub(c,st,a,i):
    v=c.str_get(st,a[1]); ok=ule(a[2],v.len)
    out=[]
    if c.feasible(st,Not(ok)):
        x=st.fork(); x.assume(Not(ok)); out.append((x,Throw(NULL,'_ZTISt12out_of_range')))
    if c.feasible(st,ok):
        st.assume(ok); rest=sub(64,v.len,a[2]); n=ite(ult(a[3],rest),a[3],rest,64)
        c.str_set(st,a[0],cat(c.str_get(st,a[0]),StrV(n,sub_node(v.node,a[2])))); out.append((st,a[0]))
    return Forks(out)
@model(S+'size() const',S+'length() const')
def s_len(c,st,a,i): return c.str_get(st,a[0]).len
@model(S+'empty() const')
def s_empty(c,st,a,i): return eq(c.str_get(st,a[0]).len,0)
@model(S+'capacity() const')
def s_cap(c,st,a,i):
    n=fresh('cap'); st.assume(bz(ule(c.str_get(st,a[0]).len,n))); return n
@model(S+'c_str() const',S+'data() const',S+'data()')
def s_data(c,st,a,i):
    c.str_get(st,a[0]); return c.str_data(st,a[0])
@model(S+'begin()',S+'begin() const')
def s_begin(c,st,a,i): c.str_get(st,a[0]); return c.str_data(st,a[0])
@model(S+'end()',S+'end() const')
def s_end(c,st,a,i): v=c.str_get(st,a[0]); return P(c.str_data(st,a[0]).obj,v.len)
@model(S+'operator[](unsigned long)',S+'operator[](unsigned long) const')
def s_idx(c,st,a,i):
    v=c.str_get(st,a[0]); c.oblige(st,ule(a[1],v.len),'string index in range')
    return P(c.str_data(st,a[0]).obj,a[1])
@model(S+'at(unsigned long)',S+'at(unsigned long) const')
def s_at(c,st,a,i):
    v=c.str_get(st,a[0]); ok=ult(a[1],v.len); out=[]
    if c.feasible(st,Not(ok)):
        x=st.fork(); x.assume(Not(ok)); out.append((x,Throw(NULL,'_ZTISt12out_of_range')))
    if c.feasible(st,ok):
        st.assume(ok); out.append((st,P(c.str_data(st,a[0]).obj,a[1])))
    return Forks(out)
@model(S+'back()',S+'back() const')
def s_back(c,st,a,i):
    v=c.str_get(st,a[0]); c.oblige(st,Not(eq(v.len,0)),'back() of a non-empty string'); return P(c.str_data(st,a[0]).obj,sub(64,v.len,1))
@model(S+'pop_back()')
def s_pop(c,st,a,i):
    v=c.str_get(st,a[0]); c.oblige(st,Not(eq(v.len,0)),'pop_back() of a non-empty string'); c.str_set(st,a[0],StrV(sub(64,v.len,1),v.node))
@model(S+'reserve(unsigned long)',S+'reserve()',S+'shrink_to_fit()')
def s_reserve(c,st,a,i): c.str_get(st,a[0])
@model(S+'clear()')
def s_clear(c,st,a,i): c.str_get(st,a[0]); c.str_set(st,a[0],EMPTY)
@model(S+'resize(unsigned long)')
def s_resize(c,st,a,i): return s_resize2(c,st,[a[0],a[1],0],i)
@model(S+'resize(unsigned long, char)')
def s_resize2(c,st,a,i):
    v=c.str_get(st,a[0]); n=a[1]
    node=Lam(8,lambda k,ax: ite(ult(k,v.len),v.node.read(k,ax),a[2],8)) if not(isint(v.len) and v.len==0) else Const(8,a[2])
    c.str_set(st,a[0],StrV(n,node))
@model(S+'substr(unsigned long, unsigned long) const')
def m_substr(c,st,a,i):
    v=c.str_get(st,a[1]); ok=ule(a[2],v.len); out=[]
    if c.feasible(st,Not(ok)):
        x=st.fork(); x.assume(Not(ok)); out.append((x,Throw(NULL,'_ZTISt12out_of_range')))
    if c.feasible(st,ok):
        st.assume(ok); rest=sub(64,v.len,a[2]); n=ite(ult(a[3],rest),a[3],rest,64)
        c.str_set(st,a[0],StrV(n,sub_node(v.node,a[2]))); out.append((st,None))
    return Forks(out)
def eq_strv(c,st,x,y):
    """(possibly symbolic) equality of two string values"""
    if x.same(y): return True
    if isint(x.len) and isint(y.len):
        if x.len!=y.len: return False
    e=eq(x.len,y.len)
    if e is False: return False
    n=x.len if isint(x.len) else y.len
    if isint(n) and n<=64:
        cs=[e]
        for k in range(n):
            ax=[]; a=x.node.read(k,ax); b=y.node.read(k,ax)
            for q in ax: st.assume(Implies(e,q) if e is not True else q)
            cs.append(eq(bv(a,8),bv(b,8)) if not(isint(a) and isint(b)) else a==b)
        return And(*cs) if not any(q is False for q in cs) else False
    # opaque: b <-> equal; elementwise consequences are instantiated on reads through eqfacts
    cache=c.__dict__.setdefault('_streq',[])
    for (p,q,b) in cache:
        if (p.same(x) and q.same(y)) or (p.same(y) and q.same(x)): break
    else:
        b=freshb('streq'); k=fresh('diff'); cache.append((x,y,b)); c.__dict__.setdefault('_streqk',{})[b.get_id()]=(k,x,y,b)
    k,x0,y0,_=c.__dict__['_streqk'][b.get_id()]
    st.assume(z3.Implies(b,bz(e)))
    ax=[]; u=bv(x0.node.read(k,ax),8); w=bv(y0.node.read(k,ax),8)
    for q in ax: st.assume(q)
    # not equal: some position differs (or the lengths do)
    st.assume(z3.Implies(z3.Not(b),z3.Or(z3.Not(bz(e)),z3.And(bz(ult(k,x0.len)),u!=w))))
    return b
@rmodel(r'bool std::operator==<char.*>\(std::string const&, std::string const&\)$')
def s_eq(c,st,a,i): return eq_strv(c,st,c.str_get(st,a[0]),c.str_get(st,a[1]))
@rmodel(r'bool std::operator!=<char.*>\(std::string const&, std::string const&\)$')
def s_ne(c,st,a,i): return Not(s_eq(c,st,a,i))
@rmodel(r'bool std::operator==<char.*>\(std::string const&, char const\*\)$')
def s_eqc(c,st,a,i): return eq_strv(c,st,c.str_get(st,a[0]),c_strv(c,st,a[1]))
@rmodel(r'bool std::operator!=<char.*>\(std::string const&, char const\*\)$')
def s_nec(c,st,a,i): return Not(s_eqc(c,st,a,i))
@rmodel(r'std::string std::operator\+<char.*>\((std::string const&|std::string&&), (std::string const&|std::string&&)\)$')
def s_plus(c,st,a,i): c.str_set(st,a[0],cat(c.str_get(st,a[1]),c.str_get(st,a[2])))
@rmodel(r'std::string std::operator\+<char.*>\((std::string const&|std::string&&), char const\*\)$')
def s_plusc(c,st,a,i): c.str_set(st,a[0],cat(c.str_get(st,a[1]),c_strv(c,st,a[2])))
@rmodel(r'std::string std::operator\+<char.*>\(char const\*, (std::string const&|std::string&&)\)$')
def s_cplus(c,st,a,i): c.str_set(st,a[0],cat(c_strv(c,st,a[1]),c.str_get(st,a[2])))
@rmodel(r'std::string std::operator\+<char.*>\((std::string const&|std::string&&), char\)$')
def s_plusch(c,st,a,i): c.str_set(st,a[0],cat(c.str_get(st,a[1]),StrV(1,Lit(8,[a[2]]))))
# find: first position >= pos holding the character, npos otherwise
def find_ch(c,st,v,ch,pos,what='find'):
    """forks: found at r (first) / not found"""
    out=[]
    if isint(v.len) and v.len<=256 and isint(pos):
        # concrete scan, one fork per position
        nots=[]; cur=st
        for k in range(pos,v.len):
            x=c.rd(cur,v.node,k)
            e=eq(bv(x,8),bv(ch,8)) if not(isint(x) and isint(ch)) else x==ch
            if e is False: continue
            if c.feasible(cur,e) if e is not True else True:
                y=cur.fork() if e is not True else cur
                if e is not True: y.assume(e)
                out.append((y,k))
            if e is True: return out
            if not c.feasible(cur,Not(e)): return out
            cur=cur.fork(); cur.assume(Not(e))
        out.append((cur,M64)); return out
    r=fresh('found')
    x=st.fork()
    x.assume(bz(ule(pos,r))); x.assume(bz(ult(r,v.len)))
    val=c.rd(x,v.node,r); x.assume(bz(eq(bv(val,8),bv(ch,8))))
    if c.check(x)!='unsat': out.append((x,r))
    out.append((st,M64))
    return out
def nomatch_node(node,lo,hi,ch):
    """node that also states its bytes in [lo,hi) differ from ch whenever one of them is read"""
    def fn(i,ax):
        v=node.read(i,ax); cnd=And(ule(lo,i),ult(i,hi))
        if cnd is not False: ax.append(bz(Implies(cnd,Not(eq(bv(v,8),bv(ch,8))))))
        return v
    nd=Lam(8,fn)
    if getattr(node,'nonul',False): nd.nonul=True
    return nd
@model(S+'find(char, unsigned long) const')
def s_findch(c,st,a,i):
    v=c.str_get(st,a[0]); out=[]
    for x,r in find_ch(c,st,v,a[1],a[2]):
        # remember that the bytes before the first hit differ
        if not isint(r) or r==M64:
            hi=v.len if isint(r) else r
            if not(isint(v.len) and v.len<=256): c.str_set(x,a[0],StrV(v.len,nomatch_node(v.node,a[2],hi,a[1])))
        out.append((x,r))
    return Forks(out)
# ---------------------------------------------------------------- C strings
@model('strlen')
def m_strlen(c,st,a,i): return c_strlen(c,st,a[0],'argument of strlen')
@model('strcmp')
def m_strcmp(c,st,a,i):
    e=eq_strv(c,st,c_strv(c,st,a[0]),c_strv(c,st,a[1])); r=fresh('strcmp',32); st.assume(z3.And(r!=0)); 
    return ite(e,0,r,32)
@rmodel(r'std::allocator<char>::.*|std::__new_allocator<char>::.*')
def m_alloc(c,st,a,i): return None
@model('memcmp')
def m_memcmp(c,st,a,i):
    n=a[2]
    if isint(n) and n==0: return 0
    if not isint(n) and (a[0].obj is None or a[1].obj is None):
        c.oblige(st,eq(n,0),'comparison of memory through a null pointer'); return 0
    cond=True if isint(n) else Not(eq(n,0))
    for q in a[:2]: c.acc_cond(st,q,n,'compared memory',cond) if not isint(n) else c.access(st,q,n,'compared memory')
    def nodeof(p):
        o=p.obj
        if o.kind=='strdata': v=c.str_get(st,o.owner); return sub_node(v.node,p.off)
        return sub_node(c.to_arr(st,o,1).node,p.off)
    x=StrV(n,nodeof(a[0])); y=StrV(n,nodeof(a[1]))
    e=eq_strv(c,st,x,y); r=fresh('memcmp',32); st.assume(r!=0)
    return ite(e,0,r,32)
# ---------------------------------------------------------------- characters
def _cls(name,pred,strict=True):
    @model(name)
    def f(c,st,a,i):
        x=bv(a[0],32)
        c.oblige(st,sbool(z3.Or(z3.ULE(x,255),x==0xffffffff)),'argument of %s is a character or EOF'%name)
        r=fresh(name,32); st.assume(r!=0); return ite(sbool(pred(x)),r,0,32)
def _rng(x,a,b): return z3.And(z3.UGE(x,ord(a)),z3.ULE(x,ord(b)))
_dig=lambda x:_rng(x,'0','9'); _up=lambda x:_rng(x,'A','Z'); _lo=lambda x:_rng(x,'a','z'); _xd=lambda x:z3.Or(_dig(x),_rng(x,'A','F'),_rng(x,'a','f'))
_sp=lambda x:z3.Or(x==32,z3.And(z3.UGE(x,9),z3.ULE(x,13)))
for _n,_p in(('isalnum',lambda x:z3.Or(_dig(x),_up(x),_lo(x))),('isalpha',lambda x:z3.Or(_up(x),_lo(x))),('isdigit',_dig),('isxdigit',_xd),('isspace',_sp),('isupper',_up),('islower',_lo),
    ('isprint',lambda x:z3.And(z3.UGE(x,32),z3.ULE(x,126))),('iscntrl',lambda x:z3.Or(z3.ULT(x,32),x==127)),('ispunct',lambda x:z3.And(z3.UGE(x,33),z3.ULE(x,126),z3.Not(z3.Or(_dig(x),_up(x),_lo(x)))))): _cls(_n,_p)
@model('toupper')
def m_toupper(c,st,a,i): x=bv(a[0],32); return simp(z3.If(_lo(x),x-32,x))
@model('tolower')
def m_tolower(c,st,a,i): x=bv(a[0],32); return simp(z3.If(_up(x),x+32,x))
def lit_bytes(c,st,p):
    """bytes of a fully known C string at p, or None"""
    if p.obj is None or not isint(p.off) or p.obj.kind=='strdata': return None
    c.ensure_glob(st,p.obj); k=c.content(st,p.obj)
    if not(isinstance(k,ArrC) and k.es==1 and isinstance(k.node,Lit)): return None
    v=k.node.vals[p.off:]
    if not all(isint(x) for x in v): return None
    return v[:v.index(0)] if 0 in v else None
@model('strchr','index')
def m_strchr(c,st,a,i):
    t=lit_bytes(c,st,a[0])
    if t is None: raise Unsupported('strchr in a text that is not a literal')
    ch=trunc(a[1],8); vs=t+[0]
    if isint(ch): return P(a[0].obj,a[0].off+vs.index(ch)) if ch in vs else NULL
    found=sbool(z3.Or([ch==x for x in vs])); out=[]
    off=0
    for k in range(len(vs)-1,-1,-1): off=ite(sbool(ch==vs[k]),k,off,64)
    if c.feasible(st,found):
        x=st.fork(); x.assume(bz(found)); out.append((x,P(a[0].obj,add(64,a[0].off,off))))
    if c.feasible(st,Not(found)):
        st.assume(Not(bz(found))); out.append((st,NULL))
    return Forks(out)
