"""Values, expression helpers and memory contents of the symbolic executor."""
import z3, itertools
z3.set_param('model.completion',True)
z3.set_param('rewriter.bv_le2extract',False)
M64=(1<<64)-1
_cnt=itertools.count()
def uid(): return next(_cnt)
def fresh(name,w=64): return z3.BitVec('%s!%d'%(name,uid()),w)
def freshb(name): return z3.Bool('%s!%d'%(name,uid()))

def isint(x): return isinstance(x,int)
def mask(w): return (1<<w)-1
def bv(x,w=64):
    return z3.BitVecVal(x,w) if isinstance(x,int) else x
def simp(x):
    if isinstance(x,int): return x
    x=z3.simplify(x)
    if z3.is_bv_value(x): return x.as_long()
    return x
def sbool(x):
    if isinstance(x,bool): return x
    x=z3.simplify(x)
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def bz(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def sgn(x,w): return x-(1<<w) if x>>(w-1) else x

def same(a,b):
    """syntactic equality of values"""
    if a is b: return True
    if isinstance(a,(int,float)) or isinstance(b,(int,float)):
        return type(a)==type(b) and a==b
    if isinstance(a,P):
        return isinstance(b,P) and a.obj is b.obj and same(a.off,b.off)
    if isinstance(a,tuple): return isinstance(b,tuple) and len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    if isinstance(a,z3.AstRef): return isinstance(b,z3.AstRef) and a.eq(b)
    if hasattr(a,'same'): return a.same(b)
    return a==b

# ------------- integer ops on (python int | z3 BitVec)
def add(w,a,b):
    if isint(a) and isint(b): return (a+b)&mask(w)
    if isint(a) and a==0: return b
    if isint(b) and b==0: return a
    return simp(bv(a,w)+bv(b,w))
def sub(w,a,b):
    if isint(a) and isint(b): return (a-b)&mask(w)
    if isint(b) and b==0: return a
    return simp(bv(a,w)-bv(b,w))
def mul(w,a,b):
    if isint(a) and isint(b): return (a*b)&mask(w)
    if isint(a) and a==1: return b
    if isint(b) and b==1: return a
    return simp(bv(a,w)*bv(b,w))
def zext(a,w,W):
    if w==W: return a
    if isint(a): return a
    return simp(z3.ZeroExt(W-w,a))
def sext(a,w,W):
    if w==W: return a
    if isint(a): return sgn(a,w)&mask(W)
    return simp(z3.SignExt(W-w,a))
def trunc(a,W):
    if isint(a): return a&mask(W)
    if a.size()==W: return a
    return simp(z3.Extract(W-1,0,a))
def eq(a,b):
    if isint(a) and isint(b): return a==b
    if isint(a): a,b=b,a
    if isinstance(a,bool) or isinstance(b,bool) or z3.is_bool(a):
        return sbool(bz(a)==bz(b))
    return sbool(a==(z3.BitVecVal(b,a.size()) if isint(b) else b))
def _w(a,b):
    return a.size() if not isint(a) else b.size()
def ult(a,b):
    if isint(a) and isint(b): return a<b
    w=_w(a,b); return sbool(z3.ULT(bv(a,w),bv(b,w)))
def ule(a,b):
    if isint(a) and isint(b): return a<=b
    w=_w(a,b); return sbool(z3.ULE(bv(a,w),bv(b,w)))
def slt(a,b,w=64):
    if isint(a) and isint(b): return sgn(a,w)<sgn(b,w)
    w=_w(a,b); return sbool(bv(a,w)<bv(b,w))
def sle(a,b,w=64):
    if isint(a) and isint(b): return sgn(a,w)<=sgn(b,w)
    w=_w(a,b); return sbool(bv(a,w)<=bv(b,w))
def And(*xs):
    ys=[]
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys)==1 else z3.And(*ys)
def Or(*xs):
    ys=[]
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys)==1 else z3.Or(*ys)
def Not(x):
    if isinstance(x,bool): return not x
    return z3.Not(x)
def Implies(a,b): return Or(Not(a),b)
def ite(c,a,b,w=None):
    if c is True: return a
    if c is False: return b
    if isinstance(a,bool) or isinstance(b,bool) or (isinstance(a,z3.ExprRef) and z3.is_bool(a)):
        return sbool(z3.If(c,bz(a),bz(b)))
    if isint(a) and isint(b):
        if a==b: return a
        return z3.If(c,bv(a,w),bv(b,w))
    if isint(a) or isint(b): w=_w(a,b)
    return simp(z3.If(c,bv(a,w) if isint(a) else a,bv(b,w) if isint(b) else b)) if not z3.is_fp(a) else z3.If(c,a,b)

class P:
    """pointer: (object, byte offset); obj None: absolute address off"""
    __slots__=('obj','off')
    def __init__(s,obj,off=0): s.obj=obj;s.off=off
    def __repr__(s): return 'P(%s,%s)'%(s.obj.name if s.obj else None,s.off)
NULL=P(None,0)

class Obj:
    """static identity of a memory object"""
    def __init__(s,name,size,kind):
        s.id=uid();s.name='%s#%d'%(name,s.id);s.size=size;s.kind=kind
        s.base=z3.BitVec('base!%s!%d'%(name,s.id),64)
        s.owner=None;s.fn=None;s.guard=None;s.refresh=None
    def __repr__(s): return '<%s>'%s.name

# ------------- array contents (functional)
class Node: 
    pass
class Base(Node):
    def __init__(s,name,w,axioms=()):
        s.w=w; s.f=z3.Function('%s!%d'%(name,uid()),z3.BitVecSort(64),z3.BitVecSort(w) if w!='f32' else z3.Float32()); s.axioms=list(axioms)
    def read(s,i,ax):
        i=bv(i); v=s.f(i)
        for a in s.axioms:
            c=a(i,v)
            if c is not True: ax.append(bz(c))
        return v
class Const(Node):
    def __init__(s,w,v): s.w=w;s.v=v
    def read(s,i,ax): return s.v
class Lit(Node):
    """literal bytes followed by default"""
    def __init__(s,w,vals,dflt=0): s.w=w;s.vals=list(vals);s.d=dflt
    def read(s,i,ax):
        if isint(i): return s.vals[i] if i<len(s.vals) else s.d
        r=s.d
        r=bv(r,s.w) if isint(r) else r
        # group equal values to keep the term small
        for k in range(len(s.vals)-1,-1,-1):
            v=s.vals[k]
            r=z3.If(i==k,bv(v,s.w) if isint(v) else v,r)
        return r
class Store(Node):
    def __init__(s,prev,i,v): s.prev=prev;s.i=i;s.v=v;s.w=prev.w
    def read(s,i,ax):
        n=s; chain=[]
        # iterative to avoid deep recursion
        while isinstance(n,Store):
            if isint(i) and isint(n.i): d=i-n.i
            else: d=simp(bv(i)-bv(n.i))
            if isint(d):
                if d==0:
                    r=n.v; break
            else: chain.append((d,n.v))
            n=n.prev
        else:
            r=n.read(i,ax)
        for d,v in reversed(chain):
            r=ite(sbool(d==0),v,r,s.w)
        return r
class Lam(Node):
    def __init__(s,w,fn): s.w=w;s.fn=fn      # fn(i,ax) -> value
    def read(s,i,ax): return s.fn(i,ax)

class Cells:
    """content addressed by constant offsets; missing offsets follow init: 'undef','zero','sym'"""
    __slots__=('d','init')
    def __init__(s,d=None,init='undef'): s.d=d if d is not None else {};s.init=init
    def copy(s): return Cells(dict(s.d),s.init)
class ArrC:
    __slots__=('es','node')
    def __init__(s,es,node): s.es=es;s.node=node
    def copy(s): return s
class StrV:
    """value of a std::string: length (BV64/int) and byte contents"""
    __slots__=('len','node')
    def __init__(s,len,node): s.len=len;s.node=node
    def same(s,o): return isinstance(o,StrV) and same(s.len,o.len) and s.node is o.node
class Any_:
    def __repr__(s): return 'ANY'
ANY=Any_()

F32S=z3.Float32();F64S=z3.Float64();RNE=z3.RNE();RTZ=z3.RTZ()
