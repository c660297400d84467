"""Bit-vector facts translated to integer arithmetic (exact for linear terms, opaque variables otherwise).
Sound for 'unsat': every bit-vector model yields an integer model."""
import z3
from z3 import *
K=z3
def U(a,b):
    if not b or a is b: return a
    if not a: return b
    h={x.get_id() for x in a}; return a+[x for x in b if x.get_id() not in h]
def _c(n,w): return n-(1<<w) if n>>(w-1) else n
class LIA:
    def __init__(s):
        s.cache={};s.bcache={};s.keep=[];s.n=0;s.exact=True
        s.sol=z3.SimpleSolver(); s.levels=[]; s.inq={}; s.fns={}
    def var(s,lo,hi,defs,nm='v'):
        s.n+=1; v=z3.Int('%s!%d'%(nm,s.n)); defs.append(z3.And(v>=lo,v<=hi)); return v
    # linear form: (dict id->(var,coef), const, lo, hi); integer congruent to the term mod 2^w
    def lin(s,t):
        k=t.get_id()
        r=s.cache.get(k)
        if r is None:
            s.keep.append(t); r=s.cache[k]=s._lin(t)
        return r
    def mk(s,d,c,lo,hi,defs,opq): return (d,c,lo,hi,defs,opq)
    def leaf(s,w,opq=0):
        defs=[]; v=s.var(0,(1<<w)-1,defs); return ({v.get_id():(v,1)},0,0,(1<<w)-1,defs,opq)
    def addl(s,a,b,m=1):
        d=dict(a[0])
        for k,(v,c) in b[0].items():
            c2=(d[k][1] if k in d else 0)+m*c
            if c2: d[k]=(v,c2)
            else: d.pop(k,None)
        lo,hi=(b[2]*m,b[3]*m) if m>=0 else (b[3]*m,b[2]*m)
        return (d,a[1]+m*b[1],a[2]+lo,a[3]+hi,U(a[4],b[4]),max(a[5],b[5]))
    def scale(s,a,m):
        if m==0: return ({},0,0,0,[],0)
        lo,hi=(a[2]*m,a[3]*m) if m>=0 else (a[3]*m,a[2]*m)
        return ({k:(v,c*m) for k,(v,c) in a[0].items()},a[1]*m,lo,hi,a[4],a[5])
    def expr(s,a):
        e=[v if c==1 else c*v for v,c in a[0].values()]
        if a[1] or not e: e.append(z3.IntVal(a[1]))
        return e[0] if len(e)==1 else z3.Sum(e)
    def norm(s,a,lo,w):
        """value in [lo,lo+2^w)"""
        M=1<<w
        k0=(a[2]-lo)//M; k1=(a[3]-lo)//M
        if k0==k1:
            return (a[0],a[1]-k0*M,a[2]-k0*M,a[3]-k0*M,a[4],a[5])
        key=(tuple(sorted((k,c) for k,(v,c) in a[0].items())),a[1],lo,w)
        r=s.inq.get(key)
        if r is None:
            defs=list(a[4])
            k=s.var(k0,k1,defs,'k'); v=s.var(lo,lo+M-1,defs,'n')
            defs.append(v==s.expr(a)-M*k)
            r=s.inq[key]=({v.get_id():(v,1)},0,lo,lo+M-1,defs,a[5])
        return r
    def val(s,t): return s.norm(s.lin(t),0,t.size())
    def sval(s,t): return s.norm(s.lin(t),-(1<<(t.size()-1)),t.size())
    def divp(s,a,m):
        """(quotient, remainder) of non-negative a by m"""
        defs=list(a[4]); q=s.var(a[2]//m,a[3]//m,defs,'q'); r=s.var(0,m-1,defs,'r')
        defs.append(s.expr(a)==m*q+r)
        return ({q.get_id():(q,1)},0,a[2]//m,a[3]//m,defs,a[5]),({r.get_id():(r,1)},0,0,m-1,defs,a[5])
    def _lin(s,t):
        w=t.size(); k=t.decl().kind(); ch=t.children()
        if z3.is_bv_value(t):
            n=_c(t.as_long(),w); return ({},n,n,n,[],0)
        if k==z3.Z3_OP_BADD:
            r=s.lin(ch[0])
            for c in ch[1:]: r=s.addl(r,s.lin(c))
            return r
        if k==z3.Z3_OP_BSUB:
            r=s.lin(ch[0])
            for c in ch[1:]: r=s.addl(r,s.lin(c),-1)
            return r
        if k==z3.Z3_OP_BNEG: return s.scale(s.lin(ch[0]),-1)
        if k==z3.Z3_OP_BNOT:
            r=s.scale(s.lin(ch[0]),-1); return (r[0],r[1]-1,r[2]-1,r[3]-1,r[4],r[5])
        if k==z3.Z3_OP_BMUL:
            cs=[c for c in ch if z3.is_bv_value(c)]; ns=[c for c in ch if not z3.is_bv_value(c)]
            if len(ns)<=1:
                m=1
                for c in cs: m=_c((m*c.as_long())&((1<<w)-1),w)
                return s.scale(s.lin(ns[0]),m) if ns else ({},m,m,m,[],0)
            return s.leaf(w,2)
        if k==z3.Z3_OP_ZERO_EXT: return s.val(ch[0])
        if k==z3.Z3_OP_SIGN_EXT: return s.sval(ch[0])
        if k==z3.Z3_OP_CONCAT:
            r=None
            for c in ch:
                v=s.val(c)
                r=v if r is None else s.addl(s.scale(r,1<<c.size()),v)
            return r
        if k==z3.Z3_OP_EXTRACT:
            h,l=t.params()
            if l==0: 
                a=s.lin(ch[0]); M=1<<w
                d={kk:(v,_c(c%M,w)) for kk,(v,c) in a[0].items() if c%M}
                if any(d.get(kk,(0,0))[1]!=c for kk,(v,c) in a[0].items()): return s.norm(a,0,ch[0].size()) if False else a
                return a
            return s.divp(s.val(ch[0]),1<<l)[0]
        if k in(z3.Z3_OP_BLSHR,z3.Z3_OP_BSHL) and z3.is_bv_value(ch[1]):
            n=ch[1].as_long()
            if n>=w: return ({},0,0,0,[],0)
            return s.divp(s.val(ch[0]),1<<n)[0] if k==z3.Z3_OP_BLSHR else s.scale(s.lin(ch[0]),1<<n)
        if k==z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]) and ch[1].as_long()<w:
            n=ch[1].as_long(); a=s.sval(ch[0])
            b=(a[0],a[1]+(1<<(w-1)),a[2]+(1<<(w-1)),a[3]+(1<<(w-1)),a[4],a[5])
            q=s.divp(b,1<<n)[0]; o=1<<(w-1-n)
            return (q[0],q[1]-o,q[2]-o,q[3]-o,q[4],q[5])
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long(): return s.divp(s.val(ch[0]),ch[1].as_long())[0]
        if k in(z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long(): return s.divp(s.val(ch[0]),ch[1].as_long())[1]
        if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I) and z3.is_bv_value(ch[1]) and 0<ch[1].as_long()<1<<(w-1):
            m=ch[1].as_long(); a=s.sval(ch[0]); dv=k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I)
            if a[2]>=0: return s.divp(a,m)[0 if dv else 1]
            defs=list(a[4]); tq=lambda x: x//m if x>=0 else -((-x)//m)
            q=s.var(tq(a[2]),tq(a[3]),defs,'sq'); r=s.var(-(m-1),m-1,defs,'sr'); e=s.expr(a)
            defs+= [e==m*q+r, z3.If(e>=0,r>=0,r<=0)]
            return ({q.get_id():(q,1)},0,tq(a[2]),tq(a[3]),defs,a[5]) if dv else ({r.get_id():(r,1)},0,-(m-1),m-1,defs,a[5])
        if k==z3.Z3_OP_BAND and len(ch)==2:
            for a,b in((0,1),(1,0)):
                if z3.is_bv_value(ch[a]):
                    m=ch[a].as_long()
                    if m&(m+1)==0 and m: return s.divp(s.val(ch[b]),m+1)[1]
        if k==z3.Z3_OP_ITE:
            c,cd,co=s.bool(ch[0]); a=s.val(ch[1]);b=s.val(ch[2])
            defs=U(U(list(cd),a[4]),b[4])[:]; v=s.var(0,(1<<w)-1,defs,'i')
            defs.append(z3.If(c,v==s.expr(a),v==s.expr(b)))
            return ({v.get_id():(v,1)},0,0,(1<<w)-1,defs,max(co,a[5],b[5]))
        if k==z3.Z3_OP_BXOR and len(ch)==2:
            for a,b in((0,1),(1,0)):
                if z3.is_bv_value(ch[a]):
                    m=ch[a].as_long()
                    if m==(1<<w)-1:
                        r=s.scale(s.lin(ch[b]),-1); return (r[0],r[1]-1,r[2]-1,r[3]-1,r[4],r[5])
                    if m&(m+1)==0 and m:
                        x=s.val(ch[b]); r=s.divp(x,m+1)[1]; y=s.addl(x,r,-2)
                        return (y[0],y[1]+m,x[2],x[3]+m,y[4],y[5])
        if k==z3.Z3_OP_BAND and len(ch)==2:
            for a,b in((0,1),(1,0)):
                if z3.is_bv_value(ch[a]):
                    m=ch[a].as_long(); c=(~m)&((1<<w)-1)
                    if c&(c+1)==0 and c:
                        x=s.val(ch[b]); q=s.divp(x,c+1)[0]; return s.scale(q,c+1)
        if k in(z3.Z3_OP_BXOR,z3.Z3_OP_BAND,z3.Z3_OP_BOR) and len(ch)==2 and not any(z3.is_bv_value(c) for c in ch):
            a,b=s.val(ch[0]),s.val(ch[1])
            if a[2]>=0 and a[3]<=1 and b[2]>=0 and b[3]<=1:
                defs=list(U(a[4],b[4])); v=s.var(0,1,defs,'l'); ea,eb=s.expr(a),s.expr(b)
                defs.append(v==(z3.If(ea==eb,0,1) if k==z3.Z3_OP_BXOR else z3.If(ea==0,z3.IntVal(0),eb) if k==z3.Z3_OP_BAND else z3.If(ea==0,eb,z3.IntVal(1))))
                return ({v.get_id():(v,1)},0,0,1,defs,max(a[5],b[5]))
        if k==z3.Z3_OP_UNINTERPRETED:
            if t.num_args()==0: return s.leaf(w,0)
            if all(z3.is_bv(c) for c in ch):
                av=[s.val(c) for c in ch]; defs=[]; o=0
                for a in av: defs=U(defs,a[4]); o=max(o,a[5])
                dk=t.decl().get_id(); f=s.fns.get(dk)
                if f is None: f=s.fns[dk]=z3.Function('u!%d!%s'%(dk,t.decl().name()),*([z3.IntSort()]*(len(ch)+1))); s.keep.append(t.decl())
                e=f(*[s.expr(a) for a in av]); defs=list(defs); defs.append(z3.And(e>=0,e<(1<<w)))
                v=e
                return ({v.get_id():(v,1)},0,0,(1<<w)-1,defs,o)
            return s.leaf(w,1)
        return s.leaf(w,2)
    def bool(s,f):
        k=f.get_id(); r=s.bcache.get(k)
        if r is None:
            s.keep.append(f); r=s.bcache[k]=s._bool(f)
        return r
    def _bool(s,f):
        k=f.decl().kind(); ch=f.children()
        if z3.is_true(f) or z3.is_false(f): return f,[],0
        if k in(z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT,z3.Z3_OP_IMPLIES,z3.Z3_OP_XOR) or (k==z3.Z3_OP_ITE) or (k in(z3.Z3_OP_EQ,z3.Z3_OP_IFF,z3.Z3_OP_DISTINCT) and z3.is_bool(ch[0])):
            rs=[s.bool(c) for c in ch]; e=[r[0] for r in rs]; defs=[]
            for r in rs: defs=U(defs,r[1])
            o=max(r[2] for r in rs)
            if k==z3.Z3_OP_AND: x=z3.And(*e)
            elif k==z3.Z3_OP_OR: x=z3.Or(*e)
            elif k==z3.Z3_OP_NOT: x=z3.Not(e[0])
            elif k==z3.Z3_OP_IMPLIES: x=z3.Implies(*e)
            elif k==z3.Z3_OP_XOR: x=z3.Xor(*e)
            elif k==z3.Z3_OP_ITE: x=z3.If(*e)
            elif k==z3.Z3_OP_DISTINCT: x=z3.Distinct(*e)
            else: x=e[0]==e[1]
            return x,defs,o
        if ch and z3.is_bv(ch[0]):
            cmpu={z3.Z3_OP_ULEQ:lambda a,b:a<=b,z3.Z3_OP_ULT:lambda a,b:a<b,z3.Z3_OP_UGEQ:lambda a,b:a>=b,z3.Z3_OP_UGT:lambda a,b:a>b,z3.Z3_OP_EQ:lambda a,b:a==b}
            cmps={z3.Z3_OP_SLEQ:cmpu[z3.Z3_OP_ULEQ],z3.Z3_OP_SLT:cmpu[z3.Z3_OP_ULT],z3.Z3_OP_SGEQ:cmpu[z3.Z3_OP_UGEQ],z3.Z3_OP_SGT:cmpu[z3.Z3_OP_UGT]}
            if k in cmpu or k in cmps:
                g=s.val if k in cmpu else s.sval
                a,b=g(ch[0]),g(ch[1])
                return (cmpu.get(k) or cmps.get(k))(s.expr(a),s.expr(b)),U(a[4],b[4]),max(a[5],b[5])
            if k==z3.Z3_OP_DISTINCT and len(ch)==2:
                a,b=s.val(ch[0]),s.val(ch[1]); return s.expr(a)!=s.expr(b),U(a[4],b[4]),max(a[5],b[5])
        if k==z3.Z3_OP_UNINTERPRETED and f.num_args()==0: return f,[],0
        s.n+=1
        return z3.Bool('b!%d'%s.n),[],2
    # ---- incremental checking
    def _add(s,f,have):
        e,defs,o=s.bool(f)
        for d in defs:
            i=d.get_id()
            if i not in have: have.add(i); s.sol.add(d)
        s.sol.add(e)
        return o
    def sync(s,pc):
        n=0
        for i,(a,chunk,have,o) in enumerate(s.levels):
            b=a+len(chunk)
            if b<=len(pc) and all(x is y for x,y in zip(chunk,pc[a:b])): n=i+1
            else: break
        while len(s.levels)>n: s.sol.pop(); s.levels.pop()
        start=s.levels[-1][0]+len(s.levels[-1][1]) if s.levels else 0
        if start<len(pc):
            chunk=pc[start:]; s.sol.push()
            have=set(s.levels[-1][2]) if s.levels else set()
            o=s.levels[-1][3] if s.levels else 0
            for c in chunk: o=max(s._add(c,have),o)
            s.levels.append((start,chunk,have,o))
    def check(s,pc,extra=None,tmo=1500):
        """'unsat' (sound), 'sat' (meaningful only at level 0), 'unknown'; second: 0 exact, 1 function applications opaque, 2 other terms opaque"""
        try:
            s.sync(pc)
            o=s.levels[-1][3] if s.levels else 0
            s.sol.set('timeout',tmo)
            if extra is not None:
                s.sol.push()
                o=max(s._add(extra,set(s.levels[-1][2]) if s.levels else set()),o)
            r=str(s.sol.check())
            if extra is not None: s.sol.pop()
            return r,o
        except z3.Z3Exception:
            s.sol=z3.SimpleSolver(); s.levels=[]; return 'unknown',2
    def batch(s,pc,xs,tmo=1500):
        """classify formulas: 'proved' (pc implies it), 'false' (a model of pc falsifies it), '?' ; with the exactness level of each"""
        out=['?']*len(xs); lv=[2]*len(xs)
        try:
            s.sync(pc); base=s.levels[-1][3] if s.levels else 0
            have0=s.levels[-1][2] if s.levels else set()
            conv=[]
            for i,x in enumerate(xs):
                e,defs,o=s.bool(x); conv.append((e,defs)); lv[i]=max(base,o)
            def solve(idx,depth):
                act=list(idx)
                while act:
                    s.sol.push(); have=set(have0)
                    for i in act:
                        for d in conv[i][1]:
                            if d.get_id() not in have: have.add(d.get_id()); s.sol.add(d)
                    s.sol.add(z3.Or([z3.Not(conv[i][0]) for i in act])); s.sol.set('timeout',tmo if len(act)>1 else min(tmo,500))
                    r=s.sol.check(); m=s.sol.model() if r==z3.sat else None
                    s.sol.pop()
                    if r==z3.unsat:
                        for i in act: out[i]='proved'
                        return
                    if r==z3.sat:
                        bad=[i for i in act if z3.is_false(m.eval(conv[i][0],model_completion=True))]
                        if not bad: return
                        for i in bad: out[i]='false'
                        act=[i for i in act if out[i]!='false']; continue
                    if len(act)==1: return
                    h=len(act)//2
                    solve(act[:h],depth+1); solve(act[h:],depth+1); return
            solve(range(len(xs)),0)
        except z3.Z3Exception:
            s.sol=z3.SimpleSolver(); s.levels=[]
        return out,lv
