from props.bvlib import *
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='B03.cpp'
def one64(r): return bv(1)<<r
class Gen:
    """a Generator object: coefficient word, register, mask, length; invariant of the class: 1<=len<=63, mask=2^len-1"""
    SIZE=32
    def __init__(s,V,st,name='gen',size=32):
        s.g=fresh('coeff'); s.state=fresh('state'); s.r=fresh('r',32); st.assume(z3.And(z3.UGE(s.r,1),z3.ULE(s.r,63)))
        s.r64=z3.ZeroExt(32,s.r); s.mask=one64(s.r64)-1
        c={0:(8,s.g),8:(8,s.state),16:(8,s.mask),24:(4,s.r),28:(4,s.r-1)}
        if size>32: s.cw=fresh('cw',32); c[32]=(4,s.cw)
        s.obj=V.new(st,name,size,'heap',Cells(c)); s.ptr=P(s.obj,0)
def genparts(V,st,p):
    o=p.obj
    r=V.get(st,o,24,4); r64=zext(r,32,64)
    return V.get(st,o,0),V.get(st,o,8),one64(r64)-1,r64
def rem_step(g,mask,r,s,b):
    """(x*s + b) mod g for s of degree < r"""
    t=(s<<1)|b
    return z3.If(z3.Extract(0,0,z3.LShR(t,r))==1,t^g,t)&mask
def enc_step(g,mask,r,s,b):
    """(x*s + b*x^r) mod g"""
    t=(s<<1)^z3.If(b==1,one64(r),bv(0))
    return z3.If(z3.Extract(0,0,z3.LShR(t,r))==1,t^g,t)&mask
def masked(mask,want): return ('pred',lambda x: sbool((bv(x)&mask)==want))
class Shift(Contract):
    no_apply=True
    def __init__(s,name,step): s.name=name;s.step=step
    def setup(s,V,st):
        s.G=Gen(V,st); s.b=fresh('in',32); return [s.G.ptr,s.b]
    def spec(s,V,st,a):
        G=s.G; b=z3.ZeroExt(63,z3.Extract(0,0,s.b))
        c=V.content(st,G.obj).copy(); c.d[8]=(8,masked(G.mask,s.step(G.g,G.mask,G.r64,G.state&G.mask,b))); V.setc(st,G.obj,c)
    def inputs(s,V,st,a): return [('op','str','shift' if s.step is rem_step else 'eshift'),('coeff','term',s.G.g),('state','term',s.G.state),('r','term',s.G.r),('in','term',s.b)]
def rem_fold(V,st,node,s0,n,G,step):
    # one definition, one function symbol: the recursion is determined by its arguments
    cache=V.__dict__.setdefault('_foldcache',[])
    for (nd,a,g,m,sp,F) in cache:
        if nd is node and same(a,s0) and same(g,G[0]) and same(m,G[2]) and sp is step: return F
    F=_rem_fold(V,st,node,s0,n,G,step); cache.append((node,s0,G[0],G[2],step,F)); return F
def _rem_fold(V,st,node,s0,n,G,step):
    def fstep(f,x,q): 
        b=bv(node.read(x,q),8)
        return step(G[0],G[2],G[3],f,z3.ZeroExt(63,z3.Extract(0,0,b)))
    return Fold('remainder',64,0,fstep,s0,match=lambda c,F,w: sbool((bv(c,64)&G[2])==F) if w==64 else False)
class Word(Contract):
    """syndrome/parity of a vector"""
    NAMES={rem_step:'BitVector::syndrome(Generator&) const',enc_step:'BitVector::parity(Generator&) const'}
    def __init__(s,step,kind='alias'): s.step=step;s.kind=kind;s.name=s.NAMES[step]; s.title=s.name+' [%s]'%kind
    def setup(s,V,st):
        s.v=Vec(V,st,'bits',s.kind); s.G=Gen(V,st); return [s.v.ptr,s.G.ptr]
    def spec(s,V,st,a):
        o,s0,n=view(V,st,a[0])
        g,state,mask,r=genparts(V,st,a[1])
        if o is None: w=bv(0)
        else:
            F=rem_fold(V,st,elems(V,st,o),s0,n,(g,state,mask,r),s.step)
            if V.target is s: V.folds.append(F)
            w=F.at(simp(s0+n)); ax=[]; F.axioms(simp(bv(s0)+n),ax)
            # values of the recursion are reduced
            st.assume(z3.ULE(w,mask))
            for q in ax: st.assume(q)
        go=a[1].obj; c=V.content(st,go).copy()
        if V.target is s: c.d[8]=(8,masked(mask,w))
        else:
            f=fresh('state'); st.assume((f&mask)==w); c.d[8]=(8,f)
        V.setc(st,go,c)
        return w
    def inputs(s,V,st,a): return [('op','str','syndrome' if s.step is rem_step else 'parity'),('coeff','term',s.G.g),('state','term',s.G.state),('r','term',s.G.r),('n','term',s.v.n)]+([('bits','arr',s.v.data,s.v.s0,s.v.n,1)] if s.v.data is not None else [])
    def small(s,V,st,a): return [ule(s.v.n,5)]
class PSyn(Word):
    def __init__(s,kind): Word.__init__(s,rem_step,kind); s.name='Parity::syndrome(BitVector const&)'; s.title=s.name+' [%s]'%kind
    def setup(s,V,st):
        s.v=Vec(V,st,'bits',s.kind); s.G=Gen(V,st,size=40); return [s.G.ptr,s.v.ptr]
    def spec(s,V,st,a):
        ret=Word.spec(s,V,st,[a[1],a[0]]); return ret
class Write(Contract):
    """writeParityWord: remainder word, inverted on request, into the first r bits of the target"""
    name='Parity::writeParityWord(BitVector const&, BitVector&, bool)'
    def __init__(s,inv,kind): s.inv=inv;s.kind=kind; s.title=s.name+' [invert=%d, %s data]'%(inv,kind)
    def setup(s,V,st):
        s.d=Vec(V,st,'data',s.kind); s.t=Vec(V,st,'target'); s.G=Gen(V,st,size=40)
        return [s.G.ptr,s.d.ptr,s.t.ptr,s.inv]
    def requires(s,V,st,a): return [('target holds the parity word',ule(s.G.r64,s.t.n))]
    def spec(s,V,st,a):
        G=s.G
        W=Word(enc_step); w=W.spec(V,st,[a[1],a[0]])
        c=V.content(st,G.obj).copy(); c.d[8]=(8,masked(G.mask,w)); V.setc(st,G.obj,c)
        v=~w if s.inv else w
        setnode(V,st,s.t.data,1,fill_node(elems(V,st,s.t.data),s.t.s0,v,G.r,True))
    def inputs(s,V,st,a): return [('op','str','write'),('invert','int',int(s.inv)),('coeff','term',s.G.g),('state','term',s.G.state),('r','term',s.G.r),('n','term',s.d.n),('tn','term',s.t.n),('target','arr',s.t.data,s.t.s0,s.t.n,1)]+([('bits','arr',s.d.data,s.d.s0,s.d.n,1)] if s.d.data is not None else [])
    def small(s,V,st,a): return [ule(s.d.n,4),ule(s.t.n,8)]
class Ctor(Contract):
    name='Generator::Generator(unsigned long, unsigned int)'
    def setup(s,V,st):
        s.o=V.new(st,'gen',32,'heap',Cells()); s.g=fresh('coeff'); s.r=fresh('r',32); return [P(s.o,0),s.g,s.r]
    def requires(s,V,st,a): return [('degree 1..63',z3.And(z3.UGE(s.r,1),z3.ULE(s.r,63)))]
    def spec(s,V,st,a):
        r64=z3.ZeroExt(32,s.r)
        V.setc(st,s.o,Cells({0:(8,s.g),8:(8,bv(0)),16:(8,one64(r64)-1),24:(4,s.r),28:(4,s.r-1)}))
class PCtor(Ctor):
    name='Parity::Parity(unsigned long, unsigned int, unsigned int)'
    def setup(s,V,st):
        s.o=V.new(st,'gen',40,'heap',Cells()); s.g=fresh('coeff'); s.r=fresh('r',32); s.cw=fresh('cw',32); return [P(s.o,0),s.g,s.r,s.cw]
    def spec(s,V,st,a):
        Ctor.spec(s,V,st,a); V.content(st,s.o).d[32]=(4,s.cw)
class StateOf(Contract):
    name='Generator::state() const'; no_apply=True
    def setup(s,V,st): s.G=Gen(V,st); return [s.G.ptr]
    def spec(s,V,st,a): return s.G.state&s.G.mask

class Lemmas(Lemma):
    title='lemma: data followed by its parity has syndrome zero; a changed codeword has the syndrome of the change'
    def prove(s,L):
        g,r=z3.BitVecs('g r',64); mask=one64(r)-1; R=z3.And(z3.UGE(r,1),z3.ULE(r,63))
        a,b,sx,E=z3.BitVecs('a b s E',64); lt=lambda x: z3.ULE(x,mask)
        bit=lambda x: z3.Or(x==0,x==1)
        st=lambda x: rem_step(g,mask,r,x,bv(0)); syn=lambda x,y: rem_step(g,mask,r,x,y); enc=lambda x,y: enc_step(g,mask,r,x,y)
        gl=g&mask
        L('remainders stay reduced',z3.Implies(z3.And(R,bit(b)),z3.And(lt(syn(a,b)),lt(enc(a,b)))))
        L('multiplication by x is linear',z3.Implies(z3.And(R,lt(a),lt(sx)),st(a^sx)==st(a)^st(sx)))
        L('feeding a bit adds it',z3.Implies(z3.And(R,lt(a),bit(b)),syn(a,b)==st(a)^b))
        L('syndrome register is linear in state and input',z3.Implies(z3.And(R,lt(a),lt(sx),bit(b),bit(E)),syn(a^sx,b^E)==syn(a,b)^syn(sx,E)))
        L('encoder feeds a bit multiplied by x^r',z3.Implies(z3.And(R,lt(a),bit(b)),enc(a,b)==st(a)^z3.If(b==1,gl,bv(0))))
        k=z3.BitVec('k',64)
        L('x^k for k<r is a shift (induction step)',z3.Implies(z3.And(R,z3.ULT(k+1,r),z3.ULT(k,r)),st(one64(k))==one64(k+1)))
        L('x^r reduces to the low coefficients',z3.Implies(R,st(one64(r-1))==gl))
        # M(s) = s*x^r mod g : r-fold multiplication by x. linear, commutes with x, M(1)=gl by the three facts above (induction on r)
        M=z3.Function('M',z3.BitVecSort(64),z3.BitVecSort(64))
        hyp=z3.And(R,lt(sx),bit(b),lt(M(sx)),M(st(sx)^b)==M(st(sx))^M(b),M(st(sx))==st(M(sx)),M(bv(0))==0,M(bv(1))==gl)
        L('parity register = syndrome register times x^r (induction step)',z3.Implies(hyp,enc(M(sx),b)==M(syn(sx,b))))
        # feeding the parity bits E_{r-1}..E_0 into the syndrome register at S: after j bits the register is x^j*S + (E >> (r-j))
        j=z3.BitVec('j',64); X=z3.BitVec('X',64)
        L('register after j parity bits (induction step)',z3.Implies(z3.And(R,z3.ULT(j,r),lt(E),lt(X)),
            syn(X^z3.LShR(E,r-j),z3.LShR(E,r-1-j)&1)==st(X)^z3.LShR(E,r-(j+1))))
        L('after r parity bits the register is M(S)+E, zero when E is the parity',z3.Implies(z3.And(R,lt(E),M(sx)==E),M(sx)^z3.LShR(E,r-r)==0))
CONTRACTS=[Word(rem_step),Word(enc_step)]+[Field('fill',True)]
TASKS=[lambda:Shift('Generator::syndromeShift(unsigned int)',rem_step),lambda:Shift('Generator::encoderShift(unsigned int)',enc_step),
  lambda:Ctor(),lambda:PCtor(),lambda:StateOf(),lambda:Lemmas()]
TASKS+=[(lambda st=st,k=k:Word(st,k)) for st in(rem_step,enc_step) for k in('alias','owner','empty')]
TASKS+=[(lambda k=k:PSyn(k)) for k in('alias','empty')]
TASKS+=[(lambda i=i,k=k:Write(i,k)) for i in(False,True) for k in('alias','owner','empty')]
ASSUME=['vectors hold fewer than 2^32 elements','data and parity target do not overlap in memory','generator degree 1..63 (0 makes the register shift undefined, 64 is refused by an assertion)']
