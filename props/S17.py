"""URLEncode: text transformation specified by an output-length fold and the inverse position map"""
from engine.verify import *
from engine.strings import *
SRCS=['URLEncode.cpp']
NATIVE='S17.cpp'
OPTS={'globals_init':True}
SAFE=b"-_.!~'()"
def inr(c,a,b): return z3.And(z3.UGE(c,ord(a)),z3.ULE(c,ord(b)))
def alnum(c): return z3.Or(inr(c,'0','9'),inr(c,'A','Z'),inr(c,'a','z'))
def safe(c): return z3.Or(alnum(c),*[c==x for x in SAFE])
def hexd(x):
    """hexadecimal digit (upper case) of a 4-bit value given in 8 bits"""
    return z3.If(z3.ULT(x,10),x+ord('0'),x+(ord('A')-10))
def piece(c,k):
    """k-th character of the encoding of c"""
    return z3.If(safe(c),c,z3.If(k==0,bv(ord('%'),8),z3.If(k==1,hexd(z3.LShR(c,4)),hexd(c&15))))
def plen(c): return z3.If(safe(c),bv(1),bv(3))
class Encode(Contract):
    name='URLEncode(std::string const&)'; title=name
    def setup(s,V,st):
        s.c=Str(V,st,'text',1<<30); s.r=V.new(st,'result',32,'heap',Cells()); nd=s.c.v.node
        def step(f,t,ax): return simp(f+plen(bv(nd.read(t,ax),8)))
        s.F=Fold('encoded_length',64,0,step); V.folds.append(s.F)
        idx=z3.Function('source_of!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(64)); F=s.F; n=bv(s.c.v.len); seen=[]
        orig=F.axioms
        def axioms(t,ax):
            t_=bv(t)
            for q in(t_,simp(t_-1)):
                q=bv(q)
                if not any(q.eq(x) for x in seen[-10:]): seen.append(q)
            orig(t,ax)
        F.axioms=axioms
        def out(j,ax):
            j=bv(j); i=idx(j)
            # idx(j) is the one input position whose encoding covers output position j
            orig(simp(i+1),ax)
            ax.append(z3.Implies(z3.ULT(j,F.f(n)),z3.And(z3.ULT(i,n),z3.ULE(F.f(i),j),z3.ULT(j,F.f(simp(i+1))))))
            for t in seen[-10:]: ax.append(z3.Implies(z3.And(z3.ULT(t,n),z3.ULE(F.f(t),j),z3.ULT(j,F.f(simp(t+1)))),i==t))
            return piece(bv(nd.read(i,ax),8),simp(j-F.f(i)))
        s.out=Lam(8,out)
        return [P(s.r,0),s.c.ptr]
    def spec(s,V,st,a):
        ax=[]; s.F.axioms(s.c.v.len,ax)
        for q in ax: st.assume(q)
        V.setc(st,s.r,Cells({0:(32,StrV(s.F.at(s.c.v.len),s.out))}))
    def inputs(s,V,st,a): return [('text','node',s.c.v.node,0,s.c.v.len)]
    def small(s,V,st,a): return [ule(s.c.v.len,2)]
class Decode(Lemma):
    title='lemma: percent-decoding an encoded character gives it back, and only safe characters are emitted'
    def prove(s,L):
        c=z3.BitVec('c',8); p=[piece(c,bv(k)) for k in range(3)]
        val=lambda h: z3.If(z3.ULE(h,ord('9')),h-ord('0'),h-(ord('A')-10))
        up=lambda h: z3.Or(inr(h,'0','9'),inr(h,'A','F'))
        L('one character is passed through unless it is escaped',z3.Implies(plen(c)==1,z3.And(p[0]==c,c!=ord('%'),safe(c))))
        L('an escape is a percent sign and two hexadecimal digits',z3.Implies(plen(c)==3,z3.And(p[0]==ord('%'),up(p[1]),up(p[2]))))
        L('the two digits spell the character',z3.Implies(plen(c)==3,val(p[1])*16+val(p[2])==c))
CONTRACTS=[]
TASKS=[lambda:Encode(),lambda:Decode()]
ASSUME=['texts shorter than 2^30 characters','the C locale is in force (isalnum)']
