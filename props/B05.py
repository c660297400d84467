from props.bvlib import *
SRCS=['BitVector.cpp','tu:bv.cpp']
NATIVE='B05.cpp'
F32=z3.Float32()
HALF=z3.FPVal(0.5,F32)
class Punct(Contract):
    """copyPunctured (pos counts source elements) / copyUnPunctured (pos counts destination elements).
    rank(t): how many listed positions lie below t; position t is listed iff rank(t)<m and p[rank(t)]==t.
    mode: valid | size (wrong size) | order (not increasing at b,b+1) | range (p[b] outside)"""
    NAMES={False:'BitVector::copyPunctured(BitVector&, unsigned int const*, unsigned long)',True:'SoftVector::copyUnPunctured(SoftVector&, unsigned int const*, unsigned long)'}
    def __init__(s,un,mode,k1='alias',k2='alias'):
        s.un=un;s.mode=mode;s.k1=k1;s.k2=k2;s.name=s.NAMES[un]; s.title='%s [%s, %s -> %s]'%(s.name,mode,k1,k2)
        s.asserts='forbidden' if mode=='valid' else 'allowed'
    def setup(s,V,st):
        es=s.es=4 if s.un else 1
        f=z3.Function('p!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(32)); p=lambda i: z3.ZeroExt(32,f(bv(i))); s.p=p
        s.d=Vec(V,st,'dst',s.k2,es=es,node=Base('dst',8 if es==1 else 'f32'),maxn=1<<31)
        na=Base('src',8 if es==1 else 'f32')
        s.a=Vec(V,st,'src',s.k1,es=es,node=na,maxn=1<<31)
        s.total=s.d.n if s.un else s.a.n         # positions run over this vector
        m=s.m=fresh('plth'); st.assume(z3.ULE(m,1<<40))
        N=bv(s.total)
        np=Base('puncture',32); np.f=f
        s.po=V.new(st,'puncture',mul(64,m,4),'heap',ArrC(4,np))
        other=bv(s.a.n if s.un else s.d.n)
        if s.mode!='size': st.assume(other+m==N)
        else: st.assume(z3.Not(other+m==N))
        b=s.b=fresh('bad')
        if s.mode=='valid':
            # strictly increasing, in range; lemma: p[i]+(m-i)<=N
            np.axioms=[lambda i,v: z3.Implies(z3.ULT(i,m),z3.And(z3.ULE(p(i)+(m-i),N),z3.Implies(z3.UGT(i,0),z3.UGT(p(i),p(i-1)))))]
        elif s.mode=='order': st.assume(z3.ULT(b,m-1)); st.assume(z3.UGE(m,2)); st.assume(z3.ULE(p(b+1),p(b)))
        elif s.mode=='range': st.assume(z3.ULT(b,m)); st.assume(z3.UGE(p(b),N))
        pun=lambda t,r: z3.And(z3.ULT(r,m),p(r)==t)
        R=s.R=Fold('rank',64,0,lambda r,t,ax: (ax.append(np.axioms[0](r,None)) if np.axioms else None,r+z3.If(pun(t,r),bv(1),bv(0)))[1])
        s.pun=lambda t: pun(bv(t),R.at(t))
        if not s.un:
            # sel(j): the j-th position that is not listed
            sel=s.sel=z3.Function('sel!%d'%uid(),z3.BitVecSort(64),z3.BitVecSort(64))
            if s.mode=='valid':
                A=s.a.s0
                def ax(i,v):
                    t=simp(bv(i)-A); t=bv(t)
                    return z3.Implies(z3.And(z3.ULT(t,N),z3.Not(s.pun(t))),sel(t-R.at(t))==t)
                na.axioms=[ax]
        V.terms+=[m]+([b,simp(b+1)] if s.mode in('order','range') else [])
        V.hints.append(s.hints)
        return [s.a.ptr,s.d.ptr,P(s.po,0),m]
    def hints(s,V,entry,keys,steps,n):
        role={'src':[], 'dst':[], 'p':[]}
        def conv(o,s0,sh):
            return lambda key: (lambda get: (lambda x: sub(64,simp(z3.LShR(bv(x.off),sh)) if sh else x.off,s0))(get(key)))
        sh=2 if s.un else 0
        cs={'src':conv(s.a.data,s.a.s0,sh),'dst':conv(s.d.data,s.d.s0,sh),'p':conv(s.po,0,2)}
        # objects the function keeps fixed in this loop count too (pointers read but not advanced)
        cells={}
        for oid,(lv,c,o) in entry.mem.items():
            if o.kind=='stack' and isinstance(c,Cells) and lv and 0 in c.d: cells[o]=c.d[0]
        ints_=[]
        ks=[k for k in keys if k[0]=='c']+[('c',o,0,e[0]) for o,e in cells.items() if not any(k[0]=='c' and k[1] is o for k in keys)]
        for k in ks:
            v=V.getv(entry,k)
            if isinstance(v,P):
                for nm,ob in(('src',s.a.data),('dst',s.d.data),('p',s.po)):
                    if v.obj is ob and ob is not None: role[nm].append(cs[nm](k))
            elif (isint(v) or z3.is_bv(v)) and k[3] in(4,8) and k in keys:
                g=lambda get,k=k: zext(get(k),8*k[3],64)
                ints_.append(g)
        for nm in role:
            if not role[nm]: role[nm]=ints_[:4]
        out=[];R=s.R;p=s.p;m=s.m
        def mk(nm,f):
            def fn(sx,get,nn,ph,X=None):
                ax=[]; r=f(get,ax)
                for a in ax: (X if X is not None else entry).assume(bz(a))
                return sbool(r)
            out.append(Cand(nm,fn,True))
        main='dst' if s.un else 'src'; oth='src' if s.un else 'dst'
        for kt in role['p']:
            for tt in role[main]:
                def rank(get,ax,kt=kt,tt=tt):
                    t=bv(tt(get)); R.axioms(t,ax); return R.at(t)==kt(get)
                if s.mode=='valid': mk('rank of the position == entries used',rank)
                mk('last used entry is just below the position',lambda get,ax,kt=kt,tt=tt: z3.Or(bv(kt(get))==0,bv(tt(get))==p(kt(get)-1)+1))
                def nxt(get,ax,kt=kt,tt=tt):
                    k=bv(kt(get)); ax.append(z3.BoolVal(True) if s.mode!='valid' else z3.Implies(z3.ULT(k,m),z3.ULE(p(k)+(m-k),bv(s.total))))
                    return z3.Or(z3.UGE(k,m),z3.UGE(p(k),bv(tt(get))))
                mk('next entry is not below the position',nxt)
                mk('inner: last entry used is not below the position',lambda get,ax,kt=kt,tt=tt: z3.And(bv(kt(get))!=0,z3.UGE(p(kt(get)-1),bv(tt(get)))))
                def inner(get,ax,kt=kt,tt=tt):
                    k=bv(kt(get)); return z3.And(k!=0,z3.UGE(p(k-1),bv(tt(get))))
                def rank1(get,ax,kt=kt,tt=tt):
                    t=bv(tt(get)); R.axioms(t,ax); return R.at(t)+1==kt(get)
                if s.mode=='valid': mk('rank of the position == entries used - 1',rank1)
                if s.mode!='valid':
                    # remaining count of the inner loop
                    pass
                for ot in role[oth]:
                    sg=(lambda a,b: a+b) if s.un else (lambda a,b: a-b)
                    base=(lambda get,kt=kt,tt=tt,ot=ot: (bv(tt(get)),bv(ot(get)),bv(kt(get))))
                    def lin(get,ax,base=base,c=0):
                        t,o,k=base(get); return t==o+k-c
                    mk('positions add up',lin); mk('positions add up but one',lambda get,ax,base=base: lin(get,ax,base,1))
        # loop counter of a run: entry value of the run is p[k-1]-t0
        ints=[k for k in keys if k[0]=='c' and not isinstance(V.getv(entry,k),(P,StrV)) and k[3]==4]
        for kt in role['p']:
            for tt in role[main]:
                for k in ks:
                    v=V.getv(entry,k)
                    if k in keys or isinstance(v,(P,StrV)) or not(isint(v) or z3.is_bv(v)) or k[3]!=4: continue
                    for i in ints:
                        mk('run: position + (count - index) == entry',lambda get,ax,kt=kt,tt=tt,k=k,i=i: bv(tt(get))+sub(64,sext(get(k),32,64),sext(get(i),32,64))==p(kt(get)-1))
                for i in ints:
                    mk('run: position + count == entry',lambda get,ax,kt=kt,tt=tt,i=i: bv(tt(get))+sext(get(i),32,64)==p(kt(get)-1))
        return out
    def spec(s,V,st,a):
        N=bv(s.total)
        if s.d.data is not None:
            es=s.es; dn=elems(V,st,s.d.data,es)
            if s.mode!='valid':
                return [(st,ABORT)]
            if s.a.data is not None:
                sn=elems(V,st,s.a.data,es)
            else: sn=Base('nothing','f32')
            R=s.R;m=s.m
            if s.un:
                def val(j,ax):
                    j=bv(j); R.axioms(j,ax); r=R.at(j); ax.append(z3.ULE(r,j)); 
                    return z3.If(s.pun(j),HALF,sn.read(add(64,s.a.s0,simp(j-r)),ax))
            else:
                def val(j,ax):
                    t=s.sel(bv(j)); R.axioms(t,ax)
                    ax.append(z3.Implies(z3.ULT(bv(j),bv(s.d.n)),z3.And(z3.ULT(t,N),z3.Not(s.pun(t)),t-R.at(t)==bv(j))))
                    return sn.read(add(64,s.a.s0,t),ax)
            s0=s.d.s0;n=s.d.n
            def fn(i,ax):
                j=sub(64,i,s0); c=ult(j,n)
                if c is False: return dn.read(i,ax)
                v=val(j,ax)
                return v if c is True else z3.If(c,v if z3.is_fp(v) else bv(v,8),dn.read(i,ax))
            setnode(V,st,s.d.data,es,Lam('f32' if es==4 else 8,fn))
        elif s.mode!='valid': return [(st,ABORT)]
        return None
    def inputs(s,V,st,a):
        r=[('op','str','un' if s.un else 'p'),('n1','term',s.a.n),('n2','term',s.d.n),('m','term',s.m),('puncture','arr',s.po,0,s.m,4)]
        if s.a.data is not None: r.append(('a','arr',s.a.data,s.a.s0,s.a.n,s.es))
        return r
    def small(s,V,st,a): return [ule(v.n,4) for v in(s.a,s.d) if not isint(v.n)]+[ule(s.m,3)]
class Room(Lemma):
    title='lemma: strictly increasing positions below N leave room: p[i]+(m-i)<=N'
    def prove(s,L):
        f=z3.Function('p',z3.BitVecSort(64),z3.BitVecSort(32)); p=lambda i: z3.ZeroExt(32,f(i)); m,N,i=z3.BitVecs('m N i',64)
        pre=z3.And(z3.ULE(N,1<<31),z3.ULE(m,1<<40),z3.ULT(i,m))
        L('last entry',z3.Implies(z3.And(pre,i==m-1,z3.ULT(p(i),N)),z3.ULE(p(i)+(m-i),N)))
        L('entry before',z3.Implies(z3.And(pre,z3.ULT(i+1,m),z3.ULT(p(i),p(i+1)),z3.ULE(p(i+1)+(m-i-1),N)),z3.ULE(p(i)+(m-i),N)))
CONTRACTS=[]
OPTS=dict(lean=True)
TASKS=[lambda:Room()]+[(lambda un=un,mode=mode,a=a,b=b:Punct(un,mode,a,b)) for un in(False,True) for mode in('valid','size','order','range') for a,b in(('alias','alias'),('owner','alias'),('alias','owner'))]
TASKS+=[lambda:Punct(False,'valid','alias','empty'),lambda:Punct(True,'valid','empty','alias'),lambda:Punct(False,'valid','empty','empty'),lambda:Punct(True,'valid','empty','empty')]
ASSUME=['vectors hold fewer than 2^31 elements','source, destination and list do not overlap','the list holds at least the number of entries given']
