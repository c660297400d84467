"""Trusted contracts on printf-style composition of texts (exact: lengths, bytes, truncation), strdup and variable arguments"""
from .strings import *
import re
_re=re
NUMS={}
def numlen(spec,w):
    """longest text of a conversion"""
    d={'d':20 if w==64 else 11,'i':20 if w==64 else 11,'u':20 if w==64 else 10,'x':18,'X':18,'o':24,'p':18}.get(spec[-1],40); f=[int(x) for x in re.findall(r'\d+',spec)]
    return max([d]+[x+3 for x in f])
def numtext(c,st,spec,x,w):
    """text of a number: an uninterpreted function of the number and the conversion"""
    if isint(x):
        v=x&mask(w)
        if spec[-1] in'di' and v>>(w-1): v-=1<<w
        return lit(('%'+''.join(ch for ch in spec[1:] if ch not in'hljzt').replace('i','d').replace('u','d'))%v)
    x=bv(x,w); key=(spec,w)
    if key not in NUMS: NUMS[key]=(z3.Function('textlen%s_%d'%(spec[1:],w),z3.BitVecSort(w),z3.BitVecSort(64)),z3.Function('text%s_%d'%(spec[1:],w),z3.BitVecSort(w),z3.BitVecSort(64),z3.BitVecSort(8)))
    fl,fc=NUMS[key]; n=fl(x); st.assume(z3.And(z3.UGE(n,1),z3.ULE(n,numlen(spec,w))))
    def fn(i,ax):
        v=fc(x,bv(i)); ax.append(z3.Implies(z3.ULT(bv(i),n),v!=0)); return v
    node=Lam(8,fn); node.pieces=([('num',spec,w,x)],n); return StrV(n,node)
SPEC=_re.compile(rb'%([-+ #0]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|)([a-zA-Z%])')
def compose(c,st,fmt,args):
    """StrV of the formatted text; args: [(type,value)]"""
    out=EMPTY; pos=0; k=0
    for m in SPEC.finditer(fmt):
        out=cat(out,lit(fmt[pos:m.start()])); pos=m.end(); fl,wd,pr,ln,cv=(x.decode() if x else '' for x in m.groups())
        if cv=='%': out=cat(out,lit('%')); continue
        if '*' in(wd,pr): raise Unsupported('format with a * width')
        if k>=len(args): c.oblige(st,False,'the format has an argument for every conversion')
        ty,v=args[k]; k+=1
        if cv=='s':
            if wd or pr: raise Unsupported('%s with a width')
            if ty.k!='ptr': c.oblige(st,False,'%s is given a text')
            out=cat(out,c_strv(c,st,v,'text formatted with %s'))
        elif cv in'diuxXo':
            w={'hh':8,'h':16,'':32,'l':64,'ll':64,'z':64,'j':64,'t':64}[ln]
            if ty.k!='int' or max(w,32)!=ty.a: c.oblige(st,False,'an integer conversion of %d bits is given a number of that size'%w)
            if isinstance(v,P): raise Unsupported('%d of an address')
            out=cat(out,numtext(c,st,'%'+fl+wd+('.'+pr if m.group(3) is not None else '')+cv,v if w>=32 else trunc(v,w),w))
        elif cv=='c': out=cat(out,StrV(1,Lit(8,[trunc(v,8)])))
        elif cv in'pfgeEG':
            if cv=='p': w=64; x=P(None,0) if v is None else v; x=x.off if x.obj is None else simp(x.obj.base+x.off)
            else: raise Unsupported('conversion %'+cv)
            out=cat(out,numtext(c,st,'%'+cv,x,64))
        else: raise Unsupported('conversion %'+cv)
    return cat(out,lit(fmt[pos:]))
def write_text(c,st,p,v,what):
    """the text and its terminator stored at p"""
    n=v.len; c.access(st,p,add(64,n,1) if not isint(n) else n+1,what)
    o=p.obj; a=c.to_arr(st,o,1); off=p.off
    def fn(i,ax):
        k=sub(64,i,off); r=add(64,n,1)
        inn=ult(k,r)
        if inn is False: return a.node.read(i,ax)
        t=eq(k,n); x=0 if t is True else v.node.read(k,ax) if t is False else ite(t,0,v.node.read(k,ax),8)
        return x if inn is True else ite(inn,x,a.node.read(i,ax),8)
    node=Lam(8,fn)
    if isint(off) and off==0 and c_nonul(c,st,v): node.cstr=n; node.text=v
    c.setc(st,o,ArrC(1,node))
def fmt_of(c,st,p):
    v=c_strv(c,st,p,'format')
    if not(isint(v.len) and isinstance(v.node,Lit) and all(isint(x) for x in v.node.vals[:v.len])): raise Unsupported('format text is not constant')
    return bytes(v.node.vals[:v.len])
def put_n(c,st,p,size,v):
    """snprintf: at most size-1 characters and a terminator"""
    n=v.len; forks=[]
    fit=ult(n,size)
    for cond,cut in((fit,False),(Not(fit),True)):
        if cond is False or not c.feasible(st,cond): continue
        x=st.fork() if cond is not True else st
        x.assume(cond)
        if not cut: write_text(c,x,p,v,'text written by snprintf')
        else:
            z=eq(size,0)
            if z is not True:
                if z is not False and c.feasible(x,z): raise Unsupported('snprintf with a size that may be 0')
                w=StrV(sub(64,size,1),Lam(8,v.node.read)); w.node.nonulprefix=c_nonul(c,x,v); write_text(c,x,p,w,'text written by snprintf')
        forks.append((x,trunc(n,32) if not isint(n) else n))
    return Forks(forks)
def va(info): return [(t,None) for t,v,_ in info['ins'].a['args']]
def typed(info,a,k): return [(t,v) for (t,_,_),v in zip(info['ins'].a['args'],a)][k:]
@model('snprintf')
def m_snprintf(c,st,a,i): return put_n(c,st,a[0],a[1],compose(c,st,fmt_of(c,st,a[2]),typed(i,a,3)))
@model('sprintf')
def m_sprintf(c,st,a,i):
    v=compose(c,st,fmt_of(c,st,a[1]),typed(i,a,2)); write_text(c,st,a[0],v,'text written by sprintf'); return trunc(v.len,32) if not isint(v.len) else v.len
@rmodel(r'llvm\.va_start')
def m_vastart(c,st,a,i): st.ghost['~va:%d:%s'%(a[0].obj.id,a[0].off)]=st.frames[-1].env['...']
@rmodel(r'llvm\.va_end')
def m_vaend(c,st,a,i): st.ghost.pop('~va:%d:%s'%(a[0].obj.id,a[0].off),None)
@rmodel(r'llvm\.va_copy')
def m_vacopy(c,st,a,i): st.ghost['~va:%d:%s'%(a[0].obj.id,a[0].off)]=st.ghost['~va:%d:%s'%(a[1].obj.id,a[1].off)]
def valist(c,st,p):
    v=st.ghost.get('~va:%d:%s'%(p.obj.id,p.off)) if p.obj is not None else None
    if v is None: c.oblige(st,False,'variable arguments are used between va_start and va_end'); raise DeadPath()
    st.ghost['~va:%d:%s'%(p.obj.id,p.off)]=None      # an argument list is used once
    return v
@model('vsnprintf')
def m_vsnprintf(c,st,a,i): return put_n(c,st,a[0],a[1],compose(c,st,fmt_of(c,st,a[2]),valist(c,st,a[3])))
@model('vsprintf')
def m_vsprintf(c,st,a,i):
    v=compose(c,st,fmt_of(c,st,a[1]),valist(c,st,a[2])); write_text(c,st,a[0],v,'text written by vsprintf'); return trunc(v.len,32) if not isint(v.len) else v.len
@model('vasprintf','asprintf')
def m_asprintf(c,st,a,i):
    v=compose(c,st,fmt_of(c,st,a[1]),valist(c,st,a[2]) if i['name']=='vasprintf' else typed(i,a,2))
    o=c.new(st,'asprintf',v.len+1 if isint(v.len) else add(64,v.len,1),'malloc',ArrC(1,Base('asprintf',8))); write_text(c,st,P(o,0),v,'text'); c.store_raw(st,a[0],8,P(o,0)); return trunc(v.len,32) if not isint(v.len) else v.len
@model('strdup','__strdup')
def m_strdup(c,st,a,i):
    v=c_strv(c,st,a[0],'argument of strdup'); o=c.new(st,'strdup',v.len+1 if isint(v.len) else add(64,v.len,1),'malloc',ArrC(1,Base('strdup',8))); write_text(c,st,P(o,0),v,'text'); return P(o,0)
@model('strcpy')
def m_strcpy(c,st,a,i):
    v=c_strv(c,st,a[1],'source of strcpy'); write_text(c,st,a[0],v,'strcpy'); return a[0]
@model('strcat')
def m_strcat(c,st,a,i):
    v=c_strv(c,st,a[0],'target of strcat'); w=c_strv(c,st,a[1],'source of strcat')
    if not(isint(a[0].off) and a[0].off==0): raise Unsupported('strcat into the middle of an array')
    write_text(c,st,a[0],cat(v,w),'strcat'); return a[0]
@model('usleep','sleep')
def m_sleep(c,st,a,i): return 0
@model('llvm.stacksave','llvm.stacksave.p0')
def m_stacksave(c,st,a,i): return P(None,(1<<40)+len(st.frames[-1].allocas))
@model('llvm.stackrestore','llvm.stackrestore.p0')
def m_stackrestore(c,st,a,i):
    fr=st.frames[-1]; n=a[0].off-(1<<40) if a[0].obj is None and isint(a[0].off) else -1
    if not 0<=n<=len(fr.allocas): return None
    for o in fr.allocas[n:]:
        if o.id in st.mem: del st.mem[o.id]
    fr.allocas=fr.allocas[:n]
