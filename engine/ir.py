"""Parser for textual LLVM-18 IR (the subset clang -O0 emits for C++)."""
import re

class Ty:
    __slots__=('k','a','b')
    def __init__(s,k,a=None,b=None): s.k=k;s.a=a;s.b=b
    def __repr__(s):
        return {'int':lambda:'i%d'%s.a,'ptr':lambda:'ptr','void':lambda:'void','float':lambda:'float','double':lambda:'double',
          'arr':lambda:'[%d x %r]'%(s.a,s.b),'struct':lambda:'{%s}'%', '.join(map(repr,s.a)),'named':lambda:'%'+s.a,'fn':lambda:'fn','label':lambda:'label',
          'meta':lambda:'metadata','x86':lambda:'x86_fp80','vec':lambda:'<%d x %r>'%(s.a,s.b)}[s.k]()
PTR=Ty('ptr');VOID=Ty('void');F32=Ty('float');F64=Ty('double')
_ints={}
def I(n):
    if n not in _ints: _ints[n]=Ty('int',n)
    return _ints[n]

TOK=re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>![a-zA-Z0-9_.]*)|
 (?P<attr>\#\d+)|
 (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![a-zA-Z_.]))|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<qs>"[^"]*")|
 (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)|
 (?P<p>\.\.\.|[][(){}<>,=*:|^])
)''',re.X)

def tokenize(line):
    out=[];i=0;n=len(line)
    while i<n:
        if line[i]==';' : break
        m=TOK.match(line,i)
        if not m:
            if line[i:].strip()=='' or line[i:].lstrip().startswith(';'): break
            raise ValueError('tok: '+line[i:i+60]+' in '+line[:200])
        k=m.lastgroup;t=m.group(k)
        out.append((k,t)); i=m.end()
    return out

class Cur:
    def __init__(s,toks,mod): s.t=toks;s.i=0;s.mod=mod
    def peek(s,d=0): return s.t[s.i+d][1] if s.i+d<len(s.t) else None
    def kind(s,d=0): return s.t[s.i+d][0] if s.i+d<len(s.t) else None
    def next(s):
        t=s.t[s.i][1]; s.i+=1; return t
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def expect(s,x):
        t=s.next()
        if t!=x: raise ValueError('expected %s got %s: %s'%(x,t,' '.join(a[1] for a in s.t)[:300]))
    def end(s): return s.i>=len(s.t)

PATTR={'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly','returned','immarg','writable','dead_on_unwind','swiftself','nest','readnone','noreturn','nounwind','inrange','nofree','allocalign','allocptr'}
PATTRP={'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','inalloca','elementtype','preallocated','captures'}

def ptype(c):
    t=c.next()
    if re.match(r'i\d+$',t): ty=I(int(t[1:]))
    elif t=='ptr': ty=PTR
    elif t=='void': ty=VOID
    elif t=='float': ty=F32
    elif t=='double': ty=F64
    elif t=='x86_fp80': ty=Ty('x86')
    elif t=='label': ty=Ty('label')
    elif t=='metadata': ty=Ty('meta')
    elif t=='token': ty=Ty('meta')
    elif t=='opaque': ty=Ty('struct',[])
    elif t=='[':
        n=int(c.next()); c.expect('x'); e=ptype(c); c.expect(']'); ty=Ty('arr',n,e)
    elif t=='{':
        fs=[]
        if not c.eat('}'):
            while True:
                fs.append(ptype(c))
                if c.eat('}'): break
                c.expect(',')
        ty=Ty('struct',fs)
    elif t=='<':
        if c.peek()=='{':
            c.next(); fs=[]
            if not c.eat('}'):
                while True:
                    fs.append(ptype(c))
                    if c.eat('}'): break
                    c.expect(',')
            c.expect('>'); ty=Ty('struct',fs,'packed')
        else:
            n=int(c.next()); c.expect('x'); e=ptype(c); c.expect('>'); ty=Ty('vec',n,e)
    elif t[0]=='%': ty=Ty('named',uq(t))
    else: raise ValueError('type? '+t+' '+' '.join(a[1] for a in c.t)[:300])
    # function types
    while c.peek()=='(' :
        d=0
        while True:
            x=c.next()
            if x=='(':d+=1
            if x==')':
                d-=1
                if d==0:break
        ty=Ty('fn',ty)
    if c.peek()=='addrspace':
        c.next();c.expect('(');c.next();c.expect(')')
    return ty

def uq(t):
    t=t[1:]
    if t and t[0]=='"': t=t[1:-1]
    return t

def skip_attrs(c):
    at={}
    while True:
        t=c.peek()
        if t in PATTR and c.kind()=='word': c.next(); at[t]=True
        elif t in PATTRP and c.kind()=='word':
            c.next()
            if c.peek()=='(':
                c.next()
                d=1; buf=[]
                while d:
                    x=c.t[c.i]; c.i+=1
                    if x[1]=='(': d+=1
                    elif x[1]==')': d-=1
                    if d: buf.append(x)
                at[t]=buf
            else: at[t]=c.next()
        elif c.kind()=='qs' : c.next()
        else: break
    return at

# operands: ('reg',name) ('int',v) ('glob',name) ('null',) ('undef',) ('zero',) ('fp',float bits str) ('agg',[ (ty,op) ]) ('str',bytes) ('ce',op,...)
def pval(c,ty):
    k=c.kind();t=c.next()
    if k=='name':
        return ('reg',uq(t)) if t[0]=='%' else ('glob',uq(t))
    if k=='num':
        if ty.k in('float','double'): return ('fp',float(t))
        return ('int',int(t))
    if k=='hex':
        if t[2] in 'KLMHR': return ('fpx',t)
        import struct
        return ('fp',struct.unpack('>d',bytes.fromhex(t[2:].rjust(16,'0')))[0])
    if k=='str': return ('str',pstr(t))
    if t=='true': return ('int',1)
    if t=='false': return ('int',0)
    if t=='null': return ('null',)
    if t in('undef','poison'): return ('undef',)
    if t=='zeroinitializer': return ('zero',)
    if t in('{','[','<'):
        if t=='<' and c.peek()=='{': c.next(); close='}>'
        else: close={'{':'}','[':']','<':'>'}[t]
        es=[]
        if c.peek()!=close[0]:
            while True:
                et=ptype(c); es.append((et,pval(c,et)))
                if not c.eat(','): break
        for ch in close: c.expect(ch)
        return ('agg',es)
    if t in('getelementptr',):
        inb=False
        while c.peek() in ('inbounds','inrange','nusw','nuw'): c.next()
        c.expect('('); bt=ptype(c); c.expect(','); ops=[]
        while True:
            while c.peek() in('inrange',):c.next()
            et=ptype(c); ops.append((et,pval(c,et)))
            if not c.eat(','): break
        c.expect(')')
        return ('ce','getelementptr',bt,ops)
    if t in('bitcast','ptrtoint','inttoptr','trunc','zext','sext','addrspacecast'):
        c.expect('('); et=ptype(c); v=pval(c,et); c.expect('to'); tt=ptype(c); c.expect(')')
        return ('ce','cast',t,et,v,tt)
    if t in('add','sub','mul','and','or','xor','shl'):
        while c.peek() in('nuw','nsw'): c.next()
        c.expect('('); et=ptype(c); a=pval(c,et); c.expect(','); e2=ptype(c); b=pval(c,e2); c.expect(')')
        return ('ce','bin',t,et,a,b)
    if t=='dso_local_equivalent' or t=='no_cfi': return pval(c,ty)
    if t[0]=='!' or k=='meta': return ('meta',)
    raise ValueError('val? %s %s :: %s'%(k,t,' '.join(a[1] for a in c.t)[:300]))

def pstr(t):
    s=t[2:-1]; out=bytearray(); i=0
    while i<len(s):
        if s[i]=='\\':
            if s[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(s[i+1:i+3],16)); i+=3
        else: out.append(ord(s[i])); i+=1
    return bytes(out)

class Ins:
    __slots__=('op','dst','ty','a','line','fn','raw')
    def __init__(s,op,dst,ty,a,line): s.op=op;s.dst=dst;s.ty=ty;s.a=a;s.line=line

class Func:
    def __init__(s,name): s.name=name;s.params=[];s.ret=None;s.blocks={};s.order=[];s.file=None;s.parsed=False;s.text=None;s.varargs=False;s.sret=None
    def cfg(s):
        if hasattr(s,'_succ'): return s._succ
        s._succ={}
        for b in s.order:
            t=s.blocks[b][-1]
            if t.op=='br': su=t.a['targets']
            elif t.op=='switch': su=[t.a['default']]+[l for _,l in t.a['cases']]
            elif t.op=='invoke': su=[t.a['normal'],t.a['unwind']]
            else: su=[]
            s._succ[b]=su
        return s._succ
    def loops(s):
        """natural loops: header -> set of blocks"""
        if hasattr(s,'_loops'): return s._loops
        succ=s.cfg(); entry=s.order[0]
        # reverse postorder
        seen=set(); rpo=[]
        st=[(entry,iter(succ[entry]))]; seen.add(entry)
        while st:
            b,it=st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); st.append((n,iter(succ[n]))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse(); idx={b:i for i,b in enumerate(rpo)}
        pred={b:[] for b in rpo}
        for b in rpo:
            for n in succ[b]: pred[n].append(b)
        idom={entry:entry}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[p for p in pred[b] if p in idom]
                n=ps[0]
                for p in ps[1:]:
                    x,y=n,p
                    while x!=y:
                        while idx[x]>idx[y]: x=idom[x]
                        while idx[y]>idx[x]: y=idom[y]
                    n=x
                if idom.get(b)!=n: idom[b]=n; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==entry: return False
                b=idom[b]
        loops={}
        for b in rpo:
            for n in succ[b]:
                if idx[n]<=idx[b]:
                    if not dom(n,b): raise ValueError('irreducible loop in '+s.name)
                    L=loops.setdefault(n,{n}); wl=[b]
                    while wl:
                        x=wl.pop()
                        if x not in L: L.add(x); wl+=pred[x]
        s._loops=loops
        return loops

class Module:
    def __init__(s,text,srcname=''):
        s.types={};s.globals={};s.funcs={};s.decls={};s.meta={};s.src=srcname
        s._load(text)
    def _load(s,text):
        lines=text.split('\n'); i=0; n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('define'):
                m=re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(',l); name=uq('@'+m.group(1))
                j=i+1
                while lines[j]!='}': j+=1
                f=Func(name); f.text=(l,lines[i+1:j]); f.mod=s; s.funcs[name]=f; i=j+1; continue
            if l.startswith('declare'):
                m=re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(',l); s.decls[uq('@'+m.group(1))]=l
            elif l.startswith('%') and ' = type ' in l:
                nm,t=l.split(' = type ',1); nm=uq(nm)
                s.types[nm]=None if t.strip()=='opaque' else ptype(Cur(tokenize(t),s))
            elif l.startswith('@'):
                m=re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$',l); s.globals[uq('@'+m.group(1))]=m.group(2)
            elif l.startswith('!'):
                m=re.match(r'!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock|DILexicalBlockFile)\((.*)\)$',l)
                if m: s.meta[m.group(1)]=(m.group(2),m.group(3))
            i+=1
    def line(s,mid):
        m=s.meta.get(mid)
        if not m or m[0]!='DILocation': return None
        ln=re.search(r'line: (\d+)',m[1]); sc=re.search(r'scope: !(\d+)',m[1])
        f=None
        seen=0
        scid=sc.group(1) if sc else None
        while scid and seen<20:
            mm=s.meta.get(scid); seen+=1
            if not mm: break
            fm=re.search(r'file: !(\d+)',mm[1])
            if fm:
                ff=s.meta.get(fm.group(1))
                if ff:
                    f=re.search(r'filename: "([^"]*)"',ff[1]).group(1)
                break
            x=re.search(r'scope: !(\d+)',mm[1]); scid=x.group(1) if x else None
        if f and f.startswith('/repo/'): f=f[6:]
        return '%s:%s'%(f,ln.group(1) if ln else '0')
    def glob(s,name):
        g=s.globals[name]
        if isinstance(g,str):
            c=Cur(tokenize(g),s)
            ext=False;const=False
            while c.peek() not in('global','constant','alias'):
                t=c.next()
                if t in('external','extern_weak'): ext=True
                if c.peek()=='(':
                    while c.next()!=')': pass
            kind=c.next()
            if kind=='alias':
                ty=ptype(c);c.expect(','); t2=ptype(c); v=pval(c,t2); s.globals[name]=('alias',v); return s.globals[name]
            ty=ptype(c); init=None
            if not ext: init=pval(c,ty)
            s.globals[name]=(kind,ty,init)
        return s.globals[name]
    def func(s,name):
        f=s.funcs.get(name)
        if f is None: return None
        if not f.parsed: s._pfunc(f)
        return f
    # ---- sizes
    def resolve(s,t):
        while t.k=='named':
            r=s.types.get(t.a)
            if r is None: raise ValueError('opaque type '+t.a)
            t=r
        return t
    def align(s,t):
        t=s.resolve(t)
        if t.k=='int': return min(16,max(1,1<<((t.a+7)//8-1).bit_length()))
        if t.k in('ptr','double'): return 8
        if t.k=='float': return 4
        if t.k=='x86': return 16
        if t.k=='arr': return s.align(t.b)
        if t.k=='vec': return s.size(t)
        if t.k=='struct':
            if t.b=='packed': return 1
            return max([s.align(x) for x in t.a] or [1])
        raise ValueError('align '+repr(t))
    def size(s,t):
        t=s.resolve(t)
        if t.k=='int':
            b=(t.a+7)//8; a=s.align(t); return (b+a-1)//a*a
        if t.k in('ptr','double'): return 8
        if t.k=='float': return 4
        if t.k=='x86': return 16
        if t.k in('arr','vec'): return t.a*s.size(t.b)
        if t.k=='struct':
            o=0
            for x in t.a:
                if t.b!='packed':
                    a=s.align(x); o=(o+a-1)//a*a
                o+=s.size(x)
            a=s.align(t); return (o+a-1)//a*a
        raise ValueError('size '+repr(t))
    def offsets(s,t):
        t=s.resolve(t); o=0; r=[]
        for x in t.a:
            if t.b!='packed':
                a=s.align(x); o=(o+a-1)//a*a
            r.append(o); o+=s.size(x)
        return r
    # ---- functions
    def _pfunc(s,f):
        hdr,body=f.text
        hdr=re.sub(r'comdat\(\$("[^"]*"|[^)]*)\)','comdat',hdr)
        c=Cur(tokenize(hdr),s)
        c.expect('define')
        while True:
            skip_attrs(c)
            t=c.peek()
            if re.match(r'(i\d+|ptr|void|float|double|x86_fp80|\[|\{|<|%.*)$',t): break
            c.next()
            if c.peek()=='(' :
                while c.next()!=')': pass
        f.ret=ptype(c); c.next(); c.expect('(')
        while not c.eat(')'):
            if c.eat('...'): f.varargs=True; continue
            ty=ptype(c); at=skip_attrs(c)
            nm=uq(c.next()) if c.kind()=='name' else str(len(f.params))
            if 'sret' in at: f.sret=ptype(Cur(at['sret'],s))
            f.params.append((ty,nm,at)); c.eat(',')
        m=re.search(r'!dbg !(\d+)',hdr)
        if m and m.group(1) in s.meta:
            mm=s.meta[m.group(1)]
            fm=re.search(r'file: !(\d+)',mm[1]); ln=re.search(r'line: (\d+)',mm[1])
            if fm and fm.group(1) in s.meta:
                f.file=re.search(r'filename: "([^"]*)"',s.meta[fm.group(1)][1]).group(1)
                f.line=ln.group(1) if ln else 0
        # blocks
        cur='entry' if not body or not re.match(r'^\S+:',body[0]) else None
        if cur: # implicit name: number of params
            cur=None
        ins=[]
        i=0;n=len(body)
        pend=None
        first=True
        while i<n:
            l=body[i]
            if not l.strip(): i+=1; continue
            m=re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):',l)
            if m:
                cur=m.group(1)
                if cur[0]=='"': cur=cur[1:-1]
                f.blocks[cur]=[]; f.order.append(cur); i+=1; continue
            if cur is None:
                cur=str(len(f.params)); f.blocks[cur]=[]; f.order.append(cur)
            # continuation lines
            full=l
            if re.match(r'^\s+(%\S+ = )?(tail |musttail )?invoke ',l):
                i+=1; full+=' '+body[i].strip()
            elif re.match(r'^\s+(%\S+ = )?landingpad ',l):
                while i+1<n and re.match(r'^\s+(catch|cleanup|filter)',body[i+1]):
                    i+=1; full+=' '+body[i].strip()
            elif re.match(r'^\s+switch ',l):
                while ']' not in re.sub(r'\[\d+ x','',full):
                    i+=1; full+=' '+body[i].strip()
            f.blocks[cur].append(s._pins(full))
            i+=1
        f.parsed=True
    def _pins(s,l):
        mid=None
        m=re.search(r', !dbg !(\d+)',l)
        if m: mid=m.group(1); 
        l2=re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$','',l)
        l2=re.sub(r', !dbg !\d+','',l2)
        c=Cur(tokenize(l2),s)
        dst=None
        if c.kind()=='name' and c.peek(1)=='=':
            dst=uq(c.next()); c.next()
        op=c.next()
        if op in('tail','musttail','notail'): op=c.next()
        a={};ty=None
        if op=='alloca':
            c.eat('inalloca'); ty=ptype(c); cnt=None
            if c.eat(','):
                if c.peek()!='align':
                    ct=ptype(c); cnt=(ct,pval(c,ct))
            a=dict(count=cnt)
        elif op=='load':
            at=c.eat('atomic'); c.eat('volatile'); ty=ptype(c); c.expect(','); pt=ptype(c); a=dict(p=pval(c,pt))
        elif op=='store':
            c.eat('atomic'); c.eat('volatile'); ty=ptype(c); v=pval(c,ty); c.expect(','); pt=ptype(c); a=dict(v=v,p=pval(c,pt))
        elif op=='getelementptr':
            while c.peek() in('inbounds','nusw','nuw'): c.next()
            bt=ptype(c); c.expect(','); ops=[]
            while True:
                et=ptype(c); ops.append((et,pval(c,et)))
                if not c.eat(','): break
            ty=PTR; a=dict(bt=bt,ops=ops)
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            fl=set()
            while c.peek() in('nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint'): fl.add(c.next())
            ty=ptype(c); x=pval(c,ty); c.expect(','); y=pval(c,ty); a=dict(x=x,y=y,fl=fl)
        elif op=='fneg':
            ty=ptype(c); a=dict(x=pval(c,ty))
        elif op in('icmp','fcmp'):
            while c.peek() in('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): c.next()
            pr=c.next(); ty=ptype(c); x=pval(c,ty); c.expect(','); y=pval(c,ty); a=dict(pred=pr,x=x,y=y)
        elif op in('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            while c.peek() in('nneg','nuw','nsw'): c.next()
            st=ptype(c); v=pval(c,st); c.expect('to'); ty=ptype(c); a=dict(st=st,v=v)
        elif op=='br':
            if c.peek()=='label': c.next(); a=dict(cond=None,targets=[uq(c.next())])
            else:
                t=ptype(c); cond=pval(c,t); c.expect(',');c.expect('label'); x=uq(c.next()); c.expect(',');c.expect('label'); y=uq(c.next())
                a=dict(cond=cond,targets=[x,y])
        elif op=='switch':
            ty=ptype(c); v=pval(c,ty); c.expect(',');c.expect('label'); d=uq(c.next()); c.expect('['); cs=[]
            while not c.eat(']'):
                t=ptype(c); x=pval(c,t); c.expect(',');c.expect('label'); cs.append((x[1],uq(c.next())))
            a=dict(v=v,default=d,cases=cs)
        elif op=='ret':
            ty=ptype(c); a=dict(v=None if ty.k=='void' else pval(c,ty))
        elif op in('call','invoke'):
            while c.peek() in('fastcc','ccc','coldcc','fast','nnan','ninf','nsz'): c.next()
            skip_attrs(c); ty=ptype(c)
            if ty.k=='fn': ty=ty.a
            if c.peek()=='asm': 
                a=dict(fn=('asm',),args=[]); return Ins(op,dst,ty,a,mid)
            fnv=pval(c,PTR); c.expect('('); args=[]
            while not c.eat(')'):
                t=ptype(c); at=skip_attrs(c)
                if t.k=='meta':
                    d=0
                    while not (d==0 and c.peek() in(',',')')):
                        x=c.next()
                        if x=='(':d+=1
                        if x==')':d-=1
                    args.append((t,('meta',),at))
                else: args.append((t,pval(c,t),at))
                c.eat(',')
            a=dict(fn=fnv,args=args)
            if op=='invoke':
                while not c.eat('to'): c.next()
                c.expect('label'); a['normal']=uq(c.next()); c.expect('unwind');c.expect('label'); a['unwind']=uq(c.next())
        elif op=='landingpad':
            ty=ptype(c); cl=[];cleanup=False
            while not c.end():
                t=c.next()
                if t=='cleanup': cleanup=True
                elif t=='catch': et=ptype(c); cl.append(pval(c,et))
                elif t=='filter': et=ptype(c); cl.append(('filter',pval(c,et)))
                else: break
            a=dict(cleanup=cleanup,clauses=cl)
        elif op=='resume':
            ty=ptype(c); a=dict(v=pval(c,ty))
        elif op=='phi':
            ty=ptype(c); inc=[]
            while True:
                c.expect('['); v=pval(c,ty); c.expect(','); b=uq(c.next()); c.expect(']'); inc.append((v,b))
                if not c.eat(','): break
            a=dict(inc=inc)
        elif op=='select':
            t=ptype(c); cond=pval(c,t); c.expect(','); ty=ptype(c); x=pval(c,ty); c.expect(','); t2=ptype(c); y=pval(c,t2); a=dict(c=cond,x=x,y=y)
        elif op=='extractvalue':
            ty=ptype(c); v=pval(c,ty); ix=[]
            while c.eat(','): ix.append(int(c.next()))
            a=dict(v=v,ix=ix)
        elif op=='insertvalue':
            ty=ptype(c); v=pval(c,ty); c.expect(','); et=ptype(c); e=pval(c,et); ix=[]
            while c.eat(','): ix.append(int(c.next()))
            a=dict(v=v,et=et,e=e,ix=ix)
        elif op=='unreachable': pass
        elif op=='freeze':
            ty=ptype(c); a=dict(v=pval(c,ty))
        elif op=='atomicrmw':
            c.eat('volatile'); o=c.next(); pt=ptype(c); p=pval(c,pt); c.expect(','); ty=ptype(c); a=dict(o=o,p=p,v=pval(c,ty))
        elif op=='cmpxchg':
            c.eat('weak');c.eat('volatile'); pt=ptype(c); p=pval(c,pt); c.expect(','); ty=ptype(c); x=pval(c,ty); c.expect(',');t2=ptype(c); y=pval(c,t2); a=dict(p=p,x=x,y=y)
        elif op=='fence': pass
        elif op=='va_arg':
            pt=ptype(c); v=pval(c,pt); c.expect(','); ty=ptype(c); a=dict(v=v)
        else: a=dict(raw=l); 
        return Ins(op,dst,ty,a,mid)
