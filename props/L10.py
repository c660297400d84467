"""Linked lists: each operation against the abstract sequence, by the shape of the two ends.
The nodes between the first and the last element are not part of any operation's footprint (they are opaque here: touching them fails
an obligation), so one element pattern stands for lists of every length."""
from engine.verify import *
from engine.models import MODELS
SRCS=['LinkedLists.cpp','tu:lists.cpp']
NATIVE='L10.cpp'
def opaque(st,nm):
    x=fresh(nm); st.assume(z3.UGT(x,4096)); return P(None,x)
def value(nm): return P(None,fresh(nm))
class Shape:
    """elements: first and last node (one and the same for one element); the chain between is opaque"""
    def build(s,V,st,kind,mk):
        s.kind=kind; s.first=s.last=s.second=None
        if kind=='1': s.first=s.last=mk('only',NULL)
        if kind in('2','many'):
            s.last=mk('last',NULL)
            s.second=P(s.last,0)
            if kind=='many': s.second=P(mk('second',opaque(st,'rest')),0)
            s.first=mk('first',s.second)
        s.n=fresh('size',32) if kind=='many' else int(kind)
        if kind=='many': st.assume(z3.And(z3.UGE(s.n,3),z3.ULT(s.n,(1<<32)-1)))
        return s
class Fifo(Contract):
    def __init__(s,op,shape='0',pool='0'):
        s.op=op; s.shape=shape; s.pool=pool
        s.name={'ctor':'PointerFIFO::PointerFIFO()','put':'PointerFIFO::put(void*)','push_front':'PointerFIFO::push_front(void*)','get':'PointerFIFO::get()','front':'PointerFIFO::front()','size':'PointerFIFO::size() const','totalSize':'PointerFIFO::totalSize() const'}[op]
        s.title='%s [%s elements, %s in the pool]'%(s.name,shape,pool) if op!='ctor' else s.name
    def setup(s,V,st):
        if s.op=='ctor': s.o=V.new(st,'fifo',32,'heap',Cells()); return [P(s.o,0)]
        s.data={}
        def mk(nm,nxt):
            d=value(nm+'_data'); o=V.new(st,nm,16,'heap',Cells({0:(8,nxt),8:(8,d)})); s.data[o.id]=d; return o
        s.sh=Shape().build(V,st,s.shape,mk)
        s.free=None
        if s.pool!='0': s.fnext=value('pool_next') if s.pool=='many' else NULL; s.free=V.new(st,'pooled',16,'heap',Cells({0:(8,s.fnext),8:(8,value('old'))}))
        s.fp=P(s.free,0) if s.free else NULL
        s.o=V.new(st,'fifo',32,'heap',Cells({0:(8,P(s.sh.first,0) if s.sh.first else NULL),8:(8,P(s.sh.last,0) if s.sh.last else NULL),16:(8,s.fp),24:(4,s.sh.n)}))
        if s.op in('put','push_front'): s.v=value('element'); return [P(s.o,0),s.v]
        return [P(s.o,0)]
    def spec(s,V,st,a):
        op=s.op; sh=getattr(s,'sh',None)
        if op=='ctor': V.setc(st,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(8,NULL),24:(4,0)})); return
        if op=='front': return s.data[sh.first.id] if sh.first else NULL
        if op=='size': return sh.n
        if op=='totalSize': return ANY
        def field(off,v,n=8):
            c=V.content(st,s.o).copy(); c.d[off]=(n,v); V.setc(st,s.o,c)
        if op=='get':
            if sh.first is None: return NULL
            # the first node leaves the list and becomes available for reuse
            V.setc(st,sh.first,Cells({0:(8,s.fp),8:(8,ANY)})); field(16,P(sh.first,0))
            field(0,sh.second if sh.second is not None else NULL)
            if sh.second is None: field(8,NULL)
            field(24,sub(32,sh.n,1),4); return s.data[sh.first.id]
        if s.free: nd=s.free; field(16,s.fnext)          # reuse before allocating
        else: nd=V.new(st,'node',16,'heap',Cells())
        if op=='put':
            V.setc(st,nd,Cells({0:(8,NULL),8:(8,s.v)}))
            if sh.last: c=V.content(st,sh.last).copy(); c.d[0]=(8,P(nd,0)); V.setc(st,sh.last,c)
            else: field(0,P(nd,0))
            field(8,P(nd,0))
        else:
            V.setc(st,nd,Cells({0:(8,P(sh.first,0) if sh.first else NULL),8:(8,s.v)}))
            if not sh.last: field(8,P(nd,0))
            field(0,P(nd,0))
        field(24,add(32,sh.n,1),4)
    def inputs(s,V,st,a): return [('list','str','fifo'),('op','str',s.op),('n','int',4 if s.shape=='many' else int(s.shape)),('pool','int',2 if s.pool=='many' else int(s.pool))]
L='SingleLinkList<SingleLinkListNode>::'
NODE=24        # vtable pointer, link, and 8 bytes standing for whatever a derived element holds
def m_size(c,st,a,i): return c.node_size[a[0].obj.id]
MODELS_=dict(MODELS); MODELS_['verif_element_size']=m_size
class List(Contract):
    def __init__(s,op,shape='0'):
        s.op=op; s.shape=shape
        s.name=L+{'ctor':'SingleLinkList()','put':'put(void*)','push_back':'push_back(SingleLinkListNode*)','push_front':'push_front(SingleLinkListNode*)','get':'get()','pop_front':'pop_front()','front':'front() const','back':'back() const','size':'size() const','totalSize':'totalSize() const'}[op]
        s.title='%s [%s elements]'%(s.name,shape) if op!='ctor' else s.name
    def setup(s,V,st):
        s.o=V.new(st,'list',24,'heap',Cells())
        if s.op=='ctor': return [P(s.o,0)]
        V.node_size={}
        fn=Obj('verif_element_size',0,'fn'); fn.fn='verif_element_size'
        vt=V.new(st,'vtable',8,'const',Cells({0:(8,P(fn,0))})); V.globinit[vt.id]=V.content(st,vt)
        def mk(nm,nxt):
            o=V.new(st,nm,NODE,'heap',Cells({0:(8,P(vt,0)),8:(8,nxt),16:(8,fresh(nm+'_payload'))})); V.node_size[o.id]=fresh(nm+'_size',32); return o
        s.sh=Shape().build(V,st,s.shape,mk); s.tot=fresh('total',32)
        if s.shape=='0': s.tot=0
        V.setc(st,s.o,Cells({0:(8,P(s.sh.first,0) if s.sh.first else NULL),8:(8,P(s.sh.last,0) if s.sh.last else NULL),16:(4,s.sh.n),20:(4,s.tot)}))
        if s.op in('put','push_back','push_front'): s.item=mk('item',value('stale_link')); return [P(s.o,0),P(s.item,0)]
        return [P(s.o,0)]
    def spec(s,V,st,a):
        op=s.op; sh=getattr(s,'sh',None)
        if op=='ctor': V.setc(st,s.o,Cells({0:(8,NULL),8:(8,NULL),16:(4,0),20:(4,0)})); return
        if op=='front': return P(sh.first,0) if sh.first else NULL
        if op=='back': return P(sh.last,0) if sh.last else NULL
        if op=='size': return sh.n
        if op=='totalSize': return s.tot
        def field(o,off,v,n=8):
            c=V.content(st,o).copy(); c.d[off]=(n,v); V.setc(st,o,c)
        if op in('get','pop_front'):
            if sh.first is None: return NULL
            field(sh.first,8,NULL); field(s.o,0,sh.second if sh.second is not None else NULL)
            if sh.second is None: field(s.o,8,NULL)
            field(s.o,16,sub(32,sh.n,1),4); field(s.o,20,sub(32,s.tot,V.node_size[sh.first.id]),4); return P(sh.first,0)
        it=P(s.item,0)
        if op=='push_front':
            field(s.item,8,P(sh.first,0) if sh.first else NULL); field(s.o,0,it)
            if not sh.last: field(s.o,8,it)
        else:
            field(s.item,8,NULL)
            if sh.last: field(sh.last,8,it)
            else: field(s.o,0,it)
            field(s.o,8,it)
        field(s.o,16,add(32,sh.n,1),4); field(s.o,20,add(32,s.tot,V.node_size[s.item.id]),4)
    def inputs(s,V,st,a): return [('list','str','intrusive'),('op','str',s.op),('n','int',4 if s.shape=='many' else int(s.shape)),('pool','int',0)]
SH=('0','1','2','many')
CONTRACTS=[]
TASKS=[lambda:Fifo('ctor'),lambda:List('ctor')]
for op in('put','push_front','get','front','size','totalSize'):
    for sh in SH:
        for pool in('0','1','many'): TASKS.append(lambda op=op,sh=sh,pool=pool: Fifo(op,sh,pool))
for op in('put','push_back','push_front','get','pop_front','front','back','size','totalSize'):
    for sh in SH: TASKS.append(lambda op=op,sh=sh: List(op,sh))
ASSUME=['fewer than 2^32-1 elements','the element handed to an intrusive list is not already in it, and its size() does not change while it is in the list','nodes between the first and the last element are reached only through the links next to the ends (frame: operations that touch other nodes are rejected)','pop_back of the intrusive list is not implemented by the library (it asserts)']
