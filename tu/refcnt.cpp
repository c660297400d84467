// makes the inline members of counted pointers appear in the IR, one use per function; no logic of its own
#include "Utils.h"
#include <new>
struct Obj : public RefCntBase { int v; Obj():v(0){} virtual ~Obj(){} };
typedef RefCntPointer<Obj> Ptr;
void tu_default(void*m){ new(m) Ptr; }
void tu_copy(void*m,Ptr&q){ new(m) Ptr(q); }
void tu_copyc(void*m,const Ptr&q){ new(m) Ptr(q); }
void tu_from(void*m,Obj*o){ new(m) Ptr(o); }
void tu_destroy(Ptr&p){ p.~Ptr(); }
void tu_assign(Ptr&p,Ptr&q){ p=q; }
void tu_assignc(Ptr&p,const Ptr&q){ p=q; }
void tu_assignraw(Ptr&p,Obj*o){ p=o; }
void tu_assignnew(Ptr&p,Obj*o){ p=Ptr(o); }
void tu_reset(Ptr&p){ p=(Obj*)0; }
void tu_free(Ptr&p){ p.free(); }
bool tu_eq(const Ptr&p,const Ptr&q){ return p==q; }
bool tu_ne(const Ptr&p,const Ptr&q){ return p!=q; }
bool tu_eqraw(const Ptr&p,const Obj*o){ return p==o; }
bool tu_neraw(const Ptr&p,const Obj*o){ return p!=o; }
Obj*tu_arrow(const Ptr&p){ return p.operator->(); }
Obj*tu_star(const Ptr&p){ return &*p; }
Obj*tu_self(const Ptr&p){ return p.self(); }
bool tu_isnull(const Ptr&p){ return p.isNULL(); }
int tu_count(Obj*o){ return o->getRefCnt(); }
void tu_new(void*m){ new(m) Obj; }
void tu_swap(Ptr&p,Ptr&q){ Ptr t(p); p=q; q=t; }
Ptr tu_pass(Ptr p){ return p; }
