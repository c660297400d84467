// makes the inline members and a template instance appear in the IR; no logic of its own
#include "LinkedLists.h"
template class SingleLinkList<SingleLinkListNode>;
void* tu_fifo(PointerFIFO&q,void*p){ PointerFIFO f; q.put(p); q.push_front(p); (void)f.size(); (void)f.totalSize(); q.front(); return q.get(); }
