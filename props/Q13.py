"""The keyed hand-off map (see inter.py)."""
from .inter import *
from . import inter
SRCS=['tu:inter.cpp','Timeval.cpp']
NATIVE='Q13.cpp'
OPTS=dict(loops='abstract')
CONTRACTS=[]
TASKS=map_tasks('Q13')
ASSUME=['elements are not null; an element written is not in the map already','a blocking read is not made by a thread that holds the lock of the map','fewer than 2^31 entries','std::map behaves as the standard says; Timeval as proved for T16, Mutex and ScopedLock as proved for T15','no other thread uses a map while it is destroyed','the entries of other keys are touched only through std::map operations with the given key (every call is checked to use it)']
