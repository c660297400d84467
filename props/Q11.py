"""Queues: exactly once, in order, under one lock (see inter.py)."""
from .inter import *
from . import inter
SRCS=['tu:inter.cpp','Timeval.cpp']
NATIVE='Q11.cpp'
OPTS=dict(loops='abstract')
CONTRACTS=[]
TASKS=queue_tasks('Q11')+[lambda:Compare()]
ASSUME=['elements are not null','a blocking read is not made by a thread that holds the lock of the queue','fewer than 2^31 elements','std::list and std::priority_queue (which keeps the element no other is before in front) behave as the standard says; PointerFIFO as proved for L10, Timeval as proved for T16, Mutex and ScopedLock as proved for T15','the lock and the condition of a queue are used only through its operations, or by iterating with the lock held']
