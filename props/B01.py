from props.bvlib import *
SRCS=['BitVector.cpp']
NATIVE='B01.cpp'
CONTRACTS=[Field('peek',m) for m in(True,False)]+[Field('fill',m) for m in(True,False)]
TASKS=[(lambda o=o,m=m,L=L,k=k: Field(o,m,L,k)) for o,m in ALLFIELDS for L in range(65) for k in (('alias','owner') if L in(0,1,7,8,64) else ('alias',))]
ASSUME=['vectors hold fewer than 2^32 elements']
