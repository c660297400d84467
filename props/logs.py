"""Logging has no effect on what is verified: streams swallow everything, levels are arbitrary (fixed within one operation if ctx.onelevel)"""
from engine.verify import *
from engine.models import MODELS
def stream(V,st,a,i): return P(None,z3.BitVec('stream',64))
def level(V,st,a,i):
    if not getattr(V,'onelevel',False): return fresh('level',32)
    if getattr(V,'level',None) is None: V.level=fresh('level',32)
    return V.level
def ident(V,st,a,i): return a[0]
def ident64(V,st,a,i): return fresh('number',64 if 'syscall' in i['dem'] else 32)
def nothing(V,st,a,i): return None
def text(V,st,a,i): V.str_set(st,a[0],V.str_fresh(st,'text'))
def name(V,st,a,i): return P(None,fresh('name'))
def logmodels(m):
    for n,f in(('gGetLoggingLevel(char const*)',level),('Log::get()',stream),('Log::~Log()',nothing),('Log::Log(int)',nothing),('Log::Log(char const*)',nothing),('Utils::timestr()',text),('Utils::timestr(unsigned int, bool)',text),('std::type_info::name() const',name),('gettid',ident64),('syscall',ident64),('getpid',ident64)): m[norm(n)]=f
    m['*regex']=list(m.get('*regex',[]))+[(re.compile(r'std::ostream(<[^>]*>)?&? ?(& )?.*operator<<.*|std::(basic_)?ostream.*::operator<<.*|.*std::operator<< <.*'),ident)]
    return m
