"""Compile the current /repo sources to LLVM IR (in a scratch directory) and load them."""
import subprocess, os, tempfile, shutil
from .ir import Module
from .core import Program
REPO=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX=['clang++-18','-std=gnu++17','-O0','-gline-tables-only','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-w','-include','unistd.h','-fno-threadsafe-statics']
class BuildError(Exception): pass
def compile_ir(src,extra=()):
    d=tempfile.mkdtemp(prefix='verif_ir_')
    try:
        out=os.path.join(d,'o.ll')
        p=os.path.join(HERE,'tu',src[3:]) if src.startswith('tu:') else src if os.path.isabs(src) else os.path.join(REPO,src)
        cmd=CXX+['-I'+REPO]+['-I'+os.path.join(HERE,'stubs')]+list(extra)+['-S','-emit-llvm',p,'-o',out]
        r=subprocess.run(cmd,capture_output=True,text=True)
        if r.returncode: raise BuildError('cannot compile %s: %s'%(src,r.stderr[-2000:]))
        return open(out).read()
    finally: shutil.rmtree(d,ignore_errors=True)
_cache={}
def program(srcs,extra=()):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: texts=list(ex.map(lambda s:compile_ir(s,extra),srcs))
    return Program([Module(t,s) for t,s in zip(texts,srcs)])
