#!/usr/bin/env python3
"""seed.py new ID  (reads a python dict from stdin: property, needs, what, edits=[(file,old,new)], srcs, demo)  : creates seeded/ID
   seed.py test ID [--check] : in /repo: clean demo passes, patched builds + stable tests pass + demo fails, check reports; then restores /repo"""
import sys,os,subprocess,json,shutil,tempfile
V='/verif';R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def new(i,d):
    p=f'{V}/seeded/{i}'; os.makedirs(p,exist_ok=True)
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(),'repo dirty'
    try:
        for f,o,n in d['edits']:
            t=open(f'{R}/{f}',newline='',encoding='latin-1').read()
            if o not in t and '\r\n' in t: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            assert t.count(o)==1,(i,f,t.count(o),o)
            open(f'{R}/{f}','w',newline='',encoding='latin-1').write(t.replace(o,n))
        open(p+'/patch.diff','w',encoding='latin-1').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout.decode('latin-1'))
    finally: sh('git -C /repo checkout -- .')
    open(p+'/demo.cpp','w').write(d['demo'])
    open(p+'/demo.sh','w').write('#!/bin/bash\n# run with cwd = the repository; exit 0 when the behaviour is right\nhere="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"\nd="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\ng++ -std=gnu++17 -O1 -w -include unistd.h %s -I"$repo" "$here/demo.cpp" %s -o "$d/demo" %s || exit 0\ncd "$d" && timeout 100 ./demo\n'%(d.get('flags',''),' '.join('"$repo/%s"'%s for s in d['srcs'].split()),d.get('libs','-lpthread')))
    os.chmod(p+'/demo.sh',0o755)
    json.dump(dict(property=d['property'],needs=d['needs'],what_it_breaks=d['what']),open(p+'/meta.json','w'),indent=1)
def test(i,check=True,tests=True):
    p=f'{V}/seeded/{i}'; prop=json.load(open(p+'/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(),'repo dirty'
    r=sh(p+'/demo.sh',cwd=R); res=['demo clean=%d'%r.returncode]
    if r.returncode: res.append(r.stdout[-300:]+r.stderr[-500:])
    a=sh(f'git -C {R} apply {p}/patch.diff')
    if a.returncode: print(i,'patch does not apply',a.stderr); return
    try:
        if tests:
            b=sh('bash /opt/vp/build.sh'); res.append('build=%d'%b.returncode)
            sh('bash /opt/vp/test.sh /tmp/w/t.json'); 
            base=json.load(open('/opt/vp/BASELINE.json'));
            try:
                t=json.load(open('/tmp/w/t.json')); res.append('tests '+('ok' if all(x in json.dumps(t.get('passed',t)) for x in STABLE) else 'BROKEN '+json.dumps(t)[:300]))
            except Exception as e: res.append('tests? %s'%e)
        r=sh(p+'/demo.sh',cwd=R); res.append('demo patched=%d'%r.returncode)
        if r.returncode==0: res.append('NOT FAILING')
        if check:
            for q in ([prop] if check is True else check):
                c=sh(f'python3-vt {V}/check.py {q}',cwd=V); l=[x for x in c.stdout.split('\n') if 'VIOLATION' in x or 'obligations' in x or 'confirmed' in x or 'ERROR' in x or 'NOTE' in x]
                res.append('check %s rc=%d %s'%(q,c.returncode,' | '.join(x[:160] for x in l)))
                if c.returncode not in (0,1): res.append(c.stdout[-800:]+c.stderr[-800:])
    finally: sh('git -C /repo checkout -- .')
    print(i,'; '.join(res),flush=True)
STABLE="BitVectorTest ConfigurationTest F16Test InterthreadTest LockTest LogTest RegexpTest TimevalTest URLEncodeTest UtilsTest VectorTest".split()
if __name__=='__main__':
    if sys.argv[1]=='new': new(sys.argv[2],eval(sys.stdin.read()))
    else:
        ids=[a for a in sys.argv[2:] if not a.startswith('--')]
        for i in ids or sorted(os.listdir(V+'/seeded')): test(i,check='--nocheck' not in sys.argv,tests='--notests' not in sys.argv)
