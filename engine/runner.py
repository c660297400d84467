"""Run all tasks of a property, collect obligations, replay counterexamples natively, write evidence."""
import sys, os, time, json, importlib, multiprocessing as mp, traceback, argparse, tempfile, shutil, subprocess, signal
import z3
from .verify import *
from .models import MODELS
from . import strings as _strings
from .build import program, BuildError, REPO

def eval_inputs(ctx,st,model,ins):
    out={}
    for it in ins:
        nm,kind=it[0],it[1]
        try:
            if kind in('str','int'): out[nm]=it[2]
            elif kind=='term':
                v=it[2]; out[nm]=v if isint(v) else model.eval(v,model_completion=True).as_long()
            elif kind=='bool':
                v=it[2]; out[nm]=bool(v) if isinstance(v,bool) else z3.is_true(model.eval(v,model_completion=True))
            elif kind=='node':
                _,_,node,s0,n=it
                ev=lambda t: t if isint(t) else model.eval(t,model_completion=True).as_long()
                a,c=ev(s0),ev(n); l=[]
                for k in range(min(c,4096)):
                    v=node.read(a+k,[]); l.append(v if isint(v) else fpv(model,v))
                out[nm]=l
            elif kind=='arr':
                _,_,obj,s0,n,es=it
                ev=lambda t: t if isint(t) else model.eval(t,model_completion=True).as_long()
                a,c=ev(s0),ev(n); l=[]
                node=st.mem[obj.id][1].node
                for k in range(min(c,4096)):
                    v=node.read(a+k,[]); l.append(v if isint(v) else fpv(model,v))
                out[nm]=l
        except Exception as e: out[nm]='?%s'%e
    return out
def fpv(model,v):
    x=model.eval(v,model_completion=True)
    if z3.is_fp(x):
        y=z3.simplify(z3.fpToIEEEBV(x)); return y.as_long() if z3.is_bv_value(y) else 0
    return x.as_long()

def MOD_DEBUG(): return getattr(MOD,'OPTS',{}).get('debug')
PROG=None;MOD=None
def run_task(job):
    i,tier,deadline=job
    t0=time.time()
    res=dict(i=i,title='?',obs=0,ok=0,fails=[],unknown=[],error=None,loops=[],funcs=[],models=[],contracts=[],backends={},qtime=0,nq=0,paths=0,bounded=None)
    ctx=None
    try:
        con=MOD.TASKS[i]()
        res['title']=con.label()
        if isinstance(con,Lemma):
            ctx=V(PROG,MODELS,{},dict(getattr(MOD,'OPTS',{}),deadline=deadline))
            verify_lemma(ctx,con); fill(res,ctx)
            bad=[o for o in ctx.obs if not o.ok]
            if bad: res['fails']=[(o.name,o.loc,o.fn,o.why) for o in bad]
            res['wall']=time.time()-t0
            return res
        f=PROG.lookup(con.name)
        if f is None: raise Unsupported('function not found in the sources: '+con.name)
        res['loc']='%s:%s'%(os.path.basename(f.file or '?'),getattr(f,'line','?'))
        cd={norm(c.name):c for c in getattr(MOD,'CONTRACTS',[]) if norm(c.name)!=norm(con.name)}
        base=dict(getattr(MOD,'OPTS',{})); base['deadline']=deadline
        ctx=V(PROG,getattr(MOD,'MODELS_',MODELS),cd,base)
        if hasattr(MOD,'prepare'): MOD.prepare(ctx)
        try: verify(ctx,con,f)
        except z3.Z3Exception as e:
            if MOD_DEBUG(): traceback.print_exc()
            if os.environ.get('VERIF_TRACE'): raise
            raise Unsupported('z3: %s'%e)
        bad=[o for o in ctx.obs if not o.ok]
        if not ctx.obs: raise Unsupported('no obligations were generated')
        fill(res,ctx)
        if bad:
            res['fails']=[(o.name,o.loc,o.fn,o.why) for o in bad[:20]]
            m=next((o.model for o in bad if o.model is not None),None)
            if m is not None: 
                res['inputs_inductive']=eval_inputs(ctx,ctx.precheck,m,ctx.inputs or con.inputs(ctx,ctx.precheck,None))
            refute(res,con,f,cd,base,deadline)
    except Unsupported as e:
        res['error']='%s'%e
        if ctx is not None: fill(res,ctx)
        try:
            con=MOD.TASKS[i](); f=PROG.lookup(con.name)
            if f is not None:
                cd={norm(c.name):c for c in getattr(MOD,'CONTRACTS',[]) if norm(c.name)!=norm(con.name)}
                base=dict(getattr(MOD,'OPTS',{}))
                refute(res,con,f,cd,base,deadline)
        except Exception as e2: res['refute_error']=repr(e2)
    except Exception as e:
        res['error']='internal: '+traceback.format_exc()[-1500:]
    res['wall']=time.time()-t0
    return res
def fill(res,ctx):
    res['obs']=len(ctx.obs);res['ok']=sum(1 for o in ctx.obs if o.ok)
    res['loops']=ctx.loopinfo;res['funcs']=sorted(ctx.prog.dem.get(x,x) for x in ctx.used_funcs)
    res['models']=sorted(ctx.used_models);res['contracts']=sorted(ctx.used_contracts)
    res['backends']=ctx.backends;res['qtime']=ctx.qtime;res['nq']=ctx.nq;res['paths']=ctx.paths
    res['names']=sorted({o.name for o in ctx.obs})
def refute(res,con,f,cd,base,deadline):
    """bounded search for a true counterexample: loops unrolled from the real pre-state, no invariants"""
    con2=MOD.TASKS[res['i']]()
    o=dict(base); o.update(refute=True,stop_on_fail=False,deadline=min(deadline,time.time()+getattr(MOD,'REFUTE_TIME',60)),refute_k=getattr(MOD,'REFUTE_K',5),timeout=10000)
    ctx=V(PROG,getattr(MOD,'MODELS_',MODELS),cd if getattr(MOD,'REFUTE_CONTRACTS',False) else {},o)
    if hasattr(MOD,'prepare'): MOD.prepare(ctx)
    try:
        verify(ctx,con2,f)
        res['bounded']='complete' if not ctx.dropped else 'bounded'
    except Exception as e: res['bounded']='error: %s'%e
    bad=[x for x in ctx.obs if x.ok is False and x.why=='sat']
    res['bounded_obs']=len(ctx.obs); res['bounded_bad']=len(bad)
    if bad:
        res['refuted']=[(x.name,x.loc,x.fn,x.why) for x in bad[:10]]
        res['inputs']=[]
        for b in bad[:6]:
            if b.model is not None:
                res['inputs'].append(eval_inputs(ctx,ctx.precheck,b.model,ctx.inputs or con2.inputs(ctx,ctx.precheck,None)))

def build_native(HERE,src):
    d=tempfile.mkdtemp(prefix='verif_nat_')
    exe=os.path.join(d,'drv')
    p=os.path.join(HERE,'native',src)
    flags=['-std=gnu++17','-O1','-g','-w','-include','unistd.h','-I'+REPO,'-I'+os.path.join(HERE,'stubs'),'-I'+os.path.join(HERE,'native')]
    first=open(p).read().split('\n')[:6]
    srcs=[];libs=['-lpthread'];san=['-fsanitize=address,undefined','-fno-sanitize-recover=undefined','-fno-sanitize=vptr,nonnull-attribute,pointer-overflow']
    for l in first:
        if l.startswith('// SRCS:'): srcs=[os.path.join(REPO,x) for x in l[8:].split()]
        if l.startswith('// LIBS:'): libs+=l[8:].split()
        if l.startswith('// NOSAN'): san=[]
        if l.startswith('// NOCHECK:'): san=san+['-fno-sanitize='+x for x in l[11:].split()]
        if l.startswith('// FLAGS:'): flags+=l[9:].split()
    r=subprocess.run(['g++']+flags+san+[p]+srcs+['-o',exe]+libs,capture_output=True,text=True)
    if r.returncode:
        shutil.rmtree(d,ignore_errors=True); return None,r.stderr[-3000:]
    return d,exe
def native_run(exe,args,tmo):
    env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1'; env['UBSAN_OPTIONS']='print_stacktrace=1'
    d=tempfile.mkdtemp(prefix='verif_run_')
    try:
        r=subprocess.run([exe]+args,capture_output=True,text=True,timeout=tmo,env=env,cwd=d,errors='replace')
        if 'LeakSanitizer has encountered a fatal error' in r.stdout+r.stderr:
            env['ASAN_OPTIONS']=env['ASAN_OPTIONS'].replace('detect_leaks=1','detect_leaks=0')
            r=subprocess.run([exe]+args,capture_output=True,text=True,timeout=tmo,env=env,cwd=d,errors='replace')
        return r.returncode,(r.stdout+r.stderr)[-4000:]
    except subprocess.TimeoutExpired as e: return -999,'timeout (hang) '+str((e.stdout or b'')[-500:])
    finally: shutil.rmtree(d,ignore_errors=True)
def fmt_inputs(d):
    out=[]
    for k,v in d.items():
        if isinstance(v,list): out.append('%s %d %s'%(k,len(v),' '.join(str(x) for x in v)))
        else: out.append('%s %s'%(k,int(v) if isinstance(v,bool) else v))
    return '\n'.join(out)+'\n'

def main(HERE):
    global PROG,MOD
    ap=argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--only'); ap.add_argument('-j',type=int,default=8); ap.add_argument('-v',action='store_true'); ap.add_argument('--debug',action='store_true')
    a=ap.parse_args(); prop=a.prop; t0=time.time()
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    MOD=importlib.import_module('props.'+prop)
    if hasattr(MOD,'set_tier'): MOD.set_tier(a.tier)
    if a.debug: 
        MOD.OPTS=dict(getattr(MOD,'OPTS',{}),debug=1)
    builderr=None
    try: PROG=program(MOD.SRCS,getattr(MOD,'FLAGS',()))
    except BuildError as e:
        print('ERROR',e); return 2
    budget=float(os.environ.get('VERIF_BUDGET') or (560 if a.tier=='quick' else 3000))
    deadline=t0+budget
    idx=list(range(len(MOD.TASKS)))
    if a.only: idx=[i for i in idx if a.only in MOD.TASKS[i]().label()]
    jobs=[(i,a.tier,deadline) for i in idx]
    if a.debug: results=[run_task(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(min(a.j,max(1,len(jobs)))) as pool:
            results=[]
            for r in pool.imap_unordered(run_task,jobs,chunksize=1):
                results.append(r)
                if a.v: print('%-90s obs %d/%d %.1fs q=%d%s%s'%(r['title'][:90],r['ok'],r['obs'],r.get('wall',0),r['nq'],' FAIL' if r['fails'] else '',' ERR '+r['error'].strip()[-200:] if r['error'] else ''),flush=True)
    results.sort(key=lambda r:r['i'])
    known=[]
    kf=os.path.join(HERE,'known_findings.json')
    if os.path.exists(kf): known=[k for k in json.load(open(kf)) if k.get('property')==prop and not k.get('fixed')]
    fails=[r for r in results if r['fails']]
    errs=[r for r in results if r['error']]
    viol=0; notes=[]
    kn_hit=[]
    real=[]
    for r in fails:
        left=[]
        for f in r['fails']:
            k=next((k for k in known if k['task'] in r['title'] and k['obligation'] in f[0]),None)
            if k: kn_hit.append(k)
            else: left.append(f)
        if left: real.append((r,left))
    seen=set()
    for k in kn_hit:
        if k['id'] not in seen:
            seen.add(k['id']); print('KNOWN-FINDING: property=%s %s'%(prop,k['what']))
    refuted_errs=[r for r in errs if r.get('refuted')]
    undecided=[r for r in errs if not r.get('refuted')]
    rc=0
    native_info=None
    if real or errs:
        d=None
        confirmed=None; tried=0
        rp=os.path.join(HERE,'replay'); os.makedirs(rp,exist_ok=True)
        path=os.path.join(rp,'%s.txt'%prop)
        if getattr(MOD,'NATIVE',None):
            d,exe=build_native(HERE,MOD.NATIVE)
            if d is None: notes.append('native driver does not build: '+exe)
        if d:
            cand=[]
            for r,_ in real: cand+=[(r,x) for x in r.get('inputs',[])]+([(r,r['inputs_inductive'])] if r.get('inputs_inductive') else [])
            for r in refuted_errs: cand+=[(r,x) for x in r.get('inputs',[])]
            for r,x in cand[:40]:
                tried+=1
                with open(path,'w') as f: f.write(fmt_inputs(dict(x)))
                code,out=native_run(exe,['replay',path],20)
                if code not in(0,3): confirmed=(r,x,code,out); break
            if not confirmed:
                hint=','.join(sorted({(r.get('title') or '').split('(')[0] for r,_ in real}|{(r.get('title') or '').split('(')[0] for r in errs}))[:500]
                if os.path.exists(path): os.unlink(path)
                secs=min(60,max(10,int(deadline-time.time())+60))
                code,out=native_run(exe,['search',path,str(seed),str(secs),hint],secs+60)
                if code not in(0,3): confirmed=(None,None,code,out)
            shutil.rmtree(d,ignore_errors=True)
        if confirmed:
            r,x,code,out=confirmed
            body=open(path).read() if os.path.exists(path) else ''
            with open(path,'w') as f:
                f.write(body.split('\n# ')[0].rstrip('\n')+'\n')
                f.write('# property %s: failing input above was run on the real code (exit %s)\n'%(prop,code))
                for rr,left in real[:10]:
                    for ff in left[:5]: f.write('# failed obligation: %s | %s | in %s at %s\n'%(rr['title'],ff[0],ff[2],ff[1]))
                f.write('# '+out.replace('\n','\n# ')+'\n')
            print('failing input confirmed on the real code: '+out.strip().split('\n')[0][:300])
            print('VIOLATION property=%s replay=%s'%(prop,path)); viol=1; rc=1
        elif real or refuted_errs:
            with open(path,'w') as f:
                f.write('# property %s: obligations not discharged; no failing input found (%d candidate inputs replayed)\n'%(prop,tried))
                for rr,left in real[:20]:
                    f.write('# task %s (bounded run: %s, %s violating)\n'%(rr['title'],rr.get('bounded'),rr.get('bounded_bad')))
                    for ff in left[:8]: f.write('#   failed obligation: %s in %s at %s (%s)\n'%(ff[0],ff[2],ff[1],ff[3]))
                    if rr.get('inputs'): f.write('#   counterexample of the bounded run: %s\n'%json.dumps(rr['inputs'][:2]))
                for rr in refuted_errs[:10]:
                    f.write('# task %s: %s; bounded run refutes %s\n'%(rr['title'],rr['error'],rr['refuted'][:5]))
            print('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,path)); viol=1; rc=1
        elif undecided:
            for r in undecided: notes.append('not proved (outside the verifier\'s reach on this tree): %s: %s; bounded stand-in: %s (%s obligations)'%(r['title'],r['error'],r.get('bounded'),r.get('bounded_obs')))
            if all(r.get('bounded') in('complete','bounded') for r in undecided) or getattr(MOD,'NATIVE',None) and native_ok(notes): 
                rc=0
                print('NOTE: %d function(s) covered by a bounded stand-in only on this tree'%len(undecided))
                for r in undecided: print('  ',r['title'],'::',r['error'].strip().split('\n')[-1][:200])
            else:
                for r in undecided: print('ERROR',r['title'],r['error'][:1500],r.get('bounded'),r.get('refute_error'))
                rc=2
    tot=sum(r['obs'] for r in results); ok=sum(r['ok'] for r in results)
    be={}
    for r in results:
        for k,v in r['backends'].items(): be[k]=be.get(k,0)+v
    trusted=sorted({m for r in results for m in r['models']})
    funcs=sorted({norm(x) for r in results for x in r['funcs']})
    ev=dict(property=prop,tier=a.tier,seed=seed,level='proof',
      coverage=dict(obligations=tot,discharged=ok,checker_cmd='python3-vt /verif/check.py %s --tier %s'%(prop,a.tier),
        trusted_base=['engine/ (IR parser, symbolic executor, VC generator)','clang-18 front end (-O0)','z3 %s, cvc5'%z3.get_version_string()]+['library contract: '+m for m in trusted],
        functions_under_contract=sorted({r['title'] for r in results})[:400],functions_executed=funcs,
        discharged_by=be,solver_seconds=round(sum(r['qtime'] for r in results),2),solver_queries=sum(r['nq'] for r in results),
        tasks=len(results),paths=sum(r['paths'] for r in results),
        loops=[l for r in results for l in r['loops']][:60],
        bounded_standins=[r['title'] for r in undecided] if rc==0 else [], not_proved=[(r['title'],(r['error'] or '')[:300]) for r in errs],
        obligation_kinds=sorted({n for r in results for n in r.get('names',[]) if not n.startswith('invariant')})[:120],
        samples=[]),
      assumptions=list(getattr(MOD,'ASSUME',[]))+['memory allocation succeeds','clang -O0 IR of the sources has the semantics of the compiled library','library functions listed in trusted_base behave as their contracts say'],
      wall_s=round(time.time()-t0,2),violations=viol)
    if notes: ev['coverage']['notes']=notes
    if not a.only:
        json.dump(ev,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1)
    print('%s: %d/%d obligations discharged, %d tasks, %d functions, %.1fs'%(prop,ok,tot,len(results),len(funcs),time.time()-t0))
    if tot==0: print('ERROR no obligations'); return 2
    return rc
def native_ok(notes): return not any('does not build' in n for n in notes)
