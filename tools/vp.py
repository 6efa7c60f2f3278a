#!/usr/bin/env python3
"""Driver: compiles /repo's current sources to LLVM bitcode, runs the symbolic
executor on every harness instance of a property, replays counterexamples (and
sampled path models) on the natively compiled real code, writes evidence."""
import os, sys, json, subprocess, tempfile, shutil, time, re, threading, random, glob, resource, hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo'); BUILD=os.path.join(V,'build')
sys.path.insert(0,os.path.join(V,'tools'))
NCPU=int(os.environ.get('VP_CPUS',os.cpu_count() or 8))
CLANG='clang++'; LINK='llvm-link-18'; OPT='opt-18'
CPPHDR='/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h'
class Fail(Exception): pass
def run(cmd,**k):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
    if r.returncode: raise Fail(' '.join(map(str,cmd))+'\n'+r.stdout[-4000:])
    return r.stdout
def parallel(jobs):
    errs=[]; sem=threading.Semaphore(NCPU)
    def w(j):
        with sem:
            try: j()
            except Exception as e: errs.append(e)
    ts=[threading.Thread(target=w,args=(j,)) for j in jobs]; [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
BCFLAGS=['-O1','-Xclang','-disable-llvm-passes','-gline-tables-only','-emit-llvm','-c','-w']
def shim():
    d=os.path.join(BUILD,'shim/bits'); os.makedirs(d,exist_ok=True); p=os.path.join(d,'c++config.h')
    s=open(CPPHDR).read().replace('# define _GLIBCXX_EXTERN_TEMPLATE 1','# define _GLIBCXX_EXTERN_TEMPLATE 0')
    open(p,'w').write(s)
RT=['stdcxx','libc','expat']
def setup(force=False):
    """engine and run-time model"""
    os.makedirs(BUILD,exist_ok=True)
    srcs=[os.path.join(V,'engine',f) for f in os.listdir(os.path.join(V,'engine'))]
    exe=os.path.join(BUILD,'symx')
    jobs=[]
    if force or not os.path.exists(exe) or any(os.path.getmtime(s)>os.path.getmtime(exe) for s in srcs): jobs.append(lambda: run(['bash',os.path.join(V,'engine/build.sh'),BUILD]))
    shim()
    for m in RT+['itk']:
        src=os.path.join(V,'rt',m+'.cpp'); o=os.path.join(BUILD,m+'.bc')
        if not os.path.exists(src): continue
        if force or not os.path.exists(o) or os.path.getmtime(src)>os.path.getmtime(o) or os.path.getmtime(os.path.join(V,'rt/mfs.h'))>os.path.getmtime(o):
            fl=['-fno-builtin'] if m=='libc' else ['-fno-access-control']+(['-DSYMX=1','-I/usr/include/ITK-5.3'] if m=='itk' else [])
            jobs.append(lambda src=src,o=o,fl=fl: run([CLANG,'-std=gnu++17']+BCFLAGS+fl+['-I'+os.path.join(BUILD,'shim'),'-include','numeric',src,'-o',o]))
    parallel(jobs)
def gen_headers(d):
    for src,dst,name in (('FileUtilities/FileUtilitiesConfigure.h.in','FileUtilities/FileUtilitiesConfigure.h','FILEUTILITIES'),('TestingFramework/TestFrameworkConfigure.h.in','TestingFramework/TestFrameworkConfigure.h','TESTINGFRAMEWORK')):
        os.makedirs(os.path.join(d,os.path.dirname(dst)),exist_ok=True)
        open(os.path.join(d,dst),'w').write(open(os.path.join(REPO,src)).read().replace('@PROJECT_NAME@',name).replace('@BUILD_SHARED_LIBS@','OFF'))
    t=open(os.path.join(REPO,'itktf/itktfRegressionSupport.h.in')).read()
    for k,v in (('OUTPUT_DIR','out'),('XML_BASELINE','xml'),('DATA_BASELINE','data')): t=t.replace('@ITK_REGRESSION_%s@'%k,v)
    open(os.path.join(d,'itktfRegressionSupport.h'),'w').write(t)
class Build:
    def __init__(s,cfg,work):
        s.cfg=cfg; s.work=work; s.gen=os.path.join(work,'gen'); os.makedirs(s.gen); gen_headers(s.gen)
        s.entries=sorted(cfg['entries'])
        s.harness=os.path.join(V,'harness',cfg['harness'])
    def common(s): return ['-std='+s.cfg.get('std','gnu++17'),'-include','numeric','-I'+s.gen,'-I'+os.path.join(s.gen,'FileUtilities'),'-I'+os.path.join(s.gen,'TestingFramework'),'-I'+REPO,'-I'+os.path.join(REPO,'TestingFramework'),'-I'+os.path.join(REPO,'itktf'),'-I'+os.path.join(V,'harness')]
    def units(s): return [(u if u.startswith('/') else os.path.join(REPO,u)) for u in s.cfg['units']]
    def symbolic(s):
        inc=['-I'+os.path.join(BUILD,'shim')]+s.common()+['-DSYMX=1']+s.cfg.get('symflags',[]); outs=[]; jobs=[]
        for i,u in enumerate([s.harness]+s.units()+[os.path.join(V,'rt',x) for x in s.cfg.get('rt',[])]):
            o=os.path.join(s.work,'u%d.bc'%i); outs.append(o)
            extra=s.cfg.get('uflags',{}).get(os.path.basename(u),[])
            jobs.append(lambda u=u,o=o,extra=extra: run([CLANG]+BCFLAGS+inc+extra+[u,'-o',o]))
        parallel(jobs)
        rt=[os.path.join(BUILD,m+'.bc') for m in RT+s.cfg.get('model',[]) if os.path.exists(os.path.join(BUILD,m+'.bc'))]
        l=os.path.join(s.work,'l.bc'); s.bc=os.path.join(s.work,'m.bc')
        run([LINK]+rt+outs+['-o',l]); run([OPT,'-passes=internalize,globaldce,sroa,simplifycfg','--internalize-public-api-list='+','.join(s.entries),l,'-o',s.bc])
    def native(s,tsan=False):
        d=os.path.join(s.work,'tsan' if tsan else 'nat'); os.makedirs(d)
        t=open(os.path.join(V,'rt/native.cpp')).read().replace('ENTRIES',' '.join('void %s();'%e for e in s.entries)).replace('TABLE',' '.join('if(!strcmp(e,"%s")) fn=%s;'%(e,e) for e in s.entries))
        nc=os.path.join(d,'native.cpp'); open(nc,'w').write(t); outs=[]; jobs=[]
        san=['-fsanitize=address,undefined','-fno-sanitize=vptr','-fno-sanitize-recover=undefined','-g1','-O0','-fno-omit-frame-pointer','-w'] if s.cfg.get('asan',True) else ['-g1','-O0','-w']
        if tsan: san=['-fsanitize=thread','-g1','-O1','-w']
        for i,u in enumerate([nc,s.harness]+s.units()+[os.path.join(V,'rt',x) for x in s.cfg.get('natrt',[])]):
            o=os.path.join(d,'n%d.o'%i); outs.append(o); extra=s.cfg.get('uflags',{}).get(os.path.basename(u),[])
            jobs.append(lambda u=u,o=o,extra=extra: run(['g++']+san+s.common()+s.cfg.get('natflags',[])+extra+['-c',u,'-o',o]))
        parallel(jobs); exe=os.path.join(s.work,'tnative' if tsan else 'native'); run(['g++']+[x for x in san if x.startswith('-fs')]+outs+['-o',exe]+s.cfg.get('natlibs',[])); os.chmod(exe,0o755)
        if tsan: s.texe=exe
        else: s.exe=exe
    def replay_race(s,entry,params,inputs): # a race is confirmed by the thread sanitizer on the real threads
        if not getattr(s,'texe',None): s.native(tsan=True)
        for i in range(12):
            st,obs,log=s.replay(entry,params,inputs,60,s.texe)
            if st.startswith('fail'): break
        return st,obs,log
    def replay(s,entry,params,inputs,timeout=20,exe=None):
        d=tempfile.mkdtemp(dir=s.work); case=os.path.join(d,'case'); out=os.path.join(d,'out'); w=os.path.join(d,'w'); os.mkdir(w)
        with open(case,'w') as f:
            for k,v in params.items(): f.write('P %s %d\n'%(k,v))
            for n,h in inputs: f.write('I %s %s\n'%(n,h))
        open(out,'w').close(); env={'PATH':'/usr/bin:/bin','HOME':w,'SYMX_CASE':case,'SYMX_OUT':out,'SYMX_ENTRY':entry,'ASAN_OPTIONS':'exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190','TSAN_OPTIONS':'exitcode=97:halt_on_error=1:report_signal_unsafe=0','UBSAN_OPTIONS':'print_stacktrace=1:exitcode=98'}
        kw={}
        if os.geteuid()==0:
            for p in (d,w,case,out): os.chown(p,65534,65534)
            kw=dict(user=65534,group=65534,extra_groups=[])
        def lim(): resource.setrlimit(resource.RLIMIT_CORE,(0,0)); resource.setrlimit(resource.RLIMIT_FSIZE,(1<<28,1<<28)); resource.setrlimit(resource.RLIMIT_NPROC,(4096,4096))
        try:
            p=subprocess.run([exe or s.exe],cwd=w,env=env,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,preexec_fn=lim,start_new_session=True,**kw); rc=p.returncode; log=p.stdout.decode('latin1')
        except subprocess.TimeoutExpired as e: rc='timeout'; log=(e.stdout or b'').decode('latin1')
        lines=open(out,errors='replace').read().splitlines(); obs=[l.split(' ',2)[1:] for l in lines if l.startswith('OBS ')]; obs=[[o[0],o[1] if len(o)>1 else ''] for o in obs]
        tag=lines[-1] if lines else ''
        shutil.rmtree(d,ignore_errors=True)
        if rc==0 and tag.startswith('DONE'): st='ok'
        elif rc in (77,78): st='diverged'
        elif rc==1 and tag.startswith('CHECK-FAIL'): st='fail: '+tag[11:]
        elif rc=='timeout': st='fail: does not terminate'
        elif rc==97: st='fail: data race'
        elif rc in (98,99) or (isinstance(rc,int) and rc<0) or rc in (134,139,3):
            m=re.search(r'(ERROR: \S+Sanitizer: .*|runtime error: .*|terminate called.*|Assertion .*)',log); st='fail: '+(m.group(1)[:200] if m else 'abnormal end %s'%rc)
        else: st='fail: unexpected exit %s %s'%(rc,tag) if rc!=0 else 'fail: process ended early'
        return st,obs,log
def run_instances(b,insts,seed,budget,grace=None):
    r,w=os.pipe(); os.set_blocking(r,False); os.write(w,b'+'*NCPU); res=[None]*len(insts); procs={}; pend=list(range(len(insts))); t0=time.time(); first=None
    while pend or procs:
        started=False
        while pend:
            try: tk=os.read(r,1)
            except BlockingIOError: break
            i=pend.pop(0); ins=insts[i]; of=os.path.join(b.work,'r%d.jsonl'%i)
            cmd=[os.path.join(BUILD,'symx'),b.bc,'--entry',ins['entry'],'--out',of,'--timeout',str(min(ins.get('timeout',120),max(5,budget-(time.time()-t0)))),'--tokens',str(r),str(w),'--seed',str(seed),'--samples','3','--repo',REPO.rstrip('/')+'/']
            if ins.get('params'): cmd+=['--args',','.join('%s=%d'%kv for kv in ins['params'].items())]
            if ins.get('max_instr'): cmd+=['--max-instr',str(ins['max_instr'])]
            cmd+=ins.get('flags',[])
            procs[i]=(subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=open(os.path.join(b.work,'e%d'%i),'w'),pass_fds=(r,w),start_new_session=True),of,time.time()); started=True
        for i,(p,of,ts) in list(procs.items()):
            rc=p.poll()
            if rc is None: continue
            del procs[i]; os.write(w,b'+'); recs=[]
            if os.path.exists(of):
                for l in open(of):
                    try: recs.append(json.loads(l))
                    except Exception: recs.append({'incomplete':'unparsable worker record'})
            if rc!=0 or not recs: recs.append({'incomplete':'executor failed rc=%s %s'%(rc,open(os.path.join(b.work,'e%d'%i)).read()[-300:])})
            res[i]=merge(recs); res[i]['elapsed']=round(time.time()-ts,2)
            if res[i]['errs'] and first is None: first=time.time()
            if os.environ.get('VP_VERBOSE'): print('  %-16s %-24s %6.1fs paths=%d checks=%d q=%d st=%.1f err=%d %s'%(insts[i]['entry'],insts[i].get('params',''),res[i]['elapsed'],res[i]['paths'],res[i]['checks'],res[i]['queries'],res[i]['solver_s'],res[i]['errors'],res[i]['incomplete'][:300]),flush=True)
        # a counterexample decides the check: what still runs a while later is stopped
        if grace is not None and first is not None and time.time()-first>grace:
            for i in list(procs):
                try: os.killpg(procs[i][0].pid,9)
                except ProcessLookupError: pass
                procs[i][0].wait()
            for i in list(procs)+pend: res[i]=merge([{'incomplete':'stopped after a counterexample'}]); res[i]['elapsed']=0
            break
        if procs and not started: time.sleep(0.03)
    os.close(r); os.close(w); return res
SUM=['paths','killed','instrs','forks','checks','folded','errors','repo_instrs','queries','sat','unsat','unknown','cache','solver_s','dom']
def merge(recs):
    m={k:0 for k in SUM}; m.update(reach={},functions=[],incomplete='',errs=[],samples=[],max_query_s=0,maxrss_mb=0)
    for r in recs:
        for k in SUM: m[k]+=r.get(k,0)
        for k,v in r.get('reach',{}).items(): m['reach'][k]=m['reach'].get(k,0)+v
        m['functions']=sorted(set(m['functions'])|set(r.get('functions',[]))); m['errs']+=r.get('errs',[]); m['samples']+=r.get('samples',[]); m['max_query_s']=max(m['max_query_s'],r.get('max_query_s',0)); m['maxrss_mb']=max(m['maxrss_mb'],r.get('maxrss_mb',0))
        if r.get('incomplete') and not m['incomplete']: m['incomplete']=r['incomplete']
    return m
def known(pid):
    p=os.path.join(V,'known_findings.json')
    return [e for e in json.load(open(p)) if e.get('property')==pid and e.get('status')=='known'] if os.path.exists(p) else []
def check(pid,tier,seed):
    import props; t0=time.time(); P=props.PROPS[pid]; work=tempfile.mkdtemp(prefix='vp_%s_'%pid); os.chmod(work,0o755); rc=2; viol=[]; notes=[]; kf=[]
    try:
        setup(); groups=P['groups']; allinst=[]; tot=merge([]); valid=0; samples_out=[]; bounds=[]; rng=random.Random(seed); inconclusive=[]; per=[]
        budget=P.get('budget',{'quick':420,'thorough':3000})[tier]
        for gi,g in enumerate(groups):
            gw=os.path.join(work,'g%d'%gi); os.makedirs(gw); os.chmod(gw,0o755)
            insts=g['instances'](tier); g=dict(g); g['entries']=sorted(set(i['entry'] for i in insts)); b=Build(g,gw)
            nat=threading.Thread(target=lambda: setattr(b,'nerr',wrap(b.native))); nat.start(); b.symbolic()
            res=run_instances(b,insts,seed,budget-(time.time()-t0),None if known(pid) else 20); nat.join()
            if b.nerr: raise Fail('native build: '+str(b.nerr))
            seen={}; cand=[]
            for ins,r in zip(insts,res):
                per.append({'entry':ins['entry'],'params':ins.get('params',{}),'paths':r['paths'],'checks':r['checks'],'folded':r['folded'],'queries':r['queries'],'solver_s':round(r['solver_s'],3),'wall_s':r['elapsed'],'complete':not r['incomplete'],'reach':r['reach']})
                tot=merge([tot,r]); tot['errs']=[]; tot['samples']=[]
                for e in r['errs']:
                    k=(ins['entry'],e['kind'],e['msg']); seen.setdefault(k,0)
                    if seen[k]<3: seen[k]+=1; cand.append((ins,e))
                if r['incomplete']:
                    if ins.get('optional'): notes.append('bound not completed: %s %s: %s'%(ins['entry'],ins.get('params'),r['incomplete'][:160]))
                    else: inconclusive.append('%s %s: %s'%(ins['entry'],ins.get('params'),r['incomplete'][:600]))
                miss=[x for x in ins.get('reach',[]) if x not in r['reach']]
                if miss and not r['errs'] and not r['incomplete']: inconclusive.append('vacuous: %s %s never reaches %s'%(ins['entry'],ins.get('params'),miss))
            # counterexamples on the real code
            for ins,e in cand:
                st,obs,log=b.replay_race(ins['entry'],ins.get('params',{}),e['data']['inputs']) if e['kind']=='race' else b.replay(ins['entry'],ins.get('params',{}),e['data']['inputs'],timeout=ins.get('native_timeout',20))
                if st.startswith('fail'):
                    rp=os.path.join(V,'evidence','replays'); os.makedirs(rp,exist_ok=True); f=os.path.join(rp,'%s-%d.json'%(pid,len(viol)))
                    match=[k for k in known(pid) if k['entry']==ins['entry'] and k['msg']==e['msg'] and (not k.get('inputs') or k['inputs']==e['data']['inputs'])]
                    rec={'property':pid,'group':gi,'entry':ins['entry'],'params':ins.get('params',{}),'inputs':e['data']['inputs'],'symbolic':{'kind':e['kind'],'msg':e['msg'],'trace':e['trace']},'native':st,'log':log[-3000:]}
                    if match: kf.append((match[0],rec)); continue
                    json.dump(rec,open(f,'w'),indent=1); viol.append((f,ins,e,st))
                    if len(viol)>=8: break
                else: inconclusive.append('counterexample not reproduced on the real code (%s): %s %s %s: %s | %s | %s'%(st,ins['entry'],ins.get('params'),e['kind'],e['msg'],json.dumps(e['data']['inputs'])[:400],e['trace'][:300]))
            # path models against the real code
            pool=[(ins,s) for ins,r in zip(insts,res) for s in r['samples']]; rng.shuffle(pool); pool=pool[:P.get('conformance',{'quick':24,'thorough':200})[tier]//len(groups) or 1]
            lock=threading.Lock()
            def one(ins,s):
                nonlocal valid
                st,obs,log=b.replay(ins['entry'],ins.get('params',{}),s['inputs'],timeout=ins.get('native_timeout',20))
                with lock:
                    if st=='ok' and obs==s['obs']: valid+=1; samples_out.append({'entry':ins['entry'],'params':ins.get('params',{}),'inputs':s['inputs'][:12],'observed':obs[:6]})
                    elif st.startswith('fail'):
                        rp=os.path.join(V,'evidence','replays'); os.makedirs(rp,exist_ok=True); f=os.path.join(rp,'%s-m%d.json'%(pid,len(viol))); json.dump({'property':pid,'group':gi,'entry':ins['entry'],'params':ins.get('params',{}),'inputs':s['inputs'],'native':st,'log':log[-3000:]},open(f,'w'),indent=1)
                        viol.append((f,ins,{'kind':'model-trace','msg':'path model fails on the real code'},st))
                    else: inconclusive.append('model and real code disagree (%s): %s %s inputs=%s model=%s real=%s'%(st,ins['entry'],ins.get('params'),json.dumps(s['inputs'])[:300],json.dumps(s['obs'])[:300],json.dumps(obs)[:300]))
            if pool: parallel([lambda a=a: one(*a) for a in pool])
            allinst+=insts
            if viol and not known(pid): break
        for k,rec in kf: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
        ev={'property':pid,'tier':tier,'seed':seed,'level':'model_checking','coverage':{'states':tot['paths'],'transitions':tot['instrs'],'traces_validated_against_impl':valid,'samples':samples_out[:6] or [{'note':'no path completed'}],
            'meaning':'states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; traces = path models replayed on the natively built code with equal observations',
            'functions_encoded':tot['functions'],'repo_instructions':tot['repo_instrs'],'branch_forks':tot['forks'],'assertions_checked':tot['checks'],'assertions_decided_by_constant_folding':tot['folded'],'branches_decided_by_byte_domains':tot['dom'],'paths_cut_by_assumptions':tot['killed'],
            'smt_queries':tot['queries'],'smt_sat':tot['sat'],'smt_unsat':tot['unsat'],'smt_cache_hits':tot['cache'],'solver_s':round(tot['solver_s'],3),'max_query_s':round(tot['max_query_s'],3),'bounds':P['bounds'](tier) if callable(P['bounds']) else P['bounds'],'outside':P.get('outside',''),'instances':per[:400],'notes':notes,'inconclusive':inconclusive[:20]},
            'assumptions':P.get('assumptions',[])+COMMON,'wall_s':round(time.time()-t0,2),'violations':len(viol)}
        os.makedirs(os.path.join(V,'evidence'),exist_ok=True); json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
        for f,ins,e,st in viol: print('VIOLATION property=%s replay=%s'%(pid,f)); print('  %s %s: %s: %s | real code: %s'%(ins['entry'],ins.get('params',{}),e['kind'],e['msg'],st))
        for n in notes: print('note: '+n)
        if viol: rc=1
        elif inconclusive:
            for i in inconclusive[:10]: print('INCONCLUSIVE '+i)
            rc=2
        else: rc=0
        print('%s %s: paths=%d instructions=%d checks=%d (folded %d) queries=%d solver=%.1fs validated=%d wall=%.1fs rc=%d'%(pid,tier,tot['paths'],tot['instrs'],tot['checks'],tot['folded'],tot['queries'],tot['solver_s'],valid,time.time()-t0,rc))
    except Fail as e: print('ERROR '+str(e)); rc=2
    finally:
        if os.environ.get('VP_KEEP'): print('kept '+work)
        else: shutil.rmtree(work,ignore_errors=True)
    return rc
COMMON=['the engine (engine/*.h, symx.cpp), clang 18 as front end, Z3 and the run-time model rt/*.cpp (libc, out-of-line libstdc++, file system) are trusted; each run replays path models on the native build to cross-check them','allocation never fails; one thread; the C locale']
def wrap(f):
    try: f(); return None
    except Exception as e: return e
def replay_file(f):
    import props; r=json.load(open(f)); P=props.PROPS[r['property']]; g=dict(P['groups'][r['group']]); g['entries']=[r['entry']]+sorted(set(i['entry'] for i in g['instances']('quick'))-{r['entry']}); work=tempfile.mkdtemp(prefix='vp_replay_'); os.chmod(work,0o755)
    try: b=Build(g,work); race=r.get('symbolic',{}).get('kind')=='race'; st,obs,log=(b.replay_race if race else (b.native(),b.replay)[1])(r['entry'],r['params'],r['inputs']); print(st); print(obs); print(log[-4000:]); return 1 if st.startswith('fail') else 0
    finally: shutil.rmtree(work,ignore_errors=True)
if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='setup': setup(force='--force' in a); print('ok')
    elif a[0]=='check': sys.exit(check(a[1],a[2] if len(a)>2 else os.environ.get('VERIF_TIER','quick'),int(os.environ.get('VERIF_SEED','1'))))
    elif a[0]=='replay': sys.exit(replay_file(a[1]))
