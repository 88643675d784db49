"""Runs the check of one property: proof of every contract, bounded counterexample search for what failed, native replay/search."""
import sys,os,json,time,subprocess,tempfile,shutil,itertools,threading,re,random
from . import spec,build
VERIF=build.VERIF
PY=shutil.which('python3-vt') or sys.executable
NPROC=8
class Sched:
    def __init__(s): s.run=[]; s.res={}
    def go(s,jobs,deadline):
        """jobs: list of (key,job dict). runs up to NPROC at a time; returns {key: result list}"""
        todo=list(jobs); running=[]; out={}
        while todo or running:
            while todo and len(running)<NPROC and time.time()<deadline-3:
                key,job=todo.pop(0)
                jf=job['out']+'.job'; json.dump(job,open(jf,'w'))
                env=dict(os.environ,PYTHONPATH=VERIF,PYTHONHASHSEED='0')
                p=subprocess.Popen([PY,'-m','fcv.worker',jf],cwd=VERIF,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
                running.append((p,key,job,time.time()+job['budget']*1.3+40))
            if todo and time.time()>=deadline-3:
                for key,job in todo: out[key]=[{'unit':job['unit'],'mode':job['mode'],'status':'error','error':'not started: time budget of the check used up'}]
                todo=[]
            nr=[]
            for p,key,job,tl in running:
                if p.poll() is None and time.time()<min(tl,deadline): nr.append((p,key,job,tl)); continue
                if p.poll() is None: p.kill(); p.wait()
                try: out[key]=json.load(open(job['out']))
                except Exception: out[key]=[{'unit':job['unit'],'mode':job['mode'],'status':'error','error':'worker ended without result (time or memory limit)'}]
            running=nr
            if running: time.sleep(0.1)
        return out
def case_text(model):
    L=[]
    for name,ents in model.items():
        if name=='error': continue
        for e in ents:
            if isinstance(e,dict):
                n=e['n']; L.append('%s %s %s'%(name,n,' '.join(str(r[0]) for r in e['data'])))
            else: L.append('%s 1 %s'%(name,e))
    return '\n'.join(L)+'\n'
def split_of(u):
    '''split=name:lo-hi runs one proof job per value of that case selector'''
    t=u.opts.get('split')
    if not t: return [{}]
    n,r=t.split(':'); lo,hi=r.split('-')
    return [{n:i} for i in range(int(lo),int(hi)+1)]
def join_parts(l):
    if len(l)==1: return l[0]
    d={}
    for r in l:
        for k,v in r.items():
            if k=='named':
                t=d.setdefault(k,{})
                for n,(a,b) in v.items(): o=t.get(n,(0,0)); t[n]=[o[0]+a,o[1]+b]
            elif isinstance(v,bool) or v is None or isinstance(v,str): d[k]=d.get(k) or v
            elif isinstance(v,(int,float)): d[k]=d.get(k,0)+v
            elif isinstance(v,list):
                t=d.setdefault(k,[]) or []; d[k]=t
                for x in v:
                    if x not in t: t.append(x)
            elif isinstance(v,dict):
                t=d.setdefault(k,{})
                for n,x in v.items(): t[n]=t.get(n,0)+x if isinstance(x,(int,float)) and not isinstance(x,bool) else x
    # a case of the split without any path (excluded by the precondition) is no failure as long as another case has some
    sts=[('proved' if r.get('status')!='failed' and not r.get('incomplete') and not r.get('error') and not r.get('undecided') and not r.get('failed') and r.get('vacuous') and set(r['vacuous'])<={'no path returns'} else r.get('status')) for r in l]
    d['status']='proved' if all(x=='proved' for x in sts) and d.get('returns') and d.get('obligations') else 'failed' if 'failed' in sts else 'error' if 'error' in sts else 'undecided'
    d['covers']={}
    for r in l:
        for n,x in (r.get('covers') or {}).items(): d['covers'][n]=d['covers'].get(n,0) or x
    return d
def bounded_choices(u,tier):
    b=u.opts.get('bounds')
    return b
def main(cid,tier):
    t0=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    total=(780 if tier=='quick' else int(os.environ.get('FCV_THOROUGH_S','3000')))
    deadline=t0+total
    hs=spec.for_property(cid)
    if not hs: print('no harness for',cid); return 3
    work=tempfile.mkdtemp(prefix='fcv_%s_'%cid)
    evdir=VERIF+'/evidence'; os.makedirs(evdir,exist_ok=True)
    try: base=json.load(open(VERIF+'/baseline.json'))
    except Exception: base={}
    viol=[]; known=[]; units={}; search={}; replays=[]
    try:
        # native builds in the background
        nat={}; nerr={}
        def nb(h):
            try:
                d=work+'/nat_'+os.path.basename(h.path); os.makedirs(d)
                # the listed sources when they link without the rest of the library, else the whole library
                if h.minimal:
                    try: nat[h.path]=build.native(h.path,d,build.base_sources(h.sources+h.native)); return
                    except Exception as e:
                        if os.environ.get('FCV_NATWARN'): print('MINIMAL',h.path,str(e)[-1500:])
                        shutil.rmtree(d+'/n',ignore_errors=True)
                nat[h.path]=build.native(h.path,d,None)
            except Exception as e: nerr[h.path]=str(e)
        bcs={}; serr={}
        def sb(h):
            try:
                d=work+'/sym_'+os.path.basename(h.path); os.makedirs(d); bcs[h.path]=build.symbolic_module(h.path,h.sources,d)
            except Exception as e: serr[h.path]=str(e)
        # builds first, proofs afterwards: the outcome of a proof does not depend on the load of the builds
        th=threading.Thread(target=lambda:[nb(h) for h in hs]); th.start()
        for h in hs: sb(h)
        th.join()
        bad=[(h,e) for h,e in serr.items()]
        sched=Sched(); jobs=[]
        for h in hs:
            for u in h.units:
                u.key=u.name
                if u.opts.get('native') or u.opts.get('known') or h.path in serr: continue
                bud=u.opts.get('budget',150)*(1 if tier=='quick' else 4)
                if u.opts.get('boundedonly'): continue
                for i,c in enumerate(split_of(u)):
                    jobs.append(((u.name,'proof',i),dict(harness=h.path,unit=u.name,bc=bcs[h.path],mode='proof',choices=[c],budget=bud,out=work+'/r_%s_p%d.json'%(u.name,i),extra={'obl_ms':60000} if tier=='thorough' else {})))
        jobs.sort(key=lambda j:-j[1]['budget'])
        parts={}
        for k,r in sched.go(jobs,deadline-60).items(): parts.setdefault(k[:2],[]).extend(r)
        proofs={k:[join_parts(l)] for k,l in parts.items()}
        # bounded counterexample search / stand-in for contracts that were not discharged
        bj=[]
        for h in hs:
            for u in h.units:
                if u.opts.get('native') or u.opts.get('known') or h.path in serr: continue
                r=proofs.get((u.name,'proof'),[{'status':'skipped'}])[0]
                if r.get('status')=='proved' and r.get('trusted_only') is None: continue
                b=u.opts.get('bounds') or {}
                if u.opts.get('nobounded'): continue
                sc=1 if tier=='quick' else 2
                lens=r.get('lens') or [[k,v] for k,v in b.items()]
                if not lens and not r.get('loops') and r.get('obligations'): continue      # nothing to bound: the run would repeat the proof
                rng=[(n,range(0,(b.get(n,3 if len(lens)>1 else 4))+(0 if tier=='quick' else 1)+1)) for n,_ in dict((x[0],x) for x in lens).values()]
                ch=[dict(zip([n for n,_ in rng],c)) for c in itertools.product(*[x for _,x in rng])]
                ch.sort(key=lambda d: sum(d.values()))
                parts=min(len(ch),4 if len(ch)>3 else 1)
                for i in range(parts):
                    bj.append(((u.name,'bounded',i),dict(harness=h.path,unit=u.name,bc=bcs[h.path],mode='bounded',choices=ch[i::parts],budget=u.opts.get('bbudget',120)*(1 if tier=='quick' else 4),out=work+'/r_%s_b%d.json'%(u.name,i),extra={'obl_ms':8000})))
        bounded=sched.go(bj,min(deadline-40,time.time()+420*(1 if tier=='quick' else 5))) if bj else {}
        # ---- native: replay models, then search
        def natrun(h,args,to):
            env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',LC_ALL='C')
            try: return subprocess.run([nat[h.path]]+args,capture_output=True,text=True,errors='replace',timeout=to,env=env,cwd=work)
            except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(args,1,'FAIL does not terminate in time','')
        rep_n=[0]
        def replay_file(u,header,body):
            rep_n[0]+=1
            p='%s/replay_%s_%s_%d.txt'%(evdir,cid,u.name,rep_n[0]); open(p,'w').write(header+'\n'+body); return p
        ulist=[(h,u) for h in hs for u in h.units]
        confirmed=set()
        for h,u in ulist:
            if u.opts.get('known') or h.path not in nat: continue
            rs=[('proof',r) for r in proofs.get((u.name,'proof'),[])]+[('bounded',r) for k,l in bounded.items() if k[0]==u.name for r in l]
            sat=[]
            for md,r in rs:
                for o in (r.get('failed') or []):
                    m=o.get('model') or {}
                    big=any(isinstance(e,dict) and isinstance(e['n'],int) and e['n']>64 for l in m.values() if isinstance(l,list) for e in l)
                    if md=='proof' and big: continue
                    sat.append((md,o,m))
            for md,o,m in sat[:12]:
                if u.name in confirmed: break
                ct=case_text(m); cf=work+'/case.txt'; open(cf,'w').write(ct)
                r=natrun(h,[u.name,'case',cf],60)
                if r.stdout.rstrip().split('\n')[-1].startswith('FAIL'):
                    confirmed.add(u.name)
                    p=replay_file(u,'property %s contract %s\nfailed obligation: %s (%s, in %s line %s)\nreplay: native harness binary, unit %s, with the inputs below: %s'%(cid,u.name,o['name'],o['kind'],o['func'],o['line'],u.name,r.stdout.strip().split('\n')[-1]),'inputs:\n'+ct+'\n'+r.stdout[-3000:]+r.stderr[-3000:])
                    viol.append((u.name,o['name'],p,''))
        # search
        ts=[(h,u) for h,u in ulist if h.path in nat]
        nsr=sum(1 for h,u in ts if not u.opts.get('nosearch')) or 1
        per=(max(1.5,min(6.0,160.0/nsr)) if tier=='quick' else 60)
        slots=[]
        lock=threading.Lock()
        def worker(lst):
            for h,u in lst:
                if u.opts.get('nosearch'): continue
                if u.opts.get('known'):
                    r=natrun(h,[u.name,'search',str(seed),str(20000),'3'],60)
                    with lock: search[u.name]=r.stdout.strip()[-300:]
                    if r.stdout.startswith('FAIL'): known.append(u)
                    continue
                if u.name in confirmed: continue
                sec=u.opts.get('search',per if tier=='quick' else max(per,10*u.opts.get('search',0)))
                sec=max(1,min(sec,deadline-15-time.time()))
                r=natrun(h,[u.name,'search',str(seed),str(u.opts.get('iters',2000000)),str(sec)],sec+60)
                with lock: search[u.name]=r.stdout.strip()[-300:]
                if r.stdout.startswith('FAIL'):
                    m=re.search(r'iteration (\d+)',r.stdout); it=m.group(1) if m else '0'
                    q=natrun(h,[u.name,'one',str(seed),it],60)
                    p=replay_file(u,'property %s contract %s\nfailing input found on the real code: seed %d iteration %s\n%s'%(cid,u.name,seed,it,r.stdout.strip()),q.stdout[-6000:]+q.stderr[-4000:])
                    with lock:
                        viol.append((u.name,r.stdout.strip(),p,'')); confirmed.add(u.name)
        thr=[]
        nw=min(NPROC,len(ts)) or 1
        for i in range(nw):
            t=threading.Thread(target=worker,args=(ts[i::nw],)); t.start(); thr.append(t)
        for t in thr: t.join()
        # ---- obligations that fail with a counterexample but without a native witness
        for h,u in ulist:
            if u.opts.get('native') or u.opts.get('known') or u.name in confirmed: continue
            pr=proofs.get((u.name,'proof'),[{}])[0]
            was=base.get(u.name)
            bl=[r for k,l in bounded.items() if k[0]==u.name for r in l]
            bfail=[o for r in bl for o in (r.get('failed') or [])]
            pfail=pr.get('failed') or []
            exact=not pr.get('loops')            # no loop was generalised: a counterexample of the proof run is a real path of the code
            if was in('proved','bounded-shape') and ((bfail) or (pfail and exact)):
                o=(bfail or pfail)[0]
                p=replay_file(u,'property %s contract %s\nfailed obligation: %s (%s, in %s line %s); this obligation is discharged on the reference tree\nno failing input was confirmed on the real code'%(cid,u.name,o['name'],o['kind'],o['func'],o['line']),'solver counterexample: '+json.dumps(o.get('model'),default=str)[:4000])
                viol.append((u.name,o['name'],p,' no-failing-input-found'))
        status={}
        for h,u in ulist:
            if u.opts.get('known'): continue
            pr=proofs.get((u.name,'proof'),[{}])[0]
            bl=[r for k,l in bounded.items() if k[0]==u.name for r in l]
            st=('bounded-shape' if u.opts.get('shape') else 'proved') if pr.get('status')=='proved' else ('bounded' if bl and all(r.get('status')=='proved' for r in bl) else ('partial' if pr.get('proved') else 'search-only'))
            if u.name in confirmed: st='violated'
            status[u.name]=st
        # ---- evidence
        shapes={u.name:u.opts['shape'] for h,u in ulist if u.opts.get('shape')}
        for k in [k for k in proofs if k[0] in shapes]: bounded[(k[0],'shape',0)]=proofs.pop(k)
        ob=sum(r.get('obligations',0) for l in proofs.values() for r in l); di=sum(r.get('proved',0) for l in proofs.values() for r in l)
        backs={}; funcs={}; assumed=set(); trusted=set(); sol=0; und=[]
        for l in list(proofs.values())+[bounded[k] for k in bounded if k[1]=='shape']:
            for r in l:
                for k,v in (r.get('backends') or {}).items(): backs[k]=backs.get(k,0)+v
                for k,v in (r.get('funcs') or {}).items(): funcs[k]=funcs.get(k,0)+v
                assumed|=set(r.get('assumed') or [])|set(r.get('notes') or []); trusted|=set(r.get('trusted') or []); sol+=r.get('solver_s') or 0
                for o in (r.get('undecided') or []): und.append('%s: %s in %s line %s: %s'%(r['unit'],o['name'],o['func'][:80],o['line'],o['reason'][:160]))
                if r.get('incomplete'): und.append('%s: %s'%(r['unit'],r['incomplete'][:200]))
                if r.get('error'): und.append('%s: %s'%(r['unit'],r['error'][:300]))
        bob=sum(r.get('obligations',0) for l in bounded.values() for r in l); bdi=sum(r.get('proved',0) for l in bounded.values() for r in l)
        nev=0; ngood=0
        for v in search.values():
            m=re.search(r'iterations (\d+) passed (\d+)',v)
            if m: nev+=int(m.group(1)); ngood+=int(m.group(2))
        samples=[]
        for l in list(proofs.values())+[bounded[k] for k in bounded if k[1]=='shape']:
            for r in l:
                samples.append({'contract':r.get('unit'),'status':r.get('status'),'obligations':r.get('obligations'),'discharged':r.get('proved'),'named':{k:v for k,v in list((r.get('named') or {}).items())[:12]},'loops_by_invariant':r.get('loops')})
        level=level_of(cid)
        cov=dict(obligations=ob,discharged=di,checker_cmd='python3-vt -m fcv.main %s %s'%(cid,tier),
            trusted_base=['clang 18 front end and the listed opt passes (C++ to LLVM IR)','fcv verification-condition generator (/verif/fcv)','z3 / cvc5 / polynomial normaliser back ends','harness contracts in '+', '.join(os.path.basename(h.path) for h in hs)]+sorted(trusted),
            contracts={k:v for k,v in status.items()},functions_under_contract=sorted(funcs),n_functions=len(funcs),backends=backs,solver_seconds=round(sol,2),undecided=und[:60],
            bounded_obligations=bob,bounded_discharged=bdi,bounded_units={u.name:u.opts.get('bounds','default lengths 0..4 (0..3 with several lengths)') for h,u in ulist if any(k[0]==u.name for k in bounded) and u.name not in shapes},bounded_shapes={k:'all inputs symbolic, shapes bounded: '+v for k,v in shapes.items()},
            evaluations=nev,distinct_nontrivial=ngood,rule='native executions of the same contracts on pseudo-random inputs (seeded by VERIF_SEED); non-trivial = preconditions satisfied and all checks evaluated',samples=samples[:20],
            explanation='every contract harness in %s is executed symbolically over the LLVM IR of the current /repo sources; all obligations of all paths are discharged for all inputs and all loop iterations; contracts marked bounded/search-only are stand-ins and not counted as proved'%(', '.join(os.path.basename(h.path) for h in hs)),
            build_errors={os.path.basename(k):v[-600:] for k,v in list(serr.items())+list(nerr.items())},search=search)
        ev=dict(property=cid,tier=tier,seed=seed,level=level,coverage=cov,assumptions=sorted(assumed)+['real arithmetic stands for floating point in units with fmode=real','distinct heap objects do not alias; allocation succeeds'],wall_s=round(time.time()-t0,1),violations=len(viol))
        json.dump(ev,open('%s/%s.json'%(evdir,cid),'w'),indent=1,default=str)
        if os.environ.get('FCV_BASELINE'):
            try: b=json.load(open(VERIF+'/baseline.json'))
            except Exception: b={}
            b.update(status); json.dump(dict(sorted(b.items())),open(VERIF+'/baseline.json','w'),indent=0)
        for k,v in status.items(): print('contract %-44s %s'%(k,v))
        for x in und[:12]: print('UNDECIDED',x[:300])
        for k,v in list(serr.items())+list(nerr.items()): print('BUILD-ERROR',os.path.basename(k),v[-1500:])
        print('obligations %d discharged %d  bounded %d/%d  native executions %d  wall %.1fs'%(ob,di,bdi,bob,nev,time.time()-t0))
        for u in known: print('KNOWN-FINDING: property=%s %s'%(cid,kf_text(u.name)))
        for un,what,p,suf in viol:
            print('# %s: %s'%(un,what))
            print('VIOLATION property=%s replay=%s%s'%(cid,p,suf))
        if viol: return 1
        if serr or nerr: return 2
        return 0
    finally:
        shutil.rmtree(work,ignore_errors=True)
def kf_text(unit):
    try:
        for l in open(VERIF+'/known_findings.txt'):
            if 'unit=%s '%unit in l: return l.split(' ',2)[2].strip() if l.startswith('known:') else l.strip()
    except OSError: pass
    return unit
def level_of(cid):
    try:
        for c in json.load(open(VERIF+'/MANIFEST.json'))['checks']:
            if c['property']==cid: return c['level']
    except Exception: pass
    return 'proof'
