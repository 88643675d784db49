#!/usr/bin/env python3
"""pp.py Cxx [units...] [proof|bounded|search] [budget=60] : parallel development run with short output"""
import sys,os,json,subprocess,tempfile,shutil,re,time
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')); sys.path.insert(0,V)
from fcv import spec,build
from concurrent.futures import ThreadPoolExecutor
a=sys.argv[1:]; cid=a.pop(0); mode='proof'; opts={}; units=[]; ch={}
for x in a:
    if x in('proof','bounded','search'): mode=x
    elif x.startswith('@'): k,v=x[1:].split('='); ch[k]=int(v)
    elif '=' in x: k,v=x.split('='); opts[k]=float(v) if re.fullmatch(r'[\d.]+',v) else v
    else: units.append(x)
work=tempfile.mkdtemp(prefix='fcvpp_')
try:
    for h in spec.for_property(cid):
        us=[u for u in h.units if not units or any(re.search(x,u.name) for x in units)]
        if not us: continue
        d=work+'/'+os.path.basename(h.path); os.makedirs(d)
        if mode=='search':
            t=time.time()
            try: exe=build.native(h.path,d,build.base_sources(h.sources+h.native)) if h.minimal else build.native(h.path,d,None)
            except Exception as e: print(str(e)[-3000:]); continue
            print('native build %.1fs'%(time.time()-t))
            def s(u):
                env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',LC_ALL='C')
                r=subprocess.run([exe,u.name,'search',str(int(opts.get('seed',1))),'2000000',str(opts.get('secs',3))],capture_output=True,text=True,errors='replace',env=env,cwd=work)
                o='%-40s %s'%(u.name,r.stdout.strip()[-200:])
                if r.stdout.startswith('FAIL'):
                    it=re.search(r'iteration (\d+)',r.stdout).group(1)
                    q=subprocess.run([exe,u.name,'one',str(int(opts.get('seed',1))),it],capture_output=True,text=True,errors='replace',env=env,cwd=work)
                    o+='\n'+q.stdout[-900:]+'\n'+'\n'.join(l for l in q.stderr.split('\n') if 'ERROR' in l or 'runtime error' in l or re.match(r'\s*#\d ',l))[:900]
                return o
            with ThreadPoolExecutor(8) as ex:
                for o in ex.map(s,us): print(o)
            continue
        try: bc=build.symbolic_module(h.path,h.sources,d)
        except Exception as e:
            print('\n'.join(l for l in str(e).split('\n') if 'error' in l)[:2500]); continue
        from fcv.check import split_of,join_parts
        def w(u):
            if u.opts.get('native') or u.opts.get('known'): return ''
            cs=split_of(u) if mode=='proof' else [{}]
            if len(cs)==1: return w1(u,cs[0],'')
            with ThreadPoolExecutor(8) as ex2: rs=list(ex2.map(lambda i: w1(u,cs[i],'_%d'%i,True),range(len(cs))))
            if any(isinstance(r,str) for r in rs): return '\n'.join(r for r in rs if isinstance(r,str))[:3000]
            return fmt(u,join_parts(rs))
        def w1(u,c0,suf,raw=False):
            out=d+'/r_'+u.name+suf
            job=dict(harness=h.path,unit=u.name,bc=bc,mode=mode,choices=[dict(c0,**ch)],budget=opts.get('budget',u.opts.get('budget',150)),out=out,extra={k:v for k,v in opts.items() if k!='budget'})
            json.dump(job,open(out+'.job','w'))
            try: subprocess.run([sys.executable,'-m','fcv.worker',out+'.job'],cwd=V,env=dict(os.environ,PYTHONPATH=V,PYTHONHASHSEED='0'),capture_output=True,text=True,timeout=job['budget']*1.3+60)
            except subprocess.TimeoutExpired: return '%-40s TIMEOUT'%u.name
            try: r=json.load(open(out))[0]
            except Exception as e: return '%-40s no result %s'%(u.name,e)
            return r if raw else fmt(u,r)
        def fmt(u,r):
            o='%-36s %-9s %s/%s t=%s solver=%s paths=%s %s %s'%(u.name,r.get('status'),r.get('proved'),r.get('obligations'),r.get('time'),r.get('solver_s'),r.get('paths'),(r.get('incomplete') or '')[:150],(r.get('error') or '')[-400:])
            seen={}
            for k in('failed','undecided'):
                for x in r.get(k) or []:
                    key=(k,x['name'],x['line']); seen.setdefault(key,[]).append(x)
            for (k,n,l),xs in list(seen.items())[:8]:
                x=xs[0]; o+='\n      %s x%d: %s | %s:%s %s'%(k.upper(),len(xs),n[:110],x['func'][:40],l,(json.dumps(x.get('model'))[:260] if k=='failed' else str(x.get('reason'))[:120]))
            return o
        with ThreadPoolExecutor(8) as ex:
            for o in ex.map(w,us):
                if o: print(o,flush=True)
finally: shutil.rmtree(work,ignore_errors=True)
