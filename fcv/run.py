"""Executes one unit (contract harness) in the verifier."""
import time,sys,os,tempfile,shutil,json,itertools,gc
import z3
from .vals import *
from .engine import *
from .interp import Ctx
from .intrin import Verifier
from . import llvm as LL, build, spec, vals

def start(mod,u,mode,choice=None,extra=None):
    o=dict(u.opts); o.update(extra or {})
    fm=o.get('fmode','real')
    v=Verifier(mod,mode,fm,o,choice)
    v.cur_unit=u.name; v.pre_demangle() if False else None
    from . import contracts
    contracts.install(v,o)
    return v
def init_state(v,mod):
    st=State()
    g=mod.globs.get('llvm.global_ctors')
    fails=[]
    if g and LL.GetInit(g):
        c=mod.const(LL.GetInit(g))
        entries=c[1] if c[0]=='agg' else []
        lst=[]
        for _,e in entries:
            pr=e[1][0][1][2]; fn=e[1][1][1]
            if fn[0]=='fn': lst.append((pr,fn[1]))
        for pr,name in sorted(lst,key=lambda x:x[0]):
            x=st.fork()
            F=mod.funcs[name].decode()
            v.strict=True; v.quiet=True
            try:
                v.push(x,F,[],None,None,('void',))
                outs=v.explore(x,Ctx(1))
                if len(outs)==1: st=outs[0][1]; st.frames=[]
                else: fails.append(name)
            except (Unsupported,PathEnd) as e: fails.append(name+': '+str(e)[:100])
            finally: v.strict=False; v.quiet=False
    v.funcs_seen={}
    v.ctor_fails=fails
    st.pc=[]; st.notes=(); st.known={}
    return st
def run_unit(mod,u,mode='proof',choice=None,extra=None,budget=120):
    t0=time.time()
    vals.reset_names()
    v=start(mod,u,mode,choice,extra)
    v.deadline=t0+budget
    res={'unit':u.name,'mode':mode,'choice':choice or {},'status':None}
    F=mod.funcs.get('fcv_unit_'+u.name)
    if F is None: raise RuntimeError('harness function missing '+u.name)
    F.decode()
    inc=None; outs=[]
    try:
        st=init_state(v,mod)
        v.deadline=time.time()+budget
        v.push(st,F,[],None,None,('void',))
        outs=v.explore(st,Ctx(1))
    except Incomplete as e: inc=str(e)
    except Unsupported as e: inc='outside the verifier: '+str(e)
    v.returns=len(outs)
    ob=v.obls
    res.update(obligations=len(ob),proved=sum(o.status=='proved' for o in ob),failed=[o.d() for o in ob if o.status=='failed'],undecided=[o.d() for o in ob if o.status=='undecided'],
        incomplete=inc,returns=len(outs),paths=v.paths,solver_s=round(v.tquery,2),queries=v.nquery,time=round(time.time()-t0,2),funcs=v.funcs_seen,assumed=sorted(v.assumed),notes=sorted(v.alias_notes|v.bounded_notes),
        lens=list(dict.fromkeys(v.lenvars)),loops=v.loopstats,backends={},kinds={},checks=sorted(v.checks_seen),ctor_fails=v.ctor_fails if hasattr(v,'ctor_fails') else [],trusted=sorted(v.trusted),covers=v.covers,insts=v.inst_count)
    for o in ob:
        if o.status=='proved': res['backends'][o.backend]=res['backends'].get(o.backend,0)+1
        res['kinds'][o.kind]=res['kinds'].get(o.kind,0)+1
    named={}
    for o in ob:
        k='%s @ %s'%(o.name,o.func.split('(')[0]) if o.kind!='post' else o.name
        d=named.setdefault(k,[0,0]); d[0]+=1; d[1]+=o.status=='proved'
    res['named']=named
    ok=not res['failed'] and not res['undecided'] and not inc and len(outs)>0 and len(ob)>0
    vac=[]
    if not outs and not inc: vac.append('no path returns')
    for n,c in v.covers.items():
        if not c: vac.append('cover never reached: '+n)
    if vac: ok=False; res['vacuous']=vac
    res['status']='proved' if ok else ('failed' if res['failed'] else 'undecided')
    return res
def debug(argv):
    h=spec.load(argv[0] if argv[0].endswith('.cpp') else __import__('glob').glob(build.VERIF+'/harness/'+argv[0]+'*.cpp')[0])
    extra={}; mode='proof'; choice={}
    for a in argv[2:]:
        if a in('proof','bounded'): mode=a
        elif '=' in a:
            k,x=a.split('=',1)
            if k[0]=='@': choice[k[1:]]=int(x)
            else: extra[k]=int(x) if x.isdigit() else x
        else: extra[a]=True
    work=tempfile.mkdtemp(prefix='fcvd')
    try:
        bc=build.symbolic_module(h.path,h.sources,work)
        mod=LL.Module(bc)
        for u in h.units:
            if len(argv)>1 and argv[1] not in('all',u.name): continue
            r=run_unit(mod,u,mode,choice,extra,extra.get('budget',u.opts.get('budget',120)))
            if 'nofuncs' not in extra: r['funcs']=len(r['funcs'])
            bad=r.pop('failed'),r.pop('undecided')
            print(json.dumps(r,indent=None,default=str)[:3500])
            for o in bad[0][:6]: print('  FAILED',o['name'],'|',o['func'][:90],o['line'],json.dumps(o['model'],default=str)[:600])
            for o in bad[1][:12]: print('  UNDEC',o['name'],'|',o['func'][:90],o['line'],o['reason'][:200])
            print('==>',r['status'],'failed',len(bad[0]),'undecided',len(bad[1]))
    finally: shutil.rmtree(work)
