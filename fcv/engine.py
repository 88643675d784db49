"""Symbolic execution / verification-condition generation over LLVM IR."""
import z3, re, sys, time, math
from fractions import Fraction
from .vals import *
from .mem import *
from . import llvm as LL
sys.setrecursionlimit(20000)

class PathEnd(Exception): pass
class Incomplete(Exception): pass
class Fork(Exception):
    def __init__(s,c): s.c=c

class Frame:
    __slots__=('f','bi','ip','prev','regs','dst','ins','retblk','allocas','lc','rty')
    def __init__(s,f,regs,dst): s.f=f; s.bi=0; s.ip=0; s.prev=-1; s.regs=regs; s.dst=dst; s.ins=None; s.retblk=None; s.allocas=(); s.lc=None; s.rty=None
    def clone(s):
        o=Frame(s.f,list(s.regs),s.dst); o.bi=s.bi; o.ip=s.ip; o.prev=s.prev; o.ins=s.ins; o.retblk=s.retblk; o.allocas=s.allocas; o.lc=dict(s.lc) if s.lc else None; o.rty=s.rty
        return o

class State:
    __slots__=('id','frames','mem','pc','facts','ghost','retval','notes','pending','known','why','nopark')
    _n=[0]
    def __init__(s):
        s.id=State.nid(); s.frames=[]; s.mem={}; s.pc=[]; s.facts=(); s.ghost={}; s.retval=None; s.notes=(); s.pending=None; s.known={}; s.why=None; s.nopark=False
    @staticmethod
    def nid():
        State._n[0]+=1; return State._n[0]
    def fork(s):
        o=State(); s.id=State.nid()
        o.frames=[f.clone() for f in s.frames]; o.mem=dict(s.mem); o.pc=list(s.pc); o.facts=s.facts; o.ghost=dict(s.ghost); o.retval=s.retval; o.notes=s.notes; o.pending=s.pending; o.known=dict(s.known); o.why=s.why
        return o

class Fact:
    """for all idx: fn(idx); instantiated at applications of the functions named in `trig` (name -> inverse index map or None)"""
    __slots__=('trig','fn','depth','arity')
    def __init__(s,trig,fn,depth=2,arity=1): s.trig=trig; s.fn=fn; s.depth=depth; s.arity=arity

class SV:
    """answer of a back end that gives no model"""
    def __init__(s,b): s.backend=b
    def model(s): raise Unsupported('no model')
    def reason_unknown(s): return ''
class Obl:
    __slots__=('name','kind','status','func','line','t','backend','model','bounded','reason','unit','smt')
    def __init__(s,name,kind,func,line): s.name=name; s.kind=kind; s.func=func; s.line=line; s.status=None; s.t=0; s.backend=''; s.model=None; s.bounded=False; s.reason=''; s.unit=''; s.smt=None
    def d(s): return {k:getattr(s,k) for k in s.__slots__ if k not in('smt',)}

STRIDE_LIMIT=4096

class Engine:
    def __init__(s, mod, mode='proof', fmode='real', opts=None):
        s.mod=mod; s.mode=mode; s.fmode=fmode; s.o=opts or {}
        s.obls=[]; s.globobj={}; s.nextoid=1; s.funcs_seen={}; s.inputs=[]; s.assumed={}; s.dem={}
        s.inst_count=0; s.tquery=0; s.nquery=0; s.deadline=None
        s.feas_to=s.o.get('feas_ms',1000); s.obl_to=s.o.get('obl_ms',20000)
        s.bounded_notes=set(); s.trusted=set(); s.paths=0; s.returns=0; s.undecided_feas=0
        s.lens={}; s.folds=[]; s.libc=None; s.solver=None; s._uf_cache={}; s.real_syms={}; s._inst_cache={}; s._pure={}; s._sorts={}; s._nl={}; s.ncvc5=0; s._undec={}; s.ndecide=0; s.nncache={}
        s.choice={}; s.unb=set(); s.loopstats=[]; s.checks_seen=set(); s.call_depth_limit=s.o.get('depth',60)
        s.stack_loops=[]; s.cfg_unroll=s.o.get('unroll',[]); s.cfg_merge=s.o.get('merge',[]); s.cfg_join=s.o.get('join',[]); s._joins={}; s.probe=s.o.get('probe',3)
        s.userinv=s.o.get('inv',[]); s.contracts=s.o.get('contracts',{}); s.bounded_flag=False; s.ftrace=[]
        s.famobj={}; s.ibase_mem=None; s.cur_unit=''; s.max_unroll=s.o.get('max_unroll',64 if mode=='bounded' else 600)
        s.fpcache={}; s.maxinst=s.o.get('maxinst',30_000_000); s.alias_notes=set(); s.sat_as_feas=True
        s.uffs={}; s.quiet=False; s.bounds_seen=[]; s.ctxs=[]

    # ------------------------------------------------------------ misc
    def demname(s,n):
        r=s.dem.get(n)
        if r is None:
            r=LL.demangle([n])[n]; s.dem[n]=r
        return r
    def pre_demangle(s):
        s.dem.update(LL.demangle(s.mod.funcs.keys()))
    def func(s,n):
        return s.mod.funcs.get(n)
    def loc(s,st):
        for fr in reversed(st.frames):
            n=s.demname(fr.f.name)
            line=0
            if fr.ins is not None: line=fr.ins.line
            return n,line
        return '?',0

    # ------------------------------------------------------------ objects
    def new_obj(s,st,kind,size,tag,name):
        oid=s.nextoid; s.nextoid+=1
        o=Obj(oid,kind,size,tag,name,st.id); st.mem[oid]=o
        return o
    def gobj(s,st,name):
        oid=s.globobj.get(name)
        if oid is None:
            oid=s.nextoid; s.nextoid+=1; s.globobj[name]=oid
        if oid not in st.mem:
            g=s.mod.globs.get(name)
            if g is None: raise Unsupported('global '+name)
            ty=s.mod.ty(LL.GlobVT(g)); size=s.mod.size(ty)
            o=Obj(oid,'cells',size,'global',name,st.id); o.const=bool(LL.IsConstG(g))
            st.mem[oid]=o
            ini=LL.GetInit(g)
            if ini:
                s.init_const(st,o,0,s.mod.const(ini),ty)
            else:
                o.meta='external'
        return oid
    def init_const(s,st,o,off,c,ty):
        k=c[0]
        if k=='agg':
            for so,sub in c[1]:
                sty=None
                s.init_const(st,o,off+so,sub,s.subty(c[2],so))
        elif k=='zero' : 
            if s.mod.size(ty)>65536: o.initf=True; return
            s.init_zero(st,o,off,ty)
        elif k=='undef': pass
        else:
            o.cells[off]=(s.csize(c,ty),s.kval(st,c))
    def subty(s,ty,off):
        if ty[0]=='s':
            i=ty[2].index(off)
            # skip zero-size duplicates
            for j in range(len(ty[2])):
                if ty[2][j]==off and s.mod.size(ty[1][j])>0: i=j
            return ty[1][i]
        return ty[2]
    def init_zero(s,st,o,off,ty):
        k=ty[0]
        if k=='s':
            for t,x in zip(ty[1],ty[2]): s.init_zero(st,o,off+x,t)
        elif k in('a','v'):
            for i in range(ty[1]): s.init_zero(st,o,off+i*ty[3],ty[2])
        elif k=='p': o.cells[off]=(8,NULL)
        elif k=='f': o.cells[off]=(ty[1]//8,s.fconst(0.0,ty[1]))
        else: o.cells[off]=(s.mod.size(ty),0)
    def csize(s,c,ty):
        k=c[0]
        if k=='i': return (c[1]+7)//8
        if k=='f': return c[1]//8
        if k in('null','g','fn','i2p'): return 8
        return s.mod.size(ty)
    def kval(s,st,c):
        k=c[0]
        if k=='i': return c[2]
        if k=='f': return s.fconst(c[2],c[1])
        if k=='null': return NULL
        if k=='g':
            oid=s.gobj(st,c[1]); return Ptr(oid,c[2])
        if k=='fn': return FnPtr(c[1])
        if k=='undef': return s.undef(c[1])
        if k=='zero': return s.zero(c[1])
        if k=='agg':
            return [s.kval(st,x) for _,x in c[1]]
        if k=='p2i': 
            v=s.kval(st,c[2]); return v.off if isinstance(v,Ptr) and v.oid==0 else PInt(v)
        if k=='i2p':
            v=s.kval(st,c[1]); return Ptr(0,v)
        if k=='cx':
            if c[1]=='sub':
                a=s.kval(st,c[2][0]); b=s.kval(st,c[2][1]); return s.binop(st,'sub',a,b,c[3][1],None)
            raise Unsupported('const expr')
        if k=='md': return None
        raise Unsupported('const '+k)
    def zero(s,ty):
        k=ty[0]
        if k=='i': return 0
        if k=='f': return s.fconst(0.0,ty[1])
        if k=='p': return NULL
        if k in('v','a'): return [s.zero(ty[2]) for _ in range(ty[1])]
        if k=='s': return [s.zero(t) for t in ty[1]]
        raise Unsupported('zero')
    def undef(s,ty):
        k=ty[0]
        if k=='i': return fresh('undef',ty[1]) if ty[1]>1 else fresh('undef','bool')
        if k=='f': return s.ffresh('undef',ty[1])
        if k=='p': return UNDEF
        if k in('v','a'): return [s.undef(ty[2]) for _ in range(ty[1])]
        if k=='s': return [s.undef(t) for t in ty[1]]
        return UNDEF
    # ------------------------------------------------------------ floats
    def fsort(s,w): 
        if s.fmode=='real': return z3.RealSort()
        return z3.Float32() if w==32 else z3.Float64()
    def fconst(s,d,w):
        if s.fmode=='real':
            if math.isinf(d): return PINF if d>0 else NINF
            if math.isnan(d): return NAN
            return Fraction(d)
        k=(repr(d),w); r=s.fpcache.get(k)
        if r is None: r=s.fpcache[k]=z3.FPVal(d,s.fsort(w))
        return r
    def ffresh(s,name,w):
        return fresh(name,s.fsort(w))
    def rt(s,v):
        if isinstance(v,Fraction): return z3.RealVal(str(v))
        if isinstance(v,int): return z3.RealVal(v)
        if isinstance(v,FSpec): 
            if 'inf' in v.k: s.alias_notes.add('infinity constant treated as an unconstrained huge real'); return z3.Real('huge!inf') if v.k=='+inf' else -z3.Real('huge!inf')
            raise Unsupported('nan arithmetic')
        return v
    def fop(s,op,a,b,w):
        if s.fmode=='real':
            if isinstance(a,Fraction) and isinstance(b,Fraction):
                if op=='fadd': return a+b
                if op=='fsub': return a-b
                if op=='fmul': return a*b
                if op=='fdiv':
                    if b!=0: return a/b
                    return NAN if a==0 else (PINF if a>0 else NINF)
                if op=='frem':
                    if b!=0: return a-b*Fraction(int(a/b))
            if isinstance(a,FSpec) or isinstance(b,FSpec):
                if op=='fmul' or op=='fdiv' or op=='fadd' or op=='fsub':
                    r=s.fspec_op(op,a,b)
                    if r is not None: return r
            if op=='fmul':
                if a==0 and isinstance(a,Fraction) or b==0 and isinstance(b,Fraction): return Fraction(0)
                if isinstance(a,Fraction) and a==1: return b
                if isinstance(b,Fraction) and b==1: return a
            if op=='fadd':
                if isinstance(a,Fraction) and a==0: return b
                if isinstance(b,Fraction) and b==0: return a
            if op=='fsub' and isinstance(b,Fraction) and b==0: return a
            if op=='fdiv' and isinstance(b,Fraction) and b==1: return a
            a=s.rt(a); b=s.rt(b)
            if op=='fadd': return a+b
            if op=='fsub': return a-b
            if op=='fmul': return a*b
            if op=='fdiv': return a/b
            raise Unsupported(op)
        rm=z3.RNE()
        if op=='fadd': return z3.fpAdd(rm,a,b)
        if op=='fsub': return z3.fpSub(rm,a,b)
        if op=='fmul': return z3.fpMul(rm,a,b)
        if op=='fdiv': return z3.fpDiv(rm,a,b)
        raise Unsupported(op)
    def fspec_op(s,op,a,b):
        inf=float('inf')
        def tof(x): return {'+inf':inf,'-inf':-inf,'nan':float('nan')}[x.k] if isinstance(x,FSpec) else (float(x) if isinstance(x,Fraction) else None)
        x,y=tof(a),tof(b)
        if x is None or y is None:
            if op in('fadd','fsub'):
                if isinstance(a,FSpec): return a
                return b if op=='fadd' else {'+inf':NINF,'-inf':PINF,'nan':NAN}[b.k]
            return None
        try:
            r={'fadd':lambda:x+y,'fsub':lambda:x-y,'fmul':lambda:x*y,'fdiv':lambda:x/y}[op]()
        except ZeroDivisionError: return NAN if x==0 else PINF
        return s.fconst(r,64)
    def fcmp(s,p,a,b):
        if p=='true': return 1
        if p=='false': return 0
        if s.fmode=='real':
            if isinstance(a,FSpec) or isinstance(b,FSpec):
                if (isinstance(a,FSpec) and a.k=='nan') or (isinstance(b,FSpec) and b.k=='nan'):
                    return 1 if p[0]=='u' else 0
                ra={'+inf':1,'-inf':-1}.get(getattr(a,'k',None),0); rb={'+inf':1,'-inf':-1}.get(getattr(b,'k',None),0)
                if p in('ord',): return 1
                if p=='uno': return 0
                q=p[1:]
                if isinstance(a,FSpec) and isinstance(b,FSpec):pass
                return int({'eq':ra==rb,'ne':ra!=rb,'lt':ra<rb,'gt':ra>rb,'le':ra<=rb and not(ra==rb and False),'ge':ra>=rb}[q])
            if p=='ord': return 1
            if p=='uno': return 0
            q=p[1:] 
            if isinstance(a,Fraction) and isinstance(b,Fraction):
                return int({'eq':a==b,'ne':a!=b,'lt':a<b,'gt':a>b,'le':a<=b,'ge':a>=b}[q])
            a=s.rt(a); b=s.rt(b)
            if a.eq(b): return int(q in('eq','le','ge'))
            return {'eq':lambda:a==b,'ne':lambda:a!=b,'lt':lambda:a<b,'gt':lambda:a>b,'le':lambda:a<=b,'ge':lambda:a>=b}[q]()
        nan=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        if p=='ord': return z3.simplify(z3.Not(nan))
        if p=='uno': return z3.simplify(nan)
        q=p[1:]
        c={'eq':z3.fpEQ,'ne':lambda x,y:z3.Not(z3.fpEQ(x,y)),'lt':z3.fpLT,'gt':z3.fpGT,'le':z3.fpLEQ,'ge':z3.fpGEQ}[q](a,b)
        if p[0]=='o': r=c if q!='ne' else z3.And(c,z3.Not(nan))
        else: r=z3.Or(c,nan) if q!='ne' else c
        return s.b(z3.simplify(r))
    def b(s,c):
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        return c
    # ------------------------------------------------------------ solver
    def uf_apps(s,e):
        """set of (declname, app) of uninterpreted functions in e (memo)"""
        i=e.get_id(); r=s._uf_cache.get(i)
        if r is not None: return r[1]
        out={}; seen=set(); st=[e]
        while st:
            x=st.pop(); xi=x.get_id()
            if xi in seen: continue
            seen.add(xi)
            c=s._uf_cache.get(xi)
            if c is not None: out.update(c[1]); continue
            if z3.is_app(x):
                if x.num_args()>0:
                    if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[xi]=x
                    st.extend(x.children())
        s._uf_cache[i]=(e,out)
        return out
    def instances(s,conds,facts,extra_terms=()):
        """ground instances of the facts relevant to the conditions"""
        if not facts: return []
        res=[]; done=set(); frontier=list(conds)
        bytrig={}
        for fi,f in enumerate(facts):
            for t,inv in f.trig.items(): bytrig.setdefault(t,[]).append((fi,f,inv))
        seenapps=set(); gen=0
        apps1=[]
        while frontier and gen<s.o.get('gen',3):
            new=[]
            for e in frontier:
                for ai,app in s.uf_apps(e).items():
                    if ai in seenapps: continue
                    seenapps.add(ai)
                    nm=app.decl().name()
                    fl=bytrig.get(nm)
                    if not fl: continue
                    arg=app.arg(0)
                    apps1.append((nm,arg))
                    for fi,f,inv in fl:
                        if f.arity==2: continue
                        if gen>=f.depth: continue
                        idx=inv(arg) if inv else arg
                        if idx is None: continue
                        k=(fi,idx.get_id())
                        if k in done: continue
                        done.add(k)
                        ck=(id(f),idx.get_id())
                        inst=s._inst_cache.get(ck)
                        if inst is None:
                            inst=(f,idx,f.fn(idx)); s._inst_cache[ck]=inst
                        if inst[2] is not None: new.append(inst[2])
            # pair facts
            for fi,f in enumerate(facts):
                if f.arity!=2: continue
                idxs={}
                for nm,arg in apps1:
                    if nm in f.trig:
                        inv=f.trig[nm]; a=inv(arg) if inv else arg
                        if a is not None: idxs[a.get_id()]=a
                il=list(idxs.values())[:24]
                for a in il:
                    for b2 in il:
                        k=(fi,a.get_id(),b2.get_id())
                        if k in done: continue
                        done.add(k)
                        e=f.fn(a,b2)
                        if e is not None: new.append(e)
            res.extend(new); frontier=new; gen+=1
        return res
    def sorts_of(s,e):
        """0 = integers only, 1 = reals / floating point inside (cached)"""
        i=e.get_id(); r=s._sorts.get(i)
        if r is not None: return r[1]
        st=[e]; seen=set(); res=0
        while st:
            x=st.pop(); xi=x.get_id()
            if xi in seen: continue
            seen.add(xi)
            c=s._sorts.get(xi)
            if c is not None:
                if c[1]: res=1; break
                continue
            k=x.sort_kind()
            if k in(z3.Z3_REAL_SORT,z3.Z3_FLOATING_POINT_SORT,z3.Z3_INT_SORT): res=1; break
            st.extend(x.children())
        s._sorts[i]=(e,res); return res
    def nonlinear(s,e):
        """a product or quotient of reals that are not constants inside (cached)"""
        i=e.get_id(); r=s._nl.get(i)
        if r is not None: return r[1]
        st=[e]; seen=set(); res=False
        while st and not res:
            x=st.pop(); xi=x.get_id()
            if xi in seen or not z3.is_app(x): continue
            seen.add(xi)
            c=s._nl.get(xi)
            if c is not None:
                if c[1]: res=True
                continue
            kd=x.decl().kind()
            if kd==z3.Z3_OP_MUL and sum(1 for y in x.children() if not z3.is_rational_value(y))>1: res=True
            elif kd==z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): res=True
            st.extend(x.children())
        s._nl[i]=(e,res); return res
    def check(s,conds,facts,timeout):
        s.nquery+=1; t0=time.time()
        timeout=int(timeout)
        allc=list(conds)+s.instances(conds,facts)
        try:
            if s.o.get('tactic'): 
                sv=z3.Tactic(s.o['tactic']).solver(); first=timeout; ints=False
            else:
                ints=not any(s.sorts_of(c) for c in allc)
                sv=z3.SimpleSolver() if ints else z3.Solver()
                first=min(timeout,s.o.get('first_ms',1200)) if ints else timeout
                if not ints and s.o.get('lin'):
                    # the conditions without products of unknowns often suffice
                    le=[c for c in allc if not s.nonlinear(c)]
                    if len(le)<len(allc):
                        sl=z3.Solver(); sl.set('timeout',min(timeout,2000)); sl.add(*le)
                        if sl.check()==z3.unsat: sl.backend='z3'; return z3.unsat,sl
            sv.set('timeout',first); sv.add(*allc)
            r=sv.check(); sv.backend='z3'
            if r==z3.unknown and ints and timeout>500:
                sv2=z3.Solver(); sv2.set('timeout',timeout); sv2.add(*allc)
                r3,r2=s.race(sv,sv2,timeout); sv2.backend='z3'
                if r3!=z3.unknown: return r3,sv2
                if r2==z3.unsat: return r2,SV('cvc5')
                if r2==z3.sat:
                    if timeout>=10000:
                        sv2=z3.Solver(); sv2.set('timeout',3000); sv2.add(*allc); r3=sv2.check(); sv2.backend='z3'
                        if r3!=z3.unknown: return r3,sv2
                    return r2,SV('cvc5')
            return r,sv
        finally:
            s.tquery+=time.time()-t0
            if s.deadline and time.time()>s.deadline: raise Incomplete('unit time budget exhausted')
    def race(s,sv,sv2,timeout):
        """second and third back end side by side: cvc5 with bit-vectors translated to integers, z3's default tactic"""
        import subprocess,threading
        txt='(set-logic ALL)\n'+sv.to_smt2(); res=[z3.unknown]; done=[False]
        p=subprocess.Popen(['cvc5','--tlimit=%d'%timeout,'--solve-bv-as-int=sum','-'],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)
        def w():
            try: o=p.communicate(txt)[0].strip()
            except Exception: return
            res[0]=z3.unsat if o=='unsat' else z3.sat if o=='sat' else z3.unknown
            if res[0]!=z3.unknown and not done[0]: sv2.interrupt()
        t=threading.Thread(target=w); t.start()
        r3=sv2.check(); done[0]=True
        try: p.kill()
        except Exception: pass
        t.join(); s.ncvc5+=1
        return r3,res[0]
    def relevant(s,pc,extra):
        """cone of influence: keep the path conditions that share symbols with extra (transitively)"""
        return pc
    def feasible(s,st,c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key=None
        r,sv=s.check(st.pc+[c],st.facts,s.feas_to)
        if r==z3.unknown: s.undecided_feas+=1
        return r!=z3.unsat
    def add_pc(s,st,c):
        if isinstance(c,int):
            if not c: raise PathEnd()
            return
        if z3.is_true(c): return
        if z3.is_and(c):
            for x in c.children(): s.add_pc(st,x)
            return
        if z3.is_false(c): raise PathEnd()
        st.pc.append(c)
    def oblig(s,st,goal,name,kind='post'):
        """goal: python bool/int or z3 Bool.  Records the obligation; afterwards assumes it."""
        if isinstance(goal,int) and not isinstance(goal,z3.ExprRef):
            goal=z3.BoolVal(bool(goal))
        if s.quiet:
            if z3.is_true(goal): return True
            if z3.is_false(goal): raise PathEnd()
            s.add_pc(st,goal); return True
        fn,line=s.loc(st)
        if z3.is_true(goal):
            o=Obl(name,kind,fn,line); o.status='proved'; o.backend='concrete'; o.unit=s.cur_unit; o.bounded=s.bounded_flag
            s.obls.append(o); return True
        o=Obl(name,kind,fn,line); o.unit=s.cur_unit; o.bounded=s.bounded_flag
        t0=time.time(); q0=s.tquery
        res=None
        if s.fmode=='real' and kind!='safety':
            from . import poly
            try:
                pre=z3.Solver(); pre.set('timeout',250)
                for c in st.pc: pre.add(c)
                pre.add(z3.Not(goal))
                if pre.check()==z3.unsat: res='proved'; o.backend='z3'
                elif poly.prove(goal,st.pc,s):
                    res='proved'; o.backend='polynomial-normaliser'
            except poly.GiveUp: pass
            if res is None:
                from . import opaque
                if opaque.prove(goal,st.pc): res='proved'; o.backend='z3 (generalised)'
        if res is None:
            try:
                r,sv=s.check(st.pc+[z3.Not(goal)],st.facts,s.obl_to)
            except Incomplete:
                o.status='undecided'; o.reason='time budget'; s.obls.append(o); raise
            o.backend=getattr(sv,'backend','z3')
            if r==z3.unsat: res='proved'
            elif r==z3.sat:
                res='failed'
                try: o.model=s.extract_model(sv.model(),st)
                except Exception as e: o.model={'error':repr(e)}
                o.reason='counterexample to the obligation'
                if s.o.get('dump'): print('FAILED',name,fn,line,'\n pc:',*st.pc,'\n goal',goal,'\n',sv.model(), file=sys.stderr)
            else:
                alt=s.alt_backend(st.pc+[z3.Not(goal)],st.facts)
                if alt=='unsat': res='proved'; o.backend='cvc5'
                else:
                    res='undecided'; o.reason='solver: '+sv.reason_unknown()
                    if s.o.get('dump'): print('UNDECIDED',name,fn,line,'\n pc:',*st.pc,'\n goal',goal, file=sys.stderr)
        o.t=time.time()-t0; o.status=res
        s.obls.append(o)
        if z3.is_false(goal): raise PathEnd()
        st.pc.append(goal)
        if res=='failed':
            # continue only if the assumption leaves the path feasible
            if not s.feasible(st,TRUE if False else z3.BoolVal(True)) : raise PathEnd()
        return res=='proved'
    def alt_backend(s,conds,facts):
        if not s.o.get('cvc5',True): return None
        try:
            import cvc5
        except ImportError: return None
        try:
            sv=z3.Solver()
            for c in conds: sv.add(c)
            for c in s.instances(conds,facts): sv.add(c)
            txt='(set-logic ALL)\n'+sv.to_smt2()
            import subprocess,shutil
            exe=shutil.which('cvc5')
            if not exe: return None
            r=subprocess.run([exe,'--tlimit=%d'%s.obl_to,'-'],input=txt,capture_output=True,text=True,timeout=s.obl_to/1000+5)
            return r.stdout.strip().split('\n')[0]
        except Exception: return None
    def extract_model(s,m,st):
        out={}
        def ev(t):
            if isint(t): return t
            if isinstance(t,Fraction): return str(t)
            v=m.eval(t,model_completion=True)
            if z3.is_bv_value(v): return v.as_long()
            if z3.is_true(v): return 1
            if z3.is_false(v): return 0
            if z3.is_rational_value(v): return str(v.as_fraction())
            if z3.is_algebraic_value(v): return str(v.approx(12).as_fraction())
            if z3.is_fp(v):
                try:
                    bv=m.eval(z3.fpToIEEEBV(v),model_completion=True); return 'bits:%d'%bv.as_long()
                except Exception: return str(v)
            return str(v)
        for name,kind,t in st.ghost.get('in',()):
            if kind=='scalar': out.setdefault(name,[]).append(ev(t))
            elif kind=='array':
                n=ev(t[0]); n=n if isinstance(n,int) and n<=64 else 64
                rows=[]
                for i in range(n):
                    rows.append([ev(c(i)) for c in t[1]])
                out.setdefault(name,[]).append({'n':ev(t[0]),'data':rows})
        return out

    # ------------------------------------------------------------ memory access
    def wobj(s,st,oid):
        o=st.mem[oid]
        if o.owner!=st.id:
            o=o.clone(st.id); st.mem[oid]=o
        return o
    def getobj(s,st,p,what):
        if isinstance(p,Undef): s.oblig(st,FALSE,what+': pointer is uninitialised','safety'); raise PathEnd()
        if isinstance(p,PInt): p=p.p
        if isinstance(p,(int,)) : p=Ptr(0,p)
        if isinstance(p,FnPtr): raise Unsupported('data access to function')
        if isinstance(p,PCond): return s.getobj(st,s.resolve(st,p),what)
        if not isinstance(p,Ptr): raise Unsupported('access through '+repr(p))
        if p.oid==0:
            s.oblig(st,FALSE,what+': null or invalid pointer access','safety'); raise PathEnd()
        o=st.mem.get(p.oid)
        if o is None: raise Unsupported('missing object %r'%(p,))
        if not o.alive:
            s.oblig(st,FALSE,what+': access to freed memory (%s)'%o.name,'safety'); raise PathEnd()
        return o,p
    def conc(s,v):
        """try to make a bv concrete syntactically"""
        if isint(v): return v
        if isbv(v):
            w=z3.simplify(v)
            if z3.is_bv_value(w): return w.as_long()
        return v
    def load(s,st,p,ty):
        k=ty[0]
        if k=='s': return [s.load(st,s.padd(p,o),t) for t,o in zip(ty[1],ty[2])]
        if k in('a','v'): return [s.load(st,s.padd(p,i*ty[3]),ty[2]) for i in range(ty[1])]
        nb=s.mod.size(ty)
        o,p=s.getobj(st,p,'load')
        v=s.load_raw(st,o,p,nb,ty)
        return s.as_type(st,v,ty)
    def padd(s,p,c):
        if c==0: return p
        if isinstance(p,PInt): p=p.p
        if isinstance(p,Undef): return p
        if isinstance(p,PCond): return PCond(p.c,s.padd(p.a,c),s.padd(p.b,c))
        if isint(p): p=Ptr(0,p)
        if isinstance(p,FnPtr): raise Unsupported('fn arithmetic')
        return Ptr(p.oid,s64(ladd(p.off,c)) if isint(p.off) and isint(c) else ladd(p.off,c),p.idx)
    def load_raw(s,st,o,p,nb,ty):
        if p.idx is not None:
            return s.fam_load(st,o,p,nb,ty)
        if o.kind=='cells':
            off=p.off
            if not isint(off):
                off=s.conc(off)
                if isint(off): off=s64(off)
            if isint(off):
                if off<0 or off+nb>o.size:
                    s.oblig(st,FALSE,'load out of bounds of %s (offset %d size %d of %d)'%(o.name,off,nb,o.size),'safety'); raise PathEnd()
                return s.cell_read(st,o,off,nb,ty)
            return s.cell_read_sym(st,o,off,nb,ty)
        idx,sub=s.arr_index(st,o,p.off,nb,'load')
        return s.col_read(st,o,idx,sub,nb,ty)
    def arr_count(s,o):
        if o.count is None:
            if o.esz is None: raise Unsupported('array without layout')
            if isint(o.size): o.count=o.size//o.esz
            else:
                c=ldiv_exact(o.size,o.esz)
                o.count=c if c is not None else z3.UDiv(o.size,bvv(o.esz,64))
        return o.count
    def set_layout(s,o,off,nb):
        c,d=lin(o.size); g=0
        for t,co in d.values(): g=math.gcd(g,abs(s64(co)))
        c2,d2=lin(off)
        for t,co in d2.values(): g=math.gcd(g,abs(s64(co)))
        if g==0: g=nb
        if g<nb: raise Unsupported('cannot determine element size (%s,%s)'%(o.size,nb))
        o.esz=g; o.count=None
    def arr_index(s,st,o,off,nb,what):
        if o.esz is None:
            o=s.wobj(st,o.oid); s.set_layout(o,off,nb)
        r=ldivmod(off,o.esz)
        if r is None and not o.cols:
            o=s.wobj(st,o.oid)
            c,d=lin(off); g=o.esz
            for t,co in d.values(): g=math.gcd(g,abs(s64(co)))
            if g<nb: raise Unsupported('element size mismatch')
            o.esz=g; o.count=None
            r=ldivmod(off,o.esz)
        if r is None: raise Unsupported('misaligned symbolic access to %s: %s / %s'%(o.name,off,o.esz))
        idx,sub=r
        n=s.arr_count(o)
        if sub+nb>o.esz: raise Unsupported('access across elements of %s'%o.name)
        g=z3.ULT(tobv(idx,64),tobv(n,64)) if not (isint(idx) and isint(n)) else (0<=s64(idx)<n)
        if s.quiet: s.bounds_seen.append((idx,n))
        s.oblig(st,g,'%s within bounds of %s'%(what,o.name),'safety')
        return idx,sub
    def col_key(s,o,sub,nb):
        return (sub,nb)
    def col_read(s,st,o,idx,sub,nb,ty):
        col=o.cols.get((sub,nb))
        if col is None:
            for (cs,cn) in o.cols:
                if cs<sub+nb and sub<cs+cn:
                    return s.col_read_mixed(st,o,idx,sub,nb,ty)
            o=s.wobj(st,o.oid)
            col=s.uf_col(o.name+'@%d'%sub,ty if ty[0]!='p' else ('p',))
            o.cols[(sub,nb)]=col
        return s.colval(st,col,idx)
    def col_read_mixed(s,st,o,idx,sub,nb,ty):
        parts=[]; q=sub
        while q<sub+nb:
            best=[cn for (cs,cn) in o.cols if cs==q and q+cn<=sub+nb]
            if not best: raise Unsupported('mixed column read %s'%o.name)
            n=max(best); parts.append((n,s.colval(st,o.cols[(q,n)],idx))); q+=n
        return Pieces(parts)
    def uf_col(s,name,ty):
        c=Col('uf',ty); nm=fresh_name('A.'+name); c.ufname=nm
        if ty[0]=='i':
            c.a=z3.Function(nm,z3.BitVecSort(64),z3.BitVecSort(ty[1] if ty[1]>1 else 8))
        elif ty[0]=='f': c.a=z3.Function(nm,z3.BitVecSort(64),s.fsort(ty[1]))
        elif ty[0]=='p': c.a=None
        else: raise Unsupported('column type')
        return c
    def vite(s,c,a,b):
        """merge two values"""
        if a is b: return a
        if isinstance(c,int): return a if c else b
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isinstance(a,list): return [s.vite(c,x,y) for x,y in zip(a,b)]
        if isinstance(a,Undef): return b
        if isinstance(b,Undef): return a
        if isinstance(a,int) and isinstance(b,int) and a==b: return a
        fa=isinstance(a,(Fraction,FSpec)) or z3.is_real(a) if not isinstance(a,(int,Ptr,FnPtr,PInt,Pieces,FBits)) else False
        fb=isinstance(b,(Fraction,FSpec)) or z3.is_real(b) if not isinstance(b,(int,Ptr,FnPtr,PInt,Pieces,FBits)) else False
        if fa or fb:
            if isinstance(a,Fraction) and isinstance(b,Fraction) and a==b: return a
            if isinstance(a,FSpec) and isinstance(b,FSpec) and a.k==b.k: return a
            return z3.If(c,s.rt(a),s.rt(b))
        if isinstance(a,z3.FPRef) or isinstance(b,z3.FPRef): return z3.If(c,a,b)
        if isinstance(a,(Ptr,FnPtr,PCond)) or isinstance(b,(Ptr,FnPtr,PCond)):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.oid==b.oid:
                off=s.vite64(c,a.off,b.off)
                if a.idx is None and b.idx is None: return Ptr(a.oid,off)
                if a.idx is not None and b.idx is not None: return Ptr(a.oid,off,s.vite64(c,a.idx,b.idx))
            if isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.name==b.name: return a
            return PCond(c,a,b)
        if isinstance(a,FBits) and isinstance(b,FBits): return FBits(s.vite(c,a.v,b.v),a.w)
        if isbool(a) or isbool(b): 
            if isinstance(a,int) and isinstance(b,int): return a if a==b else (c if a else z3.Not(c))
            return z3.If(c,tobool(a),tobool(b))
        if isinstance(a,PInt) and isinstance(b,PInt) and a.p.oid==b.p.oid: return PInt(s.vite(c,a.p,b.p))
        w=a.size() if isbv(a) else (b.size() if isbv(b) else None)
        if w is None:
            if isinstance(a,int) and isinstance(b,int): raise NeedWidth()
            w=64
        return z3.If(c,tobv(a,w),tobv(b,w))
    def vite64(s,c,a,b):
        if isint(a) and isint(b) and a==b: return a
        d=same_idx(a,b)
        if d: return a
        return z3.If(c,tobv(a,64),tobv(b,64))
    def viteT(s,c,a,b,ty):
        if isinstance(a,int) and isinstance(b,int) and ty[0]=='i':
            if a==b: return a
            if isinstance(c,int): return a if c else b
            if ty[1]==1: return c if a else z3.Not(c)
            return z3.If(c,bvv(a,ty[1]),bvv(b,ty[1]))
        return s.vite(c,a,b)
    def pure_index(s,e):
        """no array/function application inside (cached)"""
        i=e.get_id(); r=s._pure.get(i)
        if r is None: r=s._pure[i]=(e,not s.uf_apps(e))
        return r[1]
    def decide(s,st,c):
        """True/False when the path condition settles the index comparison c, else None"""
        c2=z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        if s.mode=='bounded' and not s.o.get('bdecide'): return None
        i=c2.get_id(); r=st.known.get(i)
        if r is not None: return r
        key=(i,len(st.pc),st.pc[-1].get_id() if st.pc else 0)
        u=s._undec.get(key)
        if u is not None: return None
        if s.ndecide>s.o.get('maxdecide',1500): return None
        s.ndecide+=1
        pure=[x for x in st.pc if s.pure_index(x)]
        t0=time.time(); res=None
        if s.pure_index(c2):
            sv=z3.SolverFor('QF_BV'); sv.set('timeout',400)
            sv.add(*pure)
            sv.push(); sv.add(z3.Not(c2)); r=sv.check(); sv.pop()
            if r==z3.unsat: res=True
            else:
                sv.add(c2); r2=sv.check()
                if r2==z3.unsat: res=False
        if res is None and st.facts and s.o.get('decide_facts',1):
            to=s.o.get('decide_ms',300)
            if s.check(st.pc+[z3.Not(c2)],st.facts,to)[0]==z3.unsat: res=True
            elif s.check(st.pc+[c2],st.facts,to)[0]==z3.unsat: res=False
        s.nquery+=1; s.tquery+=time.time()-t0
        if res is None: s._undec[key]=(c2,st.pc[-1] if st.pc else None)
        else: st.known[i]=res; st.notes=st.notes+(c2,)
        return res
    def pick(s,st,c,fa,fb,ty):
        d=s.decide(st,c)
        if d is True: return fa()
        if d is False: return fb()
        return s.viteT(c,fa(),fb(),ty)
    def colval(s,st,col,idx):
        k=col.kind
        if k=='uf':
            if col.ty[0]=='p': return UNDEF
            return col.a(tobv(idx,64))
        if k=='fn': return col.a(idx)
        if k=='store':
            e=same_idx(idx,col.a[0])
            if e is True: return col.a[1]
            if e is False: return s.colval(st,col.prev,idx)
            c=tobv(idx,64)==tobv(col.a[0],64)
            return s.pick(st,c,lambda:col.a[1],lambda:s.colval(st,col.prev,idx),col.ty)
        if k=='copy':  # a=(dst_start, n, srccol, src_start)
            d0,n,src,s0=col.a
            rel=lsub(idx,d0)
            if isint(rel) and isint(n):
                return s.colval(st,src,ladd(s0,rel)) if rel<n else s.colval(st,col.prev,idx)
            c=z3.ULT(tobv(rel,64),tobv(n,64))
            return s.pick(st,c,lambda:s.colval(st,src,ladd(s0,rel)),lambda:s.colval(st,col.prev,idx),col.ty)
        if k=='fill':
            d0,n,v=col.a
            rel=lsub(idx,d0)
            if isint(rel) and isint(n): return v if rel<n else s.colval(st,col.prev,idx)
            c=z3.ULT(tobv(rel,64),tobv(n,64))
            return s.pick(st,c,lambda:v,lambda:s.colval(st,col.prev,idx),col.ty)
        if k=='loop': # a=(list of (start, step, valfn)), t  : closed form of a loop's writes
            v=None; conds=[]
            for start,step,valfn,t in col.a:
                rel=lsub(idx,start)
                if step==1: kk=rel; ok=z3.ULT(tobv(kk,64),tobv(t,64))
                elif s64(step)==-1: kk=lsub(0,rel); ok=z3.ULT(tobv(kk,64),tobv(t,64))
                else:
                    q=ldivmod(rel,s64(step)) if s64(step)>0 else None
                    if q is not None and q[1]!=0: continue
                    if q is None:
                        q=ldiv_exact(rel,s64(step)); q=(q,0) if q is not None else None
                    if q is not None: kk=q[0]; ok=z3.ULT(tobv(kk,64),tobv(t,64))
                    else:
                        kk=z3.UDiv(tobv(rel,64),bvv(step,64)); ok=z3.And(z3.ULT(kk,tobv(t,64)),tobv(rel,64)==kk*bvv(step,64))
                d=s.decide(st,ok)
                if d is True: return valfn(kk)
                if d is None: conds.append((ok,valfn,kk))
            v=s.colval(st,col.prev,idx)
            for ok,valfn,kk in conds: v=s.viteT(ok,valfn(kk),v,col.ty)
            return v
        if k=='ite':
            c,a,b2=col.a
            return s.pick(st,c,lambda:s.colval(st,a,idx),lambda:s.colval(st,b2,idx),col.ty)
        raise Unsupported('col '+k)
    def cell_read(s,st,o,off,nb,ty):
        c=o.cells.get(off)
        if c is not None and c[0]==nb: return c[1]
        if o.meta=='external' : raise Unsupported('read of external global '+o.name)
        if o.initf and c is None:
            return s.zero(ty)
        # containing cell?
        parts=[]; q=off; end=off+nb
        while q<end:
            c=o.cells.get(q)
            if c is not None and q+c[0]<=end:
                parts.append((c[0],c[1])); q+=c[0]; continue
            # inside a bigger cell
            hit=None
            for b in range(q-7 if q>=7 else 0,q+1):
                cc=o.cells.get(b)
                if cc is not None and b+cc[0]>q: hit=(b,cc); break
            if hit is None:
                # uninitialised bytes up to next cell
                n=1
                while q+n<end and not any((bb in o.cells) for bb in (q+n,)): n+=1
                if n==nb:
                    v=s.undef(ty)
                    if isinstance(v,Undef): return v
                    o=s.wobj(st,o.oid); o.cells[off]=(nb,v); return v
                v=fresh('uninit',8*n); parts.append((n,v)); q+=n; continue
            b,cc=hit; n=min(b+cc[0],end)-q
            sh=8*(q-b); val=cc[1]
            parts.append((n,s.extract_bytes(val,cc[0],q-b,n))); q+=n
        if len(parts)==1: return parts[0][1]
        if all(isinstance(v,int) for n,v in parts):
            r=0; sh=0
            for n,v in parts: r|=v<<sh; sh+=8*n
            return r
        return Pieces(parts)
    def extract_bytes(s,val,size,o,n):
        if isinstance(val,Pieces):
            q=0
            for pn,pv in val.parts:
                if q==o and pn==n: return pv
                q+=pn
            val=pieces_bv(val)
        if isinstance(val,int): return (val>>(8*o))&((1<<(8*n))-1)
        if isbool(val): return val if o==0 else 0
        if isbv(val): return z3.simplify(z3.Extract(8*(o+n)-1,8*o,val)) if 8*(o+n)<=val.size() else 0
        if isinstance(val,(Ptr,)) and val.oid==0 and isint(val.off): return (val.off>>(8*o))&((1<<(8*n))-1)
        if isinstance(val,Fraction) and val==0: return 0
        if isinstance(val,FBits) or isinstance(val,z3.FPRef):
            if isinstance(val,FBits): val=val.v
            return z3.Extract(8*(o+n)-1,8*o,z3.fpToIEEEBV(val))
        raise Unsupported('partial read of '+repr(val))
    def value_set(s,t):
        """the constants a nested conditional can take, or None"""
        if z3.is_bv_value(t): return {t.as_long()}
        if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ITE:
            a=s.value_set(t.arg(1)); b=s.value_set(t.arg(2))
            if a is None or b is None or len(a|b)>64: return None
            return a|b
        if z3.is_app(t) and t.decl().kind() in(z3.Z3_OP_BADD,z3.Z3_OP_BMUL) and t.num_args()==2:
            a=s.value_set(t.arg(0)); b=s.value_set(t.arg(1))
            if a is None or b is None or len(a)*len(b)>64: return None
            add=t.decl().kind()==z3.Z3_OP_BADD
            return {((x+y) if add else x*y)&M64 for x in a for y in b}
        return None
    def cell_stride(s,o,off,nb):
        """candidate offsets for a symbolic access"""
        c,d=lin(off); g=0
        vs={c}
        for t,co in d.values():
            ts=s.value_set(t)
            if ts is None or len(ts)*len(vs)>64: vs=None; break
            vs={(a+b*co)&M64 for a in vs for b in ts}
        if vs is not None: return sorted(x for x in vs if x+nb<=o.size)
        for t,co in d.values(): g=math.gcd(g,abs(s64(co)))
        c=s64(c)
        if g==0: return [c]
        start=c%g
        r=list(range(start,o.size-nb+1,g))
        return r
    def cell_read_sym(s,st,o,off,nb,ty):
        offs=s.cell_stride(o,off,nb)
        if len(offs)>STRIDE_LIMIT: raise Unsupported('symbolic access to large object '+o.name)
        toff=tobv(off,64)
        if not offs: s.oblig(st,FALSE,'load within bounds of '+o.name,'safety'); raise PathEnd()
        ok=z3.And(z3.ULE(toff,bvv(o.size-nb,64)))
        s.oblig(st,ok,'load within bounds of %s'%o.name,'safety')
        if o.const and ty[0]=='i' and len(offs)>8:
            key=(o.oid,offs[0],nb,len(offs))
            step=offs[1]-offs[0]
            q=ldivmod(off,step)
            idx=q[0] if q else z3.UDiv(toff-offs[0],bvv(step,64))
            vals=[s.as_type(st,s.cell_read(st,o,x,nb,ty),ty) for x in offs]
            if all(isinstance(v,int) for v in vals):
                return s.muxtree(tobv(idx,64),vals,ty[1],0)
        # enumerate feasible offsets through ite
        if ty[0]=='p':
            return s.enum_ptr_read(st,o,off,offs,nb,ty)
        v=None
        for x in reversed(offs):
            cv=s.as_type(st,s.cell_read(st,o,x,nb,ty),ty)
            o=st.mem[o.oid]
            v=cv if v is None else s.viteT(toff==bvv(x,64),cv,v,ty)
        return v
    def enum_ptr_read(s,st,o,off,offs,nb,ty):
        toff=tobv(off,64); v=None
        for x in reversed(offs):
            cv=s.as_type(st,s.cell_read(st,o,x,nb,ty),ty)
            v=cv if v is None else s.viteT(toff==bvv(x,64),cv,v,ty)
        return v
    def muxtree(s,idx,vals,w,base):
        n=len(vals); bits=max(1,(n-1).bit_length())
        ex=[z3.Extract(i,i,idx)==bvv(1,1) for i in range(bits)]
        def rec(lo,b):
            if lo>=n: return None
            if b<0: return bvv(vals[lo],w)
            a=rec(lo,b-1); c=rec(lo+(1<<b),b-1)
            if c is None: return a
            if a.eq(c): return a
            return z3.If(ex[b],c,a)
        return rec(0,bits-1)
    def as_type(s,st,v,ty):
        k=ty[0]
        if isinstance(v,Undef):
            return s.undef(ty) if k!='p' else v
        if k=='p':
            if isinstance(v,(Ptr,FnPtr,PCond)): return v
            if isinstance(v,PInt): return v.p
            if isint(v): return Ptr(0,s64(v))
            if isinstance(v,Pieces): v=pieces_bv(v)
            if isbv(v):
                c=s.conc(v)
                if isint(c): return Ptr(0,s64(c))
                return Ptr(0,v)
            raise Unsupported('as ptr '+repr(v))
        if k=='i':
            w=ty[1]
            if isinstance(v,Ptr): 
                if v.oid==0: return v.off&M64 if isint(v.off) else v.off
                return PInt(v)
            if isinstance(v,FnPtr): return PInt(v)
            if isint(v): return v
            if isbv(v):
                if v.size()==w: return v
                if w==1: return s.b(z3.simplify(z3.Extract(0,0,v)==1))
                if v.size()>w: return z3.Extract(w-1,0,v)
                return z3.ZeroExt(w-v.size(),v)
            if isbool(v): return v if w==1 else tobv(v,w)
            if isinstance(v,(Pieces,PInt,FBits)): 
                if isinstance(v,Pieces) and all(isinstance(x,int) or isbv(x) or isbool(x) for _,x in v.parts): return pieces_bv(v)
                return v
            if isinstance(v,PCond): return v
            if isinstance(v,(Fraction,FSpec)) or z3.is_real(v):
                if isinstance(v,Fraction):
                    import struct
                    return struct.unpack('<I',struct.pack('<f',float(v)))[0] if w==32 else struct.unpack('<Q',struct.pack('<d',float(v)))[0]
                return FBits(v,w)
            if isinstance(v,z3.FPRef): return z3.fpToIEEEBV(v)
            raise Unsupported('as int '+repr(v))
        if k=='f':
            if isinstance(v,FBits): return v.v
            if isint(v):
                import struct
                if ty[1]==32: return s.fconst(struct.unpack('<f',struct.pack('<I',v&0xffffffff))[0],32)
                return s.fconst(struct.unpack('<d',struct.pack('<Q',v&M64))[0],64)
            if isbv(v):
                if s.fmode=='fp': return z3.fpBVToFP(v,s.fsort(ty[1]))
                c=s.conc(v)
                if isint(c): return s.as_type(st,c,ty)
                raise Unsupported('int bits as float')
            if isinstance(v,Pieces):
                return s.as_type(st,pieces_bv(v),ty)
            if isinstance(v,Ptr): return s.as_type(st,s.as_type(st,v,('i',64)),ty)
            return v
        return v
    def store(s,st,p,v,ty):
        k=ty[0]
        if k=='s':
            for t,o,x in zip(ty[1],ty[2],v): s.store(st,s.padd(p,o),x,t)
            return
        if k in('a','v'):
            for i in range(ty[1]): s.store(st,s.padd(p,i*ty[3]),v[i],ty[2])
            return
        nb=s.mod.size(ty)
        o,p=s.getobj(st,p,'store')
        if o.const: s.oblig(st,FALSE,'store to constant '+o.name,'safety'); raise PathEnd()
        if isinstance(v,Pieces) and o.kind=='cells' and p.idx is None and isint(p.off):
            q=0
            for n,x in v.parts:
                s.store_raw(st,o,s.padd(p,q),n,x,('i',8*n)); o=st.mem[o.oid]; q+=n
            return
        s.store_raw(st,o,p,nb,v,ty)
    def store_raw(s,st,o,p,nb,v,ty):
        if p.idx is not None: return s.fam_store(st,o,p,nb,v,ty)
        if o.kind=='cells':
            off=p.off
            if not isint(off):
                off=s.conc(off)
                if isint(off): off=s64(off)
            if isint(off):
                if off<0 or off+nb>o.size:
                    s.oblig(st,FALSE,'store out of bounds of %s (offset %d size %d of %d)'%(o.name,off,nb,o.size),'safety'); raise PathEnd()
                s.cell_write(st,o,off,nb,v); return
            offs=s.cell_stride(o,off,nb)
            if len(offs)>STRIDE_LIMIT: raise Unsupported('symbolic store to large object')
            toff=tobv(off,64)
            s.oblig(st,z3.ULE(toff,bvv(o.size-nb,64)) if o.size>=nb else FALSE,'store within bounds of %s'%o.name,'safety')
            for x in offs:
                old=s.as_type(st,s.cell_read(st,st.mem[o.oid],x,nb,ty),ty)
                s.cell_write(st,st.mem[o.oid],x,nb,s.viteT(toff==bvv(x,64),v,old,ty))
            return
        idx,sub=s.arr_index(st,o,p.off,nb,'store')
        o=s.wobj(st,o.oid)
        col=o.cols.get((sub,nb))
        if col is None:
            for (cs,cn) in list(o.cols):
                if cs<sub+nb and sub<cs+cn:
                    if isinstance(v,Pieces):
                        q=sub
                        for n,x in v.parts:
                            s.store_raw(st,st.mem[o.oid],s.padd(p,q-sub),n,x,('i',8*n)); q+=n
                        return
                    raise Unsupported('column overlap store in %s'%o.name)
            col=s.uf_col(o.name+'@%d'%sub,ty)
        o.cols[(sub,nb)]=Col('store',col.ty,col,(idx,v))
    def cell_write(s,st,o,off,nb,v):
        if o.owner!=st.id: o=s.wobj(st,o.oid)
        cells=o.cells
        c=cells.get(off)
        if c is None or c[0]!=nb:
            for b in range(off-7 if off>=7 else 0,off+nb):
                cc=cells.get(b)
                if cc is not None and b+cc[0]>off and b!=off or (cc is not None and b==off and cc[0]>nb):
                    # split
                    del cells[b]
                    if b<off:
                        n=off-b
                        cells[b]=(n,s.extract_bytes(cc[1],cc[0],0,n))
                    if b+cc[0]>off+nb:
                        n=b+cc[0]-off-nb
                        cells[off+nb]=(n,s.extract_bytes(cc[1],cc[0],off+nb-b,n))
                elif cc is not None and b>=off: del cells[b]
        cells[off]=(nb,v)
    # family objects (symbolically many objects of one shape)
    def fam_load(s,st,o,p,nb,ty):
        if not isint(p.off): raise Unsupported('family symbolic offset')
        col=o.cols.get((p.off,nb))
        if col is None:
            o=s.wobj(st,o.oid); col=s.uf_col(o.name+'.%d'%p.off,ty); o.cols[(p.off,nb)]=col
        return s.colval(st,col,p.idx)
    def fam_store(s,st,o,p,nb,v,ty):
        if not isint(p.off): raise Unsupported('family symbolic offset')
        o=s.wobj(st,o.oid)
        col=o.cols.get((p.off,nb))
        if col is None: col=s.uf_col(o.name+'.%d'%p.off,ty)
        o.cols[(p.off,nb)]=Col('store',col.ty,col,(p.idx,v))

    # ------------------------------------------------------------ block memory operations
    def obj_as_cols(s,st,o,esz,cols_wanted=None):
        """view of a cells object as columns of element size esz (for symbolic length copies)"""
        keys=set()
        for off,(n,v) in o.cells.items(): keys.add((off%esz,n))
        if not keys: keys={(0,esz)}
        out={}
        for (sub,n) in keys:
            cnt=o.size//esz
            sample=[o.cells.get(i*esz+sub) for i in range(cnt)]
            def fn(idx,sub=sub,n=n,cnt=cnt,oid=o.oid,snap=o):
                tyv=None
                for i in range(cnt):
                    c=snap.cells.get(i*esz+sub)
                    if c is not None: tyv=c[1]; break
                ty=s.guess_ty(tyv,n)
                if isint(idx):
                    return s.as_type(st,s.cell_read(st,snap,idx*esz+sub,n,ty),ty) if idx<cnt else s.undef(ty)
                v=s.undef(ty)
                for i in range(cnt):
                    cv=snap.cells.get(i*esz+sub)
                    if cv is None or cv[0]!=n: continue
                    v=s.viteT(tobv(idx,64)==bvv(i,64),cv[1],v,ty)
                return v
            tyv=next((c[1] for c in sample if c is not None),None)
            out[(sub,n)]=Col('fn',s.guess_ty(tyv,n),None,fn)
        return out
    def guess_ty(s,v,n):
        if v is None: return ('i',8*n)
        if isinstance(v,(Ptr,FnPtr,PCond)): return ('p',)
        if isinstance(v,(Fraction,FSpec,z3.FPRef)) or (isinstance(v,z3.ExprRef) and z3.is_real(v)): return ('f',8*n)
        return ('i',8*n)
    def memcopy(s,st,d,sr,n,what):
        n=s.conc(n)
        if isint(n) and n==0: return
        od,d=s.getobj(st,d,what) if not (isinstance(d,Ptr) and d.oid==0 and not isint(n)) else (None,d)
        os_,sr=s.getobj(st,sr,what) if not (isinstance(sr,Ptr) and sr.oid==0 and not isint(n)) else (None,sr)
        if od is None or os_ is None:
            s.oblig(st,tobv(n,64)==0,what+' with null pointer copies nothing','safety'); return
        if isint(n) and od.kind=='cells' and os_.kind=='cells' and isint(d.off) and isint(sr.off) and d.idx is None and sr.idx is None:
            if sr.off<0 or sr.off+n>os_.size: s.oblig(st,FALSE,'%s: source range within %s (%d+%d of %d)'%(what,os_.name,sr.off,n,os_.size),'safety'); raise PathEnd()
            if d.off<0 or d.off+n>od.size: s.oblig(st,FALSE,'%s: destination range within %s (%d+%d of %d)'%(what,od.name,d.off,n,od.size),'safety'); raise PathEnd()
            items=[]
            q=sr.off; end=sr.off+n
            src=os_
            while q<end:
                c=src.cells.get(q)
                if c is not None and q+c[0]<=end: items.append((q-sr.off,c[0],c[1])); q+=c[0]
                elif c is not None: items.append((q-sr.off,end-q,s.extract_bytes(c[1],c[0],0,end-q))); q=end
                else:
                    hit=False
                    for b in range(max(0,q-7),q):
                        cc=src.cells.get(b)
                        if cc is not None and b+cc[0]>q:
                            m=min(b+cc[0],end)-q; items.append((q-sr.off,m,s.extract_bytes(cc[1],cc[0],q-b,m))); q+=m; hit=True; break
                    if not hit:
                        if src.initf: items.append((q-sr.off,1,0))
                        q+=1
            o=s.wobj(st,od.oid)
            # clear destination range
            for b in range(max(0,d.off-7),d.off+n):
                cc=o.cells.get(b)
                if cc is None or b+cc[0]<=d.off: continue
                if b<d.off or b+cc[0]>d.off+n:
                    s.cell_write(st,o,max(b,d.off),min(b+cc[0],d.off+n)-max(b,d.off),0)
                    o.cells.pop(max(b,d.off),None)
                else: del o.cells[b]
            for off,m,v in items: o.cells[d.off+off]=(m,v)
            return
        if d.idx is not None or sr.idx is not None:
            if isint(n): return s.memcopy_small(st,d,sr,n,what)
            raise Unsupported('family block copy')
        # at least one array or symbolic
        esz=os_.esz if os_.kind=='arr' else None
        if esz is None and od.kind=='arr': esz=od.esz
        if esz is None:
            for o in (os_,od):
                if o.kind=='arr':
                    c,dd=lin(o.size); g=0
                    for t,co in dd.values(): g=math.gcd(g,abs(s64(co)))
                    for x in (n,d.off,sr.off):
                        for t,co in lin(x)[1].values(): g=math.gcd(g,abs(s64(co)))
                    esz=g or None; 
                    if esz: break
        if esz is None:
            c,dd=lin(n); g=0
            for t,co in dd.values(): g=math.gcd(g,abs(s64(co)))
            for off in (d.off,sr.off):
                c2,d2=lin(off)
                for t,co in d2.values(): g=math.gcd(g,abs(s64(co)))
                g=math.gcd(g,abs(s64(c2)))
            g=math.gcd(g,abs(s64(c))) if c else g
            esz=g or 1
        if isint(n) and n<=64 and (os_.kind=='cells' or n%esz): 
            return s.memcopy_small(st,d,sr,n,what)
        # element conversion
        def todiv(x):
            r=ldiv_exact(x,esz)
            if r is None: raise Unsupported('block copy not element aligned: %s / %d'%(x,esz))
            return r
        cnt=todiv(n); di=todiv(d.off); si=todiv(sr.off)
        if os_.kind=='arr' and os_.esz is None: os_=s.wobj(st,os_.oid); os_.esz=esz; os_.count=None
        if od.kind=='arr' and od.esz is None: od=s.wobj(st,od.oid); od.esz=esz; od.count=None
        if od.kind=='arr' and od.esz!=esz:
            if not od.cols: od=s.wobj(st,od.oid); od.esz=esz; od.count=None
            else: raise Unsupported('block copy between layouts')
        nsrc=s.arr_count(os_) if os_.kind=='arr' else os_.size//esz
        ndst=s.arr_count(od) if od.kind=='arr' else od.size//esz
        def rng(i,c,tot):
            i,c,tot=tobv(i,64),tobv(c,64),tobv(tot,64)
            return z3.Or(c==0,z3.And(z3.ULE(i,tot),z3.ULE(c,tot-i)))
        s.oblig(st,s.simp(rng(si,cnt,nsrc)),'%s: source range within %s'%(what,os_.name),'safety')
        s.oblig(st,s.simp(rng(di,cnt,ndst)),'%s: destination range within %s'%(what,od.name),'safety')
        if what=='memcpy' and od.oid==os_.oid:
            a,b2,c=tobv(di,64),tobv(si,64),tobv(cnt,64)
            s.oblig(st,s.simp(z3.Or(c==0,z3.ULE(a+c,b2),z3.ULE(b2+c,a))),'memcpy ranges do not overlap','safety')
        if os_.kind=='arr':
            scols=os_.cols
            if not scols: return  # copying uninitialised
        else: scols=s.obj_as_cols(st,os_,esz)
        if od.kind=='arr':
            o=s.wobj(st,od.oid); base=dict(o.cols)
            for (sub,nb),sc in scols.items():
                pc=base.get((sub,nb))
                if pc is None: pc=s.uf_col(o.name+'@%d'%sub,sc.ty)
                o.cols[(sub,nb)]=Col('copy',sc.ty,pc,(di,cnt,sc,si))
        else:
            # symbolic copy into cells object
            m=od.size//esz
            vals=[]
            for (sub,nb),sc in scols.items():
                for i in range(m):
                    rel=lsub(i,di)
                    c=s.b(s.simp(z3.ULT(tobv(rel,64),tobv(cnt,64))))
                    if isinstance(c,int) and not c: continue
                    nv=s.colval(st,sc,ladd(si,rel))
                    vals.append((i*esz+sub,nb,c,nv,sc.ty))
            for off,nb,c,nv,ty in vals:
                old=s.as_type(st,s.cell_read(st,st.mem[od.oid],off,nb,ty),ty)
                s.cell_write(st,st.mem[od.oid],off,nb,s.viteT(c,nv,old,ty))
    def simp(s,c): return z3.simplify(c)
    def memcopy_small(s,st,d,sr,n,what):
        # piecewise by source columns/cells
        o,p=s.getobj(st,sr,what)
        pieces=[]
        if o.kind=='arr' or p.idx is not None:
            if p.idx is None:
                if o.esz is None: o=s.wobj(st,o.oid); s.set_layout(o,p.off,min(n,8))
                q=0
                while q<n:
                    r=ldivmod(ladd(p.off,q),o.esz)
                    if r is None: raise Unsupported('small copy misaligned')
                    cand=[nb for (sub,nb) in o.cols if sub==r[1]]
                    if not cand:
                        nb=1 if o.esz==1 else min(o.esz-r[1],n-q,8); 
                        while nb&(nb-1): nb-=1
                    else: nb=max(x for x in cand)
                    if nb>n-q: raise Unsupported('small copy splits element')
                    ty=o.cols[(r[1],nb)].ty if (r[1],nb) in o.cols else ('i',8*nb)
                    pieces.append((q,nb,s.load(st,s.padd(p,q),ty),ty)); q+=nb; o=st.mem[o.oid]
            else:
                q=0
                while q<n:
                    cand=[nb for (sub,nb) in o.cols if sub==p.off+q]
                    if not cand: raise Unsupported('family small copy')
                    nb=max(cand); ty=o.cols[(p.off+q,nb)].ty
                    pieces.append((q,nb,s.load(st,s.padd(p,q),ty),ty)); q+=nb
        else:
            off=p.off
            if not isint(off): 
                q=0
                # choose 1-byte or aligned pieces according to the cells
                sizes={c[0] for c in o.cells.values()}
                nb=sizes.pop() if len(sizes)==1 else 1
                while q<n:
                    pieces.append((q,nb,s.load(st,s.padd(p,q),('i',8*nb)),('i',8*nb))); q+=nb
            else:
                if off<0 or off+n>o.size: s.oblig(st,FALSE,'%s: source range within %s'%(what,o.name),'safety'); raise PathEnd()
                q=off
                while q<off+n:
                    c=o.cells.get(q)
                    if c is not None and q+c[0]<=off+n:
                        pieces.append((q-off,c[0],c[1],s.guess_ty(c[1],c[0]))); q+=c[0]
                    else:
                        c2=s.cell_read(st,o,q,1,('i',8)); o=st.mem[o.oid]
                        pieces.append((q-off,1,c2,('i',8))); q+=1
        for q,nb,v,ty in pieces:
            if isinstance(v,Undef) and ty[0]!='p': v=s.undef(ty)
            s.store(st,s.padd(d,q),v,ty if ty[0]!='i' or ty[1]%8==0 else ('i',8*nb))
    def memfill(s,st,d,v,n):
        n=s.conc(n)
        if isint(n) and n==0: return
        o,d=s.getobj(st,d,'memset')
        if isint(n) and o.kind=='cells' and isint(d.off):
            if d.off<0 or d.off+n>o.size: s.oblig(st,FALSE,'memset range within %s'%o.name,'safety'); raise PathEnd()
            o=s.wobj(st,o.oid)
            q=0
            while q<n:
                m=8 if (n-q>=8 and isint(v)) else 1
                while m>1 and (d.off+q)%m: m//=2
                val=v
                if isint(v) and m>1: val=int.from_bytes(bytes([v&255])*m,'little')
                s.cell_write(st,o,d.off+q,m,val); q+=m
            return
        if o.kind=='cells':
            cnt=o.size
            t=tobv(d.off,64); nn=tobv(n,64)
            s.oblig(st,z3.And(z3.ULE(t,bvv(o.size,64)),z3.ULE(nn,bvv(o.size,64)-t)),'memset range within %s'%o.name,'safety')
            for i in range(cnt):
                c=z3.ULT(bvv(i,64)-t,nn)
                old=s.as_type(st,s.cell_read(st,st.mem[o.oid],i,1,('i',8)),('i',8))
                s.cell_write(st,st.mem[o.oid],i,1,s.viteT(s.b(s.simp(c)),v,old,('i',8)))
            return
        if o.esz is None:
            o=s.wobj(st,o.oid); s.set_layout(o,d.off,1)
        cnt=ldiv_exact(n,o.esz); di=ldiv_exact(d.off,o.esz)
        if cnt is None or di is None: raise Unsupported('memset alignment')
        tot=s.arr_count(o)
        a,b2,c=tobv(di,64),tobv(tot,64),tobv(cnt,64)
        s.oblig(st,s.simp(z3.And(z3.ULE(a,b2),z3.ULE(c,b2-a))),'memset range within '+o.name,'safety')
        o=s.wobj(st,o.oid)
        if not o.cols:
            o.cols[(0,o.esz)]=s.uf_col(o.name+'@0',('i',8*o.esz)) if o.esz<=8 else None
            if o.cols[(0,o.esz)] is None: del o.cols[(0,o.esz)]; raise Unsupported('memset of unknown layout')
        for (sub,nb),col in list(o.cols.items()):
            if isint(v): val=int.from_bytes(bytes([v&255])*nb,'little')
            elif nb==1: val=v
            else: raise Unsupported('memset symbolic')
            val=s.as_type(st,val,col.ty)
            o.cols[(sub,nb)]=Col('fill',col.ty,col,(di,cnt,val))

