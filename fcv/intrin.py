"""Contract intrinsics (fcv_*) as seen by the verifier."""
import z3
from fractions import Fraction
from .vals import *
from .mem import *
from .engine import *
from .interp import *
from . import loops

class Verifier(loops.Loops):
    def add_input(s,st,n,kind,t): st.ghost['in']=st.ghost.get('in',())+((n,kind,t),)
    def __init__(s,mod,mode='proof',fmode='real',opts=None,choice=None):
        super().__init__(mod,mode,fmode,opts)
        s._ccache={}; s.strict=False; s.cutset=set(); s.force_unroll=False; s.cutoff=False
        s.choice=choice or {}; s.lenvars=[]; s.covers={}; s.contracts={}

def scal(name,w,kind):
    def f(s,st,a,ty):
        n=s.name_arg(st,a[0])
        if n in s.choice:
            v=s.choice[n]
            s.add_input(st,n,'scalar',v); return v
        if kind=='bool': v=fresh(n,'bool')
        elif kind=='f': v=s.ffresh(n,w)
        else: v=fresh(n,w)
        s.add_input(st,n,'scalar',v)
        return v
    return f
for w in (8,16,32,64): BUILTINS['fcv_u%d'%w]=scal('',w,'i'); BUILTINS['fcv_i%d'%w]=BUILTINS['fcv_u%d'%w]
BUILTINS['fcv_float']=scal('',32,'f'); BUILTINS['fcv_double']=scal('',64,'f'); BUILTINS['fcv_bool']=scal('',1,'bool')
BUILTINS['fcv_angle']=BUILTINS['fcv_float']

@bi('fcv_small')
def x_small(s,st,a,ty):
    # a small case selector: enumerated completely (concretely) in every mode
    n=s.name_arg(st,a[0]); lo=a[1]; hi=a[2]
    out=[]
    for v in range(lo,hi+1):
        if n in s.choice and s.choice[n]!=v: continue
        o=st.fork(); o.ghost=dict(o.ghost); out.append((o,v))
    if n not in s.sel: s.sel[n]=(lo,hi)
    pass
    for o,v in out: s.add_input(o,n,'scalar',v)
    return ('fork',out)
Verifier.sel={}
@bi('fcv_len')
def x_len(s,st,a,ty):
    n=s.name_arg(st,a[0]); mx=a[1]
    if n in s.choice:
        v=s.choice[n]; s.add_input(st,n,'scalar',v); return v
    s.lenvars.append((n,mx))
    if s.mode=='bounded':
        v=s.choice.get(n,0); s.add_input(st,n,'scalar',v); return v
    v=fresh(n,64)
    st.pc.append(z3.ULT(v,bvv(1<<28,64)))
    s.note_assume(st,'array and text lengths below 2^28 (the containers assert counts below INT_MAX)')
    s.add_input(st,n,'scalar',v)
    return v
KINDS={0:'i',1:'f',2:'text',3:'f'}
@bi('fcv_arr')
def x_arr(s,st,a,ty):
    """fcv_arr(name,count,esz,kind): heap array with arbitrary content. kind 2: zero-terminated text of `count` characters"""
    n=s.name_arg(st,a[0]); cnt=s.conc(a[1]); esz=a[2]; kind=a[3]
    text=kind==2
    total=ladd(cnt,1) if text else cnt
    if isint(total) and total<=4096:
        o=s.new_obj(st,'cells',total*esz,'heap',n)
        ts=[]
        for i in range(total):
            if kind in(1,3): v=s.ffresh('%s[%d]'%(n,i),32 if kind==1 else 64)
            else: v=fresh('%s[%d]'%(n,i),8*esz)
            if text:
                if i==cnt: v=0
                else: st.pc.append(v!=bvv(0,8*esz))
            o.cells[i*esz]=(esz,v); ts.append(v)
        s.add_input(st,n,'array',(cnt,[lambda i,ts=ts: ts[i] if i<len(ts) else 0]))
        return Ptr(o.oid,0)
    o=s.new_obj(st,'arr',lmul(total,esz),'heap',n); o.esz=esz
    col=s.uf_col(n,('f',32 if kind==1 else 64) if kind in(1,3) else ('i',8*esz))
    o.cols[(0,esz)]=col
    if text:
        z=bvv(0,8*esz); f=col.a; c=tobv(cnt,64)
        st.pc.append(f(c)==z)
        st.facts=st.facts+(Fact({col.ufname:None},lambda idx: z3.Implies(z3.ULT(idx,c),f(idx)!=z),depth=2),)
    s.add_input(st,n,'array',(cnt,[lambda i,f=col.a: f(bvv(i,64))]))
    return Ptr(o.oid,0)
def b1(s,v):
    if isinstance(v,Undef): raise Unsupported('undefined condition')
    if isbv(v) and v.size()>1: return s.b(z3.simplify(v!=bvv(0,v.size())))
    return v
@bi('fcv_assume')
def x_assume(s,st,a,ty):
    c=b1(s,a[0])
    if isint(c):
        if not c: raise PathEnd()
        return
    s.add_pc(st,c)
    if not s.feasible(st,TRUE if False else z3.BoolVal(True)) and False: raise PathEnd()
    r,_=s.check(st.pc,st.facts,s.feas_to)
    if r==z3.unsat: raise PathEnd()
@bi('fcv_axiom')
def x_axiom(s,st,a,ty):
    c=b1(s,a[0]); s.assumed['axiom: '+s.name_arg(st,a[1])]=1
    if isint(c):
        if not c: raise PathEnd()
        return
    s.add_pc(st,c)
@bi('fcv_check')
def x_check(s,st,a,ty):
    c=b1(s,a[0]); nm=s.name_arg(st,a[1])
    s.checks_seen.add(nm)
    s.oblig(st,c if isint(c) else c,nm,'post')
@bi('fcv_cover')
def x_cover(s,st,a,ty):
    nm=s.name_arg(st,a[0])
    if s.covers.get(nm): return
    r,_=s.check(st.pc,st.facts,s.feas_to)
    if r!=z3.unsat: s.covers[nm]=True
    else: s.covers.setdefault(nm,False)
@bi('fcv_sk')
def x_sk(s,st,a,ty):
    lo,hi=a
    if isint(lo) and isint(hi) and s.mode=='bounded' or (isint(lo) and isint(hi) and hi-lo<=64):
        out=[]
        for v in range(lo,hi):
            o=st.fork(); out.append((o,v))
        if not out: raise PathEnd()
        return ('fork',out)
    k=fresh('sk',64)
    s.add_pc(st,z3.ULE(tobv(lo,64),k)); s.add_pc(st,z3.ULT(k,tobv(hi,64)))
    # make sure the range is not empty on this path
    r,_=s.check(st.pc,st.facts,s.feas_to)
    if r==z3.unsat: raise PathEnd()
    s.add_input(st,'sk','scalar',k)
    return k
def pure(s,st,fp,args,ty):
    if isinstance(fp,PInt): fp=fp.p
    if not isinstance(fp,FnPtr): raise Unsupported('specification function pointer')
    F=s.mod.funcs.get(fp.name)
    q=s.quiet; 
    return s.call_pure(st,F,args,ty)
@bi('fcv_assume_all')
def x_assume_all(s,st,a,ty):
    """fcv_assume_all(lo,hi,fn,ctx): for all lo<=k<hi: fn(ctx,k)"""
    lo,hi,fn,cx=a
    if isint(lo) and isint(hi):
        for i in range(lo,hi):
            v=b1(s,pure(s,st,fn,[cx,i],('i',1)))
            if isint(v):
                if not v: raise PathEnd()
            else: s.add_pc(st,v)
        return
    k=z3.BitVec(fresh_name('qk'),64)
    x=st.fork()
    x.pc.append(z3.And(z3.ULE(tobv(lo,64),k),z3.ULT(k,tobv(hi,64)))); n0=len(x.pc)
    mark=vals_cnt()
    sv=s.quiet; s.quiet=True
    try: v=b1(s,pure(s,x,fn,[cx,k],('i',1)))
    finally: s.quiet=sv
    if isint(v):
        if not v: s.add_pc(st,z3.Not(z3.ULT(tobv(lo,64),tobv(hi,64))))
        return
    for oid,o in x.mem.items():
        # lazily created columns
        if oid in st.mem and o.kind=='arr' and o is not st.mem[oid]:
            so=s.wobj(st,oid)
            if so.esz is None: so.esz=o.esz
            for kk,c in o.cols.items():
                if kk not in so.cols: so.cols[kk]=c
    trig=lin_triggers(s,v,k)
    L,H=tobv(lo,64),tobv(hi,64)
    st.facts=st.facts+(Fact(trig,lambda idx: z3.Implies(z3.And(z3.ULE(L,idx),z3.ULT(idx,H)),z3.substitute(v,(k,idx))),depth=2),)
def vals_cnt():
    from . import vals
    return vals._cnt[0]
def lin_triggers(s,e,k):
    trig={}
    for ai,app in s.uf_apps(e).items():
        if app.num_args()!=1: continue
        a=app.arg(0)
        if not isbv(a) or a.size()!=64: continue
        cc,d=lin(a); ent=d.get(k.get_id())
        if ent is None: continue
        co=s64(ent[1]); rest=lsub(a,lmul(k,co)); nm=app.decl().name()
        if nm in trig: continue
        if co==1: trig[nm]=lambda x,rest=rest: tobv(lsub(x,rest),64)
        elif co==-1: trig[nm]=lambda x,rest=rest: tobv(lsub(rest,x),64)
        else:
            def inv(x,rest=rest,co=co):
                dv=ldivmod(lsub(x,rest),abs(co))
                if dv is None: return z3.UDiv(tobv(lsub(x,rest),64),bvv(co,64)) if co>0 else None
                if dv[1]!=0: return None
                return tobv(dv[0] if co>0 else lsub(0,dv[0]),64)
            trig[nm]=inv
    return trig
def x_fold(s,st,a,ty):
    """fcv_fold_*(step,init,ctx,n): F(0)=init, F(k+1)=step(F(k),ctx,k)"""
    step,init,ctx,n=a
    n=s.conc(n)
    if isint(n):
        acc=init
        for i in range(n): acc=pure(s,st,step,[acc,ctx,i],ty)
        return acc
    name=step.name
    nm=fresh_name('F')
    so=z3.BitVecSort(ty[1]) if ty[0]=='i' else s.fsort(ty[1])
    if ty==('i',1): raise Unsupported('bool fold')
    F=z3.Function(nm,z3.BitVecSort(64),so)
    k=z3.BitVec(fresh_name('fk'),64); acc=z3.Const(fresh_name('facc'),so)
    x=st.fork(); x.pc.append(z3.ULT(k,tobv(n,64)))
    sv=s.quiet; s.quiet=True
    try: e=pure(s,x,step,[acc,ctx,k],ty)
    finally: s.quiet=sv
    for oid,o in x.mem.items():
        if oid in st.mem and o.kind=='arr' and o is not st.mem[oid]:
            so_=s.wobj(st,oid)
            if so_.esz is None: so_.esz=o.esz
            for kk,c in o.cols.items():
                if kk not in so_.cols: so_.cols[kk]=c
    tz=(lambda v: tobv(v,ty[1])) if ty[0]=='i' else (lambda v: s.rt(v) if s.fmode=='real' else v)
    ez=tz(e); z0=tz(init)
    def fact(idx):
        j=z3.simplify(idx-1)
        return z3.If(idx==0,F(idx)==z0,F(idx)==z3.substitute(ez,(k,j),(acc,F(j))))
    st.facts=st.facts+(Fact({nm:None},fact,depth=2),)
    s.folds.append({'fn':F,'ty':ty,'name':s.demname(name)})
    return F(tobv(n,64))
for t in ('u8','u32','u64','i32','float','double'): BUILTINS['fcv_fold_'+t]=x_fold
@bi('fcv_note_bounded')
def x_nb(s,st,a,ty): s.bounded_flag=True
@bi('fcv_live')
def x_live(s,st,a,ty):
    return sum(1 for o in st.mem.values() if o.tag=='heap' and o.alive)
@bi('fcv_objsize')
def x_objsize(s,st,a,ty):
    p=s.rp(st,a[0])
    o=st.mem.get(p.oid)
    if o is None or not o.alive: return 0
    return lsub(o.size,p.off)
@bi('fcv_valid')
def x_valid(s,st,a,ty):
    """is the pointer inside a live object (native: always true, address sanitizer decides)"""
    p=s.rp(st,a[0])
    if not isinstance(p,Ptr) or p.oid==0: return 0
    o=st.mem.get(p.oid)
    return int(o is not None and o.alive)
@bi('fcv_reset_folds')
def x_rf(s,st,a,ty): s.folds=[]
@bi('fcv_ptr_eq')
def x_pe(s,st,a,ty): return s.pcmp(st,'eq',a[0],a[1])

# --- formatted output (trusted contract of the C library)
def digits(s,st,v,w,width,out):
    """[(state, list of character values)] for the decimal digits of the unsigned v, at least `width` of them"""
    if isint(v):
        return [(st,[ord(c) for c in str(v).rjust(width,'0')])]
    mx=len(str((1<<w)-1)); W=w+8; res=[]
    V=z3.ZeroExt(8,tobv(v,w))
    for n in range(max(width,1),mx+1):
        o=st.fork()
        ds=[fresh('digit',4) for _ in range(n)]
        for d in ds: o.pc.append(z3.ULE(d,bvv(9,4)))
        t=bvv(0,W)
        for i,d in enumerate(ds): t=t+z3.ZeroExt(W-4,d)*bvv(10**(n-1-i),W)
        o.pc.append(V==t)
        t=bvv(0,w)
        for i,d in enumerate(ds): t=t+z3.ZeroExt(w-4,d)*bvv(10**(n-1-i)%(1<<w),w)
        o.pc.append(tobv(v,w)==t)
        if n>max(width,1): o.pc.append(ds[0]!=bvv(0,4))
        lo=0 if n<=max(width,1) else 10**(n-1); hi=10**n-1
        if lo: o.pc.append(z3.UGE(V,bvv(lo,W)))
        if hi<(1<<w): o.pc.append(z3.ULE(V,bvv(hi,W)))
        r,_=s.check(o.pc,o.facts,s.feas_to)
        if r==z3.unsat: continue
        res.append((o,[z3.Concat(bvv(3,4),d) for d in ds]))
    return res
@bi('snprintf')
def x_snprintf(s,st,a,ty):
    fmt=s.cstr(st,s.rp(st,a[2])); n=a[1]; args=list(a[3:]); dst=s.rp(st,a[0])
    if not isint(n): raise Unsupported('snprintf size')
    s.assumed['contract of the C library: snprintf writes the decimal digits of its integer arguments']=1
    import re as _re
    states=[(st,[])]; ai=0
    for tok in _re.findall(r'%[0-9]*(?:ll|l)?[a-zA-Z%]|[^%]',fmt):
        if tok[0]!='%': states=[(o,cs+[ord(tok)]) for o,cs in states]; continue
        m=_re.fullmatch(r'%(0?)([0-9]*)(ll|l)?([a-zA-Z%])',tok)
        if m is None or m.group(4) not in 'uid' or (m.group(2) and not m.group(1)): raise Unsupported('format '+tok)
        w=64 if m.group(3) else 32; width=int(m.group(2) or 0); v=args[ai]; ai+=1; nx=[]
        for o,cs in states:
            if m.group(4)=='u': parts=[(o,[],v)]
            elif isint(v): parts=[(o,[45],(1<<w)-v)] if v>>(w-1) else [(o,[],v)]
            else:
                p=o.fork(); q=o.fork(); b=tobv(v,w); p.pc.append(b>=0); q.pc.append(b<0); parts=[]
                for x,pre,val in ((p,[],b),(q,[45],-b)):
                    if s.check(x.pc,x.facts,s.feas_to)[0]!=z3.unsat: parts.append((x,pre,val))
            for x,pre,val in parts:
                for y,ds in digits(s,x,val,w,width,None): nx.append((y,cs+pre+ds))
        states=nx
    out=[]
    for o,cs in states:
        o=o.fork()
        if n>0:
            k=[*cs[:n-1],0]
            for i,c in enumerate(k): s.store(o,s.padd(dst,i),c,('i',8))
        out.append((o,len(cs)))
    return ('fork',out)
