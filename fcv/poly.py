"""Polynomial back end for obligations over the reals.

Every arithmetic atom of the path condition and of the negated goal is brought to a normal form (a polynomial over the
atoms of the obligation, denominators cleared, reduced with the equations of the path condition used as rewriting rules)
and then handed to linear arithmetic with every remaining monomial as an independent unknown.  Each real solution of the
original constraints gives a solution of the linear ones, so an unsatisfiable linear system proves the obligation."""
import z3, time, math
from fractions import Fraction
class GiveUp(Exception): pass
MAXMON=6000
ARITH={z3.Z3_OP_LE,z3.Z3_OP_GE,z3.Z3_OP_LT,z3.Z3_OP_GT}
def padd(a,b,k=1):
    if len(a)<len(b) and k==1: a,b=b,a
    r=dict(a)
    for m,c in b.items():
        v=r.get(m,0)+c*k
        if v==0: r.pop(m,None)
        else: r[m]=v
    return r
def mmul(m,n):
    if not m: return n
    if not n: return m
    d=dict(m)
    for v,e in n: d[v]=d.get(v,0)+e
    return tuple(sorted(d.items()))
def pmul(a,b):
    r={}
    if len(a)*len(b)>400000: raise GiveUp()
    for m,c in a.items():
        for n,d in b.items():
            k=mmul(m,n); v=r.get(k,0)+c*d
            if v==0: r.pop(k,None)
            else: r[k]=v
    if len(r)>MAXMON: raise GiveUp()
    return r
def pscale(a,k): return {m:c*k for m,c in a.items()} if k else {}
def const(a):
    if not a: return Fraction(0)
    if len(a)==1 and () in a: return a[()]
    return None
def okey(m): return (sum(e for _,e in m),tuple(sorted(((v,e) for v,e in m),reverse=True)))
def mdiv(m,n):
    """m/n or None"""
    d=dict(m)
    for v,e in n:
        x=d.get(v,0)-e
        if x<0: return None
        if x: d[v]=x
        else: d.pop(v,None)
    return tuple(sorted(d.items()))
class Ctx:
    def __init__(s,eng,deadline):
        s.eng=eng; s.atom={}; s.atoms=[]; s.keep=[]; s.inv={}; s.invd={}; s.cache={}; s.rules=[]; s.deadline=deadline; s.mono={}; s.rcache={}
    def var(s,e):
        i=e.get_id(); v=s.atom.get(i)
        if v is None:
            v=len(s.atoms); s.atoms.append(e); s.atom[i]=v
        return v
    def tick(s):
        if time.time()>s.deadline: raise GiveUp()
    def poly(s,e):
        i=e.get_id(); r=s.cache.get(i)
        if r is not None: return r
        r=s.poly0(e); s.cache[i]=r; s.keep.append(e)
        return r
    def poly0(s,e):
        if z3.is_rational_value(e): 
            f=e.as_fraction(); return {():Fraction(f)} if f else {}
        if z3.is_int_value(e): return {():Fraction(e.as_long())} if e.as_long() else {}
        if not z3.is_app(e): raise GiveUp()
        k=e.decl().kind(); ch=e.children()
        if k==z3.Z3_OP_ADD:
            r={}
            for c in ch: r=padd(r,s.poly(c))
            if len(r)>MAXMON: raise GiveUp()
            return r
        if k==z3.Z3_OP_SUB:
            r=s.poly(ch[0])
            for c in ch[1:]: r=padd(r,s.poly(c),-1)
            return r
        if k==z3.Z3_OP_UMINUS: return pscale(s.poly(ch[0]),-1)
        if k==z3.Z3_OP_MUL:
            r=s.poly(ch[0])
            for c in ch[1:]: r=pmul(r,s.poly(c))
            return r
        if k==z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long()==1 and 0<=ch[1].numerator_as_long()<=12:
            r={():Fraction(1)}; b=s.poly(ch[0])
            for _ in range(ch[1].numerator_as_long()): r=pmul(r,b)
            return r
        if k==z3.Z3_OP_DIV:
            n=s.poly(ch[0]); d=s.poly(ch[1]); c=const(d)
            if c is not None:
                if c==0: raise GiveUp()
                return pscale(n,1/c)
            return pmul(n,s.inverse(d))
        if k==z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]): return {():Fraction(ch[0].as_long())}
        for c in ch:
            if z3.is_real(c) and k!=z3.Z3_OP_ITE: s.poly(c)
        return {((s.var(e),1),):Fraction(1)}
    def inverse(s,d):
        """1/d as a polynomial: a fresh atom per normalised denominator (monic)"""
        lead=max(d,key=okey); lc=d[lead]
        if len(d)==1:
            r={():1/lc}
            for v,e in lead:
                t=s.invatom({((v,1),):Fraction(1)})
                r=pmul(r,{((t,e),):Fraction(1)})
            return r
        mon=pscale(d,1/lc)
        return {((s.invatom(mon),1),):1/lc}
    def invatom(s,d):
        key=tuple(sorted(d.items()))
        t=s.inv.get(key)
        if t is None:
            t=len(s.atoms); s.atoms.append(('inv',d)); s.inv[key]=t; s.invd[t]=d
        return t
    def clear(s,p):
        """multiply by the denominators (all proved non-zero) until no inverse atom is left"""
        while True:
            s.tick()
            top=-1
            for m in p:
                for v,e in m:
                    if v in s.invd and v>top: top=v
            if top<0: return p
            d=s.invd[top]; mx=max((dict(m).get(top,0) for m in p))
            pw=[{():Fraction(1)}]
            for _ in range(mx): pw.append(pmul(pw[-1],d))
            r={}
            groups={}
            for m,c in p.items():
                dm=dict(m); e=dm.pop(top,0)
                groups.setdefault(e,{})[tuple(sorted(dm.items()))]=c
            for e,g in groups.items(): r=padd(r,pmul(g,pw[mx-e]))
            if len(r)>MAXMON: raise GiveUp()
            p=r
    def reduce(s,p):
        if not s.rules: return p
        todo=dict(p); out={}
        n=0
        while todo:
            n+=1
            if n>60000: raise GiveUp()
            if n%500==0: s.tick()
            m=max(todo,key=okey) if len(todo)<200 else next(iter(todo))
            c=todo.pop(m)
            for lm,tail in s.rules:
                q=mdiv(m,lm)
                if q is not None:
                    for tm,tc in tail.items():
                        k=mmul(q,tm); v=todo.get(k,0)+c*tc
                        if v==0: todo.pop(k,None)
                        else: todo[k]=v
                    break
            else:
                v=out.get(m,0)+c
                if v==0: out.pop(m,None)
                else: out[m]=v
        return out
    def addrule(s,p):
        p=s.reduce(p)
        if not p: return
        lead=max(p,key=okey)
        if not lead: return          # inconsistent constants: left to the linear solver
        lc=p[lead]
        tail={m:-c/lc for m,c in p.items() if m!=lead}
        s.rules.append((lead,tail))
    def addraw(s,p):
        """rule whose leading monomial contains the newest inverse atom"""
        if not p: return
        lead=max(p,key=okey)
        if not lead: return
        lc=p[lead]
        s.rules.append((lead,{m:-c/lc for m,c in p.items() if m!=lead}))
    def lin(s,p,op):
        """linearised comparison p op 0"""
        if op=='==': p=s.clear(p)
        p=s.reduce(p)
        c=const(p)
        if c is not None:
            return z3.BoolVal({'==':c==0,'<=':c<=0,'<':c<0}[op])
        t=[]
        k0=Fraction(0)
        for m,c in p.items():
            if not m: k0=c; continue
            x=s.mono.get(m)
            if x is None: x=z3.Real('mono!%d'%len(s.mono)); s.mono[m]=x
            t.append(z3.RealVal(str(c))*x)
        e=z3.Sum(t)+z3.RealVal(str(k0))
        return e==0 if op=='==' else e<=0 if op=='<=' else e<0
    def tr(s,e):
        """boolean structure with arithmetic atoms linearised"""
        i=e.get_id(); r=s.rcache.get(i)
        if r is not None: return r
        s.tick()
        if z3.is_app(e):
            k=e.decl().kind(); ch=e.children()
            if k in ARITH and z3.is_real(ch[0]):
                a=s.poly(ch[0]); b=s.poly(ch[1])
                if k in(z3.Z3_OP_LE,z3.Z3_OP_LT): p=padd(a,b,-1)
                else: p=padd(b,a,-1)
                r=s.lin(p,'<' if k in(z3.Z3_OP_LT,z3.Z3_OP_GT) else '<=')
            elif k==z3.Z3_OP_EQ and z3.is_real(ch[0]):
                r=s.lin(padd(s.poly(ch[0]),s.poly(ch[1]),-1),'==')
            elif k==z3.Z3_OP_DISTINCT and len(ch)==2 and z3.is_real(ch[0]):
                r=z3.Not(s.lin(padd(s.poly(ch[0]),s.poly(ch[1]),-1),'=='))
            elif k==z3.Z3_OP_AND: r=z3.And([s.tr(c) for c in ch])
            elif k==z3.Z3_OP_OR: r=z3.Or([s.tr(c) for c in ch])
            elif k==z3.Z3_OP_NOT: r=z3.Not(s.tr(ch[0]))
            elif k==z3.Z3_OP_IMPLIES: r=z3.Implies(s.tr(ch[0]),s.tr(ch[1]))
            elif k==z3.Z3_OP_ITE and z3.is_bool(ch[1]): r=z3.If(s.tr(ch[0]),s.tr(ch[1]),s.tr(ch[2]))
            elif k==z3.Z3_OP_EQ and z3.is_bool(ch[0]): r=s.tr(ch[0])==s.tr(ch[1])
            else: r=e
        else: r=e
        s.rcache[i]=r; s.keep.append(e)
        return r
def has_real(e,memo):
    st=[e]; seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_real(x): return True
        st.extend(x.children())
    return False
def find_ites(es):
    out={}; seen=set(); st=list(es)
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind()==z3.Z3_OP_ITE and z3.is_real(x): out[x.arg(0).get_id()]=x.arg(0)
            st.extend(x.children())
    return list(out.values())
def eqs(c):
    if z3.is_and(c):
        for x in c.children(): yield from eqs(x)
    elif z3.is_eq(c) and z3.is_real(c.arg(0)): yield c
def one(goal,pc,eng,deadline,depth=0):
    if time.time()>deadline: raise GiveUp()
    ites=find_ites([goal]+pc)
    # innermost conditions first: those without nested conditionals
    for c in ites:
        if not find_ites([c]): break
    else: c=None
    if c is not None:
        if depth>=10: raise GiveUp()
        for v in (True,False):
            sub=lambda e: z3.simplify(z3.substitute(e,(c,z3.BoolVal(v))))
            npc=[]; dead=False
            for p in pc:
                q=sub(p)
                if z3.is_false(q): dead=True; break
                if not z3.is_true(q): npc.append(q)
            if dead: continue
            npc.append(c if v else z3.Not(c))
            if not one(sub(goal),npc,eng,deadline,depth+1): return False
        return True
    cx=Ctx(eng,deadline)
    rp=[p for p in pc if has_real(p,None)]
    # normal forms first, so that atoms are numbered in order of introduction
    el=[]
    for p in rp:
        for q in eqs(p): el.append(padd(cx.poly(q.arg(0)),cx.poly(q.arg(1)),-1))
    order=sorted(el,key=lambda p: max((okey(m) for m in p),default=((0,()))))
    for p in order: cx.addrule(cx.clear(p))
    nn=[]
    for p in rp:
        if z3.is_ge(p) and z3.is_rational_value(p.arg(1)) and p.arg(1).as_fraction()==0: e=p.arg(0)
        elif z3.is_le(p) and z3.is_rational_value(p.arg(0)) and p.arg(0).as_fraction()==0: e=p.arg(1)
        else: continue
        q=cx.poly(e)
        if len(q)==1:
            (m,c),=q.items()
            if c>0 and len(m)==1 and m[0][1]==1: nn.append(m[0][0])
    sq={}
    for v in sorted(set(nn)):
        # non-negative numbers with equal squares are equal
        q=cx.reduce({((v,2),):Fraction(1)})
        if q=={((v,2),):Fraction(1)}: continue
        k=tuple(sorted(q.items()))
        c=const(q)
        if c is not None and c>=0:
            n,d=math.isqrt(c.numerator),math.isqrt(c.denominator)
            if n*n==c.numerator and d*d==c.denominator: cx.addrule({((v,1),):Fraction(1),():Fraction(-n,d)} if n else {((v,1),):Fraction(1)}); continue
        if len(q)==1:
            (m,c2),=q.items()
            if c2==1 and len(m)==1 and m[0][1]==2 and m[0][0] in nn: cx.addrule(padd({((v,1),):Fraction(1)},{((m[0][0],1),):Fraction(1)},-1)); continue
        if k in sq: cx.addrule(padd({((v,1),):Fraction(1)},{((sq[k],1),):Fraction(1)},-1))
        else: sq[k]=v
    # 1/d * d = 1 as rewriting rules, also through d^2 = X
    pre_polys(cx,[goal]+rp)
    for t,d in list(cx.invd.items()):
        r=cx.reduce(d)
        if not r: continue
        p=padd(pmul({((t,1),):Fraction(1)},r),{():Fraction(-1)}); cx.addraw(p)
        if len(r)==1:
            (m,c),=r.items()
            if len(m)==1 and m[0][1]==1:
                q=cx.reduce({((m[0][0],2),):Fraction(1)})
                if q!={((m[0][0],2),):Fraction(1)} and len(q)<40:
                    cx.addraw(padd(pmul({((t,1),):c},q),{((m[0][0],1),):Fraction(1)},-1))
    g=cx.tr(goal)
    if z3.is_true(z3.simplify(g)):
        return nonzero(cx,rp,deadline)
    cond=[cx.tr(p) for p in pc]
    sv=z3.Solver(); sv.set('timeout',max(200,int((deadline-time.time())*1000)))
    extra=[]
    for t,d in list(cx.invd.items()):
        i=cx.lin({((t,1),):Fraction(-1)},'<'); j=cx.lin({((t,1),):Fraction(1)},'<')
        extra+= [z3.Implies(cx.lin(pscale(d,-1),'<'),i),z3.Implies(cx.lin(d,'<'),j)]
        # d * (1/d) = 1
        q=cx.reduce(pmul(d,{((t,1),):Fraction(1)})); q=padd(q,{():Fraction(-1)})
        extra.append(cx.lin(q,'==') if False else raw(cx,q))
    for m,x in list(cx.mono.items()):
        if m and all(e%2==0 for _,e in m): extra.append(x>=0)
    sv.add(*cond,*extra,z3.Not(g))
    if sv.check()==z3.unsat: return nonzero(cx,rp,deadline)
    # products of pairs of hypotheses (degree-two positivity certificates)
    hy=[]
    for p in rp+[z3.Not(goal)]:
        q=ineq(cx,p)
        if q is None: continue
        q=cx.reduce(q)
        if len(q)>12 or const(q) is not None or any(abs(c)>10**30 for c in q.values()): continue
        if q not in hy: hy.append(q)
    if not hy or len(hy)>40: return False
    hy.sort(key=len); hy=hy[:16]
    ex=[]
    for i,a in enumerate(hy):
        for b in hy[i:]:
            cx.tick()
            ex.append(raw(cx,cx.reduce(pmul(a,b)),'>='))
    for m,x in list(cx.mono.items()):
        if m and all(e%2==0 for _,e in m): sv.add(x>=0)
    sv.add(*ex); sv.set('timeout',max(200,int((deadline-time.time())*1000)))
    if sv.check()!=z3.unsat: return False
    return nonzero(cx,rp,deadline)
def ineq(cx,p):
    """polynomial q with p => q >= 0, or None"""
    neg=False
    while z3.is_not(p): p=p.arg(0); neg=not neg
    if not z3.is_app(p) or p.num_args()!=2 or not z3.is_real(p.arg(0)): return None
    k=p.decl().kind()
    if k not in ARITH: return None
    a,b=cx.poly(p.arg(0)),cx.poly(p.arg(1))
    ge=k in(z3.Z3_OP_GE,z3.Z3_OP_GT)
    if neg: ge=not ge
    return padd(a,b,-1) if ge else padd(b,a,-1)
def pre_polys(cx,es):
    st=list(es); seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if z3.is_real(x): cx.poly(x)
            else: st.extend(x.children())
def raw(cx,p,op='=='):
    t=[]; k0=Fraction(0)
    for m,c in p.items():
        if not m: k0=c; continue
        x=cx.mono.get(m)
        if x is None: x=z3.Real('mono!%d'%len(cx.mono)); cx.mono[m]=x
        t.append(z3.RealVal(str(c))*x)
    e=z3.Sum(t)+z3.RealVal(str(k0)) if t else z3.RealVal(str(k0))
    return e==0 if op=='==' else e>=0
def nonzero(cx,rp,deadline):
    """every denominator used must be non-zero under the path condition"""
    if not cx.invd: return True
    known=set()
    def note(p):
        p=cx.reduce(p)
        if p:
            lead=max(p,key=okey); known.add(tuple(sorted(pscale(p,1/p[lead]).items())))
    for p in rp:
        q=p
        if z3.is_not(q) and z3.is_eq(q.arg(0)) and z3.is_real(q.arg(0).arg(0)):
            note(padd(cx.poly(q.arg(0).arg(0)),cx.poly(q.arg(0).arg(1)),-1))
        elif z3.is_distinct(q) and q.num_args()==2 and z3.is_real(q.arg(0)): note(padd(cx.poly(q.arg(0)),cx.poly(q.arg(1)),-1))
    sv=None
    for t,d in list(cx.invd.items()):
        r=cx.reduce(d)
        if not r: return False
        lead=max(r,key=okey)
        if tuple(sorted(pscale(r,1/r[lead]).items())) in known: continue
        if sv is None:
            sv=z3.Solver(); sv.set('timeout',1000); sv.add(*[cx.tr(p) for p in rp])
            for m,x in list(cx.mono.items()):
                if m and all(e%2==0 for _,e in m): sv.add(x>=0)
        sv.push(); sv.add(cx.lin(d,'=='))
        k=sv.check(); sv.pop()
        if k!=z3.unsat: return False
    return True
def prove(goal,pc,eng):
    if not has_real(goal,None): raise GiveUp()
    if z3.is_and(goal): return all(prove(g,pc,eng) for g in goal.children())
    return one(goal,list(pc),eng,time.time()+eng.o.get('poly_s',8))
