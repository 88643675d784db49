"""Generalisation before solving: every sum, quotient and function value that is a side of a comparison or a factor
becomes a fresh variable (sound: what holds for arbitrary values holds for these)."""
import z3
CMP=(z3.Z3_OP_LE,z3.Z3_OP_LT,z3.Z3_OP_GE,z3.Z3_OP_GT,z3.Z3_OP_EQ)
BOOL=(z3.Z3_OP_NOT,z3.Z3_OP_AND,z3.Z3_OP_OR)
class Abs:
    def __init__(s): s.vars={}; s.keep=[]
    def var(s,t):
        i=t.get_id(); v=s.vars.get(i)
        if v is None: v=z3.Real('opq!%d'%len(s.vars)); s.vars[i]=v; s.keep.append(t)
        return v
    def num(s,t,deep):
        if z3.is_rational_value(t) or z3.is_int_value(t): return t
        if not z3.is_app(t): return None
        k=t.decl().kind(); ch=t.children()
        if k==z3.Z3_OP_MUL:
            r=None
            for c in ch:
                x=s.num(c,deep)
                r=x if r is None else r*x
            return r
        if k==z3.Z3_OP_UMINUS: return -s.num(ch[0],deep)
        if deep and k==z3.Z3_OP_ADD:
            r=None
            for c in ch:
                x=s.num(c,deep-1); r=x if r is None else r+x
            return r
        if deep and k==z3.Z3_OP_SUB and len(ch)==2: return s.num(ch[0],deep-1)-s.num(ch[1],deep-1)
        return s.var(t)
    def boolean(s,f,deep):
        k=f.decl().kind(); ch=f.children()
        if z3.is_true(f) or z3.is_false(f): return f
        if k==z3.Z3_OP_NOT: return z3.Not(s.boolean(ch[0],deep))
        if k==z3.Z3_OP_AND: return z3.And(*[s.boolean(c,deep) for c in ch])
        if k==z3.Z3_OP_OR: return z3.Or(*[s.boolean(c,deep) for c in ch])
        if k==z3.Z3_OP_ITE: return z3.If(*[s.boolean(c,deep) for c in ch])
        if k==z3.Z3_OP_EQ and z3.is_bool(ch[0]): return s.boolean(ch[0],deep)==s.boolean(ch[1],deep)
        if k in CMP and z3.is_real(ch[0]):
            a=s.num(ch[0],deep); b=s.num(ch[1],deep)
            return {z3.Z3_OP_LE:a<=b,z3.Z3_OP_LT:a<b,z3.Z3_OP_GE:a>=b,z3.Z3_OP_GT:a>b,z3.Z3_OP_EQ:a==b}[k]
        i=f.get_id(); v=s.vars.get(i)
        if v is None: v=z3.Bool('opqb!%d'%len(s.vars)); s.vars[i]=v; s.keep.append(f)
        return v
def vars_of(e,memo):
    out=set(); st=[e]; seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(i)
        st.extend(x.children())
    return out
def prove(goal,pc,ms=400):
    for deep in (0,1,2,4):
        a=Abs()
        g=z3.Not(a.boolean(goal,deep)); fs=[a.boolean(c,deep) for c in pc[-100:]]
        # cone of influence on the generalised formulas, three steps
        vs=[vars_of(f,None) for f in fs]; gv=vars_of(g,None)
        # single hypotheses over the symbols of the goal, then all of them, then their cone of influence (three steps)
        sub=[i for i in range(len(fs)) if vs[i] and vs[i]<=gv]
        tries=[[i] for i in sub[-6:]][::-1] if len(sub)>1 else []
        tries.append(sub)
        for lim in (3,16):
         cur=set(gv); use=set()
         for _ in range(3):
            new=[i for i in range(len(fs)) if i not in use and vs[i]&cur and len(vs[i])<=lim]
            if not new: break
            use.update(new)
            for i in new: cur|=vs[i]
            tries.append(sorted(use))
        for k,t in enumerate(tries):
            if not t and k: continue
            sv=z3.Solver(); sv.set('timeout',ms if k==len(tries)-1 else 80)
            sv.add(g); sv.add([fs[i] for i in t])
            if sv.check()==z3.unsat: return True
    return False
import os
if os.environ.get('FCV_OPQ'):
    _p=prove
    def prove(goal,pc,ms=400):
        import time,sys
        t=time.time(); r=_p(goal,pc,ms)
        if not r:
            a=Abs(); print('OPQ no',round(time.time()-t,2),str(a.boolean(goal,0))[:500],file=sys.stderr)
            for c in pc[-60:]: print('     ',str(a.boolean(c,0)).replace('\n',' ')[:400],file=sys.stderr)
        return r
