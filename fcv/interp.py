"""Instruction semantics, calls, builtins and path exploration."""
import z3, re, time, math, struct
from fractions import Fraction
from .vals import *
from .mem import *
from .engine import *
from . import llvm as LL

class Ctx:
    __slots__=('depth','header','body','conc_exit','froot')
    def __init__(s,depth,header=None,body=None): s.depth=depth; s.header=header; s.body=body; s.conc_exit=False

BOOLOPS={'and','or','xor'}
MASK={w:(1<<w)-1 for w in range(1,129)}

_plain={}
def plain_name(dn):
    """qualified name and parameters without return type and template arguments"""
    r=_plain.get(dn)
    if r is None:
        out='';d=0;i=0
        x=dn.replace('operator<<','operator@@').replace('operator<','operator@').replace('operator>>','operator##').replace('operator>','operator#').replace('operator()','operator$')
        for ch in x:
            if ch=='<': d+=1
            elif ch=='>': d-=1
            elif d==0: out+=ch
        h,_,t=out.partition('(')
        r=_plain[dn]=h.split(' ')[-1]+'('+t
    return r
def consts_in(e):
    out={}; todo=[e]; seen=set()
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[x.get_id()]=x
        else: todo.extend(x.children())
    return list(out.values())
class Interp(Engine):
    # ------------------------------------------------------------ exploration
    def joins(s,F):
        """blocks of F where paths may be merged (join=regex names the functions)"""
        j=s._joins.get(F.name)
        if j is None:
            j=frozenset()
            if s.cfg_join and any(re.search(r,s.demname(F.name)) for r in s.cfg_join):
                n={}
                for B in F.blocks:
                    for t in set(B.succs): n[t]=n.get(t,0)+1
                j=frozenset(t for t in n if n[t]>1)|frozenset(F.loops)
            s._joins[F.name]=j
        return j
    def unpark(s,parked):
        """merges the paths that wait at one join; the one with the deepest frame and the earliest block goes first"""
        key=min(parked,key=lambda k:(-len(k[1]),k[1][-1][0] if k[0] is None else k[0]))
        l=parked.pop(key)
        if len(l)>1:
            m=None
            try: m=s.merge_states(l,s.common_pc(l),l[0],None)
            except (Unsupported,NeedWidth): m=None
            if m is not None:
                m.pending=l[0].pending; m.nopark=m.pending is not None; return [m]
        for x in l: x.nopark=x.pending is not None
        return l
    def explore(s,st,ctx):
        """runs st until ctx stops it. returns [(label,state)] with label in ret/back/exit"""
        work=[st]; out=[]; parked={}
        s.ctxs.append(ctx)
        try:
            while work or parked:
                if not work: work=s.unpark(parked)
                x=work.pop()
                try:
                    r=s.run(x,ctx,work)
                    if r is not None:
                        if r[0]=='park': parked.setdefault(r[2],[]).append(r[1])
                        else: out.append(r)
                except PathEnd:
                    if s.o.get('ends'):
                        import traceback; print('END',[(s.demname(f.f.name)[:40],getattr(f.ins,'line',None) if hasattr(f,'ins') else None) for f in x.frames],s.loc(x),'quiet' if s.quiet else '',traceback.format_exc().splitlines()[-2:-1])
                except Unsupported as e:
                    s.note_unsupported(x,e)
                s.paths+=1
                if s.paths>s.o.get('maxpaths',200000 if s.o.get('shape') else 60000): raise Incomplete('too many paths')
        finally: s.ctxs.pop()
        return out
    def note_unsupported(s,st,e):
        if s.strict: raise e
        fn,line=s.loc(st)
        if s.o.get('trace'):
            import traceback; traceback.print_exc()
        if s.quiet: raise e
        o=Obl('supported: '+str(e),'support',fn,line); o.status='undecided'; o.reason='outside the verifier: '+str(e); o.unit=s.cur_unit
        s.obls.append(o)
    def run(s,st,ctx,work):
        while True:
            if len(st.frames)<ctx.depth: return ('ret' if ctx.header is None else 'exit',st)
            fr=st.frames[-1]
            if st.pending is not None:
                t=st.pending
                if ctx.header is not None and len(st.frames)==ctx.depth:
                    if t==ctx.header and fr.bi in ctx.body: return ('back',st)
                    if t not in ctx.body: return ('exit',st)
                body=fr.f.loops.get(t)
                if s.cfg_join and t in s.joins(fr.f) and not (body is not None and fr.bi in body):
                    if st.nopark: st.nopark=False
                    elif body is not None: return ('park',st,(t,tuple((f.bi,f.ip) for f in st.frames)))
                    else:
                        st.pending=None; s.enter(st,fr,fr.bi,t); st.nopark=False
                        return ('park',st,(None,tuple((f.bi,f.ip) for f in st.frames)))
                st.pending=None
                if body is not None and fr.bi not in body:
                    outs=s.handle_loop(st,fr.bi,t,body)
                    if not outs: raise PathEnd()
                    for o in outs[1:]: work.append(o)
                    if outs[0] is not st:
                        work.append(outs[0]); return None
                    continue
                if body is not None:
                    # back edge executed without loop handling (unrolling driver absent)
                    pass
                s.enter(st,fr,fr.bi,t)
            insts=fr.f.blocks[fr.bi].insts
            n=len(insts)
            try:
                while True:
                    I=insts[fr.ip]; fr.ins=I
                    s.inst_count+=1
                    if s.inst_count&0x3ff==0:
                        if s.inst_count>s.maxinst: raise Incomplete('instruction budget')
                        if s.deadline and time.time()>s.deadline: raise Incomplete('unit time budget exhausted')
                    op=I.op
                    h=DISPATCH.get(op)
                    if h is None: raise Unsupported('instruction '+op)
                    r=h(s,st,fr,I)
                    if r is None:
                        fr.ip+=1; continue
                    if r is True: break       # control transfer
                    # list of additional states
                    work.extend(r); return None
            except Fork as f:
                c=f.c
                o=st.fork()
                st.known[c.get_id()]=True; o.known[c.get_id()]=False; 
                st.notes=st.notes+(c,); o.notes=o.notes+(c,)
                t1=s.feasible(st,c); t2=s.feasible(o,z3.Not(c))
                if t2:
                    o.pc.append(z3.Not(c)); work.append(o)
                if not t1: raise PathEnd()
                st.pc.append(c)
    def enter(s,st,fr,prev,t):
        B=fr.f.blocks[t]
        if B.phis:
            vals=[s.opnd(st,fr,I.x[prev]) for I in B.phis]
            for I,v in zip(B.phis,vals): fr.regs[I.dst]=v
        fr.prev=prev; fr.bi=t; fr.ip=0
    def resolve(s,st,p):
        while isinstance(p,PCond):
            c=p.c
            if isinstance(c,int): p=p.a if c else p.b; continue
            k=st.known.get(c.get_id())
            if k is None: raise Fork(c)
            p=p.a if k else p.b
        return p
    def opnd(s,st,fr,o):
        if o[0]=='r': return fr.regs[o[1]]
        c=o[1]; k=c[0]
        if k=='i': return c[2]
        return s.kval(st,c)
    # ------------------------------------------------------------ ints
    def known_true(s,st,c):
        r,_=s.check(st.pc+[z3.Not(c)],st.facts,s.feas_to)
        return r==z3.unsat
    def binop(s,st,op,a,b,w,I):
        if isinstance(a,list): return [s.binop(st,op,x,y,w[2][1] if isinstance(w,tuple) else w,I) for x,y in zip(a,b)]
        if isinstance(a,Undef) or isinstance(b,Undef): return fresh('undef',w if w>1 else 'bool')
        ia=isinstance(a,int); ib=isinstance(b,int)
        if ia and ib:
            m=MASK[w]
            if op=='add': return (a+b)&m
            if op=='sub': return (a-b)&m
            if op=='mul': return (a*b)&m
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&m if b<w else 0
            if op=='lshr': return a>>b if b<w else 0
            if op=='ashr': return (sgn(a,w)>>b)&m if b<w else (m if a>>(w-1) else 0)
            if b==0:
                s.oblig(st,FALSE,'division by zero','safety'); raise PathEnd()
            if op=='udiv': return a//b
            if op=='urem': return a%b
            sa,sb=sgn(a,w),sgn(b,w)
            q=abs(sa)//abs(sb)
            if (sa<0)!=(sb<0): q=-q
            if op=='sdiv': return q&m
            if op=='srem': return (sa-q*sb)&m
        if w==1 and op in BOOLOPS:
            if ia or ib:
                k,x=(a,b) if ia else (b,a)
                if op=='and': return x if k else 0
                if op=='or': return 1 if k else x
                return s.bnot(x) if k else x
            A,B=tobool(a),tobool(b)
            if op=='and': return z3.And(A,B)
            if op=='or': return z3.Or(A,B)
            return z3.Xor(A,B)
        if isinstance(a,(PInt,PHalf,Ptr,FnPtr,PCond)) or isinstance(b,(PInt,PHalf,Ptr,FnPtr,PCond)):
            r=s.pint_op(st,op,a,b,w)
            if r is not None: return r
        if isinstance(a,FBits) or isinstance(b,FBits):
            r=s.fbits_op(st,op,a,b,w)
            if r is not None: return r
        if isinstance(a,Pieces): a=pieces_bv(a)
        if isinstance(b,Pieces): b=pieces_bv(b)
        if w==64:
            if op=='add': return ladd(a,b)
            if op=='sub': return lsub(a,b)
            if op=='mul' and (ia or ib): return lmul(b,a) if ia else lmul(a,b)
            if op=='shl' and ib and b<64: return lmul(a,1<<b)
            if op in('sdiv','udiv','lshr','ashr') and ib:
                m=b if op in('sdiv','udiv') else (1<<b)
                if m==1: return a
                if I is not None and I.nsw or (op in('lshr','udiv') ):
                    q=ldiv_exact(a,m)
                    if q is not None:
                        if I is not None and I.nsw: 
                            if op in('sdiv','ashr'):
                                # exact signed division of a pointer difference: valid when the value is within range
                                return q
                        # unsigned: valid when m*q does not wrap: ask the solver
                        c=z3.ULE(tobv(q,64),bvv(M64//m,64))
                        if isint(q) or s.known_true(st,c): return q
                if op=='sdiv':
                    q=ldiv_exact(a,m)
                    if q is not None:
                        lim=(1<<62)//m
                        t=tobv(q,64)
                        if s.known_true(st,z3.And(t<bvv(lim,64),t>bvv(-lim,64))): return q
            if op=='and' and ib and b&1==0:
                # masking to a power-of-two multiple
                m=(~b&M64)+1
                if m&(m-1)==0:
                    q=ldiv_exact(a,m)
                    if q is not None: return a
        if ia or ib:
            if op=='add':
                if ia and a==0: return b
                if ib and b==0: return a
            elif op=='sub':
                if ib and b==0: return a
            elif op=='mul':
                k,x=(a,b) if ia else (b,a)
                if k==0: return 0
                if k==1: return x
            elif op=='and':
                k,x=(a,b) if ia else (b,a)
                if k==0: return 0
                if k==MASK[w]: return x
            elif op=='or':
                k,x=(a,b) if ia else (b,a)
                if k==0: return x
            elif op in('shl','lshr','ashr') and ib:
                if b==0: return a
                if b>=w: return 0 if op!='ashr' else s.binop(st,'ashr',a,w-1,w,I)
            elif op in('udiv','sdiv') and ib and b==1: return a
        A=tobv(a,w); B=tobv(b,w)
        if op in('udiv','sdiv','urem','srem') and not ib:
            s.oblig(st,B!=bvv(0,w),'division by zero','safety')
        r={'add':lambda:A+B,'sub':lambda:A-B,'mul':lambda:A*B,'and':lambda:A&B,'or':lambda:A|B,'xor':lambda:A^B,
           'shl':lambda:A<<B,'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B,'udiv':lambda:z3.UDiv(A,B),'urem':lambda:z3.URem(A,B),'sdiv':lambda:A/B,'srem':lambda:z3.SRem(A,B)}[op]()
        if ia or ib or w<=8:
            r=z3.simplify(r)
            if z3.is_bv_value(r): return r.as_long()
        return r
    def bnot(s,x):
        if isint(x): return 1-x
        if z3.is_not(x): return x.arg(0)
        return z3.Not(x)
    def pint_op(s,st,op,a,b,w):
        def conv(x):
            if isinstance(x,Ptr): return PInt(x) if x.oid else (x.off&M64 if isint(x.off) else x.off)
            if isinstance(x,FnPtr): return PInt(x)
            return x
        a=conv(a); b=conv(b)
        if isinstance(a,PInt) and isinstance(a.p,PCond): a=PInt(s.resolve(st,a.p)); a=conv(a.p)
        if isinstance(b,PInt) and isinstance(b.p,PCond): b=PInt(s.resolve(st,b.p)); b=conv(b.p)
        pa=isinstance(a,PInt); pb=isinstance(b,PInt)
        ha=isinstance(a,PHalf); hb=isinstance(b,PHalf)
        if not pa and not pb and not ha and not hb: return s.binop(st,op,a,b,w,None)
        if w==64:
            # the middle of two addresses of one block (base addresses are 16-byte aligned)
            if (op=='lshr' and b==1 or op=='udiv' and b==2) and pa and isinstance(a.p,Ptr) and a.p.idx is None and isint(a.p.off) and a.p.off%2==0: return PHalf(a.p)
            if op=='add' and ha and hb and a.p.oid==b.p.oid: return PInt(Ptr(a.p.oid,(a.p.off+b.p.off)//2))
            if op=='sub' and pa and pb and isinstance(a.p,Ptr) and isinstance(b.p,Ptr) and a.p.oid==b.p.oid:
                if a.p.idx is None or same_idx(a.p.idx,b.p.idx): return lsub(a.p.off,b.p.off)
            if op=='add' and pa and not pb and isinstance(a.p,Ptr): return PInt(s.padd(a.p,b))
            if op=='add' and pb and not pa and isinstance(b.p,Ptr): return PInt(s.padd(b.p,a))
            if op=='sub' and pa and not pb and isinstance(a.p,Ptr): return PInt(s.padd(a.p,lsub(0,b)))
            if op=='and' and pa and isint(b) and isinstance(a.p,Ptr) and a.p.idx is None:
                # base addresses are 16-byte aligned
                if b<16 and isint(a.p.off): return a.p.off&b
                m=(~b&M64)+1
                if m&(m-1)==0 and m<=16:
                    r=ldivmod(a.p.off,m)
                    if r is not None: return PInt(s.padd(a.p,-r[1]))
        return None
    def fbits_op(s,st,op,a,b,w):
        k,x=(a,b) if isinstance(a,int) else (b,a)
        if isinstance(x,FBits) and isinstance(k,int) and s.fmode=='real':
            top=1<<(w-1)
            if op=='and' and k==top-1: return FBits(s.fabs(x.v),w)
            if op=='xor' and k==top: return FBits(s.fneg(x.v),w)
        return None
    def fabs(s,v):
        if isinstance(v,Fraction): return abs(v)
        if isinstance(v,FSpec): return PINF if 'inf' in v.k else v
        if s.fmode=='fp': return z3.fpAbs(v)
        return z3.If(v>=0,v,-v)
    def fneg(s,v):
        if isinstance(v,Fraction): return -v
        if isinstance(v,FSpec): return {'+inf':NINF,'-inf':PINF,'nan':NAN}[v.k]
        if s.fmode=='fp': return z3.fpNeg(v)
        return -v
    def icmp(s,st,p,a,b,ty):
        if isinstance(a,list): return [s.icmp(st,p,x,y,ty[2]) for x,y in zip(a,b)]
        if ty[0]=='p' or isinstance(a,(PInt,Ptr,FnPtr,PCond)) or isinstance(b,(PInt,Ptr,FnPtr,PCond)):
            return s.pcmp(st,p,a,b)
        w=ty[1]
        if isinstance(a,Undef) or isinstance(b,Undef): return fresh('undef','bool')
        if isinstance(a,int) and isinstance(b,int):
            if p=='eq': return int(a==b)
            if p=='ne': return int(a!=b)
            if p[0]=='s': a,b=sgn(a,w),sgn(b,w)
            q=p[1:]
            return int({'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[q])
        if isinstance(a,FBits) or isinstance(b,FBits):
            # sign tests on float bit patterns
            if isinstance(a,FBits) and isinstance(b,int) and p=='slt' and b==0 and s.fmode=='real': return s.fcmp('olt',a.v,Fraction(0))
            raise Unsupported('float bits compare')
        if w==1:
            if p in('eq','ne'):
                if isint(a) or isint(b):
                    k,x=(a,b) if isint(a) else (b,a)
                    return x if (k==1)==(p=='eq') else s.bnot(x)
                e=tobool(a)==tobool(b)
                return e if p=='eq' else z3.Not(e)
        if w==64:
            d=same_idx(a,b)
            if d is True: return int(p in('eq','ule','uge','sle','sge'))
            if d is False and p in('eq','ne'): return int(p=='ne')
        nr=s.narrow(p,a,b,w)
        if nr is not None:
            if isint(nr): return nr
            p,a,b,w=nr
        A=tobv(a,w); B=tobv(b,w)
        if p=='eq': r=A==B
        elif p=='ne': r=A!=B
        else: r={'ugt':z3.UGT,'uge':z3.UGE,'ult':z3.ULT,'ule':z3.ULE,'sgt':lambda x,y:x>y,'sge':lambda x,y:x>=y,'slt':lambda x,y:x<y,'sle':lambda x,y:x<=y}[p](A,B)
        if isint(a) or isint(b) or w<=8:
            q=z3.simplify(r)
            if z3.is_true(q) or z3.is_false(q): r=q
        return s.b(r)
    def narrow(s,p,a,b,w):
        """comparison of extended values done at the narrow width"""
        def ext(v):
            if isint(v) or not isbv(v): return None
            k=v.decl().kind()
            if k==z3.Z3_OP_SIGN_EXT: return ('s',v.arg(0))
            if k==z3.Z3_OP_ZERO_EXT: return ('z',v.arg(0))
            return None
        ea,eb=ext(a),ext(b)
        if ea and eb:
            if ea[0]!=eb[0] or ea[1].size()!=eb[1].size(): return None
            n=ea[1].size()
            if ea[0]=='z' and p[0]=='s': p='u'+p[1:]
            return (p,ea[1],eb[1],n)
        if ea and isint(b): e,cst,flip=ea,b,False
        elif eb and isint(a): e,cst,flip=eb,a,True
        else: return None
        n=e[1].size(); q=p
        if flip: q={'ugt':'ult','ult':'ugt','uge':'ule','ule':'uge','sgt':'slt','slt':'sgt','sge':'sle','sle':'sge'}.get(p,p)
        lo,hi=(-(1<<(n-1)),(1<<(n-1))-1) if e[0]=='s' else (0,(1<<n)-1)
        c=sgn(cst,w)
        if lo<=c<=hi:
            if e[0]=='z' and q[0]=='s': q='u'+q[1:]
            return (q,e[1],c&MASK[n],n)
        if q=='eq': return 0
        if q=='ne': return 1
        if q[0]=='u':
            if e[0]=='s': return None
            c=cst
        return int(q[1:] in('lt','le')) if c>hi else int(q[1:] in('gt','ge'))
    def nonneg(s,st,x):
        """the offset is certainly no negative number (then unsigned and signed comparison agree)"""
        if isint(x): return s64(x)>=0
        key=(x.get_id(),len(st.pc),st.pc[-1].get_id() if st.pc else 0)
        c=s.nncache.get(key)
        if c is not None: return c[0]
        ass=[]
        for t,co in lin(x)[1].values():
            for v in consts_in(t):
                if v.sort()==z3.BitVecSort(64) and v.decl().name()[:2] in ('k!','T!'): ass.append(z3.ULT(v,z3.BitVecVal(1<<56,64)))
        sv=z3.SolverFor('QF_BV'); sv.set('timeout',300)
        sv.add(*[q for q in st.pc if s.pure_index(q)]); sv.add(*ass); sv.add(x<0)
        r=sv.check()==z3.unsat
        s.nncache[key]=(r,x,st.pc[-1] if st.pc else None); return r
    def pcmp(s,st,p,a,b):
        def conv(x):
            if isinstance(x,PInt): return x.p
            if isint(x) or isbv(x): return Ptr(0,s64(x) if isint(x) else x)
            if isinstance(x,Pieces): return Ptr(0,pieces_bv(x))
            return x
        a=conv(a); b=conv(b)
        if isinstance(a,PCond) or isinstance(b,PCond):
            if isinstance(a,PCond) and not isinstance(b,PCond): x,y=s.pcmp(st,p,a.a,b),s.pcmp(st,p,a.b,b); c=a.c
            elif isinstance(b,PCond) and not isinstance(a,PCond): x,y=s.pcmp(st,p,a,b.a),s.pcmp(st,p,a,b.b); c=b.c
            else: x,y=s.pcmp(st,p,a.a,b),s.pcmp(st,p,a.b,b); c=a.c
            if isint(x) and isint(y): return x if x==y else (c if x else s.bnot(c))
            return s.viteT(c,x,y,('i',1))
        if isinstance(a,Undef) or isinstance(b,Undef): return fresh('undef','bool')
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            same=isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.name==b.name
            if p in('eq','ne'): return int(same==(p=='eq'))
            raise Unsupported('function pointer order')
        if a.oid==b.oid:
            if a.idx is not None and b.idx is not None:
                same=same_idx(a.idx,b.idx)
                if same is True: return s.icmp(st,p,a.off,b.off,('i',64)) if not(isint(a.off) and isint(b.off)) else s.icmp(st,p,a.off&M64,b.off&M64,('i',64))
                if p in('eq','ne'):
                    if same is False: return int(p=='ne')
                    e=z3.And(tobv(a.idx,64)==tobv(b.idx,64),tobv(a.off,64)==tobv(b.off,64)) if not (isint(a.off) and isint(b.off) and a.off==b.off) else tobv(a.idx,64)==tobv(b.idx,64)
                    return e if p=='eq' else z3.Not(e)
                raise Unsupported('family order')
            x=a.off&M64 if isint(a.off) else a.off; y=b.off&M64 if isint(b.off) else b.off
            # offsets inside an object compare as signed numbers
            q={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(p,p) if a.oid else p
            if p in('ult','ule','ugt','uge') and a.oid and not (isint(x) and isint(y)):
                if s.nonneg(st,x) and s.nonneg(st,y): q=p
            return s.icmp(st,q,x,y,('i',64))
        if p in('eq','ne'): return int(p=='ne')
        if a.oid==0 or b.oid==0:
            if isint(a.off) and a.oid==0: return int(p in('ult','ule'))
            if isint(b.off) and b.oid==0: return int(p in('ugt','uge'))
        if a.oid and b.oid:
            s.alias_notes.add('addresses of distinct objects are ordered by allocation (one of the possible layouts)')
            return int((a.oid>b.oid)==(p in('ugt','uge')))
        A=base_sym(a.oid)+tobv(a.off,64) if a.oid else tobv(a.off,64)
        B=base_sym(b.oid)+tobv(b.off,64) if b.oid else tobv(b.off,64)
        s.alias_notes.add('order of addresses of distinct objects is unconstrained')
        return {'ugt':z3.UGT,'uge':z3.UGE,'ult':z3.ULT,'ule':z3.ULE}[p](A,B)
    # widening with overflow-free canonicalisation
    def shadow(s,v,w):
        """64-bit expression whose truncation to w bits is v, linear part only"""
        k=v.decl().kind()
        if k==z3.Z3_OP_BNUM: return v.as_long()
        if k==z3.Z3_OP_EXTRACT:
            hi,lo=v.params()
            if lo==0 and v.arg(0).size()==64: return v.arg(0)
            return None
        if k==z3.Z3_OP_BADD:
            r=0
            for ch in v.children():
                x=s.shadow(ch,w)
                if x is None: x=z3.ZeroExt(64-w,ch)
                r=ladd(r,x)
            return r
        if k==z3.Z3_OP_BSUB:
            a,b=v.children(); x=s.shadow(a,w); y=s.shadow(b,w)
            if x is None: x=z3.ZeroExt(64-w,a)
            if y is None: y=z3.ZeroExt(64-w,b)
            return lsub(x,y)
        if k==z3.Z3_OP_BMUL and z3.is_bv_value(v.arg(0)):
            x=s.shadow(v.arg(1),w)
            if x is None: x=z3.ZeroExt(64-w,v.arg(1))
            return lmul(x,v.arg(0).as_long())
        return None
    def has_shadow(s,v):
        st=[v]; n=0
        while st:
            x=st.pop(); n+=1
            if n>60: return False
            k=x.decl().kind()
            if k==z3.Z3_OP_EXTRACT: return x.arg(0).size()==64 and x.params()[1]==0
            if k in(z3.Z3_OP_BADD,z3.Z3_OP_BSUB,z3.Z3_OP_BMUL): st.extend(x.children())
        return False
    def zext(s,st,v,w,W):
        if isint(v): return v
        if isbool(v): return z3.If(v,bvv(1,W),bvv(0,W))
        if isinstance(v,(PInt,Undef)): 
            if isinstance(v,Undef): return fresh('undef',W)
            raise Unsupported('zext of pointer')
        if isinstance(v,Pieces): v=pieces_bv(v)
        if isinstance(v,FBits): raise Unsupported('zext float bits')
        if w==1: v=tobool(v); return z3.If(v,bvv(1,W),bvv(0,W))
        if W==64 and w>=16 and s.has_shadow(v):
            for sh in (s.shadow(v,w),s.shadow(s.neg_shadow(v),w)):
                if sh is None: continue
                if isint(sh): return sh
                if s.known_true(st,z3.ZeroExt(64-w,v)==sh): return sh
        return z3.ZeroExt(W-w,v)
    def neg_shadow(s,v): return v
    def sext(s,st,v,w,W):
        if isint(v): return sgn(v,w)&MASK[W]
        if isinstance(v,Undef): return fresh('undef',W)
        if isinstance(v,Pieces): v=pieces_bv(v)
        if isbool(v): return z3.If(v,bvv(MASK[W],W),bvv(0,W))
        if W==64 and w>=16 and s.has_shadow(v):
            sh=s.shadow_s(v,w)
            if sh is not None:
                if isint(sh): return sgn(sh&MASK[w],w)&M64
                if s.known_true(st,z3.SignExt(64-w,v)==sh): return sh
        return z3.SignExt(W-w,v)
    def shadow_s(s,v,w):
        k=v.decl().kind()
        if k==z3.Z3_OP_BNUM: return sgn(v.as_long(),w)&M64
        if k==z3.Z3_OP_EXTRACT:
            hi,lo=v.params()
            return v.arg(0) if lo==0 and v.arg(0).size()==64 else None
        def sub(ch):
            x=s.shadow_s(ch,w)
            return z3.SignExt(64-w,ch) if x is None else x
        if k==z3.Z3_OP_BADD:
            r=0
            for ch in v.children(): r=ladd(r,sub(ch))
            return r
        if k==z3.Z3_OP_BSUB: return lsub(sub(v.arg(0)),sub(v.arg(1)))
        if k==z3.Z3_OP_BMUL and z3.is_bv_value(v.arg(0)): return lmul(sub(v.arg(1)),sgn(v.arg(0).as_long(),w)&M64)
        return None
    def trunc(s,v,w,W):
        if isinstance(v,Undef): return fresh('undef',W if W>1 else 'bool')
        if isint(v): return v&MASK[W]
        if isinstance(v,Pieces):
            q=0; parts=[]
            for n,x in v.parts:
                if q<W//8: parts.append((n,x))
                q+=n
                if q==W//8: return parts[0][1] if len(parts)==1 else Pieces(parts)
            v=pieces_bv(v)
        if isinstance(v,PInt): 
            v=pint_bv(v)
        if isinstance(v,FBits): raise Unsupported('trunc float bits')
        if isbool(v): return v if W==1 else tobv(v,W)
        if W==1: return s.b(z3.simplify(z3.Extract(0,0,v)==bvv(1,1)))
        k=v.decl().kind()
        if k in(z3.Z3_OP_ZERO_EXT,z3.Z3_OP_SIGN_EXT):
            a=v.arg(0)
            if a.size()==W: return a
            if a.size()>W: return z3.Extract(W-1,0,a)
        if k==z3.Z3_OP_ITE or k==z3.Z3_OP_CONCAT:
            r=z3.simplify(z3.Extract(W-1,0,v))
            return r.as_long() if z3.is_bv_value(r) else r
        if w==64:
            # keep linear structure: trunc(x+c)=trunc(x)+c
            c,d=lin(v)
            if d and (c or len(d)>1 or any(x[1]!=1 for x in d.values())):
                r=None
                for kk in sorted(d):
                    t,co=d[kk]
                    e=s.trunc(t,64,W)
                    e=tobv(e,W)
                    co&=MASK[W]
                    if co!=1: e=e*bvv(co,W)
                    r=e if r is None else r+e
                if c&MASK[W]: r=r+bvv(c&MASK[W],W)
                return r
        return z3.Extract(W-1,0,v)
    # ------------------------------------------------------------ instructions
    def i_bin(s,st,fr,I):
        a=s.opnd(st,fr,I.ops[0]); b=s.opnd(st,fr,I.ops[1])
        if I.ty[0]=='v':
            fr.regs[I.dst]=[s.binop(st,I.op,x,y,I.ty[2][1],I) for x,y in zip(a,b)]; return
        w=I.ty[1]
        if I.nsw and s.o.get('ovf') and I.op in('add','sub','mul') and not (isint(a) and isint(b)) and not isinstance(a,PInt) and not isinstance(b,PInt):
            A=tobv(a,w); B=tobv(b,w)
            if I.op=='add': g=z3.And(z3.BVAddNoOverflow(A,B,True),z3.BVAddNoUnderflow(A,B))
            elif I.op=='sub': g=z3.And(z3.BVSubNoOverflow(A,B),z3.BVSubNoUnderflow(A,B,True))
            else: g=z3.And(z3.BVMulNoOverflow(A,B,True),z3.BVMulNoUnderflow(A,B))
            s.oblig(st,z3.simplify(g),'no signed overflow','safety')
        fr.regs[I.dst]=s.binop(st,I.op,a,b,w,I)
    def i_fbin(s,st,fr,I):
        a=s.opnd(st,fr,I.ops[0]); b=s.opnd(st,fr,I.ops[1])
        if I.ty[0]=='v':
            fr.regs[I.dst]=[s.fop(I.op,s.fl(x,I.ty[2][1]),s.fl(y,I.ty[2][1]),I.ty[2][1]) for x,y in zip(a,b)]; return
        a=s.fl(a,I.ty[1]); b=s.fl(b,I.ty[1])
        if I.op=='fdiv' and s.fmode=='real' and not isinstance(b,(Fraction,FSpec)):
            if s.o.get('divcheck',True):
                s.oblig(st,b!=0,'real division by zero','fdiv')
        if I.op=='fdiv' and s.fmode=='real' and isinstance(b,Fraction) and b==0 and not isinstance(a,(Fraction,FSpec)):
            s.oblig(st,FALSE,'real division by zero','fdiv'); raise PathEnd()
        if I.op=='frem': fr.regs[I.dst]=s.frem(st,a,b,I.ty[1]); return
        fr.regs[I.dst]=s.fop(I.op,a,b,I.ty[1])
    def fl(s,v,w):
        if isinstance(v,Undef): return s.ffresh('undef',w)
        return v
    def frem(s,st,a,b,w):
        if isinstance(a,Fraction) and isinstance(b,Fraction) and b!=0: return s.fop('frem',a,b,w)
        raise Unsupported('frem')
    def i_fneg(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0])
        fr.regs[I.dst]=[s.fneg(x) for x in v] if isinstance(v,list) else s.fneg(s.fl(v,I.ty[1]))
    def i_icmp(s,st,fr,I):
        fr.regs[I.dst]=s.icmp(st,I.x[0],s.opnd(st,fr,I.ops[0]),s.opnd(st,fr,I.ops[1]),I.x[1])
    def i_fcmp(s,st,fr,I):
        a=s.opnd(st,fr,I.ops[0]); b=s.opnd(st,fr,I.ops[1])
        if isinstance(a,list): fr.regs[I.dst]=[s.fcmp(I.x[0],x,y) for x,y in zip(a,b)]; return
        w=I.x[1][1]
        fr.regs[I.dst]=s.fcmp(I.x[0],s.fl(a,w),s.fl(b,w))
    def i_cast(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); op=I.op; src=I.x; dst=I.ty
        if isinstance(v,list) and src[0]=='v' and dst[0]=='v':
            fr.regs[I.dst]=[s.cast(st,op,x,src[2],dst[2]) for x in v]; return
        fr.regs[I.dst]=s.cast(st,op,v,src,dst)
    def cast(s,st,op,v,src,dst):
        if op=='zext': return s.zext(st,v,src[1],dst[1])
        if op=='sext': return s.sext(st,v,src[1],dst[1])
        if op=='trunc': return s.trunc(v,src[1],dst[1])
        if op=='ptrtoint':
            if isinstance(v,Ptr) and v.oid==0: return v.off&M64 if isint(v.off) else v.off
            if isinstance(v,Undef): return v
            r=PInt(v)
            if dst[1]<64: return s.trunc(r,64,dst[1])
            return r
        if op=='inttoptr': return s.as_type(st,v,('p',))
        if op=='bitcast':
            if src[0]=='v' or dst[0]=='v': raise Unsupported('vector bitcast')
            return s.as_type(st,v,dst)
        if op in('fptrunc','fpext'):
            if isinstance(v,Undef): return s.ffresh('undef',dst[1])
            if s.fmode=='real': return v
            return z3.fpFPToFP(z3.RNE(),v,s.fsort(dst[1]))
        if op in('sitofp','uitofp'):
            w=src[1]
            if isinstance(v,Undef): return s.ffresh('undef',dst[1])
            if isint(v):
                x=sgn(v,w) if op=='sitofp' else v
                if s.fmode=='real': return Fraction(x)
                return s.fconst(float(x),dst[1])
            if isinstance(v,Pieces): v=pieces_bv(v)
            if s.fmode=='real':
                if isbool(v): return z3.If(v,z3.RealVal(1 if op=='uitofp' else -1),z3.RealVal(0))
                return z3.ToReal(z3.BV2Int(v,op=='sitofp'))
            v=tobv(v,w)
            return (z3.fpSignedToFP if op=='sitofp' else z3.fpUnsignedToFP)(z3.RNE(),v,s.fsort(dst[1]))
        if op in('fptosi','fptoui'):
            w=dst[1]
            if isinstance(v,Undef): return fresh('undef',w)
            if isinstance(v,Fraction): return int(v)&MASK[w]
            if isinstance(v,FSpec):
                return 1<<(w-1)
            if s.fmode=='real':
                t=z3.If(v>=0,z3.ToInt(v),-z3.ToInt(-v))
                return z3.Int2BV(t,w)
            return z3.fpToSBV(z3.RTZ(),v,z3.BitVecSort(w)) if op=='fptosi' else z3.fpToUBV(z3.RTZ(),v,z3.BitVecSort(w))
        raise Unsupported(op)
    def i_gep(s,st,fr,I):
        p=s.opnd(st,fr,I.ops[0]); const,idx=I.x
        off=const
        for o,scale,w in idx:
            v=s.opnd(st,fr,o)
            if isinstance(v,Undef): v=fresh('undef',w)
            if w<64: v=s.sext(st,v,w,64)
            if isinstance(v,Pieces): v=pieces_bv(v)
            if isinstance(v,PInt): v=pint_bv(v)
            if isint(v) and isint(off): off=off+s64(v&M64)*scale
            else: off=ladd(off&M64 if isint(off) else off,lmul(v,scale))
        if isinstance(p,PInt): p=p.p
        if isint(p): p=Ptr(0,p)
        fr.regs[I.dst]=s.padd(p,off)
    def i_alloca(s,st,fr,I):
        n=s.opnd(st,fr,I.ops[0])
        if not isint(n): raise Unsupported('variable alloca')
        nm='%'+fr.f.slotname.get(I.dst,str(I.dst))
        o=s.new_obj(st,'cells',I.x*n,'stack',nm)
        fr.allocas=fr.allocas+(o.oid,)
        fr.regs[I.dst]=Ptr(o.oid,0)
    def i_load(s,st,fr,I):
        p=s.opnd(st,fr,I.ops[0])
        fr.regs[I.dst]=s.load(st,p,I.ty)
    def i_store(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); p=s.opnd(st,fr,I.ops[1])
        if isinstance(p,PCond): 
            p=s.resolve(st,p)
        s.store(st,p,v,I.x)
    def i_select(s,st,fr,I):
        c=s.opnd(st,fr,I.ops[0]); a=s.opnd(st,fr,I.ops[1]); b=s.opnd(st,fr,I.ops[2])
        if isinstance(c,list): fr.regs[I.dst]=[s.viteT(x if isint(x) else tobool(x),y,z,I.ty[2]) for x,y,z in zip(c,a,b)]; return
        if isinstance(c,Undef): c=fresh('undef','bool')
        if isint(c): fr.regs[I.dst]=a if c else b; return
        fr.regs[I.dst]=s.viteT(tobool(c),a,b,I.ty)
    def i_phi(s,st,fr,I): raise Unsupported('phi order')
    def i_extractvalue(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0])
        if isinstance(v,Undef): fr.regs[I.dst]=v; return
        for i in I.x[0]: v=v[i]
        fr.regs[I.dst]=v
    def i_insertvalue(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); x=s.opnd(st,fr,I.ops[1])
        def ins(v,path,ty):
            if not path: return x
            n=len(ty[1]) if ty[0]=='s' else ty[1]
            l=list(v) if isinstance(v,list) else [UNDEF]*n
            sub=ty[1][path[0]] if ty[0]=='s' else ty[2]
            l[path[0]]=ins(l[path[0]],path[1:],sub); return l
        fr.regs[I.dst]=ins(v,I.x[0],I.x[1])
    def i_extractelement(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); i=s.opnd(st,fr,I.ops[1])
        if not isint(i): raise Unsupported('vector index')
        fr.regs[I.dst]=v[i] if isinstance(v,list) else v
    def i_insertelement(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); x=s.opnd(st,fr,I.ops[1]); i=s.opnd(st,fr,I.ops[2])
        l=list(v) if isinstance(v,list) else [UNDEF]*I.ty[1]
        l[i]=x; fr.regs[I.dst]=l
    def i_shufflevector(s,st,fr,I):
        a=s.opnd(st,fr,I.ops[0]); b=s.opnd(st,fr,I.ops[1]); n=I.x[1][1]
        if not isinstance(a,list): a=[UNDEF]*n
        if not isinstance(b,list): b=[UNDEF]*n
        fr.regs[I.dst]=[UNDEF if m<0 else (a+b)[m] for m in I.x[0]]
    def i_freeze(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0])
        if isinstance(v,Undef) and I.ty[0]!='p': v=s.undef(I.ty)
        fr.regs[I.dst]=v
    def i_unreachable(s,st,fr,I):
        s.oblig(st,FALSE,'unreachable code not reached','safety'); raise PathEnd()
    def i_ret(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]) if I.ops else None
        st.frames.pop()
        for oid in fr.allocas:
            o=st.mem.get(oid)
            if o is not None:
                o=s.wobj(st,oid); o.alive=False; o.cells={}; o.cols={}
        if not st.frames: st.retval=v; return True
        up=st.frames[-1]
        if fr.dst is not None: up.regs[fr.dst]=v
        st.retval=v
        if fr.retblk is not None: st.pending=fr.retblk
        return True
    def i_br(s,st,fr,I):
        if not I.ops: st.pending=I.x[0]; return True
        c=s.opnd(st,fr,I.ops[0])
        if isinstance(c,Undef): c=fresh('undef','bool')
        ctx=s.ctxs[-1]
        if isint(c):
            if c and True: t=I.x[0 if True else 1]
            # LLVM-C successor order: 0 = true
            st.pending=I.x[0] if c else I.x[1]
            if ctx.header is not None and len(st.frames)==ctx.depth and not ctx.conc_exit:
                other=I.x[1] if c else I.x[0]
                if (other not in ctx.body) and I.ops[0][0]=='r' : ctx.conc_exit=True
            return True
        c=tobool(c)
        t=s.branch(st,c)
        if t[0] and t[1]:
            o=st.fork()
            o.pc.append(s.neg(c)); o.pending=I.x[1]
            o.known[c.get_id()]=False; o.notes=o.notes+(c,)
            st.known[c.get_id()]=True; st.notes=st.notes+(c,)
            st.pc.append(c); st.pending=I.x[0]
            return [o,st]
        if t[0]: st.pending=I.x[0]; s.learn(st,c); return True
        if t[1]: st.pending=I.x[1]; s.learn(st,s.neg(c)); return True
        raise PathEnd()
    def learn(s,st,c):
        # implied conditions are kept: cheap and they carry instantiation terms
        st.pc.append(c)
    def neg(s,c):
        if z3.is_not(c): return c.arg(0)
        return z3.Not(c)
    def branch(s,st,c):
        k=st.known.get(c.get_id())
        if k is not None: return (k,not k)
        c2=z3.simplify(c)
        if z3.is_true(c2): return (True,False)
        if z3.is_false(c2): return (False,True)
        t=s.feasible(st,c)
        if not t: return (False,True)
        f=s.feasible(st,s.neg(c))
        return (t,f)
    def i_switch(s,st,fr,I):
        v=s.opnd(st,fr,I.ops[0]); dflt,cases=I.x
        if isinstance(v,Pieces): v=pieces_bv(v)
        if isint(v):
            for k,t in cases:
                if k==v: st.pending=t; return True
            st.pending=dflt; return True
        if isinstance(v,Undef): raise Unsupported('switch on uninitialised')
        w=v.size(); groups={}
        for k,t in cases: groups.setdefault(t,[]).append(k)
        out=[]; nots=[]
        for t,ks in groups.items():
            c=z3.Or(*[v==bvv(k,w) for k in ks]) if len(ks)>1 else v==bvv(ks[0],w)
            nots.append(z3.Not(c))
            if t==dflt: continue
            if s.feasible(st,c):
                o=st.fork(); o.pc.append(c); o.pending=t; out.append(o)
        # default: all cases not leading elsewhere
        dc=z3.And(*[z3.Not(v==bvv(k,w)) for k,t in cases if t!=dflt])
        if s.feasible(st,dc):
            o=st.fork(); o.pc.append(dc); o.pending=dflt; out.append(o)
        if not out: raise PathEnd()
        return out
    # ------------------------------------------------------------ calls
    def i_call(s,st,fr,I):
        callee=I.x[0]
        if callee[0]=='asm': raise Unsupported('inline asm')
        if callee[0]=='fn': name=callee[1]
        else:
            p=s.opnd(st,fr,callee)
            if isinstance(p,PInt): p=p.p
            if isinstance(p,PCond): p=s.resolve(st,p)
            if isinstance(p,Undef):
                s.oblig(st,FALSE,'indirect call through uninitialised pointer','safety'); raise PathEnd()
            if isinstance(p,Ptr):
                s.oblig(st,FALSE,'indirect call through null or data pointer','safety'); raise PathEnd()
            if not isinstance(p,FnPtr): raise Unsupported('indirect call target')
            name=p.name
        args=[s.opnd(st,fr,o) for o in I.ops]
        dst=I.dst if I.ty[0]!='void' else None
        retblk=I.x[2] if I.op=='invoke' else None
        if retblk is None: fr.ip+=1
        try:
            return s.call(st,name,args,dst,I.ty,retblk)
        except Fork:
            if retblk is None: fr.ip-=1
            raise
    def finish(s,st,v,dst,retblk):
        fr=st.frames[-1]
        if dst is not None: fr.regs[dst]=v
        if retblk is not None: st.pending=retblk
        return True
    def call(s,st,name,args,dst,ty,retblk):
        h=s.builtin(name)
        if h is not None:
            v=h(s,st,args,ty)
            if isinstance(v,tuple) and v and v[0]=='fork':   # [(state,value)...]
                out=[]
                for x,val in v[1]:
                    s.finish(x,val,dst,retblk); out.append(x)
                return out
            s.finish(st,v,dst,retblk); return True
        dn=s.demname(name)
        if s.stubs:
            k=plain_name(dn)
            if k not in s.stubs: k=k.split('(')[0]
            if k in s.stubs and s.stubs[k]!=name and not any(fr.f.name==s.stubs[k] for fr in st.frames):
                # modular step: the caller is checked against the callee's contract (its own body is under contract in another unit)
                s.assumed.setdefault('contract of %s used in place of its body (its body is checked against the contract in a unit of its own)'%k,1)
                name=s.stubs[k]; dn=s.demname(name)
                if name not in s.mod.funcs: raise Unsupported('no contract '+name)
        F=s.mod.funcs.get(name)
        c=s.contract_for(dn)
        if c is not None:
            v=c(s,st,args,ty)
            if isinstance(v,tuple) and v and v[0]=='fork':
                out=[]
                for x,val in v[1]:
                    s.finish(x,val,dst,retblk); out.append(x)
                return out
            s.finish(st,v,dst,retblk); return True
        if F is None or F.isdecl:
            raise Unsupported('external function '+dn)
        if dn.startswith('FUAssertion::OnAssertionFailed'):
            pass
        s.funcs_seen[dn]=s.funcs_seen.get(dn,0)+1
        F.decode()
        if len(st.frames)>s.call_depth_limit: raise Unsupported('call depth')
        if s.is_merge(dn):
            v=s.call_pure(st,F,args,ty)
            s.finish(st,v,dst,retblk); return True
        s.push(st,F,args,dst,retblk,ty)
        return True
    def push(s,st,F,args,dst,retblk,ty):
        nf=Frame(F,[None]*F.nslots,dst); nf.retblk=retblk; nf.rty=ty
        for (slot,aty,nm),v in zip(F.args,args):
            nf.regs[slot]=v
        st.frames.append(nf)
        if F.blocks[0].phis: raise Unsupported('entry phi')
        return nf
    def is_merge(s,dn):
        base=dn.split('(')[0]
        if 'spec_' in base: return True
        for r in s.cfg_merge:
            if re.search(r,dn): return True
        return False
    def contract_for(s,dn):
        r=s._ccache.get(dn,0)
        if r!=0: return r
        r=None
        for pat,fn in s.contracts.items():
            if re.search(pat,dn): r=fn; break
        s._ccache[dn]=r
        return r
    def call_pure(s,st,F,args,ty):
        """executes a call on a copy of the state and merges the results (the callee may only write to its own frame, otherwise memory is merged)"""
        F.decode()
        base=st.fork(); s.push(base,F,args,None,None,ty)
        base.pending=None
        depth=len(base.frames)
        n0=len(base.pc)
        strict=s.strict; s.strict=True
        try: outs=s.explore(base,Ctx(depth))
        finally: s.strict=strict
        if not outs: raise PathEnd()
        if len(outs)==1:
            o=outs[0][1]; s.adopt(st,o); return o.retval
        # merge
        states=[o for _,o in outs]
        m=s.merge_states(states,n0,st,ty)
        if m is None: raise Unsupported('cannot merge results of '+F.name)
        v=m.retval
        s.adopt(st,m)
        return v
    def adopt(s,st,o):
        st.mem=o.mem; st.pc=o.pc; st.facts=o.facts; st.ghost=o.ghost; st.notes=o.notes; st.known=o.known; st.id=o.id
        st.id=State.nid()
    def merge_states(s,states,n0,base,ty):
        """merges states with identical control position; n0 = length of the common path condition"""
        # relative conditions
        suff=[]
        for x in states:
            if [c.get_id() for c in x.pc[:n0]]!=[c.get_id() for c in base.pc[:n0]]: return None
            cs=x.pc[n0:]
            suff.append(z3.And(*cs) if len(cs)>1 else (cs[0] if cs else TRUE))
        m=states[-1].fork()
        for i in range(len(states)-2,-1,-1):
            x=states[i]; c=suff[i]
            try:
                if not s.merge_into(m,x,c,ty): return None
            except (Unsupported,NeedWidth): return None
        m.pc=list(base.pc)
        o=z3.simplify(z3.Or(*suff))
        if not z3.is_true(o): m.pc.append(o)
        kn={}
        for k,v in states[0].known.items():
            if all(x.known.get(k)==v for x in states): kn[k]=v
        m.known=kn
        ids=[id(f) for f in m.facts]
        fs=list(m.facts)
        for x in states:
            for f in x.facts:
                if id(f) not in ids: ids.append(id(f)); fs.append(f)   # facts are unconditional (they carry their own guards)
        m.facts=tuple(fs)
        return m
    def merge_into(s,m,x,c,ty):
        """m := if c then x else m"""
        if ty is not None and ty[0]!='void': m.retval=s.mval(c,x.retval,m.retval,ty)
        if len(m.frames)!=len(x.frames): return False
        for fm,fx in zip(m.frames,x.frames):
            if fm.f is not fx.f or fm.bi!=fx.bi or fm.ip!=fx.ip: return False
            if fm.allocas!=fx.allocas:
                fm.allocas=tuple(dict.fromkeys(fm.allocas+fx.allocas))
            if fm.regs!=fx.regs or True:
                for i,(a,b) in enumerate(zip(fx.regs,fm.regs)):
                    if a is b: continue
                    if a is None or b is None: fm.regs[i]=None; continue
                    t=s.regty(fm.f,i)
                    try: fm.regs[i]=s.mval(c,a,b,t)
                    except (Unsupported,NeedWidth): fm.regs[i]=None
        for oid,ox in x.mem.items():
            om=m.mem.get(oid)
            if om is ox: continue
            if om is None: m.mem[oid]=ox; continue
            if om.alive!=ox.alive: return False
            if not om.alive: continue
            if om.kind!=ox.kind: return False
            om=s.wobj(m,oid)
            if om.size is not ox.size and not (isint(om.size) and isint(ox.size) and om.size==ox.size):
                if same_idx(om.size,ox.size) is not True:
                    om.size=s.vite64(c,ox.size,om.size); om.count=None
            if om.kind=='cells':
                keys=set(om.cells)|set(ox.cells)
                for k in sorted(keys):
                    a=ox.cells.get(k); b=om.cells.get(k)
                    if a==b and a is not None and a[1] is b[1]: continue
                    if a is not None and b is not None and a[0]==b[0]:
                        if a[1] is b[1] or (isint(a[1]) and isint(b[1]) and a[1]==b[1]): continue
                        om.cells[k]=(a[0],s.mval(c,a[1],b[1],s.guess2(a[1],b[1],a[0])))
                    elif a is None and b is not None:
                        # x has no cell exactly here: read through
                        try:
                            av=s.cell_read(x,ox,k,b[0],s.guess_ty(b[1],b[0]))
                        except Unsupported: return False
                        if isinstance(av,Undef): continue
                        om.cells[k]=(b[0],s.mval(c,s.as_type(m,av,s.guess_ty(b[1],b[0])),b[1],s.guess_ty(b[1],b[0])))
                    elif b is None and a is not None:
                        try: bv=s.cell_read(m,om,k,a[0],s.guess_ty(a[1],a[0]))
                        except Unsupported: return False
                        t=s.guess_ty(a[1],a[0])
                        s.cell_write(m,om,k,a[0],a[1] if isinstance(bv,Undef) else s.mval(c,a[1],s.as_type(m,bv,t),t))
                        om=m.mem[oid]
                    else: return False
            else:
                if om.esz!=ox.esz:
                    if om.esz is None: om.esz=ox.esz
                    elif ox.esz is not None: return False
                for k in set(om.cols)|set(ox.cols):
                    a=ox.cols.get(k); b=om.cols.get(k)
                    if a is b: continue
                    if a is not None and b is not None and a.kind=='store' and b.kind=='store' and a.prev is b.prev and a.ty==b.ty and same_idx(a.a[0],b.a[0]) is True:
                        om.cols[k]=Col('store',a.ty,a.prev,(a.a[0],s.mval(c,a.a[1],b.a[1],s.guess2(a.a[1],b.a[1],k[1])))); continue
                    if a is None or b is None:
                        om.cols[k]=a or b; 
                        if not ((a or b).kind=='uf'): return False
                        continue
                    om.cols[k]=Col('ite',a.ty,None,(c,a,b))
        for k,v in x.ghost.items():
            if k not in m.ghost or m.ghost[k] is not v:
                w=m.ghost.get(k)
                if isinstance(v,tuple) and isinstance(w,tuple) and len(v)==len(w) and all(a is b or (a[0]==b[0] and a[2] is b[2]) for a,b in zip(v,w)): continue
                if not isinstance(v,tuple): m.ghost.setdefault(k,v); continue
                return False
        return True
    def guess2(s,a,b,n):
        t=s.guess_ty(a,n)
        if t[0]=='i':
            t2=s.guess_ty(b,n)
            if t2[0]!='i': return t2
            if (isbool(a) or (isint(a) and a in(0,1))) and (isbool(b) or (isint(b) and b in(0,1))) and n==1 and (isbool(a) or isbool(b)): return ('i',1)
        return t
    def mval(s,c,a,b,ty):
        if a is b: return a
        if ty is None:
            return s.vite(c,a,b)
        if ty[0]=='s': return [s.mval(c,x,y,t) for x,y,t in zip(a,b,ty[1])]
        if ty[0] in('a','v'): return [s.mval(c,x,y,ty[2]) for x,y in zip(a,b)]
        return s.viteT(c,a,b,ty)
    def regty(s,F,i):
        r=getattr(F,'_rt',None)
        if r is None:
            r={}
            for slot,t,n in F.args: r[slot]=t
            for B in F.blocks:
                for I in B.phis: r[I.dst]=I.ty
                for I in B.insts: r[I.dst]=I.ty
            F._rt=r
        return r.get(i)
    # ------------------------------------------------------------ builtins
    def builtin(s,name):
        h=BUILTINS.get(name)
        if h is not None: return h
        if name.startswith('llvm.'):
            for p,f in LLVMB:
                if name.startswith(p): return f
            raise Unsupported('intrinsic '+name)
        return None
    def cstr(s,st,p):
        out=b''
        o=st.mem[p.oid]
        if isinstance(p,Ptr) and p.oid==0: return ''
        for i in range(4096):
            v=s.load(st,s.padd(p,i),('i',8))
            if not isint(v): return out.decode('latin1')+'?'
            if v==0: break
            out+=bytes([v])
        return out.decode('latin1')
    def name_arg(s,st,p):
        n=s.cstr(st,p)
        return n

def bi(*names):
    def d(f):
        for n in names: BUILTINS[n]=f
        return f
    return d
BUILTINS={}

# --- allocation
def alloc(s,st,n,tag,name):
    n=s.conc(n)
    if isint(n):
        if n>1<<40: raise Unsupported('huge allocation')
        if n>s.o.get('maxcells',8192):
            return s.new_obj(st,'arr',n,tag,name)
        return s.new_obj(st,'cells',n,tag,name)
    s.note_assume(st,'allocations succeed and requested sizes stay below 2^62 bytes')
    st.pc.append(z3.ULT(n,bvv(1<<62,64)))
    return s.new_obj(st,'arr',n,tag,name)
Interp.note_assume=lambda s,st,t: s.assumed.__setitem__(t,s.assumed.get(t,0)+1)
@bi('malloc','_Znwm','_Znam')
def b_malloc(s,st,a,ty):
    fn,line=s.loc(st)
    return Ptr(alloc(s,st,a[0],'heap','heap#%d'%s.nextoid).oid,0)
@bi('calloc')
def b_calloc(s,st,a,ty):
    n=s.binop(st,'mul',a[0],a[1],64,None)
    o=alloc(s,st,n,'heap','heap#%d'%s.nextoid)
    p=Ptr(o.oid,0)
    if o.kind=='cells': o.initf=True
    else: raise Unsupported('symbolic calloc')
    return p
@bi('_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t')
def b_newnt(s,st,a,ty): return b_malloc(s,st,a,ty)
@bi('free','_ZdlPv','_ZdlPvm','_ZdaPv','_ZdaPvm')
def b_free(s,st,a,ty):
    p=a[0]
    if isinstance(p,PCond): p=s.resolve(st,p)
    if isinstance(p,PInt): p=p.p
    if isinstance(p,Undef): s.oblig(st,FALSE,'free of uninitialised pointer','safety'); raise PathEnd()
    if p.oid==0:
        if isint(p.off) and p.off==0: return None
        s.oblig(st,FALSE,'free of invalid pointer','safety'); raise PathEnd()
    o=st.mem.get(p.oid)
    if o is None or o.tag!='heap' or not (isint(p.off) and p.off==0):
        s.oblig(st,FALSE,'free of a pointer that was not allocated','safety'); raise PathEnd()
    if not o.alive:
        s.oblig(st,FALSE,'double free','safety'); raise PathEnd()
    o=s.wobj(st,p.oid); o.alive=False; o.cells={}; o.cols={}
    return None
@bi('realloc')
def b_realloc(s,st,a,ty):
    p,n=a
    if isinstance(p,PCond): p=s.resolve(st,p)
    if p.oid==0: return b_malloc(s,st,[n],ty)
    o,_=s.getobj(st,p,'realloc')
    q=Ptr(alloc(s,st,n,'heap','heap#%d'%s.nextoid).oid,0)
    old=o.size
    c=tobv(old,64); nn=tobv(n,64)
    if isint(old) and isint(n): m=min(old,n)
    else:
        if s.known_true(st,z3.ULE(c,nn)): m=old
        elif s.known_true(st,z3.ULE(nn,c)): m=n
        else: m=z3.If(z3.ULE(c,nn),c,nn)
    s.memcopy(st,q,p,m,'realloc copy')
    b_free(s,st,[p],ty)
    return q
@bi('memcpy','memmove')
def b_memcpy(s,st,a,ty):
    d=s.rp(st,a[0]); r=s.rp(st,a[1])
    s.memcopy(st,d,r,a[2],'memcpy' )
    return a[0]
def b_memmove(s,st,a,ty):
    s.memcopy(st,s.rp(st,a[0]),s.rp(st,a[1]),a[2],'memmove'); return a[0]
BUILTINS['memmove']=b_memmove
def _rp(s,st,p):
    if isinstance(p,PCond): p=s.resolve(st,p)
    if isinstance(p,PInt): p=p.p
    if isint(p): p=Ptr(0,p)
    return p
Interp.rp=_rp
@bi('memset')
def b_memset(s,st,a,ty):
    v=a[1]
    v=s.trunc(v,32,8) if not isint(v) else v&255
    s.memfill(st,s.rp(st,a[0]),v,a[2]); return a[0]
# --- math
def m1(op):
    def f(s,st,a,ty): return s.mathfn(st,op,a,ty[1])
    return f
for nm in ('sqrt','sin','cos','tan','acos','asin','atan','atan2','floor','ceil','exp','log','pow','fmod','cbrt','log10'):
    BUILTINS[nm]=m1(nm); BUILTINS[nm+'f']=m1(nm)
def b_fabs(s,st,a,ty): 
    v=a[0]
    return [s.fabs(x) for x in v] if isinstance(v,list) else s.fabs(s.fl(v,ty[1]))
BUILTINS['fabs']=b_fabs; BUILTINS['fabsf']=b_fabs
def mathfn(s,st,op,a,w):
    if all(isinstance(x,Fraction) for x in a):
        x=a[0]
        if op=='sqrt' and x>=0:
            n,d=math.isqrt(x.numerator),math.isqrt(x.denominator)
            if n*n==x.numerator and d*d==x.denominator: return Fraction(n,d)
        if op in('sin','tan','asin','atan') and x==0: return Fraction(0)
        if op=='cos' and x==0: return Fraction(1)
        if op=='floor': return Fraction(math.floor(x))
        if op=='ceil': return Fraction(math.ceil(x))
        if op=='pow' and a[1].denominator==1 and (x!=0 or a[1]>=0): return x**int(a[1])
        if op=='fmod' and a[1]!=0: return s.fop('frem',a[0],a[1],w)
    if s.fmode=='fp':
        if op=='sqrt': return z3.fpSqrt(z3.RNE(),a[0])
        if op=='floor': return z3.fpRoundToIntegral(z3.RTN(),a[0])
        if op=='ceil': return z3.fpRoundToIntegral(z3.RTP(),a[0])
        raise Unsupported(op+' in fp mode')
    if any(isinstance(x,FSpec) for x in a): raise Unsupported(op+' of special')
    a=[s.rt(x) for x in a]
    if op in('floor','ceil'):
        return z3.ToReal(z3.ToInt(a[0])) if op=='floor' else -z3.ToReal(z3.ToInt(-a[0]))
    if op=='tan':
        sn=mathfn(s,st,'sin',a,w); cs=mathfn(s,st,'cos',a,w)
        if s.o.get('divcheck',True): s.oblig(st,cs!=0,'tangent defined','fdiv')
        return sn/cs
    f=z3.Function('m_'+op,*([z3.RealSort()]*(len(a)+1)))
    a=[z3.simplify(x,som=True) for x in a]
    r=f(*a)
    if op=='sqrt':
        s.oblig(st,a[0]>=0,'square root of a non-negative number','fdiv')
        s.axiom(st,('sqrt',r.get_id()),r,lambda:[r>=0,r*r==a[0]])   # a[0]>=0 is an obligation just above
    elif op in('sin','cos'):
        sn=z3.Function('m_sin',z3.RealSort(),z3.RealSort())(a[0]); cs=z3.Function('m_cos',z3.RealSort(),z3.RealSort())(a[0])
        s.axiom(st,('sc',sn.get_id()),sn,lambda:[sn*sn+cs*cs==1,sn<=1,sn>=-1,cs<=1,cs>=-1])
    elif op in('acos','asin'):
        cs=z3.Function('m_cos',z3.RealSort(),z3.RealSort())(r); sn=z3.Function('m_sin',z3.RealSort(),z3.RealSort())(r)
        s.oblig(st,z3.And(a[0]>=-1,a[0]<=1),'%s of a number between -1 and 1'%op,'fdiv')
        if op=='acos': s.axiom(st,('acos',r.get_id()),r,lambda:[cs==a[0],sn>=0,r>=0,sn*sn+cs*cs==1])
        else: s.axiom(st,('asin',r.get_id()),r,lambda:[sn==a[0],cs>=0,sn*sn+cs*cs==1])
    elif op=='atan2':
        cs=z3.Function('m_cos',z3.RealSort(),z3.RealSort())(r); sn=z3.Function('m_sin',z3.RealSort(),z3.RealSort())(r)
        h=z3.Function('m_hypot',z3.RealSort(),z3.RealSort(),z3.RealSort())(*a)
        s.axiom(st,('atan2',r.get_id()),r,lambda:[h>=0,h*h==a[0]*a[0]+a[1]*a[1],h*cs==a[1],h*sn==a[0],sn*sn+cs*cs==1])
    s.assumed['mathematical functions of the C library return their real-number values']=1
    return r
Interp.mathfn=mathfn
def axiom(s,st,key,keep,mk):
    if key in st.ghost: return
    st.ghost[key]=keep
    for c in mk(): st.pc.append(c)
Interp.axiom=axiom
@bi('isnan','isinf','_ZSt5isnanf','_ZSt5isnand','_ZSt5isinff','_ZSt5isinfd','__isnan','__isinf','__isnanf','__isinff','finite')
def b_isnan(s,st,a,ty):
    raise Unsupported('isnan/isinf')
@bi('abs')
def b_abs(s,st,a,ty):
    v=a[0]
    if isint(v): return abs(sgn(v,32))&MASK[32]
    return z3.If(v<0,-v,v)
# --- misc libc
def undef_ret(s,st,a,ty): return s.undef(ty) if ty[0]!='void' else None
@bi('__cxa_atexit','__cxa_guard_acquire','__cxa_guard_release','puts','printf','fflush','fprintf','fputs')
def b_zero(s,st,a,ty): return 0 if ty[0]!='void' else None
@bi('__cxa_guard_acquire')
def b_guard(s,st,a,ty):
    return 1
@bi('__cxa_pure_virtual')
def b_pure(s,st,a,ty):
    s.oblig(st,FALSE,'pure virtual call','safety'); raise PathEnd()
@bi('abort','exit','_exit','__assert_fail','_ZSt9terminatev','__cxa_throw_bad_array_new_length')
def b_abort(s,st,a,ty):
    s.oblig(st,FALSE,'program abort','safety'); raise PathEnd()
# --- llvm intrinsics
def l_memcpy(s,st,a,ty): s.memcopy(st,s.rp(st,a[0]),s.rp(st,a[1]),a[2],'memcpy')
def l_memcpy_struct(s,st,a,ty): s.memcopy(st,s.rp(st,a[0]),s.rp(st,a[1]),a[2],'struct copy')
def l_memmove(s,st,a,ty): s.memcopy(st,s.rp(st,a[0]),s.rp(st,a[1]),a[2],'memmove')
def l_memset(s,st,a,ty): s.memfill(st,s.rp(st,a[0]),a[1],a[2])
def l_minmax(p):
    def f(s,st,a,ty):
        c=s.icmp(st,p,a[0],a[1],ty)
        return s.viteT(c,a[0],a[1],ty)
    return f
def l_fmm(p):
    def f(s,st,a,ty):
        c=s.fcmp(p,a[0],a[1]); return s.viteT(c,a[0],a[1],ty)
    return f
def l_abs(s,st,a,ty):
    c=s.icmp(st,'slt',a[0],0,ty); 
    return s.viteT(c,s.binop(st,'sub',0,a[0],ty[1],None),a[0],ty)
def l_fmuladd(s,st,a,ty): return s.fop('fadd',s.fop('fmul',a[0],a[1],ty[1]),a[2],ty[1])
def l_ovf(op,signed):
    def f(s,st,a,ty):
        w=ty[1][0][1]
        r=s.binop(st,op,a[0],a[1],w,None)
        A=[z3.SignExt(w,tobv(x,w)) if signed else z3.ZeroExt(w,tobv(x,w)) for x in a]
        full={'add':lambda:A[0]+A[1],'sub':lambda:A[0]-A[1],'mul':lambda:A[0]*A[1]}[op]()
        e=(z3.SignExt(w,tobv(r,w)) if signed else z3.ZeroExt(w,tobv(r,w)))!=full
        return [r,s.b(z3.simplify(e))]
    return f
def l_fsh(left):
    def f(s,st,a,ty):
        w=ty[1]; x,y,n=a
        if not isint(n): raise Unsupported('funnel shift')
        n%=w
        if n==0: return x if left else y
        if isint(x) and isint(y):
            v=(x<<w)|y
            return ((v<<n)>>w)&MASK[w] if left else (v>>n)&MASK[w]
        X,Y=tobv(x,w),tobv(y,w)
        return (X<<n)|z3.LShR(Y,w-n) if left else (X<<(w-n))|z3.LShR(Y,n)
    return f
def l_nop(s,st,a,ty): return None
def l_trap(s,st,a,ty):
    s.oblig(st,FALSE,'trap not reached','safety'); raise PathEnd()
def l_expect(s,st,a,ty): return a[0]
def l_objsize(s,st,a,ty): return MASK[ty[1]]
def l_bswap(s,st,a,ty):
    w=ty[1]; v=a[0]
    if isint(v): return int.from_bytes(v.to_bytes(w//8,'little'),'big')
    return z3.Concat(*[z3.Extract(8*i+7,8*i,v) for i in range(w//8)])
def l_copysign(s,st,a,ty):
    x=s.fabs(a[0]); c=s.fcmp('olt',a[1],s.fconst(0.0,ty[1]))
    return s.viteT(c,s.fneg(x),x,ty)
def l_isfpclass(s,st,a,ty):
    if s.fmode=='real':
        v=a[0]
        m=a[1]
        if isinstance(v,FSpec):
            return int(bool(m&(3 if v.k=='nan' else (0x200 if v.k=='+inf' else 0x4))))
        if not (m&~(3|0x204)): return 0
    else:
        m=a[1]; v=a[0]; cs=[]
        if m&3: cs.append(z3.fpIsNaN(v))
        if m&0x204==0x204: cs.append(z3.fpIsInf(v))
        if not(m&~(0x207)): return z3.simplify(z3.Or(*cs))
    raise Unsupported('is.fpclass')
LLVMB=[('llvm.memcpy',l_memcpy_struct),('llvm.memmove',l_memmove),('llvm.memset',l_memset),('llvm.umin',l_minmax('ult')),('llvm.umax',l_minmax('ugt')),('llvm.smin',l_minmax('slt')),('llvm.smax',l_minmax('sgt')),
('llvm.minnum',l_fmm('olt')),('llvm.maxnum',l_fmm('ogt')),('llvm.abs.',l_abs),('llvm.fabs',b_fabs),('llvm.sqrt',m1('sqrt')),('llvm.sin',m1('sin')),('llvm.cos',m1('cos')),('llvm.floor',m1('floor')),('llvm.ceil',m1('ceil')),('llvm.pow',m1('pow')),('llvm.fmuladd',l_fmuladd),('llvm.fma',l_fmuladd),
('llvm.uadd.with',l_ovf('add',False)),('llvm.usub.with',l_ovf('sub',False)),('llvm.umul.with',l_ovf('mul',False)),('llvm.sadd.with',l_ovf('add',True)),('llvm.ssub.with',l_ovf('sub',True)),('llvm.smul.with',l_ovf('mul',True)),
('llvm.fshl',l_fsh(True)),('llvm.fshr',l_fsh(False)),('llvm.stacksave',lambda s,st,a,ty:NULL),('llvm.stackrestore',l_nop),('llvm.lifetime',l_nop),('llvm.dbg',l_nop),('llvm.trap',l_trap),('llvm.debugtrap',l_trap),('llvm.expect',l_expect),('llvm.objectsize',l_objsize),('llvm.bswap',l_bswap),('llvm.copysign',l_copysign),('llvm.is.fpclass',l_isfpclass),('llvm.va_',l_nop),('llvm.is.constant',lambda s,st,a,ty:0)]

DISPATCH={}
for _o in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'): DISPATCH[_o]=Interp.i_bin
for _o in ('fadd','fsub','fmul','fdiv','frem'): DISPATCH[_o]=Interp.i_fbin
for _o in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptrunc','fpext','sitofp','uitofp','fptosi','fptoui'): DISPATCH[_o]=Interp.i_cast
for _o in ('fneg','icmp','fcmp','gep','alloca','load','store','select','phi','extractvalue','insertvalue','extractelement','insertelement','shufflevector','freeze','unreachable','ret','br','switch','call'): DISPATCH[_o]=getattr(Interp,'i_'+_o)
DISPATCH['invoke']=Interp.i_call
