"""Loop handling: complete unrolling of concretely bounded loops; otherwise inductive invariants."""
import z3, time
from .vals import *
from .mem import *
from .engine import *
from .interp import *

class CutFail(Exception): pass

class LV:
    """loop-carried value"""
    __slots__=('key','kind','x0','step','fn','w','ty','inc','obj','facts','cur')
    def __init__(s,key,ty,x0): s.key=key; s.ty=ty; s.x0=x0; s.kind='new'; s.step=None; s.fn=None; s.inc=None

def has_sym(e,names):
    """does the expression contain a constant/function whose name is in `names` (a predicate)"""
    seen=set(); st=[e]
    while st:
        x=st.pop()
        i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED and names(d.name()): return True
            st.extend(x.children())
    return False
def symnum(n):
    i=n.rfind('!')
    if i<0: return -1
    try: return int(n[i+1:])
    except ValueError: return -1
from . import vals as _vals

def is_z3(v): return isinstance(v,z3.ExprRef)

class Loops(Interp):
    def handle_loop(s,st,prev,h,body):
        fr=st.frames[-1]
        dn=s.demname(fr.f.name)
        key=(fr.f.name,h)
        mode='auto'
        if s.mode=='bounded' or s.force_unroll or s.o.get('unrollall'): mode='unroll'
        if mode=='auto' and key in s.cutset: mode='cut'
        nobl=len(s.obls)
        sv=(s.paths,)
        if mode!='cut':
            saved=st.fork() if mode=='auto' else None
            quiet=s.quiet
            try:
                r=s.unroll(st,prev,h,body,mode)
            except Unsupported as e:
                if mode=='unroll' or s.strict: raise
                s.note_unsupported(st,e); r=[]
            if r is not None: return r
            del s.obls[nobl:]
            st=saved
            s.cutset.add(key)
        try:
            return s.cut(st,prev,h,body)
        except (CutFail,Unsupported) as e:
            if s.o.get('trace'):
                import traceback; traceback.print_exc()
            fn,line=s.loc(st)
            raise Unsupported('loop at %s:%d has no invariant within reach (%s)'%(fn[:80],line,e))
    def unroll(s,st,prev,h,body,mode):
        """execute iteration by iteration; returns the exit states, or None when the loop is not concretely bounded"""
        D=len(st.frames)
        fr=st.frames[-1]
        cur=[(prev,st)]; exits=[]; it=0
        lim=s.max_unroll
        nconc=0; nsym=0
        while cur:
            it+=1
            nxt=[]
            for pv,x in cur:
                f=x.frames[-1]
                s.enter(x,f,pv,h)
                x.pending=None
                ctx=Ctx(D,h,body)
                outs=s.explore(x,ctx)
                hasback=False
                for lab,o in outs:
                    if lab=='back': nxt.append((o.frames[-1].bi,o)); hasback=True
                    else: exits.append(o)
                if mode=='auto' and hasback:
                    if len(outs)>1 and not ctx.conc_exit and any(l!='back' for l,_ in outs):
                        return None
                    if not any(l!='back' for l,_ in outs) and not ctx.conc_exit:
                        # exit exists only by infeasibility this round; a symbolic test decided it
                        nconc+=1
                        if nconc>s.o.get('conc',6): return None
                    if ctx.conc_exit and any(l!='back' for l,_ in outs):
                        nsym+=1
                        if nsym>s.o.get('concx',48): return None   # a constant bound far away, and a symbolic exit in every iteration
            if it>=lim and nxt:
                if mode=='auto': return None
                s.bounded_notes.add('loop in %s unrolled only %d times'%(s.demname(fr.f.name)[:100],lim))
                s.cutoff=True
                raise Unsupported('loop limit')
            if mode=='auto' and len(nxt)>s.o.get('unroll_states',5000 if s.o.get('shape') else 64): return None
            if len(nxt)>1:
                nxt=s.merge_loop(nxt)
            cur=nxt
            if len(exits)>s.o.get('maxexits',2000): raise Incomplete('too many paths')
        if len(exits)>8: exits=s.merge_exits(exits)
        return exits
    def common_pc(s,states):
        n=min(len(x.pc) for x in states); i=0
        while i<n and all(x.pc[i] is states[0].pc[i] or x.pc[i].eq(states[0].pc[i]) for x in states[1:]): i+=1
        return i
    def merge_loop(s,nxt):
        groups={}
        for pv,x in nxt: groups.setdefault((pv,tuple((f.bi,f.ip) for f in x.frames)),[]).append(x)
        out=[]
        for (pv,_),l in groups.items():
            if len(l)>=s.o.get('merge_at',3):
                n=s.common_pc(l)
                m=s.merge_states(l,n,l[0],None)
                if m is not None:
                    m.pending=l[0].pending
                    out.append((pv,m)); continue
            out.extend((pv,x) for x in l)
        return out
    def merge_exits(s,exits):
        groups={}
        for x in exits: groups.setdefault((x.pending,tuple((f.bi,f.ip) for f in x.frames)),[]).append(x)
        out=[]
        for k,l in groups.items():
            if len(l)>=8:
                n=s.common_pc(l); m=s.merge_states(l,n,l[0],None)
                if m is not None: m.pending=l[0].pending; out.append(m); continue
            out.extend(l)
        return out

    # ------------------------------------------------------------ inductive treatment
    def cut(s,E,prev,h,body):
        t0=time.time()
        D=len(E.frames); fr=E.frames[-1]; F=fr.f
        B=F.blocks[h]
        k=z3.BitVec(fresh_name('k'),64)
        base=_vals._cnt[0]
        lvs={}
        for I in B.phis:
            v=s.opnd(E,fr,I.x[prev]); lv=LV(('phi',I.dst),I.ty,v); lvs[lv.key]=lv
        cols={}     # (oid,sub,nb) -> list of writes [(start,step,valfn)] or 'havoc'
        E.pending=None
        lc=LoopCut(s,E,prev,h,body,k,lvs,cols,D,base)
        return lc.run()

class LoopCut:
    def __init__(c,s,E,prev,h,body,k,lvs,cols,D,base):
        c.s=s; c.E=E; c.prev=prev; c.h=h; c.body=body; c.k=k; c.lvs=lvs; c.cols=cols; c.D=D; c.base=base
        c.be=None; c.cands=[]; c.inv=[]; c.recfacts=[]; c.prevfacts=()
        c.newsym=lambda n: symnum(n)>c.mark
    # value of a loop-carried variable at iteration t
    def val(c,lv,t):
        s=c.s
        if lv.kind=='same': return lv.x0
        if lv.kind=='lin':
            if lv.ty[0]=='p':
                p=lv.x0; return Ptr(p.oid,ladd(p.off,lmul(t,lv.step)),p.idx)
            w=lv.ty[1]
            if w==64: return ladd(lv.x0,lmul(t,lv.step))
            tt=s.trunc(t,64,w); 
            return s.binop(c.E,'add',lv.x0,s.binop(c.E,'mul',tt,lv.step&MASK[w],w,None),w,None)
        if lv.kind=='uf':
            if isint(t) and t==0: return lv.x0
            if lv.ty[0]=='p': return Ptr(lv.x0.oid,lv.fn(tobv(t,64)),lv.x0.idx)
            r=lv.fn(tobv(t,64))
            if lv.ty==('i',1): return r==bvv(1,1)
            return r
        if lv.kind=='fold': 
            if isint(t) and t==0: return lv.x0
            return lv.fn(tobv(t,64))
        if lv.kind=='iv': # pure function of k
            raise CutFail('kind')
        raise CutFail('value kind '+lv.kind)
    def mkuf(c,lv):
        s=c.s; ty=lv.ty
        nm=fresh_name('X')
        if ty[0]=='i': so=z3.BitVecSort(ty[1])
        elif ty[0]=='f': so=s.fsort(ty[1])
        elif ty[0]=='p':
            if not (isinstance(lv.x0,Ptr) and lv.x0.oid!=0): raise CutFail('loop-carried pointer %r'%(lv.x0,))
            so=z3.BitVecSort(64)
        else: raise CutFail('loop-carried aggregate')
        lv.kind='uf'; lv.fn=z3.Function(nm,z3.BitVecSort(64),so); lv.inc=None
    def scalar(c,lv,v):
        """z3/py scalar representation of a value of this variable"""
        if lv.ty[0]=='p':
            if not isinstance(v,Ptr) or v.oid!=lv.x0.oid: raise CutFail('pointer changes object in the loop')
            return v.off
        return v
    def header_state(c,t,extra):
        """state at the loop header after t iterations"""
        s=c.s
        S=c.E.fork(); fr=S.frames[-1]
        fr.prev=c.prev; fr.bi=c.h; fr.ip=0
        for key,lv in c.lvs.items():
            v=c.val(lv,t)
            if key[0]=='phi': fr.regs[key[1]]=v
            elif key[0]=='cell':
                o=s.wobj(S,key[1]); s.cell_write(S,o,key[2],key[3],v)
            elif key[0]=='size':
                o=s.wobj(S,key[1]); o.size=v; o.count=None
        for (oid,sub,nb),ws in c.cols.items():
            o=s.wobj(S,oid); pc=o.cols.get((sub,nb))
            if pc is None: pc=c.basecol[(oid,sub,nb)]
            o.cols[(sub,nb)]=c.colat(pc,ws,t)
        S.facts=S.facts+tuple(extra)
        return S
    def colat(c,pc,ws,t):
        if isint(t) and t==0: return pc
        if ws['kind']=='havoc':
            f=ws['fn']
            return Col('fn',pc.ty,None,lambda idx: f(tobv(t,64),tobv(idx,64)))
        return Col('loop',pc.ty,pc,[(st,step,vf,t) for (st,step,vf) in ws['w']])
    # -------------------------------------------------------- one iteration from S; returns back and exit states
    def iterate(c,S):
        s=c.s
        return s.explore(S,Ctx(c.D,c.h,c.body))
    def run(c):
        s=c.s
        c.basecol={}
        E=c.E
        for lv in c.lvs.values():
            lv.x0=s.as_type(E,lv.x0,lv.ty) if lv.ty[0] in 'ifp' else lv.x0
            if isinstance(lv.x0,Undef): lv.x0=s.undef(lv.ty) if lv.ty[0]!='p' else lv.x0
            lv.kind='same'
        quiet=s.quiet; strict=s.strict
        rounds=0
        s.quiet=True; s.strict=True
        savedb=s.bounds_seen; s.bounds_seen=[]
        try:
            while True:
                rounds+=1
                if rounds>14: raise CutFail('no fixpoint')
                s.bounds_seen=[]
                c.mark=_vals._cnt[0]
                S=c.header_state(c.k,c.recfacts_now())
                n0=len(S.pc)
                S=S.fork()   # writes of the iteration must not reach the objects remembered here
                c.S_mem=dict(S.mem)
                c.S_regs=list(S.frames[-1].regs)
                outs=c.iterate(S)
                backs=[o for l,o in outs if l=='back']
                if not backs:
                    # no second iteration is possible: the single pass is exact
                    c.backs=[]
                    if c.nontrivial(): raise CutFail('no back edge under generalised state')
                    break
                ch=c.diff(backs,n0)
                if ch: continue
                ch=c.classify(backs,n0)
                if ch: continue
                c.backs=backs; c.n0=n0
                c.build_be(backs,n0)
                break
            if c.backs:
                c.candidates()
                c.houdini()
        finally:
            s.quiet=quiet; s.strict=strict; s.bounds_seen=savedb+s.bounds_seen if quiet else savedb
        # final pass from an arbitrary iteration
        if not c.backs:
            S=c.E; s.enter(S,S.frames[-1],c.prev,c.h)
            outs=c.iterate(S)
            return [o for l,o in outs if l!='back']
        T=z3.BitVec(fresh_name('T'),64)
        S=c.header_state(T,c.facts_at(T))
        for iv in c.inv:
            e=iv(T)
            if e is not None: s.add_pc(S,e)
        s.add_pc(S,z3.ULT(T,bvv(1<<62,64)))
        if not quiet: c.termination(T)
        S0=S.fork() if c.pinnable() else None
        outs=c.iterate(S)
        s.loopstats.append((s.demname(c.E.frames[-1].f.name)[:90],len(c.lvs),len(c.cols),len(c.inv)))
        exits=[o for l,o in outs if l!='back']
        if S0 is not None and exits: exits=c.pin(T,exits)
        return exits
    # -------------------------------------------------------- exit iteration known in closed form
    def pinnable(c): return c.s.o.get('pin',1) and len(c.lvs)+len(c.cols)>0
    def pin(c,T,exits):
        s=c.s; E=c.E
        if len(exits)>6: return exits
        tn=T.decl().name()
        cands=[]; seen=set()
        def add(e):
            if e is None: return
            e=z3.simplify(tobv(e,64))
            if e.get_id() in seen: return
            if has_sym(e,lambda n:n==tn or n==c.kname() or symnum(n)>c.mark): return
            seen.add(e.get_id()); cands.append(e)
        for cd in c.cands:
            if cd[0].startswith('trip') and z3.is_app(cd[2]) and cd[2].num_args()==2:
                for x in cd[2].children():
                    if not has_sym(x,lambda n:n==c.kname()): add(x)
        # index terms of the state before the loop, relative to the loop's own index
        trig={}
        for x in exits:
            for e in x.pc[len(E.pc):]:
                for ai,app in s.uf_apps(e).items():
                    a=app.arg(0)
                    if app.num_args()==1 and isbv(a) and a.size()==64:
                        cc,d=lin(a); ent=d.get(T.get_id())
                        if ent is not None and s64(ent[1]) in(1,-1):
                            trig.setdefault(app.decl().name(),[]).append((lsub(a,lmul(T,s64(ent[1]))),s64(ent[1])))
        ctx=E.pc
        for e in ctx:
            for ai,app in s.uf_apps(e).items():
                l=trig.get(app.decl().name())
                if not l: continue
                for rest,co in l:
                    try: add(lsub(app.arg(0),rest) if co==1 else lsub(rest,app.arg(0)))
                    except Exception: pass
        res=[]; pins=[]
        for x in exits:
            r,sv=s.check(x.pc,x.facts,1500)
            D=None
            if r==z3.unsat: continue
            if r==z3.sat and not isinstance(sv,SV):
                m=sv.model()
                tv=m.eval(T,model_completion=True)
                good=[e for e in cands if m.eval(e,model_completion=True).eq(tv)]
                for e in good[:6]:
                    r2,_=s.check(x.pc+[T!=e],x.facts,2500)
                    if r2==z3.unsat: D=e; break
            if s.o.get('showinv'): print('   PIN',D,'of',len(cands))
            if D is None: res.append(x)
            elif not any(D.eq(d) for d in pins): pins.append(D)
        for D in pins:
            S=c.header_state(D,c.facts_at(D))
            n0=len(S.pc)
            for iv in c.inv:
                e=iv(D)
                if e is not None:
                    e=z3.simplify(e) if not isint(e) else e
                    s.add_pc(S,e)
            s.add_pc(S,z3.ULT(D,bvv(1<<62,64)))
            q=s.quiet; s.quiet=True
            try: outs=c.iterate(S)
            finally: s.quiet=q
            res+=[o for l,o in outs if l!='back']
        return res
    def nontrivial(c): return any(lv.kind!='same' for lv in c.lvs.values()) or c.cols
    def recfacts_now(c): return c.recfacts
    # -------------------------------------------------------- what changed
    def diff(c,backs,n0):
        s=c.s; changed=False
        live0=c.S_mem
        for b in backs:
            fr=b.frames[-1]
            for oid,o in b.mem.items():
                o0=live0.get(oid)
                if o0 is o: continue
                if o0 is None:
                    # created during the iteration
                    if o.alive and o.tag=='heap': raise CutFail('allocation survives the iteration')
                    if o.alive and o.tag=='stack': continue
                    continue
                if o.alive!=o0.alive: raise CutFail('object freed in the loop')
                if not o.alive: continue
                if o.kind!=o0.kind: raise CutFail('object layout changes in the loop')
                if o.size is not o0.size and same_idx(o.size,o0.size) is not True:
                    key=('size',oid)
                    if key not in c.lvs: c.lvs[key]=c.newlv(key,('i',64),o0.size); changed=True
                if o.kind=='cells':
                    for off,(n,v) in o.cells.items():
                        c0=o0.cells.get(off)
                        if c0 is not None and c0[0]==n and (c0[1] is v or (isint(v) and isint(c0[1]) and v==c0[1])): continue
                        key=('cell',oid,off,n)
                        if key in c.lvs: continue
                        ty=s.guess_ty(v,n)
                        if c0 is None or c0[0]!=n:
                            # local scratch first written in the loop
                            try: x0=s.cell_read(c.E,c.E.mem[oid],off,n,ty)
                            except Unsupported: raise CutFail('cell split in loop')
                            if isinstance(x0,Undef): x0=s.undef(ty) if ty[0]!='p' else UNDEF
                            x0=s.as_type(c.E,x0,ty) if not isinstance(x0,Undef) else x0
                        else: 
                            x0=c0[1]
                            if s.guess_ty(x0,n)[0]!='i': ty=s.guess_ty(x0,n)
                        if isinstance(x0,(Pieces,FBits)) : raise CutFail('composite cell')
                        if isbool(v) or isbool(x0): ty=('i',8*n)
                        c.lvs[key]=c.newlv(key,ty,s.as_type(c.E,x0,ty)); changed=True
                else:
                    for kk,col in o.cols.items():
                        col0=o0.cols.get(kk)
                        if col is col0: continue
                        ck=(oid,)+kk
                        if col0 is None:
                            if col.kind=='uf':
                                # lazily created view of unmodified content: share it with the entry state
                                oe=s.wobj(c.E,oid)
                                if kk not in oe.cols: oe.cols[kk]=col
                                changed=True; continue
                            r=col
                            while r.prev is not None: r=r.prev
                            oe=s.wobj(c.E,oid)
                            if oe.esz is None: oe.esz=o.esz; oe.count=None
                            if kk not in oe.cols: oe.cols[kk]=r
                            changed=True; continue
                        if ck not in c.cols:
                            c.cols[ck]=None; c.basecol[ck]=c.E.mem[oid].cols[kk]
                            c.pending_cols=True
                            changed=True
                            f=z3.Function(fresh_name('H'),z3.BitVecSort(64),z3.BitVecSort(64),c.colsort(col0.ty))
                            c.cols[ck]={'kind':'havoc','fn':f,'new':True}
        # frame allocas created inside loops etc. are ignored
        return changed
    def colsort(c,ty):
        if ty[0]=='i': return z3.BitVecSort(ty[1])
        if ty[0]=='f': return c.s.fsort(ty[1])
        raise CutFail('pointer array written in loop')
    def newlv(c,key,ty,x0):
        lv=LV(key,ty,x0); lv.kind='same'; 
        return lv
    def nextval(c,lv,b):
        s=c.s; key=lv.key
        if key[0]=='phi':
            fr=b.frames[-1]
            I=next(I for I in c.E.frames[-1].f.blocks[c.h].phis if I.dst==key[1])
            v=s.opnd(b,fr,I.x[fr.bi])
        elif key[0]=='size': v=b.mem[key[1]].size
        else: v=s.cell_read(b,b.mem[key[1]],key[2],key[3],lv.ty)
        if isinstance(v,Undef):
            if lv.ty[0]=='p': return v
            v=s.undef(lv.ty)
        return s.as_type(b,v,lv.ty)
    def relcond(c,b,n0):
        cs=[x for x in b.pc[n0:]]
        return cs
    def same(c,a,b,lv):
        if a is b: return True
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            return a.oid==b.oid and same_idx(a.off,b.off) is True and (a.idx is b.idx or (a.idx is not None and b.idx is not None and same_idx(a.idx,b.idx)))
        if isinstance(a,(int,Fraction)) and isinstance(b,(int,Fraction)): return a==b
        if isinstance(a,FnPtr) and isinstance(b,FnPtr): return a.name==b.name
        if isinstance(a,Undef) and isinstance(b,Undef): return True
        if is_z3(a) and is_z3(b): return a.eq(b) or (a.sort()==b.sort() and z3.is_true(z3.simplify(a==b)))
        if is_z3(a) and isint(b) and isbv(a):
            r=z3.simplify(a); return z3.is_bv_value(r) and r.as_long()==b
        if is_z3(b) and isint(a): return c.same(b,a,lv)
        return False
    def classify(c,backs,n0):
        s=c.s; changed=False
        for key,lv in list(c.lvs.items()):
            cur=c.val(lv,c.k)
            nx=[c.nextval(lv,b) for b in backs]
            if lv.kind=='same':
                if all(c.same(v,cur,lv) for v in nx): continue
                if lv.ty[0]=='p' and isinstance(lv.x0,Undef):
                    # scratch pointer: defined anew in each iteration
                    if all(isinstance(v,(Ptr,FnPtr,PCond)) for v in nx):
                        lv.kind='same'; continue
                # linear?
                st=c.linstep(lv,cur,nx)
                if st is not None:
                    lv.kind='lin'; lv.step=st
                else:
                    c.mkuf(lv)
                changed=True
            elif lv.kind=='lin':
                exp=c.val(lv,ladd(c.k,1))
                if all(c.same(v,exp,lv) for v in nx): continue
                c.mkuf(lv); changed=True
            elif lv.kind in('uf','fold'):
                if lv.ty[0]=='p':
                    for v in nx: c.scalar(lv,v)
        if changed: return True
        # columns
        for ck,ws in list(c.cols.items()):
            if c.colwrites(ck,ws,backs,n0): changed=True
        if changed: return True
        # recurrences of the uf variables
        c.recfacts=[]
        for key,lv in c.lvs.items():
            if lv.kind!='uf': continue
            nx=[c.scalar(lv,c.nextval(lv,b)) for b in backs]
            e=c.merged(nx,backs,n0,lv.ty if lv.ty[0]!='p' else ('i',64))
            lv.inc=e
            if e is None: continue
        c.recfacts=c.mkrec()
        return False
    def mkrec(c):
        s=c.s; out=[]
        for key,lv in c.lvs.items():
            if lv.kind!='uf': continue
            x0=c.scalar(lv,lv.x0)
            ty=lv.ty if lv.ty[0]!='p' else ('i',64)
            X=lv.fn; nm=X.name()
            def tz(v,ty=ty):
                if ty[0]=='i': return tobv(v,ty[1])
                return s.rt(v) if s.fmode=='real' else v
            z0=tz(x0)
            e=lv.inc
            if e is not None:
                ez=tz(e)
                def fn(idx,X=X,z0=z0,ez=ez):
                    # X(0)=x0 ; X(j+1)=step(j)  for every completed iteration
                    j=z3.simplify(idx-1)
                    return z3.If(idx==0,X(idx)==z0,X(idx)==z3.substitute(ez,(c.k,j)))
                trig={nm:None}
                if is_z3(ez) and X.name() not in [a.decl().name() for a in s.uf_apps(ez).values()]:
                    # the step looks at data and not at the variable itself (a flag): what is read determines it
                    for f,inv in c.triggers(ez).items(): trig[f]=lambda x,inv=inv: (lambda y: None if y is None else z3.simplify(tobv(y,64)+1))(inv(x))
                out.append(Fact(trig,fn,depth=2))
            else:
                out.append(Fact({nm:None},lambda idx,X=X,z0=z0: z3.Implies(idx==0,X(idx)==z0),depth=3))
        return out
    def merged(c,vals,backs,n0,ty):
        """value after the iteration as one expression over k, or None when it depends on symbols invented inside the iteration"""
        s=c.s
        r=None
        if all(c.same(v,vals[0],None) for v in vals[1:]):
            r=vals[0]
        else:
            for v,b in zip(reversed(vals),reversed(backs)):
                if r is None: r=v; continue
                cs=c.relcond(b,n0)
                cond=z3.And(*cs) if len(cs)>1 else (cs[0] if cs else TRUE)
                r=s.viteT(cond,v,r,ty)
        if is_z3(r) and has_sym(r,c.newsym): return None
        return r
    def linstep(c,lv,cur,nx):
        if lv.ty[0]=='p':
            if not all(isinstance(v,Ptr) and isinstance(cur,Ptr) and v.oid==cur.oid and cur.oid!=0 for v in nx): return None
            ds=[lsub(v.off,cur.off) for v in nx]
            if all(v.idx is not None for v in nx) and not all(same_idx(v.idx,cur.idx) for v in nx): return None
            ds=[d for d in ds]
            if all(isint(d) and d==ds[0] for d in ds): return ds[0]
            return None
        if lv.ty[0]!='i' or lv.ty[1]==1: return None
        w=lv.ty[1]
        ds=[]
        for v in nx:
            if w==64: d=lsub(v,cur)
            else:
                if isint(v) and isint(cur): d=(v-cur)&MASK[w]
                else:
                    d=z3.simplify(tobv(v,w)-tobv(cur,w))
                    if z3.is_bv_value(d): d=d.as_long()
            if not isint(d): return None
            ds.append(d)
        if all(d==ds[0] for d in ds): return ds[0]
        return None
    def colwrites(c,ck,ws,backs,n0):
        """describe what one iteration writes to a column. Returns True when the description changed"""
        s=c.s; oid,sub,nb=ck
        cur=c.colof_header(ck)
        lists=[]
        for b in backs:
            col=b.mem[oid].cols[(sub,nb)]; l=[]
            ok=True
            while col is not cur:
                if col.kind!='store': ok=False; break
                l.append(col.a); col=col.prev
            if not ok: lists=None; break
            lists.append(list(reversed(l)))
        desc=None
        if lists is not None:
            # all indices linear in k
            idxs=[]
            for l in lists:
                for i,v in l:
                    if not any(same_idx(i,j) is True for j in idxs): idxs.append(i)
            desc=[]; ty=cur.ty
            for i in idxs:
                cc,d=lin(i)
                ent=d.get(c.k.get_id())
                if ent is None: desc=None; break
                step=s64(ent[1])
                if has_sym_any(d,c,skip=c.k): desc=None; break
                start=lsub(i,lmul(c.k,step))
                vals=[]
                for l,b in zip(lists,backs):
                    v=None
                    for j,x in l:
                        if same_idx(i,j) is True: v=x
                    if v is None: v=s.colval(b,cur,i)   # unchanged on this path
                    vals.append(v)
                if any(isinstance(v,(Ptr,PCond,FnPtr,Undef,Pieces,FBits)) for v in vals): desc=None; break
                e=c.merged(vals,backs,n0,ty)
                if e is None: desc=None; break
                desc.append((start,step,e))
        if desc is not None and len(desc)>1:
            # several writes per iteration: require one stride and distinct residues
            st0=desc[0][1]
            if not all(x[1]==st0 for x in desc): desc=None
            else:
                for a in range(len(desc)):
                    for b2 in range(a):
                        dd=lsub(desc[a][0],desc[b2][0])
                        if not isint(dd) or s64(dd)%st0==0: desc=None; break
                    if desc is None: break
        if desc is None:
            if ws.get('kind')=='havoc' and not ws.get('new'): 
                return False
            if ws.get('kind')=='havoc': ws['new']=False; return False
            f=z3.Function(fresh_name('H'),z3.BitVecSort(64),z3.BitVecSort(64),c.colsort(cur.ty))
            c.cols[ck]={'kind':'havoc','fn':f,'new':False}; return True
        # closed form?
        old=ws
        if old.get('kind')=='loop':
            # verify that the description is stable
            if len(old['desc'])==len(desc) and all(same_idx(a[0],b2[0]) is True and a[1]==b2[1] for a,b2 in zip(old['desc'],desc)):
                for (st_,sp_,e),W in zip(desc,old['W']):
                    W['e']=e
                return False
            f=z3.Function(fresh_name('H'),z3.BitVecSort(64),z3.BitVecSort(64),c.colsort(cur.ty))
            c.cols[ck]={'kind':'havoc','fn':f,'new':False}; return True
        if old.get('kind')=='havoc' and not old.get('new') : 
            return False
        w=[]; W=[]
        for (start,step,e) in desc:
            f=z3.Function(fresh_name('W'),z3.BitVecSort(64),c.colsort(cur.ty))
            w.append((start,step,(lambda j,f=f: f(tobv(j,64))))); W.append({'f':f,'e':e})
        c.cols[ck]={'kind':'loop','w':w,'W':W,'desc':desc}
        return True
    def colof_header(c,ck):
        oid,sub,nb=ck
        return c.S_mem[oid].cols[(sub,nb)]
    def wfacts(c):
        out=[]
        s=c.s
        for ck,ws in c.cols.items():
            if ws['kind']!='loop': 
                f=ws['fn']; continue
            ty=c.basecol[ck].ty
            for W in ws['W']:
                e=W['e']; f=W['f']
                ez=tobv(e,ty[1]) if ty[0]=='i' else (s.rt(e) if s.fmode=='real' else e)
                out.append(Fact({f.name():None},lambda idx,f=f,ez=ez: f(idx)==z3.substitute(ez,(c.k,idx)),depth=3))
        return out
    # -------------------------------------------------------- back-edge condition history
    def build_be(c,backs,n0):
        alts=[]
        for b in backs:
            cs=[]
            for x in b.pc[n0:]:
                if not has_sym(x,c.newsym): cs.append(x)
            alts.append(z3.And(*cs) if len(cs)>1 else (cs[0] if cs else TRUE))
        c.be=z3.simplify(z3.Or(*alts)) if len(alts)>1 else alts[0]
        c.bealts=alts
    def inverse(c,arg,app_arg_template):
        pass
    def facts_at(c,t):
        """facts valid in the header state after t iterations"""
        out=list(c.mkrec())+c.wfacts()
        be=c.be
        if be is not None and not z3.is_true(be):
            trig=c.triggers(be)
            def fn(idx):
                return z3.Implies(z3.ULT(idx,tobv(t,64)),z3.substitute(be,(c.k,idx)))
            if trig: out.append(Fact(trig,fn,depth=2))
        for iv in c.inv:
            e=iv(c.k)
            if e is None or not is_z3(e): continue
            if hasattr(iv,'sk'):
                j0,C=iv.sk; trig=c.triggers(C)
                if trig: out.append(Fact(trig,lambda idx,iv=iv,j0=j0: z3.substitute(iv(t),(j0,idx)),depth=2))
                continue
            trig=c.triggers(e)
            if trig: out.append(Fact(trig,lambda idx,e=e: z3.Implies(z3.ULE(idx,tobv(t,64)),z3.substitute(e,(c.k,idx))),depth=2))
        return out
    def triggers(c,e):
        """uninterpreted functions applied to an argument linear in k (coefficient +-1 or constant multiple)"""
        trig={}
        kid=c.k.get_id()
        for ai,app in c.s.uf_apps(e).items():
            nm=app.decl().name()
            if app.num_args()!=1: continue
            a=app.arg(0)
            if not isbv(a) or a.size()!=64: continue
            cc,d=lin(a); ent=d.get(kid)
            if ent is None: continue
            co=s64(ent[1])
            rest=lsub(a,lmul(c.k,co))
            if co==1: inv=lambda x,rest=rest: tz64(lsub(x,rest))
            elif co==-1: inv=lambda x,rest=rest: tz64(lsub(rest,x))
            else:
                def inv(x,rest=rest,co=co):
                    dv=ldivmod(lsub(x,rest),abs(co))
                    if dv is None or dv[1]!=0: 
                        if co<0: return None
                        return z3.UDiv(tobv(lsub(x,rest),64),bvv(co,64)) if dv is None else None
                    return tz64(dv[0] if co>0 else lsub(0,dv[0]))
            if nm not in trig: trig[nm]=inv
        return trig
    # -------------------------------------------------------- candidate invariants
    def candidates(c):
        s=c.s; E=c.E; cands=[]
        seen={}
        def add(name,f):
            try: e=f(c.k)
            except Unsupported: return
            if e is None: return
            if isint(e): return
            sk=z3.simplify(e); key=sk.get_id()
            if key in seen or z3.is_true(sk): return
            seen[key]=sk; cands.append([name,f,e])
        k=c.k
        # in-bounds accesses
        for idx,n in s.bounds_seen:
            if not is_z3(idx): continue
            if has_sym(idx,c.newsym) or (is_z3(n) and has_sym(n,c.newsym)): continue
            if not c.mentions(idx): continue
            nz=tobv(n,64)
            add('in-bounds',lambda t,idx=idx,nz=nz: z3.ULT(z3.substitute(idx,(k,tobv(t,64))),z3.substitute(nz,(k,tobv(t,64)))))
            add('in-bounds-1',lambda t,idx=idx,nz=nz: z3.ULE(z3.substitute(idx,(k,tobv(t,64))),z3.substitute(nz,(k,tobv(t,64)))))
            # bound relative to the start: idx - start <= n - start
            dv=lin(idx)[1].get(k.get_id())
            if dv is not None and s64(dv[1]) in(1,-1):
                start=lsub(idx,lmul(k,s64(dv[1])))
                if s64(dv[1])==1:
                    bound=tobv(lsub(n,start),64)
                    add('trip-count',lambda t,b=bound: z3.ULE(tobv(t,64),b))
                    add('trip-count<',lambda t,b=bound: z3.ULT(tobv(t,64),b))
                else:
                    bound=tobv(ladd(start,1),64)
                    add('trip-count',lambda t,b=bound: z3.ULE(tobv(t,64),b))
                    b2=tobv(start,64)
                    add('trip-count<',lambda t,b=b2: z3.ULE(tobv(t,64),b))
        # comparisons on the exit path
        for alt in c.bealts:
            for atom in c.atoms(alt):
                c.cmp_cands(atom,add)
        # conditionally incremented counters
        for key,lv in c.lvs.items():
            if lv.kind=='uf' and lv.ty[0] in 'ip' and not (lv.ty[0]=='i' and lv.ty[1]==1):
                w=64 if lv.ty[0]=='p' else lv.ty[1]
                cur=c.scalar(lv,c.val(lv,k)); ds=[]
                for b in c.backs:
                    v=c.scalar(lv,c.nextval(lv,b))
                    d=lsub(v,cur) if w==64 else z3.simplify(tobv(v,w)-tobv(cur,w))
                    if is_z3(d) and z3.is_bv_value(d): d=d.as_long()
                    ds.append(sgn(d,w) if isint(d) else None)
                x0=c.scalar(lv,lv.x0); x0=tobv(x0,w)
                X=lv.fn
                add('lower',lambda t,X=X,x0=x0: z3.UGE(X(tobv(t,64)),x0))
                add('upper',lambda t,X=X,x0=x0: z3.ULE(X(tobv(t,64)),x0))
                if all(d is not None for d in ds):
                    mx=max(ds); mn=min(ds)
                    if mn>=0 and mx>0:
                        add('rate',lambda t,X=X,x0=x0,mx=mx,w=w: z3.ULE(X(tobv(t,64))-x0,s_trunc(s,lmul(t,mx),w)))
                    if mx<=0 and mn<0:
                        add('rate-',lambda t,X=X,x0=x0,mn=mn,w=w: z3.ULE(x0-X(tobv(t,64)),s_trunc(s,lmul(t,-mn),w)))
                # relation to bounds of accessed arrays
                for idx,n in s.bounds_seen:
                    pass
        # equality with registered specification folds
        for key,lv in c.lvs.items():
            if lv.kind!='uf': continue
            for fo in s.folds:
                if fo['ty']!=lv.ty and not (fo['ty'][0]==lv.ty[0]=='f'): continue
                Fn=fo['fn']
                add('fold '+fo['name'],lambda t,X=lv.fn,Fn=Fn: X(tobv(t,64))==Fn(tobv(t,64)))
            # boolean flags and constants that keep their value
            if lv.ty[0]=='i' and isint(lv.x0):
                add('const',lambda t,X=lv.fn,v=lv.x0,w=lv.ty[1]: X(tobv(t,64))==bvv(v,w))
            if c.s.o.get('finv'):
                # values set in every iteration
                vs=[c.nextval(lv,b) for b in c.backs]
                if lv.ty[0]=='i' and vs and all(isint(v) and v==vs[0] for v in vs):
                    add('later',lambda t,X=lv.fn,v=vs[0],w=lv.ty[1]: z3.Or(tobv(t,64)==bvv(0,64),X(tobv(t,64))==(bvv(v,w) if w>1 else z3.BoolVal(bool(v)))))
        for lv in c.lvs.values():
            # a variable that remembers the last iteration with some property: X(k+1) = C(k) ? s0+k : X(k)
            if lv.kind!='uf' or lv.ty!=('i',64): continue
            if lv.inc is None:
                vs=[c.nextval(lv,b) for b in c.backs]; Xk=lv.fn(k)
                vs=[v for v in vs if not (is_z3(v) and z3.eq(z3.simplify(v),Xk))]
                if not vs or not all(is_z3(v) and not has_sym(v,lambda n: n==lv.fn.name() or c.newsym(n)) for v in vs): continue
                s0=lsub(vs[0],k)
                if has_sym(tobv(s0,64),lambda n: n==c.kname()) or not all(same_idx(v,vs[0]) is True for v in vs): continue
                alts=[]
                for b in c.backs:
                    v=c.nextval(lv,b)
                    if is_z3(v) and z3.eq(z3.simplify(v),Xk): continue
                    cs=[x for x in b.pc[c.n0:] if not has_sym(x,c.newsym) and not has_sym(x,lambda n: n==lv.fn.name())]
                    alts.append(z3.And(*cs) if cs else TRUE)
                C=z3.Or(*alts) if len(alts)>1 else alts[0]
                add('last-origin',lambda t,X=lv.fn,s0=tobv(s0,64),x0=tobv(lv.x0,64),C=C: z3.Or(X(tobv(t,64))==x0,z3.And(z3.ULT(X(tobv(t,64))-s0,tobv(t,64)),z3.substitute(C,(k,z3.simplify(X(tobv(t,64))-s0))))))
                continue
            if not is_z3(lv.inc) or not z3.is_app(lv.inc) or lv.inc.decl().kind()!=z3.Z3_OP_ITE: continue
            C,a,b=lv.inc.children(); Xk=lv.fn(k)
            if z3.eq(z3.simplify(a),Xk): C,a,b=z3.Not(C),b,a
            elif not z3.eq(z3.simplify(b),Xk): continue
            s0=lsub(a,k)
            if has_sym(tobv(s0,64),lambda n: n==c.kname() or n==lv.fn.name()) or has_sym(C,lambda n: n==lv.fn.name()): continue
            s0=tobv(s0,64); x0=tobv(lv.x0,64); X=lv.fn; J=lambda x,s0=s0: z3.simplify(x-s0); at=lambda i,C=C: z3.substitute(C,(k,i))
            j0=z3.BitVec(fresh_name('j'),64)
            add('last-origin',lambda t,X=X,J=J,at=at,x0=x0: z3.Or(X(tobv(t,64))==x0,z3.And(z3.ULT(J(X(tobv(t,64))),tobv(t,64)),at(J(X(tobv(t,64)))))))
            def f(t,X=X,J=J,at=at,j0=j0): return z3.Implies(z3.And(z3.ULT(j0,tobv(t,64)),at(j0)),z3.And(z3.ULE(j0,J(X(tobv(t,64)))),z3.ULT(J(X(tobv(t,64))),tobv(t,64))))
            f.sk=(j0,C); add('last-latest',f)
        if c.s.o.get('finv') and s.fmode=='real':
            fl=[lv for lv in c.lvs.values() if lv.kind=='uf' and lv.ty[0]=='f'][:5]
            for lv in fl:
                if isinstance(lv.x0,FSpec): continue
                x0=s.rt(lv.x0)
                add('lower',lambda t,X=lv.fn,x0=x0: X(tobv(t,64))>=x0); add('upper',lambda t,X=lv.fn,x0=x0: X(tobv(t,64))<=x0)
                for l2 in fl:
                    if l2 is not lv: add('order',lambda t,X=lv.fn,Y=l2.fn: X(tobv(t,64))<=Y(tobv(t,64)))
        for name,f in c.user(): add(name,f)
        c.cands=cands
    def user(c):
        return []
    def mentions(c,e):
        if has_sym(e,lambda n: n==c.kname()): return True
        names={lv.fn.name() for lv in c.lvs.values() if lv.kind=='uf'}
        return has_sym(e,lambda n:n in names)
    def kname(c): return c.k.decl().name()
    def atoms(c,e):
        out=[]; st=[e]; 
        while st:
            x=st.pop()
            if z3.is_and(x) or z3.is_or(x) or (z3.is_app(x) and x.decl().kind()==z3.Z3_OP_ITE and z3.is_bool(x)): st.extend(x.children())
            else: out.append(x)
        return out
    def outside_arrays(c,e):
        """the loop index (or a loop variable) occurs outside the arguments of array reads"""
        names={lv.fn.name() for lv in c.lvs.values() if lv.kind=='uf'}
        st=[e]; kn=c.kname(); seen=set()
        while st:
            x=st.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED:
                n=x.decl().name()
                if n==kn or n in names: return True
                continue
            if x.decl().kind()==z3.Z3_OP_ITE: st.extend(x.children()[1:]); continue
            st.extend(x.children())
        return False
    def cmp_cands(c,atom,add):
        s=c.s; k=c.k
        a=atom; neg=False
        while z3.is_not(a): a=a.arg(0); neg=not neg
        if not z3.is_app(a) or a.num_args()!=2 or not isbv(a.arg(0)): return
        kd=a.decl().kind()
        if kd not in(z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT,z3.Z3_OP_ULT,z3.Z3_OP_ULEQ,z3.Z3_OP_UGT,z3.Z3_OP_UGEQ,z3.Z3_OP_SLT,z3.Z3_OP_SLEQ,z3.Z3_OP_SGT,z3.Z3_OP_SGEQ): return
        signed=kd in(z3.Z3_OP_SLT,z3.Z3_OP_SLEQ,z3.Z3_OP_SGT,z3.Z3_OP_SGEQ)
        l,r=a.arg(0),a.arg(1)
        w=l.size()
        isk=lambda e: has_sym(e,lambda n:n==c.kname())
        if has_sym(l,c.newsym) or has_sym(r,c.newsym): return
        kl,kr=isk(l),isk(r)
        if not (c.outside_arrays(l) or c.outside_arrays(r)): return
        # generic: keep the bound with one slack
        sub=lambda e,t: z3.substitute(e,(k,tobv(t,64)))
        if not signed:
            add('cmp<=',lambda t,l=l,r=r: z3.ULE(sub(l,t),sub(r,t))); add('cmp>=',lambda t,l=l,r=r: z3.UGE(sub(l,t),sub(r,t)))
        else:
            add('cmp<=',lambda t,l=l,r=r: sub(l,t)<=sub(r,t)); add('cmp>=',lambda t,l=l,r=r: sub(l,t)>=sub(r,t))
        if kl==kr: return
        if kr: l,r=r,l
        # l depends on k, r does not
        if w==64:
            cc,d=lin(l); ent=d.get(k.get_id())
            if ent is None: return
            co=s64(ent[1]); rest=lsub(l,lmul(k,co))
            D=lsub(r,rest) if co>0 else lsub(rest,r)
            m=abs(co)
            if m!=1:
                q=ldiv_exact(D,m)
                Dz=tobv(q,64) if q is not None else z3.UDiv(tobv(D,64),bvv(m,64))
            else: Dz=tobv(D,64)
            add('trip',lambda t,Dz=Dz: z3.ULE(tobv(t,64),Dz))
            D1=Dz+bvv(1,64)
            add('trip+1',lambda t,D1=D1: z3.ULE(tobv(t,64),D1))
        elif w in(8,16,32):
            # narrow counter: compare the trip count with the widened bound
            kk=z3.Extract(w-1,0,k)
            dlt=z3.simplify(l-kk)
            if not isk(dlt):
                for D in (z3.ZeroExt(64-w,r)-z3.ZeroExt(64-w,dlt),z3.SignExt(64-w,r)-z3.SignExt(64-w,dlt)):
                    D=z3.simplify(D)
                    add('trip',lambda t,D=D: z3.ULE(tobv(t,64),D))
                    add('trip+1',lambda t,D=D: z3.ULE(tobv(t,64),D+1))
            else:
                dlt=z3.simplify(l+kk)
                if not isk(dlt):
                    for D in (z3.ZeroExt(64-w,dlt)-z3.ZeroExt(64-w,r),z3.SignExt(64-w,dlt)-z3.SignExt(64-w,r)):
                        D=z3.simplify(D)
                        add('trip',lambda t,D=D: z3.ULE(tobv(t,64),D))
    def houdini(c):
        s=c.s; E=c.E; k=c.k
        to=s.o.get('houdini_ms',4000); tof=lambda cd: to*6 if cd[0].startswith('fold') else to
        rec0=tuple(c.mkrec()+c.wfacts())
        # base
        keep=[]
        for cd in c.cands:
            e0=cd[1](bvv(0,64))
            e0=z3.simplify(e0)
            if z3.is_true(e0): keep.append(cd); continue
            r,_=s.check(E.pc+[z3.Not(e0)],E.facts+rec0,tof(cd))
            if r==z3.unsat: keep.append(cd)
            elif s.o.get('showinv'): print('  base fails',cd[0],r)
        cands=keep
        # induction: assume all at k, history of the back-edge condition below k
        kp1=z3.simplify(k+1)
        nxt=[]
        for b in c.backs:
            l=[]
            for lv in c.lvs.values():
                if lv.kind!='uf' or lv.inc is not None: continue
                v=c.scalar(lv,c.nextval(lv,b))
                if lv.ty[0] in 'ip' and (is_z3(v) or isint(v)): 
                    X=lv.fn(kp1)
                    if isbv(X): l.append(X==tobv(v,X.size()))
            nxt.append(l)
        for rnd in range(12):
            c.inv=[cd[1] for cd in cands]
            facts=E.facts+tuple(c.facts_at(k))
            drop=[]
            assume=[cd[1](k) for cd in cands]
            for cd in cands:
                goal=cd[1](kp1)
                ok=True
                for b,nx in zip(c.backs,nxt):
                    r,_=s.check(b.pc+nx+assume+[z3.ULT(k,bvv(1<<62,64)),z3.Not(goal)],b.facts[len(E.facts):]+facts,tof(cd))
                    if r!=z3.unsat:
                        ok=False
                        if s.o.get('showinv'): print('  step fails',cd[0],r)
                        break
                if not ok: drop.append(cd)
            if not drop: break
            cands=[cd for cd in cands if cd not in drop]
        else: cands=[]
        c.inv=[cd[1] for cd in cands]; c.invnames=[cd[0] for cd in cands]
        # variables equal to a specification fold are replaced by it
        for cd in cands:
            if cd[0].startswith('fold '): pass
        if s.o.get('showinv'):
            import sys
            print('INV',s.demname(E.frames[-1].f.name)[:60],c.h,[ (cd[0],z3.simplify(cd[2])) for cd in cands],file=sys.stderr)
            print('   alts',c.bealts,file=sys.stderr); print('   lvs',[(lv.key,lv.kind,lv.ty,lv.step) for lv in c.lvs.values()],'cols',{k:(v['kind']) for k,v in c.cols.items()},'BE',c.be,file=sys.stderr)
    def shrinks(c):
        """a difference that stays above a positive constant while the loop runs shrinks by a constant factor every time (after the first)"""
        s=c.s; E=c.E; k=c.k; kp1=z3.simplify(k+1); facts=E.facts+tuple(c.facts_at(k)); assume=[f(k) for f in c.inv]
        fl=[lv for lv in c.lvs.values() if lv.kind=='uf' and lv.ty[0]=='f'][:5]
        for a in fl:
            for b in fl:
                if a is b: continue
                d=lambda t: a.fn(t)-b.fn(t)
                ok=True
                for bk in c.backs:
                    r,_=s.check(bk.pc+assume+[z3.UGE(k,bvv(1,64)),z3.ULT(k,bvv(1<<62,64)),z3.Or(d(k)<=z3.RealVal('1e-30'),d(kp1)>d(k)*z3.RealVal('0.95'))],bk.facts[len(E.facts):]+facts,4000)
                    if r!=z3.unsat: ok=False; break
                if ok: return True
        return False
    def termination(c,T):
        s=c.s
        ok=any(n.startswith('trip') or n.startswith('in-bounds') for n in c.invnames)
        fn,line=s.loc(c.E)
        o=Obl('loop terminates (bounded iteration count)','termination',fn,line); o.unit=s.cur_unit
        if not ok and s.o.get('finv') and c.shrinks(): ok=True
        if ok: o.status='proved'; o.backend='inductive trip-count bound'
        else: o.status='undecided'; o.reason='no decreasing measure found'
        s.obls.append(o)

def tz64(v): return tobv(v,64)
def s_trunc(s,v,w):
    if w==64: return tobv(v,64)
    return tobv(s.trunc(tobv(v,64),64,w),w)
def has_sym_any(d,c,skip):
    for kid,(t,co) in d.items():
        if kid==skip.get_id(): continue
        if has_sym(t,lambda n: n==c.kname() or c.newsym(n)): return True
        names={lv.fn.name() for lv in c.lvs.values() if lv.kind=='uf'}
        if has_sym(t,lambda n:n in names): return True
    return False
