"""Loads LLVM bitcode (via the LLVM-C API of the installed libLLVM-18) and decodes functions lazily."""
import ctypes, ctypes.util, struct, glob
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, POINTER, byref, c_double

_paths = ['/usr/lib/llvm-18/lib/libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so']
L = None
for _p in _paths + glob.glob('/usr/lib/llvm-*/lib/libLLVM*.so*'):
    try:
        L = ctypes.CDLL(_p); break
    except OSError:
        continue
V = c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args)
    return fn
CreateBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ParseBC = _f('LLVMParseBitcode2', c_int, V, POINTER(V))
GetDataLayout = _f('LLVMGetModuleDataLayout', V, V)
FirstFn = _f('LLVMGetFirstFunction', V, V); NextFn = _f('LLVMGetNextFunction', V, V)
FirstGl = _f('LLVMGetFirstGlobal', V, V); NextGl = _f('LLVMGetNextGlobal', V, V)
FirstAl = _f('LLVMGetFirstGlobalAlias', V, V); NextAl = _f('LLVMGetNextGlobalAlias', V, V)
AliasGetAliasee = _f('LLVMAliasGetAliasee', V, V)
GetName2 = _f('LLVMGetValueName2', c_void_p, V, POINTER(c_size_t))
CountBB = _f('LLVMCountBasicBlocks', c_uint, V)
FirstBB = _f('LLVMGetFirstBasicBlock', V, V); NextBB = _f('LLVMGetNextBasicBlock', V, V)
FirstI = _f('LLVMGetFirstInstruction', V, V); NextI = _f('LLVMGetNextInstruction', V, V)
Opcode = _f('LLVMGetInstructionOpcode', c_int, V)
NumOps = _f('LLVMGetNumOperands', c_int, V); GetOp = _f('LLVMGetOperand', V, V, c_uint)
TypeOf = _f('LLVMTypeOf', V, V); TKind = _f('LLVMGetTypeKind', c_int, V)
IntW = _f('LLVMGetIntTypeWidth', c_uint, V)
ValKind = _f('LLVMGetValueKind', c_int, V)
ICmpPred = _f('LLVMGetICmpPredicate', c_int, V); FCmpPred = _f('LLVMGetFCmpPredicate', c_int, V)
ZExtV = _f('LLVMConstIntGetZExtValue', c_ulonglong, V)
DblV = _f('LLVMConstRealGetDouble', c_double, V, POINTER(c_int))
CountParams = _f('LLVMCountParams', c_uint, V); GetParam = _f('LLVMGetParam', V, V, c_uint)
NumSucc = _f('LLVMGetNumSuccessors', c_uint, V); GetSucc = _f('LLVMGetSuccessor', V, V, c_uint)
CountInc = _f('LLVMCountIncoming', c_uint, V); IncV = _f('LLVMGetIncomingValue', V, V, c_uint); IncB = _f('LLVMGetIncomingBlock', V, V, c_uint)
CalledV = _f('LLVMGetCalledValue', V, V); NumArg = _f('LLVMGetNumArgOperands', c_uint, V)
GEPSrc = _f('LLVMGetGEPSourceElementType', V, V)
AllocTy = _f('LLVMGetAllocatedType', V, V)
StoreSize = _f('LLVMStoreSizeOfType', c_ulonglong, V, V); ABISize = _f('LLVMABISizeOfType', c_ulonglong, V, V)
ElemOff = _f('LLVMOffsetOfElement', c_ulonglong, V, V, c_uint)
ElemTy = _f('LLVMGetElementType', V, V); ArrLen = _f('LLVMGetArrayLength2', c_ulonglong, V); VecSz = _f('LLVMGetVectorSize', c_uint, V)
CountSE = _f('LLVMCountStructElementTypes', c_uint, V); StructEl = _f('LLVMStructGetTypeAtIndex', V, V, c_uint)
GlobVT = _f('LLVMGlobalGetValueType', V, V); GetInit = _f('LLVMGetInitializer', V, V); IsConstG = _f('LLVMIsGlobalConstant', c_int, V)
NumIdx = _f('LLVMGetNumIndices', c_uint, V); GetIdx = _f('LLVMGetIndices', POINTER(c_uint), V)
IsCStr = _f('LLVMIsConstantString', c_int, V); GetStr = _f('LLVMGetAsString', c_void_p, V, POINTER(c_size_t))
DataEl = _f('LLVMGetElementAsConstant', V, V, c_uint); AggEl = _f('LLVMGetAggregateElement', V, V, c_uint)
ConstOpc = _f('LLVMGetConstOpcode', c_int, V)
GetLine = _f('LLVMGetDebugLocLine', c_uint, V); GetFile = _f('LLVMGetDebugLocFilename', c_void_p, V, POINTER(c_uint))
IsDecl = _f('LLVMIsDeclaration', c_int, V)
GetNSW = _f('LLVMGetNSW', c_int, V); GetExact = _f('LLVMGetExact', c_int, V)
NumMask = _f('LLVMGetNumMaskElements', c_uint, V); MaskV = _f('LLVMGetMaskValue', c_int, V, c_uint)
FnTypeRet = _f('LLVMGetReturnType', V, V)
IsUnd = _f('LLVMIsUndef', c_int, V); IsPoison=_f('LLVMIsPoison', c_int, V)
BBasV=_f('LLVMBasicBlockAsValue', V, V); ValAsBB=_f('LLVMValueAsBasicBlock', V, V)
CaseVal = GetOp

VK = {0:'arg',1:'bb',2:'memuse',3:'memdef',4:'memphi',5:'fn',6:'alias',7:'ifunc',8:'gvar',9:'blockaddr',10:'cexpr',11:'carr',12:'cstruct',13:'cvec',14:'undef',15:'zero',16:'cdarr',17:'cdvec',18:'cint',19:'cfp',20:'null',21:'ctok',22:'md',23:'asm',24:'inst',25:'poison'}
OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',59:'landingpad',58:'resume',55:'fence',56:'cmpxchg',57:'atomicrmw'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Inst:
    __slots__ = ('op','dst','ty','ops','x','line','file','nsw')
    def __repr__(self): return f'{self.op} %{self.dst} {self.ops} {self.x} @{self.line}'

class Block:
    __slots__ = ('idx','name','phis','insts','succs','loop')

class Func:
    def __init__(self, mod, v, name):
        self.mod=mod; self.v=v; self.name=name; self.decoded=False; self.isdecl=bool(IsDecl(v))
        self.dem=None
    def decode(self):
        if not self.decoded:
            self.mod._decode(self); self.decoded=True
        return self

# constants in operands: python objects:  ('r',slot) | ('k',const)
# const: ('i',w,val) ('f',w,double) ('null',) ('g',name,off) ('fn',name) ('undef',ty) ('agg',[(off,size,ty,const)...],ty) ('zero',ty)
class Module:
    def __init__(self, path):
        buf=V(); err=c_char_p()
        if CreateBuf(path.encode(), byref(buf), byref(err)): raise IOError(err.value)
        m=V()
        if ParseBC(buf, byref(m)): raise IOError('bitcode parse failed')
        self.m=m; self.dl=GetDataLayout(m); self.tcache={}; self.funcs={}; self.globs={}; self.aliases={}; self._names={}
        f=FirstFn(m)
        while f:
            n=self.name(f); self.funcs[n]=Func(self,f,n); f=NextFn(f)
        g=FirstGl(m)
        while g:
            self.globs[self.name(g)]=g; g=NextGl(g)
        a=FirstAl(m)
        while a:
            self.aliases[self.name(a)]=self.name(AliasGetAliasee(a)); a=NextAl(a)
        for n,t in self.aliases.items():
            if t in self.funcs: self.funcs[n]=self.funcs[t]
    def name(self, v):
        n=c_size_t(); p=GetName2(v, byref(n)); return ctypes.string_at(p, n.value).decode()
    def ty(self, t):
        r=self.tcache.get(t)
        if r is not None: return r
        k=TKind(t)
        if k==0: r=('void',)
        elif k==2: r=('f',32)
        elif k==3: r=('f',64)
        elif k==4: r=('f',80)
        elif k==8: r=('i',IntW(t))
        elif k==12: r=('p',)
        elif k==10:
            n=CountSE(t); els=[self.ty(StructEl(t,i)) for i in range(n)]; offs=[ElemOff(self.dl,t,i) for i in range(n)]
            r=('s',tuple(els),tuple(offs),ABISize(self.dl,t))
        elif k==11: e=ElemTy(t); r=('a',ArrLen(t),self.ty(e),ABISize(self.dl,e))
        elif k==13: e=ElemTy(t); r=('v',VecSz(t),self.ty(e),StoreSize(self.dl,e))
        elif k==7: r=('lbl',)
        elif k==14: r=('md',)
        elif k==9: r=('fnty',)
        else: r=('?',k)
        self.tcache[t]=r
        return r
    def size(self, ty):
        k=ty[0]
        if k=='i': return (ty[1]+7)//8
        if k=='f': return {32:4,64:8,80:16}[ty[1]]
        if k=='p': return 8
        if k=='s': return ty[3]
        if k=='a': return ty[1]*ty[3]
        if k=='v': return ty[1]*ty[3]
        raise ValueError(ty)
    def const(self, v):
        k=VK.get(ValKind(v))
        t=self.ty(TypeOf(v))
        if k=='cint': return ('i',t[1],ZExtV(v)) if t[1]<=64 else ('undef',t)
        if k=='cfp':
            lost=c_int(); return ('f',t[1],DblV(v,byref(lost)))
        if k=='null': return ('null',)
        if k in('undef','poison'): return ('undef',t)
        if k=='zero': return ('zero',t)
        if k=='fn': return ('fn',self.name(v))
        if k=='gvar': return ('g',self.name(v),0)
        if k=='alias':
            n=self.name(v); t2=self.aliases[n]
            return ('fn',n) if t2 in self.funcs else ('g',t2,0)
        if k in('carr','cstruct','cvec','cdarr','cdvec'):
            out=[]
            if k=='cdarr' and IsCStr(v):
                n=c_size_t(); p=GetStr(v,byref(n)); s=ctypes.string_at(p,n.value)
                for i,c in enumerate(s): out.append((i,('i',8,c)))
                return ('agg',out,t)
            if t[0]=='s':
                for i in range(len(t[1])): out.append((t[2][i],self.const(AggEl(v,i))))
            else:
                for i in range(t[1]): out.append((i*t[3],self.const(AggEl(v,i))))
            return ('agg',out,t)
        if k=='cexpr':
            op=OPC.get(ConstOpc(v))
            if op=='gep':
                base=self.const(GetOp(v,0)); off=self._cgep(v)
                if base[0]=='g': return ('g',base[1],base[2]+off)
                if base[0]=='null': return ('i',64,off)
                return ('undef',t)
            if op in('bitcast','addrspacecast'): return self.const(GetOp(v,0))
            if op=='ptrtoint': return ('p2i',t[1],self.const(GetOp(v,0)))
            if op=='inttoptr': return ('i2p',self.const(GetOp(v,0)))
            if op in('sub','add','trunc','icmp'): return ('cx',op,[self.const(GetOp(v,i)) for i in range(NumOps(v))],t)
            return ('undef',t)
        if k=='md': return ('md',)
        return ('undef',t)
    def _cgep(self,v):
        t=self.ty(GEPSrc(v)); off=0
        for i in range(1,NumOps(v)):
            c=self.const(GetOp(v,i)); x=c[2]
            if x>=1<<63: x-=1<<64
            if c[1]==32 and x>=1<<31: x-=1<<32
            if i==1: off+=x*self.size(t)
            elif t[0]=='s': off+=t[2][x]; t=t[1][x]
            else: off+=x*t[3]; t=t[2]
        return off
    def _decode(self, F):
        slots={}
        F.args=[]
        for i in range(CountParams(F.v)):
            a=GetParam(F.v,i); slots[a]=len(slots); F.args.append((slots[a],self.ty(TypeOf(a)),self.name(a)))
        bbs=[]; b=FirstBB(F.v)
        while b: bbs.append(b); b=NextBB(b)
        bidx={BBasV(b):i for i,b in enumerate(bbs)}; bidx2={b:i for i,b in enumerate(bbs)}
        raw=[]
        for b in bbs:
            lst=[]; i=FirstI(b)
            while i:
                lst.append(i); slots[i]=len(slots); i=NextI(i)
            raw.append(lst)
        F.slotname={}
        def opnd(v):
            s=slots.get(v)
            if s is not None: return ('r',s)
            return ('k',self.const(v))
        F.blocks=[]
        for bi,lst in enumerate(raw):
            B=Block(); B.idx=bi; B.phis=[]; B.insts=[]; B.succs=[]; B.name=self.name(BBasV(bbs[bi])); B.loop=None
            for iv in lst:
                op=OPC.get(Opcode(iv),'?%d'%Opcode(iv))
                I=Inst(); I.op=op; I.dst=slots[iv]; I.ty=self.ty(TypeOf(iv)); I.ops=None; I.x=None; I.nsw=False
                I.line=GetLine(iv); I.file=None
                nm=self.name(iv)
                if nm: F.slotname[I.dst]=nm
                if op=='phi':
                    I.x={}
                    for k in range(CountInc(iv)): I.x[bidx2[IncB(iv,k)]]=opnd(IncV(iv,k))
                    B.phis.append(I); continue
                if op=='br':
                    n=NumSucc(iv); I.x=[bidx2[GetSucc(iv,k)] for k in range(n)]
                    I.ops=[opnd(GetOp(iv,0))] if n==2 else []
                    B.succs=list(I.x)
                elif op=='switch':
                    I.ops=[opnd(GetOp(iv,0))]; n=NumSucc(iv)
                    I.x=(bidx2[GetSucc(iv,0)],[(self.const(GetOp(iv,2*k))[2],bidx2[GetSucc(iv,k)]) for k in range(1,n)])
                    B.succs=[I.x[0]]+[b for _,b in I.x[1]]
                elif op in('call','invoke'):
                    cv=CalledV(iv); n=NumArg(iv)
                    ck=VK.get(ValKind(cv))
                    if ck=='asm': callee=('asm',)
                    elif ck in('fn','alias') : callee=('fn',self.name(cv))
                    else: callee=opnd(cv)
                    nm=callee[1] if callee[0]=='fn' else ''
                    if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') or nm.startswith('llvm.experimental.noalias'): continue
                    I.ops=[opnd(GetOp(iv,k)) for k in range(n)]; I.x=(callee,[self.ty(TypeOf(GetOp(iv,k))) for k in range(n)])
                    if op=='invoke': B.succs=[bidx2[GetSucc(iv,0)]]; I.x=I.x+(B.succs[0],)
                elif op=='gep':
                    t=self.ty(GEPSrc(iv)); base=opnd(GetOp(iv,0)); const=0; idx=[]
                    tt=t
                    for k in range(1,NumOps(iv)):
                        o=GetOp(iv,k); x=opnd(o)
                        if k==1: scale=self.size(t)
                        elif tt[0]=='s':
                            ii=x[1][2]; const+=tt[2][ii]; tt=tt[1][ii]; continue
                        else: scale=tt[3]; tt=tt[2]
                        if x[0]=='k' and x[1][0]=='i':
                            c=x[1][2]; w=x[1][1]
                            if c>>(w-1): c-=1<<w
                            const+=c*scale
                        elif x[0]=='k': idx.append((('k',('i',64,0)),scale,64))
                        else: idx.append((x,scale,self.ty(TypeOf(o))[1]))
                    I.ops=[base]; I.x=(const,idx)
                elif op=='alloca':
                    I.ops=[opnd(GetOp(iv,0))]; I.x=self.size(self.ty(AllocTy(iv)))
                elif op in('icmp','fcmp'):
                    I.ops=[opnd(GetOp(iv,0)),opnd(GetOp(iv,1))]
                    I.x=(ICMP[ICmpPred(iv)] if op=='icmp' else FCMP[FCmpPred(iv)], self.ty(TypeOf(GetOp(iv,0))))
                elif op in('extractvalue','insertvalue'):
                    I.ops=[opnd(GetOp(iv,k)) for k in range(NumOps(iv))]
                    p=GetIdx(iv); I.x=([p[k] for k in range(NumIdx(iv))], self.ty(TypeOf(GetOp(iv,0))))
                elif op=='shufflevector':
                    I.ops=[opnd(GetOp(iv,0)),opnd(GetOp(iv,1))]; I.x=([MaskV(iv,k) for k in range(NumMask(iv))], self.ty(TypeOf(GetOp(iv,0))))
                elif op=='store':
                    I.ops=[opnd(GetOp(iv,0)),opnd(GetOp(iv,1))]; I.x=self.ty(TypeOf(GetOp(iv,0)))
                elif op in('landingpad','unreachable'):
                    I.ops=[]
                else:
                    I.ops=[opnd(GetOp(iv,k)) for k in range(NumOps(iv))]
                    if I.ops and NumOps(iv)>0: I.x=self.ty(TypeOf(GetOp(iv,0)))
                    if op in('add','sub','mul','shl'): I.nsw=bool(GetNSW(iv))
                    if op in('sdiv','udiv','lshr','ashr'): I.nsw=bool(GetExact(iv))
                B.insts.append(I)
            F.blocks.append(B)
        ln=c_uint(); 
        F.nslots=len(slots)
        self._loops(F)
    def _loops(self,F):
        n=len(F.blocks)
        preds=[[] for _ in range(n)]
        for b in F.blocks:
            for s in b.succs: preds[s].append(b.idx)
        # reachable order
        order=[];seen=set()
        st=[(0,iter(F.blocks[0].succs))] if n else []
        seen.add(0)
        while st:
            b,it=st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s,iter(F.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
        order=order[::-1]; pos={b:i for i,b in enumerate(order)}
        dom={b:None for b in order}; dom[0]={0}
        full=set(order); 
        for b in order: 
            if b!=0: dom[b]=full
        ch=True
        while ch:
            ch=False
            for b in order:
                if b==0: continue
                ps=[dom[p] for p in preds[b] if p in pos]
                nd=set.intersection(*ps)|{b} if ps else {b}
                if nd!=dom[b]: dom[b]=nd; ch=True
        loops={}
        for b in order:
            for s in F.blocks[b].succs:
                if s in dom[b]:  # back edge
                    body=loops.setdefault(s,{s}); stack=[b]
                    while stack:
                        x=stack.pop()
                        if x in body: continue
                        body.add(x); stack.extend(p for p in preds[x] if p in pos)
        F.loops=loops   # header -> set(blocks)
        for h in loops: F.blocks[h].loop=loops[h]

import subprocess
def demangle(names):
    names=list(names)
    if not names: return {}
    try:
        out=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
    except FileNotFoundError:
        out=subprocess.run(['llvm-cxxfilt-18'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
    return dict(zip(names,out))
