"""Symbolic values: ints (python int | z3 BV | z3 Bool for i1), pointers, linear 64-bit forms, reals."""
import z3
from fractions import Fraction
M64=(1<<64)-1

class Unsupported(Exception): pass

class Ptr:
    __slots__=('oid','off','idx')
    def __init__(s,oid,off=0,idx=None): s.oid=oid; s.off=off; s.idx=idx
    def __repr__(s): return f'Ptr({s.oid},{s.off}{"" if s.idx is None else ",#"+str(s.idx)})'
NULL=Ptr(0,0)
class FnPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return f'Fn({s.name})'
class PInt:
    """integer obtained from a pointer"""
    __slots__=('p',)
    def __init__(s,p): s.p=p
    def __repr__(s): return f'PInt({s.p})'
class PHalf:
    """half of a pointer turned into an integer, its low bit (zero) dropped"""
    __slots__=('p',)
    def __init__(s,p): s.p=p
    def __repr__(s): return f'PHalf({s.p})'
class Pieces:
    """an integer made of adjacent memory pieces [(nbytes,val,ty)]"""
    __slots__=('parts',)
    def __init__(s,parts): s.parts=parts
    def __repr__(s): return f'Pieces({s.parts})'
class FBits:
    """bit pattern of a float kept opaque"""
    __slots__=('v','w')
    def __init__(s,v,w): s.v=v; s.w=w
class FSpec:
    """infinity / nan in real mode"""
    __slots__=('k',)
    def __init__(s,k): s.k=k
    def __repr__(s): return f'F{s.k}'
PINF=FSpec('+inf'); NINF=FSpec('-inf'); NAN=FSpec('nan')
class Undef:
    __slots__=()
    def __repr__(s): return 'undef'
UNDEF=Undef()

def isint(v): return isinstance(v,int)
def isbv(v): return isinstance(v,z3.BitVecRef)
def isbool(v): return isinstance(v,z3.BoolRef)

_bv_cache={}
def bvv(v,w):
    k=(v,w); r=_bv_cache.get(k)
    if r is None: r=_bv_cache[k]=z3.BitVecVal(v,w)
    return r
def tobv(v,w):
    if isint(v): return bvv(v&((1<<w)-1),w)
    if isbool(v): return z3.If(v,bvv(1,w),bvv(0,w))
    if isinstance(v,PInt): return pint_bv(v)
    if isbv(v): return v
    if isinstance(v,Pieces): return pieces_bv(v)
    if isinstance(v,FBits): raise Unsupported('float bits as integer')
    raise Unsupported('tobv '+repr(v))
def pieces_bv(v):
    out=[]
    for n,x in v.parts:
        if isinstance(x,(FBits,Ptr,FnPtr)) : raise Unsupported('pieces of non-int')
        if isinstance(x,Pieces): x=pieces_bv(x)
        out.append(tobv(x,8*n) if not isbool(x) else z3.If(x,bvv(1,8),bvv(0,8)))
    return z3.simplify(z3.Concat(*reversed(out))) if len(out)>1 else out[0]
BASE_AXIOMS={}
def base_sym(oid):
    b=z3.BitVec('base!%s'%(oid,),64)
    return b
def pint_bv(v):
    p=v.p
    if isinstance(p,FnPtr): return z3.BitVec('fn!'+p.name,64)
    if p.oid==0: return tobv(p.off,64)
    if p.idx is not None: raise Unsupported('ptrtoint family')
    return base_sym(p.oid)+tobv(p.off,64)
def tobool(v):
    if isint(v): return z3.BoolVal(bool(v))
    if isbool(v): return v
    if isbv(v) and v.size()==1: return v==bvv(1,1)
    raise Unsupported('tobool '+repr(v))
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)

def sgn(v,w):
    return v-(1<<w) if v>>(w-1) else v

# ---- linear forms over 64-bit BV
_lin_cache={}
def lin(v):
    """returns (const, {astid:(term,coef)}) modulo 2^64"""
    if isint(v): return (v&M64,{})
    i=v.get_id(); r=_lin_cache.get(i)
    if r is not None: return r[1]
    k=v.decl().kind()
    if k==z3.Z3_OP_BNUM: res=(v.as_long(),{})
    elif k==z3.Z3_OP_BADD:
        c=0; d={}
        for ch in v.children():
            c2,d2=lin(ch); c+=c2; _acc(d,d2,1)
        res=(c&M64,_clean(d))
    elif k==z3.Z3_OP_BSUB:
        a,b=v.children(); c1,d1=lin(a); c2,d2=lin(b); d={}; _acc(d,d1,1); _acc(d,d2,-1); res=((c1-c2)&M64,_clean(d))
    elif k==z3.Z3_OP_BNEG:
        c1,d1=lin(v.arg(0)); d={}; _acc(d,d1,-1); res=((-c1)&M64,_clean(d))
    elif k==z3.Z3_OP_BMUL and v.num_args()==2 and (z3.is_bv_value(v.arg(0)) or z3.is_bv_value(v.arg(1))):
        a,b=v.arg(0),v.arg(1)
        if not z3.is_bv_value(a): a,b=b,a
        m=a.as_long(); c1,d1=lin(b); d={}; _acc(d,d1,m); res=((c1*m)&M64,_clean(d))
    elif k==z3.Z3_OP_BSHL and z3.is_bv_value(v.arg(1)):
        m=1<<v.arg(1).as_long(); c1,d1=lin(v.arg(0)); d={}; _acc(d,d1,m); res=((c1*m)&M64,_clean(d))
    else: res=(0,{i:(v,1)})
    _lin_cache[i]=(v,res)
    return res
def _acc(d,d2,m):
    for k,(t,c) in d2.items():
        o=d.get(k); d[k]=(t,((o[1] if o else 0)+c*m)&M64)
def _clean(d): return {k:x for k,x in d.items() if x[1]}
def from_lin(c,d):
    if not d: return c&M64
    terms=[]
    for k in sorted(d):
        t,co=d[k]
        if co==1: terms.append(t)
        else: terms.append(t*bvv(co,64))
    r=terms[0]
    for t in terms[1:]: r=r+t
    if c: r=r+bvv(c&M64,64)
    _lin_cache[r.get_id()]=(r,(c&M64,d))
    return r
def ladd(a,b):
    if isint(a) and isint(b): return (a+b)&M64
    c1,d1=lin(a); c2,d2=lin(b); d=dict(d1); _acc(d,d2,1); return from_lin((c1+c2)&M64,_clean(d))
def lsub(a,b):
    if isint(a) and isint(b): return (a-b)&M64
    c1,d1=lin(a); c2,d2=lin(b); d=dict(d1); _acc(d,d2,-1); return from_lin((c1-c2)&M64,_clean(d))
def lmul(a,m):
    if isint(a): return (a*m)&M64
    c1,d1=lin(a); d={}; _acc(d,d1,m); return from_lin((c1*m)&M64,_clean(d))
def s64(x): return x-(1<<64) if x>>63 else x
def ldiv_exact(v,m):
    """v/m when every coefficient divides, else None (signed, assumes no wrap)"""
    c,d=lin(v); c=s64(c)
    if c%m: return None
    nd={}
    for k,(t,co) in d.items():
        co=s64(co)
        if co%m: return None
        nd[k]=(t,(co//m)&M64)
    return from_lin((c//m)&M64,nd)
def ldivmod(v,m):
    """v = m*q + r with constant r in [0,m), or None"""
    c,d=lin(v); c=s64(c); r=c%m
    nd={}
    for k,(t,co) in d.items():
        co=s64(co)
        if co%m: return None
        nd[k]=(t,(co//m)&M64)
    return from_lin(((c-r)//m)&M64,nd), r

_cnt=[0]
def fresh(name,sort):
    _cnt[0]+=1
    n=f'{name}!{_cnt[0]}'
    if isinstance(sort,str): return z3.Bool(n)
    if isinstance(sort,int): return z3.BitVec(n,sort)
    return z3.Const(n,sort)
def fresh_name(name):
    _cnt[0]+=1; return f'{name}!{_cnt[0]}'
def reset_names(): _cnt[0]=0

class PCond:
    """pointer chosen by a symbolic condition"""
    __slots__=('c','a','b')
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b
    def __repr__(s): return f'PCond({s.c},{s.a},{s.b})'
class NeedWidth(Exception): pass
