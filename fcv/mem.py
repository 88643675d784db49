"""Memory objects."""
import z3
from .vals import *

class Col:
    """immutable column of an array object: maps a 64-bit element index to a value"""
    __slots__=('kind','prev','a','ty','ufname')
    def __init__(s,kind,ty,prev=None,a=None): s.kind=kind; s.prev=prev; s.a=a; s.ty=ty; s.ufname=None

def same_idx(a,b):
    if isint(a) and isint(b): return (a&M64)==(b&M64)
    c,d=lin(lsub(a,b))
    if not d: return c==0
    return None

class Obj:
    __slots__=('oid','kind','size','alive','tag','name','cells','esz','cols','owner','const','count','meta','initf')
    def __init__(s,oid,kind,size,tag,name,owner):
        s.oid=oid; s.kind=kind; s.size=size; s.alive=True; s.tag=tag; s.name=name; s.cells={}; s.esz=None; s.cols={}; s.owner=owner; s.const=False; s.count=None; s.meta=None; s.initf=None
    def clone(s,owner):
        o=Obj(s.oid,s.kind,s.size,s.tag,s.name,owner)
        o.alive=s.alive; o.cells=dict(s.cells) if s.cells else {}; o.esz=s.esz; o.cols=dict(s.cols); o.const=s.const; o.count=s.count; o.meta=s.meta; o.initf=s.initf
        return o
