import re,os,glob
from .build import VERIF
class UnitSpec:
    def __init__(s,name,opts,harness): s.name=name; s.opts=opts; s.harness=harness
class HarnessSpec: pass
def parse_opts(t):
    o={}
    for x in t.split(';'):
        x=x.strip()
        if not x: continue
        if '=' in x:
            k,v=x.split('=',1); k=k.strip(); v=v.strip()
            if k in('merge','join','unroll','inv'): o.setdefault(k,[]).append(v)
            elif k=='bounds':
                o[k]={y.split(':')[0]:int(y.split(':')[1]) for y in v.split(',')}
            elif re.fullmatch(r'-?\d+',v): o[k]=int(v)
            else: o[k]=v
        else: o[x]=True
    return o
def load(path):
    t=open(path).read(); h=HarnessSpec(); h.path=path
    h.prop=re.search(r'@property (\w+)',t).group(1)
    h.sources=re.search(r'@sources (.*)',t).group(1).split()
    m=re.search(r'@native (.*)',t); h.native=m.group(1).split() if m else []; h.minimal='whole' not in h.native
    m=re.search(r'@opts (.*)',t); base=parse_opts(m.group(1)) if m else {}
    h.units=[]
    for m in re.finditer(r'^FCV_UNIT\((\w+),\s*"([^"]*)"\)',t,re.M):
        o=dict(base); o.update(parse_opts(m.group(2))); h.units.append(UnitSpec(m.group(1),o,h))
    return h
def for_property(cid):
    return [load(p) for p in sorted(glob.glob(VERIF+'/harness/%s_*.cpp'%cid))]
