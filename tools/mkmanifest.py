#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the harness files present and the notes below."""
import json,os,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={'C30':'whole-document round trip runs through libxml2 and file I/O and heap graphs of unbounded shape: no contract over a function within a deductive verifier\'s reach expresses it; the text/number/keyword/escaping layers it rests on are C02, C06-C08, C15-C17, C26',
'C31':'total robustness of the importer goes through libxml2\'s external C code and the whole import graph; not expressible as contracts on functions within reach (the text readers it calls are covered by C06-C08, C15, C26)',
'C32':'depends on histories of several open documents (file I/O, libxml2, global document list); per-function contracts would have to assume the heap protocol they should establish; the tracker layer below is C18'}
TECH='contracts on the real C++ (compiled to LLVM IR on every run), weakest-precondition style symbolic execution with inductive loop invariants, z3/cvc5'
BASE=json.load(open(V+'/baseline.json'))
import re
def auto(i):
    us=[]
    for h in glob.glob(V+'/harness/%s_*.cpp'%i): us+=[m.group(1) for m in re.finditer(r'^FCV_UNIT\((\w+),',open(h).read(),re.M)]
    st={}
    for u in us: st.setdefault(BASE.get(u,'?'),[]).append(u)
    pr=st.get('proved',[]); t='%d of %d contracts discharged for all inputs from the IR of the current sources'%(len(pr),len(us))
    if st.get('bounded-shape'): t+='; all inputs symbolic but shapes bounded (not counted as proved): '+', '.join(st['bounded-shape'])
    if st.get('bounded'): t+='; bounded lengths only: '+', '.join(st['bounded'])
    if st.get('partial'): t+='; partly discharged, rest by native execution: '+', '.join(st['partial'])
    if st.get('search-only'): t+='; native execution only: '+', '.join(st['search-only'])
    return ('proof' if pr else 'other',t+'; assumptions per run in the evidence file')
NOTE={}
exec(open(V+'/tools/notes.py').read()) if os.path.exists(V+'/tools/notes.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    if glob.glob(V+'/harness/%s_*.cpp'%i) and i not in NA:
        lv,note=NOTE.get(i) or auto(i)
        checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,evidence_file='evidence/%s.json'%i,technique=TECH,level=lv,level_note=note))
    else: na.append(dict(property=i,reason=NA.get(i,'not claimed: no contract machinery for it yet')))
json.dump(dict(version=1,setup_cmd='python3-vt -c "import fcv.check, fcv.run"',checks=checks,not_applicable=na,notes='no hooks in /repo are needed; harness files include the real headers and are linked with the IR of the real sources'),open(V+'/MANIFEST.json','w'),indent=1)
