#!/usr/bin/env python3
"""plant.py SPEC.py : confirms planted changes in a scratch copy of /repo and keeps the good ones in /verif/seeded.
SPEC.py defines BUGS=[dict(id,property,edits=[(file,old,new)],needs,breaks,demo)]  (demo: C++ body of the demonstration)."""
import sys,os,subprocess,shutil,json
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); V=os.path.abspath(V)

ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
SH='''#!/bin/bash
# builds the demonstration against the library built from the working tree and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -w -fpermissive -g -DFMT_SHARED -DLINUX -D_DEBUG -I FCollada -I FColladaPlugins -I _build -I /usr/include/libxml2 "$here/demo.cpp" _build/libFColladaSD.a -lxml2 -lfmt -ldl -lpthread -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''
HEAD='''#include "StdAfx.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
'''
def stable():
    """full confirmation against the real build and tests, in /repo, undone afterwards"""
    b=json.load(open('/opt/vp/BASELINE.json')); want=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
    r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_out.json')
    try: got=set(json.load(open('/tmp/plant_out.json'))['passed'])
    except Exception: return 'no test result '+r.stdout[-500:]
    miss=want-got
    return '' if not miss else 'tests broken: %s'%sorted(miss)[:5]
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    d='%s/seeded/%s'%(V,b['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755); open(d+'/demo.cpp','w').write(HEAD+b['demo'])
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    assert not sh('git -C /repo status --short').stdout.strip(),'dirty /repo'
    bad=''
    try:
        r=sh('bash %s/demo.sh'%d,cwd='/repo')
        if r.returncode: bad='demo fails on the unchanged tree: '+r.stdout[-600:]+r.stderr[-1500:]
        if not bad:
            for f,o,n in b['edits']:
                p='/repo/'+f; raw=open(p,newline='').read()
                crlf='\r\n' in raw
                if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
                if raw.count(o)!=1: bad='%s: old text found %d times'%(f,raw.count(o)); break
                open(p,'w',newline='').write(raw.replace(o,n))
        if not bad:
            open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff --binary',shell=True,capture_output=True).stdout.decode('utf-8','surrogateescape')) if False else open(d+'/patch.diff','wb').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout)
            bad=stable()
            if not bad:
                r=sh('bash %s/demo.sh'%d,cwd='/repo')
                if r.returncode==0: bad='demo passes with the change'
                elif r.returncode==3: bad='demo does not build with the change '+r.stderr[-500:]
                else: print('  demo:',r.returncode,r.stdout.strip()[-200:])
        if not bad and ns.get('CHECK',True):
            r=sh('./check %s'%b['property'],cwd=V)
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or l.startswith('# ')]
            print('  check exit %d %s'%(r.returncode,v[:4]))
    finally: sh('git -C /repo checkout -- .')
    print(b['id'],'OK' if not bad else 'REJECTED '+bad,flush=True)
    if bad: shutil.rmtree(d)
sh('bash /opt/vp/build.sh')
