"""Compiles the real sources of /repo (bitcode for the verifier, native with sanitizer for replay)."""
import os, subprocess, glob, re, shutil, concurrent.futures as cf
REPO=os.environ.get('FCV_REPO','/repo')
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC=['-I'+REPO+'/FCollada','-I'+REPO+'/FColladaPlugins','-I'+REPO+'/_build','-I'+VERIF+'/harness/include','-I'+VERIF+'/harness','-I/usr/include/libxml2']
DEF=['-D_DEBUG','-DLINUX','-DFMT_SHARED']
STD='-std=gnu++17'
def clang(c=False):
    for n in (('clang-18','clang') if c else ('clang++-18','clang++')):
        p=shutil.which(n)
        if p: return p
    raise SystemExit('clang not found')
def run(cmd):
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s'%(' '.join(cmd),r.stderr[-4000:]))
    return r
PASSES='function(sroa,early-cse,simplifycfg,instsimplify,adce,loop-simplify)'
def bitcode(src,out,extra=()):
    c=src.endswith('.c')
    t=out+'.t.bc'
    base=[clang(c)]+([] if c else [STD,'-fno-exceptions','-fno-threadsafe-statics'])+DEF
    cmd=base+['-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-g','-ffp-contract=off','-fno-builtin','-w','-DFCV_SYM']+list(extra)+INC+['-c','-emit-llvm',src,'-o',t]
    run(cmd)
    run([shutil.which('opt-18') or 'opt','-passes='+PASSES,t,'-o',out]); os.unlink(t)
    return out
def link(bcs,out):
    run([shutil.which('llvm-link-18') or 'llvm-link']+bcs+['-o',out]); return out
def symbolic_module(harness,sources,work):
    jobs=[(harness,work+'/h.bc',['-fno-access-control'])]+[(VERIF+'/harness/libc.c',work+'/libc.bc',[])]
    sources=list(dict.fromkeys(list(sources)+['FCollada/FMath/FMAllocator.cpp']))
    for i,s in enumerate(sources): jobs.append((REPO+'/'+s,work+'/s%d.bc'%i,[]))
    with cf.ThreadPoolExecutor(8) as ex: outs=list(ex.map(lambda j: bitcode(*j),jobs))
    return link(outs,work+'/all.bc')
def lib_sources():
    l=[]
    for d in ('FCollada','FColladaPlugins/FArchiveXML'):
        for root,_,fs in os.walk(REPO+'/'+d):
            if 'FColladaTest' in root: continue
            for f in sorted(fs):
                if f.endswith('.cpp'): l.append(os.path.relpath(os.path.join(root,f),REPO))
    return l
def base_sources(extra):
    """the utility and math parts of the library, which link on their own, and what the harness names"""
    l=[x for x in lib_sources() if x.startswith(('FCollada/FUtils/','FCollada/FMath/'))]
    return list(dict.fromkeys(list(extra)+l))
NATF=['-O1','-g1','-fsanitize=address','-fno-omit-frame-pointer','-ffp-contract=off','-w']
def native(harness,work,sources=None):
    """sources: list of repo paths, or None for the whole library"""
    srcs=sources if sources else lib_sources()
    os.makedirs(work+'/n',exist_ok=True)
    def one(j):
        src,out,extra=j
        run([clang(),STD]+DEF+NATF+list(extra)+INC+['-c',src,'-o',out]); return out
    jobs=[(harness,work+'/n/h.o',['-fno-access-control']),(VERIF+'/harness/fcv_native.cpp',work+'/n/rt.o',[])]
    for i,s in enumerate(srcs): jobs.append((REPO+'/'+s,work+'/n/s%d.o'%i,[]))
    with cf.ThreadPoolExecutor(8) as ex: outs=list(ex.map(one,jobs))
    ar=work+'/n/lib.a'
    run(['ar','crs',ar]+outs[2:])
    exe=work+'/native'
    run([clang()]+NATF+['-o',exe,outs[0],outs[1]]+(outs[2:] if sources else [ar,ar])+['-lxml2','-lfmt','-lpthread'])
    shutil.rmtree(work+'/n')
    return exe
