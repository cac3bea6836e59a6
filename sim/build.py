#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree.

Every object is compiled with -fsanitize=thread instrumentation and linked against simrt.o in place of libtsan. Objects are
reused only if every file they were compiled from (as the compiler listed them) has the same contents as then."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.environ.get('VERIF_BUILD',os.path.join(VERIF,'build'))
MODULES="utility numeric algebra function symbolic geometry solvers dynamics io hybrid".split()
def cairo(): return subprocess.run(['pkg-config','--cflags','cairo'],capture_output=True,text=True).stdout.split()
BASE=['-std=c++20','-w','-O1','-g1','-fno-omit-frame-pointer','-frounding-math','-ffunction-sections','-fdata-sections','-fno-pie','-pthread']
INSTR=['-fsanitize=thread','--param=tsan-instrument-func-entry-exit=0']
# rough compile costs in seconds, only used to start long compilations first
COST={'function/function.cpp':67,'numeric/number.cpp':29,'function/taylor_function.cpp':29,'algebra/expansion.cpp':27,'function/taylor_model.cpp':25}
_hash={}
def fhash(p):
    if p not in _hash:
        try: _hash[p]=hashlib.sha256(open(p,'rb').read()).hexdigest()
        except OSError: _hash[p]=None
    return _hash[p]
def repo_sources(modules):
    out=[]
    for d in modules:
        t=open(f'{REPO}/source/{d}/CMakeLists.txt').read(); t=re.sub(r'#.*','',t)
        for m in re.findall(r'[A-Za-z0-9_./-]+\.cpp',t):
            if os.path.exists(f'{REPO}/source/{d}/{m}'): out.append(f'{d}/{m}')
    return sorted(set(out))
def parse_deps(f):
    t=open(f).read().replace('\\\n',' '); return sorted(set(t.split(':',1)[1].split()))
def compile_one(src,obj,flags):
    os.makedirs(os.path.dirname(obj),exist_ok=True); meta=obj+'.json'
    cmd=['g++',*flags,'-c',src,'-o',obj,'-MMD','-MF',obj+'.d']
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m=json.load(open(meta))
            if m['cmd']==cmd and all(fhash(p)==h for p,h in m['deps'].items()): return (src,0,0.0,'')
        except Exception: pass
    t=time.time()
    if os.path.exists(meta): os.unlink(meta)
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode==0:
        json.dump({'cmd':cmd,'deps':{p:fhash(p) for p in parse_deps(obj+'.d') if not p.startswith('/usr/')}},open(meta,'w'))
    return (src,r.returncode,time.time()-t,r.stderr)
def build(name,scns,modules=None,quiet=False,only=None):
    """-> path of the binary, or raises RuntimeError"""
    os.makedirs(BUILD,exist_ok=True); lock=open(os.path.join(BUILD,'.lock'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    t0=time.time(); modules=modules or MODULES
    inc=['-I'+os.path.join(HERE,'stubs'),'-I'+HERE,'-I'+REPO+'/source',*cairo()]
    jobs=[]; objs=[]
    lib=repo_sources(modules)
    if only: lib=[s for s in lib if s in only]
    for s in lib: jobs.append((f'{REPO}/source/{s}',f'{BUILD}/obj/{s[:-4]}.o',BASE+INSTR+inc,COST.get(s,os.path.getsize(f'{REPO}/source/{s}')/6000)))
    for s in ['sim_main.cpp',*scns]: jobs.append((f'{HERE}/{s}',f'{BUILD}/obj/sim/{s[:-4]}.o',BASE+INSTR+inc,30))
    for s in ['mpwrap.cpp']: jobs.append((f'{HERE}/{s}',f'{BUILD}/obj/sim/{s[:-4]}.o',['-std=c++20','-O1','-g1','-w','-fno-omit-frame-pointer','-fno-pie','-I'+HERE],3))
    jobs.append((f'{HERE}/simrt.cpp',f'{BUILD}/obj/sim/simrt.o',['-std=c++20','-O2','-g1','-w','-fno-omit-frame-pointer','-fno-pie','-I'+HERE],5))
    jobs.sort(key=lambda j:-j[3])
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS',os.cpu_count() or 8))) as ex: res=list(ex.map(lambda j:compile_one(*j[:3]),jobs))
    bad=[r for r in res if r[1]]
    if bad: raise RuntimeError('compilation failed: '+bad[0][0]+'\n'+bad[0][3][:9000])
    binary=f'{BUILD}/bin/{name}'; os.makedirs(os.path.dirname(binary),exist_ok=True)
    libobjs=[f'{BUILD}/obj/{s[:-4]}.o' for s in lib]; mine=[f'{BUILD}/obj/sim/{s[:-4]}.o' for s in ['sim_main.cpp',*scns,'simrt.cpp','mpwrap.cpp']]
    recompiled=sum(1 for r in res if r[2]>0)
    stamp=hashlib.sha256(json.dumps([sorted((o,fhash(o) if False else os.path.getmtime(o)) for o in libobjs+mine)]).encode()).hexdigest()
    if not (os.path.exists(binary) and os.path.exists(binary+'.stamp') and open(binary+'.stamp').read()==stamp):
        if os.path.exists(binary): os.unlink(binary)
        wraps=[f'-Wl,--wrap={f}' for f in ['memcpy','memmove','memset']+WRAP]
        r=subprocess.run(['g++','-no-pie','-pthread','-o',binary,*mine,'-Wl,--start-group',*libobjs,'-Wl,--end-group','-Wl,--gc-sections','-Wl,--allow-multiple-definition',*wraps,'-lcairo','-lmpfr','-lgmpxx','-lgmp','-ldl'],capture_output=True,text=True)
        if r.returncode: raise RuntimeError('link failed:\n'+r.stderr[-3000:])
        open(binary+'.stamp','w').write(stamp)
    if not quiet: print(f'[build] {name}: {recompiled}/{len(jobs)} compiled in {time.time()-t0:.1f} s',flush=True)
    lock.close(); return binary
WRAP=open(os.path.join(HERE,'mpwrap.list')).read().split()
if __name__=='__main__':
    print(build(sys.argv[1],sys.argv[2].split(','),sys.argv[3].split(',') if len(sys.argv)>3 else None))
