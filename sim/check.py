#!/usr/bin/env python3
"""check.py PROPERTY: seeded search over schedules and faults for one property; writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check itself."""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); sys.path.insert(0,HERE)
import build as B
from props import PROPS
NJ=int(os.environ.get('VERIF_JOBS',os.cpu_count() or 8))
OUT=os.environ.get('VERIF_OUT',os.path.join(VERIF,'out'))
ENVP={'sched_seed','policy','quantum','prob1024','pct_depth','pct_len','heap_reuse','heap_dir','heap_fill','heap_seed'}

def log(*a): print(*a,flush=True)
class CheckError(Exception): pass

# ---------------------------------------------------------------- running
def run_batch(binary,scn,seed0,count,limit,max_s,thorough,tmp):
    """count seeds from seed0, spread over NJ processes"""
    procs=[]; nw=min(NJ,count)
    for w in range(nw):
        n=len(range(w,count,nw)); f=open(os.path.join(tmp,f'{scn}.{w}.jsonl'),'w+')
        cmd=[binary,'run',scn,'--from',str(seed0+w),'--step',str(nw),'--count',str(n),'--limit',str(limit),'--max-seconds',str(max_s),'--cpu',str(w)]+(['--thorough'] if thorough else [])
        procs.append((subprocess.Popen(cmd,stdout=f,stderr=subprocess.DEVNULL,cwd=tmp,env=dict(os.environ,TMPDIR=tmp)),f))
    res=[]
    for p,f in procs:
        p.wait(); f.seek(0)
        if p.returncode not in (0,1): raise CheckError(f'{scn}: host process ended with {p.returncode}')
        for l in f:
            res.append(json.loads(l))
        f.close(); os.unlink(f.name)
    res.sort(key=lambda r:r['seed']); return res
_n=[0]
def replay_many(binary,plans,limit,tmp):
    """each plan text in a fresh process; -> list of results"""
    ps=[]; out=[]
    for t in plans:
        _n[0]+=1; f=os.path.join(tmp,f'plan{_n[0]}'); open(f,'w').write(t); o=open(f+'.out','w+')
        ps.append((subprocess.Popen([binary,'replay','--limit',str(limit),'--plan','--cpu',str(len(ps)),f],stdout=o,stderr=subprocess.DEVNULL,cwd=tmp),f,o))
        if len(ps)>=NJ:
            for q in ps: out.append(_collect(q))
            ps=[]
    for q in ps: out.append(_collect(q))
    return out
def _collect(q):
    p,f,o=q; p.wait(); o.seek(0); t=o.read(); o.close(); os.unlink(f); os.unlink(f+'.out')
    try: return json.loads(t)
    except Exception: return {'status':'error','text':'','exit':p.returncode,'hash':''}

# ---------------------------------------------------------------- signatures
_sym={}
def symbolise(binary,pcs):
    todo=[p for p in pcs if p not in _sym]
    if todo:
        # return addresses: look up the call itself
        r=subprocess.run(['addr2line','-Cfia','-e',binary]+['0x%x'%(int(p,16)-1) for p in todo],capture_output=True,text=True).stdout
        cur=None; frames={}
        lines=r.splitlines(); i=0
        while i<len(lines):
            if lines[i].startswith('0x'): cur='%x'%(int(lines[i],16)+1); frames[cur]=[]; i+=1; continue
            frames[cur].append((lines[i],lines[i+1] if i+1<len(lines) else '')); i+=2
        for p in todo: _sym[p]=frames.get('%x'%int(p,16),[])
    return {p:_sym[p] for p in pcs}
def short(fn):
    fn=re.sub(r'\(.*','',fn.replace('(anonymous namespace)','anon'));
    while True:
        g=re.sub(r'<[^<>]*>','',fn)
        if g==fn: break
        fn=g
    return fn.split(' ')[-1] if ' ' in fn and 'operator' not in fn else fn
def repo_frame(binary,pc):
    fr=symbolise(binary,[pc])[pc]
    for fn,loc in fr:
        if B.REPO+'/source' in loc: return short(fn), loc.split(' ')[0].replace(B.REPO+'/','')
    return None
def violations(binary,res):
    """list of dict(cls,sig,detail,where)"""
    out=[]
    if res['status'] in ('timeout',): return [dict(cls='no-progress',sig='no-progress',detail='the run did not end within its wall-clock limit',where=[])]
    if res['status'] in ('died','error'): return [dict(cls='died',sig='died',detail=f"process ended with status {res.get('exit')}",where=[])]
    for l in res.get('text','').split('\n'):
        m=re.match(r'violation (\S+) at=(\d+) bt=(\S*) ?(.*)',l)
        if not m: continue
        cls,at,bt,det=m.groups(); bts=[p for p in bt.split(',') if p]; where=[]
        pcs=re.findall(r'pc[1-4]=([0-9a-f]+)',det)
        if cls=='race':
            fs=[]
            for p in pcs:
                f=repo_frame(binary,p)
                if not f: # not in the repository's own code: name it by what is there
                    s=symbolise(binary,[p])[p]; f=(short(s[-1][0]) if s else p,'')
                fs.append(f)
            where=[f'{a} ({b})' for a,b in fs]; 
            bf=[f for f in (repo_frame(binary,p) for p in bts) if f]
            sig='race '+' | '.join(sorted(a for a,b in fs))
            if bf: where.append('called from '+' < '.join(a for a,b in bf[:6]))
        else:
            bf=[f for f in (repo_frame(binary,p) for p in (pcs if cls=='leak' else pcs[:1])+bts) if f]
            where=[f'{a} ({b})' for a,b in bf[:6]]
            key=re.sub(r'sig=(\S+).*',r'\1',det) if 'sig=' in det else re.sub(r'0x[0-9a-f]+|\d+','#',det)[:80]
            m2=re.search(r'sig=(\S+)',det); key=m2.group(1) if m2 else key
            sig=cls+' '+key+((' @ '+bf[0][0]) if bf and not m2 else '')
        out.append(dict(cls=cls,sig=sig,detail=det,where=where,at=int(at)))
    return out

# ---------------------------------------------------------------- known findings
def known(prop):
    f=os.path.join(VERIF,'known_findings.txt'); ks=[]
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'known: property=(\S+) sig="([^"]*)" (.*)',l.strip())
            if m and m.group(1)==prop: ks.append((m.group(2),m.group(3)))
    return ks

# ---------------------------------------------------------------- minimisation
def plan_lines(text): return [l for l in text.split('\n') if l]
def with_switches(lines,sw): return '\n'.join([l for l in lines if not l.startswith('switch ')]+[f'switch {e} {t}' for e,t in sw])+'\n'
def set_param(lines,k,v):
    return [l for l in lines if not l.startswith(f'param {k} ')]+[f'param {k} {v}']
def minimise(binary,res,sig,limit,tmp,budget):
    t0=time.time(); tried=0
    def same(r): return any(v['sig']==sig for v in violations(binary,r))
    lines=plan_lines(res['plan']); best=lines; sw=[tuple(s) for s in res['sw']]; notes=[]
    # 1. operations and faults, with the seeded schedule
    def ddmin(items,render):
        nonlocal tried
        n=2
        while items and time.time()-t0<budget:
            size=max(1,len(items)//n); cands=[items[:i]+items[i+size:] for i in range(0,len(items),size)]
            hit=None
            for k in range(0,len(cands),NJ):
                if time.time()-t0>budget: break
                chunk=cands[k:k+NJ]; tried+=len(chunk); rs=replay_many(binary,[render(c) for c in chunk],limit,tmp)
                for c,r in zip(chunk,rs):
                    if same(r): hit=c; break
                if hit is not None: break
            if hit is not None: items=hit; n=max(n-1,2)
            elif size==1: break
            else: n=min(len(items),n*2)
        return items
    ops=[l for l in best if l.startswith('op ')]; faults=[l for l in best if l.startswith('fault ')]
    rest=[l for l in best if not l.startswith('op ') and not l.startswith('fault ') and not l.startswith('switch ')]
    pol=[l for l in rest if l.startswith('param policy ')]
    if faults: faults=ddmin(faults,lambda f:'\n'.join(rest+ops+f)+'\n')
    if ops: ops=ddmin(ops,lambda o:'\n'.join(rest+o+faults)+'\n')
    base=rest+ops+faults
    # 2. the plainest heap
    for k,v in (('heap_reuse',0),('heap_dir',0),('heap_fill',1)):
        if any(l.startswith(f'param {k} ') for l in base) and f'param {k} {v}' not in base:
            c=set_param(base,k,v); tried+=1
            if same(replay_many(binary,['\n'.join(c)+'\n'],limit,tmp)[0]): base=c
    # 3. the schedule: none at all, then explicit switches
    final='\n'.join(base)+'\n'
    if pol and res.get('threads',0)>0:
        c=set_param(base,'policy',6); tried+=1
        if same(replay_many(binary,['\n'.join(c)+'\n'],limit,tmp)[0]): final='\n'.join(c)+'\n'; notes.append('fails without any preemption')
        else:
            r=replay_many(binary,[final],limit,tmp)[0]; sw=[tuple(s) for s in r.get('sw',[])]
            if not r.get('truncated') and sw:
                ex=set_param(base,'policy',0)
                vs=[v for v in violations(binary,r) if v['sig']==sig]
                if vs and vs[0].get('at'): # nothing after the violation matters for events detected in place
                    pre=[s for s in sw if s[0]<=vs[0]['at']]
                    if pre and len(pre)<len(sw):
                        tried+=1
                        if same(replay_many(binary,[with_switches(ex,pre)],limit,tmp)[0]): sw=pre
                if same(replay_many(binary,[with_switches(ex,sw)],limit,tmp)[0]):
                    sw=ddmin(sw,lambda s:with_switches(ex,s)); final=with_switches(ex,sw); notes.append(f'{len(sw)} context switches')
    return final,notes,tried

def relevant(P,v):
    # a run that crashes or does not end counts for every property
    if v['cls'] in ('died','no-progress','crash'): return True
    if P.get('only_cls'): return v['cls'] in P['only_cls']
    return v['cls'] not in P.get('ignore',())
def main():
    prop=sys.argv[1]; P=PROPS[prop]; tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time(); thorough=tier=='thorough'
    os.makedirs(OUT,exist_ok=True); os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    log(f'[check] {prop} tier={tier} VERIF_SEED={seed}')
    binary=B.build(P['bin'],P['scn'],P.get('modules'),only=P.get('only')); tb=time.time()-t0
    tmp=tempfile.mkdtemp(prefix='sim-',dir=OUT); rc=0
    try:
        allres=[]; found=[]; other=collections.Counter(); kfs=known(prop); seen_known=set(); per={}
        budget=P.get('thorough_s' if thorough else 'quick_s',900 if thorough else 60); tstart=time.time()
        scs=P['scenarios']; total=sum(s[2] if thorough else s[1] for s in scs)
        det_checked=0
        for s in scs:
            name,nq,nt=s[:3]; opt=s[3] if len(s)>3 else {}
            n=nt if thorough else nq; limit=opt.get('limit',60)
            share=max(5,budget*opt.get('share',1.0/len(scs)))
            ts=time.time(); res=run_batch(binary,name,seed*1000000,n,limit,share,thorough,tmp)
            if not res: raise CheckError(f'{name}: no run finished')
            # same seed again, in another process: the executions must be identical
            k=min(len(res),opt.get('det',2))
            ok=[r for r in res if r['status'] in('ok','violation')]
            again=[]
            for r in ok[:k]:
                rr=run_batch(binary,name,r['seed'],1,limit,1e9,thorough,tmp)[0]; det_checked+=1
                if rr['hash']!=r['hash'] or rr['status']!=r['status']: again.append((r['seed'],r['hash'],rr['hash']))
            if again: raise CheckError(f'{name}: not deterministic: {again}')
            per[name]=dict(runs=len(res),wall_s=round(time.time()-ts,2)); allres+=res
            for r in res:
                if r['status']=='ok': continue
                for v in violations(binary,r):
                    if not relevant(P,v): other[v['sig']]+=1; continue
                    kf=[x for x in kfs if x[0]==v['sig']]
                    if kf: seen_known.add(kf[0]); continue
                    found.append((r,v,limit))
        for sig,what in kfs:
            log(f'KNOWN-FINDING: property={prop} {what}'+('' if (sig,what) in seen_known else ' (not reached by the seeds of this run)'))
        wall=time.time()-tstart
        for k,n in other.most_common(5): log(f'[other] {n} runs broke what another property decides: {k}')
        if found:
            sigs=collections.OrderedDict()
            for r,v,l in found:
                k=v['sig']
                if k not in sigs or (r['wall']<sigs[k][0]['wall']): sigs[k]=(r,v,l)
            for k,(r,v,l) in sigs.items(): log(f"[found] seed={r['seed']} {k}\n        {v['detail'][:400]}\n        "+'\n        '.join(v['where'][:4]))
            reported=False; errors=[]
            for k,(r,v,l) in list(sigs.items())[:4]:
                # gate: the same plan again in a fresh process
                g=replay_many(binary,[r['plan'].replace('\\n','\n')]*2,l*2,tmp)
                if r['status'] in ('ok','violation') and any(x['hash']!=r['hash'] for x in g): errors.append(f"seed {r['seed']}: replay diverged"); continue
                if not all(any(y['sig']==k for y in violations(binary,x)) for x in g): errors.append(f"seed {r['seed']}: {k} did not reproduce"); continue
                mb=float(os.environ.get('VERIF_MIN_S',300 if thorough else 45))
                mp,notes,tried=minimise(binary,dict(r,plan=r['plan']),k,l*2,tmp,mb)
                f=replay_many(binary,[mp]*2,l*2,tmp)
                if not all(any(y['sig']==k for y in violations(binary,x)) for x in f) or f[0]['hash']!=f[1]['hash']:
                    mp=r['plan']; notes=['not minimised']; f=replay_many(binary,[mp],l*2,tmp)
                vv=[y for y in violations(binary,f[0]) if y['sig']==k][0]
                path=os.path.join(OUT,f"{prop}-{r['scenario']}-{r['seed']}.replay")
                with open(path,'w') as o:
                    o.write(mp); o.write(f"# property {prop}\n# violation {k}\n# detail {vv['detail']}\n"+''.join(f'# at {w}\n' for w in vv['where'])+f"# minimised with {tried} runs: {', '.join(notes)}\n# hash {f[0]['hash']}\n# replay: python3 sim/replay.py {prop} {path}\n")
                log(f"[violation] {k} (seed {r['seed']}; {', '.join(notes)})"); log(f'VIOLATION property={prop} replay={path}'); reported=True; rc=1; break
            if not reported: raise CheckError('; '.join(errors))
        evidence(prop,P,tier,seed,allres,per,wall,time.time()-t0,tb,found,det_checked)
        nf=sum(1 for r in allres if r['status']=='ok')
        log(f'[check] {prop}: {len(allres)} runs, {nf} clean, {wall:.1f} s simulating, {time.time()-t0:.1f} s in all')
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return rc

POLN={0:'explicit',1:'random-quantum',2:'sync-points',3:'PCT',4:'conflict-directed',5:'stalled-thread',6:'run-to-block'}
def evidence(prop,P,tier,seed,res,per,wall,total,tb,found,det):
    counts=collections.Counter(); states=set(); nstates=0; inter=set(); hashes=set(); pol=collections.Counter(); nontriv=set()
    ev=acc=sw=thr=0
    for r in res:
        ev+=r['events']; acc+=r['accesses']; sw+=r['switches']; thr+=r['threads']; inter.add(r['ihash']) if r['threads'] else None; hashes.add(r['hash']); 
        if r['threads']: pol[POLN.get(r['policy'],'?')]+=1
        fired=0
        for l in r['text'].split('\n'):
            w=l.split(' ')
            if w[0]=='count' and len(w)>=3:
                counts[w[1]]+=int(w[2])
                if w[1].startswith('fault') or w[1].startswith('inject'): fired+=int(w[2])
            elif w[0]=='statehash': states.update(w[1:])
        if r['threads']>0 or fired: nontriv.add(r['hash'])
    if not nontriv: nontriv=hashes if any(k.startswith('op') for k in counts) else nontriv
    sample=[dict(scenario=r['scenario'],seed=r['seed'],hash=r['hash'],events=r['events'],accesses=r['accesses'],switches=r['switches'],threads=r['threads'],counts=[l for l in r['text'].split('\n') if l.startswith('count')][:12]) for r in res[:3]]
    cov=dict(evaluations=len(res),distinct_nontrivial=len(nontriv),
        rule=P.get('rule','one evaluation = one simulated execution of a seeded plan')+' Distinct: different hash over every scheduling decision, allocation and memory access of the run; non-trivial: simulated threads ran or a fault fired.',
        samples=sample,scenarios=per,runs_per_hour=int(len(res)/max(wall,1e-3)*3600),seeds_per_hour=int(len(res)/max(wall,1e-3)*3600),
        simulated_events=ev,memory_accesses_observed=acc,simulated_time='one event is one simulated tick; %d ticks over %d threads'%(ev,thr),context_switches=sw,scheduling_policies=dict(pol),
        faults_and_probes=dict(counts),distinct_interleavings=len(inter),interleaving_measure='hash of the sequence (from thread, to thread, events since its last switch)',
        distinct_executions=len(hashes),distinct_result_states=len(states),
        determinism_rechecks=det,build_s=round(tb,1),components_real=P.get('real','/repo/source (all modules linked)'),components_stub=P.get('stub',STUB))
    json.dump(dict(property=prop,tier=tier,seed=seed,level=P.get('level','exploration'),coverage=cov,assumptions=P.get('assume',[])+ASSUME,wall_s=round(total,2),violations=len({v['sig'] for _,v,_ in found})),open(os.path.join(VERIF,'evidence',prop+'.json'),'w'),indent=1)
STUB='BetterThreads (thread pool and workloads, re-implemented over the simulator), ConcLog (muted), pthreads/C++ synchronisation, heap, clocks, rand'
ASSUME=['Sequentially consistent memory: reorderings by hardware are not simulated, but unordered conflicting accesses are reported as races.','GMP, MPFR, cairo and libstdc++ shared-library code runs unobserved between yield points.','A clean batch is evidence, not proof.']
if __name__=='__main__':
    try: sys.exit(main())
    except (CheckError,RuntimeError) as e: print('[error]',e,flush=True); sys.exit(2)
