#!/usr/bin/env python3
"""check.py Cnn [quick|thorough]

Decides one property on the current tree of /repo:
 1. gv generates the obligations of every function and lemma whose contract
    (specs/*.gvs) is tagged with the property from the SSA form of /repo's source
    and has z3/cvc5 discharge them;
 2. a bounded run of the real code against an independent oracle (harness/cNN)
    looks for an input that fails (counterexamples for failed obligations, and a
    labelled bounded stand-in for what is not under contract).
Exit 0: all discharged and nothing found; exit 1: VIOLATION line."""
import glob,json,os,re,shutil,subprocess,sys,tempfile,time

V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VERIF_DEV_REPO','/repo') # the variable is a development aid: scratch copies with a planted change
T0=time.time()
prop=sys.argv[1]
tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
if tier not in('quick','thorough'): tier='quick'
try: seed=int(os.environ.get('VERIF_SEED','1'))
except ValueError: seed=1
cfg=json.load(open(f'{V}/properties.cfg.json'))[prop]
BUDGET={'quick':cfg.get('quick',25),'thorough':cfg.get('thorough',300)}[tier]
tmp=tempfile.mkdtemp(prefix='verif-')
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOSUMDB='off',GOFLAGS='-mod=mod',
         GOMODCACHE='/root/go/pkg/mod')
env['PATH']='/opt/veriftools/go1.27.3/bin:'+env['PATH']
env.setdefault('GOCACHE','/root/.cache/go-build')

def run(cmd,cwd,timeout,**kw):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=dict(env,**kw.pop('env',{})),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace',stdin=subprocess.DEVNULL)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        return 124,(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')

def snapshot():
    h={}
    for n in ('go.mod','go.sum'):
        with open(f'{REPO}/{n}','rb') as f: h[n]=f.read()
    return h
def restore(h):
    for n,b in h.items():
        with open(f'{REPO}/{n}','rb') as f: c=f.read()
        if c!=b:
            with open(f'{REPO}/{n}','wb') as f: f.write(b)

def proof():
    """runs the verifier; returns dict"""
    if not cfg.get('proof'): return None
    rc,out=run(['go','build','-o',f'{tmp}/gv','.'],f'{V}/gv',400)
    if rc: return dict(broken='the verifier does not build: '+out[-2000:],results=[])
    args=[f'{tmp}/gv','-prop',prop,'-json',f'{tmp}/gv.json','-work',f'{tmp}/smt','-specs',f'{V}/specs','-repo',REPO]
    args+=['-quick','20','-slow','150'] if tier=='thorough' else ['-quick','6','-slow','75','-deadline','330']
    os.makedirs(f'{tmp}/smt',exist_ok=True)
    rc,out=run(args,f'{V}/gv',640 if tier=='quick' else 2400)
    try: r=json.load(open(f'{tmp}/gv.json'))
    except Exception: r=dict(results=[],errors={},functions=[],lemmas=[],inlined=[],trusted={},seconds=0)
    r['rc'],r['out']=rc,out[-4000:]
    return r

def literals():
    """numbers and strings of the source, so that inputs reach constants in it"""
    ints,strs=set(),set()
    for f in glob.glob(REPO+'/**/*.go',recursive=True):
        if f.endswith('_test.go') or '/cmd/web/' in f or '/cmd/download/' in f: continue
        try: s=open(f,encoding='utf-8',errors='replace').read()
        except OSError: continue
        s=re.sub(r'//[^\n]*|/\*.*?\*/','',s,flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"',s):
            t=m.group(1)
            if 0<len(t)<=24 and '%' not in t and '\\' not in t: strs.add(t)
        s=re.sub(r'"((?:[^"\\\n]|\\.)*)"','',s)
        for m in re.finditer(r'\b\d{1,9}\b',s): ints.add(int(m.group(0)))
    json.dump(dict(Ints=sorted(ints),Strs=sorted(strs)),open(f'{tmp}/lits.json','w'))

def harness(again=0):
    """bounded run; again: a second, longer one (after a failed obligation) on other inputs"""
    c=prop.lower(); BUDGET=again or globals()['BUDGET']; seed=globals()['seed']+(1000 if again else 0)
    if not os.path.isdir(f'{V}/harness/{c}'): return None
    literals()
    rep={}
    for d in ('lib',c):
        for f in glob.glob(f'{V}/harness/{d}/*.go'): rep[f'{REPO}/verifharness/{d}/'+os.path.basename(f)]=f
    for f in glob.glob(f'{V}/harness/inpkg/**/*.go',recursive=True): rep[REPO+'/'+os.path.relpath(f,f'{V}/harness/inpkg')]=f
    json.dump({'Replace':rep},open(f'{tmp}/overlay.json','w'))
    rc,out=run(['go','build','-overlay',f'{tmp}/overlay.json','-o',f'{tmp}/h',f'./verifharness/{c}'],REPO,500)
    if rc: return dict(nobuild=out[-3000:])
    scr=f'{tmp}/scratch'; os.makedirs(scr,exist_ok=True)
    base=[f'{tmp}/h','-seed',str(seed),'-lits',f'{tmp}/lits.json','-out',f'{tmp}/h.json']
    e={'env':{'VERIF_SCRATCH':scr,'GOMEMLIMIT':'6GiB'}}
    rc,out=run(base+['-budget',str(BUDGET)],scr,BUDGET+120,**e)
    if rc not in(0,1) or not os.path.exists(f'{tmp}/h.json'):
        # it died: find the case
        rc2,out2=run(base+['-budget',str(BUDGET),'-trace',f'{tmp}/trace'],scr,BUDGET+120,**{'env':dict(e['env'])})
        if rc2 in(0,1) and os.path.exists(f'{tmp}/h.json'): rc,out=rc2,out2
        else:
            case=open(f'{tmp}/trace').read() if os.path.exists(f'{tmp}/trace') else '?'
            return dict(evaluations=0,distinct_nontrivial=0,per_check={},failure=dict(check=case.split(':')[0],index=int((case.split(':')+['0'])[1]),seed=seed,input=[f'case {case}'],problem=f'the program dies (exit {rc2}): '+out2[-3000:]))
    return json.load(open(f'{tmp}/h.json'))

GENERAL=[
 'machine arithmetic: Go integers are treated as mathematical integers (no overflow obligations; conversions keep the value) and float64 as real numbers (no rounding, NaN or infinity except where a contract says isfinite); big.Rat is exact rational arithmetic',
 'function values passed in are deterministic and have no side effects on the data under contract, unless the closure passed is itself verified',
 'pointer and slice parameters do not alias each other except where a contract says so; the frame of a function without contract is all memory it can reach by type',
 'fmt.Sprintf, regexp, strings and strconv functions are uninterpreted functions of their arguments, with the facts listed in gv/ext.go only',
 'today\'s date is constant during a run; reading a file or stream that was opened does not fail midway; memory does not run out',
 'goroutines: the code under contract starts none; data races are outside the method',
 'heap writes made before a panic that is recovered are only limited by the modifies clause of the function that panics',
]

def main():
    mod=snapshot()
    try:
        p=proof(); h=harness()
        broken=p is not None and (p.get('rc') or p.get('broken') or not p['results'])
        if broken and h and not h.get('failure') and not h.get('nobuild'):
            more=int(min(150,840-(time.time()-T0)-130)) if tier=='quick' else 600
            h2=harness(more) if more>=20 else None
            if h2 and not h2.get('nobuild'):
                for k in('evaluations','distinct_nontrivial'): h2[k]+=h[k]
                h=h2
    finally: restore(mod)
    replays=f'{V}/evidence/replays'; os.makedirs(replays,exist_ok=True)
    for f in glob.glob(f'{replays}/{prop}-*'): os.remove(f)
    bad=[]; notes=[]
    if p is not None:
        bad=[r for r in p['results'] if r['status']!='discharged']
        for k,v in sorted((p.get('errors') or {}).items()):
            bad.append(dict(func=k,kind='contract',name='the contract does not apply to the code',pos='',status='failed',backend='gv',output=str(v)))
        if p.get('broken'): bad.append(dict(func='gv',kind='verifier',name='build',pos='',status='failed',output=p['broken']))
        elif p['rc'] not in(0,1) or (p['rc'] and not bad):
            bad.append(dict(func='gv',kind='contract',name='contracts cannot be checked against this source',pos='',status='failed',output=p['out']))
        elif not p['results']:
            bad.append(dict(func='gv',kind='contract',name='no obligations were generated',pos='',status='failed',output=p['out']))
    fail=h.get('failure') if h else None
    nobuild=h.get('nobuild') if h else None
    if nobuild: notes.append('the bounded search did not build against this tree and was not run: '+nobuild[-600:])
    if nobuild and p is None:
        bad.append(dict(func='harness',kind='harness',name='the bounded search does not build',pos='',status='failed',output=nobuild))
    line=None
    if fail:
        path=f'{replays}/{prop}-input.json'
        json.dump(dict(property=prop,what='input on which the code breaks the property',check=fail['check'],input=fail.get('input'),problem=fail['problem'],
            rerun=f"bash {V}/tools/hrun_case.sh {prop.lower()} {fail['check']}:{fail['index']} {fail['seed']}",
            failed_obligations=[{k:b.get(k) for k in('func','kind','name','pos','status')} for b in bad]),open(path,'w'),indent=1,ensure_ascii=False)
        line=f'VIOLATION property={prop} replay={path}'
    elif bad:
        path=f'{replays}/{prop}-obligation.json'
        json.dump(dict(property=prop,what='obligations that the verifier does not discharge; no failing input was found',obligations=bad,rerun=f'python3 {V}/check.py {prop} {tier}',notes=notes),open(path,'w'),indent=1,ensure_ascii=False)
        line=f'VIOLATION property={prop} replay={path} no-failing-input-found'
    for l in open(f'{V}/known_findings.txt'):
        if l.startswith(f'known: property={prop} '): print('KNOWN-FINDING:'+l[6:].rstrip())
    # evidence
    assum=list(cfg.get('assumptions',[]))
    if p is not None: assum+=GENERAL
    cov={}
    if p is not None:
        by={}
        kinds={}
        for r in p['results']:
            if r['status']=='discharged': by[r.get('backend','?')]=by.get(r.get('backend','?'),0)+1
            kinds[r['kind']]=kinds.get(r['kind'],0)+1
        cov.update(obligations=len(p['results']),discharged=sum(r['status']=='discharged' for r in p['results']),
            checker_cmd=f'cd {V}/gv && go build -o gv . && ./gv -prop {prop} -specs {V}/specs -repo {REPO}',
            trusted_base=['gv: SSA (golang.org/x/tools/go/ssa) to verification conditions','z3 4.8.12 / cvc5 1.1.2','Go compiler and runtime']+[f'{k}: {v}' for k,v in sorted((p.get('trusted') or {}).items())],
            functions_under_contract=p.get('functions') or [],lemmas=p.get('lemmas') or [],inlined=p.get('inlined') or [],
            discharged_by=by,obligation_kinds=kinds,verifier_seconds=round(p.get('seconds') or 0,2),
            solver_seconds=round(sum(r.get('time') or 0 for r in p['results']),2))
        assum+=[f'{k}: {v}' for k,v in sorted((p.get('trusted') or {}).items())]
    if h and not nobuild:
        cov['bounded']=dict(label='bounded: not counted as proved',evaluations=h['evaluations'],distinct_nontrivial=h['distinct_nontrivial'],per_check=h['per_check'],
            rule='pseudo-random inputs (small, with boundary values and constants mined from the source) run through the real code and judged by an independent oracle; non-trivial: an input was generated and executed to judgement',
            budget_s=BUDGET,samples=h.get('samples') or [])
        cov['evaluations']=h['evaluations']; cov['distinct_nontrivial']=h['distinct_nontrivial']
        cov['rule']=cov['bounded']['rule']; cov['samples']=h.get('samples') or []
    cov['explanation']=cfg.get('explanation','')
    if notes: cov['notes']=notes
    ev=dict(property=prop,tier=tier,seed=seed,level=cfg['level'],coverage=cov,assumptions=assum,wall_s=round(time.time()-T0,2),violations=1 if line else 0)
    json.dump(ev,open(f'{V}/evidence/{prop}.json','w'),indent=1,ensure_ascii=False)
    if p is not None: print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations of {len(cov['functions_under_contract'])} functions and {len(cov['lemmas'])} lemmas discharged in {cov['verifier_seconds']} s")
    if h and not nobuild: print(f"{prop}: bounded search: {h['evaluations']} cases, {'one fails' if fail else 'none fails'}")
    for b in bad[:20]: print('failed obligation:',b.get('func'),b.get('kind'),b.get('name'),b.get('pos'))
    if fail: print('failing input:',fail['problem'][:600])
    if line: print(line)
    return 1 if line else 0

try: rc=main()
finally: shutil.rmtree(tmp,ignore_errors=True)
sys.exit(rc)
