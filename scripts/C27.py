#!/usr/bin/env python3
"""C27: the two survey programs run to the end; everything they plot and tabulate compared
with an oracle that computes the same quantities through the library."""
import json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT='/verif'; B=f'{ROOT}/build'; REPO='/repo'; W=f'{B}/c27'
SEED=int(os.environ.get('VERIF_SEED','1')); TH=os.environ.get('VERIF_TIER')=='thorough'
t0=time.time(); viol=[]; counters={}; evals=0; distinct=set(); samples=[]
def bad(site,**d):
    if len(viol)<60: viol.append({'site':site,'detail':d})
def count(k,n=1): counters[k]=counters.get(k,0)+n
shutil.rmtree(W,ignore_errors=True); os.makedirs(f'{W}/py/matplotlib')
r=subprocess.run(['cargo','build','--manifest-path',f'{REPO}/Cargo.toml','--target-dir',f'{B}/repo','-p','tc_long_prop','--bins','--offline','--config','profile.dev.opt-level=2','--config','profile.dev.debug=0','--config','profile.dev.incremental=false'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
if r.returncode: print(r.stdout[-3000:]); print('C27: the programs do not build'); sys.exit(2)
open(f'{W}/py/matplotlib/__init__.py','w').write('')
open(f'{W}/py/matplotlib/pyplot.py','w').write('''
import json, os
_c=[]
def plot(x,y,*a,**k): _c.append(([float(v) for v in x],[float(v) for v in y]))
scatter=bar=plot
def savefig(p,*a,**k):
    global _c
    open(p,'w').close()
    open(os.environ['MPL_LOG'],'a').write(json.dumps([p,_c])+'\\n')
    _c=[]
def _none(*a,**k): pass
class _S:
    use=staticmethod(_none)
style=_S()
def __getattr__(n):
    if n.startswith('__'): raise AttributeError(n)
    return _none
''')
close=lambda a,b,rel=1e-7: a==b or abs(a-b)<=rel*max(abs(a),abs(b))+1e-300
def program(name,threads):
    d=f'{W}/{name}_{threads}'; os.makedirs(d)
    p=subprocess.run([f'{B}/repo/debug/{name}'],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,errors='replace',timeout=850,
        env=dict(os.environ,PYTHONPATH=f'{W}/py',MPL_LOG=f'{d}/plots',RAYON_NUM_THREADS=str(threads),PYTHONDONTWRITEBYTECODE='1'))
    return d,p.returncode,p.stderr[-600:]
def oracle(name):
    r=random.Random(SEED*7919+len(name)); n=300
    picks=list(range(n)) if TH else sorted({0,1,n-2,n-1}|{r.randrange(n) for _ in range(14)})
    o=subprocess.run([f'{B}/target/release/monitor','c27-oracle'],input=json.dumps({'two':name.startswith('two'),'picks':picks}),stdout=subprocess.PIPE,text=True)
    if o.returncode: return None
    return json.loads([l for l in o.stdout.split('\n') if l.startswith('{')][-1])
def judge(name,d,o):
    global evals
    base=f'target/tc_long_prop/{name}'
    plots={}
    for l in open(f'{d}/plots'):
        p,cs=json.loads(l)
        if os.path.dirname(p)!=base or not os.path.exists(f'{d}/{p}'): bad(p,what='not saved where it belongs',program=name)
        if os.path.basename(p) in plots: bad(p,what='plotted twice',program=name)
        plots[os.path.basename(p)]=cs
    for k in sorted(set(plots)-set(o['plots'])): bad(k,what='a plot nobody asked for',program=name)
    for k,w in sorted(o['plots'].items()):
        cs=plots.get(k)
        if cs is None: bad(k,what='not plotted',program=name); continue
        if len(cs)!=len(w['y']): bad(k,what='wrong number of curves',program=name,curves=len(cs),expected=len(w['y'])); continue
        count(f'{name}: plots')
        for j,((x,y),wy) in enumerate(zip(cs,w['y'])):
            if len(x)!=len(w['x']) or len(y)!=len(x) or not all(close(a,b,1e-12) for a,b in zip(x,w['x'])): bad(k,what='wrong domain',program=name,curve=j,points=len(y)); continue
            if w.get('sure')is False: count('ties'); continue
            for i,v in zip(w['picks'],wy):
                evals+=1
                if close(y[i],v): distinct.add((name,k,j,i))
                else: bad(k,what='wrong value',program=name,curve=j,at=x[i],plotted=y[i],expected=v)
    try: t=[[float(x) for x in l.split('\t')] for l in open(f'{d}/{base}/tc.out').read().split('\n') if l]
    except Exception as x: bad('tc.out',what=f'unreadable: {x!r}',program=name); return
    if len(t)!=len(o['table']): bad('tc.out',what=f'{len(t)} lines, {len(o["table"])} expected',program=name); return
    for l,(h,tcs) in zip(t,o['table']):
        evals+=1
        if len(l)!=len(h)+1 or any(abs(a-b)>0.5001e-3 for a,b in zip(l,h)) or not any(abs(l[-1]-x)<=0.5001e-3 for x in tcs): bad('tc.out',what='wrong line',program=name,written=l,expected=[h,tcs])
        else: distinct.add((name,'tc',tuple(h))); count(f'{name}: critical temperatures'); count(f'{name}: critical temperatures above zero',int(tcs[0]>0))
def run(name):
    th=random.Random(SEED*31+len(name)).choice([3,5,7,8])
    runs=[program(name,th)]+([program(name,2)] if TH else [])
    return name,runs,oracle(name)
with ThreadPoolExecutor(2) as ex:
    for name,runs,o in ex.map(run,['one_mass_overall','two_masses_overall']):
        if o is None: print('C27: the oracle failed'); sys.exit(2)
        for d,rc,err in runs:
            if rc: bad(name,what='the program failed',status=rc,stderr=err); continue
            judge(name,d,o)
        samples.append({'program':name,'table':o['table'][:3]})
ev={'property':'C27','tier':'thorough' if TH else 'quick','seed':SEED,'level':'exploration',
 'coverage':{'evaluations':evals,'distinct_nontrivial':len(distinct),
  'rule':'every recorded plot of both programs (all points of the infrared scans and critical temperatures, sampled momenta of the propagators) and every line of their tables compared with an oracle computing the same quantities through the public library; non-trivial = a plotted or written number that was judged',
  'counters':counters,'samples':samples},
 'assumptions':[],'wall_s':time.time()-t0,'violations':len(viol)}
os.makedirs(f'{ROOT}/evidence',exist_ok=True)
json.dump(ev,open(f'{ROOT}/evidence/C27.json','w'),indent=1)
shutil.rmtree(W,ignore_errors=True)
if viol:
    os.makedirs(f'{B}/replay',exist_ok=True); p=f'{B}/replay/C27.json'
    json.dump({'property':'C27','seed':SEED,'violations':viol,'replay':f'VERIF_SEED={SEED} ./check.sh C27'},open(p,'w'),indent=1)
    for v in viol[:3]: print('  '+json.dumps(v)[:700])
    print(f'VIOLATION property=C27 replay={p}'); sys.exit(1)
print(f'C27: held; {evals} judgements, {len(distinct)} distinct, {time.time()-t0:.1f} s')
