#!/usr/bin/env python3
"""C12: the determinism monitor, then a ThreadSanitizer run of a parallel workload."""
import glob, json, os, re, subprocess, sys, shutil, time
ROOT='/verif'; B=f'{ROOT}/build'
r=subprocess.run([f'{B}/target/release/monitor','C12'],stdout=subprocess.PIPE,text=True,errors='replace')
sys.stdout.write('\n'.join(l for l in r.stdout.split('\n') if not l.startswith('Caution')))
if r.returncode!=0: sys.exit(r.returncode if r.returncode>0 else 128-r.returncode)
t0=time.time()
b=subprocess.run([f'{ROOT}/bldsan.sh','thread'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
if b.returncode!=0:
    print(b.stdout[-3000:]); print('C12: the race-detector build failed'); sys.exit(2)
t1=time.time()
logs=f'{B}/tsanlog'
shutil.rmtree(logs,ignore_errors=True); os.makedirs(logs)
env=dict(os.environ,TSAN_OPTIONS=f'log_path={logs}/t exitcode=66 halt_on_error=0 history_size=4 report_thread_leaks=0')
out=[]
for rep in range(12 if os.environ.get('VERIF_TIER')=='thorough' else 2):
    env['VERIF_SEED']=str(int(os.environ.get('VERIF_SEED','1'))+1000*rep)
    r=subprocess.run([f'{B}/thread/x86_64-unknown-linux-gnu/release/monitor','race'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    lines=[l for l in r.stdout.split('\n') if l and not l.startswith('Caution')]
    out.append(lines[-1] if lines else '')
    if r.returncode not in (0,1,66):
        print('\n'.join(lines[-10:])); print(f'C12: the race workload ended with {r.returncode}'); sys.exit(2)
races=[]
for f in sorted(glob.glob(f'{logs}/t*')):
    s=open(f,errors='replace').read()
    for m in re.split(r'(?m)^={18}$',s):
        if 'data race' in m or 'WARNING: ThreadSanitizer' in m: races.append(m.strip()[:4000])
ev=f'{ROOT}/evidence/C12.json'
e=json.load(open(ev))
e['coverage']['race_detector']={'tool':'ThreadSanitizer, standard library instrumented','runs':out,'reports':len(races),'build_s':round(t1-t0,1),'run_s':round(time.time()-t1,1)}
calls=sum(int(x.split(': ')[1].split(' ')[0]) for x in out if x.startswith('race workload'))
e['coverage']['evaluations']+=calls
e['wall_s']+=time.time()-t0
disagree=r.returncode==1
e['violations']=len(races)+disagree
json.dump(e,open(ev,'w'),indent=1)
if races or disagree:
    os.makedirs(f'{B}/replay',exist_ok=True); p=f'{B}/replay/C12.json'
    json.dump({'property':'C12','races':races[:20],'threads disagree':disagree,'replay':f"VERIF_SEED={os.environ.get('VERIF_SEED','1')} ./check.sh C12"},open(p,'w'),indent=1)
    for x in races[:1]: print(x[:1500])
    print(f'VIOLATION property=C12 replay={p}'); sys.exit(1)
print(f'\nC12: no race in {calls} concurrent calls')
