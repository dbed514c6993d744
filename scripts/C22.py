#!/usr/bin/env python3
"""C22: the phase-diagram program run on random configurations, every file and plot it
writes compared with an oracle that computes the same quantities through the library."""
import json, math, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT='/verif'; B=f'{ROOT}/build'; REPO='/repo'; W=f'{B}/c22'
SEED=int(os.environ.get('VERIF_SEED','1')); TH=os.environ.get('VERIF_TIER')=='thorough'
t0=time.time()
viol=[]; counters={}; evals=0; distinct=set(); samples=[]
def bad(site,**d):
    if len(viol)<60: viol.append({'site':site,'detail':d})
def count(k,n=1): counters[k]=counters.get(k,0)+n
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
r=subprocess.run(['cargo','build','--manifest-path',f'{REPO}/Cargo.toml','--target-dir',f'{B}/repo','-p','tc_long_prop','--bins','--offline','--config','profile.dev.opt-level=2','--config','profile.dev.debug=0','--config','profile.dev.incremental=false'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
if r.returncode: print(r.stdout[-3000:]); print('C22: the program does not build'); sys.exit(2)
PROG=f'{B}/repo/debug/physical_tc'

# a plotting library that records what it is given
os.makedirs(f'{W}/py/matplotlib')
open(f'{W}/py/matplotlib/__init__.py','w').write('')
open(f'{W}/py/matplotlib/pyplot.py','w').write('''
import json, os
_c=[]
def plot(x,y,*a,**k): _c.append(([float(v) for v in x],[float(v) for v in y]))
scatter=bar=plot
def savefig(p,*a,**k):
    global _c
    open(p,'w').close()
    open(os.environ['MPL_LOG'],'a').write(json.dumps([p,_c])+'\\n')
    _c=[]
def _none(*a,**k): pass
class _S:
    use=staticmethod(_none)
style=_S()
def __getattr__(n):
    if n.startswith('__'): raise AttributeError(n)
    return _none
''')

def config(r):
    f=lambda x: float('%.4g'%x)
    mg=f(r.choice([0.656,1.,r.uniform(0.4,0.9)]))
    mq1=f(r.uniform(0.2,0.6)); mq2=f(r.choice([mq1,mq1+0.1,r.uniform(0.25,0.8)])); mq3=f(r.uniform(0.8,2.))
    c=lambda q: f(r.choice([q,q*r.uniform(0.2,0.9),q*r.uniform(0.4,0.7),q-0.08,q*r.uniform(1.05,1.8)]))
    mqc=[c(mq1),c(mq2),f(r.uniform(0.5,2.))]
    tmax=f(r.uniform(0.15,0.24))
    mu0=r.choice([0.,0.,0.,0.05]); mumax=f(r.uniform(0.4,0.9)); nm=r.choice([24,30,40,r.randint(70,110)])
    dm=(mumax-mu0)/nm
    if r.random()<0.4: dm=round(dm,2)
    big=lambda: r.uniform(0.08,0.25)
    def chem(n):
        k=r.random()
        if k<0.4: return [mu0,mumax,dm*r.choice([5,7,8])]                   # the boundary's own grid
        if k<0.6: return [mu0,f(mumax*1.3),dm*5.5]
        return [f(mu0+r.choice([0.,r.uniform(0.,0.1)])),f(mumax*r.uniform(0.8,1.4)),f(r.uniform(0.08,0.25))]
    nt=r.choice([9,12,17]); dt=f(tmax/nt)
    t0=r.choice([0.,0.,0.,dt])   # a scan need not start at zero temperature
    def temps(n):
        k=r.random()
        if k<0.15: return [f(r.uniform(0.02,0.1)),f(r.uniform(0.2,0.5)),f(r.uniform(0.05,0.12))]
        if k<0.3: return [0.,f(r.uniform(0.3,0.8)),f(r.uniform(0.1,0.2))]
        if k<0.35: t=r.choice([0.,f(r.uniform(0.02,0.3))]); return [t,t,0.1]
        return [0.,tmax,r.choice([dt*2,dt*3,f(tmax/n),dt])] if n<8 else [0.,tmax,f(tmax/n)]
    p0=f(r.choice([0.01,0.02,0.1]))
    mom=[p0,f(r.uniform(1.,3.5)),f(r.uniform(0.15,0.6))]
    few,fmu=temps(3),chem(3)
    k=r.random()
    if k<0.15: mom=[p0,f(r.uniform(1.,4.)),0.008]; few=[0.,0.12,0.06]; fmu=[mu0,mumax,f((mumax-mu0)/2)]   # a fine scan
    elif k<0.25: mom=[p0,f(r.uniform(5.,40.)),f(r.uniform(1.,4.))]
    elif k<0.3: mom=[p0,p0,0.1]
    elif k<0.4: mom[0]=f(r.uniform(0.3,1.2)); mom[1]+=mom[0]
    return {'mg':mg,'om':r.choice([1e-5,1e-4,1e-3,0.05]),'renpoint':f(r.choice([4.,r.uniform(1.5,6.)])),'mq':[mq1,mq2,mq3],'mqc':mqc,'f0':f(r.uniform(-0.95,-0.55)),
      'fewtemps':few,'moretemps':temps(5),'manytemps':[t0,tmax,dt],'fewchempots':fmu,'morechempots':chem(4),'manychempots':[mu0,mumax,dm],
      'momenta':mom}
def yaml(c,r):
    out=[]; items=list(c.items())
    if r.random()<0.5: r.shuffle(items)
    if r.random()<0.2: out.append('# a configuration')
    num=lambda x: r.choice([repr(float(x)),'%.17g'%x if float('%.17g'%x)==x and '.' in '%.17g'%x else repr(float(x))])
    for k,v in items:
        if isinstance(v,list):
            if r.random()<0.6: out.append(f'{k}: [{", ".join(num(x) for x in v)}]')
            else: out.append(f'{k}:'); out+= [f'  - {num(x)}' for x in v]
        else: out.append(f'{k}: {num(v)}')
    return '\n'.join(out)+'\n'
def parse(s):
    o={}; k=None
    for l in s.split('\n'):
        l=re.sub(r'#.*','',l).rstrip()
        if not l or l=='---': continue
        m=re.match(r'\s*-\s*(.*)',l)
        if m: o[k].append(float(m[1])); continue
        k,v=l.split(':',1); k=k.strip(); v=v.strip()
        if v=='': o[k]=[]
        elif v[0]=='[': o[k]=[float(x) for x in v.strip('[]').split(',')]
        else: o[k]=float(v)
    return o
close=lambda a,b,rel=1e-7: a==b or abs(a-b)<=rel*max(abs(a),abs(b))+1e-300
def table(path):
    return [[float(x) for x in l.split('\t')] for l in open(path).read().split('\n') if l!='']

def one(i):
    r=random.Random(SEED*1000003+i)
    for attempt in range(30):
        c=config(r)
        o=subprocess.run([f'{B}/target/release/monitor','c22-oracle'],input=json.dumps(c),stdout=subprocess.PIPE,text=True)
        if o.returncode: return ('dead',c,o.returncode)
        o=json.loads([l for l in o.stdout.split('\n') if l.startswith('{')][-1])
        if o['valid']: break
    else: return ('none',c,None)
    res=[]
    how=r.random()<0.3   # the configuration's default name
    y=yaml(c,r)
    for th in (1,r.choice([2,3,5,8])):
        d=f'{W}/{i}_{th}'; os.makedirs(d)
        open(f'{d}/config.yml' if how else f'{d}/c.yaml','w').write(y)
        # the second run finds the output of an earlier one, of other settings
        if res and r.random()<0.7:
            for q,_,fs in os.walk(f'{res[0][0]}/target'):
                q2=q.replace(res[0][0],d,1); os.makedirs(q2,exist_ok=True)
                for g in fs:
                    old=open(f'{q}/{g}').read()
                    open(f'{q2}/{g}','w').write(''.join(str((int(ch)+3)%10) if ch.isdigit() and r.random()<0.3 else ch for ch in old)+('0.5\t0.25\n'*9 if g.endswith('.out') else '# old\n'*9))
        p=subprocess.run([PROG]+([] if how else ['c.yaml']),cwd=d,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors='replace',timeout=600,
            env=dict(os.environ,PYTHONPATH=f'{W}/py',MPL_LOG=f'{d}/plots',RAYON_NUM_THREADS=str(th),RUST_LOG='error',PYTHONDONTWRITEBYTECODE='1'))
        res.append((d,th,p.returncode,p.stderr[-600:]))
    return ('ok',c,o,res,y)

def judge(i,c,o,res,y):
    global evals
    ctx={'configuration':y,'run':i}
    for d,th,rc,err in res:
        if rc: bad('physical_tc',what='the program failed on a valid configuration',status=rc,stderr=err,threads=th,**ctx); return
    d=res[0][0]; base=f'{d}/target/tc_long_prop/physical_tc'
    # independent of the number of threads
    def snap(d):
        out={}
        for p,_,fs in os.walk(f'{d}/target'):
            for f in fs: q=os.path.join(p,f); out[os.path.relpath(q,d)]=open(q,'rb').read()
        out['plots']=open(f'{d}/plots','rb').read()
        return out
    a,b=snap(res[0][0]),snap(res[1][0])
    for k in sorted(set(a)|set(b)):
        if a.get(k)!=b.get(k): bad(k,what=f'differs between {res[0][1]} and {res[1][1]} threads',**ctx)
    count('files',len(a))
    # configuration echo
    try:
        e=parse(open(f'{base}/config.yml').read())
        if e!={k:(v if isinstance(v,list) else float(v)) for k,v in c.items()}: bad('config.yml',what='does not echo the configuration',echo=e,**ctx)
    except Exception as x: bad('config.yml',what=f'unreadable: {x!r}',**ctx)
    def rows(name,n=None):
        p=f'{base}/{name}'
        if not os.path.exists(p): bad(name,what='not written',**ctx); return None
        try: t=table(p)
        except Exception as x: bad(name,what=f'unreadable: {x!r}',**ctx); return None
        if n is not None and len(t)!=n: bad(name,what=f'{len(t)} lines, {n} expected',**ctx); return None
        return t
    ps=o['momenta']; curves={}
    for f in o['files']:
        # a label half-way between two digits may go either way
        names=['data/nf_2+1%s_glu%sprop_t_%.4f_mu_%.4f.out'%('_corrected' if f['corrected'] else '','trans' if f['trans'] else 'long',f['t']*(1+u),f['mu']*(1+v)) for u in (0.,1e-14,-1e-14) for v in (0.,1e-14,-1e-14)]
        name=next((n for n in names if os.path.exists(f'{base}/{n}')),names[0])
        t=rows(name,len(ps))
        if t is None: continue
        ok=False
        for v in f['values']:
            if all(close(x[0],p,1e-12) and close(x[1],w) for x,p,w in zip(t,ps,v)): ok=True
        evals+=len(ps)
        if not ok:
            k=next((j for j,(x,p,w) in enumerate(zip(t,ps,f['values'][0])) if not(close(x[0],p,1e-12) and close(x[1],w))),0)
            bad(name,what='wrong numbers',line=k,written=t[k],expected=[ps[k],[v[k] for v in f['values']]],phase=f.get('deconfined'),**ctx)
        else:
            distinct.update((name,i,j) for j in range(len(ps)))
            count('points: '+('corrected, deconfined' if f.get('deconfined') else 'corrected, confined' if f['corrected'] else 'uncorrected'),len(ps))
        curves.setdefault(('_corrected' if f['corrected'] else '',f['trans'],name.split('_mu_')[1][:-4]),[]).append([x[1] for x in t])
    plots={}
    for l in open(f'{d}/plots'):
        p,cs=json.loads(l); plots[os.path.basename(p)]=cs
        if not os.path.exists(os.path.join(d,p)): bad(p,what='not saved',**ctx)
    def plot(name,want):
        global evals
        cs=plots.get(name)
        if cs is None: bad(name,what='not plotted',**ctx); return
        evals+=1
        if len(cs)!=len(want) or not all(len(x)==len(wx) and len(y)==len(wy) and all(close(p,q) for p,q in zip(x,wx)) and all(close(p,q) for p,q in zip(y,wy)) for (x,y),(wx,wy) in zip(cs,want)):
            bad(name,what='plots other data than the run computed',**ctx)
        else: distinct.add((name,i)); count('plots')
    for (cor,tr,mu),vs in curves.items(): plot(f'nf_2+1{cor}{"_transverse" if tr else ""}_mu_{mu}.png',[(ps,v) for v in vs])
    mt,mm,ir=o['ir']; plot('ir_nf_2+1.png',[(mt,v) for v in ir])
    # critical temperatures
    for cor in ('','_corrected'):
        mus,tcs=o['tc'+cor]
        t=rows(f'tc_nf_2+1{cor}.out',len(mus))
        opts=[[x] if not isinstance(x,list) else x for x in tcs]
        if t is not None:
            for (m,tc),m0,w in zip(t,mus,opts):
                evals+=1
                if not abs(m-m0)<=0.5001e-4 or (w!=[None] and not any(abs(tc-x)<=0.5001e-4 for x in w)): bad(f'tc_nf_2+1{cor}.out',what='wrong critical temperature',written=[m,tc],expected=[m0,w],**ctx)
                else: distinct.add((f'tc{cor}',i,m0)); count('critical temperatures'+cor); 
                if w!=[None] and w[0]>0: count('critical temperatures above zero'+cor)
        t2=rows(f'tcd2_nf_2+1{cor}.out',len(mus)-4)
        sure=all(len(w)==1 and w!=[None] for w in opts)
        if t2 is not None and sure:
            x=[w[0] for w in opts]; h=2*(mus[1]-mus[0])
            want=[(mus[k],(x[k+2]+x[k-2]-2*x[k])/h**2) for k in range(2,len(mus)-2)]
            for g,w in zip(t2,want):
                evals+=1
                if not close(g[0],w[0]) or abs(g[1]-w[1])>1e-7*(1+max(x)/h**2): bad(f'tcd2_nf_2+1{cor}.out',what='wrong second difference',written=g,expected=w,**ctx)
                else: distinct.add((f'd2{cor}',i,w[0]))
            plot(f'tc_nf_2+1{cor}.png',[(mus,x)]); plot(f'tcd2_nf_2+1{cor}.png',[([w[0] for w in want],[g[1] for g in t2])])
    # fit
    p=f'{base}/tc_nf_2+1_corrected_fit_parameters.out'
    try:
        fit=json.loads(open(p).read().replace('NaN','null'))
        want=o['fit']
        if len(fit)!=9: bad('fit',what='not nine parameters',fit=fit,**ctx)
        else:
            evals+=1
            pol=lambda f,m: sum(x*m**k for k,x in enumerate(f))
            if None in want or None in fit: count('fits without a finite result')
            else:
                dev=max(abs(pol(fit,m)-pol(want,m)) for m,_ in o['boundary'])
                spread=o['fit_spread'] or 0
                if spread>1e-3: count('fits too ill-conditioned to compare')
                elif dev>1e-6+20*spread: bad('fit',what='not the fit of the phase boundary',written=fit,expected=want,deviation=dev,rounding=spread,**ctx)
                else: distinct.add(('fit',i)); count('fits')
    except Exception as x: bad('fit',what=f'unreadable: {x!r}',**ctx)
    if 'tc_nf_2+1_corrected_fit.png' not in plots: bad('tc_nf_2+1_corrected_fit.png',what='not plotted',**ctx)
    if len(samples)<3: samples.append({'configuration':c,'boundary':o['boundary']})

def defaults():
    """Without a configuration file: the documented defaults are echoed, then the run is stopped."""
    d=f'{W}/default'; os.makedirs(d)
    p=subprocess.Popen([PROG],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=dict(os.environ,PYTHONPATH=f'{W}/py',MPL_LOG=f'{d}/plots',RAYON_NUM_THREADS='1'))
    f=f'{d}/target/tc_long_prop/physical_tc/config.yml'
    try:
        for _ in range(300):
            time.sleep(0.1)
            if p.poll() is not None or (os.path.isdir(os.path.dirname(f)+'/data')): break
    finally: p.kill(); p.wait()
    try: e=parse(open(f).read())
    except Exception as x: bad('config.yml',what=f'defaults not echoed: {x!r}'); return
    w=parse(open(f'{REPO}/tc_long_prop/configs/default_config.yml').read())
    if e!=w: bad('config.yml',what='the defaults are not the documented ones',echo=e,documented=w)
    else: count('default configuration')

n=300 if TH else 24
with ThreadPoolExecutor(6) as ex:
    for i,x in enumerate(ex.map(one,range(n))):
        if x[0]=='dead': print(f'C22: the oracle failed ({x[2]})'); sys.exit(2)
        if x[0]=='none': count('no valid configuration found'); continue
        _,c,o,res,y=x
        judge(i,c,o,res,y); count('configurations')
        for d,*_ in res: shutil.rmtree(d,ignore_errors=True)
defaults()
ev={'property':'C22','tier':'thorough' if TH else 'quick','seed':SEED,'level':'exploration',
 'coverage':{'evaluations':evals,'distinct_nontrivial':len(distinct),
  'rule':'every number in every file, and every recorded plot, of runs on random configurations compared with an oracle computing the same quantities through the public library; two thread counts byte for byte; non-trivial = a file line, temperature, fit or plot that was judged',
  'counters':counters,'samples':samples},
 'assumptions':[],'wall_s':time.time()-t0,'violations':len(viol)}
os.makedirs(f'{ROOT}/evidence',exist_ok=True)
json.dump(ev,open(f'{ROOT}/evidence/C22.json','w'),indent=1)
shutil.rmtree(W,ignore_errors=True)
if viol:
    os.makedirs(f'{B}/replay',exist_ok=True); p=f'{B}/replay/C22.json'
    json.dump({'property':'C22','seed':SEED,'violations':viol,'replay':f'VERIF_SEED={SEED} ./check.sh C22'},open(p,'w'),indent=1)
    for v in viol[:3]: print('  '+json.dumps(v)[:700])
    print(f'VIOLATION property=C22 replay={p}'); sys.exit(1)
print(f'C22: held; {evals} judgements, {len(distinct)} distinct, {time.time()-t0:.1f} s')
