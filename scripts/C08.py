#!/usr/bin/env python3
"""C08: callers in C, C++, Cython and Python, compiled against the headers the build
generates and linked to the shared library, observed next to a Rust caller."""
import json, os, re, shutil, subprocess, sys, time
ROOT='/verif'; B=f'{ROOT}/build'; REPO='/repo'; W=f'{B}/c08'
SEED=os.environ.get('VERIF_SEED','1'); TH=os.environ.get('VERIF_TIER')=='thorough'
t0=time.time()
viol=[]; counters={}
def bad(site,**d):
    if len(viol)<60: viol.append({'site':site,'detail':d})
def noanswer(msg,out=''):
    print(out[-3000:]); print(f'C08: {msg}'); sys.exit(2)
def run(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
shutil.rmtree(W,ignore_errors=True); os.makedirs(W)

# 1. the library and its headers, built afresh
def build(profile):
    start=time.time()-1
    td=f'{B}/repo'
    rel=['--release'] if profile=='release' else []
    run(['cargo','clean','--manifest-path',f'{REPO}/Cargo.toml','--target-dir',td,'-p','qcd-sme','--offline']+rel)
    r=run(['cargo','rustc','--manifest-path',f'{REPO}/Cargo.toml','--target-dir',td,'-p','qcd-sme','--lib','--crate-type','cdylib','--offline','--config','profile.dev.opt-level=2','--config','profile.dev.debug=0','--config','profile.dev.incremental=false']+rel)
    if r.returncode: noanswer('the shared library does not build',r.stdout)
    so=f'{td}/{profile}/libqcd_sme.so'
    inc=None
    for d in (f'{REPO}/qcd-sme/target',f'{REPO}/target'):
        p=f'{d}/{profile}/include'
        if os.path.exists(f'{p}/qcd_sme.h') and os.path.getmtime(f'{p}/qcd_sme.h')>=start: inc=p; break
    if inc is None: bad('qcd_sme.h',what='the build writes no C header',profile=profile); return None
    for h in ('hpp','pxd'):
        if not os.path.exists(f'{inc}/qcd_sme.{h}') or os.path.getmtime(f'{inc}/qcd_sme.{h}')<start: bad(f'qcd_sme.{h}',what='the build writes no such header',profile=profile); return None
    d=f'{W}/{profile}'; os.makedirs(d)
    for h in ('h','hpp','pxd'): shutil.copy(f'{inc}/qcd_sme.{h}',d)
    shutil.copy(so,d)
    return d

# 2. what a Rust caller gets
n=2000 if TH else 200
r=subprocess.run([f'{B}/target/release/monitor','ffi-dump',SEED,str(n)],stdout=subprocess.PIPE,text=True)
if r.returncode: noanswer('the Rust caller failed')
rust={}; calls=[]
for l in r.stdout.split('\n'):
    if not l: continue
    sym,ps,mask,rc,args,val=l.split('\t')
    k=len(ps.split(','))
    ty=tuple('C' if int(mask)>>i&1 else 'R' for i in range(k))
    rust[sym]=(ty,'C' if rc=='1' else 'R')
    calls.append((sym,args.split(','),val))
REGS={'number_of_colors':'u32','number_of_fermions':'u32','default_quark_mass':'R','default_tol_integral':'R','default_max_iter_integral':'u32','matsubara_reg':'R'}
for g,t in REGS.items():
    rust['get_'+g]=((),t); rust['set_'+g]=((t,),'void')

def protos(text,alias):
    """Prototypes in a preprocessed header or a pxd, with types resolved."""
    def res(t):
        t=re.sub(r'\b(const|struct|extern|cdef)\b','',t).strip()
        while t in alias: t=alias[t]
        return {'double':'R','Complex':'C','uint32_t':'u32','unsigned int':'u32','void':'void','__uint32_t':'u32'}.get(t,t)
    out={}
    for m in re.finditer(r'(?m)^\s*((?:struct\s+)?\w+)\s+(\w+)\(([^()]*)\)\s*;?\s*$',text):
        rt,name,ps=m.groups()
        if rt in('return','typedef','else','ctypedef'): continue
        ps=ps.strip()
        tys=[] if ps in('','void') else [res(re.match(r'(.*?)\s*(\w+)\s*$',p.strip(),re.S).group(1)) for p in ps.split(',')]
        out[name]=(tuple(tys),res(rt))
    return out

CGEN='''
static double *out; static const double *in;
typedef void (*W)(void);
static double R1(void){ return *in++; }
static C C1(void){ C c; c.re=*in++; c.im=*in++; return c; }
static uint32_t U1(void){ return (uint32_t)*in++; }
static void Rr(double x){ out[0]=x; out[1]=0; }
static void Cr(C x){ out[0]=x.re; out[1]=x.im; }
'''
MAIN='''
#include <stdio.h>
#include <string.h>
int main(int argc, char **argv){
  unsigned int idx, k; static double a[32], r[2];
  if (sizeof(R)!=8 || sizeof(C)!=16) { puts("LAYOUT"); return 3; }
  while (fread(&idx,4,1,stdin)==1) {
    fread(&k,4,1,stdin); if (k) fread(a,8,k,stdin);
    in=a; out=r; r[0]=r[1]=0; T[idx](); fwrite(r,8,2,stdout);
  }
  return 0; }
'''
def gen(syms,h,cpp):
    s=f'#include "{h}"\n#include <stdint.h>\n'+CGEN
    for i,n in enumerate(syms):
        tys,rt=syms[n]
        dec=' '.join(f'{ {"R":"R","C":"C","u32":"uint32_t"}[t]} a{j}={ {"R":"R1","C":"C1","u32":"U1"}[t]}();' for j,t in enumerate(tys))
        call=f'{n}({", ".join(f"a{j}" for j in range(len(tys)))})'
        call={'R':f'Rr({call});','C':f'Cr({call});','u32':f'Rr({call});','void':f'{call};'}[rt]
        s+=f'static void w{i}(void){{ {dec} {call} }}\n'
    s+='static W T[]={'+','.join(f'w{i}' for i in range(len(syms)))+'};\n'
    return s+MAIN

import struct
def unh(h): return struct.unpack('>d',bytes.fromhex(h))[0]
def workload(syms):
    """Input stream for the compiled callers, and what to expect."""
    ix={n:i for i,n in enumerate(syms)}
    buf=bytearray(); want=[]
    def put(sym,ds): buf.extend(struct.pack('<II',ix[sym],len(ds))); buf.extend(struct.pack(f'<{len(ds)}d',*ds))
    def regs(vals):
        for g,v in vals.items():
            if 'set_'+g in ix and 'get_'+g in ix:
                put('set_'+g,[float(v)]); want.append(('set_'+g,None,(0.,0.))); put('get_'+g,[]); want.append(('get_'+g,[v],(float(v),0.)))
    regs({'number_of_colors':4294967295,'number_of_fermions':4000000000,'default_quark_mass':0.1,'default_tol_integral':3.7e-9,'default_max_iter_integral':3000000001,'matsubara_reg':1.7e-4})
    regs({'number_of_colors':3,'number_of_fermions':1,'default_quark_mass':0.5,'default_tol_integral':1e-5,'default_max_iter_integral':10,'matsubara_reg':1e-5})
    for sym,args,val in calls:
        if sym not in ix: continue
        ds=[]
        for t,a in zip(syms[sym][0],args):
            re_,im=a.split(':'); ds.append(unh(re_))
            if t=='C': ds.append(unh(im))
        put(sym,ds); a,b=val.split(':'); want.append((sym,args,(unh(a),unh(b))))
    return bytes(buf),want
def same(x,y): return struct.pack('<d',x)==struct.pack('<d',y) or (x!=x and y!=y)
distinct=set(); evals=0
def compare(lang,want,res):
    global evals
    for (sym,args,w),g in zip(want,res):
        evals+=1
        if args is None: continue
        if not(same(w[0],g[0]) and same(w[1],g[1])):
            bad(sym,caller=lang,args=str(args),expected=w,got=g)
        elif w!=(0.,0.) and all(abs(x)<1e300 for x in w): distinct.add((lang,sym,str(args)))
def binaries(lang,cmd,src,exe,inp,want,env):
    r=run(cmd+[src,'-o',exe])
    if r.returncode: bad(lang,what='a caller using the header as declared does not compile or link',output=r.stdout[:1500]); return
    p=subprocess.run([exe],input=inp,stdout=subprocess.PIPE,env=env)
    if p.returncode: bad(lang,what='caller ended abnormally',status=p.returncode); return
    v=struct.unpack(f'<{len(p.stdout)//8}d',p.stdout)
    if len(v)!=2*len(want): bad(lang,what='caller stopped early'); return
    compare(lang,want,list(zip(v[::2],v[1::2])))

def check(profile):
    d=build(profile)
    if d is None: return
    nm=run(['nm','-D','--defined-only',f'{d}/libqcd_sme.so'])
    if nm.returncode: noanswer('nm failed',nm.stdout)
    syms={l.split()[2] for l in nm.stdout.split('\n') if len(l.split())==3 and l.split()[1]=='T'}
    counters[f'exported symbols ({profile})']=len(syms)
    heads={}
    # alias tables from the headers themselves
    h=open(f'{d}/qcd_sme.h').read()
    al=dict((b,a) for a,b in re.findall(r'typedef\s+(?:struct\s+)?(\w+)\s+(\w+)\s*;',h))
    al2={k:v for k,v in al.items() if k!=v}
    strip=lambda s: re.sub(r'//[^\n]*','',re.sub(r'/\*.*?\*/','',s,flags=re.S))
    heads['C']=protos(strip(h),al2)
    h=open(f'{d}/qcd_sme.hpp').read()
    heads['C++']=protos(strip(h),dict(re.findall(r'using\s+(\w+)\s*=\s*(\w+)\s*;',h)))
    h=open(f'{d}/qcd_sme.pxd').read()
    heads['Cython']=protos(re.sub(r'#[^\n]*','',h),dict((b,a) for a,b in re.findall(r'ctypedef\s+(\w+)\s+(\w+)\s*;?',h)))
    for lang,p in heads.items():
        counters[f'{lang} prototypes ({profile})']=len(p)
        for s in sorted(syms-set(p)): bad(s,what=f'exported but not declared in the {lang} header')
        for s in sorted(set(p)-syms): bad(s,what=f'declared in the {lang} header but not exported')
        for s,t in p.items():
            if s in rust and s in syms and rust[s]!=t: bad(s,what=f'{lang} header declares {t}, the library has {rust[s]}')
    for s in sorted(set(rust)-syms): bad(s,what='function of the foreign interface not exported')
    env=dict(os.environ,LD_LIBRARY_PATH=d)
    ok={n:t for n,t in heads['C'].items() if n in syms and n in rust and t==rust[n]}
    inp,want=workload(ok)
    link=[f'-L{d}',f'-I{d}']; lib=['-lqcd_sme','-lm']
    for lang,cc,h,x in [('C (gcc)','gcc','qcd_sme.h','c'),('C++ (g++)','g++','qcd_sme.hpp','cpp')]+([('C (clang)','clang-18','qcd_sme.h','c'),('C++ (clang)','clang++-18','qcd_sme.hpp','cpp')] if shutil.which('clang-18') else []):
        src=f'{d}/w_{cc}.{x}'; open(src,'w').write(gen(ok,h,x=='cpp'))
        flags=['-O1','-w']+(['-Werror=implicit-function-declaration'] if x=='c' else [])
        binaries(lang,[cc]+flags+link+[src],'-lqcd_sme',f'{d}/w_{cc}',inp,want,env)
    # Cython: one wrapper per declared function
    okc={n:t for n,t in heads['Cython'].items() if n in ok and t==rust[n]}
    pyx='from libc.stdint cimport uint32_t\nfrom qcd_sme cimport C, '+', '.join(f'{n} as f{i}' for i,n in enumerate(okc))+'\n'
    for i,n in enumerate(okc):
        tys,rt=okc[n]
        pyx+=f'def w{i}({", ".join(f"a{j}" for j in range(len(tys)))}):\n'
        args=', '.join({'R':f'a{j}','C':f'C(a{j}.real, a{j}.imag)','u32':f'<uint32_t>a{j}'}[t] for j,t in enumerate(tys))
        pyx+={'R':f'    return f{i}({args})\n','u32':f'    return f{i}({args})\n','void':f'    f{i}({args})\n','C':f'    r = f{i}({args})\n    return complex(r.re, r.im)\n'}[rt]
    open(f'{d}/cyall.pyx','w').write(pyx)
    cfl=run(['pkg-config','--cflags','python3']).stdout.split()
    def cython(src,mod):
        r=run(['cython','-3',f'-I{d}',src,'-o',f'{d}/{mod}.c'])
        if r.returncode==0: r=run(['gcc','-shared','-fPIC','-O0','-w']+cfl+[f'-I{d}',f'-L{d}',f'{d}/{mod}.c','-Wl,--no-as-needed','-lqcd_sme','-o',f'{d}/{mod}.so'])
        if r.returncode: bad(mod,what='Cython module does not build against the headers',output=r.stdout[-1500:]); return False
        return True
    names=list(okc)
    jobs=[('Cython','cyall',[f'w{i}' for i in range(len(names))],names)]
    mods=[]
    if cython(f'{d}/cyall.pyx','cyall'): mods.append(('Cython','cyall',{n:f'w{i}' for i,n in enumerate(names)}))
    if cython(f'{REPO}/python/pyqcd_sme_so.pyx','pyqcd_sme_so'): mods.append(('Python module','pyqcd_sme_so',None))
    for lang,mod,names in mods:
        job=[]
        for sym,args,val in calls:
            if sym not in rust or (names is not None and sym not in names): continue
            job.append((names[sym] if names else sym,sym,rust[sym][0],[[unh(x) for x in a.split(':')] for a in args]))
        regs=[]
        if names:
            for g,v in [('number_of_colors',4294967295),('default_max_iter_integral',3000000001),('default_tol_integral',3.7e-9),('number_of_colors',3),('default_max_iter_integral',10),('default_tol_integral',1e-5)]:
                if 'set_'+g in names: regs.append((names['set_'+g],names['get_'+g],g,v))
        # pickle keeps the payloads
        import pickle
        pickle.dump((d,mod,regs,job),open(f'{d}/{mod}.job','wb'))
        open(f'{d}/drive.py','w').write('''import sys,pickle,importlib
d,mod,regs,job=pickle.load(open(sys.argv[1],'rb'))
sys.path.insert(0,d)
m=importlib.import_module(mod)
rr=[]
for s,g,n,v in regs:
    getattr(m,s)(v); rr.append((n,v,getattr(m,g)()))
have=[n for n in dir(m) if not n.startswith('_')]
res=[]
for name,sym,tys,args in job:
    f=getattr(m,name,None)
    if f is None: res.append(None); continue
    x=f(*[complex(*a) if t=='C' else a[0] for t,a in zip(tys,args)])
    res.append((x.real,x.imag,isinstance(x,complex)))
pickle.dump((rr,have,res),open(sys.argv[1]+'.out','wb'))
''')
        p=run(['/usr/bin/python3',f'{d}/drive.py',f'{d}/{mod}.job'],env=env)
        if p.returncode: bad(lang,what='the module cannot be used',output=p.stdout[-1500:]); continue
        rr,have,res=pickle.load(open(f'{d}/{mod}.job.out','rb'))
        for n,v,g in rr:
            if v!=g: bad('set_'+n,caller=lang,set=v,got=g)
        done=set(); k=0; want=[]; got=[]
        js=iter(res)
        for sym,args,val in calls:
            if sym not in rust or (names is not None and sym not in names): continue
            x=next(js)
            if x is None: continue
            done.add(sym); a,b=val.split(':'); a,b=unh(a),unh(b)
            if x[2]!=(rust[sym][1]=='C'): bad(sym,caller=lang,what='real and complex results confused')
            # res.re+1j*res.im: the product with 1j makes NaN of infinities
            if lang=='Python module' and x[2] and not(abs(a)<1e300 and abs(b)<1e300): continue
            if lang=='Python module' and x[2]: a,b=a+0.,b+0.; x=(x[0]+0.,x[1]+0.)
            want.append((sym,args,(a,b))); got.append(x[:2])
        compare(lang,want,got)
        counters[f'functions called through {lang} ({profile})']=len(done)
        if not names:
            pub=[n for n in have if '__' in n]
            for n in pub:
                if n not in done: bad(n,what='Python module offers a function the library does not have')
            for n in ('ym__gluon__dressing_inv_landau','ym__gluon__dressing_inv_landau__complex','ym__gluon__dressing_landau','ym__gluon__dressing_landau__complex'):
                if n not in done: bad(n,what='not offered by the Python module')

for p in ('debug','release'): check(p)
ev={'property':'C08','tier':'thorough' if TH else 'quick','seed':int(SEED),'level':'exploration',
 'coverage':{'evaluations':evals,'distinct_nontrivial':len(distinct),
  'rule':'every exported function called from C, C++, Cython and the Python module through the generated headers, bits compared with those a Rust caller gets for the same arguments; declared, exported and known functions compared as sets and by parameter types; non-trivial = finite non-zero result',
  'counters':counters,'samples':[{'symbol':s,'args':a,'result':v} for s,a,v in calls[::max(1,len(calls)//4)][:5]]},
 'assumptions':[],'wall_s':time.time()-t0,'violations':len(viol)}
os.makedirs(f'{ROOT}/evidence',exist_ok=True)
json.dump(ev,open(f'{ROOT}/evidence/C08.json','w'),indent=1)
shutil.rmtree(W,ignore_errors=True)
if viol:
    os.makedirs(f'{B}/replay',exist_ok=True); p=f'{B}/replay/C08.json'
    json.dump({'property':'C08','seed':int(SEED),'violations':viol,'replay':f'VERIF_SEED={SEED} ./check.sh C08'},open(p,'w'),indent=1)
    for v in viol[:3]: print('  '+json.dumps(v)[:600])
    print(f'VIOLATION property=C08 replay={p}'); sys.exit(1)
print(f'C08: held; {evals} calls, {len(distinct)} distinct non-trivial, {time.time()-t0:.1f} s')
