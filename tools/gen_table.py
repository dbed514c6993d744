#!/usr/bin/env python3
"""Generates harness/src/table.rs: one monitored entry point per public function
and per real/complex instantiation, native and foreign.  Run once by hand on the
pinned tree; the result is committed (it is the interface under test)."""
import re, os, itertools
root = '/repo/qcd-sme/src'

def scan():
    out = []
    for dp, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            s = re.sub(r'//[^\n]*', '', open(p).read())
            stack, depth = [], 0
            for m in re.finditer(r'\bmod\s+(\w+)\s*\{|\{|\}|pub(\(crate\))?\s+(extern "C" )?fn\s+(\w+)\s*(<[^(]*>)?\s*\(([^)]*)\)\s*(->\s*[^{;]*)?', s):
                t = m.group(0)
                if t.startswith('mod'):
                    depth += 1; stack.append((m.group(1), depth))
                elif t == '{': depth += 1
                elif t == '}':
                    if stack and stack[-1][1] == depth: stack.pop()
                    depth -= 1
                else:
                    mods = [x[0] for x in stack]
                    if m.group(2) or 'inlines' in mods or 'tests' in mods: continue
                    args = [a.strip() for a in re.sub(r'\s+', ' ', m.group(6)).split(',') if a.strip()]
                    args = [tuple(x.strip() for x in a.split(':', 1)) for a in args]
                    out.append(dict(file=os.path.relpath(p, root), mods=[x for x in mods if x not in ('native', 'ffi')],
                                    ffi=bool(m.group(3)), name=m.group(4), gen=re.sub(r'\s+', ' ', m.group(5) or ''),
                                    args=args, ret=(m.group(7) or '').replace('->', '').strip()))
    return out

T = 'low_level/oneloop/thermal/'
def keypath(e):
    f, m, n = e['file'], e['mods'], e['name']
    P = 'qcd_sme::'
    th = P + 'low_level::oneloop::thermal::'
    short = {'zero_matsubara': 'zf', 'zero_momentum': 'zm'}
    if f == 'common/mod.rs': return 'common::' + n, P + 'common::' + n
    if f == 'common/thermal.rs': return 'common::' + n, P + 'common::thermal::' + n
    if f == 'low_level/common/mod.rs': return 'low::' + n, P + 'low_level::common::' + n
    if f == 'low_level/oneloop/ghost.rs': return 'ghost::' + n, P + 'low_level::oneloop::ghost::' + n
    if f == 'low_level/oneloop/gluon.rs': return 'gluon::' + n, P + 'low_level::oneloop::gluon::' + n
    if f == T + 'mod.rs': return 'th::' + n, th + n
    if f == T + 'zero_matsubara.rs': return 'zf::' + n, th + 'zero_matsubara::' + n
    if f == T + 'zero_momentum.rs': return 'zm::' + n, th + 'zero_momentum::' + n
    if f in (T + 'ghost.rs', T + 'gluon.rs'):
        g = f.split('/')[-1][:-3]
        if m: return f'{short[m[0]]}::{g}::{n}', f'{th}{g}::{m[0]}::{n}'
        return f'th::{g}::{n}', f'{th}{g}::{n}'
    if f in ('ym/ghost.rs', 'ym/gluon.rs', 'qcd/gluon.rs', 'qcd/ghost.rs'):
        a = f[:-3].replace('/', '::')
        return f'{a}::{n}', f'{P}{a}::{n}'
    if f in ('ym/thermal.rs', 'qcd/thermal.rs'):
        a = f.split('/')[0]
        if len(m) == 2: return f'{a}t_{short[m[0]]}::{m[1]}::{n}', f'{P}{a}::thermal::{m[0]}::{m[1]}::{n}'
        return f'{a}t::{m[0]}::{n}', f'{P}{a}::thermal::{m[0]}::{n}'
    return None

entries = scan()
native, ffi = [], []
for e in entries:
    if e['file'] in ('consts.rs', 'qcd/types.rs', 'utils.rs', 'types.rs'):
        if e['ffi']: pass
        continue
    (ffi if e['ffi'] else native).append(e)
# re-exports that are public entry points too
extra = []
for e in native:
    if e['file'] == 'ym/ghost.rs': extra.append(dict(e, file='qcd/ghost.rs'))
    if e['file'] == 'ym/thermal.rs' and e['mods'][-1] == 'ghost': extra.append(dict(e, file='qcd/thermal.rs'))
native += extra

F, FM, FC = [], [], []
for e in native:
    key, path = keypath(e)
    gens = re.findall(r'(T\d?)\s*:', e['gen'])
    gens = list(dict.fromkeys(gens))
    names = [a for a, t in e['args'] if t not in ('Integral', '&FieldConfig', 'types::Integral')]
    kind = 'M' if any(t.endswith('Integral') for _, t in e['args']) else 'C' if any('FieldConfig' in t for _, t in e['args']) else 'F'
    for combo in itertools.product('RC', repeat=len(gens)):
        g = dict(zip(gens, combo))
        if 'Sub<T2' in e['gen'] and g.get('T1') == 'R' and g.get('T2') == 'C': continue
        mask, call, i = 0, [], 0
        for a, t in e['args']:
            if t.endswith('Integral'): call.append('m'); continue
            if 'FieldConfig' in t: call.append('c'); continue
            ty = g.get(t, t)
            if ty == 'C': mask |= 1 << i; call.append(f'a[{i}]')
            elif ty == 'R': call.append(f'a[{i}].re')
            else: raise Exception((e, t))
            i += 1
        ret = g.get(e['ret'], e['ret'])
        sig = {'F': '|a|', 'M': '|a, m|', 'C': '|a, c|'}[kind]
        body = f'{path}({", ".join(call)})'
        if ret == 'R': body = f'C::from({body})'
        ps = ', '.join(f'"{x}"' for x in names)
        line = f'    F{kind if kind != "F" else ""} {{ key: "{key}", params: &[{ps}], mask: {mask}, ret_c: {str(ret == "C").lower()}, f: {sig} {body} }},'
        {'F': F, 'M': FM, 'C': FC}[kind].append((key, mask, line))

keys = {(k, m) for k, m, _ in F}
def ffi_native(e):
    n = e['name']
    base = n.replace('__complex', '')
    mp = [('oneloop__zero_matsubara__gluon__', 'zf::gluon::'), ('oneloop__zero_matsubara__ghost__', 'zf::ghost::'),
          ('oneloop__zero_matsubara__', 'zf::'), ('oneloop__zero_momentum__gluon__', 'zm::gluon::'),
          ('oneloop__zero_momentum__ghost__', 'zm::ghost::'), ('oneloop__zero_momentum__', 'zm::'),
          ('oneloop__gluon__polarization', 'th::gluon::polarization'), ('oneloop__ghost__self', 'th::ghost::self'),
          ('oneloop__gluon__', 'gluon::'), ('oneloop__ghost__', 'ghost::'),
          ('oneloop__', 'th::'), ('ym__gluon__', 'ym::gluon::'), ('ym__ghost__', 'ym::ghost::'),
          ('qcd__gluon__', 'qcd::gluon::'), ('qcd__ghost__', 'qcd::ghost::')]
    m = re.match(r'ym__oneloop__gluon__(dressing\w*)', base)
    if m: return 'gluon::ym_' + m.group(1)
    m = re.match(r'ym__oneloop__ghost__(dressing\w*)', base)
    if m: return 'ghost::' + m.group(1)
    for a, b in mp:
        if base.startswith(a): return b + base[len(a):]
    if base.startswith('statistic_'): return 'low::' + base
    return 'common::' + base
G = []
for e in ffi:
    k = ffi_native(e)
    mask, call = 0, []
    for i, (a, t) in enumerate(e['args']):
        if t == 'C': mask |= 1 << i; call.append(f'a[{i}]')
        else: assert t == 'R', (e, t); call.append(f'a[{i}].re')
    # a real symbol may return a complex number; the native counterpart has the same mask
    if (k, mask) not in keys: print('UNMAPPED', e['name'], k, mask); continue
    ps = ', '.join(f'"{a}"' for a, _ in e['args'])
    body = f'qcd_sme::ffi::{e["name"]}({", ".join(call)})'
    if e['ret'] == 'R': body = f'C::from({body})'
    G.append((e['name'], mask, f'    G {{ sym: "{e["name"]}", key: "{k}", params: &[{ps}], mask: {mask}, ret_c: {str(e["ret"] == "C").lower()}, f: |a| {body} }},'))

with open('/verif/harness/src/table.rs', 'w') as f:
    f.write('// @generated by tools/gen_table.py\n#![allow(clippy::all)]\nuse crate::{F, FC, FM, G};\nuse qcd_sme::C;\n\n')
    for nm, ty, l in (('FUNS', 'F', F), ('METHODS', 'FM', FM), ('CONFIGS', 'FC', FC), ('FFI', 'G', G)):
        f.write(f'pub static {nm}: &[{ty}] = &[\n' + '\n'.join(x[2] for x in l) + '\n];\n\n')
print(len(F), len(FM), len(FC), len(G))
