//! C10: FieldConfig functions depend on their configuration alone.  C11: flavours
//! contribute additively.  C25: linear parameters.  Vacuum FieldConfig values for C01.
use crate::compose::random_config;
use crate::integ::iargs;
use crate::lookup::{self, pos};
use crate::reference;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table, F, FC};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{consts, C};
use serde_json::json;
use std::sync::Mutex;

fn c(x: f64) -> C { C::new(x, 0.) }

#[derive(Clone, Copy)]
pub enum Entry { Plain(&'static F), Conf(&'static FC) }
impl Entry {
    pub fn key(&self) -> &'static str { match self { Entry::Plain(f) => f.key, Entry::Conf(f) => f.key } }
    pub fn params(&self) -> &'static [&'static str] { match self { Entry::Plain(f) => f.params, Entry::Conf(f) => f.params } }
    pub fn mask(&self) -> u32 { match self { Entry::Plain(f) => f.mask, Entry::Conf(f) => f.mask } }
    pub fn call(&self, run: &Run, a: &[C], k: &FieldConfig) -> Result<C, String> {
        run.call_watched(|| format!("{} {:?} {k:?}", self.key(), fmt(a)), || match self { Entry::Plain(f) => (f.f)(a), Entry::Conf(f) => (f.f)(a, k) })
    }
    /// The squared momentum.
    pub fn sd(&self, a: &[C]) -> C {
        let g = |n| pos(self.params(), n).map_or(c(0.), |i| a[i]);
        if let Some(i) = pos(self.params(), "s") { return a[i]; }
        g("om") * g("om") + g("p") * g("p")
    }
    /// The inverse dressing function implied by the returned value.
    pub fn inverse(&self, run: &Run, a: &[C], k: &FieldConfig) -> Result<C, String> {
        let got = self.call(run, a, k)?;
        Ok(if self.key().contains("_inv") { got } else if self.key().contains("propagator") { c(1.) / (got * self.sd(a)) } else { c(1.) / got })
    }
}
pub fn is_dressing(key: &str) -> bool { ["ym::", "qcd::", "ymt", "qcdt"].iter().any(|h| key.starts_with(h)) && (key.contains("dressing") || key.contains("propagator")) }
pub fn confs() -> Vec<Entry> { table::CONFIGS.iter().filter(|f| is_dressing(f.key)).map(Entry::Conf).collect() }
pub fn plains() -> Vec<Entry> { table::FUNS.iter().filter(|f| is_dressing(f.key)).map(Entry::Plain).collect() }

pub fn eargs(r: &mut Rng, e: &Entry) -> Vec<C> {
    let p = e.params();
    let mut a = if p[0] == "s" {
        p.iter().enumerate().map(|(i, n)| match *n {
            "s" => { let m = r.log(1e-2, 1e2); if e.mask() >> i & 1 == 1 { C::from_polar(m, r.range(-2.9, 2.9)) } else { c(m) } }
            "mq" => c(r.log(0.05, 5.)),
            "xi" => c(match r.below(10) { 0 | 1 => 1., 2 => r.sign() * r.log(1e-6, 1e6), _ => r.range(-1., 3.) }),
            _ => { let x = gen::coupling(r); c(if r.p(0.15) { x } else { x.clamp(-10., 10.) }) }
        }).collect()
    } else { iargs(r, p, e.mask()) };
    for (k, n) in p.iter().enumerate() {
        if *n == "om" && a[k].re.abs() < 0.05 * a[k].norm() { a[k].re = r.sign() * 0.05 * a[k].norm(); }
        if *n == "mq" && a[k].re == 0. { a[k].re = 0.4; }
        if *n == "mu" && r.p(0.3) { a[k] = c(r.sign() * r.log(0.5, 8.)); }
    }
    a
}

/// Quadrature settings of the comparisons.
pub fn coarse(tol: f64) { consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(20); consts::set_matsubara_reg(1e-3); }
pub fn fine() { consts::set_default_tol_integral(1e-8); consts::set_default_max_iter_integral(30); }

fn same(a: C, b: C) -> bool {
    let e = |x: f64, y: f64| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan() || x == y;
    e(a.re, b.re) && e(a.im, b.im)
}
/// Sum of quark multiplicities, plus one.
pub fn parts(k: &FieldConfig) -> f64 { 1. + k.quarks.iter().map(|q| q.0 as f64).sum::<f64>() }

/// Vacuum FieldConfig functions, judged by the reference model.
pub fn run_c01_conf(run: &Run) {
    let es: Vec<Entry> = confs().into_iter().filter(|e| e.key().starts_with("qcd::")).collect();
    run.count("field_config_functions", es.len() as u64);
    run.par(es.len() * run.n(40, 1000), |i| {
        let e = &es[i % es.len()];
        let mut r = Rng::stream(run.seed, 150 + (i % es.len()) as u64, (i / es.len()) as u64);
        reference::set_ctx(3, 1);
        for _ in 0..50 {
            if run.stopped() { return; }
            let mut a = eargs(&mut r, e);
            if r.p(0.3) { a[0] *= r.log(1e-3, 1e3); }
            let nc = gen::colors(&mut r);
            let k = random_config(&mut r, nc);
            let mut k = k;
            for q in &mut k.quarks { if r.p(0.3) { q.1 = k.gluon * r.log(1e-3, 1e4); } if r.p(0.1) { q.0 = r.log(1., 1e4) as u32; } }
            let s = a[0];
            let f0 = a[1];
            let xi = pos(e.params(), "xi").map(|i| a[i]);
            let v = match xi { Some(x) => reference::eval_key("ym::gluon::dressing_inv", &[s, f0, x]), None => reference::eval_key("ym::gluon::dressing_inv_landau", &[s, f0]) };
            let (mut inv, mut err, mut size, mut amb) = (v.v, v.err, v.v.norm() + f0.norm(), v.ambiguous || v.extreme);
            let fq = if e.key().contains("crossed") { "gluon::f_q_crossed" } else { "gluon::f_q" };
            for q in &k.quarks {
                if q.0 == 0 { continue; }
                let x = s * (k.gluon / q.1).powi(2);
                if x.norm() > 1e8 || x.norm() < 1e-5 || (x + 4.).norm() < 1e-2 { amb = true; break; }
                let w = reference::eval_key(fq, &[x]);
                let n = q.0 as f64 / k.nc as f64;
                inv += w.v * n; err += w.err * n; size += w.v.norm() * n; amb |= w.ambiguous || w.extreme;
            }
            if amb || err > 1e-6 * size { run.count("undecided", 1); continue; }
            match e.inverse(run, &a, &k) {
                Ok(g) => {
                    let d = (g - inv).norm();
                    let tol = 64. * err + 1e-12 * (size + inv.norm());
                    if d > tol || d.is_nan() { run.violation(e.key(), json!({"args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "inverse": fmt(&[g]), "want": fmt(&[inv]), "deviation": d, "tolerance": tol})); }
                    else { run.distinct_args(e.key(), e.mask() + 512, &a); }
                }
                Err(x) => run.violation(e.key(), json!({"panic": x, "args": fmt(&a), "config": format!("{k:?}")})),
            }
        }
    });
}

pub fn run_c10(run: &Run) {
    *run.rule.lock().unwrap() = "every FieldConfig function: bit-identical under twelve settings of the global parameters, for configurations built directly, cloned and by mutation of public fields in several steps (also between calls); for one species compared with the plain function; non-trivial = finite result of a call with at least one quark".into();
    let es = confs();
    run.count("functions", es.len() as u64);
    let per = run.n(300, 6000);
    let n = es.len() * per;
    let base: Vec<Mutex<Option<C>>> = (0..n).map(|_| Mutex::new(None)).collect();
    consts::set_default_tol_integral(1e-4); consts::set_default_max_iter_integral(8);
    let draw = |i: usize| {
        let e = es[i % es.len()];
        let mut r = Rng::stream(run.seed, 1000 + (i % es.len()) as u64, (i / es.len()) as u64);
        let a = eargs(&mut r, &e);
        let nc = gen::colors(&mut r);
        let k = random_config(&mut r, nc);
        (e, a, k, r)
    };
    for (j, (nc, nf, mq)) in [(3, 1, 0.5), (2, 1, 0.5), (3, 2, 0.5), (3, 1, 2.5), (7, 5, 0.1), (1, 0, 1e-3), (12, 3, 40.), (4, 4, 0.7), (u32::MAX, 1, 0.5), (3, u32::MAX, 0.5), (0, 1, -1.), (5, 0, f64::NAN)].into_iter().enumerate() {
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf); consts::set_default_quark_mass(mq);
        run.par(n, |i| {
            let (e, a, k, _) = draw(i);
            match e.call(run, &a, &k) {
                Ok(g) => {
                    let mut b = base[i].lock().unwrap();
                    match *b {
                        None => *b = Some(g),
                        Some(x) if same(x, g) => if g.re.is_finite() && !k.quarks.is_empty() { run.distinct_args(e.key(), e.mask(), &a); if i % 501 == 0 && j == 3 { run.sample(|| json!({"fn": e.key(), "args": fmt(&a), "config": format!("{k:?}"), "got": fmt(&[g]), "globals": [nc, nf]})); } },
                        Some(x) => run.violation(e.key(), json!({"what": "depends on a global parameter", "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "globals nc,nf,mq": [nc as f64, nf as f64, mq], "got": fmt(&[g]), "with 3, 1, 0.5": fmt(&[x])})),
                    }
                }
                Err(x) => run.violation(e.key(), json!({"panic": x, "args": fmt(&a), "config": format!("{k:?}"), "globals nc,nf": [nc, nf]})),
            }
        });
    }
    // configurations reached by different histories
    run.par(n, |i| {
        let (e, a, k, mut r) = draw(i);
        let Some(want) = *base[i].lock().unwrap() else { return };
        let nc2 = gen::colors(&mut r);
        let mut m = random_config(&mut r, nc2);
        let mut old = vec![];
        let steps = 1 + r.below(4);
        for s in 0..=steps {
            // the call just before differs in one field, whose value is then put right
            if s == steps && r.p(0.5) {
                m = k.clone();
                let j = if k.quarks.is_empty() { 0 } else { r.below(k.quarks.len()) };
                match r.below(6) {
                    0 => m.nc += 1 + r.below(3) as u32,
                    1 => m.gluon *= r.range(1.01, 1.5),
                    2 if !k.quarks.is_empty() => m.quarks[j].0 += 1,
                    3 if !k.quarks.is_empty() => m.quarks[j].1 *= r.range(1.01, 1.5),
                    4 if !k.quarks.is_empty() => { m.quarks.remove(j); }
                    _ => m.quarks.push((1, 0.6)),
                }
                old.push(e.call(run, &a, &m));
            }
            if s == steps {
                // arrive at the wanted configuration, in one of several ways
                match r.below(4) {
                    0 => { m.quarks = k.quarks.clone(); }
                    1 => { m.quarks.clear(); for q in &k.quarks { m.quarks.push(*q); } }
                    2 => { m.quarks.resize(k.quarks.len(), (1, 1.)); for (x, y) in m.quarks.iter_mut().zip(&k.quarks) { x.0 = y.0; x.1 = y.1; } }
                    _ => { let c2 = k.clone(); m.quarks = c2.quarks; }
                }
                m.nc = k.nc; m.gluon = k.gluon;
                if r.p(0.3) { m = m.clone(); }
                if r.p(0.1) { m = FieldConfig { nc: k.nc, ..FieldConfig::new(1, k.gluon, k.quarks.clone()) }; }
            } else {
                match r.below(5) {
                    0 => m.nc = gen::colors(&mut r),
                    1 => m.gluon = r.log(0.3, 3.),
                    2 => m.quarks.push((1 + r.below(3) as u32, r.log(0.1, 2.))),
                    3 => { if let Some(q) = m.quarks.first_mut() { q.1 = r.log(0.1, 2.); q.0 += 1; } }
                    _ => { m.quarks.pop(); }
                }
            }
            if r.p(0.7) || s == steps { old.push(e.call(run, &a, &m)); }
        }
        match old.pop().unwrap() {
            Ok(g) if same(g, want) => run.distinct_args(e.key(), e.mask() + 64, &a),
            g => run.violation(e.key(), json!({"what": "depends on how the configuration was reached", "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "got": format!("{g:?}"), "from new()": fmt(&[want])})),
        }
    });
    // one species: the plain function
    for (nc, nf) in [(3u32, 1u32), (3, 2), (2, 1), (5, 3), (1, 1), (4, 0), (7, 6)] {
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf); consts::set_default_quark_mass(0.5);
        run.confirm(es.len() * run.n(60, 1200), || coarse(1e-7), fine, |items| run.par_list(items, |i| {
            let e = es[i % es.len()];
            let mut r = Rng::stream(run.seed, 1200 + (nc * 10 + nf) as u64 * 1000 + (i % es.len()) as u64, (i / es.len()) as u64);
            let pk = e.key().trim_end_matches("_w_field_config");
            let vac = e.params()[0] == "s";
            let mut a = eargs(&mut r, &e);
            // only FieldConfig functions take complex momenta
            if !vac { a[1].im = 0.; }
            let m = if vac { 1. } else { r.log(0.3, 3.) };
            let mq = r.log(0.1, 4.);
            let gm = if vac { r.log(0.3, 3.) } else { m };
            let k = FieldConfig::new(nc, gm, vec![(nf, mq)]);
            let f = lookup::try_fun(pk, 0).map(|f| f.params).unwrap_or_else(|| panic!("no plain form of {}", e.key()));
            let mut b = vec![]; let mut mask = 0;
            for (j, p) in f.iter().enumerate() {
                match *p {
                    "m" => b.push(c(m)),
                    "mq" => b.push(c(if vac { mq / gm } else { mq })),
                    p => { let q = pos(e.params(), p).unwrap(); if p != "p" && e.mask() >> q & 1 == 1 { mask |= 1 << j; } b.push(a[q]); }
                }
            }
            let p = Entry::Plain(lookup::fun(pk, mask));
            match (e.inverse(run, &a, &k), p.inverse(run, &b, &k)) {
                (Ok(x), Ok(y)) => {
                    let size = x.norm() + y.norm() + 1. + a.last().unwrap().norm();
                    let tol = 1e-10 * size + if vac { 0. } else { 60. / e.sd(&a).norm() * 1e-6 * parts(&k) };
                    let d = (x - y).norm();
                    if !x.re.is_finite() && !y.re.is_finite() { run.count("not_finite", 1); return; }
                    if d > tol || d.is_nan() { run.violation(e.key(), json!({"what": "differs from the plain function", "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "plain": pk, "plain_args": fmt(&b), "inverse": fmt(&[x]), "plain_inverse": fmt(&[y]), "distance": d, "tolerance": tol})); }
                    else { run.max("one species: distance/tolerance", d / tol); run.distinct_args(e.key(), e.mask() + 128, &a); }
                }
                (x, y) => run.violation(e.key(), json!({"panic": [x.err(), y.err()], "args": fmt(&a), "config": format!("{k:?}")})),
            }
        }));
    }
    lookup::reset_globals();
}

pub fn run_c11(run: &Run) {
    *run.rule.lock().unwrap() = "implied inverse dressing functions of random configurations compared with those of permuted, split, merged, scaled and single-flavour configurations, and with Yang-Mills without quarks; plain functions under several numbers of fermions; non-trivial = quark contribution above 1e-6 of the inverse".into();
    let es = confs();
    run.count("functions", es.len() as u64);
    let tol_i = 1e-7;
    run.confirm(es.len() * run.n(600, 15000), || coarse(tol_i), fine, |items| run.par_list(items, |i| {
        let e = es[i % es.len()];
        let mut r = Rng::stream(run.seed, 11000 + (i % es.len()) as u64, (i / es.len()) as u64);
        let a = eargs(&mut r, &e);
        let nc = gen::colors(&mut r);
        let mut k = random_config(&mut r, nc);
        if k.quarks.is_empty() { k.quarks.push((2, 0.6)); k.quarks.push((1, 1.1)); }
        let with = |q: Vec<(u32, f64)>| FieldConfig::new(k.nc, k.gluon, q);
        let inv = |q: &FieldConfig| e.inverse(run, &a, q);
        let full = inv(&k);
        let none = inv(&with(vec![]));
        let (Ok(full), Ok(none)) = (full, none) else { run.violation(e.key(), json!({"panic": true, "args": fmt(&a), "config": format!("{k:?}")})); return };
        if !full.re.is_finite() || !none.re.is_finite() { run.count("not_finite", 1); return; }
        let vac = e.params()[0] == "s";
        let one = |x: f64| 1e-10 * x + if vac { 0. } else { 60. / e.sd(&a).norm() * 10. * tol_i };
        let base = full.norm() + none.norm() + 1. + a.last().unwrap().norm();
        let mut check = |what: &str, x: Result<C, String>, want: C, mult: f64| {
            let d = x.as_ref().map_or(f64::NAN, |x| (x - want).norm());
            let tol = one(base) * mult;
            if d > tol || d.is_nan() { run.violation(e.key(), json!({"what": what, "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "inverse": format!("{x:?}"), "want": fmt(&[want]), "distance": d, "tolerance": tol})); }
            run.max("distance/tolerance", d / tol);
        };
        let p = parts(&k) + 2.;
        // order
        let mut q = k.quarks.clone();
        for j in (1..q.len()).rev() { let l = r.below(j + 1); q.swap(j, l); }
        if r.p(0.5) { q.reverse(); }
        check("order of the flavours matters", inv(&with(q.clone())), full, p);
        // splitting and merging, zero multiplicities
        let mut q = k.quarks.clone();
        let j = r.below(q.len());
        let (n, m) = q[j];
        let x = r.below(n as usize + 1) as u32;
        q[j].0 = x; let at = r.below(q.len() + 1); q.insert(at, (n - x, m));
        if r.p(0.5) { let at = r.below(q.len() + 1); q.insert(at, (0, r.log(0.1, 3.))); }
        check("splitting a flavour matters", inv(&with(q)), full, p);
        // proportional to multiplicity: every flavour on its own
        let mut sum = none;
        for (n, m) in &k.quarks {
            match inv(&with(vec![(1, *m)])) { Ok(x) => sum += (x - none) * *n as f64, Err(_) => return }
        }
        check("not the sum of single-flavour contributions", Ok(full), sum, 2. * p);
        let big = 3 + r.below(40) as u32;
        if let Ok(x) = inv(&with(vec![(1, k.quarks[0].1)])) {
            let w = none + (x - none) * big as f64;
            if (x - none).norm() * big as f64 > 1e-4 || r.p(0.1) { check("not proportional to the multiplicity", inv(&with(vec![(big, k.quarks[0].1)])), w, 2. * big as f64 * (1. + (x - none).norm() / base * big as f64)); }
        }
        // no quarks
        check("zero multiplicities differ from no flavours", inv(&with(k.quarks.iter().map(|q| (0, q.1)).collect())), none, p);
        if (full - none).norm() > 1e-6 * full.norm() { run.distinct_args(e.key(), e.mask(), &a); }
        if i % 301 == 0 { run.sample(|| json!({"fn": e.key(), "args": fmt(&a), "config": format!("{k:?}"), "inverse": fmt(&[full]), "pure_glue": fmt(&[none])})); }
        // Yang-Mills
        let key = e.key().trim_end_matches("_w_field_config").replace("qcdt", "ymt").replace("qcd::", "ym::").replace("_crossed", "");
        let zt = key.contains("zero_temp");
        let mut a = a.clone();
        let mut none = none;
        if !vac && a[1].im != 0. { a[1].im = 0.; none = match e.inverse(run, &a, &with(vec![])) { Ok(x) => x, Err(_) => return }; }
        let ym = if zt { "ym::gluon::dressing_inv_landau".to_string() } else { key };
        let (params, mut b, mut mask): (&[&str], Vec<C>, u32) = match lookup::try_fun(&ym, 0) { Some(f) => (f.params, vec![], 0), None => panic!("no Yang-Mills form {ym} of {}", e.key()) };
        for (j, p) in params.iter().enumerate() {
            match *p {
                "m" => b.push(c(k.gluon)),
                "s" if zt => { let s = e.sd(&a) / (k.gluon * k.gluon); if e.mask() & 3 != 0 { mask |= 1; } b.push(s); }
                p => { let q = pos(e.params(), p).unwrap(); if p != "p" && e.mask() >> q & 1 == 1 { mask |= 1 << j; } b.push(a[q]); }
            }
        }
        check("without quarks not Yang-Mills", Entry::Plain(lookup::fun(&ym, mask)).inverse(run, &b, &k), none, 2.);
    }));
    // plain functions: proportional to nf/nc, Yang-Mills at nf = 0
    let es: Vec<Entry> = plains().into_iter().filter(|e| e.key().starts_with("qcd") && pos(e.params(), "mq").is_some()).collect();
    run.count("plain_functions", es.len() as u64);
    let per = run.n(150, 3000);
    for (nc, nfs) in [(3u32, [0u32, 1, 2, 6, 300]), (2, [0, 1, 3, 9, 70_001])] {
        consts::set_number_of_colors(nc);
        run.confirm(es.len() * per, || coarse(tol_i), fine, |items| { let vals: Vec<Mutex<Vec<C>>> = (0..es.len() * per).map(|_| Mutex::new(vec![])).collect();
        for nf in nfs {
            consts::set_number_of_fermions(nf);
            run.par_list(items, |i| {
                let e = es[i % es.len()];
                let mut r = Rng::stream(run.seed, 11500 + nc as u64 * 300 + (i % es.len()) as u64, (i / es.len()) as u64);
                let a = eargs(&mut r, &e);
                let k = FieldConfig::new(1, 1., vec![]);
                match e.inverse(run, &a, &k) {
                    Ok(x) => {
                        let mut v = vals[i].lock().unwrap();
                        v.push(x);
                        if v.len() == 2 && (v[1] - v[0]).norm() > 1e-6 * v[0].norm() { run.distinct_args(e.key(), e.mask() + 256, &a); }
                        if v.len() > 2 && v[0].re.is_finite() && v[1].re.is_finite() {
                            let w = v[0] + (v[1] - v[0]) * nf as f64;
                            let vac = e.params()[0] == "s";
                            let tol = (1e-10 * (w.norm() + v[0].norm() + v[1].norm() + 1. + 10.) + if vac { 0. } else { 60. / e.sd(&a).norm() * 10. * tol_i }) * (2. + 2. * nf as f64);
                            if !((x - w).norm() <= tol) { run.violation(e.key(), json!({"what": "not proportional to the number of fermions", "nc": nc, "nf": nf, "args": fmt(&a), "bits": bits(&a), "inverse": fmt(&[x]), "want": fmt(&[w])})); }
                        }
                    }
                    Err(x) => run.violation(e.key(), json!({"panic": x, "args": fmt(&a)})),
                }
            });
        } });
    }
    lookup::reset_globals();
}

pub fn run_c25(run: &Run) {
    *run.rule.lock().unwrap() = "all dressing functions and propagators, plain and FieldConfig, evaluated with two or three values of f0 or g0, of xi, and under proportional numbers of fermions and colors; implied inverse dressing functions compared; non-trivial = the parameter changes the result".into();
    let mut es = plains();
    es.extend(confs());
    run.count("functions", es.len() as u64);
    let k0 = |r: &mut Rng| { let nc = gen::colors(r); random_config(r, nc) };
    for (nc, nf) in [(3, 1), (2, 3)] {
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf);
        run.confirm(es.len() * run.n(500, 12000), || coarse(1e-5), fine, |items| run.par_list(items, |i| {
            let e = es[i % es.len()];
            let mut r = Rng::stream(run.seed, 25000 + nc as u64 * 1000 + (i % es.len()) as u64, (i / es.len()) as u64);
            let a = eargs(&mut r, &e);
            let k = k0(&mut r);
            let f = pos(e.params(), "f0").or(pos(e.params(), "g0")).unwrap();
            let bad = |what: &str, d: f64, tol: f64, v: &[C]| run.violation(e.key(), json!({"what": what, "nc": nc, "nf": nf, "params": e.params(), "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "inverses": fmt(v), "deviation": d, "tolerance": tol}));
            let with = |j: usize, x: f64| { let mut b = a.clone(); b[j] = c(x); e.inverse(run, &b, &k) };
            let Ok(i0) = with(f, a[f].re) else { run.violation(e.key(), json!({"panic": true, "args": fmt(&a)})); return };
            let x1 = match r.below(5) { 0 => 0., 4 => r.sign() * r.log(1e-6, 1e6), 1 => -a[f].re, 2 => a[f].re + r.sign() * r.log(1e-6, 1e2), _ => r.range(-5., 5.) };
            let Ok(i1) = with(f, x1) else { return };
            if !i0.re.is_finite() || !i1.re.is_finite() { run.count("not_finite", 1); return; }
            let scale = |v: &[C]| v.iter().map(|z| z.norm()).sum::<f64>() + a[f].norm() + x1.abs() + 1.;
            let d = (i1 - i0 - (x1 - a[f].re)).norm();
            let tol = 1e-11 * scale(&[i0, i1]);
            if d > tol || d.is_nan() { bad("a shift of the renormalization constant does not shift the inverse", d, tol, &[i0, i1, c(x1)]); } else { run.distinct_args(e.key(), e.mask() + nc * 1000, &a); run.max("shift: deviation/tolerance", d / tol); }
            if let Some(j) = pos(e.params(), "xi") {
                let (Ok(z), Ok(o), Ok(x)) = (with(j, 0.), with(j, 1.), with(j, a[j].re)) else { return };
                let w = z + (o - z) * a[j].re;
                let tol = 1e-11 * (scale(&[z, o, x, w]) + (o - z).norm() * a[j].re.abs()) + 1e-14 * a[j].re.abs() * scale(&[z, o]);
                if !((x - w).norm() <= tol) { bad("not affine in the gauge parameter", (x - w).norm(), tol, &[z, o, x]); }
                // Landau gauge
                let key = e.key();
                let lk = if let Some(b) = key.strip_suffix("_w_field_config") { format!("{b}_landau_w_field_config") } else { format!("{key}_landau") };
                let mut b = a.clone(); b.remove(j);
                let g = match e { Entry::Plain(_) => lookup::try_fun(&lk, e.mask()).map(Entry::Plain), Entry::Conf(_) => lookup::try_conf(&lk, e.mask()).map(Entry::Conf) }.unwrap_or_else(|| panic!("no {lk}"));
                match g.inverse(run, &b, &k) {
                    Ok(l) if (l - z).norm() <= 1e-11 * scale(&[l, z]) => run.distinct_args(&lk, e.mask(), &b),
                    l => bad(&format!("{lk} is not the xi = 0 case"), l.map_or(f64::NAN, |l| (l - z).norm()), 0., &[z]),
                }
            }
            // configurations with the same nf/nc
            if let Entry::Conf(_) = e {
                let t = 2 + r.below(5) as u32;
                let k2 = FieldConfig::new(k.nc * t, k.gluon, k.quarks.iter().map(|q| (q.0 * t, q.1)).collect());
                match e.inverse(run, &a, &k2) {
                    Ok(x) => {
                        let vac = e.params()[0] == "s";
                        let tol = 1e-10 * scale(&[x, i0]) + if vac { 0. } else { 60. / e.sd(&a).norm() * 2e-4 * parts(&k2) };
                        if !((x - i0).norm() <= tol) { bad("depends on more than nf/nc", (x - i0).norm(), tol, &[i0, x]); }
                        if !k.quarks.is_empty() { run.distinct_args(e.key(), e.mask() + 512, &a); }
                    }
                    Err(x) => run.violation(e.key(), json!({"panic": x})),
                }
            }
        }));
    }
    // plain functions with proportional numbers of fermions and colors
    let es: Vec<Entry> = plains().into_iter().filter(|e| e.key().starts_with("qcd")).collect();
    let per = run.n(200, 5000);
    run.confirm(es.len() * per, || coarse(1e-7), fine, |items| { let vals: Vec<Mutex<Option<C>>> = (0..es.len() * per).map(|_| Mutex::new(None)).collect();
    for t in [1u32, 2, 5, 40_000] {
        consts::set_number_of_colors(3 * t); consts::set_number_of_fermions(2 * t);
        run.par_list(items, |i| {
            let e = es[i % es.len()];
            let mut r = Rng::stream(run.seed, 25500 + (i % es.len()) as u64, (i / es.len()) as u64);
            let a = eargs(&mut r, &e);
            let k = FieldConfig::new(1, 1., vec![]);
            let Ok(x) = e.inverse(run, &a, &k) else { run.violation(e.key(), json!({"panic": true, "args": fmt(&a)})); return };
            let mut v = vals[i].lock().unwrap();
            match *v {
                None => *v = Some(x),
                Some(y) => {
                    let vac = e.params()[0] == "s";
                    let tol = 1e-10 * (x.norm() + y.norm() + 10.) + if vac { 0. } else { 60. / e.sd(&a).norm() * 3e-6 * 2. * t as f64 };
                    if y.re.is_finite() && !((x - y).norm() <= tol) { run.violation(e.key(), json!({"what": "depends on more than nf/nc", "nc": 3 * t, "nf": 2 * t, "args": fmt(&a), "bits": bits(&a), "inverse": fmt(&[x]), "with nc=3, nf=2": fmt(&[y])})); }
                    else { run.distinct_args(e.key(), e.mask() + 2048, &a); }
                }
            }
        });
    } });
    lookup::reset_globals();
}
