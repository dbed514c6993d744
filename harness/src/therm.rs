//! C15: zero temperature, chemical-potential parity, the silver-blaze region.
use crate::compose::random_config;
use crate::field::{coarse, confs, eargs, fine, is_dressing, parts, plains, Entry};
use crate::integ::iargs;
use crate::lookup::{self, pos};
use crate::reference;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::sym::steady;
use crate::value::K;
use crate::{gen, table, F, FM};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{consts, C};
use serde_json::json;

fn c(x: f64) -> C { C::new(x, 0.) }

/// The zero-temperature function a thermal one tends to, as an entry of the same kind.
enum Limit { Entry(Entry, Vec<C>), Vacuum(C) }
fn zero_temp(e: &Entry, a: &[C], k: &FieldConfig) -> Limit {
    let key = e.key();
    let inf = a.iter().zip(e.params()).filter(|(_, p)| **p != "beta").map(|(z, _)| *z).collect::<Vec<_>>();
    if key.contains("::gluon::") && key.starts_with("qcdt") {
        let zk = if key.contains("_w_field_config") { key.replace("_landau_w_field_config", "_zero_temp_landau_w_field_config") } else { key.replace("_landau", "_zero_temp_landau") };
        // masks are by position, beta comes after the momenta
        let z = match e { Entry::Plain(_) => Entry::Plain(lookup::fun(leak(&zk), e.mask())), Entry::Conf(_) => Entry::Conf(lookup::conf(leak(&zk), e.mask())) };
        return Limit::Entry(z, inf);
    }
    Limit::Vacuum(vacuum(e, a, k))
}
fn leak(s: &str) -> &'static str {
    use std::sync::{Mutex, OnceLock};
    static M: OnceLock<Mutex<std::collections::HashMap<String, &'static str>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = m.get(s) { return x; }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.into(), l);
    l
}
/// The implied inverse dressing of the vacuum theory, through the library's own functions.
pub fn vacuum(e: &Entry, a: &[C], k: &FieldConfig) -> C {
    let g = |n| pos(e.params(), n).map(|i| a[i]);
    let key = e.key();
    if key.contains("::ghost::") { let m = g("m").unwrap_or(c(k.gluon)); return qcd_sme::ym::ghost::dressing_inv_landau(e.sd(a) / (m * m), g("g0").unwrap().re); }
    let f0 = g("f0").unwrap().re;
    match e {
        Entry::Conf(_) => qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(e.sd(a) / (k.gluon * k.gluon), f0, k),
        _ => {
            let m = g("m").unwrap();
            let s = e.sd(a) / (m * m);
            if key.starts_with("ymt") { qcd_sme::ym::gluon::dressing_inv_landau(s, f0) } else { qcd_sme::qcd::gluon::dressing_inv_landau(s, g("mq").unwrap().re / m.re, f0) }
        }
    }
}
/// Quark masses a chemical potential has to exceed.
fn masses(e: &Entry, a: &[C], k: &FieldConfig) -> Vec<f64> {
    match e { Entry::Conf(_) => k.quarks.iter().filter(|q| q.0 > 0).map(|q| q.1).collect(), _ => pos(e.params(), "mq").map(|i| a[i].re).into_iter().collect() }
}

pub fn run_c15(run: &Run) {
    *run.rule.lock().unwrap() = "reversed chemical potentials (pointwise bit for bit within rounding, integrated within quadrature accuracy); zero-temperature functions below threshold against each other bit for bit and against the vacuum; finite-temperature functions at two low temperatures against their zero-temperature counterparts, deviation bounded and falling as the square of the temperature; integrands and distributions at inverse temperatures where thermal factors are below rounding; non-trivial = non-zero chemical potential or thermal deviation above rounding".into();
    // 1. pointwise: parity in mu
    let ps: Vec<(&F, i32)> = table::FUNS.iter().filter(|f| f.params.contains(&"mu") && !is_dressing(f.key) && (f.key.contains("polarization") || f.key.contains("double") || f.key.contains("density"))).filter_map(|f| reference::index(f.key).map(|i| (f, i))).collect();
    run.count("parity: pointwise functions", ps.len() as u64);
    run.par(ps.len() * run.n(40, 800), |i| {
        let (f, idx) = ps[i % ps.len()];
        let mut r = Rng::stream(run.seed, 18000 + (i % ps.len()) as u64, (i / ps.len()) as u64);
        reference::set_ctx(3, 1);
        let imu = pos(f.params, "mu").unwrap();
        let odd = f.key.contains("density");
        for _ in 0..60 {
            if run.stopped() { return; }
            let a = gen::args(&mut r, f.key, f.params, f.mask);
            let mut b = a.clone(); b[imu] = -b[imu];
            let v = reference::eval(idx, &a);
            if v.ambiguous || v.extreme || !v.err.is_finite() { continue; }
            match (run.call(|| f.key.into(), || (f.f)(&a)), run.call(|| f.key.into(), || (f.f)(&b))) {
                (Ok(x), Ok(y)) => {
                    let y = if odd { -y } else { y };
                    if x.re.is_nan() && y.re.is_nan() { continue; }
                    let d = (x - y).norm();
                    if d > 2. * K * v.err + 1e-300 || d.is_nan() && x.re.is_finite() { run.violation(f.key, json!({"law": if odd { "odd in mu" } else { "even in mu" }, "args": fmt(&a), "bits": bits(&a), "value": fmt(&[x]), "reversed": fmt(&[y]), "tolerance": 2. * K * v.err})); }
                    else if x.norm() > 0. && a[imu].norm() > 0. { run.distinct_args(&format!("mu{}", f.key), f.mask, &a); }
                }
                (x, y) => run.violation(f.key, json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
            }
        }
    });
    // 2. pointwise: thermal factors below rounding
    let zs: Vec<(&F, i32, &F, i32)> = table::FUNS.iter().filter(|f| f.params.contains(&"beta") && f.params.contains(&"mu") && f.mask & 1 == 0 && (f.key.ends_with("_i") && f.key.contains("quark") && !f.key.contains("density") || f.key.starts_with("common::fermi"))).filter_map(|f| {
        let zk = if f.key.starts_with("common") { format!("{}_zero_temp", f.key) } else { f.key.replace("_thermal_part_landau_i", "_thermal_part_zero_temp_landau_i") };
        let z = lookup::try_fun(leak(&zk), if f.mask == 0 { 0 } else { f.mask })?;
        Some((f, reference::index(f.key)?, z, reference::index(z.key)?))
    }).collect();
    run.count("zero temperature: pointwise pairs", zs.len() as u64);
    run.par(zs.len() * run.n(40, 800), |i| {
        let (f, fi, z, zi) = zs[i % zs.len()];
        let mut r = Rng::stream(run.seed, 18500 + (i % zs.len()) as u64, (i / zs.len()) as u64);
        reference::set_ctx(3, 1);
        let (imu, ib) = (pos(f.params, "mu").unwrap(), pos(f.params, "beta").unwrap());
        for _ in 0..60 {
            if run.stopped() { return; }
            let mut a = gen::args(&mut r, f.key, f.params, f.mask);
            let en = match pos(f.params, "en") { Some(i) => a[i].re, None => { let q = a[0].re; let m = a[pos(f.params, "mq").unwrap()].re; (q * q + m * m).sqrt() } };
            let gap = if f.key.ends_with("fermi_distribution") { (en - a[imu].re).abs() } else { (en - a[imu].re.abs()).abs() };
            if a.iter().zip(f.params).any(|(z, p)| *p == "mu" && z.im != 0.) || gap < 1e-3 * en.abs() || gap == 0. { continue; }
            a[ib] = c(r.log(50., 500.) / gap);
            let b: Vec<C> = z.params.iter().map(|p| a[pos(f.params, p).unwrap()]).collect();
            let (v, w) = (reference::eval(fi, &a), reference::eval(zi, &b));
            if v.ambiguous || w.ambiguous || w.extreme || !w.err.is_finite() || !v.err.is_finite() { continue; }
            match (run.call(|| f.key.into(), || (f.f)(&a)), run.call(|| z.key.into(), || (z.f)(&b))) {
                (Ok(x), Ok(y)) => {
                    let d = (x - y).norm();
                    // everything the thermal factor multiplies is at most the reference at unit weight
                    let full = if f.key.starts_with("common") { 2. } else { let mut u = b.clone(); u[pos(z.params, "mu").unwrap()] = c(1.01 * en); reference::eval(zi, &u).v.norm() };
                    let tol = K * (v.err + w.err) + 1e-21 * full + 1e-300;
                    if d > tol || d.is_nan() && y.re.is_finite() { run.violation(f.key, json!({"law": "tends to its zero-temperature counterpart", "args": fmt(&a), "bits": bits(&a), "value": fmt(&[x]), "zero temperature": fmt(&[y]), "distance": d, "tolerance": tol})); }
                    else { run.distinct_args(&format!("cold{}", f.key), f.mask, &a); }
                }
                (x, y) => run.violation(f.key, json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
            }
        }
    });
    // 3. integrated: parity
    let ms: Vec<&FM> = table::METHODS.iter().filter(|f| f.params.contains(&"mu") || f.params.contains(&"n")).collect();
    let es: Vec<Entry> = plains().into_iter().chain(confs()).filter(|e| e.params().contains(&"mu")).collect();
    let (nm, ne) = (ms.len() * run.n(300, 6000), es.len() * run.n(100, 2000));
    run.count("parity: integrated functions", (ms.len() + es.len()) as u64);
    run.confirm(nm + ne, || coarse(1e-6), fine, |items| run.par_list(items, |i| {
        let tol = consts::get_default_tol_integral();
        let m = consts::get_default_integration_method();
        let judge = |key: &str, mask: u32, a: &[C], odd: bool, t: f64, x: Result<C, String>, y: Result<C, String>| match (x, y) {
            (Ok(x), Ok(y)) => {
                if !x.re.is_finite() { run.count("not_finite", 1); return; }
                let (d, t) = ((x - if odd { -y } else { y }).norm(), t + 1e-10 * x.norm());
                if d > t || d.is_nan() { run.violation(key, json!({"law": if odd { "odd in mu" } else { "even in mu" }, "args": fmt(a), "bits": bits(a), "value": fmt(&[x]), "reversed": fmt(&[y]), "distance": d, "tolerance": t})); }
                else if x.norm() > 0. { run.max("parity: distance/tolerance", d / t); run.distinct_args(key, mask + 1024, a); }
            }
            (x, y) => run.violation(key, json!({"panic": [x.err(), y.err()], "args": fmt(a)})),
        };
        if i < nm {
            let f = ms[i % ms.len()];
            let mut r = Rng::stream(run.seed, 19000 + (i % ms.len()) as u64, (i / ms.len()) as u64);
            let mut a = iargs(&mut r, f.params, f.mask);
            steady(f.params, &mut a);
            let odd = f.key.contains("density") || f.key.contains("chemical");
            let j = pos(f.params, if f.key.contains("chemical") { "n" } else { "mu" }).unwrap();
            if f.key.contains("chemical") { a[j] = c(r.sign() * r.log(0.1, 10.)); }
            if r.p(0.05) { for (z, p) in a.iter_mut().zip(f.params) { if *p == "m" || *p == "mq" { *z = -*z; } } }
            let mut b = a.clone(); b[j] = -b[j];
            let call = |a: &[C]| run.call_watched(|| format!("{} {:?}", f.key, fmt(a)), || (f.f)(a, m));
            judge(f.key, f.mask, &a, odd, 60. * tol, call(&a), call(&b));
        } else {
            let i = i - nm;
            let e = es[i % es.len()];
            let mut r = Rng::stream(run.seed, 19500 + (i % es.len()) as u64, (i / es.len()) as u64);
            let mut a = eargs(&mut r, &e);
            steady(e.params(), &mut a);
            let nc = gen::colors(&mut r);
            let k = random_config(&mut r, nc);
            let j = pos(e.params(), "mu").unwrap();
            let mut b = a.clone(); b[j] = -b[j];
            judge(e.key(), e.mask(), &a, false, 60. * tol / e.sd(&a).norm() * parts(&k) + 1e-10 * (1. + a.last().unwrap().norm()), e.inverse(run, &a, &k), e.inverse(run, &b, &k));
        }
    }));
    lookup::reset_globals();
    // 4. below threshold there is only the vacuum
    let zt: Vec<Entry> = plains().into_iter().chain(confs()).filter(|e| e.key().contains("zero_temp")).collect();
    run.count("below threshold: functions", zt.len() as u64);
    run.par(zt.len() * run.n(600, 12000), |i| {
        let e = zt[i % zt.len()];
        let mut r = Rng::stream(run.seed, 20000 + (i % zt.len()) as u64, (i / zt.len()) as u64);
        let mut a = eargs(&mut r, &e);
        steady(e.params(), &mut a);
        let nc = gen::colors(&mut r);
        let k = random_config(&mut r, nc);
        let lim = masses(&e, &a, &k).into_iter().fold(f64::INFINITY, f64::min);
        let lim = if lim.is_finite() { lim } else { 5. };
        let j = pos(e.params(), "mu").unwrap();
        let draw = |r: &mut Rng| c(r.sign() * lim * match r.below(4) { 0 => 1., 1 => 1. - r.log(1e-15, 1e-3), 2 => r.f(), _ => r.log(1e-9, 1.) });
        a[j] = draw(&mut r);
        let mut b = a.clone(); b[j] = if r.p(0.3) { c(0.) } else { draw(&mut r) };
        let v = vacuum(&e, &a, &k);
        match (e.inverse(run, &a, &k), e.inverse(run, &b, &k)) {
            (Ok(x), Ok(y)) => {
                if !x.re.is_finite() && !v.re.is_finite() { return; }
                let same = x.re == y.re && x.im == y.im;
                let (d, t) = ((x - v).norm(), 1e-9 * (v.norm() + 1. + a.last().unwrap().norm()));
                if !same { run.violation(e.key(), json!({"law": "independent of mu below threshold", "args": fmt(&a), "bits": bits(&a), "other mu": b[j].re, "config": format!("{k:?}"), "inverse": fmt(&[x]), "other": fmt(&[y])})); }
                else if d > t || d.is_nan() { run.violation(e.key(), json!({"law": "vacuum below threshold", "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "inverse": fmt(&[x]), "vacuum": fmt(&[v]), "distance": d, "tolerance": t})); }
                else { run.distinct_args(e.key(), e.mask() + 2048, &a); }
            }
            (x, y) => run.violation(e.key(), json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
        }
    });
    // 5. low temperatures
    let th: Vec<Entry> = plains().into_iter().chain(confs()).filter(|e| e.params().contains(&"beta")).collect();
    run.count("low temperature: functions", th.len() as u64);
    let level = |tol: f64, depth: u32| { consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(depth); consts::set_matsubara_reg(1e-5); };
    run.confirm_levels(th.len() * run.n(200, 4000), &[&|| level(1e-7, 24), &|| level(1e-9, 26), &|| level(1e-10, 28)], |items| run.par_list(items, |i| {
        let e = th[i % th.len()];
        let mut r = Rng::stream(run.seed, 21000 + (i % th.len()) as u64, (i / th.len()) as u64);
        let mut a = eargs(&mut r, &e);
        steady(e.params(), &mut a);
        if let Some(i) = pos(e.params(), "p") { a[i].im = 0.; }
        let nc = gen::colors(&mut r);
        let mut k = random_config(&mut r, nc);
        for q in &mut k.quarks { q.1 = q.1.max(0.2); }
        let (ib, imu) = (pos(e.params(), "beta").unwrap(), pos(e.params(), "mu"));
        let ms = masses(&e, &a, &k);
        if let Some(j) = imu {
            // away from every threshold
            for _ in 0..20 { if ms.iter().all(|m| (a[j].re.abs() - m).abs() > 0.2) { break; } a[j] = c(r.sign() * r.log(0.2, 6.)); }
        }
        let mu = imu.map_or(0., |j| a[j].re.abs());
        let gap = ms.iter().map(|m| (mu - m).abs()).fold(f64::INFINITY, f64::min);
        let low = a.iter().zip(e.params()).filter(|(_, p)| ["om", "p", "m", "mq"].contains(p)).map(|(z, _)| z.norm()).fold(k.gluon.min(gap), f64::min);
        // static screening is singular at twice the Fermi momentum
        let low = match pos(e.params(), "p") { Some(i) if e.key().contains("_zf::") => ms.iter().filter(|m| mu > **m).map(|m| (a[i].re - 2. * (mu * mu - m * m).sqrt()).abs()).fold(low, f64::min), _ => low };
        // a sharp edge just inside the end of a panel is seen by no node of it
        let hidden = ms.iter().any(|m| mu > *m && { let t = 1. / (1. + (mu * mu - m * m).sqrt()); (0..13).any(|j| { let x = t * f64::powi(2., j); (x - x.round()).abs() < 0.008 }) });
        if hidden { run.count("low temperature: edge hidden from the quadrature", 1); return; }
        if low < 0.05 { run.count("low temperature: skipped", 1); return; }
        let lim = match zero_temp(&e, &a, &k) { Limit::Entry(z, b) => z.inverse(run, &b, &k), Limit::Vacuum(v) => Ok(v) };
        let mut dev = [0.; 2];
        let mut val = vec![];
        for j in 0..2 {
            a[ib] = c([100., 200.][j] / low);
            match (e.inverse(run, &a, &k), &lim) {
                (Ok(x), Ok(l)) => { dev[j] = (x - l).norm(); val.push(x); }
                (x, l) => { run.violation(e.key(), json!({"panic": [x.err(), l.clone().err()], "args": fmt(&a), "config": format!("{k:?}")})); return; }
            }
        }
        let l = lim.unwrap();
        if !l.re.is_finite() { run.count("not_finite", 1); return; }
        let sd = e.sd(&a).norm();
        let t = 100. * consts::get_default_tol_integral() / sd * parts(&k) + 1e-9 * (l.norm() + 1. + a.last().unwrap().norm());
        let bound = 40. * parts(&k) * 1e-4 + t;
        let fall = 0.35 * dev[0] + t + 2e-5 * parts(&k);
        if !(dev[0] <= bound) || !(dev[1] <= fall) {
            run.violation(e.key(), json!({"law": "tends to its zero-temperature counterpart", "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "low scale over temperature": [100, 200], "inverses": fmt(&val), "limit": fmt(&[l]), "deviations": dev, "allowed": [bound, fall]}));
        } else { run.max("low temperature: deviation/bound", dev[0] / bound); run.max("low temperature: second/allowed", dev[1] / fall); if dev[0] > t { run.distinct_args(e.key(), e.mask() + 4096, &a); } }
    }));
    lookup::reset_globals();
    // 6. density at low temperature
    run.par(run.n(600, 12000), |i| {
        let mut r = Rng::stream(run.seed, 22000, i as u64);
        let l = r.log(0.1, 10.);
        let (m, mu) = (r.log(0.1, 2.) * l, r.sign() * r.log(0.1, 4.) * l);
        let gap = (mu.abs() - m).abs();
        if gap < 0.1 * l { return; }
        let z = qcd_sme::qcd::thermal::quark::charge_density_zero_temp(m, mu);
        let kf3 = (mu * mu - m * m).abs().powf(1.5).max(gap.powi(3));
        let mut dev = [0.; 2];
        for j in 0..2 {
            let b = [40., 80.][j] / gap.min(m);
            dev[j] = (qcd_sme::qcd::thermal::quark::charge_density_with_method(m, b, mu, qcd_sme::Integral::G7K15(1e-8 * l.powi(3), 24)) - z).abs() / kf3;
        }
        // Sommerfeld: corrections of second order in the temperature
        if !(dev[0] < 0.05) || !(dev[1] <= 0.3 * dev[0] + 1e-5) { run.violation("charge_density", json!({"m": m, "mu": mu, "zero temperature": z, "deviations over k_F^3": dev})); }
        else if z != 0. { run.distinct((m.to_bits(), mu.to_bits())); }
    });
}
