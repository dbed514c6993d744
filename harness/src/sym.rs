//! C13: reflections, real/complex agreement.  C14: dimensional scaling.  C15: limits
//! in temperature and chemical potential.
use crate::compose::random_config;
use crate::field::{coarse, confs, eargs, fine, is_dressing, parts, plains, Entry};
use crate::integ::{self, iargs, rescale};
use crate::lookup::{self, pos};
use crate::reference::{self, Val};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::value::K;
use crate::{gen, table, F, FM};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{consts, C};
use serde_json::json;

fn c(x: f64) -> C { C::new(x, 0.) }
fn usable(v: &Val) -> bool { !v.ambiguous && !v.extreme && v.err.is_finite() && v.v.re.is_finite() && v.v.im.is_finite() && v.v.norm() < 1e140 && (v.v.norm() == 0. || v.v.norm() > 1e-140) }
/// Functions with a reference that do not integrate.
fn pointwise() -> Vec<(&'static F, i32)> {
    table::FUNS.iter().filter(|f| !is_dressing(f.key) || f.key.starts_with("ym::") || f.key.starts_with("qcd::")).filter_map(|f| reference::index(f.key).map(|i| (f, i))).collect()
}
fn methods() -> Vec<&'static FM> { table::METHODS.iter().filter(|f| f.key.ends_with("_w_method")).collect() }
fn entries() -> Vec<Entry> { plains().into_iter().chain(confs()).collect() }

/// Values whose difference is within what two honest evaluations may differ by.
fn agree(run: &Run, x: C, y: C, ex: f64, ey: f64, scale: f64) -> bool {
    let d = (x - y).norm();
    let tol = K * (ex + ey) + 1e-300;
    let _ = scale;
    if d > 0. { run.max("pointwise: difference/tolerance", d / tol); }
    d <= tol
}
/// Another instantiation with fewer complex parameters, and the arguments made real to fit.
fn realised(r: &mut Rng, params: &[&str], masks: &[u32], mask: u32, a: &[C]) -> Option<(u32, Vec<C>)> {
    let sub: Vec<u32> = masks.iter().copied().filter(|m| m & mask == *m && *m != mask).collect();
    if sub.is_empty() { return None; }
    let m = *r.pick(&sub);
    Some((m, a.iter().enumerate().map(|(i, z)| if m >> i & 1 == 1 { *z } else if params[i] == "s" { c(z.norm()) } else { c(z.re) }).collect()))
}
fn masks_of(key: &str) -> Vec<u32> { table::FUNS.iter().filter(|f| f.key == key).map(|f| f.mask).collect() }

pub fn run_c13(run: &Run) {
    *run.rule.lock().unwrap() = "conjugated arguments, reversed frequency, and the same arguments through an instantiation with fewer complex parameters: pointwise functions within rounding budgets, integrated functions, dressing functions and propagators within quadrature accuracy; non-trivial = finite value with an imaginary part, or a frequency actually reversed, or two instantiations compared".into();
    // functions of one logarithm: the frequency is reflected along
    let one_log = |k: &str| k.starts_with("th::tlog") || k.starts_with("zm::tlog");
    let ps = pointwise();
    run.count("pointwise functions", ps.len() as u64);
    let masks: Vec<Vec<u32>> = ps.iter().map(|p| masks_of(p.0.key)).collect();
    run.par(ps.len() * run.n(20, 400), |i| {
        let (f, idx) = ps[i % ps.len()];
        let mut r = Rng::stream(run.seed, 13000 + (i % ps.len()) as u64, (i / ps.len()) as u64);
        reference::set_ctx(3, 1);
        let iom = pos(f.params, "om");
        for _ in 0..60 {
            if run.stopped() { return; }
            let a = gen::args(&mut r, f.key, f.params, f.mask);
            let v = reference::eval(idx, &a);
            if !usable(&v) { run.count("undecided", 1); continue; }
            let Ok(g) = run.call(|| f.key.into(), || (f.f)(&a)) else { run.violation(f.key, json!({"panic": true, "args": fmt(&a)})); continue };
            if !f.ret_c && g.re.is_nan() { continue; }
            let test = |law: &str, f2: &F, b: &[C], conj: bool| {
                let w = reference::eval(idx, b);
                if !usable(&w) { return; }
                let h = match run.call(|| f2.key.into(), || (f2.f)(b)) { Ok(h) => h, Err(e) => { run.violation(f2.key, json!({"panic": e, "args": fmt(b)})); return; } };
                if !f2.ret_c && h.re.is_nan() { return; }
                let h2 = if conj { h.conj() } else { h };
                if !agree(run, h2, g, v.err, w.err, v.v.norm()) {
                    run.violation(f.key, json!({"law": law, "masks": [f.mask, f2.mask], "params": f.params, "args": fmt(&a), "bits": bits(&a), "value": fmt(&[g]), "other args": fmt(b), "other value": fmt(&[h])}));
                } else if v.err * K < 1e-3 * v.v.norm() { run.distinct_args(&format!("{law}{}", f.key), f.mask * 64 + f2.mask, &a); }
            };
            if f.mask != 0 || one_log(f.key) {
                let mut b: Vec<C> = a.iter().map(|z| z.conj()).collect();
                if one_log(f.key) { let i = iom.unwrap(); b[i] = -b[i]; }
                test("conjugation", f, &b, true);
            }
            if let (Some(i), false) = (iom, one_log(f.key)) { let mut b = a.clone(); b[i] = -b[i]; test("even in the frequency", f, &b, false); }
            if let Some((m, b)) = realised(&mut r, f.params, &masks[i % ps.len()], f.mask, &a) {
                let o = lookup::fun(f.key, m);
                let w = reference::eval(idx, &b);
                if !usable(&w) { continue; }
                // both instantiations at the arguments made real
                if let (Ok(x), Ok(y)) = (run.call(|| f.key.into(), || (f.f)(&b)), run.call(|| f.key.into(), || (o.f)(&b))) {
                    if !o.ret_c && (y.re.is_nan() || w.v.im != 0.) { continue; }
                    if !agree(run, x, y, w.err, w.err, w.v.norm()) {
                        run.violation(f.key, json!({"law": "real and complex instantiations", "masks": [f.mask, m], "params": f.params, "args": fmt(&b), "bits": bits(&b), "values": fmt(&[x, y])}));
                    } else { run.distinct_args(&format!("real{}", f.key), f.mask * 64 + m, &b); }
                } else { run.violation(f.key, json!({"panic": true, "args": fmt(&b)})); }
            }
        }
    });
    // integrated functions
    let ms = methods();
    run.count("integrated functions", ms.len() as u64);
    run.confirm(ms.len() * run.n(60, 1500), || coarse(1e-6), fine, |items| run.par_list(items, |i| {
        let f = ms[i % ms.len()];
        let mut r = Rng::stream(run.seed, 13500 + (i % ms.len()) as u64, (i / ms.len()) as u64);
        let mut a = iargs(&mut r, f.params, f.mask);
        steady(f.params, &mut a);
        let m = consts::get_default_integration_method();
        let tol = 60. * consts::get_default_tol_integral();
        let call = |f: &FM, a: &[C]| run.call_watched(|| format!("{} {:?}", f.key, fmt(a)), || (f.f)(a, m));
        laws(run, f.key, f.params, f.mask, &mut r, &a, &table::METHODS.iter().filter(|g| g.key == f.key).map(|g| g.mask).collect::<Vec<_>>(),
            |mask, a| call(lookup::meth(f.key, mask), a), |x| tol + 1e-10 * x);
    }));
    // dressing functions and propagators
    let es = entries();
    run.count("dressing functions and propagators", es.len() as u64);
    let masks: Vec<Vec<u32>> = es.iter().map(|e| es.iter().filter(|x| x.key() == e.key()).map(|x| x.mask()).collect()).collect();
    run.confirm(es.len() * run.n(24, 600), || coarse(1e-6), fine, |items| run.par_list(items, |i| {
        let e = es[i % es.len()];
        let mut r = Rng::stream(run.seed, 14000 + (i % es.len()) as u64, (i / es.len()) as u64);
        let mut a = eargs(&mut r, &e);
        steady(e.params(), &mut a);
        let nc = gen::colors(&mut r);
        let k = random_config(&mut r, nc);
        let sd = e.sd(&a).norm();
        let vac = e.params()[0] == "s";
        let tol = if vac { 0. } else { 60. / sd * consts::get_default_tol_integral() * parts(&k) };
        laws(run, e.key(), e.params(), e.mask(), &mut r, &a, &masks[i % es.len()],
            |mask, a| match e { Entry::Plain(f) => Entry::Plain(lookup::fun(f.key, mask)), Entry::Conf(f) => Entry::Conf(lookup::conf(f.key, mask)) }.inverse(run, a, &k), |x| tol + 1e-10 * (x + 1. + a.last().unwrap().norm()));
    }));
    lookup::reset_globals();
}
/// Away from where quadrature is at its limits.
pub fn steady(params: &[&str], a: &mut [C]) {
    let (om, p) = (pos(params, "om"), pos(params, "p"));
    if let Some(i) = om { if a[i].re.abs() < 0.05 * a[i].norm() { a[i].re = 0.05 * a[i].norm(); } }
    // integrands cancel to order p/om
    if let (Some(i), Some(j)) = (om, p) { let w = a[i].norm() / a[j].norm(); if w > 8. { a[j] *= w / 8.; } }
}
/// At complex momenta integrands may jump, and where panels end decides what is seen.
fn real_p(params: &[&str], a: &mut [C]) { if let Some(i) = pos(params, "p") { a[i].im = 0.; } }
#[allow(clippy::too_many_arguments)]
fn laws(run: &Run, key: &str, params: &[&str], mask: u32, r: &mut Rng, a: &[C], masks: &[u32], call: impl Fn(u32, &[C]) -> Result<C, String>, tol: impl Fn(f64) -> f64) {
    let g = match call(mask, a) { Ok(g) => g, Err(e) => { run.violation(key, json!({"panic": e, "args": fmt(a)})); return; } };
    if !g.re.is_finite() || !g.im.is_finite() { run.count("not_finite", 1); return; }
    let check = |law: &str, m2: u32, b: &[C], base: C, conj: bool| match call(m2, b) {
        Ok(h) => {
            let h2 = if conj { h.conj() } else { h };
            let (d, t) = ((h2 - base).norm(), tol(base.norm()));
            if d > t || d.is_nan() { run.violation(key, json!({"law": law, "masks": [mask, m2], "params": params, "args": fmt(a), "bits": bits(a), "value": fmt(&[base]), "other args": fmt(b), "other value": fmt(&[h]), "distance": d, "tolerance": t})); }
            else { run.max(&format!("{law}: distance/tolerance"), d / t); run.distinct_args(&format!("{law}{key}"), mask * 64 + m2, a); if r_sample(b) { run.sample(|| json!({"law": law, "fn": key, "args": fmt(a), "value": fmt(&[base]), "other": fmt(&[h])})); } }
        }
        Err(e) => run.violation(key, json!({"panic": e, "args": fmt(b)})),
    };
    if mask != 0 { let b: Vec<C> = a.iter().map(|z| z.conj()).collect(); check("conjugation", mask, &b, g, true); }
    if let Some(i) = pos(params, "om") { let mut b = a.to_vec(); b[i] = -b[i]; check("even in the frequency", mask, &b, g, false); }
    if let Some((m, b)) = realised(r, params, masks, mask, a) {
        match call(mask, &b) {
            Ok(x) if x.re.is_finite() && x.im.is_finite() => check("real and complex instantiations", m, &b, x, false),
            Ok(_) => {}
            Err(e) => run.violation(key, json!({"panic": e, "args": fmt(&b)})),
        }
    }
}
fn r_sample(a: &[C]) -> bool { a[0].re.to_bits() % 997 == 0 }

/// Mass dimension of a pointwise function's value.
fn dimension(key: &str) -> i32 {
    let (head, last) = (key.split("::").next().unwrap(), key.split("::").last().unwrap());
    match head {
        "low" => return 0,
        "common" => return match last { "energy_squared" => 2, "energy" | "fermi_momentum" => 1, _ => 0 },
        _ => {}
    }
    if key.contains("quark::charge_density_i") { return 2; }
    if key.contains("quark::charge_density") { return 3; }
    if key.contains("quark::chemical_potential") { return 1; }
    if key.contains("_thermal_part_") { return if last.ends_with("_i") { 1 } else { 2 }; }
    if last.starts_with("tlog") { return if last.contains("_l") || last.contains("_t") { 4 } else { 0 }; }
    let (n, last) = if let Some(x) = last.strip_prefix("d2_") { (2, x) } else if let Some(x) = last.strip_prefix("d_") { (1, x) } else { (0, last) };
    let lt = last.contains("_l_i") || last.contains("_t_");
    match last.split('_').next().unwrap() {
        "j" => 1 + 2 * lt as i32 - 2 * n,
        "i" => -1 + 2 * lt as i32 - 2 * n,
        x => panic!("no mass dimension for {key} ({x})"),
    }
}

pub fn run_c14(run: &Run) {
    *run.rule.lock().unwrap() = "dimensionful arguments multiplied by powers of a scale factor (2^-40..2^40, pointwise; seven factors from 1/400 to 300, integrated), values divided by their power compared: pointwise within rounding budgets, integrated within quadrature accuracy with tolerance and regulator scaled along; non-trivial = non-zero value at a scale other than one".into();
    let ps: Vec<_> = pointwise().into_iter().filter(|(f, _)| f.params.iter().any(|p| integ::dim(p) != 0) && f.params[0] != "s" && f.params[0] != "ln_s").collect();
    run.count("pointwise functions", ps.len() as u64);
    run.par(ps.len() * run.n(20, 400), |i| {
        let (f, idx) = ps[i % ps.len()];
        let mut r = Rng::stream(run.seed, 15000 + (i % ps.len()) as u64, (i / ps.len()) as u64);
        reference::set_ctx(3, 1);
        let d = dimension(f.key);
        for _ in 0..60 {
            if run.stopped() { return; }
            let a = gen::args(&mut r, f.key, f.params, f.mask);
            let l = 2f64.powi(r.below(81) as i32 - 40);
            let b = rescale(f.params, &a, l);
            let (v, w) = (reference::eval(idx, &a), reference::eval(idx, &b));
            if !usable(&v) || !usable(&w) { run.count("undecided", 1); continue; }
            match (run.call(|| f.key.into(), || (f.f)(&a)), run.call(|| f.key.into(), || (f.f)(&b))) {
                (Ok(x), Ok(y)) => {
                    if !f.ret_c && (x.re.is_nan() && y.re.is_nan() || v.v.im != 0. || w.v.im != 0.) { continue; }
                    let s = l.powi(d);
                    if !agree(run, y / s, x, v.err, w.err / s, v.v.norm()) {
                        run.violation(f.key, json!({"scale": l, "dimension": d, "params": f.params, "mask": f.mask, "args": fmt(&a), "bits": bits(&a), "value": fmt(&[x]), "scaled value": fmt(&[y])}));
                    } else if x.norm() > 0. && l != 1. && v.err * K < 1e-3 * v.v.norm() { run.distinct_args(f.key, f.mask, &a); }
                }
                (x, y) => run.violation(f.key, json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
            }
        }
    });
    // FieldConfig vacuum functions depend on mass ratios only
    let vs: Vec<Entry> = confs().into_iter().filter(|e| e.params()[0] == "s").collect();
    run.par(vs.len() * run.n(300, 6000), |i| {
        let e = vs[i % vs.len()];
        let mut r = Rng::stream(run.seed, 16000 + (i % vs.len()) as u64, (i / vs.len()) as u64);
        let a = eargs(&mut r, &e);
        let nc = gen::colors(&mut r);
        let k = random_config(&mut r, nc);
        let l = if r.p(0.5) { 2f64.powi(r.below(41) as i32 - 20) } else { r.log(1e-6, 1e6) };
        let k2 = FieldConfig::new(k.nc, k.gluon * l, k.quarks.iter().map(|q| (q.0, q.1 * l)).collect());
        match (e.inverse(run, &a, &k), e.inverse(run, &a, &k2)) {
            (Ok(x), Ok(y)) => {
                let (d, t) = ((x - y).norm(), 1e-10 * (x.norm() + 1. + a[1].norm()) * parts(&k));
                if d > t || d.is_nan() && x.re.is_finite() { run.violation(e.key(), json!({"scale": l, "args": fmt(&a), "bits": bits(&a), "config": format!("{k:?}"), "value": fmt(&[x]), "scaled": fmt(&[y]), "distance": d, "tolerance": t})); }
                else if !k.quarks.is_empty() { run.distinct_args(e.key(), e.mask(), &a); }
            }
            (x, y) => run.violation(e.key(), json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
        }
    });
    // closed forms at zero temperature, in any units
    for (key, d) in [("qcdt::quark::charge_density_zero_temp", 3), ("qcdt::quark::chemical_potential_zero_temp", 1)] {
        let f = lookup::fun(key, 0);
        run.par(run.n(400, 8000), |i| {
            let mut r = Rng::stream(run.seed, 16200 + d as u64, i as u64);
            for _ in 0..50 {
                let m = if r.p(0.1) { 0. } else { r.log(0.01, 10.) };
                let x = if d == 1 { r.sign() * r.log(1e-2, 1e3) } else { r.sign() * if r.p(0.2) { m * r.range(0., 1.) } else { m + r.log(1e-4, 1e2) } };
                let a = [c(m), c(x)];
                let l = if r.p(0.5) { 2f64.powi(r.below(121) as i32 - 60) } else { r.log(1e-15, 1e15) };
                let b = [c(m * l), c(x * if d == 1 { l * l * l } else { l })];
                match (run.call(|| key.into(), || (f.f)(&a)), run.call(|| key.into(), || (f.f)(&b))) {
                    (Ok(v), Ok(w)) => {
                        let (v, w) = (v.re, w.re / l.powi(d));
                        // how much a rounding of the arguments may do
                        let t = if d == 3 { 1e-14 * x.abs() * (m * m + x * x) } else { 1e-14 * v.abs() };
                        if (v - w).abs() > t || v.is_nan() != w.is_nan() { run.violation(key, json!({"scale": l, "dimension": d, "args": fmt(&a), "bits": bits(&a), "value": v, "scaled value over power": w, "tolerance": t})); }
                        else if v != 0. { run.distinct_args(key, 0, &b); }
                    }
                    (x, y) => run.violation(key, json!({"panic": [x.err(), y.err()], "args": fmt(&a)})),
                }
            }
        });
    }
    // what integrates: everything, the globals included, scaled along
    let ms: Vec<&FM> = table::METHODS.iter().collect();
    let es: Vec<Entry> = entries().into_iter().filter(|e| e.params()[0] != "s").collect();
    run.count("integrated functions", ms.len() as u64);
    run.count("dressing functions and propagators", es.len() as u64);
    let (nm, ne) = (ms.len() * run.n(30, 600), es.len() * run.n(10, 250));
    let base: Vec<std::sync::Mutex<Option<C>>> = (0..nm + ne).map(|_| Default::default()).collect();
    let set = std::cell::Cell::new((1e-6, 22));
    run.confirm_levels(nm + ne, &[&|| set.set((1e-6, 20)), &|| set.set((1e-8, 24)), &|| set.set((1e-10, 26)), &|| set.set((3e-11, 30))], |items| {
        let (tol, depth): (f64, u32) = set.get();
        let allow = tol.max(1e-8);
        consts::set_default_max_iter_integral(depth);
        for l in [1., 0.125, 300., 1. / 64., 7.3, 32., 0.31, 1. / 400.] {
            consts::set_matsubara_reg(1e-2 * l);
            consts::set_default_tol_integral(tol * l * l);
            run.par_list(items, |i| {
                if i < nm {
                    let f = ms[i % ms.len()];
                    let mut r = Rng::stream(run.seed, 16500 + (i % ms.len()) as u64, (i / ms.len()) as u64);
                    let mut a = iargs(&mut r, f.params, f.mask);
                    steady(f.params, &mut a);
                    real_p(f.params, &mut a);
                    if f.key.contains("chemical_potential") { let j = pos(f.params, "n").unwrap(); a[j] = c(r.sign() * r.log(0.1, 10.)); }
                    let b = rescale(f.params, &a, l);
                    let d = dimension(f.key.trim_end_matches("_w_method").trim_end_matches("_with_method"));
                    let m = qcd_sme::Integral::G7K15(tol * l.powi(if d == 1 { 3 } else { d }), depth);
                    scaled(run, f.key, &base[i], l, d, &a, None, run.call_watched(|| format!("{} {:?}", f.key, fmt(&b)), || (f.f)(&b, m)), |x| 100. * allow + 1e-9 * x);
                } else {
                    let i = i - nm;
                    let e = es[i % es.len()];
                    let mut r = Rng::stream(run.seed, 17000 + (i % es.len()) as u64, (i / es.len()) as u64);
                    let mut a = eargs(&mut r, &e);
                    steady(e.params(), &mut a);
                    real_p(e.params(), &mut a);
                    let nc = gen::colors(&mut r);
                    let k = random_config(&mut r, nc);
                    let k2 = FieldConfig::new(k.nc, k.gluon * l, k.quarks.iter().map(|q| (q.0, q.1 * l)).collect());
                    let b = rescale(e.params(), &a, l);
                    let d = if e.key().contains("propagator") { -2 } else { 0 };
                    let t = 100. * allow / e.sd(&a).norm() * parts(&k);
                    // the implied inverse dressing, from the value divided by its power
                    let got = e.call(run, &b, &k2).map(|x| { let x = x / l.powi(d); if e.key().contains("_inv") { x } else if d == -2 { c(1.) / (x * e.sd(&a)) } else { c(1.) / x } });
                    scaled(run, e.key(), &base[nm + i], l, 0, &a, Some(&k), got, |x| t + 1e-9 * (x + 1. + a.last().unwrap().norm()));
                }
            });
        }
    });
    lookup::reset_globals();
}
#[allow(clippy::too_many_arguments)]
fn scaled(run: &Run, key: &str, base: &std::sync::Mutex<Option<C>>, l: f64, d: i32, a: &[C], k: Option<&FieldConfig>, got: Result<C, String>, tol: impl Fn(f64) -> f64) {
    match got {
        Ok(y) => {
            let y = y / l.powi(d);
            if l == 1. { *base.lock().unwrap() = Some(y); return; }
            let Some(x) = *base.lock().unwrap() else { return };
            if !x.re.is_finite() || !x.im.is_finite() { run.count("not_finite", 1); return; }
            let (dist, t) = ((x - y).norm(), tol(x.norm()));
            if dist > t || dist.is_nan() { run.violation(key, json!({"scale": l, "dimension": d, "args": fmt(a), "bits": bits(a), "config": format!("{k:?}"), "value": fmt(&[x]), "scaled value over power": fmt(&[y]), "distance": dist, "tolerance": t})); }
            else { run.max("integrated: distance/tolerance", dist / t); if x.norm() > 0. { run.distinct_args(key, (l * 1024.) as u32, a); } }
        }
        Err(e) => run.violation(key, json!({"panic": e, "args": fmt(a), "scale": l})),
    }
}
