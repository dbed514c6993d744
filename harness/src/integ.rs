//! C04: integrated thermal parts against the reference integral of the
//! reference integrand.
use crate::any::{method, KINDS};
use crate::lookup::{self, pos};
use crate::reference::{self, Int};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table};
use qcd_sme::{Integral, C};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// `th::gluon::x_landau[_w_method]` -> `th::gluon::x_landau_i`
pub fn integrand_key(key: &str) -> String {
    if key.ends_with("charge_density_with_method") || key.ends_with("::charge_density") { return "qcdt::quark::charge_density_i".into(); }
    format!("{}_i", key.trim_end_matches("_w_method"))
}

fn val(params: &[&str], a: &[C], p: &str) -> Option<C> { pos(params, p).map(|i| a[i]) }

/// Reference value of an integrated function: integral over q of the reference
/// integrand named by `ikey` with the remaining arguments `a`.
pub fn ref_part(ikey: &str, params: &[&str], a: &[C], rtol: f64, maxseg: usize) -> Int {
    let mut args = vec![C::new(1., 0.)];
    args.extend_from_slice(a);
    let om = val(params, a, "om");
    let p = val(params, a, "p");
    let m = val(params, a, "m").or(val(params, a, "mq")).unwrap();
    let (m, mabs) = (m, m.norm());
    let mut splits = vec![];
    let mut push = |x: f64| if x > 0. && x.is_finite() { splits.push(x) };
    if let Some(p) = p {
        let w = om.map_or(0., |o| o.norm());
        for d in [C::new(0., 0.), m * m, -m * m] {
            // the logarithm's argument vanishes near here
            let c = ((p * p + d) / (2. * p)).norm();
            push(c);
            push((c - w).abs());
            push(c + w);
            if let Some(o) = om {
                let e = (p * p + o * o + d) / (2. * p);
                push(e.norm());
                let i = C::new(0., 1.);
                // roots with the energy of the external line included
                for s in [1., -1.] {
                    let x = s * i * o;
                    let q = (p * p + o * o + d) / (2. * (p + x));
                    push(q.norm()); push(q.re.abs());
                }
                let mut near = |x: f64| for k in [0.3, 1., 3.] { push((x - k * w).abs()); push(x + k * w); };
                if w < 0.05 * c { near(c); near((p * 0.5).norm()); }
            }
        }
    }
    if let (Some(o), None) = (om, p) {
        push(o.norm()); push(o.norm() / 2.);
        push((o * o / 4. + m * m).sqrt().norm());
        push(((o * o + m * m) / (2. * o)).norm());
        push(((o * o - m * m) / (2. * o)).norm());
        push(((o * o / 4.).norm() - mabs * mabs).abs().sqrt());
    }
    push(mabs);
    let mu = val(params, a, "mu").map_or(0., |x| x.re);
    push((mu * mu - mabs * mabs).max(0.).sqrt());
    let beta = val(params, a, "beta").map(|b| b.re);
    let kf = (mu * mu - mabs * mabs).max(0.).sqrt();
    let hi = match beta {
        Some(b) => {
            push(1. / b);
            for k in [3., 10., 25.] { push(kf + k / b); push((kf - k / b).abs()); }
            ((mu.abs() + 60. / b).powi(2)).sqrt()
        }
        None => {
            if mu.abs() <= mabs { return Int { v: C::new(0., 0.), err: 0., mag: 0., evals: 0., tiny: 0. }; }
            kf
        }
    };
    reference::integral(ikey, &args, 0, 0., hi, &splits, rtol, maxseg)
}

/// Moderate arguments for integrated functions.
pub fn iargs(r: &mut Rng, params: &[&str], mask: u32) -> Vec<C> {
    let mut out = vec![];
    let mut prev: Option<f64> = None;
    for (i, &p) in params.iter().enumerate() {
        let c = mask >> i & 1 == 1;
        let nice = r.p(0.25);
        let x = match p {
            "beta" => if nice { *r.pick(&[0.5, 1., 2., 4.]) } else { r.log(0.25, 6.) },
            "mu" => r.sign() * match r.below(6) { 0 => 0., 1 => prev.unwrap_or(1.), _ => r.log(0.1, 8.) },
            "f0" | "g0" => r.range(-2., 2.),
            "mq" if r.p(0.1) => { prev = Some(0.); if r.p(0.3) { 0. } else { r.log(1e-3, 0.3) } }
            "m" | "mq" => { let x = if nice { *r.pick(&[0.35, 0.5, 0.656, 1., 2., 1.5]) } else { r.log(0.3, 3.) }; prev = Some(x); x }
            "n" => r.sign() * r.log(1e-2, 20.),
            "om" if !c => { let x = if nice { *r.pick(gen::NICE) } else { r.log(0.15, 8.) }; x * if r.p(0.25) { -1. } else { 1. } }
            _ => if nice { *r.pick(gen::NICE) } else { r.log(0.15, 8.) },
        };
        let z = if c {
            let lim = if p == "p" { 0.4 } else { 1.15 };
            let t = if r.p(0.2) { r.sign() * 0.02 } else { r.range(-lim, lim) };
            C::new(x * t.cos(), x * t.sin()) * if p == "om" && r.p(0.25) { -1. } else { 1. }
        } else { C::new(x, 0.) };
        out.push(z);
    }
    out
}


/// The power of a mass unit a parameter scales with.
pub fn dim(p: &str) -> i32 {
    match p { "om" | "p" | "m" | "mq" | "m1" | "m2" | "mu" | "q" | "en" => 1, "beta" => -1, "delta" | "s" => 2, "n" => 3, _ => 0 }
}
pub fn rescale(params: &[&str], a: &[C], l: f64) -> Vec<C> {
    a.iter().zip(params).map(|(z, p)| z * l.powi(dim(p))).collect()
}
/// Subdivision depth that resolves the structures of an integrand.
pub fn depth(key: &str, mask: u32, params: &[&str]) -> u32 {
    if key.starts_with("zf::") { 40 }
    else if pos(params, "p").is_some_and(|i| mask >> i & 1 == 1) { 30 } else { 20 }
}
/// What an integrated function should return: the integral of the reference
/// integrand; the limit functions use the ordinary integrand at the regulating frequency.
pub fn want(key: &str, params: &[&str], a: &[C], reg: f64, rtol: f64, maxseg: usize) -> Int {
    if key.starts_with("zf::") {
        let k = integrand_key(key).replace("zf::", "th::");
        let mut pa = vec!["om"]; pa.extend_from_slice(params);
        let mut b = vec![C::new(reg, 0.)]; b.extend_from_slice(a);
        let mut x = ref_part(&k, &pa, &b, rtol, maxseg);
        x.v.im = 0.;
        x
    } else { ref_part(&integrand_key(key), params, a, rtol, maxseg) }
}

/// One integrated function against its reference integral.
fn c04_one(run: &Run, f: &crate::FM, a: &[C], reg: f64, i: usize, jumps: &AtomicU64) {
    let rf = want(f.key, f.params, a, reg, 1e-10, 1500);
    if rf.err > 1e-8 * rf.mag { run.count("reference_unsharp", 1); return; }
    let lim = 1e-5 * rf.mag + 10. * rf.err + if rf.mag > 0. { 1e-300 } else { 0. };
    let d0 = depth(f.key, f.mask, f.params);
    // half of the calls try another rule first; rounding noise keeps those of high order from a tight tolerance
    let complex_p = pos(f.params, "p").is_some_and(|i| f.mask >> i & 1 == 1);
    let kind = if i % 2 == 1 && !f.key.starts_with("zf::") && !complex_p { 1 + i / 2 % 5 } else { 0 };
    let mut last = None;
    for (kind, tol, it) in [(kind, 1e-6, d0.min(10)), (0, 1e-6, d0), (0, 1e-8, d0 + 6), (0, 1e-9, d0 + 14)] {
        if kind == 0 && it < d0 { continue; }
        let t0 = std::time::Instant::now();
        let got = match run.call_watched(|| format!("{} {:?}", f.key, fmt(a)), || (f.f)(a, method(kind, (rf.mag * tol).max(1e-300), it))) {
            Ok(g) => g,
            Err(e) => { run.violation(f.key, json!({"panic": e, "args": fmt(a), "bits": bits(a)})); return; }
        };
        run.max("slowest_call_s", t0.elapsed().as_secs_f64());
        let d = (got - rf.v).norm();
        if d <= lim {
            if rf.mag > 0. { run.max(&format!("deviation/mass {}", f.key), d / rf.mag); run.distinct_args(f.key, f.mask, a); }
            if i % 37 == 0 { run.sample(|| json!({"fn": f.key, "mask": f.mask, "args": fmt(a), "got": fmt(&[got]), "reference": fmt(&[rf.v]), "mass": rf.mag, "reference_evaluations": rf.evals})); }
            return;
        }
        run.count("retried_with_tighter_method", 1);
        last = Some((got, d));
    }
    let (got, d) = last.unwrap();
    // An integrand that jumps (a branch cut met at complex p) can be misjudged by any
    // adaptive rule when the jump hides next to the end of a panel; this is rare.
    if complex_p && d <= 0.02 * rf.mag { run.count("unlucky_jumps", 1); jumps.fetch_add(1, Relaxed); if jumps.load(Relaxed) as usize <= run.n(30, 600) { return; } }
    run.violation(f.key, json!({"mask": f.mask, "params": f.params, "args": fmt(a), "bits": bits(a), "got": fmt(&[got]), "want": fmt(&[rf.v]), "deviation": d, "tolerance": lim, "mass": rf.mag, "reference_error": rf.err}));
}

pub fn run_c04(run: &Run) {
    *run.rule.lock().unwrap() = "integrated function called with an explicit adaptive method against an extended-precision integral of the reference integrand (deviation allowed: 1e-5 of the integrand's absolute mass); default-method functions against the same function with the default method spelled out; non-trivial = non-zero integral known to 1e-8 of its absolute mass, or a default call that differs from the accurate value".into();
    let list: Vec<_> = table::METHODS.iter().filter(|f| f.key.ends_with("_w_method")).collect();
    let reg = qcd_sme::consts::get_matsubara_reg();
    run.count("functions", list.len() as u64);
    // 1. the integral, whatever the default method
    qcd_sme::consts::set_default_tol_integral(1e3);
    qcd_sme::consts::set_default_max_iter_integral(1);
    let jumps = AtomicU64::new(0);
    let per = run.n(120, 2500);
    run.par(list.len() * per, |i| {
        let f = list[i % list.len()];
        let mut r = Rng::stream(run.seed, 400 + (i % list.len()) as u64, (i / list.len()) as u64);
        reference::set_ctx(qcd_sme::consts::get_number_of_colors(), 1);
        let mut a = iargs(&mut r, f.params, f.mask);
        if !f.key.starts_with("zf::") && r.p(0.3) { let l = if r.p(0.5) || !f.key.contains("zero_temp") { r.log(0.05, 20.) } else { r.log(1e-6, 1e6) }; a = rescale(f.params, &a, l); }
        // only the squares of masses matter
        if r.p(0.05) { for (z, p) in a.iter_mut().zip(f.params) { if *p == "m" || *p == "mq" { *z = -*z; } } }
        c04_one(run, f, &a, reg, i, &jumps);
    });
    run.count("quadrature_phase_done_at_ms", (run.secs() * 1e3) as u64);
    // other regulators for the limit functions, other numbers of colors for the quark
    for (reg, nc) in [(1e-3, 3), (1e-2, 2), (3e-4, 7)] {
        qcd_sme::consts::set_matsubara_reg(reg);
        qcd_sme::consts::set_number_of_colors(nc);
        let sub: Vec<_> = list.iter().filter(|f| f.key.starts_with("zf::") || f.key.contains("quark")).collect();
        run.par(sub.len() * run.n(12, 200), |i| {
            let f = sub[i % sub.len()];
            let mut r = Rng::stream(run.seed, 900 + nc as u64 * 100 + (i % sub.len()) as u64, (i / sub.len()) as u64);
            reference::set_ctx(nc, 1);
            let a = iargs(&mut r, f.params, f.mask);
            c04_one(run, f, &a, reg, i, &jumps);
        });
    }
    lookup::reset_globals();
    // 2. below threshold: exactly zero, whatever the method
    let zt: Vec<_> = list.iter().filter(|f| f.key.contains("zero_temp")).collect();
    run.par(zt.len() * run.n(4000, 80000), |i| {
        let f = zt[i % zt.len()];
        let mut r = Rng::stream(run.seed, 700 + (i % zt.len()) as u64, (i / zt.len()) as u64);
        let mut a = gen::args(&mut r, f.key, f.params, f.mask);
        let (im, iu) = (pos(f.params, "mq").unwrap(), pos(f.params, "mu").unwrap());
        let m = a[im].re.abs();
        a[im] = C::new(if r.p(0.1) { -m } else { m }, 0.);
        let x = match r.below(4) { 0 => 1., 1 => 1. - r.log(1e-15, 1e-3), 2 => r.f(), _ => r.log(1e-9, 1.) };
        a[iu] = C::new(r.sign() * m * x, 0.);
        if r.p(0.05) { a[iu] = C::new(0., 0.); }
        let method = if r.p(0.5) { method(r.below(KINDS), r.log(1e-10, 1e-2), r.below(8) as u32) } else { Integral::G7K15(1e-10, 20) };
        match run.call_watched(|| format!("{} {:?}", f.key, fmt(&a)), || (f.f)(&a, method)) {
            Ok(g) if g.re == 0. && g.im == 0. => run.distinct_args(f.key, f.mask, &a),
            Ok(g) => run.violation(f.key, json!({"below_threshold": true, "mask": f.mask, "params": f.params, "args": fmt(&a), "bits": bits(&a), "got": fmt(&[g]), "want": "0"})),
            Err(e) => run.violation(f.key, json!({"panic": e, "args": fmt(&a), "bits": bits(&a)})),
        }
    });
    // 3. the method passed in is the one used, and the default is the global one
    let differ: Vec<Vec<AtomicU64>> = list.iter().map(|_| (0..KINDS + 2).map(|_| Default::default()).collect()).collect();
    for (tol, it) in [(1e-2, 2), (1e-4, 3), (1e-1, 6)] {
        qcd_sme::consts::set_default_tol_integral(tol);
        qcd_sme::consts::set_default_max_iter_integral(it);
        run.par(list.len() * run.n(150, 3000), |i| {
            let f = list[i % list.len()];
            let mut r = Rng::stream(run.seed, 1100 + it as u64 * 50 + (i % list.len()) as u64, (i / list.len()) as u64);
            let a = iargs(&mut r, f.params, f.mask);
            let c = |m| run.call_watched(|| format!("{} {:?}", f.key, fmt(&a)), || (f.f)(&a, m));
            let d = lookup::fun(f.key.trim_end_matches("_w_method"), f.mask);
            let dflt = run.call_watched(|| format!("{} {:?}", d.key, fmt(&a)), || (d.f)(&a));
            // every rule in turn, and two orders of the fixed ones
            let v: Vec<_> = (0..KINDS).map(|k| c(method(k, tol, it))).chain([c(Integral::GaussLegendre(3)), c(Integral::NewtonCotes(5))]).collect();
            if dflt.is_err() || v.iter().any(|x| x.is_err()) { run.violation(f.key, json!({"panics": format!("{dflt:?} {v:?}"), "args": fmt(&a), "bits": bits(&a)})); return; }
            let (d, v): (C, Vec<C>) = (dflt.unwrap(), v.into_iter().map(|x| x.unwrap()).collect());
            let x = v[0];
            for k in 0..v.len() { if v[k] != v[if k >= KINDS { k - 2 } else { (k + 1) % KINDS }] { differ[i % list.len()][k].fetch_add(1, Relaxed); } }
            if (d - x).norm() > 1e-9 * (d.norm() + x.norm()) || (d - x).norm().is_nan() {
                run.violation(f.key, json!({"default_method": [tol, it as f64], "mask": f.mask, "params": f.params, "args": fmt(&a), "bits": bits(&a), "default": fmt(&[d]), "with_that_method": fmt(&[x])}));
            } else if x != v[12] { run.distinct_args(f.key, f.mask + 1000, &a); }
        });
    }
    // tight settings around the initial one, in units where they are quick to reach;
    // the limit functions may replace the initial setting, (1e-10, 50), and no other
    for (tol, it) in [(1e-11, 50), (1e-12, 12), (1e-10, 51), (1e-10, 49), (1.0000001e-10, 50), (0.9999999e-10, 50), (3e-10, 60), (1e-9, 50), (2e-11, 200), (1e-8, 50)] {
        qcd_sme::consts::set_default_tol_integral(tol);
        qcd_sme::consts::set_default_max_iter_integral(it);
        qcd_sme::consts::set_matsubara_reg(1e-7);
        run.par(list.len() * run.n(12, 200), |i| {
            let f = list[i % list.len()];
            let mut r = Rng::stream(run.seed, 1900 + it as u64 * 50 + (i % list.len()) as u64, (i / list.len()) as u64);
            let a = rescale(f.params, &iargs(&mut r, f.params, f.mask), (tol * r.log(1e2, 1e6)).sqrt());
            let c = |m| run.call_watched(|| format!("{} {:?}", f.key, fmt(&a)), || (f.f)(&a, m));
            let d = lookup::fun(f.key.trim_end_matches("_w_method"), f.mask);
            let dflt = run.call_watched(|| format!("{} {:?}", d.key, fmt(&a)), || (d.f)(&a));
            match (dflt, c(Integral::G7K15(tol, it)), c(Integral::G7K15(tol.max(1e-9) * 10., it))) {
                (Ok(d), Ok(x), Ok(y)) => {
                    if (d - x).norm() > 1e-9 * (d.norm() + x.norm()) || (d - x).norm().is_nan() {
                        run.violation(f.key, json!({"default_method": [tol, it as f64], "mask": f.mask, "params": f.params, "args": fmt(&a), "bits": bits(&a), "default": fmt(&[d]), "with_that_method": fmt(&[x])}));
                    } else if (x - y).norm() > 1e-9 * (x.norm() + y.norm()) { run.count("tight defaults told apart from looser ones", 1); run.distinct_args(f.key, f.mask + 2000, &a); }
                }
                x => run.violation(f.key, json!({"panics": format!("{x:?}"), "args": fmt(&a), "bits": bits(&a)})),
            }
        });
    }
    lookup::reset_globals();
    if !run.stopped() {
        for (f, d) in list.iter().zip(&differ) {
            let same: Vec<usize> = (0..d.len()).filter(|k| d[*k].load(Relaxed) == 0).collect();
            if !same.is_empty() { run.violation(f.key, json!({"the_integration_method_makes_no_difference": same, "mask": f.mask})); }
            else { run.count("integration methods told apart", d.len() as u64); }
        }
    }
}
