//! C18: root finder.  C19: residues and spectral functions.
use crate::lookup;
use crate::rng::Rng;
use crate::run::{fmt, Run};
use qcd_sme::utils::*;
use qcd_sme::{Num, C};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn c(x: f64) -> C { C::new(x, 0.) }
const EPS: f64 = f64::EPSILON;

/// The real or complex functions the root finder is run on.
#[derive(Clone, Debug)]
enum Fun {
    Poly(Vec<C>), Roots(Vec<C>), Exp(C, C), Pole(C, C), Hole(Vec<C>, f64, f64), Const(C), Step(f64), FaultAt(Vec<C>, usize, u8), Sqrt(C), Oscillate(f64), Tiny(C, f64), Gluon(f64), Inf(C),
}
impl Fun {
    fn eval(&self, z: C, k: usize) -> C {
        let poly = |v: &[C]| v.iter().rev().fold(c(0.), |a, b| a * z + b);
        match self {
            Fun::Poly(v) => poly(v),
            Fun::Roots(v) => v.iter().fold(c(1.), |a, b| a * (z - b)),
            Fun::Exp(a, b) => if z.im == 0. && a.im == 0. && b.im == 0. { c((z.re * a.re).exp() - b.re) } else { (z * a).exp() - b },
            Fun::Pole(a, b) => c(1.) / (z - a) - b,
            Fun::Hole(v, at, w) => if (z.re - at).abs() < *w { c(f64::NAN) } else { poly(v) },
            Fun::Const(x) => *x,
            Fun::Step(x) => c(if z.re > *x { 1. } else { -1. }),
            Fun::FaultAt(v, n, kind) => if k == *n { match kind { 0 => c(f64::NAN), 1 => c(f64::INFINITY), 2 => C::new(0., f64::NAN), 3 => C::new(f64::NAN, 0.), _ => c(-f64::INFINITY) } } else { poly(v) },
            Fun::Sqrt(a) => if z.im == 0. && a.im == 0. { c(z.re.sqrt() - a.re) } else { z.sqrt() - a },
            Fun::Oscillate(a) => if z.im == 0. { c((z.re * a).sin() + 0.3) } else { (z * *a).sin() + 0.3 },
            Fun::Tiny(a, s) => (z - a) * *s,
            Fun::Gluon(f0) => if z.im == 0. { c(lookup::call("ym::gluon::dressing_inv_landau", 0, &[z, c(*f0)]).re) } else { lookup::call("ym::gluon::dressing_inv_landau", 1, &[z, c(*f0)]) },
            Fun::Inf(a) => if z.norm() > 10. { c(f64::INFINITY) } else { z - a },
        }
    }
}

fn draw(r: &mut Rng, cx: bool) -> (Fun, C, C, f64, usize) {
    let s = if r.p(0.3) { r.log(1e-3, 1e3) } else { 1. };
    let mut z = |r: &mut Rng| if cx { C::new(r.range(-3., 3.), r.range(-3., 3.)) } else { c(r.range(-3., 3.)) };
    let n = 1 + r.below(5);
    let v: Vec<C> = (0..=n).map(|_| z(r)).collect();
    let mut g = (z(r) * s, z(r) * s);
    let f = match r.below(14) {
        0 | 1 => Fun::Poly(v),
        2 => Fun::Roots(v),
        3 => Fun::Exp(z(r), z(r)),
        4 => Fun::Pole(z(r), z(r)),
        5 => Fun::Hole(v, r.range(-3., 3.), r.log(1e-2, 3.)),
        6 => Fun::Const(if r.p(0.3) { c(0.) } else { z(r) }),
        7 => Fun::Step(r.range(-3., 3.)),
        8 => Fun::FaultAt(v, r.below(8), r.below(5) as u8),
        9 => Fun::Sqrt(z(r)),
        10 => Fun::Oscillate(r.log(0.3, 5.)),
        11 => Fun::Tiny(z(r), r.log(1e-12, 1e12)),
        12 => { g = (if cx { C::new(-0.4, 0.6) } else { c(0.3) } + z(r) * 0.1, if cx { C::new(-0.5, 0.7) } else { c(2.) } + z(r) * 0.1); Fun::Gluon(r.range(-2., 0.5)) }
        _ => Fun::Inf(z(r)),
    };
    // guesses next to each other, on a root, or exactly on it
    match (&f, r.below(5)) {
        (Fun::Roots(v), 0) => g.1 = v[0],
        (Fun::Roots(v), 1) => g.0 = v[0],
        (Fun::Roots(v), 2) => g = (v[0] * (1. + 1e-3), v[0] * (1. - 2e-3)),
        (_, 3) => g.1 = g.0 * (1. + r.log(1e-6, 1e-1)),
        _ => {}
    }
    if g.0 == g.1 { g.1 += c(1.); }
    let tol = match r.below(8) { 0 => r.log(1e-18, 1e-12), 1 => r.log(1e-2, 1e2), 2 => f64::MAX, 3 => f64::MIN_POSITIVE, _ => r.log(1e-12, 1e-4) };
    let it = match r.below(6) { 0 => r.below(4), 1 => 4 + r.below(6), _ => 10 + r.below(200) };
    (f, g.0, g.1, tol, it)
}

/// What one execution did: every point evaluated with its value, and the result.
type Trace = (Vec<(C, C)>, Result<Option<(C, C)>, ()>);
fn execute(f: &Fun, z0: C, z1: C, tol: f64, it: usize, cx: bool) -> Trace {
    let log = RefCell::new(vec![]);
    let n = Cell::new(0);
    let mut step = |z: C| { let y = f.eval(z, n.get()); n.set(n.get() + 1); if n.get() > it + 1000 { panic!("runaway"); } let mut l = log.borrow_mut(); l.push((z, y)); y };
    let cell = RefCell::new(&mut step);
    let res = if cx {
        catch_unwind(AssertUnwindSafe(|| find_root(&|z: C| (cell.borrow_mut())(z), (z0, z1), tol, it)))
    } else {
        catch_unwind(AssertUnwindSafe(|| find_root(&|x: f64| (cell.borrow_mut())(c(x)).re, (z0.re, z1.re), tol, it).map(|(a, b)| (c(a), c(b)))))
    };
    let l = log.borrow().clone();
    (l, res.map_err(|_| ()))
}

fn same(a: C, b: C) -> bool { (a.re == b.re || a.re.is_nan() && b.re.is_nan()) && (a.im == b.im || a.im.is_nan() && b.im.is_nan()) }

fn judge(cx: bool, z0: C, z1: C, tol: f64, it: usize, log: &[(C, C)], res: &Option<(C, C)>) -> Result<bool, String> {
    let val = |k: usize| if cx { log[k].1 } else { c(log[k].1.re) };
    let nan = |z: C| z.re.is_nan() || z.im.is_nan();
    if log.len() > it + 2 { return Err(format!("{} evaluations for {it} iterations", log.len())); }
    for (k, g) in [(0, z0), (1, z1)] { if log.len() > k && !same(log[k].0, g) && !log.iter().take(2).any(|l| same(l.0, g)) { return Err("does not start from the guesses".into()); } }
    // the secant iteration
    let mut chain = 0;
    for k in 2..log.len() {
        let (a, fa, b, fb) = (log[k - 2].0, val(k - 2), log[k - 1].0, val(k - 1));
        let den = (fb - fa).norm();
        let want = b - fb * (b - a) / (fb - fa);
        if !want.re.is_finite() || !want.im.is_finite() || !(a * fb).norm().is_finite() || !(b * fa).norm().is_finite() { continue; }
        let slack = 32. * EPS * (a.norm() * fb.norm() + b.norm() * fa.norm() + (fa.norm() + fb.norm()) * (want.norm() + b.norm())) / den + 1e-290;
        if !((log[k].0 - want).norm() <= slack) && slack < f64::MAX && den > 1e-150 && den < 1e150 && a.norm() < 1e150 && b.norm() < 1e150 { return Err(format!("evaluation {k} at {} is not the secant step {want} (slack {slack:e})", log[k].0)); }
        chain += 1;
    }
    // NaN ends the search
    if let Some(k) = (1..log.len().saturating_sub(1)).find(|k| nan(val(*k))) { return Err(format!("went on after evaluation {k} gave NaN")); }
    match res {
        Some((z, fz)) => {
            if nan(*fz) || !(fz.norm() < tol) { return Err(format!("returned |f| = {:e} with tolerance {tol:e}", fz.norm())); }
            if !log.iter().enumerate().any(|(k, l)| same(l.0, *z) && same(val(k), *fz)) { return Err("the returned pair was never evaluated".into()); }
            if it == 0 { return Err("a root after no iterations".into()); }
        }
        None => {
            let k = (1..log.len().min(it + 1)).find(|k| val(*k).norm() < tol);
            if let Some(k) = k { return Err(format!("evaluation {k} was below the tolerance, nothing returned")); }
            if log.len() < it + 1 && !(0..log.len()).any(|k| nan(val(k)) || !log[k].0.norm().is_finite() || !val(k).norm().is_finite()) && !(1..log.len()).any(|k| val(k) == val(k - 1)) {
                return Err(format!("gave up after {} of {it} iterations without reason", log.len()));
            }
        }
    }
    Ok(chain > 0)
}

pub fn run_c18(run: &Run) {
    *run.rule.lock().unwrap() = "random real and complex functions (polynomials, exponentials, poles, steps, NaN holes, injected NaN and infinities, library functions), guesses, tolerances and iteration limits; the recorded sequence of evaluations is judged offline; non-trivial = at least one secant step decided".into();
    run.par(run.n(4000, 100000), |i| {
        let mut r = Rng::stream(run.seed, 1800, i as u64);
        for k in 0..100 {
            if run.stopped() { return; }
            let cx = r.p(0.5);
            let (f, z0, z1, tol, it) = draw(&mut r, cx);
            let det = |w: &str, log: &[(C, C)], res: &str| json!({"what": w, "complex": cx, "function": format!("{f:?}"), "guesses": fmt(&[z0, z1]), "tol": tol, "max_iter": it, "result": res, "evaluations": log.iter().take(12).map(|(z, y)| fmt(&[*z, *y])).collect::<Vec<_>>()});
            let (log, res) = execute(&f, z0, z1, tol, it, cx);
            run.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let res = match res { Ok(x) => x, Err(()) => { run.violation("find_root", det("panicked or ran away", &log, "")); continue; } };
            match judge(cx, z0, z1, tol, it, &log, &res) {
                Ok(nt) => {
                    run.count(if res.is_some() { "roots_returned" } else { "nothing_returned" }, 1);
                    run.count("function_evaluations_observed", log.len() as u64);
                    if nt { run.distinct((format!("{f:?}"), z0.re.to_bits(), z1.re.to_bits(), log.len())); }
                    if i % 97 == 0 && k == 0 { run.sample(|| det("held", &log, &format!("{res:?}"))); }
                }
                Err(w) => run.violation("find_root", det(&w, &log, &format!("{res:?}"))),
            }
            // starting from a root
            if let (Fun::Roots(v), true) = (&f, (1e-8..1e3).contains(&tol)) {
                let big: f64 = v.iter().map(|a| 1. + a.norm()).product::<f64>() * (1. + z0.norm() + z1.norm()).powi(v.len() as i32);
                if (same(z1, v[0]) || same(z0, v[0])) && it >= 3 && tol > 1e-12 * big && res.is_none() && log[0].1 != log[1].1 { run.violation("find_root", det("did not find the root it started from", &log, "None")); }
            }
        }
    });
    // rejected arguments
    let mut r = Rng::stream(run.seed, 1801, 0);
    for _ in 0..run.n(2000, 20000) {
        let (x, y) = (r.range(-5., 5.), r.range(-5., 5.));
        let (z, w) = (C::new(x, y), C::new(y, x));
        let t = [0., -0., -1., -1e-300, f64::NEG_INFINITY, f64::NAN][r.below(6)];
        let tries = [
            catch_unwind(|| find_root(&|a: f64| a, (x, x), 1e-3, 10).is_some()).is_err(),
            catch_unwind(|| find_root(&|a: C| a, (z, z), 1e-3, 10).is_some()).is_err(),
            catch_unwind(|| find_root(&|a: f64| a, (x, y), t, 10).is_some()).is_err(),
            catch_unwind(|| find_root(&|a: C| a, (z, w), t, 10).is_some()).is_err(),
        ];
        run.evals.fetch_add(4, std::sync::atomic::Ordering::Relaxed);
        run.distinct(("rejected", x.to_bits(), t.to_bits()));
        if tries.iter().any(|p| !p) { run.violation("find_root: rejection", json!({"x": x, "y": y, "tol": format!("{t}"), "equal real, equal complex, bad tol real, bad tol complex rejected": tries})); }
        // guesses that differ in one component only are fine
        if catch_unwind(|| find_root(&|a: C| a - z, (z + C::new(0., 1.), z + C::new(0., 2.)), 1e-9, 10)).ok().flatten().is_none() { run.violation("find_root: rejection", json!({"guesses differing in the imaginary part": fmt(&[z])})); }
    }
}

/// Runs `g` on a recording closure.
fn traced<T: Num, U>(f: impl Fn(T) -> T, g: impl Fn(&dyn Fn(T) -> T) -> U) -> (Vec<T>, U) {
    let log = RefCell::new(vec![]);
    let u = { let h = |z: T| { log.borrow_mut().push(z); f(z) }; g(&h) };
    (log.into_inner(), u)
}

pub fn run_c19(run: &Run) {
    *run.rule.lock().unwrap() = "rational and logarithmic functions with known residues and discontinuities, and the library's propagators; the points the helpers evaluate are recorded; non-trivial = truncation and rounding bound below 1e-2 of the value".into();
    let bad = |w: &str, d: serde_json::Value| run.violation(w, d);
    run.par(run.n(4000, 100000), |i| {
        let mut r = Rng::stream(run.seed, 1900, i as u64);
        for _ in 0..50 {
            if run.stopped() { return; }
            let cx = r.p(0.6);
            let z = |r: &mut Rng, s: f64| if cx { C::new(r.range(-s, s), r.range(-s, s)) } else { c(r.range(-s, s)) };
            // r/(z-z0) + polynomial + another pole
            let mut z0 = z(&mut r, 2.);
            if r.p(0.2) { z0 = c(0.); }
            if r.p(0.2) { z0 = C::new((z0.re * 64.).round() / 64., (z0.im * 64.).round() / 64.); }
            let res = z(&mut r, 3.) + c(0.1);
            let (a, b, z1, r1) = (z(&mut r, 2.), z(&mut r, 2.), z0 + (z(&mut r, 1.) + c(1.5 * r.sign())), z(&mut r, 2.));
            let f = |x: C| res / (x - z0) + a + b * x + r1 / (x - z1);
            if (z1 - z0).norm() < 0.5 || res.norm() < 1e-2 { continue; }
            let eps = r.log(1e-9, 1e-2);
            let g = |x: f64| f(c(x)).re;
            let got = |e: Option<f64>| -> (Vec<C>, C) {
                if cx { traced(f, |h| match e { Some(e) => compute_residue_with_eps(&|x| h(x), z0, e), None => compute_residue(&|x| h(x), z0) }) }
                else { let (l, v) = traced(g, |h| match e { Some(e) => compute_residue_with_eps(&|x| h(x), z0.re, e), None => compute_residue(&|x| h(x), z0.re) }); (l.into_iter().map(c).collect(), c(v)) }
            };
            run.evals.fetch_add(4, std::sync::atomic::Ordering::Relaxed);
            for e in [Some(eps), None] {
                let (log, v) = got(e);
                let h = e.unwrap_or(1e-12);
                for s in [1., -1.] {
                    if !log.iter().any(|p| (p - (z0 + s * h)).norm() <= 4. * EPS * z0.norm() + 1e-9 * h) { bad("compute_residue: step", json!({"pole": fmt(&[z0]), "step": h, "default": e.is_none(), "evaluated_at": fmt(&log)})); }
                }
                // rest = f minus the pole, at the pole: enters at second order
                let rest = (a + b * z0 + r1 / (z0 - z1)).norm() + 40.;
                let t = 8. * EPS * (z0.norm() + h) / h + 16. * (h * rest / res.norm()).powi(2) + 64. * EPS * (1. + h * rest / res.norm());
                if t < 1e-2 {
                    run.max("residue: deviation/tolerance", (v - res).norm() / (t * res.norm()));
                    run.distinct((z0.re.to_bits(), z0.im.to_bits(), h.to_bits()));
                    if !((v - res).norm() <= t * res.norm()) { bad("compute_residue", json!({"pole": fmt(&[z0]), "eps": h, "complex": cx, "got": fmt(&[v]), "residue": fmt(&[res]), "tolerance": t * res.norm()})); }
                } else { run.count("residue_unsharp", 1); }
            }
            // a pole known only to within the step: no correction at all without a rest, up to
            // and including a pole that sits on one of the evaluation points
            {
                let h = eps.max(1e-6);
                let off = match r.below(6) { 0 => r.sign(), 1 => r.sign() * (1. - r.log(1e-14, 1e-6)), 2 => r.sign() * r.log(1e-9, 1e-3), 3 => r.sign() * (1. + r.log(1e-3, 1e3)), _ => r.range(-1., 1.) };
                let p = if r.p(0.5) { c((r.range(-2., 2.) * 64.).round() / 64.) } else { z0 };
                let h = if off.abs() == 1. { h.log2().floor().exp2() } else { h };
                let at = p + off * h;
                // complex arithmetic has no quotient there
                let on = cx && (p + h == at || p - h == at) || !cx && off.abs() == 1. && at.re - off * h != p.re;
                let v = if cx { compute_residue_with_eps(&|x: C| res / (x - at), p, h) } else { c(compute_residue_with_eps(&|x: f64| res.re / (x - at.re), p.re, h)) };
                let want = if cx { res } else { c(res.re) };
                let t = 64. * EPS * ((1. + p.norm() + h) / h + off.abs());
                if !on && t < 1e-2 {
                    run.distinct((p.re.to_bits(), off.to_bits(), h.to_bits()));
                    run.max("residue, displaced pole: deviation/tolerance", (v - want).norm() / (t * want.norm()));
                    if !((v - want).norm() <= t * want.norm()) { bad("compute_residue: displaced pole", json!({"point": fmt(&[p]), "pole": fmt(&[at]), "eps": h, "complex": cx, "got": fmt(&[v]), "residue": fmt(&[want])})); }
                }
            }
            // spectral function
            let zz = z(&mut r, 3.);
            let eps = if r.p(0.2) { *r.pick(&[0.1, 1e-3, 1e-6]) } else { r.log(1e-10, 1.) };
            for e in [Some(eps), None] {
                let h = e.unwrap_or(1e-12);
                let (log, v) = traced(f, |q| match e { Some(e) => spectral_function_with_eps(|x| q(x), zz, e), None => spectral_function(|x| q(x), zz) });
                for s in [1., -1.] {
                    if !log.iter().any(|p| (p - (zz + C::new(0., s * h))).norm() <= 4. * EPS * zz.norm() + 1e-9 * h) { bad("spectral_function: step", json!({"z": fmt(&[zz]), "step": h, "default": e.is_none(), "evaluated_at": fmt(&log)})); }
                }
                let (u, d) = (f(zz + C::new(0., h)), f(zz - C::new(0., h)));
                let w = C::new(0., 1.) * (u - d) / std::f64::consts::TAU;
                let t = 1e-12 * (u.norm() + d.norm());
                if !((v - w).norm() <= t) && t.is_finite() { bad("spectral_function", json!({"z": fmt(&[zz]), "eps": h, "got": fmt(&[v]), "want": fmt(&[w])})); }
                run.distinct((zz.re.to_bits(), h.to_bits(), 1));
            }
            // a cut and a pole with a known spectral function
            let x = r.log(1e-2, 1e2);
            let v = spectral_function_with_eps(|z: C| z.ln(), c(-x), 1e-9);
            if !((v - c(-1.)).norm() < 1e-6 / x.min(1.)) { bad("spectral_function: logarithm", json!({"x": -x, "got": fmt(&[v]), "want": "-1"})); }
            let v = spectral_function_with_eps(|z: C| c(1.) / (c(x) - z), c(x), eps);
            let w = -1. / (std::f64::consts::PI * eps);
            if !((v - c(w)).norm() < 1e-9 * w.abs() * (1. + EPS * x / eps * 1e9)) { bad("spectral_function: pole", json!({"x": x, "eps": eps, "got": fmt(&[v]), "want": w})); }
        }
    });
    // the propagators
    let props: Vec<&crate::F> = crate::table::FUNS.iter().filter(|f| (f.key.starts_with("ym::") || f.key.starts_with("qcd::")) && f.key.contains("propagator") && f.mask == 1).collect();
    run.count("propagators", props.len() as u64);
    run.par(props.len() * run.n(40, 2000), |i| {
        let f = props[i % props.len()];
        let mut r = Rng::stream(run.seed, 1950 + (i % props.len()) as u64, (i / props.len()) as u64);
        let tail: Vec<C> = f.params[1..].iter().map(|p| match *p { "f0" | "g0" => c(r.range(-2., 2.)), "xi" => c(if r.p(0.4) { 0. } else { r.range(0., 2.) }), _ => c(r.log(0.1, 3.)) }).collect();
        let d = |s: C| { let mut a = vec![s]; a.extend_from_slice(&tail); (f.f)(&a) };
        // spectral function of the real frequency w: s = -w^2
        let (w, eps) = (r.log(0.05, 20.), r.log(1e-9, 1e-2));
        let sf = |w: f64| spectral_function_with_eps(|z: C| d(-z * z), c(w), eps);
        let (p, m) = (sf(w), sf(-w));
        run.evals.fetch_add(4, std::sync::atomic::Ordering::Relaxed);
        let direct = d(-(C::new(w, eps)) * C::new(w, eps));
        let size = direct.norm() / std::f64::consts::PI;
        if size.is_finite() && size < 1e6 {
            run.distinct((f.key, w.to_bits()));
            if !(p.im.abs() <= 1e-12 * size) { bad(f.key, json!({"w": w, "eps": eps, "spectral": fmt(&[p]), "want": "real", "params": fmt(&tail)})); }
            if !((p + m).norm() <= 1e-9 * size) { bad(f.key, json!({"w": w, "eps": eps, "spectral": fmt(&[p, m]), "want": "odd", "params": fmt(&tail)})); }
            if !((p.re + direct.im / std::f64::consts::PI).abs() <= 1e-9 * size) { bad(f.key, json!({"w": w, "eps": eps, "spectral": fmt(&[p]), "want": -direct.im / std::f64::consts::PI, "params": fmt(&tail)})); }
        }
        // poles of the propagator off the cut
        let inv = |s: C| c(1.) / d(s);
        let z0 = C::new(r.range(-2., 2.), r.sign() * r.range(0.2, 2.));
        let (dd, e) = (inv, 1e-5);
        if let Some((z, fz)) = catch_unwind(AssertUnwindSafe(|| find_root(&dd, (z0, z0 * 1.05), 1e-11, 100))).ok().flatten() {
            if z.im.abs() < 0.05 || z.norm() > 1e3 || z.norm() < 1e-2 || !(fz.norm() < 1e-11) || !(inv(z).norm() < 1e-9) { return; }
            let h = 1e-3 * z.im.abs().min(z.norm());
            let der = ((inv(z + h) - inv(z - h)) * 8. - (inv(z + 2. * h) - inv(z - 2. * h))) / (12. * h);
            let res = compute_residue_with_eps(&d, z, e * z.norm());
            let want = c(1.) / der;
            run.count("propagator_poles", 1);
            run.distinct((f.key, z.re.to_bits(), 2));
            let t = 1e-5 * want.norm() * (1. + 1. / (z.im.abs() / z.norm()));
            run.max("propagator residue: deviation/tolerance", (res - want).norm() / t);
            if !((res - want).norm() <= t) && der.norm() > 1e-3 { bad(f.key, json!({"pole": fmt(&[z]), "residue": fmt(&[res]), "inverse_derivative": fmt(&[want]), "params": fmt(&tail)})); }
        }
    });
}
