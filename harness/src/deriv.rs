//! C24: functions named as mass derivatives are derivatives.
use crate::lookup;
use crate::quad::{self, Q};
use crate::reference;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table, F};
use qcd_sme::C;
use serde_json::json;

fn c(x: f64) -> C { C::new(x, 0.) }

struct D { f: &'static F, of: i32, order: u32, map: fn(C, &[C]) -> Vec<C>, zf: bool }

/// The function a derivative function is named after, as a function of the squared
/// first mass `x` and the derivative function's arguments.
fn list() -> Vec<D> {
    let mut v = vec![];
    for f in table::FUNS {
        let Some((reg, n)) = f.key.split_once("::") else { continue };
        let order = if n.starts_with("d2_") { 2 } else if n.starts_with("d_") { 1 } else { continue };
        if n.contains("_0_0_") || n.contains("j_0_") { continue; } // the massless derivative is infrared divergent
        let base = n.trim_start_matches("d2_").trim_start_matches("d_");
        let (of, map): (String, fn(C, &[C]) -> Vec<C>) = if base.starts_with("j_m") {
            (base.into(), |x, a| vec![a[0], x.sqrt(), a[2]])
        } else if let Some(b) = base.strip_suffix("_same_mass") {
            (b.into(), |x, a| { let k = a.len() - 2; let mut v = a.to_vec(); v.insert(k, x.sqrt()); v })
        } else if base.contains("_m_0_") || base.contains("_m_t_0") {
            (base.replace("_m_t_0_", "_m_0_t_").replace("_m_0_", "_m_m_"), |x, a| { let k = a.len() - 2; let mut v = a.to_vec(); v[k] = x.sqrt(); v.insert(k + 1, C::new(0., 0.)); v })
        } else {
            (base.into(), |x, a| { let k = a.len() - 3; let mut v = a.to_vec(); v[k] = x.sqrt(); v })
        };
        let of = reference::index(&format!("{reg}::{of}")).unwrap_or_else(|| panic!("no {reg}::{of}"));
        // complex arguments only in the frequency: elsewhere the logarithm's branch moves
        if f.mask & !2 != 0 || (reg == "zf" && f.mask != 0) { continue; }
        v.push(D { f, of, order, map, zf: reg == "zf" });
    }
    v
}

pub fn run_c24(run: &Run) {
    *run.rule.lock().unwrap() = "loop-momentum integral of the observed derivative integrand (principal value where it has poles) against the finite-difference derivative with respect to the squared mass of the extended-precision integral of the reference function; f_q_crossed against the derivative of f_q; non-trivial = derivative compared to 2e-5 of the integrand's mass".into();
    let ds = list();
    run.count("derivative_functions", ds.len() as u64);
    run.par(ds.len() * run.n(25, 800), |i| {
        let d = &ds[i % ds.len()];
        let mut r = Rng::stream(run.seed, 2400 + (i % ds.len()) as u64, (i / ds.len()) as u64);
        reference::set_ctx(3, 1);
        let l = if r.p(0.3) { r.log(1e-3, 1e3) } else { 1. };
        let mut a: Vec<C> = d.f.params.iter().map(|p| match *p {
            "beta" => c(if r.p(0.3) { *r.pick(&[1., 2., 0.5]) } else { r.log(0.3, 4.) } / l),
            "om" => { let x = r.log(0.2, 4.) * l * if r.p(0.25) { -1. } else { 1. }; if d.f.mask & 2 != 0 { C::from_polar(x.abs(), r.range(-1.2, 1.2)) * x.signum() } else { c(x) } }
            "p" | "m" => c(if r.p(0.3) { *r.pick(gen::NICE) } else { r.log(0.25, 4.) } * l),
            "m1" | "m2" => c(r.log(0.25, 4.) * l),
            _ => c(1.),
        }).collect();
        // nearly equal masses
        if let (Some(i), Some(j)) = (lookup::pos(d.f.params, "m1"), lookup::pos(d.f.params, "m2")) {
            if r.p(0.3) { a[j] = c(a[i].re * (1. + r.sign() * r.log(1e-6, 0.1))); }
        }
        a[0] = c(1.);
        let par = |n: &str| d.f.params.iter().position(|p| *p == n).map(|k| a[k]);
        let beta = par("beta").unwrap().re;
        let x0 = (d.map)(c(1.), &a);
        let _ = x0;
        let m1 = par("m1").or(par("m")).unwrap().re;
        let m2 = if d.f.key.ends_with("same_mass") { m1 } else { par("m2").map_or(0., |z| z.re) };
        let (om, p) = (par("om"), par("p"));
        // structures of the integrands
        let mut sp = vec![m1, m2, 1. / beta, 5. / beta, 20. / beta];
        let dd = m2 * m2 - m1 * m1;
        let mut poles = vec![];
        if let Some(p) = p {
            let p = p.re;
            let w = om.map_or(0., |o| o.norm());
            let im = om.map_or(0., |o| o.im);
            for q0 in [((p * p + dd) / (2. * p)).abs(), ((p * p - dd) / (2. * p)).abs()] {
                sp.push(q0);
                if d.zf { if q0 > 0. && !poles.iter().any(|x: &f64| (x - q0).abs() < 1e-12 * q0) { poles.push(q0); } }
                for k in [0.3, 1., 3.] { sp.push(q0 + k * w); sp.push((q0 - k * w).abs()); }
            }
            if let Some(o) = om {
                for s in [1., -1.] { for t in [1., -1.] {
                    let z = (p * p + o * o + dd * t) / (2. * (p + C::new(0., s) * o));
                    sp.push(z.norm()); sp.push(z.re.abs());
                } }
            }
            let _ = im;
        } else if let Some(o) = om {
            for z in [o * o + dd, o * o - dd] { sp.push((z / (2. * o)).norm()); }
            sp.push(o.norm() / 2.);
        }
        let hi = 45. / beta + m1;
        // reference derivative
        let m2_ = m1 * m1;
        let mut rerr = 0.;
        let mut fx = |k: f64, h: f64| {
            let b = (d.map)(c(m2_ * (1. + k * h)), &a);
            let ds = dd - m2_ * k * h;
            let mut s2 = sp.clone();
            if let Some(p) = p { for q0 in [((p.re * p.re + ds) / (2. * p.re)).abs(), ((p.re * p.re - ds) / (2. * p.re)).abs()] { s2.push(q0); } }
            let i = reference::integral_idx(d.of, &b, 0, 0., hi, &s2, 1e-14, 1500);
            rerr += i.err;
            i.v
        };
        let want = if d.order == 1 {
            let h = 1e-2 / (1. + beta * m1 / 2.);
            let w = ((fx(1., h) - fx(-1., h)) * 45. - (fx(2., h) - fx(-2., h)) * 9. + (fx(3., h) - fx(-3., h))) / (60. * h * m2_);
            rerr /= h * m2_;
            w
        } else {
            let h = 4e-2 / (1. + beta * m1 / 2.);
            let w = ((fx(1., h) + fx(-1., h)) * 270. - (fx(2., h) + fx(-2., h)) * 27. + (fx(3., h) + fx(-3., h)) * 2. - fx(0., h) * 490.) / (180. * h * h * m2_ * m2_);
            rerr /= h * h * m2_ * m2_;
            w
        };
        // observed derivative integrand
        let mut calls = 0u64;
        let mut f = |q: f64| { a[0] = c(q); calls += 1; (d.f.f)(&a) };
        let got = if poles.is_empty() { quad::log_integral(&mut f, hi, &sp, 1e-10, 600) } else {
            poles.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut tot = Q { v: c(0.), err: 0., mag: 0. };
            let mut ends = vec![];
            for (k, q0) in poles.iter().enumerate() {
                let mut del = q0 * 0.5;
                if k > 0 { del = del.min((q0 - poles[k - 1]) * 0.4); }
                if k + 1 < poles.len() { del = del.min((poles[k + 1] - q0) * 0.4); }
                let q = quad::log_integral(&mut |x| { let x = x.max(1e-6 * q0); f(q0 + x) + f(q0 - x) }, del, &[], 1e-9, 300);
                tot = Q { v: tot.v + q.v, err: tot.err + q.err, mag: tot.mag + q.mag };
                ends.push((q0 - del, q0 + del));
            }
            let mut lo = 0.;
            for (e0, e1) in ends.into_iter().chain(std::iter::once((hi.max(1.2 * poles[poles.len() - 1]), 0.))) {
                if e0 > lo {
                    let q = if lo == 0. { quad::log_integral(&mut f, e0, &sp, 1e-10, 600) }
                        else { quad::log_integral(&mut |x| f(lo + x), e0 - lo, &sp.iter().map(|s| s - lo).collect::<Vec<_>>(), 1e-10, 600) };
                    tot = Q { v: tot.v + q.v, err: tot.err + q.err, mag: tot.mag + q.mag };
                }
                lo = e1;
            }
            tot
        };
        run.evals.fetch_add(calls, std::sync::atomic::Ordering::Relaxed);
        let (got_v, want_v) = if d.zf { (c(got.v.re), c(want.re)) } else { (got.v, want) };
        let tol = 2e-5 * got.mag + 10. * (got.err + rerr);
        let dev = (got_v - want_v).norm();
        let name = d.f.key;
        a[0] = c(0.);
        if !(tol < 1e-3 * got.mag) { run.count("unsharp", 1); return; }
        run.max(&format!("deviation/mass {}", if d.zf { "zf" } else { &name[..2] }), dev / got.mag);
        run.distinct_args(name, d.f.mask, &a);
        if i % 97 == 0 { run.sample(|| json!({"fn": name, "args_without_q": fmt(&a[1..]), "integral": fmt(&[got_v]), "derivative": fmt(&[want_v]), "mass": got.mag})); }
        if dev > tol || dev.is_nan() {
            run.violation(name, json!({"mask": d.f.mask, "params": d.f.params, "args_without_q": fmt(&a[1..]), "bits": bits(&a), "integral": fmt(&[got_v]), "derivative": fmt(&[want_v]), "deviation": dev, "tolerance": tol, "mass": got.mag, "quad_err": got.err, "ref_err": rerr}));
        }
    });
    // the crossed quark function
    let k = reference::index("gluon::f_q").unwrap();
    for mask in [0, 1] {
        let (f, g) = (lookup::fun("gluon::f_q_crossed", mask), lookup::fun("gluon::f_q", mask));
        // the constant, from the reference, at one point
        let refd = |s: C| {
            let h = s.norm() * 2e-3;
            let e = |k_: f64| { let v = reference::eval(k, &[s + k_ * h]); v.v };
            ((e(1.) - e(-1.)) * 8. - (e(2.) - e(-2.))) / (12. * h)
        };
        run.par(run.n(20000, 400000) / 50, |i| {
            let mut r = Rng::stream(run.seed, 2490 + mask as u64, i as u64);
            for _ in 0..50 {
                let m = r.log(1e-2, 1e4);
                let s = if mask == 1 { C::from_polar(m, r.range(-2.9, 2.9)) } else { c(m) };
                let (x, y) = match (run.call(|| f.key.into(), || (f.f)(&[s])), run.call(|| g.key.into(), || (g.f)(&[s]))) { (Ok(x), Ok(y)) => (x, y), _ => { run.violation(f.key, json!({"panic": fmt(&[s])})); return; } };
                let want = y + s * 2. * refd(s);
                let size = 1. + y.norm() + 4. / s.norm();
                let d = (x - want).norm();
                run.max("f_q_crossed: deviation", d / size);
                run.distinct_args(f.key, mask, &[s]);
                if d > 1e-8 * size || d.is_nan() { run.violation(f.key, json!({"s": fmt(&[s]), "bits": bits(&[s]), "got": fmt(&[x]), "f_q_plus_2s_derivative": fmt(&[want])})); }
            }
        });
        for s in [1e-3, 1e-4] {
            let x = (f.f)(&[c(s)]);
            run.max("f_q_crossed near zero over s", x.norm() / s);
            if !(x.norm() < 2. * s) { run.violation(f.key, json!({"s": s, "got": fmt(&[x]), "want": "vanishing at s = 0"})); }
        }
    }
    run.count("ms_crossed", (run.secs() * 1e3) as u64);
    // the derivative functions against the differentiated closed forms, over the widest range
    // of arguments (integrals resolve deviations of 2e-5 only)
    let der = |k: &str| k.split("::").last().is_some_and(|n| n.starts_with("d_") || n.starts_with("d2_")) || k == "gluon::f_q_crossed";
    crate::value::shadow(run, |k| der(k) && reference::index(k).is_some(), run.n(30000, 600000));
}
