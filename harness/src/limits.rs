//! C06: special-case forms against the general functions.
use crate::compose::{self, implied, sdim};
use crate::integ::{self, iargs};
use crate::lookup::{self, pos};
use crate::reference::{self, Val};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{table, F, FC, FM};
use qcd_sme::{consts, Integral, C};
use serde_json::json;

fn c(x: f64) -> C { C::new(x, 0.) }

fn insert(params: &[&'static str], at: usize, p: &'static str) -> Vec<&'static str> { let mut v = params.to_vec(); v.insert(at, p); v }
fn shift(mask: u32, at: usize) -> u32 { (mask & ((1 << at) - 1)) | ((mask >> at) << (at + 1)) }

/// Moderate arguments for integrands; those with step functions inside the Fermi sphere.
fn pargs(r: &mut Rng, params: &[&str], mask: u32, key: &str) -> Vec<C> {
    let l = if r.p(0.3) { r.log(1e-4, 1e4) } else { 1. };
    let mut a = integ::rescale(params, &iargs(r, params, mask & !1), l);
    if let (Some(im), Some(iu)) = (pos(params, "mq"), pos(params, "mu")) {
        if key.contains("zero_temp") {
            let m = a[im].re.abs();
            a[iu].re = r.sign() * (m + r.log(0.1, 5.) * l);
            let kf = (a[iu].re.powi(2) - m * m).sqrt();
            a[0] = c(kf * r.range(0.01, 0.99));
        }
    }
    a
}

/// Two calls that should be (nearly) equal: `want` is the difference the reference
/// model sees between them (zero for exact coincidences).
#[allow(clippy::too_many_arguments)]
fn pair(run: &Run, class: &str, s: &F, sa: &[C], sr: &Val, g: &F, ga: &[C], gr: &Val) {
    if sr.ambiguous || gr.ambiguous || sr.extreme || gr.extreme { run.count("skipped_ambiguous", 1); return; }
    let mag = sr.v.norm();
    let tol = 64. * (sr.err + gr.err);
    if !(mag.is_finite() && gr.v.norm().is_finite()) || tol > 1e-3 * mag || (sr.v - gr.v).norm() > 0.3 * mag { run.count("unsharp", 1); return; }
    let (x, y) = match (run.call(|| s.key.into(), || (s.f)(sa)), run.call(|| g.key.into(), || (g.f)(ga))) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => { run.violation(s.key, json!({"panic": [x.err(), y.err()], "args": fmt(sa)})); return; }
    };
    let d = ((x - y) - (sr.v - gr.v)).norm();
    run.max(&format!("difference/budget {class}"), d / (tol / 64. + 1e-300));
    run.max(&format!("limit_distance {class}"), (sr.v - gr.v).norm() / mag);
    run.distinct_args(s.key, s.mask, sa);
    if d > tol || d.is_nan() {
        run.violation(s.key, json!({"special": s.key, "special_mask": s.mask, "special_params": s.params, "special_args": fmt(sa), "special_value": fmt(&[x]), "general": g.key, "general_args": fmt(ga), "general_bits": bits(ga), "general_value": fmt(&[y]), "difference_allowed": tol, "difference_expected": fmt(&[sr.v - gr.v])}));
    } else if run.evals.load(std::sync::atomic::Ordering::Relaxed) % 9973 < 2 {
        run.sample(|| json!({"special": s.key, "args": fmt(sa), "value": fmt(&[x]), "general": g.key, "general_value": fmt(&[y])}));
    }
}

/// For a mass-degenerate form: the general key and how its arguments arise.
fn degenerate(key: &str, params: &[&str]) -> Option<(String, fn(&[&str], &[C]) -> Vec<C>)> {
    let (reg, name) = key.split_once("::")?;
    let g = |n: String| Some(format!("{reg}::{n}"));
    let has = |s: &str| name.contains(s);
    if has("polarization") || has("self_energy") { return None; }
    if let Some(n) = name.strip_suffix("_i_same_mass") {
        return Some((g(format!("{n}_i"))?, |p, a| { let k = pos(p, "m").unwrap(); let mut v = a.to_vec(); v.insert(k, a[k]); v }));
    }
    if name.contains("_m_t_0_i") { return Some((g(name.replace("_m_t_0_i", "_m_0_t_i"))?, |_, a| a.to_vec())); }
    if name.contains("i_m_0_") { return Some((g(name.replace("_m_0_", "_m_m_"))?, |p, a| { let k = pos(p, "m").unwrap(); let mut v = a.to_vec(); v.insert(k + 1, C::new(0., 0.)); v })); }
    if name.contains("i_0_0_") { return Some((format!("{}_same_mass", g(name.replace("_0_0_", "_m_m_"))?), |_, a| { let k = a.len() - 1; let mut v = a.to_vec(); v.insert(k, C::new(0., 0.)); v })); }
    if name.contains("j_0_") { return Some((g(name.replace("j_0_", "j_m_"))?, |_, a| vec![a[0], C::new(0., 0.), a[1]])); }
    if let Some(n) = name.strip_suffix("_same_mass") { if n.starts_with("tlog") && reg == "th" { return Some((g(n.into())?, |_, a| { let mut v = a.to_vec(); v.push(C::new(0., 0.)); v })); } }
    if let Some(n) = name.strip_suffix("_zero_mass") { if n.starts_with("tlog") && reg == "th" { return Some((g(format!("{n}_same_mass"))?, |_, a| { let mut v = a.to_vec(); v.push(a[0]); v })); } }
    let _ = params;
    None
}

enum Job { Limit(&'static F, &'static F, i32, i32, usize, &'static str), Degen(&'static F, &'static F, i32, i32, fn(&[&str], &[C]) -> Vec<C>) }

fn jobs() -> Vec<Job> {
    let mut v = vec![];
    for f in table::FUNS {
        let pre = &f.key[..2];
        if (pre == "zf" || pre == "zm") && (f.key.ends_with("_i") || f.key.ends_with("_i_same_mass")) {
            let (at, p) = if pre == "zf" { (1, "om") } else { (2, "p") };
            let gk = format!("th{}", &f.key[2..]);
            let m = shift(f.mask, at);
            let g = lookup::try_fun(&gk, m).or(lookup::try_fun(&gk, m | 2));
            if let (Some(g), Some(a), Some(b)) = (g, reference::index(f.key), reference::index(&gk)) { v.push(Job::Limit(f, g, a, b, at, p)); }
            else { eprintln!("no general form of {} {}", f.key, f.mask); }
        }
        if let Some((gk, map)) = degenerate(f.key, f.params) {
            // the general instantiation with the same argument types
            let probe: Vec<C> = (0..f.params.len()).map(|i| C::new(1., (f.mask >> i & 1) as f64)).collect();
            let m: u32 = map(f.params, &probe).iter().enumerate().map(|(i, z)| if z.im != 0. { 1 << i } else { 0 }).sum();
            let g = lookup::try_fun(&gk, m).or_else(|| table::FUNS.iter().find(|x| x.key == gk && x.mask & m == m));
            if let (Some(g), Some(a), Some(b)) = (g, reference::index(f.key), reference::index(&gk)) { v.push(Job::Degen(f, g, a, b, map)); }
        }
    }
    v
}

pub fn run_c06(run: &Run) {
    *run.rule.lock().unwrap() = "pairs (special form, general form near or at the limit) called on the same random arguments; their difference must be what the reference model says (zero for coincidences) within rounding; integrated pairs and propagators within 1e-3 of the integrand's mass; non-trivial = budget below 1e-3 of the value".into();
    let js = jobs();
    run.count("pointwise_pairs", js.len() as u64);
    // 1. integrands and building blocks
    let per = run.n(400, 20000);
    for (nc, share) in [(3, 4), (2, 1), (7, 1)] {
        consts::set_number_of_colors(nc);
        run.par(js.len() * (per * share / 4) / 20, |i| {
            reference::set_ctx(nc, 1);
            let mut r = Rng::stream(run.seed, 6000 + nc as u64 * 997 + (i % js.len()) as u64, (i / js.len()) as u64);
            for _ in 0..20 {
                match &js[i % js.len()] {
                    Job::Limit(f, g, fi, gi, at, p) => {
                        if nc != 3 && !f.key.contains("quark") { return; }
                        let a = pargs(&mut r, f.params, f.mask, f.key);
                        let sc = a.iter().zip(f.params).filter(|(_, p)| integ::dim(p) == 1).map(|(z, _)| z.norm()).filter(|x| *x > 0.).fold(f64::MAX, f64::min);
                        let eps = sc * r.log(1e-5, 1e-2);
                        let e = if g.mask >> at & 1 == 1 && *p == "om" { C::from_polar(eps, r.range(-1.4, 1.4)) } else { c(eps) };
                        let mut b = a.clone();
                        b.insert(*at, e);
                        pair(run, if *p == "om" { "zero Matsubara" } else { "zero momentum" }, f, &a, &reference::eval(*fi, &a), g, &b, &reference::eval(*gi, &b));
                    }
                    Job::Degen(f, g, fi, gi, map) => {
                        if nc != 3 { return; }
                        let a = pargs(&mut r, f.params, f.mask, f.key);
                        let b = map(f.params, &a);
                        pair(run, "degenerate masses", f, &a, &reference::eval(*fi, &a), g, &b, &reference::eval(*gi, &b));
                    }
                }
                if run.stopped() { return; }
            }
        });
    }
    lookup::reset_globals();
    run.count("ms_pointwise", (run.secs() * 1e3) as u64);
    // 2. longitudinal and transverse projections coincide at vanishing momentum
    let lt: Vec<(&F, &F)> = table::FUNS.iter().filter(|f| (f.key.starts_with("zm::") && f.key.ends_with("_i") || f.key.ends_with("_i_same_mass") && f.key.starts_with("zm::")) && f.key.contains("_l_"))
        .filter_map(|f| lookup::try_fun(&f.key.replace("_l_", "_t_"), f.mask).map(|g| (f, g))).collect();
    run.count("l_t_pairs", lt.len() as u64);
    run.par(lt.len() * run.n(400, 10000), |i| {
        let (f, g) = lt[i % lt.len()];
        reference::set_ctx(3, 1);
        let mut r = Rng::stream(run.seed, 6400 + (i % lt.len()) as u64, (i / lt.len()) as u64);
        let a = pargs(&mut r, f.params, f.mask, f.key);
        let (x, y) = (reference::eval_key(f.key, &a), reference::eval_key(g.key, &a));
        pair(run, "l = t at zero momentum", f, &a, &x, g, &a, &y);
    });
    // 3. integrated functions
    let ms: Vec<(&FM, &FM)> = table::METHODS.iter().filter(|f| f.key.starts_with('z')).filter_map(|f| {
        let (at, gk) = (if f.key.starts_with("zf") { 0 } else { 1 }, format!("th{}", &f.key[2..]));
        lookup::try_meth(&gk, shift(f.mask, at)).map(|g| (f, g))
    }).collect();
    run.count("integrated_pairs", ms.len() as u64);
    run.par(ms.len() * run.n(30, 1000), |i| {
        let (f, g) = ms[i % ms.len()];
        reference::set_ctx(3, 1);
        let mut r = Rng::stream(run.seed, 6600 + (i % ms.len()) as u64, (i / ms.len()) as u64);
        let a = iargs(&mut r, f.params, f.mask);
        let zf = f.key.starts_with("zf");
        let reg = consts::get_matsubara_reg();
        let rf = integ::want(f.key, f.params, &a, reg, 1e-9, 1500);
        if rf.mag == 0. { run.count("below_threshold", 1); return; }
        let dims: Vec<f64> = a.iter().zip(f.params).filter(|(_, p)| integ::dim(p) == 1).map(|(z, _)| z.norm()).filter(|x| *x > 0.).collect();
        let (lo, hi) = (dims.iter().cloned().fold(f64::MAX, f64::min), dims.iter().cloned().fold(0., f64::max));
        let eps = if zf { vec![reg, 3. * reg, 1e-3] } else { vec![(0.03 * lo).max(0.01 * hi), (0.1 * lo).max(0.02 * hi)] };
        let run1 = |f: &FM, a: &[C], k: i32| run.call_watched(|| format!("{} {:?}", f.key, fmt(a)), || (f.f)(a, Integral::G7K15(rf.mag * 1e-6 * 0.01f64.powi(k), 24 + 6 * k as u32 + if zf { 16 } else { 0 })));
        for e in eps {
            let mut b = a.clone();
            b.insert(if zf { 0 } else { 1 }, c(e));
            let pb = insert(f.params, if zf { 0 } else { 1 }, if zf { "om" } else { "p" });
            let rg = integ::ref_part(&integ::integrand_key(g.key), &pb, &b, 1e-9, 1500);
            let want = rf.v - if zf { c(rg.v.re) } else { rg.v };
            let m = rf.mag.max(rg.mag);
            let tol = 3e-4 + 2. * (rf.err + rg.err) / m;
            let mut res = (C::new(0., 0.), C::new(0., 0.), f64::NAN);
            for k in 0..2 {
                match (run1(f, &a, k), run1(g, &b, k)) {
                    (Ok(x), Ok(y)) => { let y = if zf { c(y.re) } else { y }; res = (x, y, (x - y - want).norm() / m); }
                    (x, y) => { run.violation(f.key, json!({"panic": [x.err(), y.err()], "args": fmt(&a)})); return; }
                }
                if res.2 <= tol { break; }
            }
            run.max(&format!("integrated: excess distance/mass {}", &f.key[..2]), res.2);
            run.max(&format!("integrated: distance of limit/mass {}", &f.key[..2]), want.norm() / m);
            run.distinct_args(f.key, f.mask, &b);
            if res.2 > tol || res.2.is_nan() {
                run.violation(f.key, json!({"params": f.params, "args": fmt(&a), "bits": bits(&a), "value": fmt(&[res.0]), "general_at": e, "general_value": fmt(&[res.1]), "difference_expected": fmt(&[want]), "excess": res.2, "tolerance": tol, "mass": m}));
            }
        }
    });
    run.count("ms_integrated", (run.secs() * 1e3) as u64);
    // 4. dressing functions and propagators
    enum E { P(&'static F, &'static F), K(&'static FC, &'static FC) }
    let mut es = vec![];
    let gen_key = |k: &str| k.replace("_zf::", "::").replace("_zm::", "::");
    for f in table::FUNS { if f.key.contains("_zf::") || f.key.contains("_zm::") { if let Some(g) = lookup::try_fun(&gen_key(f.key), f.mask) { es.push(E::P(f, g)); } } }
    for f in table::CONFIGS { if f.key.contains("_zf::") || f.key.contains("_zm::") { if let Some(g) = lookup::try_conf(&gen_key(f.key), f.mask) { es.push(E::K(f, g)); } } }
    run.count("propagator_pairs", es.len() as u64);
    for (nc, nf, tol) in [(3, 1, 1e-6), (2, 3, 1e-5)] {
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf);
        consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(26);
        run.par(es.len() * run.n(25, 400), |i| {
            let mut r = Rng::stream(run.seed, 6800 + nc as u64 * 500 + (i % es.len()) as u64, (i / es.len()) as u64);
            let (key, params, mask) = match &es[i % es.len()] { E::P(f, _) => (f.key, f.params, f.mask), E::K(f, _) => (f.key, f.params, f.mask) };
            let mut a = iargs(&mut r, params, mask);
            let zf = key.contains("_zf::");
            if !zf && a[0].norm() < 0.3 { a[0] *= 4.; }
            // the imaginary axis is the cut
            if !zf && a[0].re.abs() < 0.1 * a[0].norm() { a[0].re = 0.1 * a[0].norm(); }
            let e = if zf { consts::get_matsubara_reg() } else {
                let d: Vec<f64> = a.iter().zip(params).filter(|(_, p)| integ::dim(p) == 1 && **p != "mu").map(|(z, _)| z.norm()).filter(|x| *x > 0.).collect();
                (0.01 * d.iter().cloned().fold(f64::MAX, f64::min)).max(0.01 * d.iter().cloned().fold(0., f64::max))
            };
            let mut b = a.clone();
            b.insert(if zf { 0 } else { 1 }, c(e));
            let conf = compose::random_config(&mut r, nc);
            let s = compose::spec(key).unwrap();
            let w = |k: &str, a: &[C]| format!("{k} {:?}", fmt(a));
            let (x, y) = match &es[i % es.len()] {
                E::P(f, g) => (run.call_watched(|| w(f.key, &a), || (f.f)(&a)), run.call_watched(|| w(g.key, &b), || (g.f)(&b))),
                E::K(f, g) => (run.call_watched(|| w(f.key, &a), || (f.f)(&a, &conf)), run.call_watched(|| w(g.key, &b), || (g.f)(&b, &conf))),
            };
            let (Ok(x), Ok(y)) = (x, y) else { run.violation(key, json!({"panic": true, "args": fmt(&a)})); return };
            let sa = sdim(params, &a);
            let pb = insert(params, if zf { 0 } else { 1 }, if zf { "om" } else { "p" });
            let (ix, iy) = (implied(&s, x, sa), implied(&s, y, sdim(&pb, &b)));
            let iy = if zf { c(iy.re) } else { iy };
            let f0 = pos(params, "f0").or(pos(params, "g0")).map_or(0., |k| a[k].norm());
            let parts = 1. + 4. * conf.quarks.iter().map(|q| q.0).sum::<u32>() as f64;
            let lim = 3e-3 * (ix.norm() + f0 + 3.) + 53. / sa.norm() * (100. * tol + 1e-4) * parts;
            let lim = if zf { 1e-4 * (ix.norm() + f0 + 3.) + 530. * tol / sa.norm() * parts } else { lim +  3. * (e / a[0].norm()).powi(2) * (ix.norm() + f0 + 3.) };
            let d = (ix - iy).norm();
            run.max(&format!("propagators: distance/tolerance {}", if zf { "zf" } else { "zm" }), d / lim);
            if !d.is_finite() && !ix.re.is_finite() { run.count("non_finite", 1); return; }
            run.distinct_args(key, mask + 64, &a);
            if d > lim || d.is_nan() {
                run.violation(key, json!({"params": params, "args": fmt(&a), "bits": bits(&a), "config": format!("{conf:?}"), "inverse": fmt(&[ix]), "general_at": e, "general_inverse": fmt(&[iy]), "distance": d, "tolerance": lim}));
            }
        });
    }
    lookup::reset_globals();
    run.count("ms_propagators", (run.secs() * 1e3) as u64);
    // 5. the special forms against the closed form of the limit, over the widest range of
    //    arguments (the general functions cannot be evaluated close to all of the limits)
    crate::value::shadow(run, |k| ((k.starts_with("zf::") || k.starts_with("zm::")) || degenerate(k, &[]).is_some()) && reference::index(k).is_some(), run.n(20000, 400000));
    lookup::reset_globals();
}
