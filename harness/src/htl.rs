//! C26: hard-thermal-loop limits.
use crate::compose::random_config;
use crate::field::{confs, plains, Entry};
use crate::lookup::{self, pos};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::therm::vacuum;
use crate::{table, FM};
use qcd_sme::{consts, Integral, C};
use serde_json::json;
use std::f64::consts::PI;

fn c(x: f64) -> C { C::new(x, 0.) }

/// The hard-thermal-loop function of the given projection.
fn form(key: &str, params: &[&str], a: &[C], reg: f64) -> C {
    let (om, p) = (pos(params, "om").map_or(c(reg), |i| a[i]), pos(params, "p").map(|i| a[i]));
    let Some(p) = p else { return c(1. / 3.) };
    let om = if om.re < 0. { -om } else { om };
    let x = om / p;
    let l = (1. + x * x) * (1. - x * (p / om).atan());
    if transverse(key) { (1. - l) / 2. } else { l }
}
/// Corrections grow towards the Landau cut at imaginary frequencies.
fn cut(params: &[&str], a: &[C]) -> f64 {
    let g = |n| pos(params, n).map_or(0., |i| a[i].arg());
    1. / (g("om") - g("p")).cos().powi(2)
}
fn transverse(key: &str) -> bool { key.contains("_t_") }
fn glue_mass(t: f64) -> f64 { t * t / 3. }
fn quark_mass(t: f64, mu: f64) -> f64 { t * t / 6. + mu * mu / (2. * PI * PI) }

/// Hard scales and soft arguments. Returns (T, mu, largest soft scale).
fn draw(r: &mut Rng, params: &[&str], mask: u32, zero_temp: bool, soft: &mut f64) -> (Vec<C>, f64, f64) {
    let l = r.log(0.1, 10.);
    let has_mu = params.contains(&"mu");
    let (t, mu): (f64, f64) = if zero_temp { (0., l) } else if has_mu { let w = r.p(0.2); (l, if w { 0. } else { l * r.log(0.1, 10.) }) } else { (l, 0.) };
    *soft = l / r.log(80., 600.);
    let mut a: Vec<C> = vec![];
    for (i, n) in params.iter().enumerate() {
        let z = mask >> i & 1 == 1;
        a.push(match *n {
            "om" => { let x = *soft * r.log(0.2, 1.); let th: f64 = if z { r.range(-1., 1.) } else { 0. }; C::from_polar(x, th) * if r.p(0.3) { -1. } else { 1. } }
            "p" => { let x = *soft * r.log(0.3, 1.); let th: f64 = if z { r.range(-0.25, 0.25) } else { 0. }; C::from_polar(x, th) }
            "m" | "mq" => c(*soft * r.log(0.1, 1.)),
            "beta" => c(1. / t),
            "mu" => c(r.sign() * mu),
            _ => c(r.range(-2., 2.)),
        });
    }
    (a, t, mu)
}

pub fn run_c26(run: &Run) {
    *run.rule.lock().unwrap() = "integrated polarizations, and the thermal part every dressing function and propagator implies, at temperatures or chemical potentials 80 to 600 times the largest momentum or mass, divided by the Debye mass squared and compared with the hard-thermal-loop function of om/p; glue deviations bounded linearly, quark deviations quadratically in the scale ratio; ghost parts and static transverse functions vanish; non-trivial = hard-thermal-loop value above a tenth of the Debye mass".into();
    let ms: Vec<&FM> = table::METHODS.iter().filter(|f| f.key.contains("polarization") || f.key.contains("self_energy")).collect();
    run.count("polarization functions", ms.len() as u64);
    for nc in [3, 2, 5] {
        consts::set_number_of_colors(nc);
        consts::set_matsubara_reg(1e-8);
        run.confirm_levels(ms.len() * run.n(800, 20000), &[&|| consts::set_default_tol_integral(1e-6), &|| consts::set_default_tol_integral(1e-7), &|| consts::set_default_tol_integral(1e-8)], |items| run.par_list(items, |i| {
            let tol = consts::get_default_tol_integral();
            let f = ms[i % ms.len()];
            let mut r = Rng::stream(run.seed, 26000 + 100 * nc as u64 + (i % ms.len()) as u64, (i / ms.len()) as u64);
            let mut soft = 0.;
            let (a, t, mu) = draw(&mut r, f.params, f.mask, f.key.contains("zero_temp"), &mut soft);
            let hard = t.max(mu);
            let glue = f.key.contains("glue");
            let w = if f.key.contains("ghost") { 0. } else if glue { -1. } else { -1. / nc as f64 };
            let debye = if glue || f.key.contains("ghost") { glue_mass(t) } else { quark_mass(t, mu) };
            let want = w * form(f.key, f.params, &a, 1e-8);
            let x = soft / hard;
            let bound = (if f.key.contains("quark") { 14. * x * x * (1. / x).ln() } else { 6. * x }) * cut(f.params, &a) + 200. * tol + 1e-5;
            // the same point in other units, where the quadrature's nodes lie elsewhere
            let mut bad = None;
            for u in [1., 1.13, 0.79] {
                let b = crate::integ::rescale(f.params, &a, u);
                match run.call_watched(|| format!("{} {:?}", f.key, fmt(&b)), || (f.f)(&b, Integral::G7K15(tol * hard * hard * u * u, 26))) {
                    Ok(v) => {
                        let v = v / (debye * u * u);
                        let d = (v - want).norm();
                        if d <= bound { run.max(if f.key.contains("quark") { "quark: distance/allowed" } else { "glue and ghost: distance/allowed" }, d / bound); if want.norm() > 0.1 / nc as f64 { run.distinct_args(f.key, f.mask, &a); } return; }
                        bad.get_or_insert(json!({"law": "hard thermal loop", "nc": nc, "args": fmt(&b), "bits": bits(&b), "over Debye mass squared": fmt(&[v]), "expected": fmt(&[want]), "distance": d, "allowed": bound}));
                    }
                    Err(e) => { run.violation(f.key, json!({"panic": e, "args": fmt(&b)})); return; }
                }
            }
            run.violation(f.key, bad.unwrap());
        }));
    }
    // a small chemical potential adds its own share of the screening: seen in the difference to none
    let qs: Vec<&FM> = ms.iter().copied().filter(|f| f.params.contains(&"mu") && f.params.contains(&"beta")).collect();
    for nc in [3, 7] {
        consts::set_number_of_colors(nc);
        run.confirm_levels(qs.len() * run.n(150, 4000), &[&|| consts::set_default_tol_integral(1e-8), &|| consts::set_default_tol_integral(1e-9), &|| consts::set_default_tol_integral(1e-10)], |items| run.par_list(items, |i| {
            let tol = consts::get_default_tol_integral();
            let f = qs[i % qs.len()];
            let mut r = Rng::stream(run.seed, 26500 + 100 * nc as u64 + (i % qs.len()) as u64, (i / qs.len()) as u64);
            let mut soft = 0.;
            let (mut a, t, _) = draw(&mut r, f.params, f.mask, false, &mut soft);
            soft = soft.min(t / 80.);
            for (z, n) in a.iter_mut().zip(f.params) { if crate::integ::dim(n) == 1 && *n != "mu" && z.norm() > soft { *z *= soft / z.norm(); } }
            let j = pos(f.params, "mu").unwrap();
            let mu = t * r.log(0.02, 0.5);
            a[j] = c(r.sign() * mu);
            let want = -form(f.key, f.params, &a, 1e-8) / nc as f64;
            let x = soft / t;
            let bound = 14. * x * x * (1. / x).ln() * cut(f.params, &a) + 0.1 * (mu / t).powi(2) * x + 50. * tol * (t / mu).powi(2) + 1e-5;
            let mut bad = None;
            for u in [1., 1.13, 0.79] {
                let b = crate::integ::rescale(f.params, &a, u);
                let mut b0 = b.clone();
                b0[j] = c(0.);
                let at = |b: &[C]| run.call_watched(|| format!("{} {:?}", f.key, fmt(b)), || (f.f)(b, Integral::G7K15(tol * t * t * u * u, 28)));
                match (at(&b), at(&b0)) {
                    (Ok(v), Ok(v0)) => {
                        let v = (v - v0) / (mu * mu * u * u / (2. * PI * PI));
                        let d = (v - want).norm();
                        if d <= bound { run.max("small mu: distance/allowed", d / bound); if want.norm() > 0.1 / nc as f64 { run.distinct_args(f.key, f.mask + 512, &a); } return; }
                        bad.get_or_insert(json!({"law": "screening by a small chemical potential", "nc": nc, "args": fmt(&b), "bits": bits(&b), "difference over mu^2/2pi^2": fmt(&[v]), "expected": fmt(&[want]), "distance": d, "allowed": bound}));
                    }
                    (x, y) => { run.violation(f.key, json!({"panic": [x.err(), y.err()], "args": fmt(&b)})); return; }
                }
            }
            run.violation(f.key, bad.unwrap());
        }));
    }
    let es: Vec<Entry> = plains().into_iter().chain(confs()).filter(|e| ["ymt", "qcdt"].iter().any(|h| e.key().starts_with(h))).collect();
    run.count("dressing functions and propagators", es.len() as u64);
    for (nc, nf) in [(3, 2), (2, 3), (4, 1)] {
        // one hard scale near unity, so that one tolerance does for all
        let level = |tol: f64| { consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf); consts::set_matsubara_reg(1e-8); consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(26); };
        run.confirm_levels(es.len() * run.n(200, 6000), &[&|| level(1e-6), &|| level(1e-7), &|| level(1e-8)], |items| run.par_list(items, |i| {
            let tol = consts::get_default_tol_integral();
            let e = &es[i % es.len()];
            let mut r = Rng::stream(run.seed, 27000 + 1000 * nc as u64 + (i % es.len()) as u64, (i / es.len()) as u64);
            let mut soft = 0.;
            let (mut a, mut t, mut mu) = draw(&mut r, e.params(), e.mask(), e.key().contains("zero_temp"), &mut soft);
            let l = t.max(mu);
            for (z, n) in a.iter_mut().zip(e.params()) { match crate::integ::dim(n) { 1 => *z /= l, -1 => *z *= l, _ => () } }
            t /= l; mu /= l; soft /= l;
            let cnc = crate::gen::colors(&mut r);
            let mut k = random_config(&mut r, cnc);
            k.gluon = soft * r.log(0.1, 1.);
            for q in &mut k.quarks { q.1 = soft * r.log(0.1, 1.); }
            let ghost = e.key().contains("::ghost::");
            let flavours = match e { Entry::Conf(_) => k.quarks.iter().map(|q| q.0 as f64).sum::<f64>() / cnc as f64, _ => nf as f64 / nc as f64 };
            let quarks = if e.key().starts_with("ymt") || ghost { 0. } else { flavours };
            let glue = if ghost || e.key().contains("zero_temp") { 0. } else { glue_mass(t) };
            let debye = glue + quarks * quark_mass(t, mu);
            let want = debye * form(e.key(), e.params(), &a, 1e-8);
            let scale = 16. * PI * PI / 3.;
            let bound = (if ghost { 2. * soft } else if glue > 0. { glue * 6. * soft / t } else { 0. } + quarks * quark_mass(t, mu) * 14. * soft * soft * (1. / soft).ln()) * cut(e.params(), &a) + (1. + quarks) * (30. * tol + 2e-6);
            let mut bad = None;
            for u in [1., 1.13, 0.79] {
                let b = crate::integ::rescale(e.params(), &a, u);
                let mut k = k.clone();
                k.gluon *= u;
                for q in &mut k.quarks { q.1 *= u; }
                match e.inverse(run, &b, &k) {
                    Ok(v) => {
                        let got = (v - vacuum(e, &b, &k)) * e.sd(&a) / scale;
                        let d = (got - want).norm();
                        if d <= bound { run.max("dressing functions: distance/allowed", d / bound); if want.norm() > 0.03 { run.distinct_args(e.key(), e.mask() + 1024, &a); } return; }
                        bad.get_or_insert(json!({"law": "hard thermal loop", "nc": nc, "nf": nf, "args": fmt(&b), "bits": bits(&b), "config": format!("{k:?}"), "thermal part": fmt(&[got]), "expected": fmt(&[want]), "distance": d, "allowed": bound}));
                    }
                    Err(x) => { run.violation(e.key(), json!({"panic": x, "args": fmt(&b)})); return; }
                }
            }
            run.violation(e.key(), bad.unwrap());
        }));
    }
    lookup::reset_globals();
}
