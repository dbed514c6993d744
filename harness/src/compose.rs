//! C05: thermal dressing functions and propagators as compositions of the vacuum
//! and the thermal parts.
use crate::integ::iargs;
use crate::lookup::{self, pos};
use crate::reference;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table, FC};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{consts, C};
use serde_json::json;
use std::sync::Mutex;

const PF: f64 = 16. * std::f64::consts::PI * std::f64::consts::PI / 3.;

/// What one thermal dressing function or propagator is made of.
pub struct Spec { part: &'static str, ghost: bool, l: bool, inv: bool, prop: bool, zero_temp: bool, quarks: bool }
pub fn spec(key: &str) -> Option<Spec> {
    let (head, name) = key.split_once("::")?;
    let part = match head { "ymt" | "qcdt" => "th", "ymt_zf" | "qcdt_zf" => "zf", "ymt_zm" | "qcdt_zm" => "zm", _ => return None };
    if name.starts_with("quark::") { return None; }
    let ghost = name.starts_with("ghost");
    Some(Spec {
        part, ghost, l: name.contains("_l_"), inv: name.contains("_inv_"), prop: name.contains("propagator"),
        zero_temp: name.contains("zero_temp"), quarks: head.starts_with("qcdt") && !ghost,
    })
}

fn c(x: f64) -> C { C::new(x, 0.) }

/// Squared momentum of a call.
pub fn sdim(params: &[&str], a: &[C]) -> C {
    let g = |n| pos(params, n).map_or(c(0.), |i| a[i]);
    g("om") * g("om") + g("p") * g("p")
}

/// One thermal part, by the default method.
fn part(s: &Spec, what: &str, head: &[C], mask: u32, tail: &[f64]) -> C {
    let lt = if s.l { "l" } else { "t" };
    let zt = if s.zero_temp && what == "quark" { "_zero_temp" } else { "" };
    let key = if what == "ghost" { format!("{}::ghost::self_energy_thermal_part_landau", s.part) }
        else { format!("{}::gluon::polarization_{what}_{lt}_thermal_part{zt}_landau", s.part) };
    let mut a = head.to_vec();
    a.extend(tail.iter().map(|x| c(*x)));
    lookup::call(&key, mask & 3 & if s.part == "th" { 3 } else { 1 }, &a)
}

/// Expected inverse dressing function, its error budget and the size of its terms.
/// `quarks`: (multiplicity over nc, multiplicity, mass).
pub fn inverse(s: &Spec, params: &[&str], mask: u32, a: &[C], m: f64, quarks: &[(f64, f64, f64)]) -> (C, f64, f64, bool) {
    let g = |n| pos(params, n).map(|i| a[i]);
    let sd = sdim(params, a);
    let head: Vec<C> = ["om", "p"].iter().filter_map(|n| g(n)).collect();
    let beta = g("beta").map_or(0., |b| b.re);
    let mu = g("mu").map_or(0., |b| b.re);
    let sm = sd / (m * m);
    let f0 = g("f0").or(g("g0")).unwrap();
    let v = reference::eval_key(if s.ghost { "ghost::g" } else { "gluon::f" }, &[sm]);
    let (mut inv, mut err, mut size, mut amb) = (v.v + f0, v.err + 1e-15 * f0.norm(), v.v.norm() + f0.norm(), v.ambiguous);
    for &(r, _, mq) in quarks {
        if r == 0. {
            // zero times an overflowing quark function decides nothing
            if (sd / (mq * mq)).norm() > 1e12 { amb = true; }
            continue;
        }
        let q = reference::eval_key("gluon::f_q", &[sd / (mq * mq)]);
        inv += q.v * r; err += q.err * r; size += (q.v * r).norm(); amb |= q.ambiguous;
    }
    // s/m^2 is rounded before it enters: the vacuum functions are smooth, size 1e-15 relative per factor
    let mut add = |x: C, err: &mut f64| { inv += x; size += x.norm(); *err += 1e-13 * x.norm(); };
    if s.ghost {
        add(part(s, "ghost", &head, mask, &[m, beta]) * PF / sd, &mut err);
    } else {
        if !s.zero_temp { add(-part(s, "glue", &head, mask, &[m, beta]) * PF / sd, &mut err); }
        for &(_, n, mq) in quarks {
            if n == 0. { continue; }
            let t: Vec<f64> = if s.zero_temp { vec![mq, mu] } else { vec![mq, beta, mu] };
            add(-part(s, "quark", &head, mask, &t) * PF / sd * n, &mut err);
        }
    }
    (inv, err, size, amb)
}

/// Inverse dressing function implied by a returned value.
pub fn implied(s: &Spec, got: C, sd: C) -> C {
    if s.inv { got } else if s.prop { C::new(1., 0.) / (got * sd) } else { C::new(1., 0.) / got }
}

pub fn random_config(r: &mut Rng, nc: u32) -> FieldConfig {
    let gluon = if r.p(0.3) { *r.pick(&[0.656, 1., 0.5, 2.]) } else { r.log(0.3, 3.) };
    let mut quarks = vec![];
    let len = if r.p(0.05) { 5 + r.below(12) } else { [0, 1, 1, 2, 2, 3, 4][r.below(7)] };
    for _ in 0..len {
        let mq = match r.below(7) {
            0 => gluon,
            // nearly degenerate flavours
            2 if !quarks.is_empty() => { let (_, m): &(u32, f64) = r.pick(&quarks); *m * (1. + r.sign() * r.log(1e-12, 0.1)) }
            1 if !quarks.is_empty() => { let (_, m): &(u32, f64) = r.pick(&quarks); *m }
            _ if r.p(0.06) => gluon * r.log(1e-2, 5.),
            _ => r.log(0.05, 4.),
        };
        quarks.push((if r.p(0.03) { if r.p(0.3) { r.log(100., 1e6) as u32 } else { r.log(6., 100.) as u32 } } else { *r.pick(&[0u32, 1, 1, 1, 2, 2, 3, 5]) }, mq));
    }
    FieldConfig::new(nc, gluon, quarks)
}

enum Entry { Plain(&'static crate::F), Conf(&'static FC) }
impl Entry {
    fn key(&self) -> &'static str { match self { Entry::Plain(f) => f.key, Entry::Conf(f) => f.key } }
    fn params(&self) -> &'static [&'static str] { match self { Entry::Plain(f) => f.params, Entry::Conf(f) => f.params } }
    fn mask(&self) -> u32 { match self { Entry::Plain(f) => f.mask, Entry::Conf(f) => f.mask } }
}

fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = table::FUNS.iter().filter(|f| spec(f.key).is_some()).map(Entry::Plain).collect();
    v.extend(table::CONFIGS.iter().filter(|f| spec(f.key).is_some()).map(Entry::Conf));
    v
}

/// (deviation, tolerance) of one call, or None if it does not decide anything.
fn deviation(run: &Run, e: &Entry, a: &[C], conf: &Option<FieldConfig>, rel: f64) -> Result<Option<(f64, f64, C, C)>, String> {
    let s = spec(e.key()).unwrap();
    let (nc, nf) = (consts::get_number_of_colors() as f64, consts::get_number_of_fermions() as f64);
    let (m, quarks): (f64, Vec<(f64, f64, f64)>) = match conf {
        Some(k) => (k.gluon, k.quarks.iter().map(|q| (q.0 as f64 / k.nc as f64, q.0 as f64, q.1)).collect()),
        None => {
            let m = a[pos(e.params(), "m").unwrap()].re;
            (m, if s.quarks { vec![(nf / nc, nf, a[pos(e.params(), "mq").unwrap()].re)] } else { vec![] })
        }
    };
    let got = run.call_watched(|| format!("{} {:?}", e.key(), fmt(a)), || match e {
        Entry::Plain(f) => (f.f)(a),
        Entry::Conf(f) => (f.f)(a, conf.as_ref().unwrap()),
    })?;
    let (inv, err, size, amb) = inverse(&s, e.params(), e.mask(), a, m, &quarks);
    let sd = sdim(e.params(), a);
    let imp = implied(&s, got, sd);
    if amb { return Ok(None); }
    if !inv.re.is_finite() || !inv.im.is_finite() || !err.is_finite() || err > 1e-6 * size || size > 1e100 || sd.norm() < 1e-100 { return Ok(None); }
    // a nearly vanishing inverse is lost in the reciprocal
    let d = (imp - inv).norm();
    Ok(Some((d, 64. * err + rel * size, got, inv)))
}

pub fn run_c05(run: &Run) {
    *run.rule.lock().unwrap() = "every thermal dressing function and propagator, plain and with random field configurations, under nine (Nc, Nf) settings and four quadrature settings; the inverse dressing function implied by the returned value is compared with reference vacuum part + prefactor times the observed thermal parts; non-trivial = all terms finite and the vacuum part known to 1e-6".into();
    let es = entries();
    run.count("functions", es.len() as u64);
    let per = run.n(200, 4000);
    let suspects: Mutex<Vec<(usize, Vec<C>, Option<FieldConfig>, u32, u32, serde_json::Value)>> = Mutex::new(vec![]);
    for (j, &(nc, nf)) in [(3, 1), (3, 2), (2, 3), (4, 1), (5, 0), (3, 6), (1, 1), (8, 2), (12, 4), (3, 70_001), (100_003, 300), (2, 20_000_003)].iter().enumerate() {
        let (tol, it) = [(1e-3, 6), (1e-4, 8), (1e-2, 4), (1e-5, 7)][j % 4];
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf);
        consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(it);
        run.par(es.len() * per, |i| {
            let e = &es[i % es.len()];
            let mut r = Rng::stream(run.seed, 5000 + j as u64 * 1000 + (i % es.len()) as u64, (i / es.len()) as u64);
            reference::set_ctx(nc, nf);
            let mut a = if r.p(0.6) { iargs(&mut r, e.params(), e.mask()) } else { gen::args(&mut r, e.key(), e.params(), e.mask()) };
            for (k, p) in e.params().iter().enumerate() {
                if (*p == "m" || *p == "mq") && a[k].re < 1e-12 { a[k] = c(0.7); }
                // imaginary frequencies are on the cut
                if *p == "om" && a[k].re.abs() < 0.01 * a[k].norm() { a[k].re = r.sign() * 0.01 * a[k].norm(); }
                if *p == "mu" && r.p(0.3) { a[k] = C::new(r.sign() * r.log(0.05, 8.), 0.); }
            }
            let conf = matches!(e, Entry::Conf(_)).then(|| {
                let mut k = random_config(&mut r, nc);
                for q in &mut k.quarks { if r.p(0.1) { q.1 = k.gluon * r.log(1e-2, 1e3); } }
                k
            });
            match deviation(run, e, &a, &conf, 1e-11) {
                Ok(None) => run.count("undecided", 1),
                Ok(Some((d, tol, got, inv))) => {
                    if d > tol || d.is_nan() {
                        suspects.lock().unwrap().push((i % es.len(), a.clone(), conf.clone(), nc, nf, json!({
                            "mask": e.mask(), "params": e.params(), "args": fmt(&a), "bits": bits(&a), "config": conf.as_ref().map(|c| format!("{c:?}")), "nc": nc, "nf": nf,
                            "got": fmt(&[got]), "inverse_expected": fmt(&[inv]), "deviation_of_inverse": d, "tolerance": tol})));
                    } else {
                        run.max(&format!("deviation/tolerance {}", if conf.is_some() { "FieldConfig" } else { "plain" }), d / tol);
                        run.distinct_args(e.key(), e.mask(), &a);
                        if i % 211 == 0 { run.sample(|| json!({"fn": e.key(), "args": fmt(&a), "got": fmt(&[got]), "inverse_expected": fmt(&[inv])})); }
                    }
                }
                Err(x) => run.violation(e.key(), json!({"panic": x, "args": fmt(&a), "bits": bits(&a), "config": conf.map(|c| format!("{c:?}"))})),
            }
        });
    }
    // Suspects are judged again with an accurate default method: an implementation that
    // integrates the same thing differently agrees there.
    consts::set_default_tol_integral(1e-9); consts::set_default_max_iter_integral(26);
    let sus = suspects.into_inner().unwrap();
    run.count("suspects", sus.len() as u64);
    for (k, (ei, a, conf, nc, nf, v)) in sus.into_iter().enumerate() {
        if k > 400 || run.stopped() { break; }
        let e = &es[ei];
        consts::set_number_of_colors(nc); consts::set_number_of_fermions(nf);
        reference::set_ctx(nc, nf);
        match deviation(run, e, &a, &conf, 1e-7) {
            Ok(Some((d, tol, ..))) if d > tol + 1e-6 || d.is_nan() => run.violation(e.key(), v),
            Ok(_) => run.count("suspects_cleared", 1),
            Err(x) => run.violation(e.key(), json!({"panic": x, "call": v})),
        }
    }
    lookup::reset_globals();
}
