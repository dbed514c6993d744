//! C22: what the phase-diagram program has to compute for a configuration, through the
//! library's public functions.
use qcd_sme::qcd::thermal::gluon::{propagator_l_landau_w_field_config as pl, propagator_l_zero_temp_landau_w_field_config as pl0, propagator_t_landau_w_field_config as pt, propagator_t_zero_temp_landau_w_field_config as pt0};
use qcd_sme::qcd::FieldConfig;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

fn grid(v: &Value) -> Vec<f64> {
    let g = |i: usize| v[i].as_f64().unwrap();
    let n = ((g(1) - g(0)) / g(2)).round() as usize;
    (0..=n).map(|k| g(0) + g(2) * k as f64).collect()
}
#[derive(Clone)]
struct Side { k: FieldConfig, f0: f64 }
struct Phys { m: f64, om: f64, ren: f64, sides: [Side; 2] }
impl Phys {
    fn prop(&self, trans: bool, side: usize, p: f64, mu: f64, t: f64) -> f64 {
        let s = &self.sides[side];
        let f = |q: f64| if t == 0. { if trans { pt0(self.om, q, mu, s.f0, &s.k) } else { pl0(self.om, q, mu, s.f0, &s.k) } } else { let b = 1. / (t * self.m); if trans { pt(self.om, q, b, mu, s.f0, &s.k) } else { pl(self.om, q, b, mu, s.f0, &s.k) } }.re;
        f(p * self.m) * self.m * self.m / (f(self.ren) * self.ren * self.ren)
    }
}
/// Which phase a point belongs to: Some(deconfined), None on the boundary to rounding.
/// A point on the boundary is confined; that it is on the boundary is only certain for
/// coordinates that come from the grids the boundary was made of.
fn phase(pb: &[(f64, f64)], mu: f64, t: f64, exact_mu: bool, exact_t: bool) -> Option<bool> {
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * (a.abs() + b.abs());
    let strict = |a: f64, b: f64, exact: bool| if exact && a == b { Some(false) } else if near(a, b) { None } else { Some(a > b) };
    let last = pb.last().unwrap();
    if t == 0. { return strict(mu, last.0, exact_mu); }
    if near(mu, last.0) && !(exact_mu && mu == last.0) { return if t > last.1 && !near(t, last.1) { Some(true) } else { None }; }
    if mu == last.0 { return strict(t, last.1, exact_t); }
    if mu > last.0 { return Some(true); }
    for w in pb.windows(2) {
        if mu >= w[0].0 && mu <= w[1].0 {
            if mu == w[0].0 { return strict(t, w[0].1, exact_mu && exact_t); }
            if mu == w[1].0 { return strict(t, w[1].1, exact_mu && exact_t); }
            let tc = w[0].1 + (w[1].1 - w[0].1) * ((mu - w[0].0) / (w[1].0 - w[0].0));
            // between two equal temperatures the interpolation may round either way
            return if near(t, tc) { None } else { Some(t > tc) };
        }
    }
    None
}
fn par<T: Send + Clone>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![None; n]);
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop { let i = next.fetch_add(1, Relaxed); if i >= n { break; } let v = f(i); out.lock().unwrap()[i] = Some(v); }); });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

pub fn oracle() {
    let c: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let g = |k: &str| c[k].as_f64().unwrap();
    let tri = |k: &str, i: usize| c[k][i].as_f64().unwrap();
    let (m, f0i) = (g("mg"), g("f0"));
    let ln = |a: f64, b: f64| (a / b).ln() * 4. / 27.;
    let k = FieldConfig::new(3, m, vec![(2, tri("mq", 0)), (1, tri("mq", 1))]);
    let kc = FieldConfig::new(3, m, vec![(2, tri("mqc", 0)), (1, tri("mqc", 1))]);
    // the program's convention for f0 differs from the library's by the logarithms of the quark masses
    let f0 = f0i + 2. * ln(m, tri("mq", 0)) + ln(m, tri("mq", 1));
    let f0c = f0 + 2. * ln(tri("mq", 0), tri("mqc", 0)) + ln(tri("mq", 1), tri("mqc", 1));
    let ph = Phys { m, om: g("om"), ren: g("renpoint"), sides: [Side { k, f0 }, Side { k: kc, f0: f0c }] };
    let pbase = tri("momenta", 0);
    let (many_t, many_mu) = (grid(&c["manytemps"]), grid(&c["manychempots"]));
    // infrared propagator over temperatures and chemical potentials
    let ir = |ts: &[f64], mus: &[f64], side: usize| -> Vec<Vec<f64>> {
        let v = par(ts.len() * mus.len(), |i| ph.prop(false, side, pbase, mus[i / ts.len()], ts[i % ts.len()]));
        v.chunks(ts.len()).map(|c| c.to_vec()).collect()
    };
    // temperatures that maximize, to rounding
    let best = |v: &[f64]| -> Vec<f64> { let b = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max); v.iter().zip(&many_t).filter(|(x, _)| **x >= b - 1e-9 * b.abs()).map(|(_, t)| *t).collect() };
    let a0 = ir(&many_t, &many_mu, 0);
    let tcs: Vec<Vec<f64>> = a0.iter().map(|v| best(v)).collect();
    let mut o = BTreeMap::new();
    let finite = a0.iter().flatten().all(|x| x.is_finite());
    if !finite || tcs.iter().any(|t| t.len() != 1) || tcs[0][0] == 0. || many_mu.len() < 5 || tcs.iter().take_while(|t| t[0] != 0.).count() < 10 { println!("{}", json!({"valid": false, "why": format!("finite {finite}, tcs {tcs:?}")})); return; }
    let pb: Vec<(f64, f64)> = many_mu.iter().zip(&tcs).map(|(m, t)| (*m, t[0])).take_while(|(_, t)| *t != 0.).collect();
    o.insert("tc", json!([many_mu, tcs.iter().map(|t| t[0]).collect::<Vec<_>>()]));
    o.insert("boundary", json!(pb));
    let a1 = ir(&many_t, &many_mu, 1);
    // corrected run: the masses of the phase each point belongs to
    let mut corr = vec![];
    for (i, mu) in many_mu.iter().enumerate() {
        let mut v = vec![];
        let mut sure = true;
        for (j, t) in many_t.iter().enumerate() { match phase(&pb, *mu, *t, true, true) { Some(d) => v.push(if d { a1[i][j] } else { a0[i][j] }), None => { sure = false; v.push(a0[i][j]) } } }
        let b = best(&v);
        corr.push(if sure && v.iter().all(|x| x.is_finite()) { json!(b) } else { Value::Null });
    }
    o.insert("tc_corrected", json!([many_mu, corr]));
    // the boundary fitted by nine parameters
    let fit = std::panic::catch_unwind(|| tc_long_prop::parametrize_phase_boundary(&pb, 8, None));
    // how far rounding of the boundary moves an ill-conditioned fit
    let pol = |f: &[f64], x: f64| f.iter().rev().fold(0., |a, c| a * x + c);
    let mut spread = 0f64;
    if let Ok(f) = &fit {
        let mut r = crate::rng::Rng::stream(1, 2299, pb.len() as u64);
        for _ in 0..8 {
            let near: Vec<(f64, f64)> = pb.iter().map(|&(m, t)| (m * (1. + r.sign() * 2. * f64::EPSILON), t * (1. + r.sign() * 2. * f64::EPSILON))).collect();
            if let Ok(g) = std::panic::catch_unwind(|| tc_long_prop::parametrize_phase_boundary(&near, 8, None)) {
                for &(m, _) in &pb { spread = spread.max((pol(f, m) - pol(&g, m)).abs()); }
            }
        }
    }
    o.insert("fit_spread", json!(spread));
    o.insert("fit", json!(fit.ok()));
    let (mt, mm) = (grid(&c["moretemps"]), grid(&c["morechempots"]));
    o.insert("ir", json!([mt, mm, ir(&mt, &mm, 0)]));
    let (ft, fm, ps) = (grid(&c["fewtemps"]), grid(&c["fewchempots"]), grid(&c["momenta"]));
    let n = ft.len() * fm.len() * ps.len();
    let mut files = vec![];
    for trans in [false, true] {
        let both: Vec<Vec<f64>> = (0..2).map(|s| par(n, |i| { let (a, p) = (i / ps.len(), ps[i % ps.len()]); ph.prop(trans, s, p, fm[a / ft.len()], ft[a % ft.len()]) })).collect();
        for (a, mu) in fm.iter().enumerate() { for (b, t) in ft.iter().enumerate() {
            let at = (a * ft.len() + b) * ps.len();
            let col = |s: usize| &both[s][at..at + ps.len()];
            files.push(json!({"corrected": false, "trans": trans, "mu": mu, "t": t, "values": [col(0)]}));
            let same = |x: &str, y: &str, k: usize| c[x] == c[y] || (k == 0 && c[x][0] == c[y][0]);
            let d = phase(&pb, *mu, *t, same("fewchempots", "manychempots", a), same("fewtemps", "manytemps", b));
            files.push(json!({"corrected": true, "trans": trans, "mu": mu, "t": t, "deconfined": d, "values": match d { Some(false) => vec![col(0)], Some(true) => vec![col(1)], None => vec![col(0), col(1)] }}));
        } }
    }
    o.insert("momenta", json!(ps));
    o.insert("files", json!(files));
    o.insert("valid", json!(true));
    println!("{}", json!(o));
}

/// C27: what the two survey programs have to plot and tabulate, at sampled momenta.
pub fn survey_oracle() {
    use qcd_sme::qcd::thermal::gluon as q1;
    use qcd_sme::{consts::set_number_of_fermions, ym};
    let c: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let two = c["two"].as_bool().unwrap();
    let picks: Vec<usize> = c["picks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let (m, f0, om, ren) = (0.656f64, -0.876f64, 1e-5f64, 4f64);
    let ps: Vec<f64> = (0..300).map(|k| 0.01 + 0.01 * k as f64).collect();
    let fine: Vec<f64> = std::iter::once(0.).chain((0..39).map(|k| 0.01 + 0.005 * k as f64)).collect();
    let few = [0., 0.05, 0.08, 0.12, 0.15, 0.18, 0.21];
    let mus: Vec<f64> = if two { vec![0., 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1., 1.1, 1.2] } else { vec![0., 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.] };
    let masses: Vec<Vec<f64>> = if two { vec![vec![0.3, 0.4], vec![0.3, 0.6], vec![0.8, 1.], vec![0.3, 1.]] } else { vec![vec![0.08], vec![0.4], vec![0.8]] };
    let nfs: &[u32] = if two { &[1, 4] } else { &[1, 2, 4, 6] };
    // m^2 times the propagator, normalized at the renormalization point
    let value = |p: f64, t: f64, mu: f64, nf: u32, ms: &[f64]| -> f64 {
        let b = 1. / (t * m);
        let d = |q: f64| -> f64 {
            if nf == 0 { if t == 0. { ym::gluon::propagator_landau((om * om + q * q) / (m * m), f0) } else { ym::thermal::gluon::propagator_l_landau(om, q, m, b, f0).re } }
            else if two { let k = FieldConfig::new(3, m, ms.iter().map(|x| (nf, *x)).collect()); if t == 0. { pl0(om, q, mu, f0, &k).re } else { pl(om, q, b, mu, f0, &k).re } }
            else if t == 0. { q1::propagator_l_zero_temp_landau(om, q, m, ms[0], mu, f0).re } else { q1::propagator_l_landau(om, q, m, ms[0], b, mu, f0).re }
        };
        d(p * m) / d(ren) * m * m / (ren * ren)
    };
    let label = |ms: &[f64]| if two { format!("mq1_{:.3}_mq2_{:.3}", ms[0], ms[1]) } else { format!("mq_{:.3}", ms[0]) };
    let mut plots = BTreeMap::new();
    let mut table = vec![];
    let scan = |plots: &mut BTreeMap<String, Value>, name: String, mu: f64, nf: u32, ms: &[f64]| {
        // other momenta in every plot
        let shift = 37 * plots.len();
        let mut picks: Vec<usize> = picks.iter().map(|k| if *k < 2 || *k >= 298 { *k } else { 2 + (*k - 2 + shift) % 296 }).collect();
        picks.sort_unstable();
        let v = par(few.len() * picks.len(), |i| value(ps[picks[i % picks.len()]], few[i / picks.len()], mu, nf, ms));
        plots.insert(name, json!({"x": ps, "picks": picks, "y": v.chunks(picks.len()).collect::<Vec<_>>()}));
    };
    let infrared = |mus: &[f64], nf: u32, ms: &[f64]| -> Vec<Vec<f64>> { let v = par(mus.len() * fine.len(), |i| value(ps[0], fine[i % fine.len()], mus[i / fine.len()], nf, ms)); v.chunks(fine.len()).map(|c| c.to_vec()).collect() };
    let best = |v: &[f64]| -> Vec<f64> { let b = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max); v.iter().zip(&fine).filter(|(x, _)| **x >= b - 1e-9 * b.abs()).map(|(_, t)| *t).collect() };
    let all: Vec<usize> = (0..fine.len()).collect();
    let na = if two { "mq1_NA_mq2_NA" } else { "mq_NA" };
    scan(&mut plots, format!("nf_0_{na}_mu_NA.png"), 0., 0, &[]);
    let v = infrared(&[0.], 0, &[]);
    plots.insert(format!("ir_nf_0_{na}.png"), json!({"x": fine, "picks": all, "y": v}));
    table.push(json!([vec![0.; if two { 4 } else { 3 }], best(&v[0])]));
    for nf in nfs {
        set_number_of_fermions(*nf);
        for ms in &masses { for mu in &mus { scan(&mut plots, format!("nf_{nf}_{}_mu_{mu:.3}.png", label(ms)), *mu, *nf, ms); } }
        for ms in &masses {
            let v = infrared(&mus, *nf, ms);
            let tcs: Vec<Vec<f64>> = v.iter().map(|v| best(v)).collect();
            for (mu, tc) in mus.iter().zip(&tcs) { let mut h = vec![*nf as f64]; h.extend(ms); h.push(*mu); table.push(json!([h, tc])); }
            plots.insert(format!("ir_nf_{nf}_{}.png", label(ms)), json!({"x": fine, "picks": all, "y": v}));
            plots.insert(format!("tc_nf_{nf}_{}.png", label(ms)), json!({"x": mus, "picks": (0..mus.len()).collect::<Vec<_>>(), "y": [tcs.iter().map(|t| t[0]).collect::<Vec<_>>()], "sure": tcs.iter().all(|t| t.len() == 1)}));
        }
    }
    println!("{}", json!({"plots": plots, "table": table}));
}
