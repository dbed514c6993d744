//! C01, C02, C03, C16(values): every call shadowed by the reference model.
use crate::reference::{self, Val};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table, F};
use qcd_sme::C;
use serde_json::json;

/// Error budgets are multiplied by this before a deviation is called wrong.
pub const K: f64 = 64.;

pub enum Judge { Ok, Skip, Bad(f64, f64) }

/// Compares a computed value with a reference value.
pub fn judge(got: C, r: &Val, run: &Run) -> Judge {
    if r.ambiguous || r.extreme || !r.err.is_finite() || !r.v.re.is_finite() || !r.v.im.is_finite() { return Judge::Skip; }
    let mag = r.v.re.abs() + r.v.im.abs();
    if mag > 1e140 || (mag != 0. && mag < 1e-140) { return Judge::Skip; }
    let d = (got.re - r.v.re).abs() + (got.im - r.v.im).abs();
    let tol = K * r.err + 1e-300;
    if d.is_nan() || d > tol { return Judge::Bad(d, tol); }
    if r.err > 0. { run.max("deviation_over_error_budget", d / r.err); }
    if tol > 1e-3 * mag { Judge::Skip } else { Judge::Ok }
}

pub fn check_fun(run: &Run, f: &F, a: &[C], idx: i32) {
    let r = reference::eval_cold(idx, a, f.params, f.mask);
    if r.ambiguous || r.extreme { run.count("skipped_ambiguous", 1); return; }
    let got = match run.call(|| f.key.into(), || (f.f)(a)) {
        Ok(g) => g,
        Err(e) => { run.violation(f.key, json!({"panic": e, "mask": f.mask, "args": fmt(a), "bits": bits(a)})); return; }
    };
    // a real-valued function outside its domain is NaN
    if !f.ret_c && r.v.im != 0. {
        if r.v.im.abs() > K * r.err + 1e-300 && !got.re.is_nan() && f.mask == 0 {
            run.violation(f.key, json!({"mask": f.mask, "args": fmt(a), "bits": bits(a), "got": fmt(&[got]), "want": "NaN"}));
        }
        return;
    }
    match judge(got, &r, run) {
        Judge::Ok => {
            run.distinct_args(f.key, f.mask, a);
            if run.evals.load(std::sync::atomic::Ordering::Relaxed) % 997 == 1 {
                run.sample(|| json!({"fn": f.key, "mask": f.mask, "args": fmt(a), "got": fmt(&[got]), "reference": fmt(&[r.v]), "budget": r.err}));
            }
        }
        Judge::Skip => run.count("unsharp", 1),
        Judge::Bad(d, tol) => run.violation(f.key, json!({
            "mask": f.mask, "params": f.params, "args": fmt(a), "bits": bits(a), "got": fmt(&[got]),
            "want": fmt(&[r.v]), "deviation": d, "tolerance": tol})),
    }
}

pub fn shadow(run: &Run, select: impl Fn(&str) -> bool + Sync, per_fn: usize) {
    let fs: Vec<(&F, i32)> = table::FUNS.iter().filter(|f| select(f.key)).filter_map(|f| reference::index(f.key).map(|i| (f, i))).collect();
    let missing: Vec<_> = table::FUNS.iter().filter(|f| select(f.key) && reference::index(f.key).is_none()).map(|f| f.key).collect();
    assert!(missing.is_empty(), "no reference for {missing:?}");
    run.count("functions", fs.len() as u64);
    let chunk = 50;
    let chunks = per_fn.div_ceil(chunk);
    // round robin so that a time cut-off hits all functions equally
    run.par(fs.len() * chunks, |i| {
        let (f, idx) = fs[i % fs.len()];
        let mut r = Rng::stream(run.seed, 1 + (i % fs.len()) as u64, (i / fs.len()) as u64);
        reference::set_ctx(qcd_sme::consts::get_number_of_colors(), qcd_sme::consts::get_number_of_fermions());
        for _ in 0..chunk {
            let a = gen::args(&mut r, f.key, f.params, f.mask);
            check_fun(run, f, &a, idx);
            if run.stopped() { return; }
        }
    });
}

/// nc, nf settings the quark functions are monitored under.
pub const COLORS: &[(u32, u32)] = &[(3, 1), (2, 2), (1, 0), (5, 3), (3, 6), (12, 1), (97, 40), (30000, 5)];

pub fn run_c01(run: &Run) {
    *run.rule.lock().unwrap() = "random arguments by parameter name over many scales; non-trivial = the reference value is known to better than 1e-3 relative after the 64x rounding budget".into();
    let sel = |k: &str| k.starts_with("gluon::") || k.starts_with("ghost::") || k.starts_with("ym::") || k.starts_with("qcd::");
    for (j, &(nc, nf)) in COLORS.iter().enumerate() {
        qcd_sme::consts::set_number_of_colors(nc);
        qcd_sme::consts::set_number_of_fermions(nf);
        shadow(run, |k| if j == 0 { sel(k) } else { k.starts_with("qcd::") }, if j == 0 { run.n(30000, 600000) } else { run.n(4000, 100000) });
    }
    qcd_sme::consts::set_number_of_colors(3);
    qcd_sme::consts::set_number_of_fermions(1);
    crate::field::run_c01_conf(run);
}
pub fn run_c02(run: &Run) {
    let sel = |k: &str| (k.starts_with("th::") || k.starts_with("zf::") || k.starts_with("zm::")) && !k.contains("::ghost::") && !k.contains("::gluon::");
    shadow(run, sel, run.n(30000, 600000));
}
pub fn run_c03(run: &Run) {
    let sel = |k: &str| k.contains("thermal_part") && k.ends_with("_i");
    for (j, &(nc, nf)) in COLORS.iter().enumerate() {
        qcd_sme::consts::set_number_of_colors(nc);
        qcd_sme::consts::set_number_of_fermions(nf);
        shadow(run, |k| sel(k) && (j == 0 || k.contains("quark")), run.n(30000, 600000));
    }
    qcd_sme::consts::set_number_of_colors(3);
    qcd_sme::consts::set_number_of_fermions(1);
}
