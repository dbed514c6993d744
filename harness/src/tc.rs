//! C20: critical temperature and boundary extraction.  C21: phase classification.
use crate::rng::Rng;
use crate::run::Run;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tc_long_prop::{find_critical_temperature, is_deconfined_phase, parametrize_phase_boundary, reduce_phase_boundary};

/// A boundary with increasing chemical potentials and non-increasing temperatures,
/// on a dyadic grid if `exact`; optionally followed by zeros and leftovers.
fn boundary(r: &mut Rng, exact: bool, tail: bool) -> Vec<(f64, f64)> {
    let n = 1 + match r.below(16) { 0..=3 => r.below(3), 4 => r.log(40., 2000.) as usize, 5 => r.below(300), _ => r.below(40) };
    // of the expected shape, or rising here and there
    let wild = r.p(0.15);
    let q = if exact { 2f64.powi(r.below(8) as i32 - 6) } else { 1. };
    let mut mu = if r.p(0.6) { 0. } else if exact { q * r.below(5) as f64 } else { r.range(0., 1.) };
    let mut t = if exact { q * (1 + r.below(400)) as f64 } else { r.log(1e-2, 10.) };
    let mut v = vec![];
    for _ in 0..n {
        v.push((mu, t));
        mu += if exact { q * 2f64.powi(r.below(4) as i32) } else { r.log(1e-3, 1.) };
        if !r.p(0.3) { t -= if exact { q * r.below(8) as f64 } else { t * r.f() * if n > 100 { 8. / n as f64 } else { 0.5 } } * if wild && r.p(0.4) { -1. } else { 1. }; }
        if t <= 0. { t = if exact { q } else { 1e-3 }; if v.len() > 1 && v[v.len() - 1].1 < t { t = v[v.len() - 1].1; } }
    }
    if tail {
        let z = 1 + r.below(3);
        for k in 0..z + r.below(5) { v.push((mu, if k == 0 { 0. } else if k < z { 0. } else { r.range(0., 1.) })); mu += q; }
    }
    v
}

/// Interpolated critical temperature, and whether the arithmetic was exact.
fn tc_at(pb: &[(f64, f64)], mu: f64) -> Option<f64> {
    let i = pb.iter().position(|p| p.0 >= mu)?;
    if pb[i].0 == mu { return Some(pb[i].1); }
    let ((m0, t0), (m1, t1)) = (pb[i - 1], pb[i]);
    let x = (mu - m0) / (m1 - m0);
    Some(t0 * (1. - x) + t1 * x)
}

/// Values of the least-squares polynomial at the points.
fn least_squares(pb: &[(f64, f64)], deg: usize) -> Vec<f64> {
    let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    let mut basis: Vec<Vec<f64>> = vec![];
    for k in 0..=deg {
        let mut v: Vec<f64> = match k { 0 => vec![1.; pb.len()], _ => basis[k - 1].iter().zip(pb).map(|(b, p)| b * p.0).collect() };
        for _ in 0..2 { for b in &basis { let c = dot(&v, b); v.iter_mut().zip(b).for_each(|(x, y)| *x -= c * y); } }
        let n = dot(&v, &v).sqrt();
        v.iter_mut().for_each(|x| *x /= n);
        basis.push(v);
    }
    let y: Vec<f64> = pb.iter().map(|p| p.1).collect();
    let mut out = vec![0.; pb.len()];
    for b in &basis { let c = dot(&y, b); out.iter_mut().zip(b).for_each(|(o, x)| *o += c * x); }
    out
}

pub fn run_c20(run: &Run) {
    *run.rule.lock().unwrap() = "random scans with ties, plateaus, infinities and negative values against a first-maximum oracle; random boundaries against prefix selection; fits of exact polynomial data; non-trivial = the scan or boundary has at least two points".into();
    run.par(run.n(10000, 300000), |i| {
        let mut r = Rng::stream(run.seed, 2000, i as u64);
        for _ in 0..200 {
            if run.stopped() { return; }
            let n = 1 + match r.below(5) { 0 => r.below(3), 1 => r.below(500), 2 if r.p(0.05) => r.log(500., 50000.) as usize, _ => r.below(40) };
            let kind = r.below(6);
            let ts: Vec<f64> = { let mut t = if r.p(0.5) { 0. } else { r.range(-1., 1.) }; (0..n).map(|_| { t += r.log(1e-4, 1.); t }).collect() };
            let peak = r.f() * n as f64;
            let mut ds: Vec<f64> = (0..n).map(|k| match kind {
                0 => r.range(-5., 5.),
                1 => r.below(4) as f64 - 2.,
                2 => -(k as f64 - peak).abs(),
                3 => r.sign() * r.log(1e-300, 1e300),
                4 => if r.p(0.1) { r.sign() * f64::INFINITY } else { r.range(-1., 1.) },
                _ => 1.,
            }).collect();
            if r.p(0.2) { let k = r.below(n); let v = ds[k]; let j = r.below(n); ds[j] = v; }
            if r.p(0.1) { for d in &mut ds { *d = -d.abs(); } }
            run.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let max = ds.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let want = ts[ds.iter().position(|d| *d == max).unwrap()];
            match catch_unwind(|| find_critical_temperature(&ts, &ds)) {
                Ok(t) if t == want => if n > 1 { run.distinct((n, ds[0].to_bits(), want.to_bits())) },
                x => run.violation("find_critical_temperature", json!({"temperatures": ts, "values": ds.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>(), "got": format!("{x:?}"), "want": want})),
            }
            // reduction
            let tail = r.p(0.6);
            let ex = r.p(0.5);
            let mut pb = boundary(&mut r, ex, tail);
            if r.p(0.1) { let k = r.below(pb.len()); pb[k].1 = if r.p(0.5) { 0. } else { -0. }; }
            if r.p(0.1) { for p in &mut pb { p.1 = r.sign() * r.log(1e-310, 1.); } }
            if r.p(0.03) { pb.clear(); }
            let k = pb.iter().position(|p| p.1 == 0.).unwrap_or(pb.len());
            match catch_unwind(|| reduce_phase_boundary(&pb).to_vec()) {
                Ok(v) => {
                    let ok = v.len() == k && v.iter().zip(&pb).all(|(a, b)| a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits());
                    let twice = reduce_phase_boundary(&v).len();
                    if !ok || twice != k { run.violation("reduce_phase_boundary", json!({"boundary": pb, "got": v, "want_length": k, "reduced_twice": twice})); }
                    else if pb.len() > 1 { run.distinct((pb.len(), k, pb[0].1.to_bits())); }
                }
                Err(_) => run.violation("reduce_phase_boundary", json!({"panic": true, "boundary": pb})),
            }
        }
    });
    // the parametrization
    run.par(run.n(2000, 30000), |i| {
        let mut r = Rng::stream(run.seed, 2050, i as u64);
        let deg = r.below(9);
        let n = deg + 2 + if r.p(0.15) { r.below(400) } else { r.below(40) };
        let top = r.range(0.5, 1.);
        let coef: Vec<f64> = (0..=deg).map(|k| if k == 0 { r.range(1., 2.) } else { r.range(-1., 1.) / (1. + k as f64) }).collect();
        let poly = |p: &[f64], x: f64| p.iter().rev().fold(0., |a, b| a * x + b);
        let mut pb: Vec<(f64, f64)> = (0..n).map(|k| { let x = top * k as f64 / (n - 1) as f64; (x, poly(&coef, x)) }).collect();
        // data that no polynomial of this degree goes through
        let noise = if r.p(0.5) { r.log(1e-4, 0.3) } else { 0. };
        if noise > 0. { for p in &mut pb { p.1 += noise * r.range(-1., 1.); } }
        if pb.iter().any(|p| p.1 <= 0.) { return; }
        let clean = pb.clone();
        let best = if noise > 0. { least_squares(&clean, deg) } else { clean.iter().map(|p| p.1).collect() };
        if r.p(0.6) { pb.push((top + 0.1, 0.)); for k in 0..r.below(6) { pb.push((top + 0.2 + 0.1 * k as f64, if r.p(0.5) { 0. } else { r.range(-10., 10.) })); } }
        run.evals.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
        let fit = |pb: &[(f64, f64)], d: usize| run.call_watched(|| format!("parametrize_phase_boundary {pb:?} {d}"), || parametrize_phase_boundary(pb, d, None));
        match (fit(&pb, deg), fit(&clean, deg)) {
            (Ok(a), Ok(b)) => {
                let worst = clean.iter().zip(&best).map(|((x, _), y)| (poly(&a, *x) - y).abs()).fold(0., f64::max);
                run.max(&format!("fit: distance from the least-squares polynomial, degree {deg}{}", if noise > 0. { ", scattered data" } else { "" }), worst);
                let same = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= 1e-9 * (x.abs() + y.abs()));
                if a.len() != deg + 1 || !same || !(worst < 1e-5) { run.violation("parametrize_phase_boundary", json!({"polynomial": coef, "points": n, "range": top, "fit": a, "fit_of_reduced": b, "noise": noise, "distance_from_least_squares": worst})); }
                else { run.distinct((deg, n, coef[0].to_bits())); run.sample(|| json!({"polynomial": coef, "fit": a, "worst_residual": worst})); }
            }
            _ => run.violation("parametrize_phase_boundary", json!({"panic": true, "polynomial": coef, "points": n})),
        }
    });
}

pub fn run_c21(run: &Run) {
    *run.rule.lock().unwrap() = "random non-increasing boundaries (plateaus, single points, unreduced tails), on a dyadic grid where interpolation is exact or general; points on, next to and away from grid points and boundary, beyond its end and at T = 0; non-trivial = the answer is not fixed by T exceeding all or no critical temperatures".into();
    run.par(run.n(12000, 400000), |i| {
        let mut r = Rng::stream(run.seed, 2100, i as u64);
        for _ in 0..50 {
            let exact = r.p(0.5);
            let tail = r.p(0.5);
            let pb = boundary(&mut r, exact, tail);
            let red = &pb[..pb.iter().position(|p| p.1 == 0.).unwrap_or(pb.len())];
            let (first, last) = (red[0], red[red.len() - 1]);
            for _ in 0..40 {
                if run.stopped() { return; }
                let k = r.below(red.len());
                let mut mu = match r.below(8) {
                    0 => first.0,
                    1 => last.0,
                    2 => red[k].0,
                    3 => last.0 + r.log(1e-6, 10.),
                    4 if exact => last.0 * (1. + f64::EPSILON),
                    _ => { let a = red[k]; let b = red[(k + 1).min(red.len() - 1)]; a.0 + (b.0 - a.0) * if exact { r.below(9) as f64 / 8. } else { r.f() } }
                };
                if pb.len() > red.len() && r.p(0.1) { mu = pb[red.len() + r.below(pb.len() - red.len())].0; }
                if r.p(0.05) { mu = first.0 - r.log(1e-9, 1.); }
                let tc = if mu <= last.0 && mu >= first.0 { tc_at(red, mu) } else { None };
                let t = match r.below(6) {
                    0 => 0.,
                    1 => tc.unwrap_or(last.1),
                    2 => tc.unwrap_or(last.1) * (1. + r.sign() * if exact { f64::EPSILON * 2. } else { r.log(1e-9, 1e-1) }),
                    3 => red[r.below(red.len())].1,
                    4 => r.log(1e-12, 1e-3),
                    _ => r.range(0., 1.2 * first.1),
                };
                run.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let got = catch_unwind(AssertUnwindSafe(|| is_deconfined_phase(mu, t, &pb)));
                let want = if mu < first.0 { None } else if t == 0. { Some(mu > last.0) } else if mu > last.0 { Some(true) } else { Some(t > tc.unwrap()) };
                // rounding decides on the boundary itself
                if !exact && t > 0. { if let Some(tc) = tc { if (t - tc).abs() < 1e-12 * first.1 && !red.iter().any(|p| p.0 == mu) { run.count("undecided", 1); continue; } } }
                // one ulp off an interpolated value may round onto it
                if exact && t > 0. { if let Some(tc) = tc { if t != tc && (t - tc).abs() < 1e-13 * first.1 && !red.iter().any(|p| p.0 == mu) { run.count("undecided", 1); continue; } } }
                if got.as_ref().ok().copied() != want {
                    run.violation("is_deconfined_phase", json!({"mu": mu, "t": t, "boundary": pb, "got": format!("{:?}", got.ok()), "want": format!("{want:?}"), "interpolated_tc": tc, "dyadic": exact}));
                } else if (t >= last.1 && t <= first.1) || want.is_none() || t == 0. || mu >= last.0 { run.distinct((pb.len(), mu.to_bits(), t.to_bits())); }
            }
        }
    });
}
