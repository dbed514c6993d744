//! C16: statistical distributions.  C17: charge density and its inversion.
use crate::integ;
use crate::lookup;
use crate::reference;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::value;
use qcd_sme::common::{energy, energy_squared, thermal::*};
use qcd_sme::qcd::thermal::quark::*;
use qcd_sme::{consts, Integral, C, R};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

fn c(x: f64) -> C { C::new(x, 0.) }
const EPS: f64 = f64::EPSILON;

/// Finite numbers of every magnitude.
fn any(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.,
        1 => -0.,
        2 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff) * r.sign(),
        3 => r.sign() * f64::MAX * r.range(0.1, 1.),
        4 => r.sign() * r.log(1e-300, 1e300),
        5 => *r.pick(&[1., -1., 0.5, 2., 700., 710., -745., 745.2, 1e-16, 36.8]),
        6 | 7 => r.sign() * r.log(1e-6, 1e6),
        _ => r.range(-20., 20.),
    }
}

pub fn run_c16(run: &Run) {
    *run.rule.lock().unwrap() = "all distribution, energy and Fermi-momentum functions, real and complex, against the reference model on random arguments; range, monotonicity, particle-hole, reflection, sum and step monitors on arguments of every magnitude (subnormal to overflowing, equal, negative, infinite inverse temperature); non-trivial = the monitor's conclusion does not follow from an overflow to 0 or 1 alone, or is an exact one".into();
    value::shadow(run, |k| k.starts_with("common::") || k.starts_with("low::"), run.n(20000, 400000));
    run.count("ms_shadow", (run.secs() * 1e3) as u64);
    let bad = |what: &str, a: &[f64], got: &[f64], want: &str| {
        let z: Vec<C> = a.iter().map(|x| c(*x)).collect();
        run.violation(what, json!({"args": fmt(&z), "bits": bits(&z), "got": got.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "want": want}));
    };
    run.par(run.n(6000, 100000), |i| {
        let mut r = Rng::stream(run.seed, 1600, i as u64);
        for _ in 0..2000 {
            if run.stopped() { return; }
            let ordinary = r.p(0.5);
            let (en, mu, beta) = if ordinary {
                let s = r.log(1e-3, 1e3);
                (r.sign() * s * r.log(1e-2, 1e2), r.sign() * s * r.log(1e-2, 1e2), r.log(1e-2, 1e2) / s)
            } else { (any(&mut r), any(&mut r), any(&mut r).abs()) };
            let mu = if r.p(0.05) { en } else { mu };
            let beta = if r.p(0.02) { f64::INFINITY } else { beta };
            run.evals.fetch_add(16, std::sync::atomic::Ordering::Relaxed);
            let x = (en - mu) * beta;
            let f = fermi_distribution(en, beta, mu);
            let a = [en, beta, mu];
            let mut key = x.to_bits();
            // domain and range
            if !x.is_nan() {
                if !(0. ..=1.).contains(&f) { bad("fermi_distribution", &a, &[f], "between 0 and 1"); }
                // definition, by the expression that does not lose digits
                let w = if x > 0. { let e = (-x).exp(); e / (1. + e) } else { 1. / (1. + x.exp()) };
                if (f - w).abs() > 1e-13 * w * (1. + x.abs().min(800.)) + 1e-300 { bad("fermi_distribution", &a, &[f], &format!("{w:?}")); }
                if x.abs() < 700. { key ^= f.to_bits(); }
                let b = bose_distribution(en, beta, mu);
                let wb = if x > 0. { let e = (-x).exp(); e / -(-x).exp_m1() } else { 1. / x.exp_m1() };
                // 1/(exp x - 1) loses digits next to x = 0
                let tol = 64. * EPS * (1. + x.abs().min(800.)) * (wb.abs() + wb * wb) + 1e-300;
                if x != 0. && tol < 1e-3 * wb.abs() && ((b - wb).abs() > tol || b.is_nan()) { bad("bose_distribution", &a, &[b], &format!("{wb:?}")); }
                if x == 0. && !(b.is_infinite() && b > 0.) { bad("bose_distribution", &a, &[b], "inf"); }
                // the doubled form is the sum
                let y = (en + mu) * beta;
                if !y.is_nan() {
                    let (d, g) = (fermi_distribution_double(en, beta, mu), fermi_distribution(en, beta, -mu));
                    if !(d - (f + g)).abs().le(&(8. * EPS * (f + g) + 1e-300)) { bad("fermi_distribution_double", &a, &[d, f, g], "sum of the two"); }
                    let d2 = fermi_distribution_double(en, beta, -mu);
                    if !(d - d2).abs().le(&(8. * EPS * d + 1e-300)) { bad("fermi_distribution_double", &a, &[d, d2], "even in the chemical potential"); }
                }
            }
            // vanishing chemical potential
            if !(en * beta).is_nan() {
                let (z, f0) = (fermi_distribution_zero_chempot(en, beta), fermi_distribution(en, beta, 0.));
                let t = |w: f64| 8. * EPS * (1. + (en * beta).abs().min(800.)) * w.abs() + 1e-300;
                if !(z - f0).abs().le(&t(f0)) { bad("fermi_distribution_zero_chempot", &[en, beta], &[z, f0], "fermi_distribution at mu = 0"); }
                let (z, b0) = (bose_distribution_zero_chempot(en, beta), bose_distribution(en, beta, 0.));
                if z != b0 && !(z - b0).abs().le(&(t(b0) * (1. + b0.abs()))) { bad("bose_distribution_zero_chempot", &[en, beta], &[z, b0], "bose_distribution at mu = 0"); }
            }
            // zero temperature: a step
            let s = fermi_distribution_zero_temp(en, mu);
            let w = if en > mu { 0. } else { 1. };
            if s != w { bad("fermi_distribution_zero_temp", &[en, mu], &[s], &format!("{w}")); }
            let s2 = fermi_distribution_double_zero_temp(en, mu);
            let w2 = w + if en > -mu { 0. } else { 1. };
            if s2 != w2 { bad("fermi_distribution_double_zero_temp", &[en, mu], &[s2], &format!("{w2}")); }
            if beta > 1e3 / (en - mu).abs() && x.abs() > 40. && (f - s).abs() > 1e-15 { bad("fermi_distribution", &a, &[f, s], "the zero-temperature step"); }
            // monotone in energy, chemical potential
            let e2 = if r.p(0.3) { any(&mut r) } else { en + r.log(1e-9, 10.) / beta };
            if e2 > en && !x.is_nan() && !((e2 - mu) * beta).is_nan() {
                let g = fermi_distribution(e2, beta, mu);
                if g > f * (1. + 4. * EPS) { bad("fermi_distribution", &[en, e2, beta, mu], &[f, g], "decreasing with the energy"); }
                if (e2 - mu) * beta > x + 1e-6 * (1. + x.abs()) && x > -20. && x < 600. && g >= f { bad("fermi_distribution", &[en, e2, beta, mu], &[f, g], "strictly decreasing with the energy"); }
            }
            // particle-hole symmetry, on exactly representable sums
            let d = en.abs();
            let (up, dn) = (mu + d, mu - d);
            if up - mu == d && mu - dn == d && !(d * beta).is_nan() {
                let t = fermi_distribution(up, beta, mu) + fermi_distribution(dn, beta, mu);
                if !(t - 1.).abs().le(&(8. * EPS)) { bad("fermi_distribution", &[mu, d, beta], &[t], "n(mu+x) + n(mu-x) = 1"); }
            }
            // Bose reflection
            let y = en * beta;
            if y != 0. && y.is_finite() {
                let (p, m) = (bose_distribution_zero_chempot(en, beta), bose_distribution_zero_chempot(-en, beta));
                let t = 64. * EPS * (1. + p.abs() + p * p + m.abs());
                if t < 1e-3 && !(m + 1. + p).abs().le(&t) { bad("bose_distribution_zero_chempot", &[en, beta], &[p, m], "b(-x) = -1 - b(x)"); }
            }
            // energies and Fermi momenta
            let (p, m) = (en, mu);
            if p.abs().max(m.abs()) < 1e150 && (p.abs().max(m.abs()) > 1e-140) {
                let (e, e2) = (energy(p, m), energy_squared(p, m));
                let h = p.hypot(m);
                if !(e - h).abs().le(&(8. * EPS * h)) { bad("energy", &[p, m], &[e, h], "sqrt(p^2+m^2)"); }
                if !(e2 - h * h).abs().le(&(8. * EPS * h * h)) { bad("energy_squared", &[p, m], &[e2], "p^2+m^2"); }
                let k = fermi_momentum(m, p);
                let k2 = (p.abs() - m.abs()) * (p.abs() + m.abs());
                if p.abs() < m.abs() { if !k.is_nan() { bad("fermi_momentum", &[m, p], &[k], "NaN below threshold"); } }
                else if (p * p - m * m) > 1e-280 || p.abs() == m.abs() {
                    if !(k * k - k2).abs().le(&(16. * EPS * p * p)) { bad("fermi_momentum", &[m, p], &[k], &format!("{:?}", k2.sqrt())); }
                    let back = energy(k, m);
                    if !(back - p.abs()).abs().le(&(16. * EPS * p.abs())) { bad("fermi_momentum", &[m, p], &[k, back], "energy at the Fermi momentum is |mu|"); }
                }
            }
            if ordinary { run.distinct(key); }
        }
    });
}

fn method(tol: f64) -> Integral { Integral::G7K15(tol, 20) }

pub fn run_c17(run: &Run) {
    *run.rule.lock().unwrap() = "densities against the reference integral under several numbers of colors; oddness, growth, zero-temperature formula; chemical potentials of random densities and of densities of random chemical potentials fed back; non-trivial = density resolved by the tolerance".into();
    for (j, nc) in [3u32, 1, 2, 5, 11].into_iter().enumerate() {
        consts::set_number_of_colors(nc);
        let ncf = nc as f64;
        let share = if j == 0 { 3 } else { 1 };
        // the integral
        let f = lookup::meth("qcdt::quark::charge_density_with_method", 0);
        let (deg, unlucky) = (AtomicU64::new(0), Mutex::new(vec![]));
        run.par(share * run.n(1500, 20000), |i| {
            reference::set_ctx(nc, 1);
            let mut r = Rng::stream(run.seed, 1700 + nc as u64, i as u64);
            let l = if r.p(0.3) { r.log(0.05, 20.) } else { 1. };
            let a = integ::rescale(f.params, &integ::iargs(&mut r, f.params, 0), l);
            let a: Vec<C> = a.iter().zip(f.params).map(|(z, p)| if *p == "m" && r.p(0.05) { c(0.) } else if *p == "m" && r.p(0.05) { -*z } else { *z }).collect();
            let mut a = a;
            // degenerate: temperatures far below the Fermi energy
            let degenerate = r.p(0.2);
            if degenerate { deg.fetch_add(1, Relaxed); a[2].re = r.sign() * a[0].norm().max(0.1 * l) * r.log(1.1, 10.); a[1].re = r.log(20., 2e4) / (a[2].norm() - a[0].norm()); }
            let (m, beta, mu) = (a[0].re, a[1].re, a[2].re);
            let rf = integ::want(f.key, f.params, &a, 1e-5, 1e-11, 1500);
            if rf.err > 1e-8 * rf.mag { run.count("unsharp", 1); return; }
            let call = |tol: f64, x: f64| run.call_watched(|| format!("charge_density {m} {beta} {x}"), || charge_density_with_method(m, beta, x, method(tol)));
            let tol = (1e-7 * rf.mag).max(1e-300);
            let (Ok(n), Ok(nm)) = (call(tol, mu), call(tol, -mu)) else { run.violation("charge_density", json!({"panic": fmt(&a)})); return };
            let mut d = (n - rf.v.re).abs();
            if d > 1e-6 * rf.mag { if let Ok(n2) = call(tol * 1e-3, mu) { d = (n2 - rf.v.re).abs(); } }
            // a sharp Fermi edge next to the end of a panel escapes any adaptive rule; this is rare
            if degenerate && d > 1e-6 * rf.mag && d < 0.02 * rf.mag { unlucky.lock().unwrap().push(json!({"what": "degenerate gas", "nc": nc, "args": fmt(&a), "bits": bits(&a), "got": n, "want": rf.v.re, "deviation": d, "mass": rf.mag})); return; }
            if d > 1e-6 * rf.mag + 10. * rf.err + 1e-300 || d.is_nan() { run.violation("charge_density", json!({"nc": nc, "args": fmt(&a), "bits": bits(&a), "got": n, "want": rf.v.re, "deviation": d, "mass": rf.mag})); }
            if (n + nm).abs() > 1e-12 * n.abs() + 1e-300 { run.violation("charge_density: odd", json!({"nc": nc, "args": fmt(&a), "got": [n, nm]})); }
            // growth
            let mu2 = mu + r.log(1e-3, 2.) * l;
            let mut a2 = a.clone(); a2[2] = c(mu2);
            let rf2 = integ::want(f.key, f.params, &a2, 1e-5, 1e-11, 1500);
            let t2 = 1e-7 * rf.mag.max(rf2.mag);
            if let (Ok(x), Ok(y)) = (call(t2.max(1e-300), mu), call(t2.max(1e-300), mu2)) {
                if rf2.v.re - rf.v.re > if degenerate { 0.05 * rf.mag.max(rf2.mag) } else { 4. * t2 } && y <= x { run.violation("charge_density: increasing", json!({"nc": nc, "args": fmt(&a), "mu2": mu2, "got": [x, y]})); }
            }
            if rf.mag > 0. { run.distinct_args("charge_density", nc, &a); }
        });
        let unlucky = unlucky.into_inner().unwrap();
        run.count("degenerate gases", deg.load(Relaxed));
        run.count("hidden Fermi edges", unlucky.len() as u64);
        if unlucky.len() as u64 > 3 + deg.load(Relaxed) / 30 { for v in unlucky { run.violation("charge_density", v); } }
        // zero temperature
        run.par(share * run.n(200, 4000), |i| {
            let mut r = Rng::stream(run.seed, 1720 + nc as u64, i as u64);
            for _ in 0..200 {
                if run.stopped() { return; }
                let l = r.log(1e-4, 1e4);
                let m = if r.p(0.05) { 0. } else { l * r.log(1e-2, 1e2) };
                let mu = r.sign() * match r.below(5) { 0 => m * r.f(), 1 => m, 2 => m * (1. + r.log(1e-12, 1e-2)), _ => l * r.log(1e-2, 1e2) };
                // only the square of the mass matters
                let (m, sm) = (m, if r.p(0.1) { -m } else { m });
                let n = charge_density_zero_temp(sm, mu);
                run.evals.fetch_add(4, std::sync::atomic::Ordering::Relaxed);
                let bad = |what: &str, got: f64, want: f64| run.violation(what, json!({"nc": nc, "m": sm, "mu": mu, "bits": bits(&[c(m), c(mu)]), "got": got, "want": want}));
                if mu.abs() <= m {
                    if n != 0. { bad("charge_density_zero_temp", n, 0.); }
                } else {
                    let k2 = (mu.abs() - m) * (mu.abs() + m);
                    let w = ncf * mu.signum() * k2.powf(1.5) / (3. * std::f64::consts::PI.powi(2));
                    if !(n - w).abs().le(&(w.abs() * (1e-13 + 32. * EPS * mu * mu / k2))) { bad("charge_density_zero_temp", n, w); }
                    let back = chemical_potential_zero_temp(sm, n);
                    if !(back - mu).abs().le(&(1e-13 * mu.abs())) { bad("chemical_potential_zero_temp", back, mu); }
                    run.distinct_args("zero_temp", nc, &[c(m), c(mu)]);
                }
                let n0 = r.sign() * l.powi(3) * r.log(1e-6, 1e6);
                let mu0 = chemical_potential_zero_temp(sm, n0);
                let k2 = mu0 * mu0 - m * m;
                let n1 = charge_density_zero_temp(sm, mu0);
                if !(n1 - n0).abs().le(&(n0.abs() * (1e-12 + 64. * EPS * mu0 * mu0 / k2.max(1e-300)))) && k2 > 1e-12 * mu0 * mu0 { bad("chemical_potential_zero_temp", n1, n0); }
                let z = chemical_potential_zero_temp(sm, 0.);
                if z != 0. { bad("chemical_potential_zero_temp: zero density", z, 0.); }
            }
        });
        // inversion at finite temperature
        run.par(share * run.n(600, 8000), |i| {
            let mut r = Rng::stream(run.seed, 1740 + nc as u64, i as u64);
            let l = if r.p(0.3) { r.log(0.1, 10.) } else { 1. };
            let m = if r.p(0.05) { 0. } else { l * r.log(0.05, 5.) };
            let beta = if r.p(0.7) { r.log(0.2, 12.) } else { r.log(5., 60.) } / l;
            let n = if r.p(0.5) { r.sign() * l.powi(3) * r.log(1e-3, 1e3) } else {
                let mu = r.sign() * l * r.log(0.05, 6.);
                match run.call_watched(|| format!("charge_density {m} {beta} {mu}"), || charge_density_with_method(m, beta, mu, method(1e-9 * l.powi(3)))) { Ok(n) => n, Err(e) => { run.violation("charge_density", json!({"panic": e})); return; } }
            };
            let tol = (n.abs() * r.log(1e-9, 1e-4)).max(l.powi(3) * 1e-11);
            let a = [c(m), c(beta), c(n)];
            let got = run.call_watched(|| format!("chemical_potential {m} {beta} {n} {tol}"), || chemical_potential_with_method(m, beta, n, method(tol)));
            let mu = match got { Ok(x) => x, Err(e) => { run.violation("chemical_potential", json!({"nc": nc, "panic": e, "m,beta,n": fmt(&a), "bits": bits(&a), "tol": tol})); return; } };
            let fine = |x: f64| run.call_watched(|| format!("charge_density {m} {beta} {x}"), || charge_density_with_method(m, beta, x, method((tol * 1e-2).max(n.abs() * 1e-12)))).unwrap_or(f64::NAN);
            let n1 = fine(mu);
            if !((n1 - n).abs() <= 6. * tol) { run.violation("chemical_potential", json!({"nc": nc, "m,beta,n": fmt(&a), "bits": bits(&a), "got": mu, "its density": n1, "tolerance": tol})); }
            if n != 0. && tol < 0.1 * n.abs() && mu.signum() != n.signum() { run.violation("chemical_potential: sign", json!({"nc": nc, "m,beta,n": fmt(&a), "got": mu})); }
            run.max("inversion: density deviation/tolerance", (n1 - n).abs() / tol);
            if n.abs() > 100. * tol { run.distinct_args("chemical_potential", nc, &a); }
            let z = chemical_potential_with_method(m, beta, 0., method(tol));
            if z != 0. { run.violation("chemical_potential: zero density", json!({"m": m, "beta": beta, "got": z})); }
            if i % 53 == 0 { run.sample(|| json!({"nc": nc, "m,beta,n": fmt(&a), "tolerance": tol, "chemical_potential": mu, "its density": n1})); }
        });
        // default method
        for (tol, it) in [(1e-3, 6), (1e-7, 20)] {
            consts::set_default_tol_integral(tol); consts::set_default_max_iter_integral(it);
            run.par(run.n(60, 1000), |i| {
                let mut r = Rng::stream(run.seed, 1760 + nc as u64 + it as u64 * 100, i as u64);
                let (m, beta, mu): (R, R, R) = (r.log(0.2, 3.), r.log(0.3, 6.), r.range(-4., 4.));
                let x = run.call_watched(|| format!("charge_density {m} {beta} {mu}"), || (charge_density(m, beta, mu), charge_density_with_method(m, beta, mu, Integral::G7K15(tol, it))));
                match x { Ok((a, b)) if (a - b).abs() <= 1e-9 * b.abs() => {} x => run.violation("charge_density: default method", json!({"m,beta,mu": [m, beta, mu], "got": format!("{x:?}")})) }
                let n = mu;
                let x = run.call_watched(|| format!("chemical_potential {m} {beta} {n}"), || (chemical_potential(m, beta, n), chemical_potential_with_method(m, beta, n, Integral::G7K15(tol, it))));
                match x { Ok((a, b)) if (a - b).abs() <= 1e-9 * b.abs() => {} x => run.violation("chemical_potential: default method", json!({"m,beta,n": [m, beta, n], "got": format!("{x:?}")})) }
            });
        }
        lookup::reset_globals();
    }
}
