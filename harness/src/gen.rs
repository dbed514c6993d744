//! Workload generation: arguments drawn by parameter name, over many scales,
//! with special values, coincidences between arguments and all quadrants.
use crate::rng::Rng;
use qcd_sme::C;

pub const NICE: &[f64] = &[0.5, 1., 2., 3., 0.25, 1.5, 4., 0.1, 10., 0.75, 0.656, 0.1236, 0.35, 5.];

#[derive(Clone, Copy, Debug)]
pub struct Scale { pub s: f64, pub lo: f64, pub hi: f64, pub nice: bool }

pub fn scale(r: &mut Rng) -> Scale {
    match r.below(10) {
        0 | 1 => Scale { s: 1., lo: 0.2, hi: 5., nice: true },
        2..=4 => Scale { s: 1., lo: 0.05, hi: 20., nice: false },
        5..=6 => Scale { s: 1., lo: 1e-3, hi: 1e3, nice: false },
        7 => Scale { s: r.log(1e-6, 1e6), lo: 0.1, hi: 10., nice: false },
        8 => Scale { s: r.log(1e-4, 1e4), lo: 1e-3, hi: 1e3, nice: false },
        _ => Scale { s: r.log(1e-12, 1e12), lo: 1e-2, hi: 1e2, nice: false },
    }
}

pub fn pos(r: &mut Rng, sc: Scale, seen: &[f64]) -> f64 {
    if sc.nice && r.p(0.6) { return *r.pick(NICE); }
    if !seen.is_empty() && r.p(0.12) {
        let x = r.pick(seen).abs();
        if x > 0. {
            return match r.below(5) {
                0 => x,
                1 => x * 2.,
                2 => x * 0.5,
                3 => x * (1. + r.sign() * r.log(1e-9, 1e-2)),
                _ => x * r.log(0.5, 2.),
            };
        }
    }
    sc.s * r.log(sc.lo, sc.hi)
}

/// A complex number of given typical modulus, in any direction.
pub fn dir(r: &mut Rng, m: f64) -> C {
    match r.below(8) {
        0 => C::new(m, 0.),
        1 => C::new(0., m * r.sign()),
        2 => C::new(m * r.sign(), r.sign() * m * r.log(1e-10, 1e-1)),
        3 => C::new(r.sign() * m * r.log(1e-10, 1e-1), m * r.sign()),
        _ => { let t = r.range(-std::f64::consts::PI, std::f64::consts::PI); C::new(m * t.cos(), m * t.sin()) }
    }
}
/// A complex number in the right half plane.
pub fn rhp(r: &mut Rng, m: f64) -> C {
    match r.below(6) {
        0 => C::new(m, 0.),
        1 => C::new(m, r.sign() * m * r.log(1e-8, 1e-1)),
        _ => { let t = r.range(-1.4, 1.4); C::new(m * t.cos(), m * t.sin()) }
    }
}

pub fn coupling(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0., 1., -1., 2., -0.876, 0.14524, 0.5, 3.]),
        1 => r.sign() * r.log(1e-6, 1e6),
        _ => r.range(-3., 3.),
    }
}

pub fn vac_s(r: &mut Rng, complex: bool) -> C {
    let m = match r.below(8) {
        0 => *r.pick(&[1., 1.834, 2.5, 8.18, 0.5, 4., 0.1, 10., 2., 3.]),
        1..=3 => r.log(0.05, 20.),
        4 | 5 => r.log(1e-3, 1e3),
        6 => r.log(1e-6, 1e6),
        _ => r.log(1e-12, 1e12),
    };
    if !complex { return C::new(m, 0.); }
    let mut z = dir(r, m);
    // the branch cut of every vacuum function is the negative real axis
    if z.re < 0. && z.im == 0. { z.im = m * 1e-3; }
    // around the special points -1 and -4
    if r.p(0.06) {
        let c = *r.pick(&[-1., -4., 0.]);
        z = C::new(c, 0.) + dir(r, r.clone().log(1e-6, 0.5));
        if z.im == 0. { z.im = 0.01; }
    }
    z
}

pub fn args(r: &mut Rng, key: &str, params: &[&str], mask: u32) -> Vec<C> {
    let sc = scale(r);
    args_sc(r, key, params, mask, sc)
}

pub fn args_sc(r: &mut Rng, key: &str, params: &[&str], mask: u32, sc: Scale) -> Vec<C> {
    let mut out: Vec<C> = vec![];
    let mut seen: Vec<f64> = vec![];
    let vac = params[0] == "s" || params[0] == "ln_s";
    for (i, &p) in params.iter().enumerate() {
        let c = mask >> i & 1 == 1;
        let z = match p {
            "s" => vac_s(r, c),
            "ln_s" | "ln_s_pl_1" => {
                if i > 0 && out[0].re > 0. && r.p(0.7) {
                    let s = out[0];
                    if p == "ln_s" { if c { s.ln() } else { C::new(s.re.ln(), 0.) } }
                    else if c { (s + 1.).ln() } else { C::new((s.re + 1.).ln(), 0.) }
                } else if c { C::new(r.range(-5., 5.), r.range(-3.1, 3.1)) } else { C::new(r.range(-5., 5.), 0.) }
            }
            "f0" | "g0" | "xi" => C::new(coupling(r), 0.),
            "beta" => {
                let b = if r.p(0.04) { r.log(10., 1e4) / sc.s }
                    else if sc.nice && r.p(0.6) { *r.pick(&[0.5, 1., 2., 3., 0.25, 4.]) }
                    else { r.log(sc.lo.max(1e-3), sc.hi.min(1e3)) / sc.s };
                C::new(b, 0.)
            }
            "delta" => {
                let a = pos(r, sc, &seen);
                let d = a * a * r.sign();
                let d = if r.p(0.1) { 0. } else { d };
                if c { dir(r, d.abs()) } else { C::new(d, 0.) }
            }
            "mu" => {
                let m = if r.p(0.1) { 0. } else { pos(r, sc, &seen) * r.sign() };
                seen.push(m);
                if c { C::new(m, r.sign() * r.log(1e-3, 1.) * m.abs()) } else { C::new(m, 0.) }
            }
            "om" => {
                let m = pos(r, sc, &seen);
                seen.push(m);
                if c { dir(r, m) } else if r.p(0.25) { C::new(-m, 0.) } else { C::new(m, 0.) }
            }
            "mq" if vac => C::new(pos(r, Scale { s: 1., ..sc }, &[]), 0.),
            _ => {
                // q, p, m, m1, m2, mq, en
                let mut m = pos(r, sc, &seen);
                if p.starts_with('m') && r.p(0.03) { m = 0.; }
                seen.push(m);
                if c { rhp(r, m) } else { C::new(m, 0.) }
            }
        };
        out.push(z);
    }
    let _ = key;
    out
}

/// Numbers of colors: mostly small.
pub fn colors(r: &mut Rng) -> u32 { match r.below(12) { 0 => r.log(9., 1e6) as u32, 1 => 9 + r.below(30) as u32, _ => 1 + r.below(8) as u32 } }
