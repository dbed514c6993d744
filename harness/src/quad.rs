//! Adaptive Gauss-Kronrod quadrature of monitored integrands, in the logarithm of
//! the loop momentum.
use qcd_sme::C;

const XK: [f64; 11] = [0.9956571630258081, 0.9739065285171717, 0.9301574913557082, 0.8650633666889845, 0.7808177265864169, 0.6794095682990244, 0.5627571346686047, 0.4333953941292472, 0.2943928627014602, 0.14887433898163122, 0.];
const WK: [f64; 11] = [0.011694638867371874, 0.032558162307964725, 0.054755896574351995, 0.07503967481091996, 0.0931254545836976, 0.10938715880229764, 0.12349197626206584, 0.13470921731147334, 0.14277593857706009, 0.14773910490133849, 0.1494455540029169];
const WG: [f64; 5] = [0.06667134430868814, 0.1494513491505806, 0.21908636251598204, 0.26926671930999635, 0.29552422471475287];

struct Seg { a: f64, b: f64, v: C, err: f64, mag: f64 }

fn gk(f: &mut dyn FnMut(f64) -> C, a: f64, b: f64) -> Seg {
    let (c, h) = ((a + b) / 2., (b - a) / 2.);
    let f0 = f(c);
    let (mut k, mut g, mut m) = (f0 * WK[10], C::new(0., 0.), f0.norm() * WK[10]);
    for i in 0..10 {
        let (u, v) = (f(c - h * XK[i]), f(c + h * XK[i]));
        k += (u + v) * WK[i];
        m += (u.norm() + v.norm()) * WK[i];
        if i & 1 == 1 { g += (u + v) * WG[i / 2]; }
    }
    Seg { a, b, v: k * h, err: (k - g).norm() * h, mag: m * h }
}

#[derive(Clone, Copy, Debug)]
pub struct Q { pub v: C, pub err: f64, pub mag: f64 }

/// Integral over (0, hi) in log q, split at the given points.
pub fn log_integral(f: &mut dyn FnMut(f64) -> C, hi: f64, splits: &[f64], rtol: f64, maxseg: usize) -> Q {
    let mut g = |x: f64| { let q = x.exp(); let r = f(q) * q; if r.re.is_finite() && r.im.is_finite() { r } else { C::new(0., 0.) } };
    let (l, h) = (hi.ln() - 45., hi.ln());
    let mut pts: Vec<f64> = splits.iter().filter(|x| **x > 0.).map(|x| x.ln()).filter(|x| *x > l && *x < h).collect();
    pts.push(l); pts.push(h);
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut seg = vec![];
    for w in pts.windows(2) {
        if w[1] - w[0] < 1e-14 { continue; }
        let k = ((w[1] - w[0]) / if w[0] < h - 8. { 3. } else { 0.7 }).ceil().max(1.) as usize;
        for j in 0..k {
            let d = (w[1] - w[0]) / k as f64;
            seg.push(gk(&mut g, w[0] + d * j as f64, if j == k - 1 { w[1] } else { w[0] + d * (j + 1) as f64 }));
        }
    }
    loop {
        let (v, err, mag) = seg.iter().fold((C::new(0., 0.), 0., 0.), |(v, e, m), s| (v + s.v, e + s.err, m + s.mag));
        if err <= rtol * mag || seg.len() >= maxseg || !err.is_finite() { return Q { v, err, mag }; }
        let i = (0..seg.len()).max_by(|a, b| seg[*a].err.partial_cmp(&seg[*b].err).unwrap()).unwrap();
        let s = seg.swap_remove(i);
        let c = (s.a + s.b) / 2.;
        if c - s.a < 1e-13 { seg.push(Seg { err: 0., ..s }); continue; }
        seg.push(gk(&mut g, s.a, c));
        seg.push(gk(&mut g, c, s.b));
    }
}
