//! Every monitored native entry point behind one interface.
use crate::field::{eargs, is_dressing, Entry};
use crate::integ::iargs;
use crate::rng::Rng;
use crate::run::{fmt, Run};
use crate::{compose, gen, table, F, FC, FM};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, C};

#[derive(Clone, Copy)]
pub enum Any { Fun(&'static F), Meth(&'static FM), Conf(&'static FC) }

/// All arguments of one call.
#[derive(Clone, Debug)]
pub struct Call { pub a: Vec<C>, pub k: FieldConfig, pub tol: f64, pub depth: u32, pub kind: usize }

/// Integration methods by number; the first six have an absolute tolerance, the next six
/// a relative one.
pub const KINDS: usize = 14;
pub fn method(kind: usize, tol: f64, depth: u32) -> Integral {
    use Integral::*;
    match kind {
        0 => G7K15(tol, depth), 1 => G10K21(tol, depth), 2 => G15K31(tol, depth), 3 => G20K41(tol, depth), 4 => G25K51(tol, depth), 5 => G30K61(tol, depth),
        6 => G7K15R(tol, depth), 7 => G10K21R(tol, depth), 8 => G15K31R(tol, depth), 9 => G20K41R(tol, depth), 10 => G25K51R(tol, depth), 11 => G30K61R(tol, depth),
        12 => GaussLegendre(2 + depth as usize % 10), _ => NewtonCotes(2 + depth as usize % 6),
    }
}

impl Any {
    pub fn all() -> Vec<Self> {
        let mut v: Vec<Self> = table::FUNS.iter().map(Any::Fun).collect();
        v.extend(table::METHODS.iter().map(Any::Meth));
        v.extend(table::CONFIGS.iter().map(Any::Conf));
        v
    }
    pub fn key(&self) -> &'static str { match self { Any::Fun(f) => f.key, Any::Meth(f) => f.key, Any::Conf(f) => f.key } }
    pub fn params(&self) -> &'static [&'static str] { match self { Any::Fun(f) => f.params, Any::Meth(f) => f.params, Any::Conf(f) => f.params } }
    pub fn mask(&self) -> u32 { match self { Any::Fun(f) => f.mask, Any::Meth(f) => f.mask, Any::Conf(f) => f.mask } }
    pub fn ret_c(&self) -> bool { match self { Any::Fun(f) => f.ret_c, Any::Meth(f) => f.ret_c, Any::Conf(f) => f.ret_c } }
    /// Integrates numerically with the default method.
    pub fn integrates(&self) -> bool {
        let k = self.key();
        match self {
            Any::Meth(_) => false,
            Any::Conf(_) => k.starts_with("qcdt"),
            Any::Fun(_) => !k.ends_with("_i") && !k.ends_with("_zero_temp") && (k.contains("thermal_part") || k.starts_with("ymt") || k.starts_with("qcdt")),
        }
    }
    pub fn draw(&self, r: &mut Rng) -> Call {
        let a = match self {
            Any::Conf(f) => eargs(r, &Entry::Conf(f)),
            Any::Fun(f) if is_dressing(f.key) => eargs(r, &Entry::Plain(f)),
            Any::Meth(f) => iargs(r, f.params, f.mask),
            Any::Fun(f) if self.integrates() => iargs(r, f.params, f.mask),
            Any::Fun(f) => gen::args(r, f.key, f.params, f.mask),
        };
        let nc = gen::colors(r);
        let (k, tol, depth) = (compose::random_config(r, nc), r.log(1e-6, 1e-3), 6 + r.below(8) as u32);
        // only methods with an absolute tolerance can invert the density
        let kind = if r.p(0.4) { 0 } else { r.below(if self.key().contains("chemical_potential") { 6 } else { KINDS }) };
        Call { a, k, tol, depth, kind }
    }
    pub fn call(&self, run: &Run, c: &Call) -> Result<C, String> {
        run.call_watched(|| format!("{} {} {:?} {c:?}", self.key(), self.mask(), fmt(&c.a)), || self.raw(c))
    }
    pub fn raw(&self, c: &Call) -> C {
        match self {
            Any::Fun(f) => (f.f)(&c.a),
            Any::Meth(f) => (f.f)(&c.a, method(c.kind, c.tol, c.depth)),
            Any::Conf(f) => (f.f)(&c.a, &c.k),
        }
    }
}
/// Bits of a result; all NaNs are the same.
pub fn rbits(z: C) -> (u64, u64) {
    let b = |x: f64| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
    (b(z.re), b(z.im))
}

/// Helpers of the library and of the phase-diagram crate, as functions of a seed.
pub const HELPERS: &[(&str, fn(&mut Rng) -> (u64, u64))] = &[
    ("find_root", |r| {
        let (f0, w) = (r.range(-1., 0.5), C::new(r.range(-1., 1.), r.range(0.2, 2.)));
        match qcd_sme::utils::find_root(&|z: C| qcd_sme::ym::gluon::dressing_inv_landau(z * z, f0), (w, w * 1.1), 1e-9, 60) { Some((z, v)) => { let (a, b) = rbits(z); let (c, d) = rbits(v); (a ^ c.rotate_left(7), b ^ d.rotate_left(9)) } None => (1, 2) }
    }),
    ("compute_residue", |r| { let f0 = r.range(-1., 0.5); rbits(qcd_sme::utils::compute_residue(&|z: C| qcd_sme::ym::gluon::propagator_landau(z, f0), C::new(r.range(-3., 3.), r.range(0.1, 2.)))) }),
    ("spectral_function", |r| { let f0 = r.range(-1., 0.5); rbits(qcd_sme::utils::spectral_function(|z: C| qcd_sme::ym::gluon::propagator_landau(-z * z, f0), C::new(r.range(0.1, 3.), 0.))) }),
    ("find_critical_temperature", |r| {
        let n = 2 + r.below(40);
        let t: Vec<f64> = (0..n).map(|i| i as f64 * 0.1).collect();
        let d: Vec<f64> = (0..n).map(|_| r.f()).collect();
        (tc_long_prop::find_critical_temperature(&t, &d).to_bits(), 0)
    }),
    ("is_deconfined_phase", |r| {
        let pb: Vec<(f64, f64)> = (0..2 + r.below(20)).map(|i| (i as f64 * 0.1, 1. - 0.02 * i as f64)).collect();
        (tc_long_prop::is_deconfined_phase(r.range(0., 2.), r.range(0., 2.), &pb) as u64, 0)
    }),
    ("parametrize_phase_boundary", |r| {
        let pb: Vec<(f64, f64)> = (0..12 + r.below(20)).map(|i| (i as f64 * 0.1, 1. - 0.02 * (i as f64 * r.f()))).collect();
        let v = tc_long_prop::parametrize_phase_boundary(&pb, 1 + r.below(4), None);
        (v.iter().fold(v.len() as u64, |h, x| h.rotate_left(5) ^ x.to_bits()), 0)
    }),
];
