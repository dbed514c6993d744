//! Finding monitored entry points by key.
use crate::{table, F, FC, FM, G};
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, C};
use std::collections::HashMap;
use std::sync::OnceLock;

type Map<T> = HashMap<(&'static str, u32), &'static T>;
fn funs() -> &'static Map<F> { static M: OnceLock<Map<F>> = OnceLock::new(); M.get_or_init(|| table::FUNS.iter().map(|f| ((f.key, f.mask), f)).collect()) }
fn meths() -> &'static Map<FM> { static M: OnceLock<Map<FM>> = OnceLock::new(); M.get_or_init(|| table::METHODS.iter().map(|f| ((f.key, f.mask), f)).collect()) }
fn confs() -> &'static Map<FC> { static M: OnceLock<Map<FC>> = OnceLock::new(); M.get_or_init(|| table::CONFIGS.iter().map(|f| ((f.key, f.mask), f)).collect()) }

pub fn fun(key: &str, mask: u32) -> &'static F {
    try_fun(key, mask).unwrap_or_else(|| panic!("no function {key} {mask}"))
}
pub fn try_fun(key: &str, mask: u32) -> Option<&'static F> { let k: &'static str = unsafe { std::mem::transmute(key) }; funs().get(&(k, mask)).copied() }
pub fn meth(key: &str, mask: u32) -> &'static FM { try_meth(key, mask).unwrap_or_else(|| panic!("no method {key} {mask}")) }
pub fn try_meth(key: &str, mask: u32) -> Option<&'static FM> { let k: &'static str = unsafe { std::mem::transmute(key) }; meths().get(&(k, mask)).copied() }
pub fn conf(key: &str, mask: u32) -> &'static FC { try_conf(key, mask).unwrap_or_else(|| panic!("no config function {key} {mask}")) }
pub fn try_conf(key: &str, mask: u32) -> Option<&'static FC> { let k: &'static str = unsafe { std::mem::transmute(key) }; confs().get(&(k, mask)).copied() }
#[allow(dead_code)]
pub fn call(key: &str, mask: u32, a: &[C]) -> C { (fun(key, mask).f)(a) }
#[allow(dead_code)]
pub fn callm(key: &str, mask: u32, a: &[C], m: Integral) -> C { (meth(key, mask).f)(a, m) }
#[allow(dead_code)]
pub fn callc(key: &str, mask: u32, a: &[C], c: &FieldConfig) -> C { (conf(key, mask).f)(a, c) }
#[allow(dead_code)]
pub fn ffi() -> &'static [G] { table::FFI }

/// Position of a parameter.
pub fn pos(params: &[&str], p: &str) -> Option<usize> { params.iter().position(|x| *x == p) }

/// The documented initial values of the global parameters.
pub fn reset_globals() {
    use qcd_sme::consts::*;
    set_number_of_colors(3);
    set_number_of_fermions(1);
    set_default_quark_mass(0.5);
    set_default_tol_integral(1e-10);
    set_default_max_iter_integral(50);
    set_matsubara_reg(1e-5);
}
