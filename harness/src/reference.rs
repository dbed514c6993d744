//! Safe interface to the C++ reference model.
use qcd_sme::C;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

extern "C" {
    fn ref_set_ctx(nc: f64, nf: f64);
    fn ref_index(key: *const c_char) -> c_int;
    fn ref_eval(idx: c_int, args: *const f64, n: c_int, out: *mut f64);
    fn ref_integral(
        idx: c_int, args: *const f64, n: c_int, var: c_int, lo: f64, hi: f64, splits: *const f64, ns: c_int,
        rtol: f64, maxseg: c_int, out: *mut f64,
    );
}

/// A reference value: `err` bounds the error an honest double evaluation may have.
#[derive(Clone, Copy, Debug)]
pub struct Val { pub v: C, pub err: f64, pub ambiguous: bool, pub extreme: bool }

/// Parameters whose complex instantiation makes the exponents complex: these overflow to NaN.
fn thermal_complex(params: &[&str], mask: u32) -> bool {
    params.iter().enumerate().any(|(i, p)| mask >> i & 1 == 1 && (p.starts_with('m') || *p == "en"))
}

pub fn set_ctx(nc: u32, nf: u32) { unsafe { ref_set_ctx(nc as f64, nf as f64) } }

pub fn index(key: &str) -> Option<i32> {
    let c = CString::new(key).unwrap();
    let i = unsafe { ref_index(c.as_ptr()) };
    (i >= 0).then_some(i)
}

pub fn eval(idx: i32, args: &[C]) -> Val { eval_at(idx, args, true) }

/// For a function whose exponents are real, exponents may overflow.
pub fn eval_cold(idx: i32, args: &[C], params: &[&str], mask: u32) -> Val { eval_at(idx, args, thermal_complex(params, mask)) }

fn eval_at(idx: i32, args: &[C], no_cold: bool) -> Val {
    let mut o = [0f64; 4];
    assert!(args.len() <= 12);
    unsafe { ref_eval(idx, args.as_ptr() as *const f64, args.len() as c_int, o.as_mut_ptr()) };
    let fl = o[3] as u32;
    Val { v: C::new(o[0], o[1]), err: o[2], ambiguous: fl & 1 != 0, extreme: fl & 2 != 0 || no_cold && fl & 4 != 0 }
}

pub fn eval_key(key: &str, args: &[C]) -> Val {
    eval(index(key).unwrap_or_else(|| panic!("no reference for {key}")), args)
}

#[derive(Clone, Copy, Debug)]
pub struct Int { pub v: C, pub err: f64, pub mag: f64, pub evals: f64, pub tiny: f64 }

/// Integral of a reference integrand over its argument `var` in (lo, hi).
pub fn integral(key: &str, args: &[C], var: usize, lo: f64, hi: f64, splits: &[f64], rtol: f64, maxseg: usize) -> Int {
    integral_idx(index(key).unwrap_or_else(|| panic!("no reference for {key}")), args, var, lo, hi, splits, rtol, maxseg)
}
#[allow(clippy::too_many_arguments)]
pub fn integral_idx(idx: i32, args: &[C], var: usize, lo: f64, hi: f64, splits: &[f64], rtol: f64, maxseg: usize) -> Int {
    let mut o = [0f64; 6];
    unsafe {
        ref_integral(
            idx, args.as_ptr() as *const f64, args.len() as c_int, var as c_int, lo, hi, splits.as_ptr(),
            splits.len() as c_int, rtol, maxseg as c_int, o.as_mut_ptr(),
        )
    };
    Int { v: C::new(o[0], o[1]), err: o[2], mag: o[3], evals: o[4], tiny: o[5] }
}
