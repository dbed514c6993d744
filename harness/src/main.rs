mod any;
mod compose;
mod deriv;
mod ffi;
mod field;
mod gen;
mod globals;
mod integ;
mod limits;
mod lookup;
mod quad;
mod reference;
mod rng;
mod stat;
mod sym;
mod tc;
mod utils;
mod run;
mod table;
mod therm;
mod htl;
mod phys;
mod value;

use num as _;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, C};
use std::sync::Arc;

/// A native function at one real/complex instantiation.
pub struct F { pub key: &'static str, pub params: &'static [&'static str], pub mask: u32, pub ret_c: bool, pub f: fn(&[C]) -> C }
/// A native function that takes an integration method.
pub struct FM { pub key: &'static str, pub params: &'static [&'static str], pub mask: u32, pub ret_c: bool, pub f: fn(&[C], Integral) -> C }
/// A native function that takes a field configuration.
pub struct FC { pub key: &'static str, pub params: &'static [&'static str], pub mask: u32, pub ret_c: bool, pub f: fn(&[C], &FieldConfig) -> C }
/// An exported C function and the native function it stands for.
pub struct G { pub sym: &'static str, pub key: &'static str, pub params: &'static [&'static str], pub mask: u32, pub ret_c: bool, pub f: fn(&[C]) -> C }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "c22-oracle" { phys::oracle(); return; }
    if a[1] == "c27-oracle" { phys::survey_oracle(); return; }
    if a[1] == "ffi-dump" { ffi::dump(&a[2..]); return; }
    if a[1] == "child23" { ffi::child(&a[2..]); return; }
    if a[1] == "child" { globals::child(&a[2..]); return; }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let run = Arc::new(run::Run::new(&a[1], &root));
    if std::env::var("MON_VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    run.watchdog();
    if a[1] == "race" { globals::run_c12_race(&run); std::process::exit(if run.n_violations() > 0 { 1 } else { 0 }); }
    match a[1].as_str() {
        "C01" => value::run_c01(&run),
        "C02" => value::run_c02(&run),
        "C03" => value::run_c03(&run),
        "C04" => integ::run_c04(&run),
        "C05" => compose::run_c05(&run),
        "C06" => limits::run_c06(&run),
        "C09" => globals::run_c09(&run),
        "C12" => globals::run_c12(&run),
        "C07" => ffi::run_c07(&run),
        "C23" => ffi::run_c23(&run),
        "C10" => field::run_c10(&run),
        "C11" => field::run_c11(&run),
        "C25" => field::run_c25(&run),
        "C16" => stat::run_c16(&run),
        "C17" => stat::run_c17(&run),
        "C18" => utils::run_c18(&run),
        "C19" => utils::run_c19(&run),
        "C20" => tc::run_c20(&run),
        "C21" => tc::run_c21(&run),
        "C24" => deriv::run_c24(&run),
        "C15" => therm::run_c15(&run),
        "C26" => htl::run_c26(&run),
        "C13" => sym::run_c13(&run),
        "C14" => sym::run_c14(&run),
        x => { eprintln!("unknown property {x}"); std::process::exit(2) }
    }
    std::process::exit(run.finish());
}
