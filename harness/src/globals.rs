//! C09: global parameters as registers.  C12: determinism.
use crate::any::{rbits, Any, Call, HELPERS};
use crate::lookup;
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use qcd_sme::{consts::*, Integral};
use serde_json::json;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The exported symbols, as a foreign caller reaches them.
mod sym {
    extern "C" {
        pub fn get_number_of_colors() -> u32;
        pub fn set_number_of_colors(n: u32);
        pub fn get_number_of_fermions() -> u32;
        pub fn set_number_of_fermions(n: u32);
        pub fn get_default_quark_mass() -> f64;
        pub fn set_default_quark_mass(m: f64);
        pub fn get_default_tol_integral() -> f64;
        pub fn set_default_tol_integral(t: f64);
        pub fn get_default_max_iter_integral() -> u32;
        pub fn set_default_max_iter_integral(n: u32);
        pub fn get_matsubara_reg() -> f64;
        pub fn set_matsubara_reg(r: f64);
    }
}
const NAMES: [&str; 6] = ["number_of_colors", "number_of_fermions", "default_quark_mass", "default_tol_integral", "default_max_iter_integral", "matsubara_reg"];

/// The six registers, as bits.
pub type Regs = [u64; 6];
const INITIAL: fn() -> Regs = || [3, 1, 0.5f64.to_bits(), 1e-10f64.to_bits(), 50, 1e-5f64.to_bits()];

fn read(foreign: bool) -> Regs {
    if foreign {
        unsafe { [sym::get_number_of_colors() as u64, sym::get_number_of_fermions() as u64, sym::get_default_quark_mass().to_bits(), sym::get_default_tol_integral().to_bits(), sym::get_default_max_iter_integral() as u64, sym::get_matsubara_reg().to_bits()] }
    } else {
        [get_number_of_colors() as u64, get_number_of_fermions() as u64, get_default_quark_mass().to_bits(), get_default_tol_integral().to_bits(), get_default_max_iter_integral() as u64, get_matsubara_reg().to_bits()]
    }
}
fn write(i: usize, v: u64, foreign: bool) {
    let f = f64::from_bits(v);
    unsafe {
        match (i, foreign) {
            (0, false) => set_number_of_colors(v as u32), (0, true) => sym::set_number_of_colors(v as u32),
            (1, false) => set_number_of_fermions(v as u32), (1, true) => sym::set_number_of_fermions(v as u32),
            (2, false) => set_default_quark_mass(f), (2, true) => sym::set_default_quark_mass(f),
            (3, false) => set_default_tol_integral(f), (3, true) => sym::set_default_tol_integral(f),
            (4, false) => set_default_max_iter_integral(v as u32), (4, true) => sym::set_default_max_iter_integral(v as u32),
            (5, false) => set_matsubara_reg(f), (_, _) => sym::set_matsubara_reg(f),
        }
    }
}
/// NaNs all count as the same value.
fn norm(i: usize, v: u64) -> u64 { if [2, 3, 5].contains(&i) && f64::from_bits(v).is_nan() { f64::NAN.to_bits() } else { v } }
fn show(r: &Regs) -> Vec<String> { (0..6).map(|i| if [2, 3, 5].contains(&i) { format!("{:?}", f64::from_bits(r[i])) } else { r[i].to_string() }).collect() }
fn method_is(tol: u64, n: u64) -> Result<(), String> {
    match get_default_integration_method() {
        Integral::G7K15(t, m) if norm(3, t.to_bits()) == norm(3, tol) && m as u64 == n => Ok(()),
        x => Err(format!("{x:?}")),
    }
}

/// An acceptable value for a register.
fn value(r: &mut Rng, i: usize) -> u64 {
    match i {
        0 | 1 | 4 => match r.below(6) { 0 => 0, 1 => u32::MAX as u64, 2 => r.u64() as u32 as u64, _ => r.below(12) as u64 },
        2 => match r.below(5) { 0 => r.u64(), 1 => f64::NAN.to_bits(), 2 => (-0.0f64).to_bits(), _ => r.range(-3., 3.).to_bits() },
        _ => match r.below(5) { 0 => 1, 1 => f64::INFINITY.to_bits(), 2 => f64::MAX.to_bits(), 3 => r.log(1e-300, 1e300).to_bits(), _ => r.log(1e-12, 1e-1).to_bits() },
    }
}
/// A value that makes for quick computations.
fn tame(r: &mut Rng, i: usize) -> u64 {
    match i {
        0 => 1 + r.below(8) as u64,
        1 => r.below(7) as u64,
        2 => r.range(0.1, 2.).to_bits(),
        3 => r.log(1e-6, 1e-2).to_bits(),
        4 => 4 + r.below(10) as u64,
        _ => r.log(1e-6, 1e-2).to_bits(),
    }
}

/// The parameters a function may depend on.
fn allowed(e: &Any) -> [bool; 6] {
    let k = e.key();
    let plain = matches!(e, Any::Fun(_));
    let loop_f = plain && (k.starts_with("qcd::gluon::") || k.starts_with("qcdt::gluon::") || k.starts_with("qcdt_zf::gluon::") || k.starts_with("qcdt_zm::gluon::"));
    let nc = loop_f || k.contains("polarization_quark") || (k.contains("charge_density") && !k.ends_with("_i")) || k.contains("chemical_potential");
    let int = e.integrates();
    let reg = k.contains("zf::") && (int || matches!(e, Any::Meth(_)));
    [nc, loop_f, false, int, int, reg]
}

pub fn child(args: &[String]) {
    match args[0].as_str() {
        "init" => {
            let seed: u64 = args[1].parse().unwrap();
            let before = read(false);
            let foreign = read(true);
            let m = format!("{:?}", get_default_integration_method());
            let v: Vec<(u64, u64)> = init_jobs(seed).iter().map(|(e, c)| rbits(e.raw(c))).collect();
            println!("{}", json!({"regs": before, "foreign": foreign, "method": m, "values": v, "after": read(false)}));
        }
        "reject" => {
            let i: usize = args[1].parse().unwrap();
            let v = u64::from_str_radix(&args[2], 16).unwrap();
            let foreign = args[3] == "true";
            let mut r = Rng::stream(args[4].parse().unwrap(), 95, 0);
            for j in 0..6 { write(j, tame(&mut r, j), r.p(0.5)); }
            let set = read(false);
            println!("{}", json!({"set": set}));
            // a rejected value may end the process: look at the registers at the moment of the panic
            std::panic::set_hook(Box::new(move |_| { println!("{}", json!({"panic": true, "regs": read(false), "foreign": read(true), "method": format!("{:?}", get_default_integration_method())})); }));
            let _ = std::panic::catch_unwind(|| write(i, v, foreign));
            println!("{}", json!({"panic": false, "regs": read(false), "foreign": read(true), "method": format!("{:?}", get_default_integration_method())}));
        }
        "jobs" => {
            let (seed, n, part, of): (u64, usize, usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
            state(args[5].parse().unwrap());
            let jobs = jobs(seed, n);
            let mut idx: Vec<usize> = (0..jobs.len()).filter(|i| i % of == part).collect();
            shuffle(&mut Rng::stream(seed, 96, part as u64), &mut idx);
            for i in idx { let (a, b) = jobs[i].exec(); println!("job {i} {a:x} {b:x}"); }
        }
        _ => unreachable!(),
    }
}
fn init_jobs(seed: u64) -> Vec<(Any, Call)> {
    let all = Any::all();
    (0..all.len()).map(|i| { let mut r = Rng::stream(seed, 97, i as u64); let e = all[i]; let c = e.draw(&mut r); (e, c) })
        // tight default tolerances make the regulated ones slow
        .filter(|(e, _)| !(e.integrates() && (e.key().contains("zf::") || e.key().contains("chemical_potential"))))
        // and large frequencies hide small integrals in rounding noise
        .map(|(e, mut c)| { if e.integrates() { let mut r = Rng::stream(seed, 98, 0); for (k, p) in e.params().iter().enumerate() { let x = r.range(0.9, 1.1); match *p { "om" | "p" => c.a[k] = qcd_sme::C::new(x, if e.mask() >> k & 1 == 1 { 0.1 } else { 0. }), "m" | "mq" => c.a[k].re = 0.7 * x, "beta" => c.a[k].re = x, "mu" => c.a[k].re = 0.5 * x, _ => {} } } c.k.gluon = 0.7; for q in &mut c.k.quarks { q.1 = q.1.clamp(0.3, 2.); } } (e, c) }).collect()
}
fn spawn(args: &[String]) -> (Option<i32>, Vec<String>) {
    let o = Command::new(std::env::current_exe().unwrap()).arg("child").args(args).output().expect("child");
    (o.status.code(), String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

pub fn run_c09(run: &Run) {
    *run.rule.lock().unwrap() = "random histories of native and foreign setter calls with all getters and the default integration method read after every step against six shadow registers; every function evaluated under changes of each single parameter against its documented dependencies; results after random histories compared bit for bit with those after setting the same values directly; fresh and rejecting processes; non-trivial = a step that changes a register, a result that changes with a parameter it may depend on".into();
    let t0 = run.secs();
    // 1. histories
    let n = run.n(400_000, 20_000_000);
    let mut shadow = read(false);
    let mut r = Rng::stream(run.seed, 90, 0);
    for step in 0..n {
        let i = r.below(6);
        let v = if r.p(0.2) { shadow[i] } else { value(&mut r, i) };
        let foreign = r.p(0.5);
        run.evals.fetch_add(1, Relaxed);
        write(i, v, foreign);
        let old = shadow;
        shadow[i] = v;
        let (a, b) = (read(false), read(true));
        for j in 0..6 {
            if norm(j, a[j]) != norm(j, shadow[j]) || norm(j, b[j]) != norm(j, shadow[j]) {
                run.violation(NAMES[j], json!({"what": "register does not hold the last value set", "step": step, "set": NAMES[i], "to": format!("{v:x}"), "foreign": foreign, "before": show(&old), "native getters": show(&a), "foreign getters": show(&b)}));
                shadow = a;
            }
        }
        if let Err(e) = method_is(shadow[3], shadow[4]) { run.violation("get_default_integration_method", json!({"got": e, "registers": show(&shadow)})); }
        if norm(i, old[i]) != norm(i, v) { run.distinct((i, v, foreign)); }
        if run.stopped() { lookup::reset_globals(); return; }
    }
    run.max("ms histories", (run.secs() - t0) * 1e3);
    // 2. dependencies
    let t0 = run.secs();
    let all = Any::all();
    let base: Regs = [3, 1, 0.5f64.to_bits(), 1e-5f64.to_bits(), 12, 1e-4f64.to_bits()];
    let set = |s: &Regs| for j in 0..6 { write(j, s[j], j % 2 == 0) };
    let changes: [Vec<u64>; 6] = [vec![5, 1, 2], vec![2, 0, 6], vec![2f64.to_bits(), 1e-3f64.to_bits()], vec![1e-1f64.to_bits(), 1e-7f64.to_bits(), 1e-14f64.to_bits()], vec![2, 1, 15], vec![1e-2f64.to_bits(), 1e-6f64.to_bits()]];
    let reps = run.n(12, 200);
    let hit: Vec<[AtomicU64; 6]> = all.iter().map(|_| Default::default()).collect();
    set(&base);
    let calls: Vec<Vec<Call>> = all.iter().enumerate().map(|(i, e)| { let mut r = Rng::stream(run.seed, 91, i as u64); (0..reps).map(|j| { let mut c = e.draw(&mut r); if e.key().ends_with("_i") || e.key().contains("zero_temp") { for _ in 0..20 { if run.call(|| e.key().into(), || e.raw(&c)).is_ok_and(|x| x.norm() > 0. && x.norm().is_finite()) { break; } c = e.draw(&mut r); } } if let (1, Some(k)) = (j % 2, lookup::pos(e.params(), "mu")) { if e.integrates() { c.a[k].re = r.sign() * r.range(5., 9.); } } c }).collect() }).collect();
    let refs: Vec<Vec<std::sync::Mutex<(u64, u64)>>> = calls.iter().map(|v| v.iter().map(|_| Default::default()).collect()).collect();
    let eval = |k: usize, j: usize| all[k].call(run, &calls[k][j]).map(rbits).unwrap_or_else(|e| {
        // a density cannot be inverted to a tolerance that the quadrature does not reach
        if all[k].key().ends_with("chemical_potential") { run.count("densities not inverted", 1); } else { run.violation(all[k].key(), json!({"panic": e})); }
        (0, 0)
    });
    run.par(all.len() * reps, |i| { let (k, j) = (i % all.len(), i / all.len()); *refs[k][j].lock().unwrap() = eval(k, j); });
    // values under the first change of each parameter
    let moved: Vec<Vec<std::sync::Mutex<(u64, u64)>>> = (0..6).map(|_| (0..all.len() * reps).map(|_| Default::default()).collect()).collect();
    for p in 0..6 {
        for v in &changes[p] {
            set(&base);
            write(p, *v, true);
            run.par(all.len() * reps, |i| {
                let (k, j) = (i % all.len(), i / all.len());
                let x = eval(k, j);
                if *v == changes[p][0] { *moved[p][i].lock().unwrap() = x; }
                if x != *refs[k][j].lock().unwrap() {
                    if allowed(&all[k])[p] { hit[k][p].fetch_add(1, Relaxed); }
                    else { run.violation(all[k].key(), json!({"what": format!("depends on {}", NAMES[p]), "mask": all[k].mask(), "call": format!("{:?}", calls[k][j]), "bits": bits(&calls[k][j].a), "value": format!("{v:x}")})); }
                }
            });
        }
    }
    for (k, e) in all.iter().enumerate() {
        let w = allowed(e);
        let h: Vec<u64> = hit[k].iter().map(|x| x.load(Relaxed)).collect();
        // zeros and NaNs show nothing
        let telling = refs[k].iter().filter(|x| { let x = x.lock().unwrap(); let f = |b| { let v = f64::from_bits(b); v.is_finite() && v != 0. }; f(x.0) || f(x.1) }).count();
        if telling < 4 { run.count("functions with few telling calls", 1); continue; }
        for p in 0..6 {
            // depth and tolerance limit each other; one of them must show
            let seen = if p == 3 || p == 4 { h[3] + h[4] } else { h[p] };
            if w[p] && seen == 0 { run.violation(e.key(), json!({"what": format!("does not depend on {}", NAMES[p]), "mask": e.mask(), "calls": reps, "settings": changes[p].len()})); }
            if w[p] && h[p] > 0 { run.distinct((e.key(), e.mask(), p)); run.count("function-parameter dependencies seen", 1); }
            if !w[p] { run.count("function-parameter independences held", 1); }
        }
    }
    run.max("ms dependencies", (run.secs() - t0) * 1e3);
    // 2b. one and the same call before, under and after a change, with nothing in between
    let t0 = run.secs();
    set(&base);
    let few = run.n(3, 20).min(reps);
    'same: for j in 0..few { for (k, e) in all.iter().enumerate() { for p in 0..6 {
        if !allowed(e)[p] { continue; }
        let want = (*refs[k][j].lock().unwrap(), *moved[p][j * all.len() + k].lock().unwrap());
        let a = eval(k, j);
        write(p, changes[p][0], j % 2 == 0);
        let b = eval(k, j);
        write(p, base[p], j % 2 == 1);
        let c = eval(k, j);
        if a != want.0 || b != want.1 || c != want.0 { run.violation(e.key(), json!({"what": "the same call does not follow the parameter", "parameter": NAMES[p], "mask": e.mask(), "call": format!("{:?}", calls[k][j]), "bits": bits(&calls[k][j].a), "before, changed, back": format!("{:x?}", [a, b, c]), "want": format!("{want:x?}")})); }
        else if a != b { run.distinct((e.key(), e.mask(), p, j, "same call")); }
        if run.stopped() { break 'same; }
    } } }
    run.max("ms same call", (run.secs() - t0) * 1e3);
    // 3. the current values only: histories that end at the same values
    let t0 = run.secs();
    for g in 0..run.n(60, 2000) {
        let mut r = Rng::stream(run.seed, 92, g as u64);
        let mut goal = [0; 6];
        for (j, x) in goal.iter_mut().enumerate() { *x = tame(&mut r, j); }
        for j in 0..6 { write(j, goal[j], false); }
        let js: Vec<(usize, Call)> = (0..60).map(|_| { let k = r.below(all.len()); let c = all[k].draw(&mut r); (k, c) }).filter(|(k, _)| all[*k].key() != "qcdt::quark::chemical_potential").collect();
        let want: Vec<(u64, u64)> = js.iter().map(|(k, c)| rbits(all[*k].raw(c))).collect();
        run.evals.fetch_add(2 * js.len() as u64, Relaxed);
        if read(false) != goal || read(true) != goal { run.violation("a computation changes a parameter", json!({"goal": show(&goal), "now": show(&read(false))})); }
        // wander off, computing on the way, and come back in another order
        for _ in 0..r.below(30) {
            let i = r.below(6); write(i, tame(&mut r, i), r.p(0.5));
            if r.p(0.3) { let (k, c) = r.pick(&js); let _ = all[*k].raw(c); }
        }
        let mut order = [0, 1, 2, 3, 4, 5];
        shuffle(&mut r, &mut order);
        for i in order { write(i, goal[i], r.p(0.5)); if r.p(0.1) { let (k, c) = r.pick(&js); let _ = all[*k].raw(c); } }
        for ((k, c), w) in js.iter().zip(&want) {
            let x = rbits(all[*k].raw(c));
            if x != *w { run.violation(all[*k].key(), json!({"what": "depends on the history of the parameters", "registers": show(&goal), "last set": order.map(|i| NAMES[i]), "call": format!("{c:?}"), "got": format!("{x:x?}"), "want": format!("{w:x?}")})); }
            else { run.distinct_args(all[*k].key(), all[*k].mask() + 77, &c.a); }
        }
        if run.stopped() { break; }
    }
    lookup::reset_globals();
    run.max("ms arrivals", (run.secs() - t0) * 1e3);
    // 4. a fresh process has the documented initial values
    let t0 = run.secs();
    let (_, out) = spawn(&["init".into(), run.seed.to_string()]);
    let v: serde_json::Value = out.last().and_then(|l| serde_json::from_str(l).ok()).unwrap_or_default();
    for w in ["regs", "foreign", "after"] {
        if v[w] != json!(INITIAL()) { run.violation("initial values", json!({"what": w, "got": v[w], "want": show(&INITIAL())})); }
    }
    if v["method"] != json!(format!("{:?}", Integral::G7K15(1e-10, 50))) { run.violation("initial default integration method", json!({"got": v["method"]})); }
    let jobs = init_jobs(run.seed);
    let mine: Vec<std::sync::Mutex<(u64, u64)>> = jobs.iter().map(|_| Default::default()).collect();
    run.par(jobs.len(), |i| { let (e, c) = &jobs[i]; *mine[i].lock().unwrap() = e.call(run, c).map(rbits).unwrap_or_default(); });
    for (i, (e, c)) in jobs.iter().enumerate() {
        let m = *mine[i].lock().unwrap();
        if v["values"][i] != json!(m) { run.violation(e.key(), json!({"what": "in a fresh process differs from the value under the documented initial parameters", "call": format!("{c:?}"), "fresh": v["values"][i], "here": m})); }
        else { run.distinct_args(e.key(), e.mask() + 99, &c.a); }
    }
    run.count("fresh-process values", jobs.len() as u64);
    run.max("ms fresh process", (run.secs() - t0) * 1e3);
    // 5. rejected values
    let bad: &[f64] = &[0., -0., -1., -1e-10, -5e-324, f64::NEG_INFINITY, -f64::MAX];
    let work: Vec<(usize, f64, bool)> = [3usize, 5].iter().flat_map(|i| bad.iter().flat_map(move |b| [(*i, *b, false), (*i, *b, true)])).collect();
    run.par(work.len(), |w| {
        let (i, b, foreign) = work[w];
        let (_, out) = spawn(&["reject".into(), i.to_string(), format!("{:x}", b.to_bits()), foreign.to_string(), (run.seed + w as u64).to_string()]);
        run.evals.fetch_add(1, Relaxed);
        let l: Vec<serde_json::Value> = out.iter().filter_map(|l| serde_json::from_str(l).ok()).collect();
        if l.len() < 2 { run.violation(NAMES[i], json!({"what": "no trace of the rejecting process", "value": format!("{b:?}"), "out": out})); return; }
        for x in &l[1..] {
            if x["regs"] != l[0]["set"] || x["foreign"] != l[0]["set"] { run.violation(NAMES[i], json!({"what": "a rejected value changed the parameters", "value": format!("{b:?}"), "foreign setter": foreign, "before": l[0]["set"], "after": x})); return; }
            let (t, n) = (f64::from_bits(l[0]["set"][3].as_u64().unwrap()), l[0]["set"][4].as_u64().unwrap() as u32);
            if x["method"] != json!(format!("{:?}", Integral::G7K15(t, n))) { run.violation("get_default_integration_method", json!({"what": "changed by a rejected value", "value": format!("{b:?}"), "got": x["method"]})); return; }
        }
        run.distinct((i, b.to_bits(), foreign, "rejected"));
        run.count("rejected values", 1);
    });
}

/// ---- C12 ----
#[derive(Clone)]
pub enum Job { Call(Any, Call), Help(usize, u64) }
impl Job {
    fn exec(&self) -> (u64, u64) { match self { Job::Call(e, c) => rbits(e.raw(c)), Job::Help(i, s) => HELPERS[*i].1(&mut Rng::new(*s)) } }
    fn key(&self) -> &'static str { match self { Job::Call(e, _) => e.key(), Job::Help(i, _) => HELPERS[*i].0 } }
    fn describe(&self) -> String { match self { Job::Call(e, c) => format!("{} {} {:?} {c:?}", e.key(), e.mask(), fmt(&c.a)), Job::Help(i, s) => format!("{} {s}", HELPERS[*i].0) } }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) { for j in (1..v.len()).rev() { let l = r.below(j + 1); v.swap(j, l); } }

/// Clusters of calls: one call, neighbours that differ from it in one argument, and
/// the same call once more.
pub fn jobs(seed: u64, per: usize) -> Vec<Job> {
    let mut out = vec![];
    for (i, e) in Any::all().into_iter().enumerate() {
        for j in 0..per {
            let mut r = Rng::stream(seed, 120 + i as u64, j as u64);
            let mut c = e.draw(&mut r);
            c.tol = 1e-4; c.depth = 10;
            // at a poor tolerance only large densities are inverted
            if e.key().ends_with("quark::chemical_potential") { c.a = vec![qcd_sme::C::from(r.range(0.2, 1.)), qcd_sme::C::from(r.range(1., 4.)), qcd_sme::C::from(r.sign() * r.range(0.5, 3.))]; }
            if e.key().ends_with("chemical_potential_with_method") { c.tol = 1e-6 * c.a[2].norm(); c.depth = 30; c.kind = 0; }
            out.push(Job::Call(e, c.clone()));
            for k in 0..c.a.len() {
                let mut d = c.clone();
                let f = if r.p(0.3) { 1. + 1e-9 } else { r.range(0.8, 1.3) };
                if e.params()[k] != "q" { d.a[k] *= f; } else { d.a[k] *= 1.1; }
                out.push(Job::Call(e, d));
            }
            match e {
                Any::Meth(_) if !e.key().contains("chemical") => { let mut d = c.clone(); d.depth += 1; out.push(Job::Call(e, d)); let mut d = c.clone(); d.tol *= 0.1; out.push(Job::Call(e, d)); let mut d = c.clone(); d.kind = (d.kind + 1) % 6; out.push(Job::Call(e, d)); }
                Any::Conf(_) => { let mut d = c.clone(); d.k.nc += 1; out.push(Job::Call(e, d.clone())); d.k.gluon *= 1.1; out.push(Job::Call(e, d.clone())); if let Some(q) = d.k.quarks.first_mut() { q.0 += 1; } else { d.k.quarks.push((1, 0.5)); } out.push(Job::Call(e, d)); }
                _ => {}
            }
            out.push(Job::Call(e, c));
        }
    }
    for i in 0..HELPERS.len() { for j in 0..if HELPERS[i].0.starts_with("param") { 3 } else { 40 * per } { out.push(Job::Help(i, seed.wrapping_mul(1000) + j as u64)); } }
    out
}
pub fn state(i: usize) {
    let (nc, nf, tol, depth, reg) = [(3, 1, 1e-4, 10, 1e-4), (2, 4, 1e-3, 7, 1e-3), (5, 0, 1e-5, 9, 1e-2)][i];
    set_number_of_colors(nc); set_number_of_fermions(nf); set_default_quark_mass(0.5);
    set_default_tol_integral(tol); set_default_max_iter_integral(depth); set_matsubara_reg(reg);
}

pub fn run_c12(run: &Run) {
    *run.rule.lock().unwrap() = "clusters of neighbouring calls of every function: one order in one thread is the recorded history, compared bit for bit with shuffled orders in 1 to 32 threads with random yields, with simultaneous calls of one function, with immediate repetition, under parameters changed and restored, and with fresh processes that execute subsets; non-trivial = distinct call compared".into();
    let per = run.n(3, 30);
    let jobs = jobs(run.seed, per);
    run.count("calls", jobs.len() as u64);
    // which calls each thread has just run, to tell interleavings apart
    let hash = AtomicU64::new(0);
    let mut base: Vec<Vec<(u64, u64)>> = vec![];
    for s in 0..3 {
        state(s);
        base.push(jobs.iter().map(|j| run.call_watched(|| j.describe(), || j.exec()).unwrap_or((7, 7))).collect());
    }
    run.max("ms base", run.secs() * 1e3);
    let compare = |i: usize, x: Result<(u64, u64), String>, s: usize, how: String| {
        match x {
            Ok(x) if x == base[s][i] => { run.judged.fetch_add(1, Relaxed); }
            x => run.violation(jobs[i].key(), json!({"what": how, "call": jobs[i].describe(), "bits": match &jobs[i] { Job::Call(_, c) => bits(&c.a), _ => vec![] }, "got": format!("{x:x?}"), "first": format!("{:x?}", base[s][i])})),
        }
    };
    for (i, j) in jobs.iter().enumerate() { run.distinct((i, j.describe())); }
    let mut rounds: Vec<(usize, usize)> = vec![(1, 0), (2, 0), (8, 0), (32, 0), (8, 1), (16, 2), (8, 0)];
    if run.thorough { for k in 0..40 { rounds.push(([1, 3, 8, 16, 32][k % 5], k % 3)); } }
    for (round, (threads, s)) in rounds.iter().enumerate() {
        state(*s);
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        shuffle(&mut Rng::stream(run.seed, 121, round as u64), &mut order);
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| for t in 0..*threads {
            let (order, jobs, compare, next, hash) = (&order, &jobs, &compare, &next, &hash);
            sc.spawn(move || {
                crate::run::SLOT.with(|x| x.set(t));
                let mut r = Rng::stream(run.seed, 122 + round as u64, t as u64);
                let mut h = 0u64;
                loop {
                    let n = next.fetch_add(1, Relaxed) as usize;
                    if n >= order.len() || run.stopped() { break; }
                    let i = order[n];
                    h = h.wrapping_mul(31).wrapping_add(i as u64);
                    match r.below(20) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(r.below(30) as u64)), _ => {} }
                    let x = run.call_watched(|| jobs[i].describe(), || jobs[i].exec());
                    compare(i, x, *s, format!("differs in round {round} ({threads} threads)"));
                    if r.p(0.1) { let x = run.call_watched(|| jobs[i].describe(), || jobs[i].exec()); compare(i, x, *s, format!("repeated in round {round}")); }
                }
                hash.fetch_xor(h, Relaxed);
                run.distinct(("history", round, t, h));
            });
        });
        if run.stopped() { break; }
    }
    run.max("ms rounds until", run.secs() * 1e3);
    // all threads in the same function at the same time
    state(0);
    let mut clusters: Vec<Vec<usize>> = vec![];
    for i in 0..jobs.len() { if i > 0 && jobs[i].key() == jobs[i - 1].key() { clusters.last_mut().unwrap().push(i); } else { clusters.push(vec![i]); } }
    let bar = std::sync::Barrier::new(8);
    std::thread::scope(|sc| for t in 0..8 {
        let (clusters, jobs, compare, bar) = (&clusters, &jobs, &compare, &bar);
        sc.spawn(move || {
            crate::run::SLOT.with(|x| x.set(t));
            for c in clusters {
                bar.wait();
                for k in 0..c.len().min(40) { let i = c[(k + t * 3) % c.len()]; let x = run.call_watched(|| jobs[i].describe(), || jobs[i].exec()); compare(i, x, 0, "simultaneous calls differ".into()); }
            }
        });
    });
    run.max("ms simultaneous until", run.secs() * 1e3);
    // all threads switching between two to four quick calls of one function
    let mut hammered = 0u64;
    for c in &clusters {
        if run.stopped() { break; }
        let mut quick: Vec<(u128, usize)> = c.iter().take(60).map(|i| { let t0 = std::time::Instant::now(); let _ = run.call_watched(|| jobs[*i].describe(), || jobs[*i].exec()); (t0.elapsed().as_nanos(), *i) }).collect();
        quick.sort();
        let mut r = Rng::stream(run.seed, 124, c[0] as u64);
        // a few sets, each of distinct values
        for set in 0..run.n(2, 6) {
            let mut pick: Vec<usize> = vec![];
            for _ in 0..30 { let i = quick[r.below(1 + quick.len() / (1 + set % 2))% quick.len()].1; if pick.iter().all(|j| base[0][*j] != base[0][i]) { pick.push(i); } if pick.len() == 2 + set % 3 { break; } }
            if pick.len() < 2 { continue; }
            let ms = run.n(5, 20) as u64;
            let n = AtomicU64::new(0);
            std::thread::scope(|sc| for t in 0..8 {
                let (pick, jobs, base, compare, bar, n) = (&pick, &jobs, &base, &compare, &bar, &n);
                sc.spawn(move || {
                    crate::run::SLOT.with(|x| x.set(t));
                    let mut r = Rng::stream(run.seed, 125 + set as u64, t as u64);
                    bar.wait();
                    let t0 = std::time::Instant::now();
                    let mut k = 0u64;
                    while k % 16 != 0 || t0.elapsed().as_millis() < ms as u128 {
                        let i = pick[r.below(pick.len())];
                        let x = run.call_watched(|| jobs[i].describe(), || jobs[i].exec());
                        k += 1;
                        if x != Ok(base[0][i]) { compare(i, x, 0, "differs while other threads make similar calls".into()); if run.stopped() { break; } }
                    }
                    n.fetch_add(k, Relaxed);
                });
            });
            hammered += n.load(Relaxed);
        }
    }
    run.count("calls under contention", hammered);
    run.max("ms contention until", run.secs() * 1e3);
    // parameters changed, used and restored, one thread
    let mut r = Rng::stream(run.seed, 123, 0);
    for k in 0..run.n(4000, 60000) {
        let i = r.below(jobs.len());
        let s = r.below(3);
        state(s);
        let x = run.call_watched(|| jobs[i].describe(), || jobs[i].exec());
        compare(i, x, s, format!("differs after the parameters were changed and restored ({k})"));
        if run.stopped() { break; }
    }
    run.max("ms restored until", run.secs() * 1e3);
    // fresh processes
    let of = run.n(16, 48);
    for s in 0..if run.thorough { 3 } else { 1 } {
        run.par(of, |p| {
            let (code, out) = spawn(&["jobs".into(), run.seed.to_string(), per.to_string(), p.to_string(), of.to_string(), s.to_string()]);
            let mut n = 0;
            for l in &out {
                // the fits print warnings
                let Some(l) = l.strip_prefix("job ") else { continue };
                let w: Vec<&str> = l.split(' ').collect();
                let i: usize = w[0].parse().unwrap();
                n += 1;
                compare(i, Ok((u64::from_str_radix(w[1], 16).unwrap(), u64::from_str_radix(w[2], 16).unwrap())), s, format!("a fresh process that executed every {of}th call in another order differs"));
            }
            let want = (0..jobs.len()).filter(|i| i % of == p).count();
            if code != Some(0) || n != want { run.violation("fresh process", json!({"exit": code, "results": n, "of": want})); }
        });
        run.count("fresh processes", of as u64);
    }
    run.count("interleaving_signature", hash.load(Relaxed) & 0xffff_ffff);
    lookup::reset_globals();
}

/// Many threads evaluating, without synchronization of their own, for the race detector.
pub fn run_c12_race(run: &Run) {
    let jobs = jobs(run.seed, run.n(1, 6));
    let mut total = 0u64;
    for round in 0..run.n(2, 8) {
        state(round % 3);
        let out: Vec<Vec<(u64, u64)>> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..8).map(|t| { let jobs = &jobs; sc.spawn(move || {
                let mut v = vec![(0, 0); jobs.len()];
                // everyone runs everything, at different offsets
                for k in 0..jobs.len() { let i = (k + t * if round % 2 == 0 { 1 } else { jobs.len() / 8 }) % jobs.len(); v[i] = jobs[i].exec(); }
                v
            }) }).collect();
            h.into_iter().map(|x| x.join().unwrap_or_default()).collect()
        });
        for v in &out { total += v.len() as u64; if v != &out[0] { run.violation("threads disagree", json!({"round": round})); } }
    }
    println!("race workload: {total} calls, {} distinct", jobs.len());
    lookup::reset_globals();
}
