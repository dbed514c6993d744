//! C07: the foreign interface against the native one.  C23: hostile bit patterns.
use crate::any::{rbits, Any};
use crate::lookup::{self, pos};
use crate::rng::Rng;
use crate::run::{bits, fmt, Run};
use crate::{gen, table, F, G};
use qcd_sme::{consts::*, C};
use serde_json::json;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// A number with an interesting bit pattern.
pub fn hostile(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => 0., 1 => -0.,
        2 => f64::INFINITY, 3 => f64::NEG_INFINITY,
        4 => f64::NAN, 5 => f64::from_bits(0x7ff0_0000_0000_0001 | (r.u64() & 0x8007_ffff_ffff_ffff)),
        6 => f64::from_bits(r.u64() & 0x800f_ffff_ffff_ffff),
        7 => r.sign() * *r.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e308, 1e154, 1.4e154, 1e-154, 1e-308]),
        8 => r.sign() * *r.pick(&[1., 4., 0.25, 2., 0.5, std::f64::consts::PI, f64::EPSILON, 1. + f64::EPSILON, 1. - f64::EPSILON / 2., 709.8, 745.2, -4.]),
        9 | 10 => f64::from_bits(r.u64()),
        11 => r.sign() * r.log(1e-300, 1e300),
        12 => r.sign() * r.log(1e-20, 1e20),
        _ => r.sign() * r.log(1e-2, 1e2),
    }
}

/// The native function a symbol names, and for each of its parameters the position of
/// the exported one: by name, or by order where the names differ.
fn native(g: &G) -> (&'static F, Vec<usize>) {
    let named = |f: &F| -> Option<Vec<usize>> { f.params.iter().map(|p| pos(g.params, p)).collect() };
    for by_name in [true, false] {
        for f in table::FUNS.iter().filter(|f| f.key == g.key && f.params.len() == g.params.len()) {
            let idx = if by_name { named(f) } else { Some((0..f.params.len()).collect()) };
            if let Some(idx) = idx {
                let mask = idx.iter().enumerate().fold(0, |m, (j, i)| m | (g.mask >> i & 1) << j);
                if mask == f.mask {
                    if !by_name && std::env::var("MON_VERBOSE").is_ok() { eprintln!("by order: {} {:?} {:?}", g.sym, g.params, f.params); }
                    return (f, idx);
                }
            }
        }
    }
    panic!("no native counterpart of {}", g.sym)
}

pub fn run_c07(run: &Run) {
    *run.rule.lock().unwrap() = "every exported function called with random, special and hostile arguments under six settings of the globals, bits compared with those of the native function it names, arguments matched by name; non-trivial = finite non-zero result".into();
    let ts: Vec<(&G, &F, Vec<usize>)> = table::FFI.iter().map(|g| { let (f, i) = native(g); (g, f, i) }).collect();
    run.count("exported functions", ts.len() as u64);
    for (set, (nc, nf, mq, tol, depth, reg)) in [(3, 1, 0.5, 1e-5, 10, 1e-5), (2, 4, 1., 1e-3, 6, 1e-3), (7, 0, 2., 1e-1, 3, 1e-2), (1, 3, 0.1, 1e-6, 12, 1e-4), (5, 5, 0.7, 1e-4, 8, 1.), (12, 2, 3., 1e-2, 1, 1e-7)].into_iter().enumerate() {
        set_number_of_colors(nc); set_number_of_fermions(nf); set_default_quark_mass(mq);
        set_default_tol_integral(tol); set_default_max_iter_integral(depth); set_matsubara_reg(reg);
        let many = run.n(12000, 300_000);
        run.par(ts.len() * 8, |i| {
            let (g, f, idx) = &ts[i % ts.len()];
            let part = i / ts.len();
            let n = many / 8 + 1;
            let mut r = Rng::stream(run.seed, 7000 + set as u64 * 1000 + (i % ts.len()) as u64, part as u64);
            for _ in 0..n {
                if run.stopped() { return; }
                let mut a = gen::args(&mut r, g.key, g.params, g.mask);
                if r.p(0.3) {
                    for k in 0..a.len() { if r.p(0.4) { a[k].re = hostile(&mut r); if g.mask >> k & 1 == 1 && r.p(0.5) { a[k].im = hostile(&mut r); } } }
                }
                let b: Vec<C> = idx.iter().map(|i| a[*i]).collect();
                let x = run.call_watched(|| format!("{} {:?}", g.sym, fmt(&a)), || (g.f)(&a));
                let y = run.call_watched(|| format!("{} {:?}", f.key, fmt(&b)), || (f.f)(&b));
                match (x, y) {
                    (Ok(x), Ok(y)) if rbits(x) == rbits(y) => if x.norm() > 0. && x.norm().is_finite() { run.distinct_args(g.sym, set as u32, &a); if r.p(2e-5) { run.sample(|| json!({"symbol": g.sym, "args": fmt(&a), "both": fmt(&[x])})); } },
                    (x, y) => run.violation(g.sym, json!({"params": g.params, "args": fmt(&a), "bits": bits(&a), "exported": format!("{x:?}"), "native": format!("{y:?}"), "native function": f.key, "setting": set})),
                }
            }
        });
    }
    lookup::reset_globals();
}

/// NaN arguments that a function only compares with thresholds.
fn only_compared(sym: &str, p: &str) -> bool {
    (p == "mu" && sym.contains("zero_temp") && (sym.ends_with("_i") || sym.starts_with("fermi"))) || (p == "en" && sym.starts_with("fermi") && sym.contains("zero_temp"))
}

static SLOT: [AtomicU64; 2] = [const { AtomicU64::new(0) }; 2];

/// What C23 calls: the exported functions and the native dressing functions.
#[derive(Clone, Copy)]
enum T { G(&'static G), A(Any) }
impl T {
    fn all() -> Vec<T> {
        let mut v: Vec<T> = table::FFI.iter().map(T::G).collect();
        v.extend(Any::all().into_iter().filter(|a| crate::field::is_dressing(a.key())).map(T::A));
        v
    }
    fn name(&self) -> &'static str { match self { T::G(g) => g.sym, T::A(a) => a.key() } }
    fn params(&self) -> &'static [&'static str] { match self { T::G(g) => g.params, T::A(a) => a.params() } }
    fn mask(&self) -> u32 { match self { T::G(g) => g.mask, T::A(a) => a.mask() } }
    fn costly(&self) -> bool { match self { T::G(_) => false, T::A(a) => a.integrates() } }
}
fn draw(t: &T, r: &mut Rng) -> (Vec<C>, qcd_sme::qcd::FieldConfig, usize) {
    let all = r.p(0.5);
    // ordinary arguments with one NaN are judged
    let probe = !all && r.p(0.5);
    let k = r.below(t.params().len());
    let kim = t.mask() >> k & 1 == 1 && r.p(0.5);
    let a = t.params().iter().enumerate().map(|(i, _)| {
        let c = t.mask() >> i & 1 == 1;
        let mut z = C::new(r.log(0.3, 3.), if c { r.range(-1., 1.) } else { 0. });
        if all || (!probe && r.p(0.3)) { z.re = hostile(r); }
        if c && (all || (!probe && r.p(0.3))) { z.im = hostile(r); }
        if probe && i == k { if kim { z.im = f64::NAN } else { z.re = if r.p(0.5) { f64::NAN } else { -f64::NAN } } }
        z
    }).collect();
    let nc = if r.p(0.1) { 0 } else { gen::colors(r) };
    let mut cfg = crate::compose::random_config(r, nc);
    if !probe && r.p(0.4) { cfg.gluon = hostile(r); }
    if !probe { for q in &mut cfg.quarks { if r.p(0.3) { q.1 = hostile(r); } if r.p(0.1) { q.0 = r.u64() as u32; } } }
    if probe && nc == 0 { cfg.nc = 3; }
    (a, cfg, if probe { k } else { usize::MAX })
}

/// One hostile workload, in its own process.
pub fn child(args: &[String]) {
    let (seed, part, of, n): (u64, usize, usize, usize) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let file = std::fs::File::create(&args[4]).unwrap();
    set_default_tol_integral(1e-4); set_default_max_iter_integral(4);
    let all = T::all();
    let (mut calls, mut probes, mut nans, mut finite) = (0u64, 0u64, 0u64, 0u64);
    std::thread::spawn(|| { let mut last = (0, std::time::Instant::now()); loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        let c = SLOT[0].load(Relaxed);
        if c != last.0 { last = (c, std::time::Instant::now()); }
        else if last.1.elapsed().as_secs() > 60 { println!("hang"); std::io::stdout().flush().ok(); std::process::exit(3); }
    }});
    for (ti, t) in all.iter().enumerate() {
        if ti % of != part { continue; }
        let mut r = Rng::stream(seed, 23000 + ti as u64, 0);
        let n = if t.costly() { n / 25 + 1 } else { n };
        for _ in 0..n {
            let (a, cfg, k) = draw(t, &mut r);
            // the call in progress, for the parent
            let mut buf = vec![0u8; 8 + a.len() * 16];
            buf[..8].copy_from_slice(&(ti as u64 + 1).to_le_bytes());
            for (i, z) in a.iter().enumerate() { buf[8 + 16 * i..16 + 16 * i].copy_from_slice(&z.re.to_bits().to_le_bytes()); buf[16 + 16 * i..24 + 16 * i].copy_from_slice(&z.im.to_bits().to_le_bytes()); }
            file.write_at(&buf, 0).unwrap();
            SLOT[0].fetch_add(1, Relaxed);
            let x = match t { T::G(g) => (g.f)(&a), T::A(e) => match e { Any::Fun(f) => (f.f)(&a), Any::Conf(f) => (f.f)(&a, &cfg), Any::Meth(f) => (f.f)(&a, get_default_integration_method()) } };
            calls += 1;
            if x.re.is_nan() || x.im.is_nan() { nans += 1 } else if x.re.is_finite() && x.im.is_finite() { finite += 1 }
            // the native ones integrate, and quadrature leaves out what is not finite
            if k != usize::MAX && matches!(t, T::G(_)) && !only_compared(t.name(), t.params()[k]) {
                probes += 1;
                if !x.re.is_nan() && !x.im.is_nan() {
                    println!("finite {} {} {:?} {:?} {x:?}", t.name(), t.params()[k], fmt(&a), bits(&a));
                }
            }
        }
    }
    println!("done {calls} {probes} {nans} {finite}");
}

pub fn run_c23(run: &Run) {
    *run.rule.lock().unwrap() = "exported functions, and native dressing functions and propagators, called in child processes with arguments of hostile bit patterns and with one NaN among ordinary arguments; the parent watches for signals, panics, hangs and finite results; repeated in children instrumented by AddressSanitizer; non-trivial = distinct argument tuple".into();
    let asan = std::env::var("MON_ASAN").ok();
    let of = 16;
    let dir = format!("{}/build/c23", run.root);
    std::fs::create_dir_all(&dir).unwrap();
    let stat: [AtomicU64; 4] = Default::default();
    let all = T::all();
    run.count("functions", all.len() as u64);
    let mut jobs: Vec<(bool, usize, usize)> = (0..of).map(|p| (false, p, run.n(20_000, 500_000))).collect();
    if asan.is_some() { jobs.extend((0..of).map(|p| (true, p, run.n(4000, 60_000)))); }
    run.par(jobs.len(), |j| {
        let (san, p, n) = jobs[j];
        let path = format!("{dir}/{j}");
        let exe = if san { asan.clone().unwrap().into() } else { std::env::current_exe().unwrap() };
        let seed = run.seed + if san { 500 } else { 0 };
        let o = Command::new(exe).env("ASAN_OPTIONS", "exitcode=77:detect_leaks=0").args(["child23", &seed.to_string(), &p.to_string(), &of.to_string(), &n.to_string(), &path]).stderr(Stdio::piped()).output().expect("child");
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut done = false;
        for l in out.lines() {
            let w: Vec<&str> = l.splitn(3, ' ').collect();
            match w[0] {
                "finite" => run.violation(w[1], json!({"what": "a NaN argument gives a finite result", "call": w[2]})),
                "done" => {
                    let v: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                    for k in 0..4 { stat[k].fetch_add(v[k], Relaxed); }
                    run.evals.fetch_add(v[0], Relaxed); run.judged.fetch_add(v[0], Relaxed);
                    if san { run.count("calls under AddressSanitizer", v[0]); }
                    done = true;
                }
                _ => {}
            }
        }
        if !done {
            let b = std::fs::read(&path).unwrap_or_default();
            let u = |i: usize| b.get(i * 8..i * 8 + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()));
            let ti = u(0) as usize;
            let (name, args) = if ti == 0 { ("none", vec![]) } else {
                let t = &all[ti - 1];
                (t.name(), (0..t.params().len()).map(|i| C::new(f64::from_bits(u(1 + 2 * i)), f64::from_bits(u(2 + 2 * i)))).collect())
            };
            let err = String::from_utf8_lossy(&o.stderr);
            run.violation(name, json!({"what": if out.contains("hang") { "hangs" } else { "aborts or crashes" }, "status": format!("{:?}", o.status), "sanitizer": san, "args": fmt(&args), "bits": bits(&args), "stderr": err.chars().take(1500).collect::<String>()}));
        }
        std::fs::remove_file(&path).ok();
    });
    // the children's draws are reproducible: count the distinct ones here
    for (ti, t) in all.iter().enumerate() { let mut r = Rng::stream(run.seed, 23000 + ti as u64, 0); for _ in 0..if t.costly() { run.n(20_000, 500_000) / 25 + 1 } else { 600 } { let (a, ..) = draw(t, &mut r); run.distinct_args(t.name(), t.mask(), &a); } }
    for (k, n) in ["calls", "NaN probes", "NaN results", "finite results"].iter().enumerate() { run.count(n, stat[k].load(Relaxed)); }
}

/// For callers in other languages: arguments and what a Rust caller gets.
pub fn dump(args: &[String]) {
    let (seed, n): (u64, usize) = (args[0].parse().unwrap(), args[1].parse().unwrap());
    set_default_tol_integral(1e-5); set_default_max_iter_integral(10);
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for (k, g) in table::FFI.iter().enumerate() {
        let (f, idx) = native(g);
        let mut r = Rng::stream(seed, 31000, k as u64);
        for _ in 0..n {
            let mut a = gen::args(&mut r, g.key, g.params, g.mask);
            if r.p(0.2) { for k in 0..a.len() { if r.p(0.4) { a[k].re = hostile(&mut r); if g.mask >> k & 1 == 1 && r.p(0.5) { a[k].im = hostile(&mut r); } } } }
            let b: Vec<C> = idx.iter().map(|i| a[*i]).collect();
            let v = (f.f)(&b);
            let h = |z: C| format!("{:016x}:{:016x}", z.re.to_bits(), z.im.to_bits());
            writeln!(out, "{}\t{}\t{}\t{}\t{}\t{}", g.sym, g.params.join(","), g.mask, g.ret_c as u8, a.iter().map(|z| h(*z)).collect::<Vec<_>>().join(","), h(v)).unwrap();
        }
    }
}
