#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
V='qcd-sme/src/'
TH=V+'low_level/oneloop/thermal/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PTS="The unit tests compare a handful of fixed points (s in {1, 1.834, 2.5, 8.18} and five complex values; six argument tuples for thermal functions) with stored numbers; "

p("C01","Vacuum one-loop functions and propagators have the right values",
"For every admissible real or complex squared momentum s (off the cut s<=0), quark mass ratio, renormalization constant and gauge parameter, the vacuum one-loop functions (f, f_xi, f_q, f_q_crossed, g, g_xi and their separated-logarithm forms) and the Yang-Mills and QCD gluon and ghost dressing functions, inverse dressing functions and propagators built from them equal their closed-form definitions to within floating-point rounding. Propagator = dressing/s and dressing = 1/inverse dressing hold for all of them, crossed and FieldConfig variants included.",
["inputs"],"all real s>0 and complex s off the negative axis, from infrared to ultraviolet; all f0/g0, xi, mq/m, numbers of colors and fermions",
PTS+"a wrong branch, region or coefficient active elsewhere (large or small s, other quadrants, xi != 0, nf > 1, heavy or light quarks) passes them all.",
[V+'low_level/oneloop/gluon.rs',V+'low_level/oneloop/ghost.rs',V+'ym/gluon.rs',V+'ym/ghost.rs',V+'qcd/gluon.rs',V+'qcd/ghost.rs'],
[("closed-form expressions","low_level/oneloop/{gluon,ghost}.rs inlines"),("composition into propagators","ym/gluon.rs, ym/ghost.rs, qcd/gluon.rs inlines")],
["qcd_sme::ym::{gluon,ghost}::*","qcd_sme::qcd::gluon::*","qcd_sme::low_level::oneloop::{gluon,ghost}::*"])

p("C02","Thermal building-block integrands have the right values",
"For every loop momentum q>0, real or complex frequency, spatial momentum, masses and inverse temperature, the thermal logarithms (tlog family) and the integrands of the J and I integrals, their longitudinal and transverse projections and their first and second mass derivatives, equal their closed-form definitions to within floating-point rounding. This holds for the general functions and for their vanishing-Matsubara-frequency and vanishing-momentum counterparts, and for their different-mass, equal-mass, one-massless and massless forms.",
["inputs"],"all q, om (real or complex), p, m, m1, m2, beta where the function is defined",
PTS+"e.g. they never use negative or large frequencies with complex masses, exchanged mass ordering, or large beta*energy.",
[TH+'mod.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs'],
[("integrand expressions","thermal/mod.rs, zero_matsubara.rs, zero_momentum.rs inlines")],
["qcd_sme::low_level::oneloop::thermal::*"])

p("C03","Polarization and self-energy thermal integrands have the right values",
"For every loop momentum, frequency, momentum, gluon or quark mass, temperature and chemical potential, the integrands of the thermal parts of the ghost self-energy and of the glue and quark contributions to the longitudinal and transverse gluon polarization equal the defined combinations of the building blocks to within floating-point rounding. This covers finite and zero temperature, vanishing Matsubara frequency and vanishing momentum, and the 1/Nc color factor of the quark loop for whatever number of colors is set.",
["inputs","configurations"],"all q, om, p, m/mq, beta, mu and number of colors",
PTS+"one number of colors, a few frequencies and chemical potentials.",
[TH+'gluon.rs',TH+'ghost.rs'],
[("integrand expressions","thermal/gluon.rs and thermal/ghost.rs, inlines of the three regimes")],
["qcd_sme::low_level::oneloop::thermal::{gluon,ghost}::*_i"])

p("C04","Integrated thermal parts equal the integral of their integrand",
"Every integrated thermal self-energy or polarization function returns the integral over all loop momenta of the corresponding integrand, to the accuracy of the integration method passed in (or of the global default). The zero-temperature quark contributions vanish exactly below threshold (|mu|<|mq|) and equal the integral over the Fermi sphere above it, and the vanishing-Matsubara-frequency functions agree with the small-frequency limit.",
["inputs","configurations"],"all om, p, m, beta, mu and integration tolerances/depths within the integrator's reach",
"The tests never compare an integrated thermal part with an independent quadrature; they only check a few limits of the full propagators at fixed points.",
[TH+'gluon.rs',TH+'ghost.rs'],
[("change of variables q=(1-t)/t and quadrature","thermal/{gluon,ghost}.rs *_w_method"),("threshold","*_zero_temp_landau_w_method"),("default tolerance","zero_matsubara::gluon::* default-method wrappers")],
["thermal::{gluon,ghost}::{,zero_matsubara,zero_momentum}::*_landau[_w_method]"])

p("C05","Thermal dressing functions and propagators combine vacuum and thermal parts",
"Every finite-temperature and finite-density dressing function and propagator of Yang-Mills theory and QCD equals the vacuum inverse dressing function plus (16 pi^2/3)/(om^2+p^2) times the thermal part with the defined sign and quark multiplicity, suitably inverted and divided by the squared momentum. This holds in all regimes: general, vanishing Matsubara frequency, vanishing momentum, zero temperature, plain and FieldConfig.",
["inputs","configurations"],"all om (real or complex), p, m, mq, beta, mu, f0/g0, numbers of colors and fermions, field configurations",
"The tests never evaluate most of these functions (only a few nf=0 limits of them), so any sign, factor or component mix-up is invisible.",
[V+'ym/thermal.rs',V+'qcd/thermal.rs'],
[("composition","ym/thermal.rs and qcd/thermal.rs")],
["qcd_sme::ym::thermal::*","qcd_sme::qcd::thermal::*"])

p("C06","Special-case forms are limits of the general functions",
"The vanishing-Matsubara-frequency and vanishing-momentum functions are the limits of the general ones, longitudinal and transverse projections coincide at vanishing momentum, and the equal-mass, one-massless and massless forms coincide with the general mass form at those masses. This holds for building blocks (after integration where only the integral has the limit), integrands, integrated functions and propagators.",
["inputs"],"all arguments of each special form, and sequences of arguments approaching the limit",
"Tests check each form against its own stored numbers and only one or two limits (nf=0) of the full propagator.",
[TH+'mod.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs',TH+'gluon.rs',TH+'ghost.rs',V+'qcd/thermal.rs',V+'ym/thermal.rs'],
[("separate closed forms per limit","zero_matsubara.rs, zero_momentum.rs, *_same_mass, *_m_0, *_0_0")],
["pairs of general and limiting functions"])

p("C07","Foreign-function interface agrees bit for bit with the Rust API",
"Every exported C function returns exactly the value of the Rust function it names, for the same arguments and global parameters; the real and __complex variants dispatch to the real and complex instantiations of that same function. Arguments are passed in the documented order.",
["inputs","configurations"],"all exported functions and all argument values, special values included",
"Tests call each exported function at a few points, with a tolerance, and several families (ghost functions of QCD, zero-temperature integrands, parameter accessors) not at all.",
[V+'ffi.rs',V+'low_level/oneloop/gluon.rs',V+'low_level/oneloop/ghost.rs',TH+'mod.rs',TH+'gluon.rs',TH+'ghost.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs',V+'ym/gluon.rs',V+'ym/ghost.rs',V+'qcd/gluon.rs',V+'qcd/ghost.rs',V+'common/mod.rs',V+'common/thermal.rs'],
[("extern C wrappers","the ffi submodule of every module")],
["exported symbols"])

p("C08","Generated headers and bindings describe the library's real ABI",
"The C, C++ and Cython headers the build generates declare exactly the functions the shared library exports, with parameter and result types that match, so that a C, C++ or Python caller compiled against them gets the same numbers as a Rust caller. The Python extension module in the repository builds against them and returns the library's values.",
["inputs","configurations"],"all exported functions, each called through each language",
"No test compiles or calls anything through a generated header, and none builds the Python extension.",
['qcd-sme/build.rs','python/pyqcd_sme_so.pyx',V+'ffi.rs',V+'types.rs'],
[("header generation and complex-type fix-up","qcd-sme/build.rs"),("complex layout","types.rs C"),("Python wrappers","python/pyqcd_sme_so.pyx")],
["target/{debug,release}/include","libqcd_sme.so dynamic symbols"])

p("C09","Global parameters behave as independent registers",
"After any history of setter calls, every getter returns the last value set (or its documented initial value), setting one parameter changes no other, and each computation depends on exactly the parameters it should, through their current values only. Rejected values (non-positive tolerances or regulators) leave every parameter unchanged, and the default integration method always reflects the current default tolerance and depth.",
["histories","configurations"],"all finite sequences of set/get/compute operations with all values",
"Tests set the parameters to fixed values one at a time around a single computation and never explore orders, repeats or rejected values.",
[V+'consts.rs',TH+'gluon.rs',V+'qcd/gluon.rs'],
[("registers and derived nf/nc ratio","consts.rs"),("default integration method","consts.rs get_default_integration_method")],
["qcd_sme::consts::*","results of computations"],
[("NC, NF, NF_DIV_NC, M_QUARK, TOL_INTEGRAL, MAX_ITER_INTEGRAL, MATSUBARA_REG","global parameters and the cached ratio nf/nc","consts.rs")])

p("C10","FieldConfig functions depend on their configuration alone",
"A function that takes a field configuration depends only on its arguments and the current contents of that configuration (number of colors, gluon mass, quark list), never on the global number of colors, number of fermions or default quark mass. For a configuration with a single quark species it returns what the plain function returns with the global number of colors and fermions set to the configuration's.",
["inputs","configurations","histories"],"all configurations (including ones modified through their public fields after construction), all values of the globals, all arguments",
"Tests only compare FieldConfig functions with plain ones at Nc=3 with the globals set to match.",
[V+'qcd/types.rs',V+'qcd/gluon.rs',V+'qcd/thermal.rs',TH+'gluon.rs'],
[("per-flavour data","qcd/types.rs FieldConfig"),("flavour sums","qcd/gluon.rs and qcd/thermal.rs *_w_field_config")],
["*_w_field_config functions"],
[("FieldConfig.nc/gluon/quarks","public description of the field content","qcd/types.rs")])

p("C11","Quark flavours contribute additively",
"The inverse gluon dressing function is the pure-glue one plus a sum of independent flavour contributions: it does not depend on the order in which flavours are listed, splitting (n, m) into entries that sum to n changes nothing, each contribution is proportional to its number of flavours, and without quarks (an empty list or zero multiplicities, or zero fermions set globally) the Yang-Mills result is recovered. This holds for vacuum, thermal, zero-temperature and limiting forms.",
["inputs","configurations"],"all flavour lists, permutations, splits and multiplicities; all momenta, temperatures and chemical potentials",
"Tests check one nf=0 case and the equality of one two-flavour list with doubled multiplicity at fixed points.",
[V+'qcd/gluon.rs',V+'qcd/thermal.rs',V+'qcd/types.rs'],
[("flavour sums","qcd/gluon.rs, qcd/thermal.rs")],
["qcd::gluon::*","qcd::thermal::gluon::*"])

p("C12","Results are deterministic, history-free and safe to compute in parallel",
"With the global parameters fixed, calling any function twice, after any other calls, or concurrently from any number of threads returns bit-identical results; no call leaves a trace in later ones. Concurrent evaluation is free of data races.",
["schedules","histories"],"all interleavings of calls from several threads and all histories of earlier calls",
"The tests that touch shared state are serialized and none compares a parallel evaluation, or one made after unrelated calls, with a fresh one.",
[V+'consts.rs',V+'qcd/types.rs',V+'low_level/oneloop/thermal/gluon.rs',V+'qcd/thermal.rs',V+'utils.rs'],
[("no state besides the parameters in consts","whole library")],
["all public functions"],
[("static mut parameters","only shared mutable state","consts.rs")])

p("C13","Reflection symmetries and real/complex agreement",
"Every function is real-analytic: conjugating its complex arguments conjugates the result, and evaluating the complex instantiation at real arguments gives the real instantiation's value. Thermal functions are even in the frequency, and vacuum, thermal and full propagators respect both symmetries on the whole plane cut along their branch cuts.",
["inputs"],"all complex arguments off the branch cuts, all sign choices of the frequency",
"Tests check one conjugate pair per vacuum function and no symmetry of the thermal functions.",
[V+'types.rs',V+'low_level/oneloop/gluon.rs',TH+'mod.rs',TH+'gluon.rs',TH+'ghost.rs',V+'ym/thermal.rs',V+'qcd/thermal.rs'],
[("numeric trait for real and complex arguments","types.rs Num"),("combinations f(om)+f(-om)","thermal inlines")],
["all generic functions"])

p("C14","Dimensional scaling",
"Multiplying all dimensionful arguments by powers of one scale factor according to their mass dimension multiplies each result by the corresponding power of that factor. Dimensionless dressing functions are invariant, propagators scale as the inverse squared momentum, charge densities as the cube of energy.",
["inputs"],"all arguments and all scale factors",
"No test rescales arguments.",
[TH+'mod.rs',TH+'gluon.rs',TH+'ghost.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs',V+'ym/thermal.rs',V+'qcd/thermal.rs',V+'common/thermal.rs'],
[("dimensionally homogeneous expressions","all thermal code")],
["all functions of dimensionful arguments"])

p("C15","Thermal limits: zero temperature, chemical-potential parity, vacuum",
"As the temperature goes to zero every finite-temperature function tends to its zero-temperature counterpart: the vacuum one where no chemical potential exceeds the quark mass, the Fermi-sphere one otherwise. Thermal and density contributions to the gluon are even in the chemical potential, charge density is odd, and below threshold the zero-temperature results do not depend on the chemical potential at all.",
["inputs"],"all masses, momenta, frequencies, chemical potentials of either sign, and temperatures decreasing to zero",
"No test compares finite-temperature with zero-temperature functions or changes the sign of the chemical potential.",
[TH+'gluon.rs',TH+'ghost.rs',V+'qcd/thermal.rs',V+'ym/thermal.rs',V+'common/thermal.rs'],
[("zero-temperature step distributions and thresholds","common/thermal.rs, thermal/gluon.rs *_zero_temp_*"),("zero-temperature propagators","qcd/thermal.rs *_zero_temp_*")],
["finite- and zero-temperature pairs of functions"])

p("C16","Statistical distributions",
"Bose and Fermi distributions, their zero-chemical-potential, doubled and zero-temperature forms, energies and Fermi momenta equal their definitions for all energies, temperatures and chemical potentials, extreme values included. Fermi factors lie in [0,1], decrease with energy, satisfy particle-hole symmetry n(mu+x)+n(mu-x)=1, and the Bose factor satisfies b(-x)=-1-b(x).",
["inputs"],"all real (and, where allowed, complex) energies, chemical potentials and inverse temperatures",
"Tests evaluate a few moderate points; none looks at extreme, equal or negative arguments, or at the relations between the forms.",
[V+'common/thermal.rs',V+'common/mod.rs',V+'low_level/common/mod.rs'],
[("distribution formulas","common/thermal.rs inlines")],
["qcd_sme::common::thermal::*","qcd_sme::low_level::common::*"])

p("C17","Charge density and chemical potential are mutually inverse",
"The quark charge density equals (Nc/pi^2) times the integral of q^2 [n(mu)-n(-mu)], is odd and increasing in the chemical potential, and at zero temperature equals Nc k_F^3/(3 pi^2) with the sign of mu. The chemical potential functions invert it: feeding back the density of a chemical potential above threshold (or any, at finite temperature) returns it to within the tolerance, with zero density mapped to zero.",
["inputs","configurations"],"all masses, temperatures, densities of either sign and numbers of colors, at integration tolerances that floating-point arithmetic can reach",
"One test inverts nine points at one mass and Nc=3.",
[V+'qcd/thermal.rs',V+'utils.rs'],
[("density integral and inversion by root finding","qcd/thermal.rs quark")],
["qcd_sme::qcd::thermal::quark::*"])

p("C18","Root finder returns only genuine roots",
"Whenever the root finder returns a pair it is (z, f(z)) with |f(z)| below the requested tolerance; it never exceeds the iteration limit, returns nothing rather than a non-root when it diverges, meets NaN or runs out of iterations, and finds a root it starts from. It follows the secant iteration from the two guesses, works for real and complex functions, and rejects equal guesses and non-positive tolerances.",
["inputs","histories","fault_sequences"],"all functions (including ones that return NaN or infinity at some point), guesses, tolerances and iteration limits",
"Tests exercise it only indirectly, through one well-behaved function.",
[V+'utils.rs'],
[("secant iteration","utils.rs find_root")],
["qcd_sme::utils::find_root and the sequence of points at which it evaluates its argument"])

p("C19","Residues and spectral functions",
"The residue helpers return the residue of a function at a simple pole (up to an error that vanishes with the step) and the spectral-function helpers return the discontinuity i[f(z+i eps)-f(z-i eps)]/(2 pi), in both cases for the given or the documented default step. Together with the propagators they give a real, odd spectral function and a residue equal to the inverse derivative of the inverse propagator.",
["inputs"],"all meromorphic functions with a simple pole, all pole positions and steps; all arguments of the propagators",
"No test calls them.",
[V+'utils.rs'],
[("symmetric difference quotients","utils.rs compute_residue*, spectral_function*")],
["qcd_sme::utils::{compute_residue,spectral_function}*"])

p("C20","Critical temperature and phase boundary extraction",
"The critical temperature of a temperature scan is the first temperature at which the scanned propagator is largest; reducing a phase boundary keeps exactly the points before the first vanishing critical temperature, unchanged, in order and idempotently; the polynomial parametrization of a boundary is the least-squares polynomial of the requested degree through all points that reduction keeps (so it reproduces data that follow such a polynomial) and ignores what reduction removes.",
["inputs"],"all scans (any length, ties, negative values) and all boundaries",
"The crate has no tests.",
['tc_long_prop/src/lib.rs'],
[("maximum search, prefix selection, least-squares fit","tc_long_prop/src/lib.rs")],
["tc_long_prop::{find_critical_temperature,reduce_phase_boundary,parametrize_phase_boundary}"])

p("C21","Phase classification matches the interpolated boundary",
"A point (mu, T) is deconfined exactly when T lies strictly above the piecewise-linear interpolation of the reduced boundary, boundary points counting as confined; beyond the last boundary point every T>0 is deconfined, at T=0 the point is deconfined exactly when mu exceeds the last boundary point. Points below the first chemical potential are rejected.",
["inputs"],"all boundaries with increasing chemical potential and non-increasing critical temperature (plateaus included), all points with mu>=0, T>=0, grid points included",
"The crate has no tests.",
['tc_long_prop/src/lib.rs'],
[("scan and interpolation","tc_long_prop/src/lib.rs is_deconfined_phase")],
["tc_long_prop::is_deconfined_phase"])

p("C22","The phase-diagram program writes what it computed",
"For any valid configuration file the phase-diagram program echoes the configuration it used and writes, for every requested chemical potential and temperature, complete files whose numbers are the renormalized longitudinal and transverse propagators of that configuration, the critical temperatures that maximize the infrared propagator, their second differences and the fit of the phase boundary, and plots the same numbers. In the corrected run the quark masses and renormalization constant used at each (mu, T) are those of the phase the point belongs to, and results do not depend on the number of worker threads.",
["configurations","schedules"],"all configuration files; all thread counts",
"No test runs the program.",
['tc_long_prop/src/bin/physical_tc.rs','tc_long_prop/src/lib.rs'],
[("configuration, scans and output","tc_long_prop/src/bin/physical_tc.rs")],
["files under target/tc_long_prop/physical_tc"])

p("C23","Exported functions never abort or hang on any bit pattern",
"Calling any exported computational function with any combination of floating-point bit patterns (zeros, infinities, NaNs, subnormals, huge values) returns normally: it neither panics, aborts nor reads or writes memory it should not. The native dressing functions and propagators behind it return normally too, at any integration depth whose full subdivision is affordable. A NaN never silently turns into a finite result: a NaN among the arguments an exported function computes with (rather than only compares with a threshold, as the zero-temperature functions do with the energy and the chemical potential) makes its result NaN.",
["inputs"],"all argument bit patterns of all exported functions",
"Tests use a few ordinary values.",
[V+'ffi.rs']+[V+'low_level/oneloop/gluon.rs',TH+'mod.rs',TH+'gluon.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs',V+'common/thermal.rs'],
[("total floating-point arithmetic, no indexing or unwrapping","all ffi functions")],
["exported symbols"])

p("C24","Mass-derivative functions are derivatives",
"The functions named as first and second mass derivatives are derivatives, with respect to the squared mass (of the first propagator), of the functions they are named after: exactly so after integration over the loop momentum. The crossed quark function equals f_q plus 2s times its derivative with respect to s, up to the constant that makes it vanish at s=0.",
["inputs"],"all masses, momenta, frequencies and temperatures",
"Tests compare derivative functions with their own stored values only.",
[TH+'mod.rs',TH+'zero_matsubara.rs',TH+'zero_momentum.rs',V+'low_level/oneloop/gluon.rs'],
[("derivative integrands","thermal/*.rs inlines d_*, d2_*"),("crossed quark function","low_level/oneloop/gluon.rs f_q_crossed")],
["d_j_*, d2_j_*, d_i_* integrands after integration"])

p("C25","Renormalization constants, gauge parameter and color factors enter linearly",
"Inverse dressing functions shift by exactly the change of f0 (or g0), are affine in the gauge parameter xi with the Landau-gauge functions as the xi=0 case, and depend on quark content through nf/Nc only. The renormalization constants cancel in differences of inverse dressing functions at any temperature and density.",
["inputs","configurations"],"all arguments, f0/g0, xi, numbers of fermions and colors",
"Tests use one f0 and one or two xi, nf and Nc.",
[V+'ym/gluon.rs',V+'ym/ghost.rs',V+'qcd/gluon.rs',V+'qcd/thermal.rs',V+'ym/thermal.rs'],
[("affine composition","*_sep inlines and dressing_inv* functions")],
["dressing_inv* functions"])

p("C26","High-temperature and high-density screening limits",
"At temperatures or chemical potentials large compared with momenta and masses the thermal glue and quark polarizations approach the hard-thermal-loop form: longitudinal and transverse functions of frequency over momentum times a Debye mass squared, proportional to T^2/3 per color-normalized glue loop and to (T^2/6 + mu^2/(2 pi^2))/Nc per flavour. The ratio of quark to glue screening depends only on nf, Nc, T and mu.",
["inputs"],"all momenta, frequencies and masses small compared with T or mu; all T, mu, numbers of colors",
"Only plotting examples look at this limit; no test does.",
[TH+'gluon.rs',V+'qcd/thermal.rs'],
[("normalization of glue and quark loops","thermal/gluon.rs")],
["thermal::gluon::polarization_*_landau"])

p("C27","The survey programs plot and tabulate what they compute",
"The one-mass and two-mass survey programs run to completion. For the pure-glue theory and for every number of flavours, quark mass (or pair of masses), chemical potential and temperature of their settings they plot the longitudinal propagator, renormalized at the renormalization point of that same temperature, density and quark content, over the whole momentum range; its infrared value over the whole temperature range; and the critical temperatures that maximize it: each under the file name of its settings, complete, and independent of the number of worker threads. The table of critical temperatures has one line for each of these scans.",
["configurations","schedules"],"all settings the programs run through; all thread counts",
"No test runs the programs.",
['tc_long_prop/src/bin/one_mass_overall.rs','tc_long_prop/src/bin/two_masses_overall.rs','tc_long_prop/src/lib.rs'],
[("scans, plots and table","tc_long_prop/src/bin/one_mass_overall.rs, two_masses_overall.rs")],
["plots and tables under target/tc_long_prop"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
