C.update({
"C05":("shadow composition: each observed propagator is recomposed from the reference vacuum part and the observed thermal parts","Thermal parts themselves are C04's; here deviations of the implied inverse dressing function beyond rounding are violations. Plain and FieldConfig, nine (Nc, Nf) settings, four quadrature settings; suspects re-judged with an accurate default method. "+TRUST),
"C06":("differential oracle: special and general forms executed on the same arguments, their difference compared with the difference the reference model predicts","Pointwise pairs within rounding budgets; integrated pairs and propagators within 3e-4..1e-2 of their mass, close to but not at the limit. "+TRUST),
"C24":("online oracle: principal-value quadrature of the observed derivative integrands against finite differences of the reference integrals","Deviation allowed 2e-5 of the integrand's mass; real masses and momenta, complex frequency only; massless derivative forms are infrared divergent and left to C02. "+TRUST),
})
C.update({
"C10":("metamorphic monitor: bit equality of observed FieldConfig results across twelve settings of the globals and across mutation histories of the configuration; differential oracle against the plain functions for one species","Every FieldConfig function; configurations with 0 to 4 species, 1 to 8 colors. Equality with plain functions up to quadrature accuracy, suspects re-judged with finer settings."),
"C11":("metamorphic monitor: observed inverse dressing functions of permuted, split, merged, scaled and single-flavour configurations compared with one another and with Yang-Mills","Every FieldConfig function and plain QCD function of a quark mass; up to quadrature accuracy, suspects re-judged with finer settings."),
"C16":("shadow execution against the reference model plus online range, monotonicity, particle-hole, sum and step monitors on arguments of every magnitude","Values within rounding budgets; monitors are exact or within a few ulps. "+TRUST),
"C17":("round-trip monitor of density and chemical potential, densities judged by an independent extended-precision integral","Tolerances that floating-point arithmetic can reach; T/m from 0.01 to 10. "+TRUST),
"C18":("online trace monitor: a recording function logs every evaluation of the root finder and an independent replay of the secant specification predicts trace and result","Random analytic, discontinuous, NaN-producing and adversarial functions and propagators; thousands of traces per run."),
"C19":("differential oracle: recorded evaluation points and results of the residue and spectral helpers against exact residues and discontinuities","Random rational functions and the library's own propagators."),
"C20":("first-maximum, prefix and polynomial oracles run on recorded random scans, boundaries and fits","Includes ties, plateaus, infinities, one-point and very long scans, empty boundaries."),
"C21":("online oracle: every classification judged by an interpolation oracle (exact on dyadic grids)","Random, degenerate and adversarial boundaries, up to 2000 points, points on, next to and beyond it, rising pieces included."),
"C25":("metamorphic monitor: observed inverse dressing functions under shifts of f0 and g0, changes of xi, and proportional nf and Nc","All dressing functions and propagators, plain and FieldConfig, to rounding (shifts, gauge) or quadrature accuracy (nf/Nc)."),
})
C.update({
"C07":("differential oracle: bit equality of observed results of every exported symbol and the native function it names, under six settings of the globals","222 exported functions; ordinary, special and hostile arguments; sampled."),
"C09":("model-based online monitor: a reference model of the global settings follows random histories of setters, getters and computations, rejected values exercised in child processes; dependence of every entry point on every setting observed in both directions","Random histories; one process, sequential (C12 covers threads)."),
"C12":("race detection (ThreadSanitizer, instrumented standard library) plus a determinism monitor comparing bits of every entry point across threads, orders, repetitions and processes","TSan observes the interleavings that occur; a race between unsynchronised accesses is reported whatever the order they happened in. Bit equality over 840 entry points and six helpers."),
"C23":("hostile-input monitor over child processes: signals, panics and hangs watched by the parent, NaN propagation judged, repeated under AddressSanitizer with an instrumented standard library","Every exported function and native dressing function; random bit patterns; depth-4 quadrature."),
})
C.update({
"C13":("metamorphic monitor: observed results at conjugated, frequency-reversed and real-as-complex arguments compared bit for bit where the arithmetic permits and to rounding elsewhere","Every generic function; integrated functions away from cuts and quadrature artefacts."),
"C14":("metamorphic monitor: observed results under rescaling of all dimensionful arguments by powers of two and by general factors","Every function of dimensionful arguments; powers of two nearly bit-exact, general factors to rounding or quadrature accuracy."),
"C15":("metamorphic monitor: observed finite-temperature results along decreasing temperatures against the zero-temperature counterpart, parity in the chemical potential, constancy below threshold","Every finite-/zero-temperature pair; limit judged by convergence along a temperature ladder.")
})
C.update({
"C26":("online oracle: observed polarizations and implied thermal parts divided by the Debye mass squared against the closed hard-thermal-loop function","Hard scale 80 to 600 times every soft one; deviations bounded by the known order of the corrections. "+TRUST)
})
C.update({
"C08":("differential monitor over compiled callers: C, C++, Cython and Python programs built against the generated headers replay recorded calls and their results are compared bit for bit with a Rust caller's; symbol tables and prototypes compared as sets","Every exported function from gcc, g++, clang, clang++, Cython and the shipped Python module; arguments sampled.")
})
C.update({
"C22":("differential oracle over recorded runs: the program runs on random configurations with a recording plotting library; every file, number and plot compared with an oracle that computes them through the public library, and byte for byte between thread counts","24 (300 thorough) random configurations with two thread counts each; the library's propagators are trusted here and judged by the other properties; configurations whose phase boundary has at least ten points.")
})
C.update({
"C27":("differential oracle over recorded runs: both programs run to completion with a recording plotting library; every plot and table line compared with an oracle that computes them through the public library","All plots and table lines; momenta of the propagator plots sampled in the quick tier (18 of 300) and complete in the thorough one, which also runs a second thread count; the library's propagators are trusted here and judged by the other properties.")
})
