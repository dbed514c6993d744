// C interface of the reference model: pointwise evaluation in quad precision
// with a rounding-error budget, and adaptive integrals in extended precision.
#include "model.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
using namespace ref;

struct Ctx { double nc = 3, nf = 1; };
static thread_local Ctx ctx;

template <class N> using Fn = N (*)(const N *);
template <class N> const std::unordered_map<std::string, Fn<N>> &table() {
  using K = M<N>;
#define E(key, expr) t[key] = [](const N *a) -> N { (void)a; return expr; };
  static const auto T = [] {
    std::unordered_map<std::string, Fn<N>> t;
    // ---- common
    E("common::energy_squared", a[1] * a[1] + a[0] * a[0])
    E("common::energy", K::energy(a[0], a[1]))
    E("common::fermi_momentum", sqrt(a[1] * a[1] - a[0] * a[0]))
    E("common::fermi_distribution", K::fermi(a[0], a[1], a[2]))
    E("common::fermi_distribution_zero_temp", K::step(a[0], a[1]))
    E("common::fermi_distribution_double", K::fermi2(a[0], a[1], a[2]))
    E("common::fermi_distribution_double_zero_temp", K::step2(a[0], a[1]))
    E("common::fermi_distribution_zero_chempot", K::fermi0(a[0], a[1]))
    E("common::bose_distribution", K::bose_mu(a[0], a[1], a[2]))
    E("common::bose_distribution_zero_chempot", K::bose(a[0], a[1]))
    E("low::statistic_distribution_exponential", exp((a[0] - a[2]) * a[1]))
    E("low::statistic_distribution_exponential_zero_chempot", exp(a[0] * a[1]))
    // ---- vacuum
    E("gluon::f", K::f(a[0])) E("gluon::f_sep", K::f_sep(a[0], a[1], a[2]))
    E("gluon::f_xi", K::f_xi(a[0])) E("gluon::f_xi_sep", K::f_xi_sep(a[0], a[1], a[2]))
    E("gluon::f_q", K::f_q(a[0])) E("gluon::f_q_crossed", K::f_q_crossed(a[0]))
    E("gluon::ym_dressing_inv_landau_sep", K::f_sep(a[0], a[1], a[2]) + a[3])
    E("gluon::ym_dressing_inv_sep", K::f_sep(a[0], a[1], a[2]) + a[3] + K::f_xi_sep(a[0], a[1], a[2]) * a[4])
    E("ghost::g", K::g(a[0])) E("ghost::g_sep", K::g_sep(a[0], a[1], a[2]))
    E("ghost::g_xi", K::g_xi(a[0])) E("ghost::g_xi_sep", K::g_xi_sep(a[0]))
    E("ghost::dressing_inv_landau_sep", K::g_sep(a[0], a[1], a[2]) + a[3])
    E("ghost::dressing_inv_sep", K::g_sep(a[0], a[1], a[2]) + a[3] + K::g_xi_sep(a[1]) * a[4])
#define DRESS(pre, L, X, nl)                                                   \
  E(pre "dressing_inv_landau", L(a))                                           \
  E(pre "dressing_inv", X(a))                                                  \
  E(pre "dressing_landau", inv(L(a)))                                          \
  E(pre "dressing", inv(X(a)))                                                 \
  E(pre "propagator_landau", inv(L(a)) / a[0])                                 \
  E(pre "propagator", inv(X(a)) / a[0])
#define GHL(a) (K::g(a[0]) + a[1])
#define GHX(a) (K::g(a[0]) + a[1] + K::g_xi(a[0]) * a[2])
#define GLL(a) (K::f(a[0]) + a[1])
#define GLX(a) (K::f(a[0]) + a[1] + K::f_xi(a[0]) * a[2])
#define NFC (N(ctx.nf) / N(ctx.nc))
#define QL(a) (K::f(a[0]) + a[2] + K::f_q(a[0] / (a[1] * a[1])) * NFC)
#define QX(a) (K::f(a[0]) + a[2] + K::f_xi(a[0]) * a[3] + K::f_q(a[0] / (a[1] * a[1])) * NFC)
#define QCL(a) (K::f(a[0]) + a[2] + K::f_q_crossed(a[0] / (a[1] * a[1])) * NFC)
#define QCX(a) (K::f(a[0]) + a[2] + K::f_xi(a[0]) * a[3] + K::f_q_crossed(a[0] / (a[1] * a[1])) * NFC)
    DRESS("ym::ghost::", GHL, GHX, 0) DRESS("qcd::ghost::", GHL, GHX, 0)
    DRESS("ym::gluon::", GLL, GLX, 0) DRESS("qcd::gluon::", QL, QX, 0)
    E("qcd::gluon::dressing_crossed_inv_landau", QCL(a))
    E("qcd::gluon::dressing_crossed_inv", QCX(a))
    E("qcd::gluon::dressing_crossed_landau", inv(QCL(a)))
    E("qcd::gluon::dressing_crossed", inv(QCX(a)))
    E("qcd::gluon::propagator_crossed_landau", inv(QCL(a)) / a[0])
    E("qcd::gluon::propagator_crossed", inv(QCX(a)) / a[0])
    // ---- thermal, general: (q, om, p, ...)
    E("th::tlog", K::tlog(a[0], a[1], a[2], a[3], a[4]))
    E("th::tlog_same_mass", K::tlog(a[0], a[1], a[2], a[3], N(0.)))
    E("th::tlog_zero_mass", K::tlog(a[0], a[1], a[2], a[0], N(0.)))
    E("th::tlog_l", K::tlog_l(a[0], a[1], a[2], a[3], a[4]))
    E("th::tlog_l_same_mass", K::tlog_l(a[0], a[1], a[2], a[3], N(0.)))
    E("th::tlog_l_zero_mass", K::tlog_l(a[0], a[1], a[2], a[0], N(0.)))
    E("th::tlog_t", K::tlog_t(a[0], a[1], a[2], a[3], a[4]))
    E("th::tlog_t_same_mass", K::tlog_t(a[0], a[1], a[2], a[3], N(0.)))
    E("th::tlog_t_zero_mass", K::tlog_t(a[0], a[1], a[2], a[0], N(0.)))
#define JJ(n) E("th::" #n "_m_i", K::n(a[0], a[1], a[2])) E("th::" #n "_0_i", K::n(a[0], N(0.), a[1]))
    JJ(j) JJ(d_j) JJ(d2_j)
#define JP(n, s)                                                               \
  E("th::" #n "_m_" #s "_i", K::n##_##s(a[0], a[1], a[2]))                     \
  E("th::" #n "_0_" #s "_i", K::n##_##s(a[0], N(0.), a[1]))
    JP(j, l) JP(j, t) JP(d_j, l) JP(d_j, t) JP(d2_j, l) JP(d2_j, t)
    // i family
#define IFAM(pre, suf, fn)                                                     \
  E("th::" pre "_m_m_" suf "i", K::fn(a[0], a[1], a[2], a[3], a[4], a[5]))     \
  E("th::" pre "_m_m_" suf "i_same_mass", K::fn(a[0], a[1], a[2], a[3], a[3], a[4])) \
  E("th::" pre "_m_0_" suf "i", K::fn(a[0], a[1], a[2], a[3], N(0.), a[4]))    \
  E("th::" pre "_0_0_" suf "i", K::fn(a[0], a[1], a[2], N(0.), N(0.), a[3]))
    IFAM("i", "", i_) IFAM("i", "l_", i_l) IFAM("i", "t_", i_t)
#define DFAM(pre, suf, fn)                                                     \
  E("th::" pre "_m_m_" suf "i", K::fn(a[0], a[1], a[2], a[3], a[4], a[5]))     \
  E("th::" pre "_m_m_" suf "i_same_mass", K::fn##_same(a[0], a[1], a[2], a[3], a[4])) \
  E("th::" pre "_m_0_" suf "i", K::fn(a[0], a[1], a[2], a[3], N(0.), a[4]))    \
  E("th::" pre "_0_0_" suf "i", K::fn##_same(a[0], a[1], a[2], N(0.), a[3]))
    DFAM("d_i", "", d_i) DFAM("d_i", "l_", d_i_l) DFAM("d_i", "t_", d_i_t)
    E("th::d_i_m_t_0_i", K::d_i_t(a[0], a[1], a[2], a[3], N(0.), a[4]))
    // ---- zero Matsubara frequency: (q, p, ...)
    E("zf::tlog", K::zf_log(a[0], a[1], a[2]))
    E("zf::tlog_same_mass", K::zf_log_same(a[0], a[1]))
    E("zf::tlog_zero_mass", K::zf_log_same(a[0], a[1]))
    E("zf::tlog_t", K::zf_log_t(a[0], a[1], a[2]))
    E("zf::tlog_t_same_mass", K::zf_log_t_same(a[0], a[1]))
    E("zf::tlog_t_zero_mass", K::zf_log_t_same(a[0], a[1]))
#define ZFAM(pre, suf, fn)                                                     \
  E("zf::" pre "_m_m_" suf "i", K::fn(a[0], a[1], a[2], a[3], a[4]))           \
  E("zf::" pre "_m_m_" suf "i_same_mass", K::fn##_same(a[0], a[1], a[2], a[3])) \
  E("zf::" pre "_m_0_" suf "i", K::fn(a[0], a[1], a[2], N(0.), a[3]))          \
  E("zf::" pre "_0_0_" suf "i", K::fn##_same(a[0], a[1], N(0.), a[2]))
    ZFAM("i", "", zf_i) ZFAM("i", "l_", zf_i_l) ZFAM("i", "t_", zf_i_t)
    ZFAM("d_i", "", zf_d_i) ZFAM("d_i", "l_", zf_d_i_l) ZFAM("d_i", "t_", zf_d_i_t)
    E("zf::d_i_m_t_0_i", K::zf_d_i_t(a[0], a[1], a[2], N(0.), a[3]))
    // ---- zero momentum: (q, om, ...)
#define MFAM(pre, suf, fn, fs)                                                 \
  E("zm::" pre "_m_m_" suf "i", K::fn(a[0], a[1], a[2], a[3], a[4]))           \
  E("zm::" pre "_m_m_" suf "i_same_mass", fs(a[2], a[3]))                      \
  E("zm::" pre "_m_0_" suf "i", K::fn(a[0], a[1], a[2], N(0.), a[3]))          \
  E("zm::" pre "_0_0_" suf "i", fs(N(0.), a[2]))
#define S1(m, b) K::zm_i(a[0], a[1], m, m, b)
#define S2(m, b) K::zm_i_l(a[0], a[1], m, m, b)
#define S3(m, b) K::zm_d_i_same(a[0], a[1], m, b)
#define S4(m, b) K::zm_d_i_l_same(a[0], a[1], m, b)
    MFAM("i", "", zm_i, S1) MFAM("i", "l_", zm_i_l, S2) MFAM("i", "t_", zm_i_l, S2)
    MFAM("d_i", "", zm_d_i, S3) MFAM("d_i", "l_", zm_d_i_l, S4) MFAM("d_i", "t_", zm_d_i_l, S4)
    // ---- polarizations and self energies
#define SE "self_energy_thermal_part_landau_i"
    E("th::ghost::" SE, K::ghost(a[0], a[1], a[2], a[3], a[4]))
    E("zf::ghost::" SE, K::zf_ghost(a[0], a[1], a[2], a[3]))
    E("zm::ghost::" SE, K::zm_ghost(a[0], a[1], a[2], a[3]))
#define PG(l) "polarization_glue_" l "_thermal_part_landau_i"
#define PQ(l) "polarization_quark_" l "_thermal_part_landau_i"
#define PZ(l) "polarization_quark_" l "_thermal_part_zero_temp_landau_i"
    E("th::gluon::" PG("l"), K::glue_l(a[0], a[1], a[2], a[3], a[4]))
    E("th::gluon::" PG("t"), K::glue_t(a[0], a[1], a[2], a[3], a[4]))
    E("zf::gluon::" PG("l"), K::zf_glue_l(a[0], a[1], a[2], a[3]))
    E("zf::gluon::" PG("t"), K::zf_glue_t(a[0], a[1], a[2], a[3]))
    E("zm::gluon::" PG("l"), K::zm_glue(a[0], a[1], a[2], a[3]))
    E("zm::gluon::" PG("t"), K::zm_glue(a[0], a[1], a[2], a[3]))
#define NC N(ctx.nc)
#define FE(b, mu) K::fermi2(K::energy(a[0], MQ), b, mu)
#define SE2(mu) K::step2(K::energy(a[0], MQ), mu)
#define MQ a[3]
    E("th::gluon::" PQ("l"), K::quark_l_k(a[0], a[1], a[2], MQ, NC) * FE(a[4], a[5]))
    E("th::gluon::" PQ("t"), K::quark_t_k(a[0], a[1], a[2], MQ, NC) * FE(a[4], a[5]))
    E("th::gluon::" PZ("l"), K::quark_l_k(a[0], a[1], a[2], MQ, NC) * SE2(a[4]))
    E("th::gluon::" PZ("t"), K::quark_t_k(a[0], a[1], a[2], MQ, NC) * SE2(a[4]))
#undef MQ
#define MQ a[2]
    E("zf::gluon::" PQ("l"), K::zf_quark_l_k(a[0], a[1], MQ, NC) * FE(a[3], a[4]))
    E("zf::gluon::" PQ("t"), K::zf_quark_t_k(a[0], a[1], MQ, NC) * FE(a[3], a[4]))
    E("zf::gluon::" PZ("l"), K::zf_quark_l_k(a[0], a[1], MQ, NC) * SE2(a[3]))
    E("zf::gluon::" PZ("t"), K::zf_quark_t_k(a[0], a[1], MQ, NC) * SE2(a[3]))
    E("zm::gluon::" PQ("l"), K::zm_quark_k(a[0], a[1], MQ, NC) * FE(a[3], a[4]))
    E("zm::gluon::" PQ("t"), K::zm_quark_k(a[0], a[1], MQ, NC) * FE(a[3], a[4]))
    E("zm::gluon::" PZ("l"), K::zm_quark_k(a[0], a[1], MQ, NC) * SE2(a[3]))
    E("zm::gluon::" PZ("t"), K::zm_quark_k(a[0], a[1], MQ, NC) * SE2(a[3]))
    // charge density integrand (q, m, beta, mu)
    E("qcdt::quark::charge_density_i",
      (K::fermi(K::energy(a[0], a[1]), a[2], a[3]) - K::fermi(K::energy(a[0], a[1]), a[2], -a[3])) * a[0] * a[0] * NC /
          K::PI2())
    return t;
  }();
#undef E
  return T;
}

typedef __float128 Q;
typedef Num<Q, true> NQ;
typedef Num<long double, false> NL;

extern "C" {
void ref_set_ctx(double nc, double nf) { ctx.nc = nc; ctx.nf = nf; }

// returns an index for a key (or -1); indices are stable within a process
int ref_index(const char *key) {
  static const std::vector<std::string> keys = [] {
    std::vector<std::string> k;
    for (auto &x : table<NQ>()) k.push_back(x.first);
    std::sort(k.begin(), k.end());
    return k;
  }();
  auto it = std::lower_bound(keys.begin(), keys.end(), std::string(key));
  if (it == keys.end() || *it != key) return -1;
  return int(it - keys.begin());
}
} // extern C
template <class N> static Fn<N> by_index(int i) {
  static const std::vector<Fn<N>> v = [] {
    std::vector<std::string> k;
    for (auto &x : table<N>()) k.push_back(x.first);
    std::sort(k.begin(), k.end());
    std::vector<Fn<N>> r;
    for (auto &s : k) r.push_back(table<N>().at(s));
    return r;
  }();
  return v[i];
}
extern "C" {
// out = re, im, error bound (absolute, one double-rounding budget), flags (1 ambiguous, 2 extreme, 4 an occupation number below 1e-139 taken as nothing)
void ref_eval(int idx, const double *args, int n, double *out) {
  NQ a[12];
  for (int i = 0; i < n; i++) a[i] = NQ((Q)args[2 * i], (Q)args[2 * i + 1]);
  flags() = Flags{};
  NQ r = by_index<NQ>(idx)(a);
  out[0] = (double)r.re; out[1] = (double)r.im; out[2] = r.e * U;
  out[3] = (flags().ambiguous ? 1 : 0) + (flags().extreme ? 2 : 0) + (flags().cold ? 4 : 0);
}
} // extern C

// ---------- adaptive Gauss-Kronrod (G10K21) in long double ----------
static const long double xk[11] = {
    0.995657163025808080735527280689003L, 0.973906528517171720077964012084452L, 0.930157491355708226001207180059508L,
    0.865063366688984510732096688423493L, 0.780817726586416897063717578345042L, 0.679409568299024406234327365114874L,
    0.562757134668604683339000099272694L, 0.433395394129247190799265943165784L, 0.294392862701460198131126603103866L,
    0.148874338981631210884826001129720L, 0.L};
static const long double wk[11] = {
    0.011694638867371874278064396062192L, 0.032558162307964727478818972459390L, 0.054755896574351996031381300244580L,
    0.075039674810919952767043140916190L, 0.093125454583697605535065465083366L, 0.109387158802297641899210590325805L,
    0.123491976262065851077958109585166L, 0.134709217311473325928054001771707L, 0.142775938577060080797094273138717L,
    0.147739104901338491374841515972068L, 0.149445554002916905664936468389821L};
static const long double wg[5] = {0.066671344308688137593568809893332L, 0.149451349150580593145863397657697L,
                                  0.219086362515982043995534934228163L, 0.269266719309996355091226921569469L,
                                  0.295524224714752870173815619188769L};
struct Seg { long double a, b, re, im, err, mag; };
template <class F> static Seg gk(F &&f, long double a, long double b) {
  long double c = (a + b) / 2, h = (b - a) / 2;
  NL f0 = f(c);
  long double kr = f0.re * wk[10], ki = f0.im * wk[10], gr = 0, gi = 0, mg = (fabsl(f0.re) + fabsl(f0.im)) * wk[10];
  for (int i = 0; i < 10; i++) {
    NL u = f(c - h * xk[i]), v = f(c + h * xk[i]);
    long double sr = u.re + v.re, si = u.im + v.im;
    kr += wk[i] * sr; ki += wk[i] * si;
    mg += wk[i] * (fabsl(u.re) + fabsl(v.re) + fabsl(u.im) + fabsl(v.im));
    if (i & 1) { gr += wg[i / 2] * sr; gi += wg[i / 2] * si; }
  }
  Seg s{a, b, kr * h, ki * h, (fabsl(kr - gr) + fabsl(ki - gi)) * fabsl(h), mg * fabsl(h)};
  return s;
}
extern "C" {
// Integrates a key over argument number `var` from lo to hi (hi may be inf: then up to a
// point where the integrand has died out at rate 1/scale), with extra split points.
// out = re, im, error estimate, integral of |f|, evaluations
void ref_integral(int idx, const double *args, int n, int var, double lo, double hi, const double *splits, int ns,
                  double rtol, int maxseg, double *out) {
  NL a[12];
  for (int i = 0; i < n; i++) a[i] = NL((long double)args[2 * i], (long double)args[2 * i + 1]);
  auto fn = by_index<NL>(idx);
  long evals = 0;
  // integrate in x = log q between splits to resolve both ends: q = e^x
  auto f = [&](long double x) -> NL {
    long double q = expl(x);
    a[var] = NL(q);
    evals++;
    NL r = fn(a);
    r.re *= q; r.im *= q;
    if (!std::isfinite((double)r.re)) r.re = 0;
    if (!std::isfinite((double)r.im)) r.im = 0;
    return r;
  };
  std::vector<long double> pts;
  long double L = lo > 0 ? logl(lo) : -60.L;
  long double H = logl(hi);
  pts.push_back(L);
  for (int i = 0; i < ns; i++)
    if (splits[i] > 0) {
      long double x = logl((long double)splits[i]);
      if (x > L && x < H) pts.push_back(x);
    }
  pts.push_back(H);
  std::sort(pts.begin(), pts.end());
  std::vector<Seg> seg;
  auto worse = [](const Seg &x, const Seg &y) { return x.err < y.err; };
  for (size_t i = 0; i + 1 < pts.size(); i++) {
    if (pts[i + 1] - pts[i] < 1e-18L * (1 + fabsl(pts[i]))) continue;
    // pre-split wide panels to at most one e-fold^2
    int k = (int)ceill((pts[i + 1] - pts[i]) / (pts[i] < H - 8 ? 2.L : 0.5L));
    if (k < 1) k = 1;
    for (int j = 0; j < k; j++) {
      long double w = (pts[i + 1] - pts[i]) / k;
      seg.push_back(gk(f, pts[i] + w * j, j == k - 1 ? pts[i + 1] : pts[i] + w * (j + 1)));
    }
  }
  std::make_heap(seg.begin(), seg.end(), worse);
  bool verified = false;
  for (;;) {
    long double re = 0, im = 0, er = 0, mg = 0;
    for (auto &s : seg) { re += s.re; im += s.im; er += s.err; mg += s.mag; }
    if (er <= rtol * (fabsl(re) + fabsl(im)) || er <= 1e-17L * mg || (int)seg.size() >= maxseg) {
      if (!verified && (int)seg.size() < maxseg) {
        // once: bisect every panel off centre, so that a jump hidden between the outermost
        // node and the end of a panel shows
        verified = true;
        std::vector<Seg> two;
        for (auto &s : seg) {
          long double c = s.a + (s.b - s.a) * 0.47L;
          if (s.b - s.a < 1e-6L) { two.push_back(s); continue; }
          Seg u = gk(f, s.a, c), v = gk(f, c, s.b);
          long double d = fabsl(u.re + v.re - s.re) + fabsl(u.im + v.im - s.im);
          if (d > s.err) { u.err += d / 2; v.err += d / 2; }
          two.push_back(u); two.push_back(v);
        }
        seg.swap(two);
        std::make_heap(seg.begin(), seg.end(), worse);
        continue;
      }
      out[0] = re; out[1] = im; out[2] = er; out[3] = mg; out[4] = evals;
      // panels shrunk onto a jump or another singularity
      int tiny = 0;
      for (auto &s : seg) tiny += s.b - s.a < 1e-7L;
      out[5] = tiny;
      return;
    }
    for (int k = 0; k < 8; k++) {
      std::pop_heap(seg.begin(), seg.end(), worse);
      Seg s = seg.back(); seg.pop_back();
      long double c = (s.a + s.b) / 2;
      if (c <= s.a || c >= s.b) { s.err = 0; seg.push_back(s); std::push_heap(seg.begin(), seg.end(), worse); continue; }
      seg.push_back(gk(f, s.a, c)); std::push_heap(seg.begin(), seg.end(), worse);
      seg.push_back(gk(f, c, s.b)); std::push_heap(seg.begin(), seg.end(), worse);
    }
  }
}
} // extern C
