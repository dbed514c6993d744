// Number types of the reference model.
//
// Num<Real, true> carries, next to a complex value computed in extended
// precision, a running first-order bound `e` on the rounding error that an
// IEEE-double evaluation of the same expression would incur, in units of
// 2^-53.  It also raises a thread-local `ambiguous` flag whenever a double
// evaluation could legitimately land on the other side of a branch cut, or
// lose all its digits, so that such points are never judged.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <type_traits>

namespace ref {

struct Flags { bool ambiguous = false; bool extreme = false; bool cold = false; };
inline Flags &flags() { static thread_local Flags f; return f; }

// --- real function overloads ---
inline __float128 r_log(__float128 x) { return logq(x); }
inline __float128 r_exp(__float128 x) { return expq(x); }
inline __float128 r_expm1(__float128 x) { return expm1q(x); }
inline __float128 r_sqrt(__float128 x) { return sqrtq(x); }
inline __float128 r_atan2(__float128 y, __float128 x) { return atan2q(y, x); }
inline __float128 r_sin(__float128 x) { return sinq(x); }
inline __float128 r_cos(__float128 x) { return cosq(x); }
inline __float128 r_abs(__float128 x) { return fabsq(x); }
inline __float128 r_hypot(__float128 x, __float128 y) { return hypotq(x, y); }
inline __float128 r_log1p(__float128 x) { return log1pq(x); }
inline long double r_log(long double x) { return logl(x); }
inline long double r_exp(long double x) { return expl(x); }
inline long double r_expm1(long double x) { return expm1l(x); }
inline long double r_sqrt(long double x) { return sqrtl(x); }
inline long double r_atan2(long double y, long double x) { return atan2l(y, x); }
inline long double r_sin(long double x) { return sinl(x); }
inline long double r_cos(long double x) { return cosl(x); }
inline long double r_abs(long double x) { return fabsl(x); }
inline long double r_hypot(long double x, long double y) { return hypotl(x, y); }
inline long double r_log1p(long double x) { return log1pl(x); }

constexpr double U = 1.1102230246251565e-16; // 2^-53
constexpr double AMB = 256.;                // safety factor for ambiguity

template <class Real, bool TRACK> struct Num {
  Real re, im;
  double e; // error bound / U (unused when !TRACK)
  Num() : re(0), im(0), e(0) {}
  Num(Real r) : re(r), im(0), e(0) {}
  Num(double r) requires(!std::is_same_v<Real, double>) : re(r), im(0), e(0) {}
  Num(int r) : re(r), im(0), e(0) {}
  Num(Real r, Real i, double err = 0) : re(r), im(i), e(err) {}
  double mag() const {
    double a = std::fabs((double)re), b = std::fabs((double)im);
    return a + b;
  }
  bool isreal() const { return im == 0; }
};

#define TN template <class Q, bool T>
#define NN Num<Q, T>
TN inline void note(const NN &r) {
  if (T) {
    double m = r.mag();
    if (!(m < 1e140) || (m != 0 && m < 1e-140)) flags().extreme = true;
  }
}
TN inline NN operator+(const NN &a, const NN &b) {
  NN r(a.re + b.re, a.im + b.im);
  if (T) { r.e = a.e + b.e + r.mag(); }
  return r;
}
TN inline NN operator-(const NN &a) { return NN(-a.re, -a.im, a.e); }
TN inline NN operator-(const NN &a, const NN &b) { return a + (-b); }
TN inline NN operator*(const NN &a, const NN &b) {
  NN r;
  if (a.im == 0) { r.re = a.re * b.re; r.im = a.re * b.im; }
  else if (b.im == 0) { r.re = a.re * b.re; r.im = a.im * b.re; }
  else { r.re = a.re * b.re - a.im * b.im; r.im = a.re * b.im + a.im * b.re; }
  if (T) {
    double ma = a.mag(), mb = b.mag();
    r.e = ma * b.e + mb * a.e + a.e * b.e * U + 2. * ma * mb;
    note(r);
  }
  return r;
}
TN inline NN inv(const NN &a) {
  NN r;
  if (a.im == 0) { r.re = 1 / a.re; r.im = 0; }
  else {
    // scaled to avoid overflow
    Q s = r_abs(a.re) > r_abs(a.im) ? r_abs(a.re) : r_abs(a.im);
    Q x = a.re / s, y = a.im / s, n = (x * x + y * y) * s;
    r.re = x / n; r.im = -y / n;
  }
  if (T) {
    double m = a.mag();
    if (a.e * U * 8. >= m) flags().ambiguous = true;
    r.e = 2. * a.e / (m * m) * 1.2 + 4. * r.mag();
    note(r);
  }
  return r;
}
TN inline NN operator/(const NN &a, const NN &b) { return a * inv(b); }
#define MIX(op)                                                                \
  TN inline NN operator op(const NN &a, double b) { return a op NN(b); }       \
  TN inline NN operator op(double a, const NN &b) { return NN(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
TN inline NN mulI(const NN &a) { return NN(-a.im, a.re, a.e); }
TN inline NN sqr(const NN &a) { return a * a; }
TN inline NN conj(const NN &a) { return NN(a.re, -a.im, a.e); }
TN inline void cutcheck(const NN &a) {
  if (T) {
    double m = a.mag();
    double k = AMB * a.e * U;
    if (m <= k) flags().ambiguous = true;
    if (a.re < 0 && std::fabs((double)a.im) <= k + 4 * U * m) flags().ambiguous = true;
  }
}
TN inline NN ln(const NN &a) {
  cutcheck(a);
  NN r;
  // |a|^2-1 form when close to 1
  Q x = r_abs(a.re), y = r_abs(a.im);
  Q h = r_hypot(x, y);
  if (h > Q(0.5) && h < Q(2)) {
    Q mx = x > y ? x : y, mn = x > y ? y : x;
    r.re = r_log1p((mx - 1) * (mx + 1) + mn * mn) / 2;
  } else r.re = r_log(h);
  r.im = (a.im == 0 && a.re > 0) ? Q(0) : r_atan2(a.im, a.re);
  if (T) r.e = 2. * a.e / a.mag() + 2. + 2. * r.mag();
  return r;
}
TN inline NN sqrt(const NN &a) {
  NN r;
  if (a.im == 0 && a.re >= 0) {
    r.re = r_sqrt(a.re);
    if (T && a.re != 0) r.e = a.e / (2 * (double)r.re) + r.mag();
    else if (T) { r.e = 0; if (a.e > 0) flags().ambiguous = true; }
    return r;
  }
  cutcheck(a);
  Q h = r_hypot(a.re, a.im);
  Q t = r_sqrt((h + r_abs(a.re)) / 2);
  if (a.re >= 0) { r.re = t; r.im = a.im / (2 * t); }
  else { r.im = a.im < 0 ? -t : t; r.re = a.im / (2 * r.im); }
  if (T) r.e = a.e / r.mag() * 1.5 + 4. * r.mag();
  return r;
}
TN inline NN exp(const NN &a) {
  NN r;
  if (a.im == 0) { r.re = r_exp(a.re); }
  else {
    Q m = r_exp(a.re);
    r.re = m * r_cos(a.im); r.im = m * r_sin(a.im);
    if (T && a.re > 340) flags().extreme = true;
  }
  if (T) {
    if (a.e * U > 0.05) flags().ambiguous = true;
    double m = r.mag();
    r.e = m * (a.e * 1.5 + 3.);
    if (!(r.e < 1e300)) { r.e = m < 1e300 ? r.e : 1e300; }
  }
  return r;
}
// 1 / (exp(x) + sign). Real exponents may overflow: the occupation is then nothing.
TN inline NN occupation(const NN &x, double sign) {
  if (T && x.im == 0 && x.re > 320 && !(x.e * U > 0.05)) {
    flags().cold = true;
    return NN(Q(0), Q(0), 1e-130 / U);
  }
  return inv(exp(x) + sign);
}
#undef TN
#undef NN
} // namespace ref
