// Reference model: the mathematical content of qcd-sme, written once over an
// abstract number type.  Conventions: N is a Num<...>; every function takes and
// returns complex numbers.
#pragma once
#include "num.hpp"

namespace ref {
template <class N> struct M {
  using V = const N &;
  // ---------- vacuum, gluon ----------
  static N l_a(V s, V ls) {
    N s2 = s * s, si = inv(s), a = sqrt(si * 4. + 1.);
    return (s2 * 3. - s * 34. - 28. - si * 24.) * a * (ln((a - 1.) / 2.) * 2. + ls);
  }
  static N l_b(V s, V lp) {
    N si = inv(s), si2 = si * si, si3 = si * si2, q = sqr(s + 1.);
    return q * (-si * 20. + 3. + si2 * 11. - si3 * 2.) * 2. * lp;
  }
  static N l_c(V s, V ls) { return (-(s * s) * 3. + 2.) * ls; }
  static N r_a(V s) { N si = inv(s); return -(s + 4.) * (s - 20. + si * 12.); }
  static N r_b(V s) { N si = inv(s); return sqr(s + 1.) * 2. * (-si * 10. + 1. + si * si); }
  static N r_c(V s) { N si = inv(s); return si * si * 2. + 2. - s * s; }
  static N f_sep(V s, V ls, V lp) {
    return (l_a(s, ls) + l_b(s, lp) + l_c(s, ls) + r_a(s) + r_b(s) + r_c(s)) / 72. + inv(s) * 5. / 8.;
  }
  static N f(V s) { return f_sep(s, ln(s), ln(s + 1.)); }
  static N f_xi_sep(V s, V ls, V lp) {
    N si = inv(s), si2 = si * si;
    return si / 4. - (s * 2. * ls - (si2 - si) * (si - s * s) * 2. * lp + 3. - si * 3. + si2 * 2.) / 12.;
  }
  static N f_xi(V s) { return f_xi_sep(s, ln(s), ln(s + 1.)); }
  static N f_q(V s) {
    N si = inv(s), a = sqrt(si * 4. + 1.);
    return ((-si + 0.5) * a * ln((a - 1.) / (a + 1.)) - si * 2. + N(5.) / 6.) * 4. / 9.;
  }
  static N f_q_crossed(V s) {
    N si = inv(s), a = sqrt(si * 4. + 1.);
    return (si * 4. - N(1.) / 6. + (si + 0.5 + si * si * 8.) / a * ln((a - 1.) / (a + 1.))) * 4. / 9.;
  }
  // ---------- vacuum, ghost ----------
  static N g_sep(V s, V ls, V lp) {
    N si = inv(s);
    N l = sqr(s + 1.) * (si * 2. - si * si) * lp - s * 2. * ls;
    return (l + si + 2.) / 12.;
  }
  static N g(V s) { return g_sep(s, ln(s), ln(s + 1.)); }
  static N g_xi_sep(V ls) { return -ls / 12.; }
  static N g_xi(V s) { return -ln(s) / 12.; }

  // ---------- common ----------
  static N energy(V p, V m) { return sqrt(m * m + p * p); }
  static N bose(V en, V beta) { return occupation(en * beta, -1.); }
  static N bose_mu(V en, V beta, V mu) { return occupation((en - mu) * beta, -1.); }
  static N fermi(V en, V beta, V mu) { return occupation((en - mu) * beta, 1.); }
  static N fermi0(V en, V beta) { return occupation(en * beta, 1.); }
  static N fermi2(V en, V beta, V mu) { return fermi(en, beta, mu) + fermi(en, beta, -mu); }
  static N step(V en, V mu) { // zero temperature: theta(mu-en), 1 at equality
    N d = en - mu;
    if (d.e * U * AMB >= d.mag() && d.e > 0 && !(d.re == 0 && en.e == 0)) flags().ambiguous = true;
    return en.re > mu.re ? N(0.) : N(1.);
  }
  static N step2(V en, V mu) { return step(en, mu) + step(en, -mu); }
  static N PI2() {
    if constexpr (std::is_same_v<decltype(N::re), __float128>)
      return N((__float128)9.86960440108935861883449099987615113531Q, 0, 30.);
    else
      return N((decltype(N::re))9.86960440108935861883449099987615113531L, 0, 30.);
  }

  // ---------- thermal, general ----------
  static N r0(V om, V p, V en, V d) { return om * om + mulI(om * en * 2.) + (p * p + d); }
  static N logr(V r, V q2p) { return ln((q2p + r) / (-q2p + r)); }
  static N tlog(V q, V om, V p, V en, V d) { return logr(r0(om, p, en, d), p * q * 2.); }
  static N tlog_l(V q, V om, V p, V en, V d) {
    N pf = om * om + mulI(om * en * 2.) + d + p * p * (mulI(inv(om) * en * 2.) + 1.);
    return tlog(q, om, p, en, d) * pf * pf;
  }
  static N tlog_t(V q, V om, V p, V en, V d) {
    N r = r0(om, p, en, d), q2p = q * 2. * p;
    return (r + q2p) * (r - q2p) * tlog(q, om, p, en, d);
  }
  static N j(V q, V m, V b) { N en = energy(q, m); return bose(en, b) * q * q / (en * 2. * PI2()); }
  static N j_l(V q, V m, V b) { N en = energy(q, m); return -bose(en, b) * q * q * en / (2. * PI2()); }
  static N j_t(V q, V m, V b) { N en = energy(q, m); return bose(en, b) * sqr(q * q) / (en * 6. * PI2()); }
  static N d_j(V q, V m, V b) { N en = energy(q, m); return -bose(en, b) / (en * 4. * PI2()); }
  static N d_j_l(V q, V m, V b) { N en = energy(q, m); return en * bose(en, b) / (4. * PI2()); }
  static N d_j_t(V q, V m, V b) { N en = energy(q, m); return -bose(en, b) * q * q / (en * 4. * PI2()); }
  static N d2_j(V q, V m, V b) {
    N en = energy(q, m), bp = bose(en, b), bm = bose(-en, b);
    return bp / (en * en * en * 8. * PI2()) * (-(en * b) * bm + 1.);
  }
  static N d2_j_l(V q, V m, V b) {
    N en = energy(q, m), bp = bose(en, b), bm = bose(-en, b);
    return bp / (8. * PI2()) * (bm * b + inv(en));
  }
  static N d2_j_t(V q, V m, V b) { N en = energy(q, m); return bose(en, b) / (en * 8. * PI2()); }

  static N i_(V q, V om, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    N t1 = bose(e1, b) / e1 * (tlog(q, om, p, e1, d) + tlog(q, -om, p, e1, d));
    N t2 = bose(e2, b) / e2 * (tlog(q, om, p, e2, -d) + tlog(q, -om, p, e2, -d));
    return (t1 + t2) * q / (p * 16. * PI2());
  }
  static N i_l(V q, V om, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    N qp = q * p, p2 = p * p, p3 = p2 * p, om2 = om * om, s = om2 + p2;
    N t1 = bose(e1, b) / e1 * (tlog_l(q, om, p, e1, d) + tlog_l(q, -om, p, e1, d) - 8. * qp * (s + d));
    N t2 = bose(e2, b) / e2 * (tlog_l(q, om, p, e2, -d) + tlog_l(q, -om, p, e2, -d) - 8. * qp * (s - d));
    return inv(s * p3 * 64. * PI2()) * om2 * q * (t1 + t2);
  }
  static N i_t(V q, V om, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    N qp = q * p, p3 = p * p * p, s = om * om + p * p;
    N t1 = bose(e1, b) / e1 * (tlog_t(q, om, p, e1, d) + tlog_t(q, -om, p, e1, d) - 8. * qp * (s + d));
    N t2 = bose(e2, b) / e2 * (tlog_t(q, om, p, e2, -d) + tlog_t(q, -om, p, e2, -d) - 8. * qp * (s - d));
    return -inv(p3 * 128. * PI2()) * q * (t1 + t2);
  }
  // derivative integrands; `same`: both masses equal and derivative with respect to one of them
  struct Inv { N p, m; };
  static Inv invs(V r, V q2p) { return {inv(r + q2p), inv(r - q2p)}; }
  static N d_i(V q, V om, V p, V m1, V m2, V b) {
    N q2p = q * p * 2., d = m2 * m2 - m1 * m1, e1 = energy(q, m1), e2 = energy(q, m2);
    Inv a = invs(r0(om, p, e1, d), q2p), ao = invs(r0(-om, p, e1, d), q2p);
    Inv c = invs(r0(om, p, e2, -d), q2p), co = invs(r0(-om, p, e2, -d), q2p);
    N b1 = bose(e1, b) / e1, b2 = bose(e2, b) / e2;
    N t10 = b1 * (a.p + a.m + ao.p + ao.m), t1 = b1 * (a.p - a.m + ao.p - ao.m);
    N t2 = b2 * (c.p - c.m + co.p - co.m);
    return (-t10 + (t2 - t1) * q / p) / (16. * PI2());
  }
  static N d_i_same(V q, V om, V p, V m, V b) {
    N q2p = q * p * 2., e1 = energy(q, m);
    Inv a = invs(r0(om, p, e1, N(0.)), q2p), ao = invs(r0(-om, p, e1, N(0.)), q2p);
    return -bose(e1, b) * inv(e1 * 16. * PI2()) * (a.p + a.m + ao.p + ao.m);
  }
  static N d_i_l(V q, V om, V p, V m1, V m2, V b) {
    N om2 = om * om, p2 = p * p, q2p = p * q * 2., d = m2 * m2 - m1 * m1, s = om2 + p2;
    N k = mulI(inv(om) * 2.) * p2;
    N e1 = energy(q, m1), b1 = bose(e1, b) / e1, e2 = energy(q, m2), b2 = bose(e2, b) / e2;
    N l1p = tlog(q, om, p, e1, d), l1m = tlog(q, -om, p, e1, d);
    N l2p = tlog(q, om, p, e2, -d), l2m = tlog(q, -om, p, e2, -d);
    N r1p = r0(om, p, e1, d), r1m = r0(-om, p, e1, d), r2p = r0(om, p, e2, -d), r2m = r0(-om, p, e2, -d);
    Inv v1p = invs(r1p, q2p), v1m = invs(r1m, q2p), v2p = invs(r2p, q2p), v2m = invs(r2m, q2p);
    N x1p = r1p + e1 * k, x1m = r1m - e1 * k, x2p = r2p + e2 * k, x2m = r2m - e2 * k;
    N y1p = x1p * x1p, y1m = x1m * x1m, y2p = x2p * x2p, y2m = x2m * x2m;
    N t1 = -b1 * ((v1p.p + v1p.m) * y1p + (v1m.p + v1m.m) * y1m);
    N t2 = b1 * (s + d) * 4.;
    N t3 = (b1 - b2) * q * q * 8.;
    N t4 = (b2 * (x2p * l2p + x2m * l2m) - b1 * (x1p * l1p + x1m * l1m)) * q / p * 2.;
    N t5 = (b2 * (y2p * (v2p.p - v2p.m) + y2m * (v2m.p - v2m.m)) -
            b1 * (y1p * (v1p.p - v1p.m) + y1m * (v1m.p - v1m.m))) * q / p;
    return om2 * inv(s * p2 * 64. * PI2()) * (t1 + t2 + t3 + t4 + t5);
  }
  static N d_i_l_same(V q, V om, V p, V m, V b) {
    N om2 = om * om, p2 = p * p, q2p = p * q * 2., s = om2 + p2, k = mulI(inv(om) * 2.) * p2;
    N e1 = energy(q, m), b1 = bose(e1, b) / e1;
    N rp = r0(om, p, e1, N(0.)), rm = r0(-om, p, e1, N(0.));
    Inv vp = invs(rp, q2p), vm = invs(rm, q2p);
    N xp = rp + e1 * k, xm = rm - e1 * k;
    N t1 = -b1 * ((vp.p + vp.m) * xp * xp + (vm.p + vm.m) * xm * xm);
    return om2 * inv(s * p2 * 64. * PI2()) * (t1 + b1 * s * 4.);
  }
  static N d_i_t(V q, V om, V p, V m1, V m2, V b) {
    N p2 = p * p, d = m2 * m2 - m1 * m1;
    N e1 = energy(q, m1), b1 = bose(e1, b) / e1, e2 = energy(q, m2), b2 = bose(e2, b) / e2;
    N l1p = tlog(q, om, p, e1, d), l1m = tlog(q, -om, p, e1, d);
    N l2p = tlog(q, om, p, e2, -d), l2m = tlog(q, -om, p, e2, -d);
    N r1p = r0(om, p, e1, d), r1m = r0(-om, p, e1, d), r2p = r0(om, p, e2, -d), r2m = r0(-om, p, e2, -d);
    N t1 = -b1 * (l1p + l1m) / 4.;
    N t2 = (b2 - b1) * q / p;
    N t3 = (b1 * (r1p * l1p + r1m * l1m) - b2 * (r2p * l2p + r2m * l2m)) / (p2 * 8.);
    return (t1 + t2 + t3) * q / (p * 8. * PI2());
  }
  static N d_i_t_same(V q, V om, V p, V m, V b) {
    N e1 = energy(q, m);
    return -inv(e1 * p * 32. * PI2()) * bose(e1, b) *
           (tlog(q, om, p, e1, N(0.)) + tlog(q, -om, p, e1, N(0.))) * q;
  }

  // ---------- thermal, zero Matsubara frequency ----------
  static N zf_log(V q, V p, V d) {
    N r = p * p + d, q2p = q * 2. * p, rat = (r + q2p) / (r - q2p);
    return ln(rat * rat) / 2.;
  }
  static N zf_log_same(V q, V p) { // log |(p+2q)/(p-2q)|
    N rat = (q * 2. + p) / (q * -2. + p);
    return ln(rat * rat) / 2.;
  }
  static N zf_log_t(V q, V p, V d) {
    N r = p * p + d, q2p = q * 2. * p;
    return (r + q2p) * (r - q2p) * zf_log(q, p, d);
  }
  static N zf_log_t_same(V q, V p) { return p * p * (q * 2. + p) * (q * -2. + p) * zf_log_same(q, p); }
  static N zf_i(V q, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    return (bose(e1, b) / e1 * zf_log(q, p, d) + bose(e2, b) / e2 * zf_log(q, p, -d)) * q / (p * 8. * PI2());
  }
  static N zf_i_same(V q, V p, V m, V b) {
    N en = energy(q, m);
    return bose(en, b) / en * zf_log_same(q, p) * q / (p * 4. * PI2());
  }
  static N zf_i_l(V q, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    return -q * (bose(e1, b) * e1 * zf_log(q, p, d) + bose(e2, b) * e2 * zf_log(q, p, -d)) / (p * 8. * PI2());
  }
  static N zf_i_l_same(V q, V p, V m, V b) {
    N en = energy(q, m);
    return -bose(en, b) * en * q * zf_log_same(q, p) / (p * 4. * PI2());
  }
  static N zf_i_t(V q, V p, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1, qp = q * p, p2 = p * p;
    N t1 = bose(e1, b) / e1 * (zf_log_t(q, p, d) - 4. * qp * (p2 + d));
    N t2 = bose(e2, b) / e2 * (zf_log_t(q, p, -d) - 4. * qp * (p2 - d));
    return -inv(p2 * p * 64. * PI2()) * q * (t1 + t2);
  }
  static N zf_i_t_same(V q, V p, V m, V b) {
    N en = energy(q, m), p2 = p * p;
    return -(bose(en, b) / en * (-p2 * 4. * q * p + zf_log_t_same(q, p))) * q / (p2 * p * 32. * PI2());
  }
  static N zf_d_i(V q, V p, V m1, V m2, V b) {
    N q2p = q * p * 2., d = m2 * m2 - m1 * m1, e1 = energy(q, m1), e2 = energy(q, m2);
    Inv a = invs(p * p + d, q2p), c = invs(p * p - d, q2p);
    N b1 = bose(e1, b) / e1, b2 = bose(e2, b) / e2;
    return (-b1 * (a.p + a.m) + (b2 * (c.p - c.m) - b1 * (a.p - a.m)) * q / p) / (8. * PI2());
  }
  static N zf_d_i_same(V q, V p, V m, V b) {
    N en = energy(q, m);
    return -bose(en, b) * inv(en * p * 8. * PI2()) * (inv(q * 2. + p) + inv(q * -2. + p));
  }
  static N zf_d_i_l(V q, V p, V m1, V m2, V b) {
    N q2p = q * p * 2., d = m2 * m2 - m1 * m1, e1 = energy(q, m1), e2 = energy(q, m2);
    Inv a = invs(p * p + d, q2p), c = invs(p * p - d, q2p);
    N b1 = bose(e1, b) * e1, b2 = bose(e2, b) * e2;
    return (b1 * (a.p + a.m) - (b2 * (c.p - c.m) - b1 * (a.p - a.m)) * q / p) / (8. * PI2());
  }
  static N zf_d_i_l_same(V q, V p, V m, V b) {
    N en = energy(q, m);
    return bose(en, b) * en * (inv(q * 2. + p) + inv(q * -2. + p)) / (p * 8. * PI2());
  }
  static N zf_d_i_t(V q, V p, V m1, V m2, V b) {
    N p2 = p * p, d = m2 * m2 - m1 * m1, e1 = energy(q, m1), e2 = energy(q, m2);
    N b1 = bose(e1, b) / e1, b2 = bose(e2, b) / e2, l1 = zf_log(q, p, d), l2 = zf_log(q, p, -d);
    N t1 = -b1 * l1 / 2., t2 = (b2 - b1) * q / p;
    N t3 = (b1 * ((p2 + d) * l1) - b2 * ((p2 - d) * l2)) / (p2 * 4.);
    return (t1 + t2 + t3) * q / (p * 8. * PI2());
  }
  static N zf_d_i_t_same(V q, V p, V m, V b) {
    N en = energy(q, m);
    return -inv(en * p * 16. * PI2()) * bose(en, b) * zf_log_same(q, p) * q;
  }

  // ---------- thermal, zero momentum ----------
  static N zm_r0(V om, V en, V d) { return om * om + mulI(om * en * 2.) + d; }
  struct Pair { N a, b; };
  static Pair zm_inv(V om, V en, V d) { return {inv(zm_r0(om, en, d)), inv(zm_r0(-om, en, d))}; }
  static N zm_i(V q, V om, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    Pair x = zm_inv(om, e1, d), y = zm_inv(om, e2, -d);
    return (bose(e1, b) / e1 * (x.a + x.b) + bose(e2, b) / e2 * (y.a + y.b)) * q * q / (4. * PI2());
  }
  static N zm_i_l(V q, V om, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    Pair x = zm_inv(om, e1, d), y = zm_inv(om, e2, -d);
    return inv(12. * PI2()) * sqr(q * q) * (bose(e1, b) / e1 * (x.a + x.b) + bose(e2, b) / e2 * (y.a + y.b));
  }
  static N zm_d_i(V q, V om, V m1, V m2, V b) {
    N e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    Pair x = zm_inv(om, e1, d), y = zm_inv(om, e2, -d);
    N b1 = bose(e1, b) / e1, b2 = bose(e2, b) / e2;
    return (-b1 * (x.a + x.b) + (b1 * (x.a * x.a + x.b * x.b) - b2 * (y.a * y.a + y.b * y.b)) * q * q * 2.) / (8. * PI2());
  }
  static N zm_d_i_same(V q, V om, V m, V b) {
    N e1 = energy(q, m);
    Pair x = zm_inv(om, e1, N(0.));
    return -bose(e1, b) * inv(e1 * 8. * PI2()) * (x.a + x.b);
  }
  static N zm_d_i_l(V q, V om, V m1, V m2, V b) {
    N q2 = q * q, e1 = energy(q, m1), e2 = energy(q, m2), d = m2 * m2 - m1 * m1;
    Pair x = zm_inv(om, e1, d), y = zm_inv(om, e2, -d);
    N b1 = bose(e1, b) / e1, b2 = bose(e2, b) / e2;
    return (-b1 * (x.a + x.b) + (b1 * (x.a * x.a + x.b * x.b) - b2 * (y.a * y.a + y.b * y.b)) * q2 * 2. / 3.) * q2 / (8. * PI2());
  }
  static N zm_d_i_l_same(V q, V om, V m, V b) { return zm_d_i_same(q, om, m, b) * (q * q); }

  // ---------- ghost self-energy integrand ----------
  static N ghost_comb(V s, V m, V i_m0, V i_00, V d_i_m0, V j_m, V j_0, V d_j_m) {
    N m2 = m * m, a = s + m2;
    N t1 = -a * s / (2. * m2) * i_m0, t2 = s * s / (2. * m2) * i_00;
    N t3 = (s * 2. - m2) / (4. * m2) * (j_m - j_0), t4 = a * a / 4. * d_i_m0, t5 = -(s - m2) / 4. * d_j_m;
    return t5 + (t3 + t1) + t2 + t4;
  }
  static N ghost(V q, V om, V p, V m, V b) {
    N z(0.);
    return ghost_comb(om * om + p * p, m, i_(q, om, p, m, z, b), i_(q, om, p, z, z, b), d_i(q, om, p, m, z, b),
                      j(q, m, b), j(q, z, b), d_j(q, m, b));
  }
  static N zf_ghost(V q, V p, V m, V b) {
    N z(0.);
    return ghost_comb(p * p, m, zf_i(q, p, m, z, b), zf_i_same(q, p, z, b), zf_d_i(q, p, m, z, b), j(q, m, b),
                      j(q, z, b), d_j(q, m, b));
  }
  static N zm_ghost(V q, V om, V m, V b) {
    N z(0.);
    return ghost_comb(om * om, m, zm_i(q, om, m, z, b), zm_i(q, om, z, z, b), zm_d_i(q, om, m, z, b), j(q, m, b),
                      j(q, z, b), d_j(q, m, b));
  }
  // ---------- glue polarization integrand ----------
  struct Glue { N i00x, immx, im0x, imm, im0, jm, j0, dmmx, dm0x, dmm, dm0, djm, d2jm, jmx, j0x, djmx, d2jmx; };
  static N glue_comb(V s, V m, const Glue &g) {
    N s2 = s * s, m2 = m * m, m4 = m2 * m2, a = s + m2 * 2., b = s + m2, b2 = b * b;
    N t1 = (s2 * 3. / (m4 * 2.) - 1.) * g.i00x;
    N t2 = ((s2 * 3. + s * m2 * 8. + 4. * m4) / (2. * m4) + 4.) * g.immx;
    N t3 = -(s2 * 3. + s * m2 * 4. + m4) / m4 * g.im0x;
    N t4 = a * s * 2. / m2 * g.imm, t5 = -b * s * 2. / m2 * g.im0;
    N t6 = -(s * 2. + m2 * 3.) / m2 * g.jm, t7 = (s * 2. + m2) / m2 * g.j0;
    N t8 = -(a * a / m2 + m2 * 8.) * g.dmmx, t9 = b2 / m2 * g.dm0x;
    N t10 = -s * 2. * (s + m2 * 4.) * g.dmm, t11 = b2 * g.dm0, t12 = (s + m2 * 3.) * g.djm;
    N t13 = -m4 * g.d2jm, t14 = (g.jmx - g.j0x) / m2, t15 = -g.djmx + g.d2jmx * m2 / 2.;
    return t12 + (t7 + (t6 + t1)) + t2 + t3 + t4 + t5 + t8 + t9 + t10 + t11 + t14 + t15 + t13;
  }
  static N glue_l(V q, V om, V p, V m, V b) {
    N z(0.), om2 = om * om, p2 = p * p, s = om2 + p2, si = inv(s);
    auto mix = [&](V t, V l) { return si * (om2 * t + p2 * l); };
    Glue g{i_l(q, om, p, z, z, b), i_l(q, om, p, m, m, b), i_l(q, om, p, m, z, b), i_(q, om, p, m, m, b),
           i_(q, om, p, m, z, b), j(q, m, b), j(q, z, b), d_i_l_same(q, om, p, m, b), d_i_l(q, om, p, m, z, b),
           d_i_same(q, om, p, m, b), d_i(q, om, p, m, z, b), d_j(q, m, b), d2_j(q, m, b),
           mix(j_t(q, m, b), j_l(q, m, b)), mix(j_t(q, z, b), j_l(q, z, b)), mix(d_j_t(q, m, b), d_j_l(q, m, b)),
           mix(d2_j_t(q, m, b), d2_j_l(q, m, b))};
    return glue_comb(s, m, g);
  }
  static N glue_t(V q, V om, V p, V m, V b) {
    N z(0.), s = om * om + p * p;
    Glue g{i_t(q, om, p, z, z, b), i_t(q, om, p, m, m, b), i_t(q, om, p, m, z, b), i_(q, om, p, m, m, b),
           i_(q, om, p, m, z, b), j(q, m, b), j(q, z, b), d_i_t_same(q, om, p, m, b), d_i_t(q, om, p, m, z, b),
           d_i_same(q, om, p, m, b), d_i(q, om, p, m, z, b), d_j(q, m, b), d2_j(q, m, b), j_t(q, m, b),
           j_t(q, z, b), d_j_t(q, m, b), d2_j_t(q, m, b)};
    return glue_comb(s, m, g);
  }
  static N zf_glue_l(V q, V p, V m, V b) {
    N z(0.);
    Glue g{zf_i_l_same(q, p, z, b), zf_i_l_same(q, p, m, b), zf_i_l(q, p, m, z, b), zf_i_same(q, p, m, b),
           zf_i(q, p, m, z, b), j(q, m, b), j(q, z, b), zf_d_i_l_same(q, p, m, b), zf_d_i_l(q, p, m, z, b),
           zf_d_i_same(q, p, m, b), zf_d_i(q, p, m, z, b), d_j(q, m, b), d2_j(q, m, b), j_l(q, m, b), j_l(q, z, b),
           d_j_l(q, m, b), d2_j_l(q, m, b)};
    return glue_comb(p * p, m, g);
  }
  static N zf_glue_t(V q, V p, V m, V b) {
    N z(0.);
    Glue g{zf_i_t_same(q, p, z, b), zf_i_t_same(q, p, m, b), zf_i_t(q, p, m, z, b), zf_i_same(q, p, m, b),
           zf_i(q, p, m, z, b), j(q, m, b), j(q, z, b), zf_d_i_t_same(q, p, m, b), zf_d_i_t(q, p, m, z, b),
           zf_d_i_same(q, p, m, b), zf_d_i(q, p, m, z, b), d_j(q, m, b), d2_j(q, m, b), j_t(q, m, b), j_t(q, z, b),
           d_j_t(q, m, b), d2_j_t(q, m, b)};
    return glue_comb(p * p, m, g);
  }
  static N zm_glue(V q, V om, V m, V b) {
    N z(0.);
    Glue g{zm_i_l(q, om, z, z, b), zm_i_l(q, om, m, m, b), zm_i_l(q, om, m, z, b), zm_i(q, om, m, m, b),
           zm_i(q, om, m, z, b), j(q, m, b), j(q, z, b), zm_d_i_l_same(q, om, m, b), zm_d_i_l(q, om, m, z, b),
           zm_d_i_same(q, om, m, b), zm_d_i(q, om, m, z, b), d_j(q, m, b), d2_j(q, m, b), j_t(q, m, b), j_t(q, z, b),
           d_j_t(q, m, b), d2_j_t(q, m, b)};
    return glue_comb(om * om, m, g);
  }
  // ---------- quark polarization kernels (without the statistical factor) ----------
  static N quark_l_k(V q, V om, V p, V mq, V nc) {
    N p2 = p * p, s = om * om + p2, en = energy(q, mq), z(0.);
    N t = (s - en * en * 4. + mulI(om * 4. * en)) * tlog(q, om, p, en, z) +
          (s - en * en * 4. - mulI(om * 4. * en)) * tlog(q, -om, p, en, z);
    return -inv(p2 * en * nc * 2. * PI2()) * s * q * q * (1. - inv(p * q * 8.) * t);
  }
  static N quark_t_k(V q, V om, V p, V mq, V nc) {
    N p2 = p * p, om2 = om * om, s = om2 + p2, q2 = q * q, en = energy(q, mq), z(0.), a = p2 - om2;
    N bb = a * s + 4. * q2 * p2 + om2 * 4. * en * en, c = mulI(om * s * 4. * en);
    N t = (bb - c) * tlog(q, om, p, en, z) + (bb + c) * tlog(q, -om, p, en, z);
    return -q2 / (p2 * en * nc * 4. * PI2()) * (a - t / (8. * q * p));
  }
  static N zf_quark_l_k(V q, V p, V mq, V nc) {
    N en = energy(q, mq);
    N t = (en * en * -4. + p * p) / (4. * q * p) * zf_log_same(q, p);
    return -q * q / (en * nc * 2. * PI2()) * (1. - t);
  }
  static N zf_quark_t_k(V q, V p, V mq, V nc) {
    N en = energy(q, mq);
    N t = (4. * q * q + p * p) * zf_log_same(q, p) / (4. * q * p);
    return -q * q / (en * nc * 4. * PI2()) * (1. - t);
  }
  static N zm_quark_k(V q, V om, V mq, V nc) {
    N en = energy(q, mq), q2 = q * q;
    return q2 * 2. * (q2 - en * en * 3.) / ((om * om + en * en * 4.) * en * 3. * PI2() * nc);
  }
};
} // namespace ref
