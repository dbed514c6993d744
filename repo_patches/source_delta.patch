From 785d3bf86ee8ad37766f5c8c4a173db9c46b0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 1/9] fix: respect a customized default integration method in
 the Matsubara limit

The default-method wrappers of thermal::gluon::zero_matsubara compared the
current defaults with themselves, so a tolerance set by the user was always
replaced by 1E-8. Compare with the initial defaults, as the comment says.
---
 qcd-sme/src/consts.rs                         | 11 +++-
 .../src/low_level/oneloop/thermal/gluon.rs    | 58 ++++++-------------
 2 files changed, 26 insertions(+), 43 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..1a3e496 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+// The initial value of the default tolerance for numerical integrals.
+pub(crate) const INITIAL_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = INITIAL_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,12 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+// The initial value of the default maximum number of iterations for numerical
+// integrals.
+pub(crate) const INITIAL_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = INITIAL_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..cd60bf3 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            INITIAL_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -763,69 +764,44 @@ pub mod zero_matsubara {
         // default integration method to DEFAULT_TOL_INT_REPL. This does not increase
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
-        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
+        fn default_integration_method() -> Integral {
+            let integral = get_default_integration_method();
+            if let Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
+                    return Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
+            integral
+        }
+
+        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
+            let integral = default_integration_method();
             polarization_glue_l_thermal_part_landau_w_method(p, m, beta, integral)
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_glue_t_thermal_part_landau_w_method(p, m, beta, integral)
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_l_thermal_part_landau_w_method(p, mq, beta, mu, integral)
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_t_thermal_part_landau_w_method(p, mq, beta, mu, integral)
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_l_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_t_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
         }
     }
-- 
2.43.0


From 23d8ead6c353595d4ddd160744c359e298f3d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 2/9] fix: use the field configuration's number of colors in
 thermal functions

The quark loops of the thermal *_w_field_config functions took the number of
colors from the global parameter instead of the configuration, so they were
wrong for config.nc != get_number_of_colors(). Remove the build warning about
this known bug.
---
 qcd-sme/build.rs                              |   2 -
 .../src/low_level/oneloop/thermal/gluon.rs    | 373 +++++++++++++++---
 qcd-sme/src/qcd/thermal.rs                    |  94 +++--
 3 files changed, 384 insertions(+), 85 deletions(-)

diff --git a/qcd-sme/build.rs b/qcd-sme/build.rs
index 4ebdef0..800b9e2 100644
--- a/qcd-sme/build.rs
+++ b/qcd-sme/build.rs
@@ -13,8 +13,6 @@ const CYTHON_HEADER_FILE: &str = "qcd_sme.pxd";
 const INCLUDE_GUARD: &str = "__QCD_SME_H__";
 
 fn main() {
-    println!("cargo::warning=There's a known bug in the *_w_field_config functions: you still have to call qcd_sme::consts::set_number_of_colors(nc) for nc != 3 and nf != 0. This bug also makes the functions not thread-safe with respect to a change of nc. I will eventually fix this but I'm too busy right now.");
-
     let crate_dir = path::PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let mut target_dir = crate_dir.join("target");
     // This crate depends on other crates and it will be built last, by which
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index cd60bf3..f5c223a 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -10,7 +10,7 @@ pub use native::*;
 mod native {
     use super::inlines;
     use crate::common::thermal::inlines::fermi_momentum;
-    use crate::consts::get_default_integration_method;
+    use crate::consts::{get_default_integration_method, nc};
     use crate::{Num, C, R};
     use peroxide::numerical::integral::{integrate, Integral};
 
@@ -42,7 +42,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc() as R)
     }
 
     pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -53,7 +53,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc() as R)
     }
 
     pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -63,7 +63,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc() as R)
     }
 
     pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -73,7 +73,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc() as R)
     }
 
     pub fn polarization_glue_l_thermal_part_landau_w_method<T1: Num, T2: Num>(
@@ -117,6 +117,27 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_w_method_nc(
+            om,
+            p,
+            mq,
+            beta,
+            mu,
+            nc() as R,
+            integral,
+        )
+    }
+
+    // Same, for an explicit number of colors.
+    pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: R,
+        integral: Integral,
     ) -> C {
         integrate(
             |t| {
@@ -127,6 +148,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -141,6 +163,27 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_w_method_nc(
+            om,
+            p,
+            mq,
+            beta,
+            mu,
+            nc() as R,
+            integral,
+        )
+    }
+
+    // Same, for an explicit number of colors.
+    pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: R,
+        integral: Integral,
     ) -> C {
         integrate(
             |t| {
@@ -151,6 +194,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -164,12 +208,34 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
+            om,
+            p,
+            mq,
+            mu,
+            nc() as R,
+            integral,
+        )
+    }
+
+    // Same, for an explicit number of colors.
+    pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc<
+        T1: Num,
+        T2: Num,
+    >(
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+        nc: R,
+        integral: Integral,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -181,12 +247,31 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
+            om,
+            p,
+            mq,
+            mu,
+            nc() as R,
+            integral,
+        )
+    }
+
+    // Same, for an explicit number of colors.
+    pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+        nc: R,
+        integral: Integral,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -293,6 +378,7 @@ mod native {
 //   number (one function for real arguments, another for complex arguments).
 pub(crate) mod ffi {
     use super::inlines;
+    use crate::consts::nc;
     use crate::{C, R};
 
     pub use super::zero_matsubara::ffi::*;
@@ -329,7 +415,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc() as R)
     }
 
     #[no_mangle]
@@ -341,7 +427,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc() as R)
     }
 
     #[no_mangle]
@@ -352,7 +438,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc() as R)
     }
 
     #[no_mangle]
@@ -363,7 +449,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc() as R)
     }
 }
 
@@ -377,7 +463,6 @@ pub(crate) mod inlines {
     use crate::common::thermal::inlines::{
         fermi_distribution_double, fermi_distribution_double_zero_temp,
     };
-    use crate::consts::nc;
     use crate::low_level::oneloop::thermal::*;
     use crate::{Num, C, I, R};
     use std::f64::consts::PI;
@@ -480,6 +565,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -488,7 +574,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * nc * 2. * PI2).inv()
             * fermi_distribution_double(en, beta, mu)
             * s
             * q
@@ -504,6 +590,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -517,7 +604,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * nc * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 
@@ -528,6 +615,7 @@ pub(crate) mod inlines {
         p: T2,
         mq: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -536,7 +624,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * nc * 2. * PI2).inv()
             * fermi_distribution_double_zero_temp(en, mu)
             * s
             * q
@@ -551,6 +639,7 @@ pub(crate) mod inlines {
         p: R,
         mq: R,
         mu: R,
+        nc: R,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -564,7 +653,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * nc * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 }
@@ -576,7 +665,7 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            get_default_integration_method, matsubara_reg, nc, INITIAL_MAX_ITER_INTEGRAL,
             INITIAL_TOL_INTEGRAL,
         };
         use crate::{C, R};
@@ -593,19 +682,19 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc() as R)
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc() as R)
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc() as R)
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc() as R)
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method(
@@ -666,6 +755,25 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_landau_w_method_nc(
+                p,
+                mq,
+                beta,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> R {
             integrate(
                 |t| {
@@ -676,6 +784,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -690,6 +799,25 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_landau_w_method_nc(
+                p,
+                mq,
+                beta,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> R {
             integrate(
                 |t| {
@@ -700,6 +828,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -713,6 +842,23 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
+                p,
+                mq,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -725,6 +871,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -738,6 +885,23 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
+                p,
+                mq,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -750,6 +914,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -764,7 +929,7 @@ pub mod zero_matsubara {
         // default integration method to DEFAULT_TOL_INT_REPL. This does not increase
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
-        fn default_integration_method() -> Integral {
+        pub(crate) fn default_integration_method() -> Integral {
             let integral = get_default_integration_method();
             if let Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -808,6 +973,7 @@ pub mod zero_matsubara {
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -838,7 +1004,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -849,7 +1015,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -859,7 +1025,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -869,7 +1035,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc() as R)
         }
     }
 
@@ -878,7 +1044,6 @@ pub mod zero_matsubara {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_matsubara::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_l_i, d2_j_m_t_i, d_j_m_i, d_j_m_l_i, d_j_m_t_i, j_0_i, j_0_l_i,
@@ -955,40 +1120,64 @@ pub mod zero_matsubara {
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc() as R) * 2. * PI2)
-                * (1. - t1)
+            -fermi_distribution_double(en, beta, mu) * q * q / (en * nc * 2. * PI2) * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q2 / (en * nc * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc() as R) * 2. * PI2)
-                * (1. - t1)
+            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * nc * 2. * PI2) * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: R,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * nc * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
     }
@@ -1000,7 +1189,7 @@ pub mod zero_momentum {
     mod native {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::{get_default_integration_method, nc};
         use crate::{Num, C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -1019,7 +1208,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc() as R)
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -1029,7 +1218,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc() as R)
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1038,7 +1227,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc() as R)
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1047,7 +1236,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc() as R)
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method<T: Num>(
@@ -1088,6 +1277,25 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_landau_w_method_nc(
+                om,
+                mq,
+                beta,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> C {
             integrate(
                 |t| {
@@ -1097,6 +1305,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1112,6 +1321,25 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_landau_w_method_nc(
+                om,
+                mq,
+                beta,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> C {
             integrate(
                 |t| {
@@ -1121,6 +1349,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1135,13 +1364,30 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
+                om,
+                mq,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1154,13 +1400,30 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
+                om,
+                mq,
+                mu,
+                nc() as R,
+                integral,
+            )
+        }
+
+        // Same, for an explicit number of colors.
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: R,
+            integral: Integral,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1235,6 +1498,7 @@ pub mod zero_momentum {
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -1265,7 +1529,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -1276,7 +1540,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -1286,7 +1550,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc() as R)
         }
 
         #[no_mangle]
@@ -1296,7 +1560,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc() as R)
         }
     }
 
@@ -1305,7 +1569,6 @@ pub mod zero_momentum {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_momentum::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_t_i, d_j_m_i, d_j_m_t_i, j_0_i, j_0_t_i, j_m_i, j_m_t_i,
@@ -1362,12 +1625,13 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: R,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * nc).inv()
                 * 2.
                 * fermi_distribution_double(en, beta, mu)
                 * q2
@@ -1381,8 +1645,9 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: R,
         ) -> T {
-            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc)
         }
 
         #[inline(always)]
@@ -1391,12 +1656,13 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: R,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * nc).inv()
                 * 2.
                 * fermi_distribution_double_zero_temp(en, mu)
                 * q2
@@ -1409,8 +1675,9 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: R,
         ) -> T {
-            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
         }
     }
 }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..2fd7f88 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -5,7 +5,7 @@ pub mod ghost {
 }
 
 pub mod gluon {
-    use crate::consts::nf;
+    use crate::consts::{get_default_integration_method, nf};
     use crate::low_level::oneloop::thermal::gluon as gluon_thermal_parts;
     use crate::qcd::gluon as gluon_vac;
     use crate::qcd::FieldConfig;
@@ -111,8 +111,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    config.nc as R,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -138,8 +144,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    config.nc as R,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -209,8 +221,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    config.nc as R,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -232,8 +249,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    config.nc as R,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -473,8 +495,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc as R,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -499,8 +526,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc as R,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -563,9 +595,7 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(p, qi.mq, mu, config.nc as R, gluon_thermal_parts::default_integration_method(),) * (qi.nf as R)
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -584,9 +614,7 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(p, qi.mq, mu, config.nc as R, gluon_thermal_parts::default_integration_method(),) * (qi.nf as R)
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -639,7 +667,7 @@ pub mod zero_momentum {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{get_default_integration_method, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_momentum as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -744,8 +772,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc as R,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -770,8 +803,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc as R,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -835,9 +873,7 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(om, qi.mq, mu, config.nc as R, get_default_integration_method(),) * (qi.nf as R)
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -857,9 +893,7 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(om, qi.mq, mu, config.nc as R, get_default_integration_method(),) * (qi.nf as R)
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
-- 
2.43.0


From f24ed3a4f5df2bfb38c8ac8b4f25381c906a3587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 3/9] fix: keep field configurations consistent when their
 public fields change

The data derived from a FieldConfig's number of colors, gluon mass and quarks
was cached by FieldConfig::new, so functions ignored (part of) a later change
of these public fields. Derive it at each use.
---
 qcd-sme/src/qcd/gluon.rs   |  8 ++++----
 qcd-sme/src/qcd/thermal.rs | 36 ++++++++++++------------------------
 qcd-sme/src/qcd/types.rs   | 18 +++++++-----------
 3 files changed, 23 insertions(+), 39 deletions(-)

diff --git a/qcd-sme/src/qcd/gluon.rs b/qcd-sme/src/qcd/gluon.rs
index 11d6a28..7996602 100644
--- a/qcd-sme/src/qcd/gluon.rs
+++ b/qcd-sme/src/qcd/gluon.rs
@@ -357,7 +357,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -370,7 +370,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -407,7 +407,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
@@ -425,7 +425,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 2fd7f88..2ed9711 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -108,8 +108,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
                     om,
@@ -141,8 +140,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
                     om,
@@ -218,8 +216,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(
                     om,
@@ -246,8 +243,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(
                     om,
@@ -492,8 +488,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
                         p,
@@ -523,8 +518,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
                         p,
@@ -592,8 +586,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(p, qi.mq, mu, config.nc as R, gluon_thermal_parts::default_integration_method(),) * (qi.nf as R)
                 })
@@ -611,8 +604,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(p, qi.mq, mu, config.nc as R, gluon_thermal_parts::default_integration_method(),) * (qi.nf as R)
                 })
@@ -769,8 +761,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_method_nc(
                         om,
@@ -800,8 +791,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_method_nc(
                         om,
@@ -870,8 +860,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_method_nc(om, qi.mq, mu, config.nc as R, get_default_integration_method(),) * (qi.nf as R)
                 })
@@ -890,8 +879,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_method_nc(om, qi.mq, mu, config.nc as R, get_default_integration_method(),) * (qi.nf as R)
                 })
diff --git a/qcd-sme/src/qcd/types.rs b/qcd-sme/src/qcd/types.rs
index c012499..1ec4443 100644
--- a/qcd-sme/src/qcd/types.rs
+++ b/qcd-sme/src/qcd/types.rs
@@ -11,22 +11,18 @@ pub struct FieldConfig {
     /// Quark mass configuration: number of quarks (`quarks[i].0`) with a given
     /// mass parameter (`quarks[i].1`).
     pub quarks: Vec<(NFTYPE, R)>,
-    // (nf, mq, nf/nc, mq/m)
-    pub(crate) quarks_internal: Vec<QuarkInternal>,
 }
 
 impl FieldConfig {
     pub fn new(nc: NCTYPE, gluon: R, quarks: Vec<(NFTYPE, R)>) -> Self {
-        let quarks_internal = quarks
+        Self { nc, gluon, quarks }
+    }
+
+    // Derived from the public fields at each use, as these may change.
+    pub(crate) fn quarks_internal(&self) -> impl Iterator<Item = QuarkInternal> + '_ {
+        self.quarks
             .iter()
-            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
-            .collect();
-        Self {
-            nc,
-            gluon,
-            quarks,
-            quarks_internal,
-        }
+            .map(|&(nf, mq)| QuarkInternal::new(self.nc, self.gluon, nf, mq))
     }
 }
 
-- 
2.43.0


From b71dc7a09460f2fce892311e0ab57435c32ed0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 4/9] fix: classify points on a flat part of the phase boundary
 as confined

A point (mu, T) with T equal to the critical temperature of a boundary point at
a smaller chemical potential was taken to be deconfined without interpolating,
although it lies on the boundary when the latter is flat there.
---
 tc_long_prop/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..160e09d 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,12 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate (read
+    // below) and compare temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From 6f30b101117845d3c4f79b938d40d99264eca1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 5/9] fix: no Fermi sphere at the quark threshold

For |mu| == |mq| the zero-temperature quark polarizations integrated up to a
Fermi momentum that is NaN whenever m*m is rounded up, and the integration then
never ended. The Fermi sphere is empty there: return zero as below threshold.
---
 qcd-sme/src/low_level/oneloop/thermal/gluon.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index f5c223a..0c9fb84 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -231,7 +231,7 @@ mod native {
         nc: R,
         integral: Integral,
     ) -> C {
-        if mu.abs() < mq.abs() {
+        if mu.abs() <= mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
@@ -267,7 +267,7 @@ mod native {
         nc: R,
         integral: Integral,
     ) -> C {
-        if mu.abs() < mq.abs() {
+        if mu.abs() <= mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
@@ -860,7 +860,7 @@ pub mod zero_matsubara {
             nc: R,
             integral: Integral,
         ) -> R {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return 0.;
             };
             integrate(
@@ -903,7 +903,7 @@ pub mod zero_matsubara {
             nc: R,
             integral: Integral,
         ) -> R {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return 0.;
             };
             integrate(
@@ -1382,7 +1382,7 @@ pub mod zero_momentum {
             nc: R,
             integral: Integral,
         ) -> C {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
@@ -1418,7 +1418,7 @@ pub mod zero_momentum {
             nc: R,
             integral: Integral,
         ) -> C {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
-- 
2.43.0


From f98f0fefea8cf3017d27cc68e10d680978eb12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 6/9] fix: integrate the ghost self-energy in the Matsubara
 limit with the regulator

The integrand of the Matsubara limit has principal-value poles, so its
numerical integral was garbage. Integrate the ordinary integrand at the
regulating frequency instead, as the gluon functions do.
---
 qcd-sme/src/low_level/oneloop/thermal/ghost.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
index e8cd449..88fa320 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
@@ -94,7 +94,8 @@ pub mod zero_matsubara {
 
     mod native {
         use super::inlines;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::matsubara_reg;
+        use crate::low_level::oneloop::thermal::gluon::zero_matsubara::default_integration_method;
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -108,10 +109,19 @@ pub mod zero_matsubara {
             beta: R,
             integral: Integral,
         ) -> R {
+            // The integrand in the Matsubara limit has poles (to be understood as
+            // principal values) that numerical integration cannot deal with. As for
+            // the gluon, use the ordinary integrand with a small frequency.
             integrate(
                 |t| {
-                    inlines::self_energy_thermal_part_landau_i((1. - t) / t, p, m, beta).re
-                        / (t * t)
+                    super::super::inlines::self_energy_thermal_part_landau_i(
+                        (1. - t) / t,
+                        matsubara_reg(),
+                        p,
+                        m,
+                        beta,
+                    )
+                    .re / (t * t)
                 },
                 (0., 1.),
                 integral,
@@ -119,7 +129,7 @@ pub mod zero_matsubara {
         }
 
         pub fn self_energy_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            self_energy_thermal_part_landau_w_method(p, m, beta, get_default_integration_method())
+            self_energy_thermal_part_landau_w_method(p, m, beta, default_integration_method())
         }
     }
 
-- 
2.43.0


From 89433d7c559af913734c3bc1a0b281175f5f6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 7/9] fix: start the chemical potential search where it always
 converges

From n/2 and n the secant method diverged for densities small compared to
the quark mass at low temperature: chemical_potential panicked on the
missing root or integrated forever at overflowing chemical potentials.
---
 qcd-sme/src/qcd/thermal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 2ed9711..0100493 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -338,9 +338,13 @@ pub mod quark {
         if n == 0. {
             return 0.;
         }
+        // At fixed chemical potential the density increases with the temperature,
+        // so this is not smaller than the solution; since the density is convex in
+        // the chemical potential, from there the secant method always converges
+        let mu0 = chemical_potential_zero_temp(m, n);
         find_root(
             &|mu| n - charge_density_with_method(m, beta, mu, integral),
-            (0.5 * n, n),
+            (1.1 * mu0, mu0),
             integral.get_tol(),
             1000,
         )
-- 
2.43.0


From 85344900833de3bfd87449a2261056c1fb13f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 8/9] fix: vanishing Fermi momentum at the threshold

mu^2 - m^2 with a single rounding of m^2 is negative for half of all
mu = m, so that the Fermi momentum was NaN instead of zero there.
---
 qcd-sme/src/common/thermal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 1e7e25a..53a1bfb 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -165,7 +165,7 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
-        mu.mul_add(mu, -(m * m)).sqrt()
+        ((mu - m) * (mu + m)).sqrt()
     }
 
     #[inline(always)]
-- 
2.43.0


From 41b5845111b33a58f86572864cf03119df77a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 9/9] fix: temperature scans of physical_tc that do not start
 at zero

The first temperature of each scan was always replaced by zero, so results at
zero temperature were attributed to the smallest temperature requested.
---
 tc_long_prop/src/bin/physical_tc.rs | 163 +++++++++++++++-------------
 1 file changed, 89 insertions(+), 74 deletions(-)

diff --git a/tc_long_prop/src/bin/physical_tc.rs b/tc_long_prop/src/bin/physical_tc.rs
index 64ccb89..73ad94c 100644
--- a/tc_long_prop/src/bin/physical_tc.rs
+++ b/tc_long_prop/src/bin/physical_tc.rs
@@ -109,6 +109,11 @@ mod config {
             &self.temps
         }
 
+        // The zero-temperature propagators have their own functions
+        pub fn starts_at_zero_temp(&self) -> bool {
+            self.temps.first() == Some(&0.)
+        }
+
         pub fn chempots(&self) -> &Vec<R> {
             &self.chempots
         }
@@ -218,40 +223,44 @@ fn compute_propagators(config: &Config) {
         // configuration and f0 depending on the chemical potential and temperature.
         // We must (potentially) reset it for each (mu, T) pair before computing the
         // renormalization factors z
-        let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
-        let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
-        let propvals: Vec<f64> = config
-            .momenta()
-            .iter()
-            .map(|p| {
-                let val = propagator_l_zero_temp_landau(om, p * m, mu, f0, fieldconfig).re / z;
-                info!("Computed (T/m, mu, p/m) = (0.0000, {mu:.4}, {p:.4}) for {label}. z = {z}.");
-                val
-            })
-            .collect();
-        let outfilename = format!(
-            "{}_glulongprop_t_0.0000_mu_{mu:.4}.out",
-            THIS_BASEDIR.join("data").join(filename).to_string_lossy()
-        );
-        let mut outfile = BufWriter::new(
-            fs::File::create(&outfilename)
-                .unwrap_or_else(|_| panic!("could not create {outfilename}")),
-        );
-        // Write pairs (p/m, m^2 Delta_L) to file
-        config
-            .momenta()
-            .iter()
-            .zip(propvals.iter())
-            .for_each(|(p, d)| {
-                writeln!(outfile, "{p}\t{d}")
-                    .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
-            });
-        plot.insert_image(propvals);
+        if config.starts_at_zero_temp() {
+            let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
+            let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
+            let propvals: Vec<f64> = config
+                .momenta()
+                .iter()
+                .map(|p| {
+                    let val = propagator_l_zero_temp_landau(om, p * m, mu, f0, fieldconfig).re / z;
+                    info!(
+                        "Computed (T/m, mu, p/m) = (0.0000, {mu:.4}, {p:.4}) for {label}. z = {z}."
+                    );
+                    val
+                })
+                .collect();
+            let outfilename = format!(
+                "{}_glulongprop_t_0.0000_mu_{mu:.4}.out",
+                THIS_BASEDIR.join("data").join(filename).to_string_lossy()
+            );
+            let mut outfile = BufWriter::new(
+                fs::File::create(&outfilename)
+                    .unwrap_or_else(|_| panic!("could not create {outfilename}")),
+            );
+            // Write pairs (p/m, m^2 Delta_L) to file
+            config
+                .momenta()
+                .iter()
+                .zip(propvals.iter())
+                .for_each(|(p, d)| {
+                    writeln!(outfile, "{p}\t{d}")
+                        .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
+                });
+            plot.insert_image(propvals);
+        }
 
         config
             .temps()
             .iter()
-            .skip(1)
+            .skip(usize::from(config.starts_at_zero_temp()))
             .map(|t| {
                 // beta is dimensionful
                 let beta = 1. / (t * m);
@@ -327,42 +336,44 @@ fn compute_transverse_propagators(config: &Config) {
         // configuration and f0 depending on the chemical potential and temperature.
         // We must (potentially) reset it for each (mu, T) pair before computing the
         // renormalization factors z
-        let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
-        let z = propagator_t_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
-        let propvals: Vec<f64> = config
-            .momenta()
-            .iter()
-            .map(|p| {
-                let val = propagator_t_zero_temp_landau(om, p * m, mu, f0, fieldconfig).re / z;
-                info!(
-                    "Computed (T/m, mu, p/m) = (0.0000, {mu:.4}, {p:.4}) for {label} (transverse). z = {z}."
-                );
-                val
-            })
-            .collect();
-        let outfilename = format!(
-            "{}_glutransprop_t_0.0000_mu_{mu:.4}.out",
-            THIS_BASEDIR.join("data").join(filename).to_string_lossy()
-        );
-        let mut outfile = BufWriter::new(
-            fs::File::create(&outfilename)
-                .unwrap_or_else(|_| panic!("could not create {outfilename}")),
-        );
-        // Write pairs (p/m, m^2 Delta_T) to file
-        config
-            .momenta()
-            .iter()
-            .zip(propvals.iter())
-            .for_each(|(p, d)| {
-                writeln!(outfile, "{p}\t{d}")
-                    .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
-            });
-        plot.insert_image(propvals);
+        if config.starts_at_zero_temp() {
+            let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
+            let z = propagator_t_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
+            let propvals: Vec<f64> = config
+                .momenta()
+                .iter()
+                .map(|p| {
+                    let val = propagator_t_zero_temp_landau(om, p * m, mu, f0, fieldconfig).re / z;
+                    info!(
+                        "Computed (T/m, mu, p/m) = (0.0000, {mu:.4}, {p:.4}) for {label} (transverse). z = {z}."
+                    );
+                    val
+                })
+                .collect();
+            let outfilename = format!(
+                "{}_glutransprop_t_0.0000_mu_{mu:.4}.out",
+                THIS_BASEDIR.join("data").join(filename).to_string_lossy()
+            );
+            let mut outfile = BufWriter::new(
+                fs::File::create(&outfilename)
+                    .unwrap_or_else(|_| panic!("could not create {outfilename}")),
+            );
+            // Write pairs (p/m, m^2 Delta_T) to file
+            config
+                .momenta()
+                .iter()
+                .zip(propvals.iter())
+                .for_each(|(p, d)| {
+                    writeln!(outfile, "{p}\t{d}")
+                        .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
+                });
+            plot.insert_image(propvals);
+        }
 
         config
             .temps()
             .iter()
-            .skip(1)
+            .skip(usize::from(config.starts_at_zero_temp()))
             .map(|t| {
                 // beta is dimensionful
                 let beta = 1. / (t * m);
@@ -427,17 +438,19 @@ fn compute_ir_limit(config: &Config) {
     plot.set_title(title);
 
     for &mu in config.chempots() {
-        let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
-        let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
-        let mut vals =
-            vec![propagator_l_zero_temp_landau(om, pbase * m, mu, f0, fieldconfig).re / z];
-        info!("Computed (T/m, mu) = (0.0000, {mu:.4}) for {label}. z = {z}.");
+        let mut vals = vec![];
+        if config.starts_at_zero_temp() {
+            let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
+            let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
+            vals.push(propagator_l_zero_temp_landau(om, pbase * m, mu, f0, fieldconfig).re / z);
+            info!("Computed (T/m, mu) = (0.0000, {mu:.4}) for {label}. z = {z}.");
+        }
 
         vals.extend::<Vec<R>>(
             config
                 .temps()
                 .par_iter()
-                .skip(1)
+                .skip(usize::from(config.starts_at_zero_temp()))
                 .map(|t| {
                     let beta = 1. / (t * m);
                     let (fieldconfig, f0) = config.maybe_corrected_data(mu, *t);
@@ -471,17 +484,19 @@ fn compute_phase_diagram(config: &Config) -> Vec<(R, R)> {
 
     for &mu in config.chempots() {
         // Step 1: at fixed chemical potential, compute the propagator at p = p_min as a function of the temperature
-        let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
-        let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
-        let mut vals =
-            vec![propagator_l_zero_temp_landau(om, pbase * m, mu, f0, fieldconfig).re / z];
-        info!("Computed (T/m, mu) = (0.0000, {mu:.4}) for {label}. z = {z}.");
+        let mut vals = vec![];
+        if config.starts_at_zero_temp() {
+            let (fieldconfig, f0) = config.maybe_corrected_data(mu, 0.);
+            let z = propagator_l_zero_temp_landau(om, renpoint, mu, f0, fieldconfig).re * renfac;
+            vals.push(propagator_l_zero_temp_landau(om, pbase * m, mu, f0, fieldconfig).re / z);
+            info!("Computed (T/m, mu) = (0.0000, {mu:.4}) for {label}. z = {z}.");
+        }
 
         vals.extend::<Vec<R>>(
             config
                 .temps()
                 .par_iter()
-                .skip(1)
+                .skip(usize::from(config.starts_at_zero_temp()))
                 .map(|t| {
                     let beta = 1. / (t * m);
                     let (fieldconfig, f0) = config.maybe_corrected_data(mu, *t);
-- 
2.43.0

