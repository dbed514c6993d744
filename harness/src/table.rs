// @generated by tools/gen_table.py
#![allow(clippy::all)]
use crate::{F, FC, FM, G};
use qcd_sme::C;

pub static FUNS: &[F] = &[
    F { key: "low::statistic_distribution_exponential", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::common::statistic_distribution_exponential(a[0].re, a[1].re, a[2].re)) },
    F { key: "low::statistic_distribution_exponential", params: &["en", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::common::statistic_distribution_exponential(a[0], a[1].re, a[2].re) },
    F { key: "low::statistic_distribution_exponential", params: &["en", "beta", "mu"], mask: 5, ret_c: true, f: |a| qcd_sme::low_level::common::statistic_distribution_exponential(a[0], a[1].re, a[2]) },
    F { key: "low::statistic_distribution_exponential_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a[0].re, a[1].re)) },
    F { key: "low::statistic_distribution_exponential_zero_chempot", params: &["en", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(a[0], a[1].re) },
    F { key: "ghost::g_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::g_sep(a[0].re, a[1].re, a[2].re)) },
    F { key: "ghost::g_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::g_sep(a[0], a[1], a[2]) },
    F { key: "ghost::g", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::g(a[0].re)) },
    F { key: "ghost::g", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::g(a[0]) },
    F { key: "ghost::g_xi_sep", params: &["ln_s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::g_xi_sep(a[0].re)) },
    F { key: "ghost::g_xi_sep", params: &["ln_s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::g_xi_sep(a[0]) },
    F { key: "ghost::g_xi", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::g_xi(a[0].re)) },
    F { key: "ghost::g_xi", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::g_xi(a[0]) },
    F { key: "ghost::dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ghost::dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(a[0], a[1], a[2], a[3].re) },
    F { key: "ghost::dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "ghost::dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0", "xi"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(a[0], a[1], a[2], a[3].re, a[4].re) },
    F { key: "gluon::f_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f_sep(a[0].re, a[1].re, a[2].re)) },
    F { key: "gluon::f_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f_sep(a[0], a[1], a[2]) },
    F { key: "gluon::f", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f(a[0].re)) },
    F { key: "gluon::f", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f(a[0]) },
    F { key: "gluon::f_xi_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f_xi_sep(a[0].re, a[1].re, a[2].re)) },
    F { key: "gluon::f_xi_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f_xi_sep(a[0], a[1], a[2]) },
    F { key: "gluon::f_xi", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f_xi(a[0].re)) },
    F { key: "gluon::f_xi", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f_xi(a[0]) },
    F { key: "gluon::f_q", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f_q(a[0].re)) },
    F { key: "gluon::f_q", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f_q(a[0]) },
    F { key: "gluon::f_q_crossed", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::f_q_crossed(a[0].re)) },
    F { key: "gluon::f_q_crossed", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::f_q_crossed(a[0]) },
    F { key: "gluon::ym_dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "gluon::ym_dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a[0], a[1], a[2], a[3].re) },
    F { key: "gluon::ym_dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "gluon::ym_dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0", "xi"], mask: 7, ret_c: true, f: |a| qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(a[0], a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::ghost::self_energy_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::ghost::self_energy_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "zf::ghost::self_energy_thermal_part_landau_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::ghost::self_energy_thermal_part_landau", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "zm::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::ghost::self_energy_thermal_part_landau", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::ghost::self_energy_thermal_part_landau", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a[0], a[1].re, a[2].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 3, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a[0], a[1], a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_glue_t_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_glue_t_thermal_part_landau", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 3, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a[0], a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_landau", params: &["om", "p", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 3, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a[0], a[1], a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau", params: &["om", "p", "mq", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "zf::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "zf::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "zf::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::gluon::polarization_glue_l_thermal_part_landau", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::gluon::polarization_glue_t_thermal_part_landau", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::gluon::polarization_quark_l_thermal_part_landau", params: &["p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::gluon::polarization_quark_t_thermal_part_landau", params: &["p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::gluon::polarization_quark_t_thermal_part_zero_temp_landau", params: &["p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "zm::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_glue_l_thermal_part_landau", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a[0], a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_glue_t_thermal_part_landau", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_glue_t_thermal_part_landau", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a[0], a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_landau", params: &["om", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_landau", params: &["om", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_landau", params: &["om", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau", params: &["om", "mq", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a[0], a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau", params: &["om", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau", params: &["om", "mq", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a[0], a[1].re, a[2].re) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1].re, a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1].re, a[2].re, a[3], a[4]) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1], a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog(a[0].re, a[1], a[2].re, a[3], a[4]) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1].re, a[2].re, a[3]) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1].re, a[2], a[3]) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1], a[2].re, a[3]) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_same_mass(a[0].re, a[1], a[2], a[3]) },
    F { key: "th::tlog_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a[0].re, a[1].re, a[2].re) },
    F { key: "th::tlog_zero_mass", params: &["q", "om", "p"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(a[0].re, a[1], a[2].re) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1].re, a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1].re, a[2].re, a[3], a[4]) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1], a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l(a[0].re, a[1], a[2].re, a[3], a[4]) },
    F { key: "th::tlog_l_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::tlog_l_same_mass", params: &["q", "om", "p", "en"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].re, a[1].re, a[2].re, a[3]) },
    F { key: "th::tlog_l_same_mass", params: &["q", "om", "p", "en"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::tlog_l_same_mass", params: &["q", "om", "p", "en"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(a[0].re, a[1], a[2].re, a[3]) },
    F { key: "th::tlog_l_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a[0].re, a[1].re, a[2].re) },
    F { key: "th::tlog_l_zero_mass", params: &["q", "om", "p"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(a[0].re, a[1], a[2].re) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1].re, a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1].re, a[2].re, a[3], a[4]) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1], a[2].re, a[3].re, a[4]) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t(a[0].re, a[1], a[2].re, a[3], a[4]) },
    F { key: "th::tlog_t_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::tlog_t_same_mass", params: &["q", "om", "p", "en"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].re, a[1].re, a[2].re, a[3]) },
    F { key: "th::tlog_t_same_mass", params: &["q", "om", "p", "en"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::tlog_t_same_mass", params: &["q", "om", "p", "en"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(a[0].re, a[1], a[2].re, a[3]) },
    F { key: "th::tlog_t_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a[0].re, a[1].re, a[2].re) },
    F { key: "th::tlog_t_zero_mass", params: &["q", "om", "p"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(a[0].re, a[1], a[2].re) },
    F { key: "th::j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_m_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::j_m_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::j_m_i(a[0].re, a[1], a[2].re) },
    F { key: "th::j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_0_i(a[0].re, a[1].re)) },
    F { key: "th::j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::j_m_l_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::j_m_l_i(a[0].re, a[1], a[2].re) },
    F { key: "th::j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_0_l_i(a[0].re, a[1].re)) },
    F { key: "th::j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::j_m_t_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::j_m_t_i(a[0].re, a[1], a[2].re) },
    F { key: "th::j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::j_0_t_i(a[0].re, a[1].re)) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::i_0_0_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::i_0_0_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "th::i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::d_j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_m_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d_j_m_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_j_m_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d_j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_0_i(a[0].re, a[1].re)) },
    F { key: "th::d2_j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d2_j_m_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d2_j_m_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d2_j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_0_i(a[0].re, a[1].re)) },
    F { key: "th::d_j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d_j_m_l_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d_j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_0_l_i(a[0].re, a[1].re)) },
    F { key: "th::d2_j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d2_j_m_l_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d2_j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_0_l_i(a[0].re, a[1].re)) },
    F { key: "th::d_j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d_j_m_t_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d_j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d_j_0_t_i(a[0].re, a[1].re)) },
    F { key: "th::d2_j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "th::d2_j_m_t_i", params: &["q", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(a[0].re, a[1], a[2].re) },
    F { key: "th::d2_j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::d2_j_0_t_i(a[0].re, a[1].re)) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::d_i_0_0_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::d_i_0_0_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "th::d_i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::d_i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 16, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 24, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 18, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4], a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re, a[5].re) },
    F { key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 26, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4], a[5].re) },
    F { key: "th::d_i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_t_0_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_t_0_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_t_0_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_t_0_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "th::d_i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "th::d_i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "th::d_i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zf::tlog", params: &["q", "p", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a[0].re, a[1].re, a[2].re) },
    F { key: "zf::tlog", params: &["q", "p", "delta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(a[0].re, a[1].re, a[2]) },
    F { key: "zf::tlog_same_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(a[0].re, a[1].re)) },
    F { key: "zf::tlog_zero_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(a[0].re, a[1].re)) },
    F { key: "zf::tlog_t", params: &["q", "p", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a[0].re, a[1].re, a[2].re) },
    F { key: "zf::tlog_t", params: &["q", "p", "delta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(a[0].re, a[1].re, a[2]) },
    F { key: "zf::tlog_t_same_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(a[0].re, a[1].re)) },
    F { key: "zf::tlog_t_zero_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(a[0].re, a[1].re)) },
    F { key: "zf::i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_m_0_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::i_m_0_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_0_0_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_0_0_l_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::i_0_0_t_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::d_i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::d_i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::d_i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::d_i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_m_0_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::d_i_m_0_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_0_0_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::d_i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::d_i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::d_i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::d_i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::d_i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_0_0_l_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zf::d_i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zf::d_i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zf::d_i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zf::d_i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "zf::d_i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_m_t_0_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::d_i_m_t_0_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zf::d_i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zf::d_i_0_0_t_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(a[0].re, a[1].re, a[2].re)) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_m_0_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_0_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_0_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_0_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_0_0_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::i_0_0_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a[0].re, a[1], a[2].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_0_0_l_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::i_0_0_l_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a[0].re, a[1], a[2].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::i_0_0_t_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::i_0_0_t_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a[0].re, a[1], a[2].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_m_0_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_0_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_0_0_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::d_i_0_0_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a[0].re, a[1], a[2].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_0_0_l_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::d_i_0_0_l_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a[0].re, a[1], a[2].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 8, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1].re, a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 12, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1].re, a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 10, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1], a[2].re, a[3], a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1], a[2], a[3].re, a[4].re) },
    F { key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 14, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a[0].re, a[1], a[2], a[3], a[4].re) },
    F { key: "zm::d_i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 4, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].re, a[1].re, a[2], a[3].re) },
    F { key: "zm::d_i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].re, a[1], a[2].re, a[3].re) },
    F { key: "zm::d_i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 6, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a[0].re, a[1], a[2], a[3].re) },
    F { key: "zm::d_i_0_0_t_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a[0].re, a[1].re, a[2].re) },
    F { key: "zm::d_i_0_0_t_i", params: &["q", "om", "beta"], mask: 2, ret_c: true, f: |a| qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a[0].re, a[1], a[2].re) },
    F { key: "common::energy_squared", params: &["p", "m"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::energy_squared(a[0].re, a[1].re)) },
    F { key: "common::energy_squared", params: &["p", "m"], mask: 2, ret_c: true, f: |a| qcd_sme::common::energy_squared(a[0].re, a[1]) },
    F { key: "common::energy", params: &["p", "m"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::energy(a[0].re, a[1].re)) },
    F { key: "common::energy", params: &["p", "m"], mask: 2, ret_c: true, f: |a| qcd_sme::common::energy(a[0].re, a[1]) },
    F { key: "common::fermi_momentum", params: &["m", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_momentum(a[0].re, a[1].re)) },
    F { key: "common::fermi_distribution", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_distribution(a[0].re, a[1].re, a[2].re)) },
    F { key: "common::fermi_distribution", params: &["en", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution(a[0], a[1].re, a[2].re) },
    F { key: "common::fermi_distribution", params: &["en", "beta", "mu"], mask: 5, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution(a[0], a[1].re, a[2]) },
    F { key: "common::fermi_distribution_zero_temp", params: &["en", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0].re, a[1].re)) },
    F { key: "common::fermi_distribution_zero_temp", params: &["en", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0], a[1].re) },
    F { key: "common::fermi_distribution_zero_temp", params: &["en", "mu"], mask: 3, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_zero_temp(a[0], a[1]) },
    F { key: "common::fermi_distribution_double", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_distribution_double(a[0].re, a[1].re, a[2].re)) },
    F { key: "common::fermi_distribution_double", params: &["en", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_double(a[0], a[1].re, a[2].re) },
    F { key: "common::fermi_distribution_double", params: &["en", "beta", "mu"], mask: 5, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_double(a[0], a[1].re, a[2]) },
    F { key: "common::fermi_distribution_double_zero_temp", params: &["en", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0].re, a[1].re)) },
    F { key: "common::fermi_distribution_double_zero_temp", params: &["en", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0], a[1].re) },
    F { key: "common::fermi_distribution_double_zero_temp", params: &["en", "mu"], mask: 3, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_double_zero_temp(a[0], a[1]) },
    F { key: "common::fermi_distribution_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::fermi_distribution_zero_chempot(a[0].re, a[1].re)) },
    F { key: "common::fermi_distribution_zero_chempot", params: &["en", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::fermi_distribution_zero_chempot(a[0], a[1].re) },
    F { key: "common::bose_distribution", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::bose_distribution(a[0].re, a[1].re, a[2].re)) },
    F { key: "common::bose_distribution", params: &["en", "beta", "mu"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::bose_distribution(a[0], a[1].re, a[2].re) },
    F { key: "common::bose_distribution", params: &["en", "beta", "mu"], mask: 5, ret_c: true, f: |a| qcd_sme::common::thermal::bose_distribution(a[0], a[1].re, a[2]) },
    F { key: "common::bose_distribution_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::common::thermal::bose_distribution_zero_chempot(a[0].re, a[1].re)) },
    F { key: "common::bose_distribution_zero_chempot", params: &["en", "beta"], mask: 1, ret_c: true, f: |a| qcd_sme::common::thermal::bose_distribution_zero_chempot(a[0], a[1].re) },
    F { key: "ym::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::dressing_inv_landau(a[0].re, a[1].re)) },
    F { key: "ym::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::dressing_inv_landau(a[0], a[1].re) },
    F { key: "ym::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::dressing_inv(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::dressing_inv(a[0], a[1].re, a[2].re) },
    F { key: "ym::ghost::dressing_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::dressing_landau(a[0].re, a[1].re)) },
    F { key: "ym::ghost::dressing_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::dressing_landau(a[0], a[1].re) },
    F { key: "ym::ghost::dressing", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::dressing(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::ghost::dressing", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::dressing(a[0], a[1].re, a[2].re) },
    F { key: "ym::ghost::propagator_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::propagator_landau(a[0].re, a[1].re)) },
    F { key: "ym::ghost::propagator_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::propagator_landau(a[0], a[1].re) },
    F { key: "ym::ghost::propagator", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::ghost::propagator(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::ghost::propagator", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::ghost::propagator(a[0], a[1].re, a[2].re) },
    F { key: "ym::gluon::dressing_inv_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::dressing_inv_landau(a[0].re, a[1].re)) },
    F { key: "ym::gluon::dressing_inv_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::dressing_inv_landau(a[0], a[1].re) },
    F { key: "ym::gluon::dressing_inv", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::dressing_inv(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::gluon::dressing_inv", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::dressing_inv(a[0], a[1].re, a[2].re) },
    F { key: "ym::gluon::dressing_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::dressing_landau(a[0].re, a[1].re)) },
    F { key: "ym::gluon::dressing_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::dressing_landau(a[0], a[1].re) },
    F { key: "ym::gluon::dressing", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::dressing(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::gluon::dressing", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::dressing(a[0], a[1].re, a[2].re) },
    F { key: "ym::gluon::propagator_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::propagator_landau(a[0].re, a[1].re)) },
    F { key: "ym::gluon::propagator_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::propagator_landau(a[0], a[1].re) },
    F { key: "ym::gluon::propagator", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::gluon::propagator(a[0].re, a[1].re, a[2].re)) },
    F { key: "ym::gluon::propagator", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::gluon::propagator(a[0], a[1].re, a[2].re) },
    F { key: "ymt::ghost::dressing_inv_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::ghost::dressing_inv_landau", params: &["om", "p", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::ghost::dressing_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::ghost::dressing_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::ghost::propagator_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_l_inv_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_l_inv_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_t_inv_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_t_inv_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_l_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_l_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_t_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::dressing_t_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::dressing_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::propagator_l_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::propagator_l_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::propagator_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::propagator_t_landau", params: &["om", "p", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt::gluon::propagator_t_landau", params: &["om", "p", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::gluon::propagator_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "ymt_zf::ghost::dressing_inv_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::ghost::dressing_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::ghost::propagator_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::dressing_l_inv_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::dressing_t_inv_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::dressing_l_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::dressing_t_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::propagator_l_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zf::gluon::propagator_t_landau", params: &["p", "m", "beta", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "ymt_zm::ghost::dressing_inv_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::ghost::dressing_inv_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::ghost::dressing_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::ghost::dressing_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::ghost::propagator_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::ghost::propagator_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_l_inv_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_l_inv_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_t_inv_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_t_inv_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_l_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_l_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_t_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::dressing_t_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::propagator_l_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::propagator_l_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::propagator_t_landau", params: &["om", "m", "beta", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "ymt_zm::gluon::propagator_t_landau", params: &["om", "m", "beta", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::dressing_inv_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_inv_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::dressing_inv_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_inv_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::dressing_inv", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_inv(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::dressing_inv", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_inv(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::dressing_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::dressing_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::dressing", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::dressing", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::propagator_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::propagator_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::propagator_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::propagator_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::propagator", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::propagator(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::propagator", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::propagator(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::dressing_crossed_inv_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::dressing_crossed_inv_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_crossed_inv_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::dressing_crossed_inv", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_crossed_inv(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::dressing_crossed_inv", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_crossed_inv(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::dressing_crossed_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_crossed_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::dressing_crossed_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_crossed_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::dressing_crossed", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::dressing_crossed(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::dressing_crossed", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::dressing_crossed(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcd::gluon::propagator_crossed_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::propagator_crossed_landau(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::gluon::propagator_crossed_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::propagator_crossed_landau(a[0], a[1].re, a[2].re) },
    F { key: "qcd::gluon::propagator_crossed", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::gluon::propagator_crossed(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcd::gluon::propagator_crossed", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::gluon::propagator_crossed(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt::gluon::dressing_l_inv_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_l_inv_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_t_inv_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_t_inv_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_l_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_l_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_t_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_t_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::propagator_l_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::propagator_l_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::propagator_t_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::propagator_t_landau", params: &["om", "p", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re, a[6].re) },
    F { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_t_inv_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_t_inv_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_l_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_l_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_t_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::dressing_t_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::propagator_l_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::propagator_l_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::propagator_t_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::gluon::propagator_t_zero_temp_landau", params: &["om", "p", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt::quark::charge_density", params: &["m", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::quark::charge_density(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcdt::quark::charge_density_zero_temp", params: &["m", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::quark::charge_density_zero_temp(a[0].re, a[1].re)) },
    F { key: "qcdt::quark::chemical_potential", params: &["m", "beta", "n"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::quark::chemical_potential(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcdt::quark::chemical_potential_zero_temp", params: &["m", "n"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(a[0].re, a[1].re)) },
    F { key: "qcdt_zf::gluon::dressing_l_inv_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::dressing_t_inv_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::dressing_l_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::dressing_t_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::propagator_l_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::propagator_t_landau", params: &["p", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re)) },
    F { key: "qcdt_zf::gluon::dressing_l_inv_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zf::gluon::dressing_t_inv_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zf::gluon::dressing_l_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zf::gluon::dressing_t_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zf::gluon::propagator_l_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zf::gluon::propagator_t_zero_temp_landau", params: &["p", "m", "mq", "mu", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    F { key: "qcdt_zm::gluon::dressing_l_inv_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_l_inv_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_t_inv_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_t_inv_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_l_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_l_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_t_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_t_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::propagator_l_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::propagator_l_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::propagator_t_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::propagator_t_landau", params: &["om", "m", "mq", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    F { key: "qcdt_zm::gluon::dressing_l_inv_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_l_inv_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_t_inv_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_t_inv_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_l_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_l_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_t_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::dressing_t_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::propagator_l_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::propagator_l_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::propagator_t_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zm::gluon::propagator_t_zero_temp_landau", params: &["om", "m", "mq", "mu", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcd::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::dressing_inv_landau(a[0].re, a[1].re)) },
    F { key: "qcd::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::dressing_inv_landau(a[0], a[1].re) },
    F { key: "qcd::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::dressing_inv(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::dressing_inv(a[0], a[1].re, a[2].re) },
    F { key: "qcd::ghost::dressing_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::dressing_landau(a[0].re, a[1].re)) },
    F { key: "qcd::ghost::dressing_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::dressing_landau(a[0], a[1].re) },
    F { key: "qcd::ghost::dressing", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::dressing(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::ghost::dressing", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::dressing(a[0], a[1].re, a[2].re) },
    F { key: "qcd::ghost::propagator_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::propagator_landau(a[0].re, a[1].re)) },
    F { key: "qcd::ghost::propagator_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::propagator_landau(a[0], a[1].re) },
    F { key: "qcd::ghost::propagator", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::ghost::propagator(a[0].re, a[1].re, a[2].re)) },
    F { key: "qcd::ghost::propagator", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::ghost::propagator(a[0], a[1].re, a[2].re) },
    F { key: "qcdt::ghost::dressing_inv_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt::ghost::dressing_inv_landau", params: &["om", "p", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::ghost::dressing_inv_landau(a[0], a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt::ghost::dressing_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt::ghost::propagator_landau", params: &["om", "p", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    F { key: "qcdt_zf::ghost::dressing_inv_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcdt_zf::ghost::dressing_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcdt_zf::ghost::propagator_landau", params: &["p", "m", "beta", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::qcd::thermal::zero_matsubara::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re)) },
    F { key: "qcdt_zm::ghost::dressing_inv_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt_zm::ghost::dressing_inv_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt_zm::ghost::dressing_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt_zm::ghost::dressing_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(a[0], a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt_zm::ghost::propagator_landau", params: &["om", "m", "beta", "g0"], mask: 0, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(a[0].re, a[1].re, a[2].re, a[3].re) },
    F { key: "qcdt_zm::ghost::propagator_landau", params: &["om", "m", "beta", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(a[0], a[1].re, a[2].re, a[3].re) },
];

pub static METHODS: &[FM] = &[
    FM { key: "th::ghost::self_energy_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::ghost::self_energy_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zf::ghost::self_energy_thermal_part_landau_w_method", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "zm::ghost::self_energy_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m) },
    FM { key: "zm::ghost::self_energy_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, m) },
    FM { key: "th::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 2, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0].re, a[1], a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 3, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a[0], a[1], a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_glue_t_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_glue_t_thermal_part_landau_w_method", params: &["om", "p", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 2, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0].re, a[1], a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 3, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a[0], a[1], a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_t_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_t_thermal_part_landau_w_method", params: &["om", "p", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, a[4].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 2, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].re, a[1], a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 3, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0], a[1], a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &["om", "p", "mq", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zf::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "zf::gluon::polarization_glue_t_thermal_part_landau_w_method", params: &["p", "m", "beta"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "zf::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m)) },
    FM { key: "zf::gluon::polarization_quark_t_thermal_part_landau_w_method", params: &["p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m)) },
    FM { key: "zf::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["p", "mq", "mu"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "zf::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &["p", "mq", "mu"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "zm::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_glue_l_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_glue_t_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_glue_t_thermal_part_landau_w_method", params: &["om", "m", "beta"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zm::gluon::polarization_quark_l_thermal_part_landau_w_method", params: &["om", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zm::gluon::polarization_quark_t_thermal_part_landau_w_method", params: &["om", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a[0].re, a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zm::gluon::polarization_quark_t_thermal_part_landau_w_method", params: &["om", "mq", "beta", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a[0], a[1].re, a[2].re, a[3].re, m) },
    FM { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "mq", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &["om", "mq", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a[0], a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &["om", "mq", "mu"], mask: 0, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0].re, a[1].re, a[2].re, m) },
    FM { key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &["om", "mq", "mu"], mask: 1, ret_c: true, f: |a, m| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a[0], a[1].re, a[2].re, m) },
    FM { key: "qcdt::quark::charge_density_with_method", params: &["m", "beta", "mu"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::qcd::thermal::quark::charge_density_with_method(a[0].re, a[1].re, a[2].re, m)) },
    FM { key: "qcdt::quark::chemical_potential_with_method", params: &["m", "beta", "n"], mask: 0, ret_c: false, f: |a, m| C::from(qcd_sme::qcd::thermal::quark::chemical_potential_with_method(a[0].re, a[1].re, a[2].re, m)) },
];

pub static CONFIGS: &[FC] = &[
    FC { key: "qcd::gluon::dressing_inv_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::dressing_inv_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::dressing_inv_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_inv_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::dressing_inv_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_inv_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcd::gluon::dressing_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::dressing_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::dressing_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::dressing_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcd::gluon::propagator_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::propagator_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::propagator_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::propagator_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::propagator_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::propagator_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::propagator_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::propagator_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcd::gluon::dressing_crossed_inv_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::dressing_crossed_inv_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::dressing_crossed_inv_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::dressing_crossed_inv_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcd::gluon::dressing_crossed_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::dressing_crossed_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::dressing_crossed_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::dressing_crossed_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::dressing_crossed_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcd::gluon::propagator_crossed_landau_w_field_config", params: &["s", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a[0].re, a[1].re, c)) },
    FC { key: "qcd::gluon::propagator_crossed_landau_w_field_config", params: &["s", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(a[0], a[1].re, c) },
    FC { key: "qcd::gluon::propagator_crossed_w_field_config", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcd::gluon::propagator_crossed_w_field_config", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::gluon::propagator_crossed_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_t_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_t_inv_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_t_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_t_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_l_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_t_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::propagator_t_landau_w_field_config", params: &["om", "p", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, a[4].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_t_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_t_inv_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_t_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::dressing_t_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 2, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].re, a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 3, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a[0], a[1], a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_t_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt::gluon::propagator_t_zero_temp_landau_w_field_config", params: &["om", "p", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zf::gluon::dressing_l_inv_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_t_inv_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_l_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_t_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::propagator_l_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::propagator_t_landau_w_field_config", params: &["p", "beta", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_t_inv_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zf::gluon::dressing_t_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zf::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zf::gluon::propagator_t_zero_temp_landau_w_field_config", params: &["p", "mu", "f0"], mask: 0, ret_c: false, f: |a, c| C::from(qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c)) },
    FC { key: "qcdt_zm::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_inv_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_inv_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_inv_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_l_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_l_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_t_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a[0].re, a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_t_landau_w_field_config", params: &["om", "beta", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a[0], a[1].re, a[2].re, a[3].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_inv_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_inv_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_inv_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_l_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::dressing_t_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_l_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_t_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 0, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a[0].re, a[1].re, a[2].re, c) },
    FC { key: "qcdt_zm::gluon::propagator_t_zero_temp_landau_w_field_config", params: &["om", "mu", "f0"], mask: 1, ret_c: true, f: |a, c| qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a[0], a[1].re, a[2].re, c) },
];

pub static FFI: &[G] = &[
    G { sym: "statistic_distribution_exponential", key: "low::statistic_distribution_exponential", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::statistic_distribution_exponential(a[0].re, a[1].re, a[2].re)) },
    G { sym: "statistic_distribution_exponential_zero_chempot", key: "low::statistic_distribution_exponential_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::statistic_distribution_exponential_zero_chempot(a[0].re, a[1].re)) },
    G { sym: "oneloop__ghost__g_sep", key: "ghost::g_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__ghost__g_sep(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__ghost__g", key: "ghost::g", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__ghost__g(a[0].re)) },
    G { sym: "oneloop__ghost__g_sep__complex", key: "ghost::g_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::oneloop__ghost__g_sep__complex(a[0], a[1], a[2]) },
    G { sym: "oneloop__ghost__g__complex", key: "ghost::g", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__ghost__g__complex(a[0]) },
    G { sym: "oneloop__ghost__g_xi_sep", key: "ghost::g_xi_sep", params: &["ln_s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__ghost__g_xi_sep(a[0].re)) },
    G { sym: "oneloop__ghost__g_xi", key: "ghost::g_xi", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__ghost__g_xi(a[0].re)) },
    G { sym: "oneloop__ghost__g_xi_sep__complex", key: "ghost::g_xi_sep", params: &["ln_s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__ghost__g_xi_sep__complex(a[0]) },
    G { sym: "oneloop__ghost__g_xi__complex", key: "ghost::g_xi", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__ghost__g_xi__complex(a[0]) },
    G { sym: "ym__oneloop__ghost__dressing_inv_landau_sep", key: "ghost::dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "ym__oneloop__ghost__dressing_inv_landau_sep__complex", key: "ghost::dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep__complex(a[0], a[1], a[2], a[3].re) },
    G { sym: "ym__oneloop__ghost__dressing_inv_sep", key: "ghost::dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "ym__oneloop__ghost__dressing_inv_sep__complex", key: "ghost::dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "g0", "xi"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep__complex(a[0], a[1], a[2], a[3].re, a[4].re) },
    G { sym: "oneloop__gluon__f_sep", key: "gluon::f_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f_sep(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__gluon__f", key: "gluon::f", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f(a[0].re)) },
    G { sym: "oneloop__gluon__f_sep__complex", key: "gluon::f_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f_sep__complex(a[0], a[1], a[2]) },
    G { sym: "oneloop__gluon__f__complex", key: "gluon::f", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f__complex(a[0]) },
    G { sym: "oneloop__gluon__f_xi_sep", key: "gluon::f_xi_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f_xi_sep(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__gluon__f_xi", key: "gluon::f_xi", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f_xi(a[0].re)) },
    G { sym: "oneloop__gluon__f_xi_sep__complex", key: "gluon::f_xi_sep", params: &["s", "ln_s", "ln_s_pl_1"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f_xi_sep__complex(a[0], a[1], a[2]) },
    G { sym: "oneloop__gluon__f_xi__complex", key: "gluon::f_xi", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f_xi__complex(a[0]) },
    G { sym: "oneloop__gluon__f_q", key: "gluon::f_q", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f_q(a[0].re)) },
    G { sym: "oneloop__gluon__f_q__complex", key: "gluon::f_q", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f_q__complex(a[0]) },
    G { sym: "oneloop__gluon__f_q_crossed", key: "gluon::f_q_crossed", params: &["s"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__gluon__f_q_crossed(a[0].re)) },
    G { sym: "oneloop__gluon__f_q_crossed__complex", key: "gluon::f_q_crossed", params: &["s"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__f_q_crossed__complex(a[0]) },
    G { sym: "ym__oneloop__gluon__dressing_inv_landau_sep", key: "gluon::ym_dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "ym__oneloop__gluon__dressing_inv_landau_sep__complex", key: "gluon::ym_dressing_inv_landau_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep__complex(a[0], a[1], a[2], a[3].re) },
    G { sym: "ym__oneloop__gluon__dressing_inv_sep", key: "gluon::ym_dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "ym__oneloop__gluon__dressing_inv_sep__complex", key: "gluon::ym_dressing_inv_sep", params: &["s", "ln_s", "ln_s_pl_1", "f0", "xi"], mask: 7, ret_c: true, f: |a| qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep__complex(a[0], a[1], a[2], a[3].re, a[4].re) },
    G { sym: "oneloop__ghost__self_energy_thermal_part_landau_i", key: "th::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__ghost__self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i", key: "zf::ghost::self_energy_thermal_part_landau_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i", key: "zm::ghost::self_energy_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__gluon__polarization_glue_l_thermal_part_landau_i", key: "th::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__gluon__polarization_glue_t_thermal_part_landau_i", key: "th::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__gluon__polarization_quark_l_thermal_part_landau_i", key: "th::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__gluon__polarization_quark_t_thermal_part_landau_i", key: "th::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "p", "mq", "beta", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", key: "th::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", key: "th::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "p", "mq", "mu"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i", key: "zf::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i", key: "zf::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i", key: "zf::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i", key: "zf::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "p", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", key: "zf::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", key: "zf::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "p", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i", key: "zm::gluon::polarization_glue_l_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i", key: "zm::gluon::polarization_glue_t_thermal_part_landau_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i", key: "zm::gluon::polarization_quark_l_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i", key: "zm::gluon::polarization_quark_t_thermal_part_landau_i", params: &["q", "om", "mq", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re)) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", key: "zm::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", key: "zm::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i", params: &["q", "om", "mq", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__tlog", key: "th::tlog", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__tlog_same_mass", key: "th::tlog_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__tlog_zero_mass", key: "th::tlog_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_zero_mass(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__tlog_l", key: "th::tlog_l", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_l(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__tlog_l_same_mass", key: "th::tlog_l_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_l_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__tlog_l_zero_mass", key: "th::tlog_l_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_l_zero_mass(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__tlog_t", key: "th::tlog_t", params: &["q", "om", "p", "en", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_t(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__tlog_t_same_mass", key: "th::tlog_t_same_mass", params: &["q", "om", "p", "en"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_t_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__tlog_t_zero_mass", key: "th::tlog_t_zero_mass", params: &["q", "om", "p"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__tlog_t_zero_mass(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__j_m_i", key: "th::j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_m_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__j_0_i", key: "th::j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_0_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__j_m_l_i", key: "th::j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__j_0_l_i", key: "th::j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_0_l_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__j_m_t_i", key: "th::j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__j_0_t_i", key: "th::j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__j_0_t_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__i_m_m_i", key: "th::i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__i_m_m_i_same_mass", key: "th::i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_m_0_i", key: "th::i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_0_0_i", key: "th::i_0_0_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_0_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__i_m_m_l_i", key: "th::i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__i_m_m_l_i_same_mass", key: "th::i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_m_0_l_i", key: "th::i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_0_0_l_i", key: "th::i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_0_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__i_m_m_t_i", key: "th::i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__i_m_m_t_i_same_mass", key: "th::i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_m_0_t_i", key: "th::i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__i_0_0_t_i", key: "th::i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__i_0_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__d_j_m_i", key: "th::d_j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_m_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d_j_0_i", key: "th::d_j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_0_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d2_j_m_i", key: "th::d2_j_m_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_m_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d2_j_0_i", key: "th::d2_j_0_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_0_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d_j_m_l_i", key: "th::d_j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d_j_0_l_i", key: "th::d_j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_0_l_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d2_j_m_l_i", key: "th::d2_j_m_l_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_m_l_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d2_j_0_l_i", key: "th::d2_j_0_l_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_0_l_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d_j_m_t_i", key: "th::d_j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d_j_0_t_i", key: "th::d_j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d_j_0_t_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d2_j_m_t_i", key: "th::d2_j_m_t_i", params: &["q", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_m_t_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__d2_j_0_t_i", key: "th::d2_j_0_t_i", params: &["q", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__d2_j_0_t_i(a[0].re, a[1].re)) },
    G { sym: "oneloop__d_i_m_m_i", key: "th::d_i_m_m_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__d_i_m_m_i_same_mass", key: "th::d_i_m_m_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_m_0_i", key: "th::d_i_m_0_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_0_0_i", key: "th::d_i_0_0_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_0_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__d_i_m_m_l_i", key: "th::d_i_m_m_l_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__d_i_m_m_l_i_same_mass", key: "th::d_i_m_m_l_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_m_0_l_i", key: "th::d_i_m_0_l_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_0_0_l_i", key: "th::d_i_0_0_l_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_0_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__d_i_m_m_t_i", key: "th::d_i_m_m_t_i", params: &["q", "om", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re, a[5].re) },
    G { sym: "oneloop__d_i_m_m_t_i_same_mass", key: "th::d_i_m_m_t_i_same_mass", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_m_0_t_i", key: "th::d_i_m_0_t_i", params: &["q", "om", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__d_i_0_0_t_i", key: "th::d_i_0_0_t_i", params: &["q", "om", "p", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__d_i_0_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__tlog", key: "zf::tlog", params: &["q", "p", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__tlog(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_matsubara__tlog_same_mass", key: "zf::tlog_same_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__tlog_same_mass(a[0].re, a[1].re)) },
    G { sym: "oneloop__zero_matsubara__tlog_zero_mass", key: "zf::tlog_zero_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__tlog_zero_mass(a[0].re, a[1].re)) },
    G { sym: "oneloop__zero_matsubara__tlog_t", key: "zf::tlog_t", params: &["q", "p", "delta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__tlog_t(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_matsubara__tlog_t_same_mass", key: "zf::tlog_t_same_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_same_mass(a[0].re, a[1].re)) },
    G { sym: "oneloop__zero_matsubara__tlog_t_zero_mass", key: "zf::tlog_t_zero_mass", params: &["q", "p"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_zero_mass(a[0].re, a[1].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_m_i", key: "zf::i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__i_m_m_i_same_mass", key: "zf::i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_0_i", key: "zf::i_m_0_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__i_0_0_i", key: "zf::i_0_0_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_m_l_i", key: "zf::i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__i_m_m_l_i_same_mass", key: "zf::i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_0_l_i", key: "zf::i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__i_0_0_l_i", key: "zf::i_0_0_l_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_l_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_m_t_i", key: "zf::i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__i_m_m_t_i_same_mass", key: "zf::i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__i_m_0_t_i", key: "zf::i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__i_0_0_t_i", key: "zf::i_0_0_t_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_t_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_i", key: "zf::d_i_m_m_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_i_same_mass", key: "zf::d_i_m_m_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_0_i", key: "zf::d_i_m_0_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_0_0_i", key: "zf::d_i_0_0_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_l_i", key: "zf::d_i_m_m_l_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_l_i_same_mass", key: "zf::d_i_m_m_l_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_0_l_i", key: "zf::d_i_m_0_l_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_0_0_l_i", key: "zf::d_i_0_0_l_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_l_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_t_i", key: "zf::d_i_m_m_t_i", params: &["q", "p", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_matsubara__d_i_m_m_t_i_same_mass", key: "zf::d_i_m_m_t_i_same_mass", params: &["q", "p", "m", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "oneloop__zero_matsubara__d_i_m_0_t_i", key: "zf::d_i_m_0_t_i", params: &["q", "p", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_matsubara__d_i_0_0_t_i", key: "zf::d_i_0_0_t_i", params: &["q", "p", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_t_i(a[0].re, a[1].re, a[2].re)) },
    G { sym: "oneloop__zero_momentum__i_m_m_i", key: "zm::i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__i_m_m_i_same_mass", key: "zm::i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_m_0_i", key: "zm::i_m_0_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_0_0_i", key: "zm::i_0_0_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_momentum__i_m_m_l_i", key: "zm::i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__i_m_m_l_i_same_mass", key: "zm::i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_m_0_l_i", key: "zm::i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_0_0_l_i", key: "zm::i_0_0_l_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_l_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_momentum__i_m_m_t_i", key: "zm::i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__i_m_m_t_i_same_mass", key: "zm::i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_m_0_t_i", key: "zm::i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__i_0_0_t_i", key: "zm::i_0_0_t_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_t_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_i", key: "zm::d_i_m_m_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_i_same_mass", key: "zm::d_i_m_m_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_0_i", key: "zm::d_i_m_0_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_0_0_i", key: "zm::d_i_0_0_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_l_i", key: "zm::d_i_m_m_l_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_l_i_same_mass", key: "zm::d_i_m_m_l_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_0_l_i", key: "zm::d_i_m_0_l_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_l_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_0_0_l_i", key: "zm::d_i_0_0_l_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_l_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_t_i", key: "zm::d_i_m_m_t_i", params: &["q", "om", "m1", "m2", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i(a[0].re, a[1].re, a[2].re, a[3].re, a[4].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_m_t_i_same_mass", key: "zm::d_i_m_m_t_i_same_mass", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i_same_mass(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_m_0_t_i", key: "zm::d_i_m_0_t_i", params: &["q", "om", "m", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_t_i(a[0].re, a[1].re, a[2].re, a[3].re) },
    G { sym: "oneloop__zero_momentum__d_i_0_0_t_i", key: "zm::d_i_0_0_t_i", params: &["q", "om", "beta"], mask: 0, ret_c: true, f: |a| qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_t_i(a[0].re, a[1].re, a[2].re) },
    G { sym: "energy_squared", key: "common::energy_squared", params: &["p", "m"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::energy_squared(a[0].re, a[1].re)) },
    G { sym: "energy", key: "common::energy", params: &["p", "m"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::energy(a[0].re, a[1].re)) },
    G { sym: "fermi_momentum", key: "common::fermi_momentum", params: &["m", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_momentum(a[0].re, a[1].re)) },
    G { sym: "fermi_distribution", key: "common::fermi_distribution", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_distribution(a[0].re, a[1].re, a[2].re)) },
    G { sym: "fermi_distribution_zero_temp", key: "common::fermi_distribution_zero_temp", params: &["en", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_distribution_zero_temp(a[0].re, a[1].re)) },
    G { sym: "fermi_distribution_double", key: "common::fermi_distribution_double", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_distribution_double(a[0].re, a[1].re, a[2].re)) },
    G { sym: "fermi_distribution_double_zero_temp", key: "common::fermi_distribution_double_zero_temp", params: &["en", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_distribution_double_zero_temp(a[0].re, a[1].re)) },
    G { sym: "fermi_distribution_zero_chempot", key: "common::fermi_distribution_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::fermi_distribution_zero_chempot(a[0].re, a[1].re)) },
    G { sym: "bose_distribution", key: "common::bose_distribution", params: &["en", "beta", "mu"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::bose_distribution(a[0].re, a[1].re, a[2].re)) },
    G { sym: "bose_distribution_zero_chempot", key: "common::bose_distribution_zero_chempot", params: &["en", "beta"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::bose_distribution_zero_chempot(a[0].re, a[1].re)) },
    G { sym: "ym__ghost__dressing_inv_landau", key: "ym::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__dressing_inv_landau(a[0].re, a[1].re)) },
    G { sym: "ym__ghost__dressing_inv_landau__complex", key: "ym::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__dressing_inv_landau__complex(a[0], a[1].re) },
    G { sym: "ym__ghost__dressing_inv", key: "ym::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__dressing_inv(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__ghost__dressing_inv__complex", key: "ym::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__dressing_inv__complex(a[0], a[1].re, a[2].re) },
    G { sym: "ym__ghost__dressing_landau", key: "ym::ghost::dressing_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__dressing_landau(a[0].re, a[1].re)) },
    G { sym: "ym__ghost__dressing_landau__complex", key: "ym::ghost::dressing_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__dressing_landau__complex(a[0], a[1].re) },
    G { sym: "ym__ghost__dressing", key: "ym::ghost::dressing", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__dressing(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__ghost__dressing__complex", key: "ym::ghost::dressing", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__dressing__complex(a[0], a[1].re, a[2].re) },
    G { sym: "ym__ghost__propagator_landau", key: "ym::ghost::propagator_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__propagator_landau(a[0].re, a[1].re)) },
    G { sym: "ym__ghost__propagator_landau__complex", key: "ym::ghost::propagator_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__propagator_landau__complex(a[0], a[1].re) },
    G { sym: "ym__ghost__propagator", key: "ym::ghost::propagator", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__ghost__propagator(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__ghost__propagator__complex", key: "ym::ghost::propagator", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__ghost__propagator__complex(a[0], a[1].re, a[2].re) },
    G { sym: "ym__gluon__dressing_inv_landau", key: "ym::gluon::dressing_inv_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__dressing_inv_landau(a[0].re, a[1].re)) },
    G { sym: "ym__gluon__dressing_inv_landau__complex", key: "ym::gluon::dressing_inv_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__dressing_inv_landau__complex(a[0], a[1].re) },
    G { sym: "ym__gluon__dressing_inv", key: "ym::gluon::dressing_inv", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__dressing_inv(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__gluon__dressing_inv__complex", key: "ym::gluon::dressing_inv", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__dressing_inv__complex(a[0], a[1].re, a[2].re) },
    G { sym: "ym__gluon__dressing_landau", key: "ym::gluon::dressing_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__dressing_landau(a[0].re, a[1].re)) },
    G { sym: "ym__gluon__dressing_landau__complex", key: "ym::gluon::dressing_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__dressing_landau__complex(a[0], a[1].re) },
    G { sym: "ym__gluon__dressing", key: "ym::gluon::dressing", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__dressing(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__gluon__dressing__complex", key: "ym::gluon::dressing", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__dressing__complex(a[0], a[1].re, a[2].re) },
    G { sym: "ym__gluon__propagator_landau", key: "ym::gluon::propagator_landau", params: &["s", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__propagator_landau(a[0].re, a[1].re)) },
    G { sym: "ym__gluon__propagator_landau__complex", key: "ym::gluon::propagator_landau", params: &["s", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__propagator_landau__complex(a[0], a[1].re) },
    G { sym: "ym__gluon__propagator", key: "ym::gluon::propagator", params: &["s", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::ym__gluon__propagator(a[0].re, a[1].re, a[2].re)) },
    G { sym: "ym__gluon__propagator__complex", key: "ym::gluon::propagator", params: &["s", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::ym__gluon__propagator__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__ghost__dressing_inv_landau", key: "qcd::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__ghost__dressing_inv_landau(a[0].re, a[1].re)) },
    G { sym: "qcd__ghost__dressing_inv_landau__complex", key: "qcd::ghost::dressing_inv_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__ghost__dressing_inv_landau__complex(a[0], a[1].re) },
    G { sym: "qcd__ghost__dressing_inv", key: "qcd::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__ghost__dressing_inv(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__ghost__dressing_inv__complex", key: "qcd::ghost::dressing_inv", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__ghost__dressing_inv__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__ghost__dressing_landau", key: "qcd::ghost::dressing_landau", params: &["s", "g0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__ghost__dressing_landau(a[0].re, a[1].re)) },
    G { sym: "qcd__ghost__dressing_landau__complex", key: "qcd::ghost::dressing_landau", params: &["s", "g0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__ghost__dressing_landau__complex(a[0], a[1].re) },
    G { sym: "qcd__ghost__dressing", key: "qcd::ghost::dressing", params: &["s", "g0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__ghost__dressing(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__ghost__dressing__complex", key: "qcd::ghost::dressing", params: &["s", "g0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__ghost__dressing__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__dressing_inv_landau", key: "qcd::gluon::dressing_inv_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_inv_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__dressing_inv_landau__complex", key: "qcd::gluon::dressing_inv_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_inv_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__dressing_inv", key: "qcd::gluon::dressing_inv", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_inv(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__dressing_inv__complex", key: "qcd::gluon::dressing_inv", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_inv__complex(a[0], a[1].re, a[2].re, a[3].re) },
    G { sym: "qcd__gluon__dressing_landau", key: "qcd::gluon::dressing_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__dressing_landau__complex", key: "qcd::gluon::dressing_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__dressing", key: "qcd::gluon::dressing", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__dressing__complex", key: "qcd::gluon::dressing", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing__complex(a[0], a[1].re, a[2].re, a[3].re) },
    G { sym: "qcd__gluon__propagator_landau", key: "qcd::gluon::propagator_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__propagator_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__propagator_landau__complex", key: "qcd::gluon::propagator_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__propagator_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__propagator", key: "qcd::gluon::propagator", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__propagator(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__propagator__complex", key: "qcd::gluon::propagator", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__propagator__complex(a[0], a[1].re, a[2].re, a[3].re) },
    G { sym: "qcd__gluon__dressing_crossed_inv_landau", key: "qcd::gluon::dressing_crossed_inv_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__dressing_crossed_inv_landau__complex", key: "qcd::gluon::dressing_crossed_inv_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__dressing_crossed_inv", key: "qcd::gluon::dressing_crossed_inv", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_crossed_inv(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__dressing_crossed_inv__complex", key: "qcd::gluon::dressing_crossed_inv", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_crossed_inv__complex(a[0], a[1].re, a[2].re, a[3].re) },
    G { sym: "qcd__gluon__dressing_crossed_landau", key: "qcd::gluon::dressing_crossed_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_crossed_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__dressing_crossed_landau__complex", key: "qcd::gluon::dressing_crossed_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_crossed_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__dressing_crossed", key: "qcd::gluon::dressing_crossed", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__dressing_crossed(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__dressing_crossed__complex", key: "qcd::gluon::dressing_crossed", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__dressing_crossed__complex(a[0], a[1].re, a[2].re, a[3].re) },
    G { sym: "qcd__gluon__propagator_crossed_landau", key: "qcd::gluon::propagator_crossed_landau", params: &["s", "mq", "f0"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__propagator_crossed_landau(a[0].re, a[1].re, a[2].re)) },
    G { sym: "qcd__gluon__propagator_crossed_landau__complex", key: "qcd::gluon::propagator_crossed_landau", params: &["s", "mq", "f0"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__propagator_crossed_landau__complex(a[0], a[1].re, a[2].re) },
    G { sym: "qcd__gluon__propagator_crossed", key: "qcd::gluon::propagator_crossed", params: &["s", "mq", "f0", "xi"], mask: 0, ret_c: false, f: |a| C::from(qcd_sme::ffi::qcd__gluon__propagator_crossed(a[0].re, a[1].re, a[2].re, a[3].re)) },
    G { sym: "qcd__gluon__propagator_crossed__complex", key: "qcd::gluon::propagator_crossed", params: &["s", "mq", "f0", "xi"], mask: 1, ret_c: true, f: |a| qcd_sme::ffi::qcd__gluon__propagator_crossed__complex(a[0], a[1].re, a[2].re, a[3].re) },
];

