#![allow(clippy::all)]
pub mod sym;
mod calc;
mod space;
mod driver;
mod linalg;
mod oracles;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C-unwind" fn $f() { $m::$f() } )*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($f), $f) ),* ];
    };
}
entries! {
    calc::h_calc_contain, calc::h_calc_flat, calc::h_calc_volume, calc::h_calc_status, calc::h_calc_degenerate,
    driver::h_feas, driver::h_optim, driver::h_optim_q, driver::h_bsearch, driver::h_bsearch_bad, driver::h_adaptor,
    space::h_stable_equiv, space::h_stable_step, space::h_stable_big, space::h_space_cut, space::h_space_status,
    space::h_defer, space::h_ctor, space::h_covariant, space::h_history,
    linalg::h_ldlt, linalg::h_ldlt_reuse, linalg::h_ldlt_big, linalg::h_ldlt_semi_big, linalg::h_ldlt_reuse_big, linalg::h_ldlt_semi, linalg::h_lmi, linalg::h_lmi_repeat, linalg::h_lmi_big, linalg::h_lmi_seq, linalg::h_lmi_same,
    linalg::h_arr, linalg::h_arr_fun, linalg::h_arr_prod, linalg::h_arr_rank1, linalg::h_arr_bad, linalg::h_cg, linalg::h_power,
    oracles::h_lowpass, oracles::h_lowpass_new, oracles::h_quasicvx, oracles::h_profit, oracles::h_profit_rb,
    oracles::h_profit_q, oracles::h_svm, oracles::h_maxcut, oracles::h_maxcut_bad,
}
