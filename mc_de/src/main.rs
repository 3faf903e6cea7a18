#![allow(dead_code)]
mod builtin;
mod c_deriv;
mod c_eval;
mod c_expr;
mod model;

fn main() {
    mc_core::run_main(&[("C01", c_eval::c01), ("C02", c_eval::c02), ("C06", c_eval::c06), ("C03", c_deriv::c03), ("C04", c_deriv::c04), ("C05", c_deriv::c05), ("C07", c_expr::c07), ("C08", c_expr::c08), ("C09", c_expr::c09), ("C10", c_expr::c10), ("C11", c_expr::c11), ("C13", c_expr::c13)]);
}
