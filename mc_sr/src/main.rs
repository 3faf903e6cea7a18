#![allow(dead_code)]
//! The checks stand twice in this binary: over the built-in operators, which take up to three
//! operands, and (module `own`) the same source over a set of our own, which take up to four.
pub mod c_eng;
pub mod c_f32;
pub mod c_mut;
pub mod c_num;
mod c_ops;
pub mod c_pop;
pub mod c_search;
mod c_ui;
pub mod common;

pub mod set {
    pub use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32 as B32, BuiltinOpsF64 as B};
    pub const D: usize = 3;
    pub const OWN: bool = false;
}

mod own {
    #[path = "../c_eng.rs"]
    pub mod c_eng;
    #[path = "../c_f32.rs"]
    pub mod c_f32;
    #[path = "../c_mut.rs"]
    pub mod c_mut;
    #[path = "../c_num.rs"]
    pub mod c_num;
    #[path = "../c_pop.rs"]
    pub mod c_pop;
    #[path = "../c_search.rs"]
    pub mod c_search;
    #[path = "../common.rs"]
    pub mod common;
    pub mod set;
}

/// Operators with at most 1 operand.
mod low1 {
    #[path = "../c_mut.rs"]
    pub mod c_mut;
    #[path = "../common.rs"]
    pub mod common;
    pub mod set {
        pub use dynamic_expressions::operator_enum::presets::BuiltinOpsF64 as B;
        pub const D: usize = 1;
        pub const OWN: bool = false;
    }
}

/// Operators with at most 2 operands.
mod low2 {
    #[path = "../c_mut.rs"]
    pub mod c_mut;
    #[path = "../common.rs"]
    pub mod common;
    pub mod set {
        pub use dynamic_expressions::operator_enum::presets::BuiltinOpsF64 as B;
        pub const D: usize = 2;
        pub const OWN: bool = false;
    }
}

/// Both of them.
macro_rules! twice {
    ($($p:ident)::+) => {
        |rep| {
            $($p)::+(rep);
            own::$($p)::+(rep);
        }
    };
}

/// And over smaller maximum numbers of operands.
macro_rules! all {
    ($($p:ident)::+) => {
        |rep| {
            $($p)::+(rep);
            low1::$($p)::+(rep);
            low2::$($p)::+(rep);
            own::$($p)::+(rep);
        }
    };
}

fn main() {
    if let Ok(job) = std::env::var("MC_TERMINAL") {
        c_ui::child(&job);
    }
    mc_core::run_main(&[
        ("C14", all!(c_mut::c14)),
        ("C15", all!(c_mut::c15)),
        ("C16", twice!(c_mut::c16)),
        ("C17", all!(c_mut::c17)),
        ("C18", |rep| {
            c_mut::c18(rep);
            own::c_mut::c18(rep);
            c_eng::iterations(rep);
        }),
        ("C19", twice!(c_pop::c19)),
        ("C20", twice!(c_pop::c20)),
        ("C21", c_pop::c21),
        ("C22", |rep| {
            c_pop::c22(rep);
            own::c_eng::iterations(rep);
        }),
        ("C23", c_pop::c23),
        ("C24", twice!(c_num::c24)),
        ("C25", c_num::c25),
        ("C26", c_pop::c26),
        ("C27", twice!(c_eng::c27)),
        ("C28", c_eng::c28),
        ("C29", c_eng::c29),
        ("C30", twice!(c_eng::c30)),
        ("C31", twice!(c_eng::c31)),
        ("C32", c_pop::c32),
        ("C33", c_pop::c33),
        ("C34", c_pop::c34),
        ("C35", twice!(c_eng::c35)),
        ("C36", c_eng::c36),
        ("C39", c_ops::c39),
        ("C40", c_num::c40),
        ("C41", twice!(c_eng::c41)),
        ("C44", all!(c_mut::c44)),
        ("C45", c_search::c45),
        ("C46", c_search::c46),
        ("C47", c_search::c47),
        ("C48", c_ui::c48),
        ("C49", c_search::c49),
    ]);
}
