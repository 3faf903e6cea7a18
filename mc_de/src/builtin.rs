//! Independent closed forms of the built-in operators and of their partial derivatives, and
//! `Model` instances for op sets made of built-ins.
use crate::model::Model;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use std::sync::OnceLock;

pub fn bev(name: &str, a: &[f64]) -> f64 {
    let x = a[0];
    match name {
        "cos" => x.cos(),
        "sin" => x.sin(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "sec" => x.cos().recip(),
        "csc" => x.sin().recip(),
        "cot" => x.tan().recip(),
        "exp" => x.exp(),
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "log1p" => x.ln_1p(),
        "exp2" => x.exp2(),
        "expm1" => x.exp_m1(),
        "sqrt" => x.sqrt(),
        "cbrt" => x.cbrt(),
        "abs" => x.abs(),
        "abs2" => x * x,
        "inv" => 1.0 / x,
        "sign" => x.signum(),
        "identity" => x,
        "neg" => -x,
        "add" => x + a[1],
        "sub" => x - a[1],
        "mul" => x * a[1],
        "div" => x / a[1],
        "pow" => x.powf(a[1]),
        "atan2" => x.atan2(a[1]),
        "min" => x.min(a[1]),
        "max" => x.max(a[1]),
        "fma" => x.mul_add(a[1], a[2]),
        "clamp" => {
            if x < a[1] {
                a[1]
            } else if x > a[2] {
                a[2]
            } else {
                x
            }
        }
        _ => panic!("unknown {name}"),
    }
}

/// True partial derivative; NaN where it does not exist or is not asked for.
pub fn bpd(name: &str, a: &[f64], j: usize) -> f64 {
    let x = a[0];
    let y = if a.len() > 1 { a[1] } else { 0.0 };
    match (name, j) {
        ("cos", 0) => -x.sin(),
        ("sin", 0) => x.cos(),
        ("tan", 0) => 1.0 + x.tan().powi(2),
        ("asin", 0) => if x.abs() < 1.0 { ((1.0 - x) * (1.0 + x)).powf(-0.5) } else { f64::NAN },
        ("acos", 0) => if x.abs() < 1.0 { -((1.0 - x) * (1.0 + x)).powf(-0.5) } else { f64::NAN },
        ("atan", 0) => 1.0 / (x * x + 1.0),
        ("sinh", 0) => 0.5 * (x.exp() + (-x).exp()),
        ("cosh", 0) => x.sinh(),
        ("tanh", 0) => if x.abs() < 5.0 { 1.0 - x.tanh().powi(2) } else { 4.0 * (-2.0 * x.abs()).exp() / (1.0 + (-2.0 * x.abs()).exp()).powi(2) },
        ("asinh", 0) => 1.0 / 1.0f64.hypot(x),
        ("acosh", 0) => if x > 1.0 { 1.0 / ((x - 1.0) * (x + 1.0)).sqrt() } else { f64::NAN },
        ("atanh", 0) => if x.abs() < 1.0 { 1.0 / ((1.0 - x) * (1.0 + x)) } else { f64::NAN },
        ("sec", 0) => x.sin() / x.cos().powi(2),
        ("csc", 0) => -x.cos() / x.sin().powi(2),
        ("cot", 0) => -1.0 / x.sin().powi(2),
        ("exp", 0) => x.exp(),
        ("log", 0) => if x > 0.0 { 1.0 / x } else { f64::NAN },
        ("log2", 0) => if x > 0.0 { std::f64::consts::LOG2_E / x } else { f64::NAN },
        ("log10", 0) => if x > 0.0 { std::f64::consts::LOG10_E / x } else { f64::NAN },
        ("log1p", 0) => if x > -1.0 { 1.0 / (1.0 + x) } else { f64::NAN },
        ("exp2", 0) => std::f64::consts::LN_2 * (2.0f64).powf(x),
        ("expm1", 0) => x.exp(),
        ("sqrt", 0) => if x > 0.0 { 0.5 / x.sqrt() } else { f64::NAN },
        ("cbrt", 0) => if x != 0.0 { x.cbrt() / (3.0 * x) } else { f64::NAN },
        ("abs", 0) => if x != 0.0 { x.signum() } else { f64::NAN },
        ("abs2", 0) => x + x,
        ("inv", 0) => if x != 0.0 { -(1.0 / x) * (1.0 / x) } else { f64::NAN },
        ("sign", 0) => if x != 0.0 { 0.0 } else { f64::NAN },
        ("identity", 0) => 1.0,
        ("neg", 0) => -1.0,
        ("add", _) => 1.0,
        ("sub", 0) => 1.0,
        ("sub", 1) => -1.0,
        ("mul", 0) => y,
        ("mul", 1) => x,
        ("div", 0) => if y != 0.0 { 1.0 / y } else { f64::NAN },
        ("div", 1) => if y != 0.0 { -(x / y) / y } else { f64::NAN },
        // For a negative base only integer exponents make pow differentiable in the base, and
        // none in the exponent.
        ("pow", 0) if x == 0.0 => if y > 1.0 { 0.0 } else if y == 1.0 { 1.0 } else { f64::NAN },
        ("pow", 1) if x == 0.0 => if y > 0.0 { 0.0 } else { f64::NAN },
        ("pow", 0) => if x > 0.0 || (x < 0.0 && y.fract() == 0.0) { if y == 0.0 { 0.0 } else { x.powf(y) * y / x } } else { f64::NAN },
        ("pow", 1) => if x > 0.0 { x.powf(y) * x.ln() } else { f64::NAN },
        ("atan2", 0) => if x != 0.0 || y != 0.0 { (y / x.hypot(y)) / x.hypot(y) } else { f64::NAN },
        ("atan2", 1) => if x != 0.0 || y != 0.0 { -(x / x.hypot(y)) / x.hypot(y) } else { f64::NAN },
        ("min", 0) => if x < y { 1.0 } else if x > y { 0.0 } else { f64::NAN },
        ("min", 1) => if y < x { 1.0 } else if y > x { 0.0 } else { f64::NAN },
        ("max", 0) => if x > y { 1.0 } else if x < y { 0.0 } else { f64::NAN },
        ("max", 1) => if y > x { 1.0 } else if y < x { 0.0 } else { f64::NAN },
        ("fma", 0) => y,
        ("fma", 1) => x,
        ("fma", 2) => 1.0,
        ("clamp", k) => {
            let (lo, hi) = (a[1], a[2]);
            if !(lo < hi) || x == lo || x == hi {
                return f64::NAN;
            }
            let which = if x < lo { 1 } else if x > hi { 2 } else { 0 };
            if which == k { 1.0 } else { 0.0 }
        }
        _ => panic!("unknown {name} {j}"),
    }
}

macro_rules! builtin_table {
    ($Ops:ty; $( $Op:ident $name:literal $ar:literal ),* $(,)?) => {{
        let mut t: Vec<(u8, u16, &'static str)> = Vec::new();
        $( t.push(($ar, <$Ops as dynamic_expressions::HasOp<dynamic_expressions::operator_enum::builtin::$Op>>::ID, $name)); )*
        t
    }};
}

macro_rules! all_builtins {
    ($Ops:ty) => {
        builtin_table!($Ops;
            Cos "cos" 1, Sin "sin" 1, Tan "tan" 1, Asin "asin" 1, Acos "acos" 1, Atan "atan" 1,
            Sinh "sinh" 1, Cosh "cosh" 1, Tanh "tanh" 1, Asinh "asinh" 1, Acosh "acosh" 1, Atanh "atanh" 1,
            Sec "sec" 1, Csc "csc" 1, Cot "cot" 1, Exp "exp" 1, Log "log" 1, Log2 "log2" 1, Log10 "log10" 1,
            Log1p "log1p" 1, Exp2 "exp2" 1, Expm1 "expm1" 1, Sqrt "sqrt" 1, Cbrt "cbrt" 1, Abs "abs" 1,
            Abs2 "abs2" 1, Inv "inv" 1, Sign "sign" 1, Identity "identity" 1, Neg "neg" 1,
            Add "add" 2, Sub "sub" 2, Mul "mul" 2, Div "div" 2, Pow "pow" 2, Atan2 "atan2" 2, Min "min" 2, Max "max" 2,
            Fma "fma" 3, Clamp "clamp" 3)
    };
}
pub(crate) use all_builtins;
pub(crate) use builtin_table;

pub type Table = Vec<(u8, u16, &'static str)>;

pub fn name_of(t: &Table, arity: u8, id: u16) -> &'static str {
    t.iter().find(|e| e.0 == arity && e.1 == id).map(|e| e.2).expect("op in table")
}

pub fn id_of(t: &Table, name: &str) -> (u8, u16) {
    t.iter().find(|e| e.2 == name).map(|e| (e.0, e.1)).expect("op in table")
}

pub fn table_f64() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| all_builtins!(BuiltinOpsF64))
}

impl Model for BuiltinOpsF64 {
    fn ev(arity: u8, id: u16, a: &[f64]) -> f64 {
        bev(name_of(table_f64(), arity, id), a)
    }
    fn pd(arity: u8, id: u16, a: &[f64], j: usize) -> f64 {
        bpd(name_of(table_f64(), arity, id), a, j)
    }
}

// Small sets whose ids deliberately collide across arities, in the orders that simplification has
// to tell apart.
macro_rules! small_set {
    ($Ops:ident { $( ($ar:literal, $En:ident) { $($Op:ident $name:literal),* } )* }) => {
        dynamic_expressions::opset! {
            pub struct $Ops<f64>;
            ops { $( ($ar, $En) { $($Op,)* } )* }
        }
        impl $Ops {
            pub fn table() -> &'static Table {
                static T: OnceLock<Table> = OnceLock::new();
                T.get_or_init(|| builtin_table!($Ops; $($( $Op $name $ar, )*)*))
            }
        }
        impl Model for $Ops {
            fn ev(arity: u8, id: u16, a: &[f64]) -> f64 { bev(name_of(Self::table(), arity, id), a) }
            fn pd(arity: u8, id: u16, a: &[f64], j: usize) -> f64 { bpd(name_of(Self::table(), arity, id), a, j) }
        }
    };
}

small_set! { SetA { (1, SetA1) { Sin "sin", Cos "cos", Neg "neg" } (2, SetA2) { Add "add", Sub "sub", Mul "mul" } } }
small_set! { SetB { (1, SetB1) { Neg "neg", Cos "cos", Sin "sin" } (2, SetB2) { Sub "sub", Mul "mul", Add "add", Div "div" } (3, SetB3) { Fma "fma", Clamp "clamp" } } }
small_set! { SetC { (1, SetC1) { Cos "cos" } (2, SetC2) { Mul "mul", Max "max" } } }
small_set! { SetD { (1, SetD1) { Abs "abs", Sin "sin" } (2, SetD2) { Max "max", Sub "sub" } (3, SetD3) { Clamp "clamp", Fma "fma" } } }
small_set! { SetE { (1, SetE1) { Inv "inv", Log "log", Sqrt "sqrt" } (2, SetE2) { Add "add", Mul "mul", Min "min", Pow "pow" } (3, SetE3) { Fma "fma" } } }
