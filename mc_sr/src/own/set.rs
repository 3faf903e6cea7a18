//! A set of operators of our own, with up to four operands, in another order than the built-in one.
mod wide {
    symbolic_regression::custom_opset! {
            pub struct OpsF64<T = f64>;
    
            1 => {
                cos { eval: |[x]| x.cos(), partial: |[x]| -x.sin() },
                neg { eval: |[x]| -x, partial: |[_x]| -1.0 },
                log { eval: |[x]| x.ln(), partial: |[x]| 1.0 / x },
                abs2 { eval: |[x]| x * x, partial: |[x]| 2.0 * x },
                sqrt { eval: |[x]| x.sqrt(), partial: |[x]| 0.5 / x.sqrt() },
                exp { eval: |[x]| x.exp(), partial: |[x]| x.exp() },
                sin { eval: |[x]| x.sin(), partial: |[x]| x.cos() },
                inv { eval: |[x]| 1.0 / x, partial: |[x]| -1.0 / (x * x) },
            half { complexity: 3, eval: |[x]| 0.5 * x + 1.0, partial: |[_x]| 0.5 },
            },
            2 => {
                sub { infix: "-", eval: |[x, y]| x - y, partial: |[_x, _y], i| if i == 0 { 1.0 } else { -1.0 } },
                div { infix: "/", eval: |[x, y]| x / y, partial: |[x, y], i| if i == 0 { 1.0 / y } else { -x / (y * y) } },
                add { infix: "+", commutative: true, associative: true, eval: |[x, y]| x + y, partial: |[_x, _y], _i| 1.0 },
                mul { infix: "*", commutative: true, associative: true, eval: |[x, y]| x * y, partial: |[x, y], i| if i == 0 { y } else { x } },
            mean { complexity: 2, eval: |[x, y]| 0.5 * (x + y), partial: |[_x, _y], _i| 0.5 },
            },
            3 => {
                fma { eval: |[x, y, z]| x * y + z, partial: |[x, y, _z], i| if i == 0 { y } else if i == 1 { x } else { 1.0 } },
            },
            4 => {
                join { eval: |[x, y, z, w]| x * y - z + 0.5 * w, partial: |[x, y, _z, _w], i| match i { 0 => y, 1 => x, 2 => -1.0, _ => 0.5 } },
            },
    }
}
mod narrow {
    symbolic_regression::custom_opset! {
            pub struct OpsF32<T = f32>;
    
            1 => {
                cos { eval: |[x]| x.cos(), partial: |[x]| -x.sin() },
                neg { eval: |[x]| -x, partial: |[_x]| -1.0 },
                log { eval: |[x]| x.ln(), partial: |[x]| 1.0 / x },
                abs2 { eval: |[x]| x * x, partial: |[x]| 2.0 * x },
                sqrt { eval: |[x]| x.sqrt(), partial: |[x]| 0.5 / x.sqrt() },
                exp { eval: |[x]| x.exp(), partial: |[x]| x.exp() },
                sin { eval: |[x]| x.sin(), partial: |[x]| x.cos() },
                inv { eval: |[x]| 1.0 / x, partial: |[x]| -1.0 / (x * x) },
            half { complexity: 3, eval: |[x]| 0.5 * x + 1.0, partial: |[_x]| 0.5 },
            },
            2 => {
                sub { infix: "-", eval: |[x, y]| x - y, partial: |[_x, _y], i| if i == 0 { 1.0 } else { -1.0 } },
                div { infix: "/", eval: |[x, y]| x / y, partial: |[x, y], i| if i == 0 { 1.0 / y } else { -x / (y * y) } },
                add { infix: "+", commutative: true, associative: true, eval: |[x, y]| x + y, partial: |[_x, _y], _i| 1.0 },
                mul { infix: "*", commutative: true, associative: true, eval: |[x, y]| x * y, partial: |[x, y], i| if i == 0 { y } else { x } },
            mean { complexity: 2, eval: |[x, y]| 0.5 * (x + y), partial: |[_x, _y], _i| 0.5 },
            },
            3 => {
                fma { eval: |[x, y, z]| x * y + z, partial: |[x, y, _z], i| if i == 0 { y } else if i == 1 { x } else { 1.0 } },
            },
            4 => {
                join { eval: |[x, y, z, w]| x * y - z + 0.5 * w, partial: |[x, y, _z, _w], i| match i { 0 => y, 1 => x, 2 => -1.0, _ => 0.5 } },
            },
    }
}
pub use narrow::OpsF32 as B32;
pub use wide::OpsF64 as B;
pub const D: usize = 4;
pub const OWN: bool = true;
