#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, unused_braces, unused_assignments, redundant_semicolons, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global layout usize is size == 8;
// ---- helpers that the extractor's desugaring refers to (all verified, none trusted) ----
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0int } { if a >= b { a - b } else { 0 } }
pub fn vx_range_check(lo: usize, hi: usize, len: usize) requires lo <= hi <= len {}
pub fn vx_nonzero(n: usize) requires n > 0 {}
pub fn vx_assert(b: bool) requires b {}
pub fn vx_ceil_div(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == (a as int + b as int - 1) / (b as int) {
    let q = a / b;
    proof { lemma_fundamental_div_mod(a as int, b as int); }
    if a % b == 0 { proof { let x = (q as int); assert(b as int * x == x * b as int) by(nonlinear_arith); lemma_fundamental_div_mod_converse(a as int + b as int - 1, b as int, x, b as int - 1); } q }
    else { proof { let x = (q as int) + 1; assert(b as int * (x - 1) == b as int * x - b as int) by(nonlinear_arith); assert(b as int * x == x * b as int) by(nonlinear_arith); lemma_fundamental_div_mod_converse(a as int + b as int - 1, b as int, x, (a as int) % (b as int) - 1);
        assert(q < usize::MAX) by { if q == usize::MAX { assert(b as int * q as int >= 0 + 0); assert(b == 1 || b as int * q as int >= 2 * q as int) by(nonlinear_arith) requires b >= 1, q >= 0; if b == 1 { assert(a % 1 == 0); } } } } q + 1 }
}
pub fn vx_windows_count(l: usize, n: usize) -> (r: usize) requires n > 0 ensures r == if l >= n { l - n + 1 } else { 0int } { if l >= n { l - n + 1 } else { 0 } }
#[verifier::external_body] pub fn vx_format() -> (r: String) { String::new() }
#[verifier::external_body] pub fn vx_unreachable() -> ! requires false { panic!() }
