//! C02: multiplication.
use mc::alpha::{self, V};
use mc::*;

fn two(l: &mut L, x: V, y: V) {
    let release = !cfg!(debug_assertions);
    macro_rules! go {
        ($T:ident, $ovf:literal, $wr:literal, $chk:literal, $sat:literal, $op:literal, $opa:literal, $tag:literal) => {{
            let (a, b) = ($T::of(x), $T::of(y));
            let args = &|| show2(a, b);
            let p = a.z().mul(b.z());
            chk!(l, $ovf, args, a.overflowing_mul(b), $T::ovf(p));
            chk!(l, $wr, args, a.wrapping_mul(b), $T::wrap(p));
            chk!(l, $chk, args, a.checked_mul(b), $T::chk(p));
            chk!(l, $sat, args, a.saturating_mul(b), $T::sat(p));
            if $T::fits(p) || release {
                chk!(l, $op, args, a * b, $T::wrap(p));
                chk!(l, $opa, args, { let mut t = a; t *= b; t }, $T::wrap(p));
            }
            if !$T::fits(p) {
                l.tag($tag);
            }
        }};
    }
    go!(U256, "U256::overflowing_mul", "U256::wrapping_mul", "U256::checked_mul", "U256::saturating_mul", "U256 * U256", "U256 *= U256", "U256 product overflows");
    go!(I256, "I256::overflowing_mul", "I256::wrapping_mul", "I256::checked_mul", "I256::saturating_mul", "I256 * I256", "I256 *= I256", "I256 product overflows");
    let small = |v: V| v[1] | v[2] | v[3] == 0;
    l.nontrivial(!small(x) && !small(y));
}

fn spaces(env: &Env) -> Vec<Space> {
    let b = alpha::binary(env, if env.quick { 1 } else { 2 });
    let n = b.len();
    let all = if env.quick {
        alpha::union(vec![
            alpha::core(),
            alpha::dict(&env.dict, true),
            alpha::pows(&[-2, -1, 0, 1, 2]),
            alpha::limbs(&alpha::L7),
            alpha::runs(),
            alpha::roots(),
            alpha::radix_pows(&[0]),
            alpha::small(2000),
        ])
    } else {
        alpha::unary(env)
    };
    let all2 = all.clone();
    // Second operands around quotients of the boundaries: the product is just
    // below, at and just above 2^64, 2^128, 2^192, 2^255, 2^256.
    let bounds = [64u32, 127, 128, 129, 192, 254, 255, 256];
    let cs = [-1i128, 0, 1, 2];
    let per = bounds.len() * cs.len() * 4;
    let lift = env.lift.clone();
    vec![
        space("model paths", "witnesses of every path of the scaled model (and every pair it fails on), each operand lifted to 256 bits in twelve ways", lift.len() * alpha::LIFTS * alpha::LIFTS, move |i, l| {
            let (x, y) = alpha::lifted(&lift, i);
            two(l, x, y);
        }),
        space("pairs", "all ordered pairs of the binary alphabet", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            two(l, b[p], b[q]);
        }),
        space("boundary", "pairs (a, floor(2^k/a)+c), with both signs, for k around every word boundary", all.len() * per, move |i, l| {
            let (p, q) = pair(i, per);
            let (a, k) = (all[p], q);
            let d = Z::from_limbs(a);
            if d.is_zero() {
                return;
            }
            let bound = Z::pow2(bounds[k % 8]);
            let m = bound.divmod(d).0.add(Z::i(cs[k / 8 % 4]));
            let (mut x, mut y) = (a, m.limbs());
            if k / 32 % 2 == 1 {
                x = alpha::neg(x);
            }
            if k / 64 % 2 == 1 {
                y = alpha::neg(y);
            }
            two(l, x, y);
        }),
        space("squares", "a * a, a * -a, a * (a+1), a * !a", all2.len() * 4, move |i, l| {
            let (p, q) = pair(i, 4);
            let a = all2[p];
            let b = [a, alpha::neg(a), alpha::addc(a, 1), alpha::not(a)][q];
            two(l, a, b);
        }),
    ]
}

fn main() {
    mc::run::main("C02", spaces)
}
