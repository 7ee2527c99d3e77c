//! C01: addition, subtraction, negation, absolute value.
use mc::alpha::{self, V};
use mc::*;

fn un(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let (zu, zi) = (u.z(), i.z());
    let au = &|| show1(u);
    let ai = &|| show1(i);
    let n = zu.neg();
    chk!(l, "U256::wrapping_neg", au, u.wrapping_neg(), U256::wrap(n));
    chk!(l, "U256::overflowing_neg", au, u.overflowing_neg(), U256::ovf(n));
    chk!(l, "U256::checked_neg", au, u.checked_neg(), U256::chk(n));
    let n = zi.neg();
    chk!(l, "I256::wrapping_neg", ai, i.wrapping_neg(), I256::wrap(n));
    chk!(l, "I256::overflowing_neg", ai, i.overflowing_neg(), I256::ovf(n));
    chk!(l, "I256::checked_neg", ai, i.checked_neg(), I256::chk(n));
    chk!(l, "I256::saturating_neg", ai, i.saturating_neg(), I256::sat(n));
    if I256::fits(n) {
        chk!(l, "-I256", ai, -i, I256::wrap(n));
        chk!(l, "-&I256", ai, -&i, I256::wrap(n));
    } else {
        let want = if cfg!(debug_assertions) { None } else { Some(I256::wrap(n)) };
        l.cmp_panic("-I256", || -i, want, ai);
        l.tag("neg overflows");
    }
    let a = zi.abs();
    chk!(l, "I256::wrapping_abs", ai, i.wrapping_abs(), I256::wrap(a));
    chk!(l, "I256::overflowing_abs", ai, i.overflowing_abs(), I256::ovf(a));
    chk!(l, "I256::checked_abs", ai, i.checked_abs(), I256::chk(a));
    chk!(l, "I256::saturating_abs", ai, i.saturating_abs(), I256::sat(a));
    chk!(l, "I256::unsigned_abs", ai, i.unsigned_abs(), U256::wrap(a));
    if I256::fits(a) {
        chk!(l, "I256::abs", ai, i.abs(), I256::wrap(a));
    } else {
        // Debug: panics. Release: documented to return MIN.
        let want = if cfg!(debug_assertions) { None } else { Some(I256::wrap(a)) };
        l.cmp_panic("I256::abs", || i.abs(), want, ai);
    }
    let s: i128 = if zi.is_zero() { 0 } else if zi.is_neg() { -1 } else { 1 };
    chk!(l, "I256::signum", ai, i.signum(), I256::wrap(Z::i(s)));
    chk!(l, "I256::signum128", ai, i.signum128(), s);
    chk!(l, "I256::is_positive", ai, i.is_positive(), s > 0);
    chk!(l, "I256::is_negative", ai, i.is_negative(), s < 0);
    l.nontrivial(v[1] | v[2] | v[3] != 0);
}

/// Every two-operand form on one pair of patterns.
fn two(l: &mut L, x: V, y: V) {
    let (a, b) = (U256::of(x), U256::of(y));
    let (ia, ib) = (I256::of(x), I256::of(y));
    let (za, zb, zia, zib) = (a.z(), b.z(), ia.z(), ib.z());
    let release = !cfg!(debug_assertions);
    {
        let args = &|| show2(a, b);
        let s = za.add(zb);
        chk!(l, "U256::overflowing_add", args, a.overflowing_add(b), U256::ovf(s));
        chk!(l, "U256::wrapping_add", args, a.wrapping_add(b), U256::wrap(s));
        chk!(l, "U256::checked_add", args, a.checked_add(b), U256::chk(s));
        chk!(l, "U256::saturating_add", args, a.saturating_add(b), U256::sat(s));
        if U256::fits(s) || release {
            chk!(l, "U256 + U256", args, a + b, U256::wrap(s));
            chk!(l, "U256 += U256", args, { let mut t = a; t += b; t }, U256::wrap(s));
        }
        let d = za.sub(zb);
        chk!(l, "U256::overflowing_sub", args, a.overflowing_sub(b), U256::ovf(d));
        chk!(l, "U256::wrapping_sub", args, a.wrapping_sub(b), U256::wrap(d));
        chk!(l, "U256::checked_sub", args, a.checked_sub(b), U256::chk(d));
        chk!(l, "U256::saturating_sub", args, a.saturating_sub(b), U256::sat(d));
        if U256::fits(d) || release {
            chk!(l, "U256 - U256", args, a - b, U256::wrap(d));
            chk!(l, "U256 -= U256", args, { let mut t = a; t -= b; t }, U256::wrap(d));
        }
        chk!(l, "U256::abs_diff", args, a.abs_diff(b), U256::wrap(d.abs()));
    }
    {
        let args = &|| show2(a, ib);
        let s = za.add(zib);
        chk!(l, "U256::overflowing_add_signed", args, a.overflowing_add_signed(ib), U256::ovf(s));
        chk!(l, "U256::wrapping_add_signed", args, a.wrapping_add_signed(ib), U256::wrap(s));
        chk!(l, "U256::checked_add_signed", args, a.checked_add_signed(ib), U256::chk(s));
        chk!(l, "U256::saturating_add_signed", args, a.saturating_add_signed(ib), U256::sat(s));
    }
    {
        let args = &|| show2(ia, ib);
        let s = zia.add(zib);
        chk!(l, "I256::overflowing_add", args, ia.overflowing_add(ib), I256::ovf(s));
        chk!(l, "I256::wrapping_add", args, ia.wrapping_add(ib), I256::wrap(s));
        chk!(l, "I256::checked_add", args, ia.checked_add(ib), I256::chk(s));
        chk!(l, "I256::saturating_add", args, ia.saturating_add(ib), I256::sat(s));
        if I256::fits(s) || release {
            chk!(l, "I256 + I256", args, ia + ib, I256::wrap(s));
            chk!(l, "I256 += I256", args, { let mut t = ia; t += ib; t }, I256::wrap(s));
        } else {
            l.tag("I256 sum overflows");
        }
        let d = zia.sub(zib);
        chk!(l, "I256::overflowing_sub", args, ia.overflowing_sub(ib), I256::ovf(d));
        chk!(l, "I256::wrapping_sub", args, ia.wrapping_sub(ib), I256::wrap(d));
        chk!(l, "I256::checked_sub", args, ia.checked_sub(ib), I256::chk(d));
        chk!(l, "I256::saturating_sub", args, ia.saturating_sub(ib), I256::sat(d));
        if I256::fits(d) || release {
            chk!(l, "I256 - I256", args, ia - ib, I256::wrap(d));
            chk!(l, "I256 -= I256", args, { let mut t = ia; t -= ib; t }, I256::wrap(d));
        }
        chk!(l, "I256::abs_diff", args, ia.abs_diff(ib), U256::wrap(d.abs()));
    }
    {
        let args = &|| show2(ia, b);
        let s = zia.add(zb);
        chk!(l, "I256::overflowing_add_unsigned", args, ia.overflowing_add_unsigned(b), I256::ovf(s));
        chk!(l, "I256::wrapping_add_unsigned", args, ia.wrapping_add_unsigned(b), I256::wrap(s));
        chk!(l, "I256::checked_add_unsigned", args, ia.checked_add_unsigned(b), I256::chk(s));
        chk!(l, "I256::saturating_add_unsigned", args, ia.saturating_add_unsigned(b), I256::sat(s));
        let d = zia.sub(zb);
        chk!(l, "I256::overflowing_sub_unsigned", args, ia.overflowing_sub_unsigned(b), I256::ovf(d));
        chk!(l, "I256::wrapping_sub_unsigned", args, ia.wrapping_sub_unsigned(b), I256::wrap(d));
        chk!(l, "I256::checked_sub_unsigned", args, ia.checked_sub_unsigned(b), I256::chk(d));
        chk!(l, "I256::saturating_sub_unsigned", args, ia.saturating_sub_unsigned(b), I256::sat(d));
    }
    if !U256::fits(za.add(zb)) {
        l.tag("U256 sum overflows");
    }
    if za.lt(zb) {
        l.tag("U256 difference overflows");
    }
    l.nontrivial(x != y && x[1] | x[2] | x[3] != 0 && y[1] | y[2] | y[3] != 0);
}

fn spaces(env: &Env) -> Vec<Space> {
    let u = alpha::unary(env);
    let b = alpha::binary(env, if env.quick { 1 } else { 2 });
    let n = b.len();
    // Second operands chosen relative to the first: sums and differences
    // within +-2 of zero, of the extremes and of the word boundary.
    let rel: Vec<V> = if env.quick {
        alpha::union(vec![alpha::core(), alpha::dict(&env.dict, true), alpha::pows(&[-2, -1, 0, 1, 2]), alpha::limbs(&alpha::L7), alpha::runs()])
    } else {
        u.clone()
    };
    let targets: Vec<V> = {
        let mut t = vec![];
        for base in [[0; 4], alpha::MIN, alpha::pow2(128), alpha::pow2(64), alpha::pow2(192), alpha::not(alpha::pow2(128))] {
            for c in -2..=2 {
                t.push(alpha::addc(base, c));
            }
        }
        t
    };
    let nt = targets.len();
    let lift = env.lift.clone();
    vec![
        space("model paths", "witnesses of every path of the scaled model (and every pair it fails on), each operand lifted to 256 bits in twelve ways", lift.len() * alpha::LIFTS * alpha::LIFTS, move |i, l| {
            let (x, y) = alpha::lifted(&lift, i);
            two(l, x, y);
        }),
        space("unary", "every unary form on the unary alphabet", u.len(), {
            let u = u.clone();
            move |i, l| un(l, u[i as usize])
        }),
        space("pairs", "every two-operand form on all ordered pairs of the binary alphabet", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            two(l, b[p], b[q]);
        }),
        space("relational", "pairs (a, t-a) and (a, a-t) for targets t around 0, the extremes and the word boundaries", rel.len() * nt * 2, move |i, l| {
            let (p, q) = pair(i, nt * 2);
            let a = rel[p];
            let t = targets[q / 2];
            let d = alpha::add(t, alpha::neg(a));
            two(l, a, if q % 2 == 0 { d } else { alpha::neg(d) });
        }),
    ]
}

fn main() {
    mc::run::main("C01", spaces)
}
