//! C03: division and remainder.
use mc::alpha::{self, V};
use mc::*;

/// All forms for a dividend `x` and divisor `y`; when the caller built the
/// dividend as q*d + r it passes the quotient and remainder it expects, and
/// otherwise they are worked out here from a candidate that is verified with
/// the defining equation (which has exactly one solution).
fn forms(l: &mut L, x: V, y: V) {
    let (a, b) = (U256::of(x), U256::of(y));
    let (ia, ib) = (I256::of(x), I256::of(y));
    if y == [0; 4] {
        zero(l, a, ia);
        return;
    }
    // ---- unsigned
    {
        let args = &|| show2(a, b);
        l.at("U256::wrapping_div");
        let (mut zq, mut zr) = (a.wrapping_div(b).z(), a.wrapping_rem(b).z());
        let (za, zb) = (a.z(), b.z());
        if !(zq.mul(zb).add(zr) == za && zr.lt(zb)) {
            // The candidate is wrong: find out what was expected.
            (zq, zr) = za.divmod(zb);
        }
        let (q, r) = (U256::wrap(zq), U256::wrap(zr));
        chk!(l, "U256::wrapping_div", args, a.wrapping_div(b), q);
        chk!(l, "U256::wrapping_rem", args, a.wrapping_rem(b), r);
        chk!(l, "U256 / U256", args, a / b, q);
        chk!(l, "U256 % U256", args, a % b, r);
        chk!(l, "U256 /= U256", args, { let mut t = a; t /= b; t }, q);
        chk!(l, "U256 %= U256", args, { let mut t = a; t %= b; t }, r);
        chk!(l, "U256::checked_div", args, a.checked_div(b), Some(q));
        chk!(l, "U256::checked_rem", args, a.checked_rem(b), Some(r));
        chk!(l, "U256::saturating_div", args, a.saturating_div(b), q);
        chk!(l, "U256::overflowing_div", args, a.overflowing_div(b), (q, false));
        chk!(l, "U256::overflowing_rem", args, a.overflowing_rem(b), (r, false));
        chk!(l, "U256::div_euclid", args, a.div_euclid(b), q);
        chk!(l, "U256::rem_euclid", args, a.rem_euclid(b), r);
        chk!(l, "U256::checked_div_euclid", args, a.checked_div_euclid(b), Some(q));
        chk!(l, "U256::checked_rem_euclid", args, a.checked_rem_euclid(b), Some(r));
        chk!(l, "U256::wrapping_div_euclid", args, a.wrapping_div_euclid(b), q);
        chk!(l, "U256::wrapping_rem_euclid", args, a.wrapping_rem_euclid(b), r);
        chk!(l, "U256::overflowing_div_euclid", args, a.overflowing_div_euclid(b), (q, false));
        chk!(l, "U256::overflowing_rem_euclid", args, a.overflowing_rem_euclid(b), (r, false));
        chk!(l, "U256::div_rem", args, a.div_rem(b), (q, r));
        chk!(l, "U256::div_rem_euclid", args, a.div_rem_euclid(b), (q, r));
        chk!(l, "U256::checked_div_rem", args, a.checked_div_rem(b), Some((q, r)));
        chk!(l, "U256::checked_div_rem_euclid", args, a.checked_div_rem_euclid(b), Some((q, r)));
        chk!(l, "U256::saturating_div_rem", args, a.saturating_div_rem(b), (q, r));
        chk!(l, "U256::saturating_div_rem_euclid", args, a.saturating_div_rem_euclid(b), (q, r));
        chk!(l, "U256::wrapping_div_rem", args, a.wrapping_div_rem(b), (q, r));
        chk!(l, "U256::wrapping_div_rem_euclid", args, a.wrapping_div_rem_euclid(b), (q, r));
        chk!(l, "U256::overflowing_div_rem", args, a.overflowing_div_rem(b), (q, r, false));
        chk!(l, "U256::overflowing_div_rem_euclid", args, a.overflowing_div_rem_euclid(b), (q, r, false));
    }
    // ---- signed
    let (a, b) = (ia, ib);
    let args = &|| show2(a, b);
    let (za, zb) = (a.z(), b.z());
    if x == alpha::MIN && y == alpha::MAX {
        overflow(l, a, b);
        return;
    }
    l.at("I256::wrapping_div");
    let (mut zq, mut zr) = (a.wrapping_div(b).z(), a.wrapping_rem(b).z());
    let valid = zq.mul(zb).add(zr) == za && zr.abs().lt(zb.abs()) && (zr.is_zero() || zr.is_neg() == za.is_neg());
    if !valid {
        (zq, zr) = zdiv_trunc(za, zb);
    }
    // Euclidean quotient and remainder from the truncated ones.
    let (zqe, zre) = if zr.is_neg() {
        if zb.is_neg() {
            (zq.add(Z::ONE), zr.sub(zb))
        } else {
            (zq.sub(Z::ONE), zr.add(zb))
        }
    } else {
        (zq, zr)
    };
    let (q, r, qe, re) = (I256::wrap(zq), I256::wrap(zr), I256::wrap(zqe), I256::wrap(zre));
    chk!(l, "I256::wrapping_div", args, a.wrapping_div(b), q);
    chk!(l, "I256::wrapping_rem", args, a.wrapping_rem(b), r);
    chk!(l, "I256 / I256", args, a / b, q);
    chk!(l, "I256 % I256", args, a % b, r);
    chk!(l, "I256 /= I256", args, { let mut t = a; t /= b; t }, q);
    chk!(l, "I256 %= I256", args, { let mut t = a; t %= b; t }, r);
    chk!(l, "I256::checked_div", args, a.checked_div(b), Some(q));
    chk!(l, "I256::checked_rem", args, a.checked_rem(b), Some(r));
    chk!(l, "I256::saturating_div", args, a.saturating_div(b), q);
    chk!(l, "I256::overflowing_div", args, a.overflowing_div(b), (q, false));
    chk!(l, "I256::overflowing_rem", args, a.overflowing_rem(b), (r, false));
    chk!(l, "I256::div_euclid", args, a.div_euclid(b), qe);
    chk!(l, "I256::rem_euclid", args, a.rem_euclid(b), re);
    chk!(l, "I256::checked_div_euclid", args, a.checked_div_euclid(b), Some(qe));
    chk!(l, "I256::checked_rem_euclid", args, a.checked_rem_euclid(b), Some(re));
    chk!(l, "I256::wrapping_div_euclid", args, a.wrapping_div_euclid(b), qe);
    chk!(l, "I256::wrapping_rem_euclid", args, a.wrapping_rem_euclid(b), re);
    chk!(l, "I256::overflowing_div_euclid", args, a.overflowing_div_euclid(b), (qe, false));
    chk!(l, "I256::overflowing_rem_euclid", args, a.overflowing_rem_euclid(b), (re, false));
    chk!(l, "I256::div_rem", args, a.div_rem(b), (q, r));
    chk!(l, "I256::div_rem_euclid", args, a.div_rem_euclid(b), (qe, re));
    chk!(l, "I256::checked_div_rem", args, a.checked_div_rem(b), Some((q, r)));
    chk!(l, "I256::checked_div_rem_euclid", args, a.checked_div_rem_euclid(b), Some((qe, re)));
    chk!(l, "I256::saturating_div_rem", args, a.saturating_div_rem(b), (q, r));
    chk!(l, "I256::saturating_div_rem_euclid", args, a.saturating_div_rem_euclid(b), (qe, re));
    chk!(l, "I256::wrapping_div_rem", args, a.wrapping_div_rem(b), (q, r));
    chk!(l, "I256::wrapping_div_rem_euclid", args, a.wrapping_div_rem_euclid(b), (qe, re));
    chk!(l, "I256::overflowing_div_rem", args, a.overflowing_div_rem(b), (q, r, false));
    chk!(l, "I256::overflowing_div_rem_euclid", args, a.overflowing_div_rem_euclid(b), (qe, re, false));
    if zr.is_neg() {
        l.tag("Euclidean correction");
    }
    if y[2] | y[3] == 0 {
        l.tag("divisor in the low word");
    } else {
        l.tag("divisor in both words");
    }
    l.nontrivial(!zq.is_zero() && zq != Z::ONE && y[1] | y[2] | y[3] != 0);
}

/// Divisor zero.
fn zero(l: &mut L, u: U256, i: I256) {
    macro_rules! go {
        ($T:ident, $a:expr, $($m:ident)*; $($c:ident)*) => {{
            let a = $a;
            let zero = $T::of([0; 4]);
            let args = &|| show2(a, zero);
            $(
                l.at(concat!(stringify!($T), "::", stringify!($m)));
                let paniced = l.caught(|| a.$m(zero)).is_none();
                l.cmp(concat!(stringify!($T), "::", stringify!($m), " panics for divisor zero"), paniced, true, args);
            )*
            $(
                l.at(concat!(stringify!($T), "::", stringify!($c)));
                let none = a.$c(zero).is_none();
                l.cmp(concat!(stringify!($T), "::", stringify!($c), " is None for divisor zero"), none, true, args);
            )*
            l.cmp_panic(concat!(stringify!($T), " / 0"), || a / zero, None, args);
            l.cmp_panic(concat!(stringify!($T), " % 0"), || a % zero, None, args);
            l.cmp_panic(concat!(stringify!($T), " /= 0"), || { let mut t = a; t /= zero; t }, None, args);
            l.cmp_panic(concat!(stringify!($T), " %= 0"), || { let mut t = a; t %= zero; t }, None, args);
        }};
    }
    go!(U256, u,
        wrapping_div wrapping_rem saturating_div overflowing_div overflowing_rem div_euclid rem_euclid
        wrapping_div_euclid wrapping_rem_euclid overflowing_div_euclid overflowing_rem_euclid
        div_rem div_rem_euclid saturating_div_rem saturating_div_rem_euclid wrapping_div_rem wrapping_div_rem_euclid
        overflowing_div_rem overflowing_div_rem_euclid;
        checked_div checked_rem checked_div_euclid checked_rem_euclid checked_div_rem checked_div_rem_euclid);
    go!(I256, i,
        wrapping_div wrapping_rem saturating_div overflowing_div overflowing_rem div_euclid rem_euclid
        wrapping_div_euclid wrapping_rem_euclid overflowing_div_euclid overflowing_rem_euclid
        div_rem div_rem_euclid saturating_div_rem saturating_div_rem_euclid wrapping_div_rem wrapping_div_rem_euclid
        overflowing_div_rem overflowing_div_rem_euclid;
        checked_div checked_rem checked_div_euclid checked_rem_euclid checked_div_rem checked_div_rem_euclid);
    l.tag("zero divisor");
}

/// I256::MIN by -1.
fn overflow(l: &mut L, a: I256, b: I256) {
    let args = &|| show2(a, b);
    let (zero, max) = (I256::of([0; 4]), I256::of(alpha::not(alpha::MIN)));
    chk!(l, "I256::wrapping_div", args, a.wrapping_div(b), a);
    chk!(l, "I256::wrapping_rem", args, a.wrapping_rem(b), zero);
    chk!(l, "I256::checked_div", args, a.checked_div(b), None);
    chk!(l, "I256::checked_rem", args, a.checked_rem(b), None);
    chk!(l, "I256::saturating_div", args, a.saturating_div(b), max);
    chk!(l, "I256::overflowing_div", args, a.overflowing_div(b), (a, true));
    chk!(l, "I256::overflowing_rem", args, a.overflowing_rem(b), (zero, true));
    chk!(l, "I256::checked_div_euclid", args, a.checked_div_euclid(b), None);
    chk!(l, "I256::checked_rem_euclid", args, a.checked_rem_euclid(b), None);
    chk!(l, "I256::wrapping_div_euclid", args, a.wrapping_div_euclid(b), a);
    chk!(l, "I256::wrapping_rem_euclid", args, a.wrapping_rem_euclid(b), zero);
    chk!(l, "I256::overflowing_div_euclid", args, a.overflowing_div_euclid(b), (a, true));
    chk!(l, "I256::overflowing_rem_euclid", args, a.overflowing_rem_euclid(b), (zero, true));
    chk!(l, "I256::checked_div_rem", args, a.checked_div_rem(b), None);
    chk!(l, "I256::checked_div_rem_euclid", args, a.checked_div_rem_euclid(b), None);
    chk!(l, "I256::saturating_div_rem", args, a.saturating_div_rem(b), (max, zero));
    chk!(l, "I256::saturating_div_rem_euclid", args, a.saturating_div_rem_euclid(b), (max, zero));
    chk!(l, "I256::wrapping_div_rem", args, a.wrapping_div_rem(b), (a, zero));
    chk!(l, "I256::wrapping_div_rem_euclid", args, a.wrapping_div_rem_euclid(b), (a, zero));
    chk!(l, "I256::overflowing_div_rem", args, a.overflowing_div_rem(b), (a, zero, true));
    chk!(l, "I256::overflowing_div_rem_euclid", args, a.overflowing_div_rem_euclid(b), (a, zero, true));
    l.cmp_panic("I256::div_euclid", || a.div_euclid(b), None, args);
    l.cmp_panic("I256::rem_euclid", || a.rem_euclid(b), None, args);
    l.cmp_panic("I256 / I256", || a / b, None, args);
    l.cmp_panic("I256 % I256", || a % b, None, args);
    l.cmp_panic("I256 /= I256", || { let mut t = a; t /= b; t }, None, args);
    l.cmp_panic("I256 %= I256", || { let mut t = a; t %= b; t }, None, args);
    // The documentation of div_rem says it panics on overflow with debug
    // assertions; without them panicking and wrapping both fit it.
    if cfg!(debug_assertions) {
        l.cmp_panic("I256::div_rem", || a.div_rem(b), None, args);
        l.cmp_panic("I256::div_rem_euclid", || a.div_rem_euclid(b), None, args);
    } else {
        for (name, got) in [
            ("I256::div_rem", l.caught(|| a.div_rem(b))),
            ("I256::div_rem_euclid", l.caught(|| a.div_rem_euclid(b))),
        ] {
            if let Some(got) = got {
                l.cmp(name, got, (a, zero), args);
            }
        }
    }
    l.tag("MIN / -1");
}

fn spaces(env: &Env) -> Vec<Space> {
    let b = alpha::binary(env, if env.quick { 0 } else { 1 });
    let n = b.len();
    // Divisors and quotients for dividends built as q*d + r.  Edge limbs in
    // every position make the digit estimates of the long division wrong by
    // as much as they can be.
    let l4: &[u64] = if env.quick { &alpha::L7 } else { &alpha::L11 };
    let ds = alpha::union(vec![
        alpha::core(),
        alpha::limbs(l4),
        alpha::pows(&[-1, 0, 1]).into_iter().step_by(if env.quick { 3 } else { 1 }).collect(),
        alpha::dict(&env.dict, false),
    ]);
    // Quotients that leave room: at most 128 bits, edge limbs.
    let mut qs: Vec<V> = vec![];
    let e: Vec<u64> = if env.quick {
        vec![0, 1, 2, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, u64::MAX - 1, u64::MAX]
    } else {
        vec![0, 1, 2, 3, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 2, u64::MAX - 1, u64::MAX]
    };
    for &h in &e {
        for &lo in &e {
            qs.push([lo, h, 0, 0]);
        }
    }
    for &h in &e {
        qs.push([e[3], e[5], h, 0]);
        qs.push([u64::MAX, u64::MAX, h, 0]);
        qs.push([u64::MAX, u64::MAX, u64::MAX, h]);
        qs.push([0, 0, 0, h]);
        qs.push([h, 0, h, h]);
    }
    let qs = alpha::dedup(qs);
    let nq = qs.len();
    let rk = 5;
    let un = alpha::unary(env);
    let divs_small: Vec<V> = {
        let mut v: Vec<V> = (0..=40u64).map(|k| [k, 0, 0, 0]).collect();
        v.extend([97u64, 100, 1000, 10000, 65535, 65536, 0xffff_ffff, 1 << 32, (1 << 32) + 1, u64::MAX, 10_000_000_000_000_000_000].map(|k| [k, 0, 0, 0]));
        v.extend([alpha::pow2(64), alpha::pow2(65), alpha::addc(alpha::pow2(127), 1), alpha::addc(alpha::pow2(128), -1), alpha::pow2(128), alpha::addc(alpha::pow2(128), 1), alpha::pow2(192), alpha::pow2(254), alpha::MIN, alpha::addc(alpha::MIN, 1), alpha::not(alpha::MIN), alpha::MAX, alpha::addc(alpha::MAX, -1)]);
        let m: Vec<V> = v.iter().map(|x| alpha::neg(*x)).collect();
        v.extend(m);
        alpha::dedup(v)
    };
    let ns = divs_small.len();
    let lift = env.lift.clone();
    vec![
        space("model paths", "witnesses of every path of the scaled model (and every pair it fails on), each operand lifted to 256 bits in twelve ways", lift.len() * alpha::LIFTS * alpha::LIFTS, move |i, l| {
            let (x, y) = alpha::lifted(&lift, i);
            forms(l, x, y);
        }),
        space("pairs", "all ordered pairs (dividend, divisor) of the binary alphabet, zero divisors and MIN/-1 included", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            forms(l, b[p], b[q]);
        }),
        space("constructed", "dividends q*d+r (mod 2^256, both signs) for edge-limb divisors d, edge quotients q and r in {0, 1, d/2, d-2, d-1}", ds.len() * nq * rk, move |i, l| {
            let (p, k) = pair(i, nq * rk);
            let (q, k) = (qs[k / rk], k % rk);
            let d = Z::from_limbs(ds[p]);
            if d.is_zero() {
                return;
            }
            let r = match k {
                0 => Z::ZERO,
                1 => Z::ONE,
                2 => d.shr(1),
                3 => d.sub(Z::i(2)),
                _ => d.sub(Z::ONE),
            };
            let u = Z::from_limbs(q).mul(d).add(r).limbs();
            forms(l, u, ds[p]);
        }),
        space("everyday", "the unary alphabet divided by small and extreme divisors of both signs", un.len() * ns, move |i, l| {
            let (p, q) = pair(i, ns);
            if divs_small[q] == [0; 4] && p % 64 != 0 {
                return;
            }
            forms(l, un[p], divs_small[q]);
        }),
    ]
}

fn main() {
    mc::run::main("C03", spaces)
}
