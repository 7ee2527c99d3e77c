//! C05: shifts and rotations.
use mc::alpha::{self, V};
use mc::*;

fn shl(v: V, n: u32) -> V {
    Z::from_limbs(v).shl(n).limbs()
}
fn shr(v: V, n: u32) -> V {
    Z::from_limbs(v).shr(n).limbs()
}
fn sar(v: V, n: u32) -> V {
    Z::from_limbs_signed(v).shr(n).limbs()
}
fn or(a: V, b: V) -> V {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
fn rotl(v: V, n: u32) -> V {
    let n = n % 256;
    if n == 0 {
        v
    } else {
        or(shl(v, n), shr(v, 256 - n))
    }
}

fn one(l: &mut L, v: V, n: u32) {
    let (u, i) = (U256::of(v), I256::of(v));
    let m = n % 256;
    let big = n >= 256;
    let (sl, sr, sa) = (shl(v, m), shr(v, m), sar(v, m));
    let (rl, rr) = (rotl(v, n), rotl(v, (256 - m) % 256));
    {
        let a = &|| format!("{} n={}", show1(u), n);
        let (sl, sr, rl, rr) = (U256::of(sl), U256::of(sr), U256::of(rl), U256::of(rr));
        chk!(l, "U256::wrapping_shl", a, u.wrapping_shl(n), sl);
        chk!(l, "U256::wrapping_shr", a, u.wrapping_shr(n), sr);
        chk!(l, "U256::overflowing_shl", a, u.overflowing_shl(n), (sl, big));
        chk!(l, "U256::overflowing_shr", a, u.overflowing_shr(n), (sr, big));
        chk!(l, "U256::checked_shl", a, u.checked_shl(n), if big { None } else { Some(sl) });
        chk!(l, "U256::checked_shr", a, u.checked_shr(n), if big { None } else { Some(sr) });
        chk!(l, "U256::rotate_left", a, u.rotate_left(n), rl);
        chk!(l, "U256::rotate_right", a, u.rotate_right(n), rr);
        if !big || !cfg!(debug_assertions) {
            chk!(l, "U256 << u32", a, u << n, sl);
            chk!(l, "U256 >> u32", a, u >> n, sr);
            chk!(l, "U256 <<= u32", a, { let mut t = u; t <<= n; t }, sl);
            chk!(l, "U256 >>= u32", a, { let mut t = u; t >>= n; t }, sr);
        }
    }
    {
        let a = &|| format!("{} n={}", show1(i), n);
        let (sl, sr, rl, rr) = (I256::of(sl), I256::of(sa), I256::of(rl), I256::of(rr));
        chk!(l, "I256::wrapping_shl", a, i.wrapping_shl(n), sl);
        chk!(l, "I256::wrapping_shr", a, i.wrapping_shr(n), sr);
        chk!(l, "I256::overflowing_shl", a, i.overflowing_shl(n), (sl, big));
        chk!(l, "I256::overflowing_shr", a, i.overflowing_shr(n), (sr, big));
        chk!(l, "I256::checked_shl", a, i.checked_shl(n), if big { None } else { Some(sl) });
        chk!(l, "I256::checked_shr", a, i.checked_shr(n), if big { None } else { Some(sr) });
        chk!(l, "I256::rotate_left", a, i.rotate_left(n), rl);
        chk!(l, "I256::rotate_right", a, i.rotate_right(n), rr);
        if !big || !cfg!(debug_assertions) {
            chk!(l, "I256 << u32", a, i << n, sl);
            chk!(l, "I256 >> u32", a, i >> n, sr);
            chk!(l, "I256 <<= u32", a, { let mut t = i; t <<= n; t }, sl);
            chk!(l, "I256 >>= u32", a, { let mut t = i; t >>= n; t }, sr);
        }
    }
    if big {
        l.tag("amount of 256 or more");
    } else if n >= 128 {
        l.tag("amount of 128 to 255");
    } else {
        l.tag("amount below 128");
    }
}

/// Operators with an excessive amount, checked for the panic.
fn excess(l: &mut L, v: V, n: u32) {
    let (u, i) = (U256::of(v), I256::of(v));
    let a = &|| format!("{} n={}", show1(u), n);
    let d = cfg!(debug_assertions);
    let m = n % 256;
    let w = |x: V| if d { None } else { Some(U256::of(x)) };
    let wi = |x: V| if d { None } else { Some(I256::of(x)) };
    l.cmp_panic("U256 << u32", || u << n, w(shl(v, m)), a);
    l.cmp_panic("U256 >> u32", || u >> n, w(shr(v, m)), a);
    l.cmp_panic("I256 << u32", || i << n, wi(shl(v, m)), a);
    l.cmp_panic("I256 >> u32", || i >> n, wi(sar(v, m)), a);
    l.cmp_panic("U256 <<= u32", || { let mut t = u; t <<= n; t }, w(shl(v, m)), a);
    l.cmp_panic("U256 >>= u32", || { let mut t = u; t >>= n; t }, w(shr(v, m)), a);
    l.cmp_panic("I256 <<= u32", || { let mut t = i; t <<= n; t }, wi(shl(v, m)), a);
    l.cmp_panic("I256 >>= u32", || { let mut t = i; t >>= n; t }, wi(sar(v, m)), a);
}

fn spaces(env: &Env) -> Vec<Space> {
    let vals = alpha::unary(env);
    let nv = vals.len();
    let some = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::limbs(&alpha::L5)]);
    let ns = some.len();
    let mut high: Vec<u32> = (256..=1024).collect();
    for k in 10..32 {
        for c in [-1i64, 0, 1, 127, 128, 129, 255] {
            high.push(((1i64 << k) + c) as u32);
        }
    }
    for c in 0..=257 {
        high.push(u32::MAX - c);
        high.push(0x8000_0000 + c);
        high.push(0x0001_0000 * (c + 1));
        high.push(0x0100_0000 + c);
    }
    // The shift amounts of the dictionary.
    for d in &env.dict {
        if d[1] | d[2] | d[3] == 0 && d[0] <= u32::MAX as u64 {
            high.push(d[0] as u32);
            high.push((d[0] as u32).wrapping_add(256));
        }
    }
    high.retain(|n| *n >= 256);
    high.sort();
    high.dedup();
    let nh = high.len();
    let few: Vec<V> = vec![[1, 0, 0, 0], alpha::MIN, alpha::MAX, [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0]];
    let high2 = high.clone();
    let lift = env.lift.clone();
    vec![
        space("model paths", "witnesses of every path of the scaled model (and every pair it fails on): the value lifted to 256 bits in twelve ways, the amount to the sixteen amounts it stands for", lift.len() * alpha::LIFTS * 16, move |i, l| {
            let (k, n) = pair(i, alpha::LIFTS * 16);
            let (v, b) = lift[k];
            one(l, alpha::lift(v, n / 16), 16 * (b as u32 & 15) + n as u32 % 16);
        }),
        space("in range", "every value of the alphabet shifted and rotated by every amount 0..=255", nv * 256, move |i, l| {
            let (n, v) = pair(i, nv);
            one(l, vals[v], n as u32);
            l.nontrivial(n > 0 && vals[v] != [0; 4]);
        }),
        space("out of range", "core values by every amount 256..=1024, and amounts around powers of two up to 2^32-1", ns * nh, move |i, l| {
            let (n, v) = pair(i, ns);
            one(l, some[v], high[n]);
            l.nontrivial(some[v] != [0; 4]);
        }),
        space("operators out of range", "operators with amounts of 256 and more: a panic in debug, masked in release", few.len() * nh, move |i, l| {
            let (n, v) = pair(i, few.len());
            excess(l, few[v], high2[n]);
            l.nontrivial(true);
        }),
    ]
}

fn main() {
    mc::run::main("C05", spaces)
}
