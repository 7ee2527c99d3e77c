//! Alphabets: finite, deterministic sets of 256-bit patterns.

use crate::z::Z;
use std::collections::HashSet;

pub type V = [u64; 4];

pub const MAX: V = [u64::MAX; 4];
pub const MIN: V = [0, 0, 0, 1 << 63];

pub fn add(a: V, b: V) -> V {
    Z::from_limbs(a).add(Z::from_limbs(b)).limbs()
}
pub fn neg(a: V) -> V {
    Z::from_limbs(a).neg().limbs()
}
pub fn not(a: V) -> V {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn addc(a: V, c: i64) -> V {
    Z::from_limbs(a).add(Z::i(c as i128)).limbs()
}
pub fn pow2(k: u32) -> V {
    Z::pow2(k).limbs()
}
pub fn lo128(v: u128) -> V {
    [v as u64, (v >> 64) as u64, 0, 0]
}
pub fn hex(v: V) -> String {
    format!("0x{:016x}_{:016x}_{:016x}_{:016x}", v[3], v[2], v[1], v[0])
}

/// Order-preserving removal of duplicates.
pub fn dedup(v: Vec<V>) -> Vec<V> {
    let mut seen = HashSet::with_capacity(v.len());
    v.into_iter().filter(|x| seen.insert(*x)).collect()
}

/// The values everybody thinks of, simplest first (about 150).
pub fn core() -> Vec<V> {
    let mut r = vec![];
    for c in 0..=17u64 {
        r.push([c, 0, 0, 0]);
    }
    for c in [31u64, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 999, 1000, 9999, 10000, 10001, 99999] {
        r.push([c, 0, 0, 0]);
    }
    for k in [7, 8, 15, 16, 31, 32, 33, 53, 62, 63, 64, 65, 95, 96, 126, 127, 128, 129, 160, 190, 191, 192, 193, 224, 252, 253, 254, 255] {
        r.push(pow2(k));
        r.push(addc(pow2(k), -1));
        r.push(addc(pow2(k), 1));
    }
    r.push([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0]);
    r.push([0x5555_5555_5555_5555; 4]);
    r.push([0xaaaa_aaaa_aaaa_aaaa; 4]);
    r.push([0x0101_0101_0101_0101; 4]);
    r.push([0, 0, u64::MAX, 0]);
    r.push([u64::MAX, 0, 0, 0]);
    r.push([0, u64::MAX, 0, 0]);
    r.push([0, 0, 0, u64::MAX]);
    r.push([u64::MAX, u64::MAX, 0, 0]);
    r.push([0, 0, u64::MAX, u64::MAX]);
    r.push([1, 1, 1, 1]);
    r.push([0, 1, 0, 1]);
    let m: Vec<V> = r.iter().map(|x| neg(*x)).collect();
    r.extend(m);
    let m: Vec<V> = r.iter().take(20).map(|x| not(*x)).collect();
    r.extend(m);
    dedup(r)
}

/// Values without any structure (a fixed mixing of their index), of every bit
/// length that is a multiple of `step`, at the low end, shifted to the top,
/// and negated.
pub fn irregular(step: usize) -> Vec<V> {
    let mut state = 0x9e37_79b9_7f4a_7c15u64;
    let mut next = || {
        state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    };
    let mut r = vec![];
    for k in (1..=256u32).step_by(step) {
        let x = Z::from_limbs([next(), next(), next(), next() | 1 << 63]);
        let low = x.shr(256 - k);
        r.push(low.limbs());
        r.push(low.neg().limbs());
        r.push(low.shl(256 - k).limbs());
    }
    dedup(r)
}

/// +-2^i + c for all i.
pub fn pows(cs: &[i64]) -> Vec<V> {
    let mut r = vec![];
    for k in 0..256 {
        for &c in cs {
            r.push(addc(pow2(k), c));
            r.push(neg(addc(pow2(k), c)));
        }
    }
    dedup(r)
}

/// +-2^i +- 2^j.
pub fn two_bits() -> Vec<V> {
    let mut r = vec![];
    for i in 0..256 {
        for j in 0..i {
            let (a, b) = (pow2(i), pow2(j));
            for x in [add(a, b), add(a, neg(b))] {
                r.push(x);
                r.push(neg(x));
            }
        }
    }
    dedup(r)
}

/// Runs of ones from bit j up to bit i (exclusive), and their complements.
pub fn runs() -> Vec<V> {
    let mut r = vec![];
    for i in 1..=256u32 {
        for j in 0..i {
            let x = Z::pow2(i).sub(Z::pow2(j)).limbs();
            r.push(x);
            r.push(not(x));
        }
    }
    dedup(r)
}

/// The product of a set of limbs in all four positions.
pub fn limbs(set: &[u64]) -> Vec<V> {
    let mut r = vec![];
    for &d in set {
        for &c in set {
            for &b in set {
                for &a in set {
                    r.push([a, b, c, d]);
                }
            }
        }
    }
    dedup(r)
}

pub const L5: [u64; 5] = [0, 1, 1 << 63, u64::MAX, u64::MAX - 1];
pub const L7: [u64; 7] = [0, 1, 1 << 63, u64::MAX, u64::MAX - 1, (1 << 63) - 1, 0x0123_4567_89ab_cdef];
pub const L11: [u64; 11] = [
    0,
    1,
    2,
    1 << 32,
    (1 << 32) - 1,
    (1 << 63) - 1,
    1 << 63,
    (1 << 63) + 1,
    u64::MAX - 1,
    u64::MAX,
    0x0123_4567_89ab_cdef,
];

/// radix^k + c, and MAX / radix^k.
pub fn radix_pows(cs: &[i64]) -> Vec<V> {
    let mut r = vec![];
    for radix in 2..=36u64 {
        let mut x = Z::ONE;
        while x.fits_u() {
            for &c in cs {
                r.push(x.add(Z::i(c as i128)).limbs());
                r.push(x.add(Z::i(c as i128)).neg().limbs());
            }
            for m in [Z::from_limbs(MAX), Z::from_limbs(MIN), Z::from_limbs(not(MIN))] {
                r.push(m.divmod(x).0.limbs());
            }
            x = x.mul_small(radix);
        }
    }
    dedup(r)
}

/// Decimal shapes: d * 10^k for every digit, repdigits, and 10^k - c.
pub fn decimals() -> Vec<V> {
    let mut r = vec![];
    for d in 1..=9u64 {
        let (mut x, mut rep) = (Z::u(d as u128), Z::u(d as u128));
        while x.fits_u() {
            r.push(x.limbs());
            r.push(x.neg().limbs());
            if rep.fits_u() {
                r.push(rep.limbs());
                r.push(rep.neg().limbs());
            }
            x = x.mul_small(10);
            rep = rep.mul_small(10).add(Z::u(d as u128));
        }
    }
    for k in 1..78u32 {
        let mut x = Z::ONE;
        for _ in 0..k {
            x = x.mul_small(10);
        }
        for c in [1i128, 2, 9, 10, 11, 99, 100, 101, 9999, 10000] {
            for y in [x.sub(Z::i(c)), x.add(Z::i(c))] {
                r.push(y.limbs());
                r.push(y.neg().limbs());
            }
        }
    }
    dedup(r)
}

/// All values below n and their negatives.
pub fn small(n: u64) -> Vec<V> {
    let mut r = vec![];
    for i in 0..n {
        r.push([i, 0, 0, 0]);
        r.push(neg([i, 0, 0, 0]));
    }
    dedup(r)
}

/// Every byte value at every byte position, on an all-zero and an all-one
/// background.
pub fn bytes_at() -> Vec<V> {
    let mut r = vec![];
    for p in 0..32 {
        for b in 0..256u64 {
            let mut v = [0u64; 4];
            v[p / 8] = b << (8 * (p % 8));
            r.push(v);
            r.push(not(v));
        }
    }
    dedup(r)
}

/// MAX / d, MIN / d, 2^128 / d, ... around every divisor.
pub fn quotients(ds: &[V], cs: &[i64]) -> Vec<V> {
    let mut r = vec![];
    for d in ds {
        let d = Z::from_limbs(*d);
        if d.is_zero() {
            continue;
        }
        for n in [MAX, MIN, pow2(128), pow2(192)] {
            let q = Z::from_limbs(n).divmod(d).0;
            for &c in cs {
                r.push(q.add(Z::i(c as i128)).limbs());
            }
        }
    }
    dedup(r)
}

/// Integer square roots around powers of two (products near a boundary).
pub fn roots() -> Vec<V> {
    let mut r = vec![];
    for k in 1..=256u32 {
        for sub in 0..2 {
            let n = Z::pow2(k).sub(Z::i(sub));
            // Bitwise integer square root.
            let mut x = Z::ZERO;
            for b in (0..=128).rev() {
                let y = x.add(Z::pow2(b));
                if y.mul(y).le(n) {
                    x = y;
                }
            }
            for c in -1..=1 {
                let y = x.add(Z::i(c));
                r.push(y.limbs());
                r.push(y.neg().limbs());
            }
        }
    }
    dedup(r)
}

/// Values derived from the integer literals of the sources.
pub fn dict(lits: &[V], wide: bool) -> Vec<V> {
    let mut r = vec![];
    for &x in lits {
        for c in if wide { -2..=2 } else { -1..=1i64 } {
            let y = addc(x, c);
            r.push(y);
            r.push(neg(y));
            // The same pattern in the other word, in both words, and as a
            // value relative to the extremes.
            if x[2] == 0 && x[3] == 0 {
                let h = [0, 0, y[0], y[1]];
                r.push(h);
                r.push(not(h));
                r.push([y[0], y[1], y[0], y[1]]);
                if wide {
                    r.push([1, 0, y[0], y[1]]);
                    r.push([y[0], y[1], 1, 0]);
                    r.push([u64::MAX, u64::MAX, y[0], y[1]]);
                    r.push([y[0], y[1], u64::MAX, u64::MAX]);
                    r.push(add(MIN, y));
                }
            }
        }
    }
    // Two literals side by side in the two words.
    let two: Vec<V> = lits.iter().copied().filter(|x| x[2] == 0 && x[3] == 0 && (x[1] != 0 || x[0] > if wide { 9 } else { 256 })).collect();
    for &a in &two {
        for &b in &two {
            r.push([b[0], b[1], a[0], a[1]]);
            if wide && a[1] == 0 && b[1] == 0 {
                r.push([b[0], a[0], 0, 0]);
            }
        }
    }
    dedup(r)
}

pub fn union(parts: Vec<Vec<V>>) -> Vec<V> {
    dedup(parts.into_iter().flatten().collect())
}

/// The big alphabet for operations of one operand.
pub fn unary(env: &crate::run::Env) -> Vec<V> {
    let mut parts = vec![
        core(),
        dict(&env.dict, true),
        pows(&[-2, -1, 0, 1, 2]),
        limbs(&L7),
        radix_pows(&[-1, 0, 1]),
        decimals(),
        small(if env.quick { 20_000 } else { 1 << 18 }),
        bytes_at(),
        roots(),
        irregular(1),
    ];
    if env.quick {
        parts.push(runs());
        parts.push(two_bits().into_iter().collect());
    } else {
        parts.push(runs());
        parts.push(two_bits());
        parts.push(limbs(&L11));
    }
    union(parts)
}

/// The alphabet for both operands of a binary operation, in growing sizes
/// (about 1.5k, 6k and 25k values).
pub fn binary(env: &crate::run::Env, size: u32) -> Vec<V> {
    let mut parts = vec![core(), dict(&env.dict, false), limbs(&L5), irregular([16, 5, 1][size.min(2) as usize])];
    parts.push(pows(&[0]));
    if size == 0 {
        parts.push(pows(&[-1]).into_iter().step_by(3).collect());
    }
    if size >= 1 {
        parts.push(pows(&[-1, 1]));
        parts.push(limbs(&L7));
        parts.push(radix_pows(&[0]).into_iter().step_by(3).collect());
        parts.push(roots().into_iter().step_by(2).collect());
    }
    if size >= 2 {
        parts.push(dict(&env.dict, true));
        parts.push(limbs(&L11));
        parts.push(radix_pows(&[0]));
        parts.push(roots());
    }
    union(parts)
}

/// The ways a 16-bit number of the scaled model stands for a 256-bit one.
pub const LIFTS: usize = 12;

/// Its four nibbles are the four limbs, its two bytes the two words, or it is
/// the number, or its top, itself.
pub fn lift(x: u16, how: usize) -> V {
    let nib = |f: &dyn Fn(u64) -> u64| -> V { std::array::from_fn(|i| f((x >> (4 * i) & 15) as u64)) };
    let word = |f: &dyn Fn(u128) -> u128| -> V {
        let (lo, hi) = (f((x & 255) as u128), f((x >> 8) as u128));
        [lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64]
    };
    let fill64 = |n: u64, k: u32| (n << k) | if n & 1 == 1 { (1 << k) - 1 } else { 0 };
    match how {
        0 => nib(&|n| if n < 8 { n } else { n.wrapping_sub(16) }),
        1 => nib(&|n| n << 60),
        2 => nib(&|n| fill64(n, 60)),
        3 => nib(&|n| n * 0x1111_1111_1111_1111),
        4 => nib(&|n| (n >> 2) << 62 | (n & 3) | if n & 2 == 2 { ((1 << 62) - 1) & !3 } else { 0 }),
        5 => word(&|w| if w < 128 { w } else { w.wrapping_sub(256) }),
        6 => word(&|w| w << 120),
        7 => word(&|w| (w << 120) | if w & 1 == 1 { (1 << 120) - 1 } else { 0 }),
        8 => word(&|w| (w >> 4) << 124 | (w & 15)),
        9 => Z::i(x as i16 as i128).limbs(),
        10 => Z::u(x as u128).shl(240).limbs(),
        _ => {
            let z = Z::u(x as u128).shl(240);
            if x & 1 == 1 { z.add(Z::pow2(240)).sub(Z::ONE).limbs() } else { z.limbs() }
        }
    }
}

/// The i-th pair of lifted operands, of `lifts(env)`.
pub fn lifted(pairs: &[(u16, u16)], i: u64) -> (V, V) {
    let n = LIFTS as u64;
    let (a, b) = pairs[(i / (n * n)) as usize];
    (lift(a, (i / n % n) as usize), lift(b, (i % n) as usize))
}
