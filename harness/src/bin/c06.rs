//! C06: bit counts, bit permutations, powers of two, bitwise operators.
use mc::alpha::{self, V};
use mc::*;

// The model works on an array of 256 bits.
fn bits(v: V) -> [bool; 256] {
    let mut b = [false; 256];
    for k in 0..256 {
        b[k] = v[k / 64] >> (k % 64) & 1 == 1;
    }
    b
}
fn lead(b: &[bool; 256], x: bool) -> u32 {
    b.iter().rev().take_while(|y| **y == x).count() as u32
}
fn trail(b: &[bool; 256], x: bool) -> u32 {
    b.iter().take_while(|y| **y == x).count() as u32
}
fn rev_bits(v: V) -> V {
    let mut r = [0u64; 4];
    for k in 0..256 {
        if v[k / 64] >> (k % 64) & 1 == 1 {
            let j = 255 - k;
            r[j / 64] |= 1 << (j % 64);
        }
    }
    r
}
fn rev_bytes(v: V) -> V {
    let mut r = [0u64; 4];
    for k in 0..32 {
        let byte = v[k / 8] >> (8 * (k % 8)) & 0xff;
        let j = 31 - k;
        r[j / 8] |= byte << (8 * (j % 8));
    }
    r
}

fn un(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let b = bits(v);
    let ones = b.iter().filter(|x| **x).count() as u32;
    let (lz, lo, tz, to) = (lead(&b, false), lead(&b, true), trail(&b, false), trail(&b, true));
    let (rb, ry) = (rev_bits(v), rev_bytes(v));
    let au = &|| show1(u);
    let ai = &|| show1(i);
    macro_rules! both {
        ($($name:ident => $want:expr),* $(,)?) => {$(
            chk!(l, concat!("U256::", stringify!($name)), au, u.$name(), $want);
            chk!(l, concat!("I256::", stringify!($name)), ai, i.$name(), $want);
        )*};
    }
    both! {
        count_ones => ones, count_zeros => 256 - ones,
        leading_zeros => lz, leading_ones => lo, trailing_zeros => tz, trailing_ones => to,
    }
    chk!(l, "U256::swap_bytes", au, u.swap_bytes(), U256::of(ry));
    chk!(l, "I256::swap_bytes", ai, i.swap_bytes(), I256::of(ry));
    chk!(l, "U256::reverse_bits", au, u.reverse_bits(), U256::of(rb));
    chk!(l, "I256::reverse_bits", ai, i.reverse_bits(), I256::of(rb));
    chk!(l, "!U256", au, !u, U256::of(alpha::not(v)));
    chk!(l, "!&U256", au, !&u, U256::of(alpha::not(v)));
    chk!(l, "!I256", ai, !i, I256::of(alpha::not(v)));
    chk!(l, "!&I256", ai, !&i, I256::of(alpha::not(v)));
    let p2 = ones == 1;
    chk!(l, "U256::is_power_of_two", au, u.is_power_of_two(), p2);
    // Smallest power of two that is at least the value.
    let next = if p2 { Z::from_limbs(v) } else { Z::pow2(256 - lz) };
    chk!(l, "U256::checked_next_power_of_two", au, u.checked_next_power_of_two(), U256::chk(next));
    if U256::fits(next) || !cfg!(debug_assertions) {
        chk!(l, "U256::next_power_of_two", au, u.next_power_of_two(), U256::wrap(next));
    } else {
        l.cmp_panic("U256::next_power_of_two", || u.next_power_of_two(), None, au);
        l.tag("next power of two overflows");
    }
    l.nontrivial(v[1] | v[2] | v[3] != 0 && v != alpha::MAX);
}

fn two(l: &mut L, x: V, y: V) {
    let (a, b) = (U256::of(x), U256::of(y));
    let (c, d) = (I256::of(x), I256::of(y));
    let f = |g: fn(u64, u64) -> u64| [g(x[0], y[0]), g(x[1], y[1]), g(x[2], y[2]), g(x[3], y[3])];
    let (and, or, xor) = (f(|a, b| a & b), f(|a, b| a | b), f(|a, b| a ^ b));
    let s = &|| show2(a, b);
    chk!(l, "U256 & U256", s, a & b, U256::of(and));
    chk!(l, "U256 | U256", s, a | b, U256::of(or));
    chk!(l, "U256 ^ U256", s, a ^ b, U256::of(xor));
    chk!(l, "U256 &= U256", s, { let mut t = a; t &= b; t }, U256::of(and));
    chk!(l, "U256 |= U256", s, { let mut t = a; t |= b; t }, U256::of(or));
    chk!(l, "U256 ^= U256", s, { let mut t = a; t ^= b; t }, U256::of(xor));
    let s = &|| show2(c, d);
    chk!(l, "I256 & I256", s, c & d, I256::of(and));
    chk!(l, "I256 | I256", s, c | d, I256::of(or));
    chk!(l, "I256 ^ I256", s, c ^ d, I256::of(xor));
    chk!(l, "I256 &= I256", s, { let mut t = c; t &= d; t }, I256::of(and));
    chk!(l, "I256 |= I256", s, { let mut t = c; t |= d; t }, I256::of(or));
    chk!(l, "I256 ^= I256", s, { let mut t = c; t ^= d; t }, I256::of(xor));
    l.nontrivial(x != y && and != [0; 4]);
}

fn spaces(env: &Env) -> Vec<Space> {
    let u = alpha::union(vec![alpha::unary(env), alpha::two_bits(), alpha::runs(), alpha::bytes_at()]);
    let b = alpha::binary(env, if env.quick { 0 } else { 1 });
    let n = b.len();
    // Three bits: every triple of positions (thorough), or every third.
    let step = if env.quick { 5 } else { 1 };
    let mut triples: Vec<(u8, u8, u8)> = vec![];
    let mut k = 0;
    for i in 0..=255u8 {
        for j in 0..i {
            for m in 0..j {
                k += 1;
                if k % step == 0 {
                    triples.push((i, j, m));
                }
            }
        }
    }
    let pairs_of_bytes: usize = 32 * 31 / 2;
    let pool: Vec<u64> = if env.quick { vec![0x01, 0x80, 0xff, 0x12] } else { vec![0x01, 0x02, 0x10, 0x80, 0xff, 0x12, 0xa5, 0x7f, 0xfe] };
    let np = pool.len();
    vec![
        space("unary", "all queries on the unary alphabet, all runs of ones, all one- and two-bit patterns, every byte at every position", u.len(), move |i, l| un(l, u[i as usize])),
        space("three bits", "all queries on three-bit patterns and their complements", triples.len(), move |i, l| {
            let (a, b, c) = triples[i as usize];
            let v = alpha::add(alpha::add(alpha::pow2(a as u32), alpha::pow2(b as u32)), alpha::pow2(c as u32));
            un(l, v);
            un(l, alpha::not(v));
        }),
        space("two bytes", "all queries on patterns with two non-zero bytes at all pairs of positions", pairs_of_bytes * np * np, move |i, l| {
            let (p, q) = pair(i, np * np);
            let (mut hi, mut r) = (1usize, p);
            while r >= hi {
                r -= hi;
                hi += 1;
            }
            let (x, y) = (pool[q / np], pool[q % np]);
            let mut v = [0u64; 4];
            v[hi / 8] |= x << (8 * (hi % 8));
            v[r / 8] |= y << (8 * (r % 8));
            un(l, v);
        }),
        space("pairs", "bitwise operators on all ordered pairs of the binary alphabet", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            two(l, b[p], b[q]);
        }),
    ]
}

fn main() {
    mc::run::main("C06", spaces)
}
