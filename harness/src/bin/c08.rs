//! C08: equality, ordering and hashing.
use mc::alpha::{self, V};
use mc::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records everything a value feeds to a hasher.
#[derive(Default, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xfe);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}

macro_rules! ints {
    ($l:ident, $T:ident, $x:expr, $y:expr) => {{
        let l: &mut L = $l;
        let (a, b) = ($T::of($x), $T::of($y));
        let args = &|| show2(a, b);
        let o = a.z().cmp(b.z());
        chk!(l, concat!(stringify!($T), "::cmp"), args, a.cmp(&b), o);
        chk!(l, concat!(stringify!($T), "::partial_cmp"), args, a.partial_cmp(&b), Some(o));
        chk!(l, concat!(stringify!($T), " =="), args, a == b, o == Ordering::Equal);
        chk!(l, concat!(stringify!($T), " !="), args, a != b, o != Ordering::Equal);
        chk!(l, concat!(stringify!($T), " <"), args, a < b, o == Ordering::Less);
        chk!(l, concat!(stringify!($T), " <="), args, a <= b, o != Ordering::Greater);
        chk!(l, concat!(stringify!($T), " >"), args, a > b, o == Ordering::Greater);
        chk!(l, concat!(stringify!($T), " >="), args, a >= b, o != Ordering::Less);
        let (lo, hi) = if o == Ordering::Greater { (b, a) } else { (a, b) };
        chk!(l, concat!(stringify!($T), "::min"), args, a.min(b), lo);
        chk!(l, concat!(stringify!($T), "::max"), args, a.max(b), hi);
    }};
}

macro_rules! prims {
    ($l:ident, $T:ident, $P:ident, $ctor:expr, $x:expr, $y:expr) => {{
        let l: &mut L = $l;
        let a = $T::of($x);
        let p = (($y[1] as u128) << 64 | $y[0] as u128) as $P;
        let args = &|| format!("{} p={}", show1(a), p);
        let o = a.z().cmp($ctor(p));
        let r = o.reverse();
        const N: &str = concat!(stringify!($T), " vs ", stringify!($P));
        const M: &str = concat!(stringify!($P), " vs ", stringify!($T));
        chk!(l, N, args, (a == p, a != p), (o == Ordering::Equal, o != Ordering::Equal));
        chk!(l, N, args, (a < p, a <= p), (o == Ordering::Less, o != Ordering::Greater));
        chk!(l, N, args, (a > p, a >= p), (o == Ordering::Greater, o != Ordering::Less));
        chk!(l, N, args, a.partial_cmp(&p), Some(o));
        chk!(l, M, args, (p == a, p != a), (o == Ordering::Equal, o != Ordering::Equal));
        chk!(l, M, args, (p < a, p <= a), (r == Ordering::Less, r != Ordering::Greater));
        chk!(l, M, args, (p > a, p >= a), (r == Ordering::Greater, r != Ordering::Less));
        chk!(l, M, args, p.partial_cmp(&a), Some(r));
    }};
}

/// Equal values reached in different ways must hash alike.
fn hashes(l: &mut L, v: V, w: V) {
    macro_rules! go {
        ($T:ident) => {{
            let a = $T::of(v);
            let d = $T::of(w);
            let args = &|| show2(a, d);
            let h = fed(&a);
            let b = a.wrapping_add(d).wrapping_sub(d);
            chk!(l, concat!(stringify!($T), " hash after add and sub"), args, fed(&b), h.clone());
            let b = (a ^ d) ^ d;
            chk!(l, concat!(stringify!($T), " hash after xor"), args, fed(&b), h.clone());
            let b = a.swap_bytes().swap_bytes();
            chk!(l, concat!(stringify!($T), " hash after swap_bytes"), args, fed(&b), h.clone());
            let b = $T::from_be_bytes(a.to_be_bytes());
            chk!(l, concat!(stringify!($T), " hash after bytes"), args, fed(&b), h.clone());
            let b = !!a.rotate_left(77).rotate_right(77);
            chk!(l, concat!(stringify!($T), " hash after rotations"), args, fed(&b), h.clone());
            // Any two values: equal values hash alike.
            if a.z() == d.z() {
                chk!(l, concat!(stringify!($T), " hash"), args, fed(&d), h);
            } else {
                chk!(l, concat!(stringify!($T), " hash of different values"), args, fed(&d) == h, false);
            }
        }};
    }
    go!(U256);
    go!(I256);
}

/// A value and itself, not a copy of it.
#[allow(clippy::eq_op)]
fn selves(l: &mut L, v: V) {
    macro_rules! go {
        ($T:ident) => {{
            let a = &$T::of(v);
            let args = &|| show1(*a);
            const N: &str = concat!(stringify!($T), " and itself");
            chk!(l, N, args, (a.cmp(a), a.partial_cmp(a)), (Ordering::Equal, Some(Ordering::Equal)));
            chk!(l, N, args, (a == a, a <= a), (true, true));
            chk!(l, N, args, (a >= a, a != a), (true, false));
            chk!(l, N, args, (a < a, a > a), (false, false));
            chk!(l, N, args, *a.min(a), *a);
            chk!(l, N, args, *a.max(a), *a);
            chk!(l, N, args, *a.clamp(a, a), *a);
            // Slices compare and hash by their elements.
            let (x, y) = ([*a, $T::ZERO, *a], [*a, $T::ONE, *a]);
            chk!(l, concat!(stringify!($T), " slices"), args, (x.cmp(&y), x == y), (Ordering::Less, false));
            let (mut h, mut k) = (Rec::default(), Rec::default());
            Hash::hash_slice(&x, &mut h);
            for e in &x {
                e.hash(&mut k);
            }
            chk!(l, concat!(stringify!($T), " hash_slice"), args, h.0, k.0);
        }};
    }
    go!(U256);
    go!(I256);
}

fn clamps(l: &mut L, x: V, y: V, z: V) {
    macro_rules! go {
        ($T:ident) => {{
            let (a, b, c) = ($T::of(x), $T::of(y), $T::of(z));
            let args = &|| format!("{} c={}", show2(a, b), alpha::hex(z));
            if b.z().le(c.z()) {
                let want = if a.z().lt(b.z()) { b } else if c.z().lt(a.z()) { c } else { a };
                chk!(l, concat!(stringify!($T), "::clamp"), args, a.clamp(b, c), want);
            }
            // Sorting three values.
            let mut v = [a, b, c];
            v.sort();
            let ok = v[0].z().le(v[1].z()) && v[1].z().le(v[2].z());
            chk!(l, concat!(stringify!($T), " sort"), args, ok, true);
        }};
    }
    go!(U256);
    go!(I256);
}

fn spaces(env: &Env) -> Vec<Space> {
    let b = alpha::binary(env, if env.quick { 1 } else { 2 });
    let n = b.len();
    let b2 = b.clone();
    let mut lows: Vec<V> = vec![];
    for v in alpha::binary(env, if env.quick { 0 } else { 1 }) {
        lows.push([v[0], v[1], 0, 0]);
        lows.push([v[2], v[3], 0, 0]);
    }
    let lows = alpha::dedup(lows);
    let nl = lows.len();
    let near = alpha::unary(env);
    let nn = near.len();
    let c = alpha::union(vec![alpha::core(), alpha::limbs(&[0, 1, u64::MAX])]);
    let nc = c.len();
    let (hs, near2) = (near.clone(), near.clone());
    let hd: Vec<V> = vec![[0; 4], [1, 0, 0, 0], [1, 1, 1, 1], alpha::MIN, alpha::MAX];
    vec![
        space("pairs", "all ordered pairs of the binary alphabet under every comparison", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            ints!(l, U256, b[p], b[q]);
            ints!(l, I256, b[p], b[q]);
            l.nontrivial(p != q);
        }),
        space("neighbours", "values of the unary alphabet against themselves changed by one unit or one bit", nn * 40, move |i, l| {
            let (p, k) = pair(i, 40);
            let v = near[p];
            let w = match k {
                0 => v,
                1 => alpha::addc(v, 1),
                2 => alpha::addc(v, -1),
                3 => alpha::neg(v),
                4 => alpha::not(v),
                5 => [v[2], v[3], v[0], v[1]],
                6 => [v[1], v[0], v[3], v[2]],
                7 => [v[3], v[2], v[1], v[0]],
                k => {
                    // One bit in every group of eight, plus word edges.
                    let bit = ((k - 8) * 8 + p) % 256;
                    let mut w = v;
                    w[bit / 64] ^= 1 << (bit % 64);
                    w
                }
            };
            ints!(l, U256, v, w);
            ints!(l, I256, v, w);
            l.nontrivial(true);
        }),
        space("primitives", "the binary alphabet against u128/i128 values on either side", b2.len() * nl, move |i, l| {
            let (p, q) = pair(i, nl);
            prims!(l, U256, u128, Z::u, b2[p], lows[q]);
            prims!(l, I256, i128, Z::i, b2[p], lows[q]);
            l.nontrivial(true);
        }),
        space("one operand", "every value compared with itself, the same object on both sides, and slices of values", near2.len(), move |i, l| {
            selves(l, near2[i as usize]);
            l.nontrivial(near2[i as usize] != [0; 4]);
        }),
        space("hash", "what values feed to a hasher, reached by different routes", hs.len() * hd.len(), move |i, l| {
            let (p, q) = pair(i, hd.len());
            hashes(l, hs[p], hd[q]);
            l.nontrivial(true);
        }),
        space("clamp", "clamp and sort on all triples of core values", if env.quick { nc * nc * 40 } else { nc * nc * nc }, move |i, l| {
            let (p, q) = pair(i, nc * nc);
            let p = if p < 40 { (p * 7) % nc } else { p };
            clamps(l, c[q / nc], c[q % nc], c[p]);
            l.nontrivial(true);
        }),
    ]
}

fn main() {
    mc::run::main("C08", spaces)
}
