//! C07: every operator trait implementation, against the operation it names.
use mc::alpha::{self, V};
use mc::*;

const DEBUG: bool = cfg!(debug_assertions);

trait Prim: Copy + 'static {
    fn of(v: V) -> Self;
    fn z(self) -> Z;
}
impl Prim for u128 {
    fn of(v: V) -> u128 {
        (v[1] as u128) << 64 | v[0] as u128
    }
    fn z(self) -> Z {
        Z::u(self)
    }
}
impl Prim for i128 {
    fn of(v: V) -> i128 {
        u128::of(v) as i128
    }
    fn z(self) -> Z {
        Z::i(self)
    }
}

/// The outcome of an arithmetic operator: None is a panic.
fn arith<T: Int>(op: u8, a: Z, b: Z) -> Option<T> {
    let over = |z: Z| if T::fits(z) || !DEBUG { Some(T::wrap(z)) } else { None };
    match op {
        b'+' => over(a.add(b)),
        b'-' => over(a.sub(b)),
        b'*' => over(a.mul(b)),
        b'/' | b'%' => {
            if b.is_zero() {
                return None;
            }
            let (q, r) = zdiv_trunc(a, b);
            if !T::fits(q) {
                return None;
            }
            Some(T::wrap(if op == b'/' { q } else { r }))
        }
        _ => {
            let (x, y) = (a.limbs(), b.limbs());
            let f = |g: fn(u64, u64) -> u64| [g(x[0], y[0]), g(x[1], y[1]), g(x[2], y[2]), g(x[3], y[3])];
            Some(T::of(match op {
                b'&' => f(|a, b| a & b),
                b'|' => f(|a, b| a | b),
                _ => f(|a, b| a ^ b),
            }))
        }
    }
}

macro_rules! forms {
    ($l:ident, $T:ident, $P:ident, $x:tt, $xa:tt, $b:expr, $va:expr, $vb:expr) => {{
        let l: &mut L = $l;
        let (a, b) = ($T::of($va), $T::of($vb));
        let args = &|| show2(a, b);
        let want = arith::<$T>($b, a.z(), b.z());
        macro_rules! go {
            ($name:expr, $e:expr) => {
                l.cmp_panic(concat!($name, " [", stringify!($x), " ", stringify!($T), "]"), || $e, want, args)
            };
        }
        go!("val op val", a $x b);
        go!("val op ref", a $x &b);
        go!("ref op val", &a $x b);
        go!("ref op ref", &a $x &b);
        go!("assign val", { let mut t = a; t $xa b; t });
        go!("assign ref", { let mut t = a; t $xa &b; t });
        if want.is_none() {
            l.tag("panic expected");
        }
    }};
}

/// The same object on both sides.
macro_rules! self_forms {
    ($l:ident, $T:ident, $P:ident, $x:tt, $xa:tt, $b:expr, $va:expr, $vb:expr) => {{
        let l: &mut L = $l;
        let a = &$T::of($va);
        let want = arith::<$T>($b, a.z(), a.z());
        l.cmp_panic(concat!("operand and itself [", stringify!($x), " ", stringify!($T), "]"), || std::hint::black_box(a) $x std::hint::black_box(a), want, &|| show1(*a));
        l.cmp_panic(concat!("operand and itself, assigned [", stringify!($x), " ", stringify!($T), "]"), || { let mut t = *a; t $xa a; t }, want, &|| show1(*a));
    }};
}

macro_rules! prim_forms {
    ($l:ident, $T:ident, $P:ident, $x:tt, $xa:tt, $b:expr, $va:expr, $vb:expr) => {{
        let l: &mut L = $l;
        let (a, p) = ($T::of($va), <$P as Prim>::of($vb));
        let args = &|| format!("{} p={}{}", show1(a), p, stringify!($P));
        let want = arith::<$T>($b, a.z(), Prim::z(p));
        let back = arith::<$T>($b, Prim::z(p), a.z());
        macro_rules! go {
            ($want:expr, $name:expr, $e:expr) => {
                l.cmp_panic(concat!($name, " [", stringify!($x), " ", stringify!($T), "]"), || $e, $want, args)
            };
        }
        go!(want, "val op prim", a $x p);
        go!(want, "val op &prim", a $x &p);
        go!(want, "ref op prim", &a $x p);
        go!(want, "ref op &prim", &a $x &p);
        go!(back, "prim op val", p $x a);
        go!(back, "prim op ref", p $x &a);
        go!(back, "&prim op val", &p $x a);
        go!(back, "&prim op ref", &p $x &a);
        go!(want, "assign prim", { let mut t = a; t $xa p; t });
        go!(want, "assign &prim", { let mut t = a; t $xa &p; t });
        if want.is_none() {
            l.tag("panic expected");
        }
    }};
}

macro_rules! all_ops {
    ($mac:ident, $l:ident, $a:expr, $b:expr) => {
        all_ops!(@ $mac, $l, $a, $b, U256, u128);
        all_ops!(@ $mac, $l, $a, $b, I256, i128);
    };
    (@ $mac:ident, $l:ident, $a:expr, $b:expr, $T:ident, $P:ident) => {
        $mac!($l, $T, $P, +, +=, b'+', $a, $b);
        $mac!($l, $T, $P, -, -=, b'-', $a, $b);
        $mac!($l, $T, $P, *, *=, b'*', $a, $b);
        $mac!($l, $T, $P, /, /=, b'/', $a, $b);
        $mac!($l, $T, $P, %, %=, b'%', $a, $b);
        $mac!($l, $T, $P, &, &=, b'&', $a, $b);
        $mac!($l, $T, $P, |, |=, b'|', $a, $b);
        $mac!($l, $T, $P, ^, ^=, b'^', $a, $b);
    };
}

fn ints(l: &mut L, x: V, y: V) {
    all_ops!(forms, l, x, y);
    l.nontrivial(x != y);
}
fn prims(l: &mut L, x: V, y: V) {
    all_ops!(prim_forms, l, x, y);
    l.nontrivial(x != y);
}

fn selves(l: &mut L, v: V) {
    all_ops!(self_forms, l, v, v);
    macro_rules! shift {
        ($T:ident) => {{
            let a = &$T::of(v);
            let (z, n) = (a.z(), (v[0] & 0xff) as u32);
            let ok = !DEBUG || !z.is_neg() && z.lt(Z::i(256));
            l.cmp_panic(concat!("operand by itself [<< ", stringify!($T), "]"), || a << a, ok.then(|| $T::wrap(z.shl(n))), &|| show1(*a));
            l.cmp_panic(concat!("operand by itself [>> ", stringify!($T), "]"), || a >> a, ok.then(|| $T::wrap(z.shr(n))), &|| show1(*a));
        }};
    }
    shift!(U256);
    shift!(I256);
    l.nontrivial(v != [0; 4]);
}

/// Shift amounts as exact numbers.
macro_rules! shift_forms {
    ($l:ident, $T:ident, $v:expr, $rhs:expr, $z:expr, $tn:expr) => {{
        let l: &mut L = $l;
        let a = $T::of($v);
        let n = $rhs;
        let z: Z = $z;
        let args = &|| format!("{} n={} ({})", show1(a), z.dec(), $tn);
        let m = (z.0[0] & 0xff) as u32;
        let in_range = !z.is_neg() && z.lt(Z::i(256));
        let (left, right) = if in_range || !DEBUG {
            (Some($T::wrap(a.z().shl(m))), Some($T::wrap(a.z().shr(m))))
        } else {
            (None, None)
        };
        macro_rules! go {
            ($want:expr, $name:expr, $e:expr) => {
                l.cmp_panic(concat!($name, " [", stringify!($T), " by ", $tn, "]"), || $e, $want, args)
            };
        }
        go!(left, "val << amount", a << n);
        go!(left, "val << &amount", a << &n);
        go!(left, "ref << amount", &a << n);
        go!(left, "ref << &amount", &a << &n);
        go!(left, "<<= amount", { let mut t = a; t <<= n; t });
        go!(left, "<<= &amount", { let mut t = a; t <<= &n; t });
        go!(right, "val >> amount", a >> n);
        go!(right, "val >> &amount", a >> &n);
        go!(right, "ref >> amount", &a >> n);
        go!(right, "ref >> &amount", &a >> &n);
        go!(right, ">>= amount", { let mut t = a; t >>= n; t });
        go!(right, ">>= &amount", { let mut t = a; t >>= &n; t });
        if in_range {
            l.tag("amount in range");
        } else {
            l.tag("amount out of range");
        }
    }};
}

/// The amount given by the pattern `y`, truncated to each type in turn.
fn shifts(l: &mut L, v: V, y: V) {
    macro_rules! types {
        ($($t:ident)*) => {$({
            let n = u128::of(y) as $t;
            #[allow(unused_comparisons)]
            let z = if n < 0 { Z::i(n as i128) } else { Z::u(n as u128) };
            shift_forms!(l, U256, v, n, z, stringify!($t));
            shift_forms!(l, I256, v, n, z, stringify!($t));
        })*};
    }
    types!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
    shift_forms!(l, U256, v, U256::of(y), U256::of(y).z(), "U256");
    shift_forms!(l, I256, v, U256::of(y), U256::of(y).z(), "U256");
    shift_forms!(l, U256, v, I256::of(y), I256::of(y).z(), "I256");
    shift_forms!(l, I256, v, I256::of(y), I256::of(y).z(), "I256");
    l.nontrivial(v != [0; 4]);
}

fn spaces(env: &Env) -> Vec<Space> {
    let b = alpha::union(vec![
        alpha::core(),
        alpha::dict(&env.dict, false),
        if env.quick { vec![] } else { alpha::limbs(&alpha::L5) },
        alpha::limbs(&[0, 1, u64::MAX]),
    ]);
    let n = b.len();
    let own = alpha::unary(env);
    let b2 = b.clone();
    // Primitive operands are the low words of patterns.
    let mut lows: Vec<V> = vec![];
    let extra = if env.quick { vec![] } else { alpha::pows(&[-1, 0, 1]) };
    for v in alpha::core().iter().chain(alpha::dict(&env.dict, false).iter()).chain(extra.iter()) {
        lows.push([v[0], v[1], 0, 0]);
    }
    let lows = alpha::dedup(lows);
    let nl = lows.len();
    let vals: Vec<V> = vec![[1, 0, 0, 0], alpha::MIN, alpha::MAX, [0x8123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0]];
    let mut amounts = alpha::small(if env.quick { 260 } else { 5000 });
    for k in 8..256 {
        for c in [-1i64, 0, 1, 200, 3, 127, 128, 255].into_iter().take(if env.quick { if k % 8 == 0 { 4 } else { 1 } } else { 8 }) {
            amounts.push(alpha::addc(alpha::pow2(k), c));
            amounts.push(alpha::neg(alpha::addc(alpha::pow2(k), c)));
        }
    }
    amounts.extend(alpha::dict(&env.dict, false));
    amounts.extend(alpha::limbs(if env.quick { &[0, 1, u64::MAX] } else { &alpha::L5 }));
    let amounts = alpha::dedup(amounts);
    let na = amounts.len();
    vec![
        space("integers", "all pairs of the alphabet through the value, reference and assignment forms of + - * / % & | ^", n * n, move |i, l| {
            let (p, q) = pair(i, n);
            ints(l, b[p], b[q]);
        }),
        space("one operand", "all values through the same operators and the shifts, the same object on both sides", own.len(), move |i, l| selves(l, own[i as usize])),
        space("primitives", "the same with u128/i128 on either side", b2.len() * nl, move |i, l| {
            let (p, q) = pair(i, nl);
            prims(l, b2[p], lows[q]);
        }),
        space("shift amounts", "<< and >> in every form by amounts of all 14 integer types, in and out of range", vals.len() * na, move |i, l| {
            let (p, q) = pair(i, na);
            shifts(l, vals[p], amounts[q]);
        }),
    ]
}

fn main() {
    mc::run::main("C07", spaces)
}
