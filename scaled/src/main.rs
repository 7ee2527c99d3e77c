#![allow(arithmetic_overflow, unconditional_panic)]
//! The scaled model of the native intrinsics (see tools/scale.py): 8-bit
//! words, 16-bit integers.  Every pair of operands is explored; the result is
//! the list of disagreements with 16-bit arithmetic and a few witnesses of
//! every path the model can take.
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

thread_local! {
    static PATH: Cell<u64> = const { Cell::new(0) };
}
/// Every block of the model announces itself.
#[inline(always)]
pub fn hit(n: u64) {
    PATH.with(|p| p.set((p.get() ^ n).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)));
}

macro_rules! number {
    ($T:ident, $w:ident, $full:ident) => {
        #[derive(Clone, Copy, Default, Eq, PartialEq, Debug)]
        #[repr(transparent)]
        pub struct $T(pub [$w; 2]);
        impl $T {
            pub const ZERO: Self = $T([0, 0]);
            pub const ONE: Self = $T([1, 0]);
            pub const MIN: Self = $T::of($full::MIN);
            pub const MAX: Self = $T::of($full::MAX);
            pub const BITS: u32 = 16;
            #[inline(always)]
            pub const fn of(v: $full) -> Self {
                $T([v as $w, (v >> 8) as $w])
            }
            #[inline(always)]
            pub const fn full(self) -> $full {
                ((self.0[1] as $full) << 8) | (self.0[0] as u8 as $full)
            }
            #[inline(always)]
            pub const fn new(v: $w) -> Self {
                $T::of(v as $full)
            }
            #[inline(always)]
            pub const fn from_words(hi: $w, lo: $w) -> Self {
                $T([lo, hi])
            }
            #[inline(always)]
            pub const fn into_words(self) -> ($w, $w) {
                (self.0[1], self.0[0])
            }
            #[inline(always)]
            pub const fn low(&self) -> &$w {
                &self.0[0]
            }
            #[inline(always)]
            pub const fn high(&self) -> &$w {
                &self.0[1]
            }
            #[inline(always)]
            pub fn low_mut(&mut self) -> &mut $w {
                &mut self.0[0]
            }
            #[inline(always)]
            pub fn high_mut(&mut self) -> &mut $w {
                &mut self.0[1]
            }
            pub const fn leading_zeros(self) -> u32 {
                self.full().leading_zeros()
            }
            pub const fn trailing_zeros(self) -> u32 {
                self.full().trailing_zeros()
            }
            pub const fn is_zero(self) -> bool {
                self.full() == 0
            }
            pub const fn wrapping_add(self, o: Self) -> Self {
                $T::of(self.full().wrapping_add(o.full()))
            }
            #[inline(always)]
            pub const fn wrapping_sub(self, o: Self) -> Self {
                $T::of(self.full().wrapping_sub(o.full()))
            }
            pub const fn wrapping_mul(self, o: Self) -> Self {
                $T::of(self.full().wrapping_mul(o.full()))
            }
            pub const fn wrapping_neg(self) -> Self {
                $T::of(self.full().wrapping_neg())
            }
            pub const fn wrapping_shl(self, n: u32) -> Self {
                $T::of(self.full().wrapping_shl(n))
            }
            pub const fn wrapping_shr(self, n: u32) -> Self {
                $T::of(self.full().wrapping_shr(n))
            }
            pub const fn wrapping_div(self, o: Self) -> Self {
                $T::of(self.full().wrapping_div(o.full()))
            }
            pub const fn wrapping_rem(self, o: Self) -> Self {
                $T::of(self.full().wrapping_rem(o.full()))
            }
            pub const fn overflowing_add(self, o: Self) -> (Self, bool) {
                let (v, c) = self.full().overflowing_add(o.full());
                ($T::of(v), c)
            }
            pub const fn overflowing_sub(self, o: Self) -> (Self, bool) {
                let (v, c) = self.full().overflowing_sub(o.full());
                ($T::of(v), c)
            }
        }
        impl PartialOrd for $T {
            #[inline(always)]
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.full().partial_cmp(&o.full())
            }
        }
        impl Ord for $T {
            #[inline(always)]
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.full().cmp(&o.full())
            }
        }
        impl PartialEq<$w> for $T {
            #[inline(always)]
            fn eq(&self, o: &$w) -> bool {
                self.full() == *o as $full
            }
        }
        impl PartialOrd<$w> for $T {
            #[inline(always)]
            fn partial_cmp(&self, o: &$w) -> Option<std::cmp::Ordering> {
                self.full().partial_cmp(&(*o as $full))
            }
        }
        number!(@bin $T, $w, $full, BitAnd bitand & BitAndAssign bitand_assign, BitOr bitor | BitOrAssign bitor_assign, BitXor bitxor ^ BitXorAssign bitxor_assign);
        number!(@wrap $T, Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul, Div div wrapping_div, Rem rem wrapping_rem);
        number!(@shift $T, u32 i32 u8 u16 usize);
        impl std::ops::Not for $T {
            type Output = $T;
            #[inline(always)]
            fn not(self) -> $T {
                $T::of(!self.full())
            }
        }
        impl std::ops::Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                $T::of(self.full().wrapping_neg())
            }
        }
    };
    (@bin $T:ident, $w:ident, $full:ident, $($Tr:ident $m:ident $op:tt $Ta:ident $ma:ident),*) => {$(
        impl std::ops::$Ta<$T> for $T {
            #[inline(always)]
            fn $ma(&mut self, o: $T) { *self = $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Ta<&$T> for $T {
            #[inline(always)]
            fn $ma(&mut self, o: &$T) { *self = $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Tr<$T> for $T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: $T) -> $T { $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Tr<&$T> for $T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: &$T) -> $T { $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Tr<$T> for &$T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: $T) -> $T { $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Tr<&$T> for &$T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: &$T) -> $T { $T::of(self.full() $op o.full()) }
        }
        impl std::ops::$Tr<$w> for $T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: $w) -> $T { $T::of(self.full() $op o as $full) }
        }
    )*};
    (@wrap $T:ident, $($Tr:ident $m:ident $f:ident),*) => {$(
        impl std::ops::$Tr<$T> for $T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: $T) -> $T { self.$f(o) }
        }
        impl std::ops::$Tr<&$T> for $T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: &$T) -> $T { self.$f(*o) }
        }
        impl std::ops::$Tr<$T> for &$T {
            type Output = $T;
            #[inline(always)]
            fn $m(self, o: $T) -> $T { self.$f(o) }
        }
    )*};
    (@shift $T:ident, $($n:ident)*) => {$(
        impl std::ops::Shl<$n> for $T {
            type Output = $T;
            #[inline(always)]
            fn shl(self, n: $n) -> $T { self.wrapping_shl(n as u32) }
        }
        impl std::ops::Shl<$n> for &$T {
            type Output = $T;
            #[inline(always)]
            fn shl(self, n: $n) -> $T { self.wrapping_shl(n as u32) }
        }
        impl std::ops::Shr<$n> for $T {
            type Output = $T;
            #[inline(always)]
            fn shr(self, n: $n) -> $T { self.wrapping_shr(n as u32) }
        }
        impl std::ops::Shr<$n> for &$T {
            type Output = $T;
            #[inline(always)]
            fn shr(self, n: $n) -> $T { self.wrapping_shr(n as u32) }
        }
        impl std::ops::ShlAssign<$n> for $T {
            #[inline(always)]
            fn shl_assign(&mut self, n: $n) { *self = self.wrapping_shl(n as u32) }
        }
        impl std::ops::ShrAssign<$n> for $T {
            #[inline(always)]
            fn shr_assign(&mut self, n: $n) { *self = self.wrapping_shr(n as u32) }
        }
    )*};
}
pub mod uint {
    number!(U256, u8, u16);
    impl U256 {
        pub const fn as_i256(self) -> crate::int::I256 {
            crate::int::I256::of(self.full() as i16)
        }
    }
}
pub mod int {
    number!(I256, i8, i16);
    impl I256 {
        pub const fn as_u256(self) -> crate::uint::U256 {
            crate::uint::U256::of(self.full() as u16)
        }
        pub const fn is_negative(self) -> bool {
            self.full() < 0
        }
    }
}
pub use int::I256;
pub use uint::U256;
pub mod intrinsics {
    pub use crate::native::*;
}

include!(concat!(env!("SCALED_GEN"), "/gen.rs"));

fn u3(f: fn(&mut MaybeUninit<U256>, &U256, &U256), a: u16, b: u16) -> u16 {
    let mut r = MaybeUninit::new(U256::ZERO);
    f(&mut r, &U256::of(a), &U256::of(b));
    unsafe { r.assume_init() }.full()
}
fn i3(f: fn(&mut MaybeUninit<I256>, &I256, &I256), a: u16, b: u16) -> u16 {
    let mut r = MaybeUninit::new(I256::ZERO);
    f(&mut r, &I256::of(a as i16), &I256::of(b as i16));
    unsafe { r.assume_init() }.full() as u16
}
fn u2(f: fn(&mut U256, &U256), a: u16, b: u16) -> u16 {
    let mut r = U256::of(a);
    f(&mut r, &U256::of(b));
    r.full()
}
fn i2(f: fn(&mut I256, &I256), a: u16, b: u16) -> u16 {
    let mut r = I256::of(a as i16);
    f(&mut r, &I256::of(b as i16));
    r.full() as u16
}
fn uc(f: fn(&mut MaybeUninit<U256>, &U256, &U256) -> bool, a: u16, b: u16) -> (u16, bool) {
    let mut r = MaybeUninit::new(U256::ZERO);
    let c = f(&mut r, &U256::of(a), &U256::of(b));
    (unsafe { r.assume_init() }.full(), c)
}
fn ic(f: fn(&mut MaybeUninit<I256>, &I256, &I256) -> bool, a: u16, b: u16) -> (u16, bool) {
    let mut r = MaybeUninit::new(I256::ZERO);
    let c = f(&mut r, &I256::of(a as i16), &I256::of(b as i16));
    (unsafe { r.assume_init() }.full() as u16, c)
}

/// Operation names with the function that runs one pair: whether the model
/// agrees, and what distinguishes the pair besides its path.
type Op = (&'static str, fn(u16, u16) -> (bool, u64));

/// Signs, halves and carries of a pair: part of what makes a path.
#[inline(always)]
fn class(a: u16, b: u16) -> u64 {
    let z = |x: u16| ((x >> 8 == 0) as u64) | ((x as u8 == 0) as u64) << 1 | ((x >> 15) as u64) << 2;
    z(a) | z(b) << 3
}

fn ops(which: &str) -> Vec<Op> {
    use native as n;
    match which {
        "add" => vec![
            ("uaddc/add3/add2", |a, b| {
                let (v, c) = uc(n::uaddc, a, b);
                let (w, d) = a.overflowing_add(b);
                (v == w && c == d && u3(n::add3, a, b) == w && u2(n::add2, a, b) == w, class(a, b) | (d as u64) << 6 | (((a as u8).overflowing_add(b as u8).1) as u64) << 7 | class(w, 0) << 8)
            }),
            ("iaddc", |a, b| {
                let (v, c) = ic(n::iaddc, a, b);
                let (w, d) = (a as i16).overflowing_add(b as i16);
                (v == w as u16 && c == d, class(a, b) | (d as u64) << 6 | (((a as u8).overflowing_add(b as u8).1) as u64) << 7 | class(w as u16, 0) << 8)
            }),
            ("usubc/sub3/sub2", |a, b| {
                let (v, c) = uc(n::usubc, a, b);
                let (w, d) = a.overflowing_sub(b);
                (v == w && c == d && u3(n::sub3, a, b) == w && u2(n::sub2, a, b) == w, class(a, b) | (d as u64) << 6 | (((a as u8).overflowing_sub(b as u8).1) as u64) << 7 | class(w, 0) << 8)
            }),
            ("isubc", |a, b| {
                let (v, c) = ic(n::isubc, a, b);
                let (w, d) = (a as i16).overflowing_sub(b as i16);
                (v == w as u16 && c == d, class(a, b) | (d as u64) << 6 | (((a as u8).overflowing_sub(b as u8).1) as u64) << 7 | class(w as u16, 0) << 8)
            }),
        ],
        "mul" => vec![
            ("umulc/mul3/mul2", |a, b| {
                let (v, c) = uc(n::umulc, a, b);
                let (w, d) = a.overflowing_mul(b);
                let (ah, al, bh, bl) = (a >> 8, a & 255, b >> 8, b & 255);
                // Which of the partial products overflow.
                let k = (ah * bl > 255) as u64 | ((al * bh > 255) as u64) << 1 | (((ah * bl & 255) + (al * bh & 255) > 255) as u64) << 2 | (((al * bl >> 8) + (ah * bl & 255) + (al * bh & 255) > 255) as u64) << 3
                    | (((al >> 4) * (bl & 15) + ((al & 15) * (bl & 15) >> 4) > 127) as u64) << 4;
                (v == w && c == d && u3(n::mul3, a, b) == w && u2(n::mul2, a, b) == w, class(a, b) | (d as u64) << 6 | k << 7)
            }),
            ("imulc", |a, b| {
                let (v, c) = ic(n::imulc, a, b);
                let (w, d) = (a as i16).overflowing_mul(b as i16);
                (v == w as u16 && c == d, class(a, b) | (d as u64) << 6 | class(w as u16, 0) << 7)
            }),
        ],
        "div" => vec![
            ("udiv3", |a, b| {
                if b == 0 {
                    return (true, 0);
                }
                let w = a / b;
                (u3(n::udiv3, a, b) == w, class(a, b) | class(w, a % b) << 6 | ((b >> 8).leading_zeros() as u64) << 12)
            }),
            ("urem3/udiv2/urem2", |a, b| {
                if b == 0 {
                    return (true, 0);
                }
                (u3(n::urem3, a, b) == a % b && u2(n::udiv2, a, b) == a / b && u2(n::urem2, a, b) == a % b, 0)
            }),
            ("idiv3/irem3", |a, b| {
                if b == 0 || a == 0x8000 && b == 0xffff {
                    return (true, 0);
                }
                let (x, y) = (a as i16, b as i16);
                let (q, r) = ((x / y) as u16, (x % y) as u16);
                (i3(n::idiv3, a, b) == q && i3(n::irem3, a, b) == r, class(a, b) | class(q, r) << 6)
            }),
            ("idiv2/irem2", |a, b| {
                if b == 0 || a == 0x8000 && b == 0xffff {
                    return (true, 0);
                }
                let (x, y) = (a as i16, b as i16);
                (i2(n::idiv2, a, b) == (x / y) as u16 && i2(n::irem2, a, b) == (x % y) as u16, 0)
            }),
        ],
        // The right operand is an amount, or not used.
        "shift" => vec![
            ("shl", |a, b| {
                let b = b as u32 & 15;
                let mut r = MaybeUninit::new(U256::ZERO);
                n::shl3(&mut r, &U256::of(a), b);
                let mut x = U256::of(a);
                n::shl2(&mut x, b);
                (unsafe { r.assume_init() }.full() == a << b && x.full() == a << b, b as u64)
            }),
            ("shr", |a, b| {
                let b = b as u32 & 15;
                let mut r = MaybeUninit::new(U256::ZERO);
                n::shr3(&mut r, &U256::of(a), b);
                let mut x = U256::of(a);
                n::shr2(&mut x, b);
                (unsafe { r.assume_init() }.full() == a >> b && x.full() == a >> b, b as u64)
            }),
            ("sar", |a, b| {
                let b = b as u32 & 15;
                let mut r = MaybeUninit::new(I256::ZERO);
                n::sar3(&mut r, &I256::of(a as i16), b);
                let mut x = I256::of(a as i16);
                n::sar2(&mut x, b);
                let w = a as i16 >> b;
                (unsafe { r.assume_init() }.full() == w && x.full() == w, b as u64)
            }),
            ("rol/ror", |a, b| {
                let b = b as u32 & 15;
                let mut r = MaybeUninit::new(U256::ZERO);
                n::rol3(&mut r, &U256::of(a), b);
                let mut s = MaybeUninit::new(U256::ZERO);
                n::ror3(&mut s, &U256::of(a), b);
                (unsafe { r.assume_init() }.full() == a.rotate_left(b) && unsafe { s.assume_init() }.full() == a.rotate_right(b), b as u64)
            }),
            ("ctlz/cttz", |a, _| {
                (n::ctlz(&U256::of(a)) == a.leading_zeros() && n::cttz(&U256::of(a)) == a.trailing_zeros(), a.leading_zeros() as u64 | (a.trailing_zeros() as u64) << 5)
            }),
        ],
        _ => panic!("which"),
    }
}

#[derive(Default)]
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

/// Witnesses of one path: the first few and the last few pairs.
#[derive(Clone)]
struct Wit {
    n: u64,
    bad: u64,
    first: [u32; 4],
    last: [u32; 4],
    wrong: Vec<u32>,
}

fn main() {
    let which = std::env::args().nth(1).expect("which");
    let threads: usize = std::env::args().nth(2).map_or(8, |n| n.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let right: u32 = if which == "shift" { 16 } else { 65536 };
    for (name, f) in ops(&which) {
        let mut out = String::new();
        let next = AtomicU32::new(0);
        let panics = AtomicU64::new(0);
        let all: Mutex<Vec<(u64, Wit)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let mut map: HashMap<u64, Wit, BuildHasherDefault<Mix>> = HashMap::default();
                    loop {
                        let a = next.fetch_add(1, Relaxed);
                        if a >= 65536 {
                            break;
                        }
                        for b in 0..right {
                            PATH.with(|p| p.set(0));
                            let r = catch_unwind(AssertUnwindSafe(|| f(a as u16, b as u16)));
                            let (ok, class) = r.unwrap_or_else(|_| {
                                panics.fetch_add(1, Relaxed);
                                (false, 1 << 40)
                            });
                            let key = PATH.with(|p| p.get()) ^ class.wrapping_mul(0xd6e8_feb8_6659_fd93);
                            let ix = a << 16 | b;
                            let w = map.entry(key).or_insert_with(|| Wit { n: 0, bad: 0, first: [ix; 4], last: [ix; 4], wrong: vec![] });
                            if w.n < 4 {
                                w.first[w.n as usize] = ix;
                            }
                            w.last[(w.n & 3) as usize] = ix;
                            w.n += 1;
                            if !ok {
                                w.bad += 1;
                                if w.wrong.len() < 32 {
                                    w.wrong.push(ix);
                                }
                            }
                        }
                    }
                    all.lock().unwrap().extend(map);
                });
            }
        });
        let mut merged: HashMap<u64, (u64, u64, Vec<u32>, Vec<u32>)> = HashMap::new();
        for (k, w) in all.into_inner().unwrap() {
            let e = merged.entry(k).or_default();
            e.0 += w.n;
            e.1 += w.bad;
            e.2.extend(w.first.iter().take(w.n as usize));
            e.2.extend(w.last.iter().take(w.n as usize));
            e.3.extend(w.wrong);
        }
        let mut paths: Vec<_> = merged.into_values().collect();
        for p in paths.iter_mut() {
            p.2.sort();
            p.2.dedup();
            p.3.sort();
            p.3.dedup();
        }
        paths.sort_by_key(|p| p.2[0]);
        let (n, bad): (u64, u64) = paths.iter().fold((0, 0), |x, p| (x.0 + p.0, x.1 + p.1));
        out.push_str(&format!("OP {name} pairs {n} paths {} wrong {bad} panics {}\n", paths.len(), panics.into_inner()));
        for p in &paths {
            let pick = |v: &Vec<u32>, k: usize| -> Vec<u32> {
                // Evenly spread over the ordered list, ends included.
                if v.len() <= k {
                    v.clone()
                } else {
                    (0..k).map(|i| v[i * (v.len() - 1) / (k - 1)]).collect()
                }
            };
            for (kind, list) in [("W", pick(&p.2, 6)), ("B", pick(&p.3, 64))] {
                for x in list {
                    out.push_str(&format!("{kind} {:04x} {:04x}\n", x >> 16, x & 0xffff));
                }
            }
        }
        out.push_str("END\n");
        print!("{out}");
        let _ = std::io::Write::flush(&mut std::io::stdout());
    }
}
