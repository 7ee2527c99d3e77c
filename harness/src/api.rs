//! (Nearly) everything the crate offers, as functions that fold their results
//! into a digest: to compare builds, back ends and targets with each other.
use crate::alpha::{self, V};
use crate::run::{show1, show2, Val};
use crate::tok::{Hint, Out, Record, Tok};
use crate::z::{Int, Z};
use crate::L;
use ethnum::intrinsics as intr;
use ethnum::intrinsics::signed as sig;
use ethnum::{AsI256, AsU256, I256, U256};
use std::fmt::Write as _;
use std::mem::MaybeUninit;

// ------------------------------------------------------------ digests

pub trait Mix {
    fn mix(&self, l: &mut L);
}
macro_rules! mix_int {
    ($($t:ty),*) => {$( impl Mix for $t { #[inline] fn mix(&self, l: &mut L) { for x in Int::limbs(*self) { l.mix(x) } } } )*};
}
mix_int!(U256, I256);
macro_rules! mix_small {
    ($($t:ty),*) => {$( impl Mix for $t { #[inline] fn mix(&self, l: &mut L) { l.mix(*self as u64) } } )*};
}
mix_small!(bool, u32, u64, i64, i8);
impl Mix for i128 {
    fn mix(&self, l: &mut L) {
        l.mix(*self as u64);
        l.mix((*self >> 64) as u64);
    }
}
impl Mix for f64 {
    fn mix(&self, l: &mut L) {
        l.mix(self.to_bits())
    }
}
impl Mix for f32 {
    fn mix(&self, l: &mut L) {
        l.mix(self.to_bits() as u64)
    }
}
impl Mix for std::cmp::Ordering {
    fn mix(&self, l: &mut L) {
        l.mix(*self as i8 as u64)
    }
}
impl Mix for [u8; 32] {
    fn mix(&self, l: &mut L) {
        for c in self.chunks(8) {
            l.mix(u64::from_le_bytes(c.try_into().unwrap()))
        }
    }
}
impl Mix for String {
    fn mix(&self, l: &mut L) {
        l.mix(self.len() as u64);
        for b in self.bytes() {
            l.mix(b as u64)
        }
    }
}
impl<T: Mix> Mix for Option<T> {
    fn mix(&self, l: &mut L) {
        match self {
            None => l.mix(0xdead),
            Some(x) => {
                l.mix(1);
                x.mix(l)
            }
        }
    }
}
impl<T: Mix> Mix for Result<T, ()> {
    fn mix(&self, l: &mut L) {
        match self {
            Err(()) => l.mix(0xbad),
            Ok(x) => {
                l.mix(2);
                x.mix(l)
            }
        }
    }
}
impl<A: Mix, B: Mix> Mix for (A, B) {
    fn mix(&self, l: &mut L) {
        self.0.mix(l);
        self.1.mix(l);
    }
}

macro_rules! m {
    ($l:ident, $s:expr; $($x:ident . $f:ident ( $($a:expr),* ));* $(;)?) => {$(
        $l.at(stringify!($f));
        { let r = $x.$f($($a),*); $l.evals += 1; r.mix($l); if $l.tracing() { $l.note(format!("{} {} -> {}", stringify!($f), $s(), r.show())); } }
    )*};
}
macro_rules! d {
    ($l:ident, $s:expr; $($name:literal $e:expr);* $(;)?) => {$(
        $l.at($name);
        { let r = $e; $l.evals += 1; r.mix($l); if $l.tracing() { $l.note(format!("{} {} -> {}", $name, $s(), r.show())); } }
    )*};
}
macro_rules! p {
    ($l:ident, $s:expr; $($name:literal $e:expr);* $(;)?) => {$(
        $l.at($name);
        { let r = $l.caught(|| $e); $l.evals += 1; r.mix($l); if $l.tracing() { $l.note(format!("{} {} -> {}", $name, $s(), r.show())); } }
    )*};
}

/// Operations that may not depend on the back end or the profile.
pub fn api_pairs(l: &mut L, v: V, w: V) {
    let (a, b, i, j) = (U256::of(v), U256::of(w), I256::of(v), I256::of(w));
    let n = w[0] as u32;
    let s = &|| show2(a, b);
    m!(l, s; a.wrapping_add(b); a.wrapping_sub(b); a.wrapping_mul(b); a.overflowing_add(b); a.overflowing_sub(b); a.overflowing_mul(b);
        a.checked_add(b); a.checked_sub(b); a.checked_mul(b); a.saturating_add(b); a.saturating_sub(b); a.saturating_mul(b); a.abs_diff(b);
        a.checked_add_signed(j); a.overflowing_add_signed(j); a.saturating_add_signed(j); a.wrapping_add_signed(j);
        a.checked_div(b); a.checked_rem(b); a.checked_div_euclid(b); a.checked_rem_euclid(b); a.checked_div_rem(b); a.checked_div_rem_euclid(b); a.cmp(&b); a.eq(&b);
        a.wrapping_shl(n); a.wrapping_shr(n); a.checked_shl(n); a.checked_shr(n); a.overflowing_shl(n); a.overflowing_shr(n); a.rotate_left(n); a.rotate_right(n);
        i.wrapping_add(j); i.wrapping_sub(j); i.wrapping_mul(j); i.overflowing_add(j); i.overflowing_sub(j); i.overflowing_mul(j);
        i.checked_add(j); i.checked_sub(j); i.checked_mul(j); i.saturating_add(j); i.saturating_sub(j); i.saturating_mul(j); i.abs_diff(j);
        i.checked_add_unsigned(b); i.overflowing_add_unsigned(b); i.saturating_add_unsigned(b); i.wrapping_add_unsigned(b);
        i.checked_sub_unsigned(b); i.overflowing_sub_unsigned(b); i.saturating_sub_unsigned(b); i.wrapping_sub_unsigned(b);
        i.checked_div_rem(j); i.checked_div_rem_euclid(j); i.checked_div(j); i.checked_rem(j); i.checked_div_euclid(j); i.checked_rem_euclid(j); i.cmp(&j); i.eq(&j);
        i.wrapping_shl(n); i.wrapping_shr(n); i.checked_shl(n); i.checked_shr(n); i.overflowing_shl(n); i.overflowing_shr(n); i.rotate_left(n); i.rotate_right(n));
    d!(l, s; "&" a & b; "|" a | b; "^" a ^ b; "& signed" i & j; "| signed" i | j; "^ signed" i ^ j);
    if w != [0; 4] {
        m!(l, s; a.wrapping_div(b); a.wrapping_rem(b); a.overflowing_div(b); a.overflowing_rem(b); a.saturating_div(b); a.div_euclid(b); a.rem_euclid(b); a.wrapping_div_euclid(b); a.wrapping_rem_euclid(b); a.div_rem(b); a.div_rem_euclid(b); a.wrapping_div_rem(b); a.wrapping_div_rem_euclid(b); a.saturating_div_rem(b); a.saturating_div_rem_euclid(b);
            i.wrapping_div_rem(j); i.wrapping_div_rem_euclid(j); i.saturating_div_rem(j); i.saturating_div_rem_euclid(j); i.saturating_div(j);
            i.wrapping_div(j); i.wrapping_rem(j); i.overflowing_div(j); i.overflowing_rem(j); i.saturating_div(j); i.wrapping_div_euclid(j); i.wrapping_rem_euclid(j); i.overflowing_div_euclid(j); i.overflowing_rem_euclid(j));
        d!(l, s; "/" a / b; "%" a % b);
        if !(v == alpha::MIN && w == alpha::MAX) {
            d!(l, s; "/ signed" i / j; "% signed" i % j);
        }
    }
    l.nontrivial(v != w);
}

pub fn api_values(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    m!(l, s; a.leading_zeros(); a.trailing_zeros(); a.leading_ones(); a.trailing_ones(); a.count_ones(); a.count_zeros(); a.swap_bytes(); a.reverse_bits();
        a.is_power_of_two(); a.checked_next_power_of_two(); a.checked_neg(); a.wrapping_neg(); a.overflowing_neg(); a.to_be_bytes(); a.to_le_bytes(); a.as_f64(); a.as_f32();
        i.leading_zeros(); i.trailing_zeros(); i.leading_ones(); i.trailing_ones(); i.count_ones(); i.count_zeros(); i.swap_bytes(); i.reverse_bits();
        i.checked_neg(); i.wrapping_neg(); i.overflowing_neg(); i.saturating_neg(); i.checked_abs(); i.wrapping_abs(); i.overflowing_abs(); i.saturating_abs(); i.unsigned_abs(); i.signum(); i.signum128(); i.is_negative(); i.is_positive();
        i.to_be_bytes(); i.to_le_bytes(); i.as_f64(); i.as_f32());
    d!(l, s; "!" !a; "! signed" !i; "f64 as_u256" f64::from_bits(v[3]).as_u256(); "f64 as_i256" f64::from_bits(v[3]).as_i256(); "f32 as_u256" f32::from_bits(v[3] as u32).as_u256(); "f32 as_i256" f32::from_bits(v[3] as u32).as_i256());
    l.nontrivial(v != [0; 4]);
}

/// Powers.
pub fn powers(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    for e in [0u32, 1, 2, 3, 5, 7, 8, 13, 64, 127, 255, 256, 257, u32::MAX] {
        m!(l, s; a.wrapping_pow(e); a.overflowing_pow(e); a.checked_pow(e); a.saturating_pow(e); i.wrapping_pow(e); i.overflowing_pow(e); i.checked_pow(e); i.saturating_pow(e));
    }
    l.nontrivial(v != [0; 4]);
}

pub fn texts(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    let mut t = String::new();
    let _ = write!(t, "{a}|{a:x}|{a:#X}|{a:#o}|{a:b}|{a:e}|{a:+E}|{a:?}|{a:090}|{a:.5e}|{i}|{i:x}|{i:#X}|{i:#o}|{i:b}|{i:e}|{i:+E}|{i:?}|{i:-#x}|{i:>90}|{i:.3e}");
    d!(l, s; "formatting" t);
    for r in [2u32, 3, 7, 8, 10, 11, 16, 36] {
        let d = Z::from_limbs(v).digits(r);
        let n = format!("-{d}");
        d!(l, s; "from_str_radix" U256::from_str_radix(&d, r).map_err(|_| ()); "from_str_radix signed" I256::from_str_radix(&d, r).map_err(|_| ()); "from_str_radix negative" I256::from_str_radix(&n, r).map_err(|_| ()));
    }
    let h = format!("0x{}", Z::from_limbs(v).digits(16));
    d!(l, s; "from_str_hex" U256::from_str_hex(&h).map_err(|_| ()); "from_str_prefixed" I256::from_str_prefixed(&h).map_err(|_| ()));
    l.nontrivial(v != [0; 4]);
}

/// The same with texts made by the crate itself (the model is slow when
/// interpreted).
pub fn texts_back(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    d!(l, s; "formatting" format!("{a:?}|{a:090}|{a:.5e}|{i:#X}|{i:+E}|{i:>90}|{a:e}"));
    for (r, t, u) in [(2, format!("{a:b}"), format!("{i:#b}")), (8, format!("{a:o}"), format!("{i:#o}")), (10, format!("{a}"), format!("{i}")), (16, format!("{a:x}"), format!("{i:#x}"))] {
        d!(l, s; "from_str_radix" U256::from_str_radix(&t, r).map_err(|_| ()); "from_str_radix signed" I256::from_str_radix(&t, r).map_err(|_| ());
            "from_str_prefixed" I256::from_str_prefixed(&u).map_err(|_| ()); "from_str_prefixed" U256::from_str_prefixed(&u).map_err(|_| ()); "formatting" t; "formatting" u);
    }
    let h = format!("{a:#x}");
    d!(l, s; "from_str_hex" U256::from_str_hex(&h).map_err(|_| ()); "from_str_hex" I256::from_str_hex(&h).map_err(|_| ()));
    l.nontrivial(v != [0; 4]);
}

/// Operators that panic or wrap depending on the profile only.
pub fn ops(l: &mut L, v: V, w: V) {
    let (a, b, i, j) = (U256::of(v), U256::of(w), I256::of(v), I256::of(w));
    let n = w[0] as u32;
    let s = &|| show2(a, b);
    p!(l, s; "+" a + b; "-" a - b; "*" a * b; "/" a / b; "%" a % b; "+ signed" i + j; "- signed" i - j; "* signed" i * j; "/ signed" i / j; "% signed" i % j;
        "- unary" -i; "<<" a << n; ">>" a >> n; "<< signed" i << n; ">> signed" i >> n; "<< U256" a << b; ">> U256" a >> b; "abs" i.abs(); "pow" a.pow(n & 1023); "pow signed" i.pow(n & 1023); "next_power_of_two" a.next_power_of_two();
        "div_euclid" i.div_euclid(j); "rem_euclid" i.rem_euclid(j); "wrapping_div by anything" i.wrapping_div(j); "overflowing_rem by anything" a.overflowing_rem(b));
    l.nontrivial(v != w);
}

/// Operators in all their forms, panics included.
pub fn forms(l: &mut L, v: V, w: V) {
    let (a, b, i, j) = (U256::of(v), U256::of(w), I256::of(v), I256::of(w));
    let s = &|| show2(a, b);
    macro_rules! op {
        ($($op:tt $as:tt),*) => {$(
            p!(l, s; "operator" &a $op b; "operator" a $op &b; "operator" &a $op &b; "operator" &i $op j; "operator" i $op &j; "operator" &i $op &j;
                "assign" { let mut r = a; r $as b; r }; "assign" { let mut r = a; r $as &b; r }; "assign" { let mut r = i; r $as j; r }; "assign" { let mut r = i; r $as &j; r };
                "operator with primitive" a $op b.as_u128(); "operator with primitive" a $op &b.as_u128(); "operator with primitive" i $op j.as_i128(); "operator with primitive" &i $op &j.as_i128(); "operator with primitive" a.as_u128() $op b; "operator with primitive" i.as_i128() $op j;
                "assign primitive" { let mut r = a; r $as b.as_u128(); r }; "assign primitive" { let mut r = i; r $as j.as_i128(); r };
            );
        )*};
    }
    op!(+ +=, - -=, * *=, / /=, % %=, & &=, | |=, ^ ^=);
    macro_rules! sh {
        ($($t:ident)*) => {$({
            // (as wide as usize is everywhere)
            let n = if stringify!($t).ends_with("size") { w[0] as i32 as $t } else { w[0] as $t };
            p!(l, s; "shift" a << n; "shift" a >> &n; "shift" &i << n; "shift" i >> n; "shift assign" { let mut r = a; r <<= n; r }; "shift assign" { let mut r = i; r >>= &n; r });
        })*};
    }
    sh!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);
    p!(l, s; "shift" a << b; "shift" a >> j; "shift" &i << &b; "shift" i >> j; "shift assign" { let mut r = a; r <<= j; r }; "shift assign" { let mut r = i; r >>= &b; r });
    p!(l, s; "not" !&a; "neg" -&i; "div_rem" if i == I256::MIN { None } else { Some(i.div_rem(j)) }; "div_rem_euclid" if i == I256::MIN { None } else { Some(i.div_rem_euclid(j)) };
        "unsigned div_rem" a.div_rem(b); "unsigned div_rem_euclid" a.div_rem_euclid(b));
    // These may panic or wrap; they may not do anything worse.
    let _ = l.caught(|| i.div_rem(j));
    let _ = l.caught(|| i.div_rem_euclid(j));
    let _ = l.caught(|| (i.overflowing_div_rem(j), i.overflowing_div_rem_euclid(j)));
    let _ = l.caught(|| (a.overflowing_div_rem(b), a.overflowing_div_rem_euclid(b)));
    let _ = l.caught(|| (a.saturating_div_rem(b), i.saturating_div_rem_euclid(j), i.saturating_div_rem(j)));
    l.nontrivial(v != w);
}

/// Error values.
pub fn errors(l: &mut L, v: V, t: &str) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| format!("{t:?} {}", show1(a));
    let mut e = String::new();
    if let Err(x) = t.parse::<U256>() {
        let _ = write!(e, "{x} {x:?} {:?}", x.kind());
    }
    if let Err(x) = t.parse::<I256>() {
        let _ = write!(e, "{x} {x:?} {:?}", x.clone() == x);
    }
    if let Err(x) = u8::try_from(a) {
        let _ = write!(e, "{x} {x:?}");
    }
    if let Err(x) = U256::try_from(i) {
        let _ = write!(e, "{x} {x:?}");
    }
    d!(l, s; "errors" e.is_empty());
    l.nontrivial(true);
}

/// Errors, hashes and whatever else there is to call.
pub fn other(l: &mut L, v: V, w: V) {
    use std::hash::{Hash, Hasher};
    let (a, i) = (U256::of(v), I256::of(w));
    let s = &|| show1(a);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut h);
    i.hash(&mut h);
    let _ = h.finish();
    d!(l, s; "default" U256::default(); "default" I256::default(); "uint!" ethnum::uint!("0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_1"); "int!" ethnum::int!("-170141183460469231731687303715884105729"); "uint!" ethnum::uint!("0b1_0000"); "int!" ethnum::int!("-0o777");
        "as" (a.as_u8() as u64, a.as_i8() as i64); "as" (a.as_u16() as u64, a.as_i16() as i64); "as" (a.as_u32() as u64, a.as_i32() as i64); "as" (a.as_u64(), a.as_i64()); "as" (a.as_u128() as i128, a.as_i128());
        "as" (i.as_u8() as u64, i.as_i8() as i64); "as" (i.as_u16() as u64, i.as_i16() as i64); "as" (i.as_u32() as u64, i.as_i32() as i64); "as" (i.as_u64(), i.as_i64()); "as" (i.as_u128() as i128, i.as_i128()));
    l.nontrivial(v != w);
}

/// What depends on the byte order of the target.
pub fn order(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    m!(l, s; a.to_be(); a.to_le(); a.to_ne_bytes(); i.to_be(); i.to_le(); i.to_ne_bytes());
}

fn three<T>(f: impl FnOnce(&mut MaybeUninit<T>)) -> T {
    let mut r = MaybeUninit::uninit();
    f(&mut r);
    // SAFETY: the intrinsics always write their result.
    unsafe { r.assume_init() }
}

/// The public intrinsics.
pub fn intr_pairs(l: &mut L, v: V, w: V) {
    let (a, b, i, j) = (U256::of(v), U256::of(w), I256::of(v), I256::of(w));
    let s = &|| show2(a, b);
    macro_rules! go {
        (2: $($f:path, $x:ident, $y:ident;)*) => {$( d!(l, s; "intrinsic" { let mut r = $x; $f(&mut r, &$y); r }); )*};
        (3: $($f:path, $x:ident, $y:ident;)*) => {$( d!(l, s; "intrinsic" three(|r| { $f(r, &$x, &$y); })); )*};
        (c: $($f:path, $x:ident, $y:ident;)*) => {$( d!(l, s; "intrinsic" { let mut o = false; (three(|r| { o = $f(r, &$x, &$y); }), o) }); )*};
    }
    go!(2: intr::add2, a, b; intr::sub2, a, b; intr::mul2, a, b; sig::iadd2, i, j; sig::isub2, i, j; sig::imul2, i, j;);
    go!(3: intr::add3, a, b; intr::sub3, a, b; intr::mul3, a, b; sig::iadd3, i, j; sig::isub3, i, j; sig::imul3, i, j;);
    go!(c: intr::uaddc, a, b; intr::iaddc, i, j; intr::usubc, a, b; intr::isubc, i, j; intr::umulc, a, b; intr::imulc, i, j;);
    if w != [0; 4] {
        go!(2: intr::udiv2, a, b; intr::urem2, a, b;);
        go!(3: intr::udiv3, a, b; intr::urem3, a, b;);
        d!(l, s; "udivmod4" { let mut m = MaybeUninit::uninit(); (three(|r| intr::udivmod4(r, &a, &b, Some(&mut m))), unsafe { m.assume_init() }) });
        d!(l, s; "udivmod4" three(|r| intr::udivmod4(r, &a, &b, None)));
        if !(v == alpha::MIN && w == alpha::MAX) {
            go!(2: intr::idiv2, i, j; intr::irem2, i, j;);
            go!(3: intr::idiv3, i, j; intr::irem3, i, j;);
            d!(l, s; "idivmod4" { let mut m = MaybeUninit::uninit(); (three(|r| intr::idivmod4(r, &i, &j, Some(&mut m))), unsafe { m.assume_init() }) });
            d!(l, s; "idivmod4" three(|r| intr::idivmod4(r, &i, &j, None)));
        }
    }
    l.nontrivial(v != w);
}

/// Shifts by intrinsics and operators.
pub fn shifts(l: &mut L, v: V, n: u32) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| format!("{} by {n}", show1(a));
    if n < 256 {
        d!(l, s; "shl2" { let mut r = a; intr::shl2(&mut r, n); r }; "shl3" three(|r| intr::shl3(r, &a, n)); "ishl2" { let mut r = i; sig::ishl2(&mut r, n); r }; "ishl3" three(|r| sig::ishl3(r, &i, n));
            "shr2" { let mut r = a; intr::shr2(&mut r, n); r }; "shr3" three(|r| intr::shr3(r, &a, n)); "sar2" { let mut r = i; intr::sar2(&mut r, n); r }; "sar3" three(|r| intr::sar3(r, &i, n));
            "rol3" three(|r| intr::rol3(r, &a, n)); "ror3" three(|r| intr::ror3(r, &a, n)); "irol3" three(|r| sig::irol3(r, &i, n)); "iror3" three(|r| sig::iror3(r, &i, n));
            "ctlz" intr::ctlz(&a); "cttz" intr::cttz(&a); "ictlz" sig::ictlz(&i); "icttz" sig::icttz(&i);
            "<<" a << n; ">>" a >> n; "<< signed" i << n; ">> signed" i >> n;
            "<< usize" a << n as usize; ">> i128" a >> n as i128; "<< U256" i << U256::from(n); ">> I256" i >> I256::from(n);
            "<<=" { let mut r = a; r <<= n; r }; ">>=" { let mut r = i; r >>= n; r });
    }
    m!(l, s; a.wrapping_shl(n); a.wrapping_shr(n); a.checked_shl(n); a.checked_shr(n); a.overflowing_shl(n); a.overflowing_shr(n); a.rotate_left(n); a.rotate_right(n);
        i.wrapping_shl(n); i.wrapping_shr(n); i.checked_shl(n); i.checked_shr(n); i.overflowing_shl(n); i.overflowing_shr(n); i.rotate_left(n); i.rotate_right(n));
    l.nontrivial(n > 0);
}

impl Mix for Out {
    fn mix(&self, l: &mut L) {
        match self {
            Out::Str(s) => s.mix(l),
            Out::Bytes(b) => {
                l.mix(b.len() as u64);
                for x in b {
                    l.mix(*x as u64)
                }
            }
            Out::Other => l.mix(0x0dd),
        }
    }
}

/// Every serde scheme, both ways.
pub fn serde_values(l: &mut L, v: V) {
    use ethnum::serde::*;
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    macro_rules! scheme {
        ($name:literal, $m:path) => {{
            use $m as scheme;
            d!(l, s; $name scheme::serialize(&a, Record).map_err(|_| ()); $name scheme::serialize(&i, Record).map_err(|_| ()));
            for o in [scheme::serialize(&a, Record), scheme::serialize(&i, Record)] {
                match o {
                    Ok(Out::Str(t)) => {
                        d!(l, s; $name scheme::deserialize::<U256, _>(Tok::Str(&t)).map_err(|_| ()); $name scheme::deserialize::<I256, _>(Tok::Owned(&t)).map_err(|_| ()));
                    }
                    Ok(Out::Bytes(b)) => {
                        d!(l, s; $name scheme::deserialize::<U256, _>(Tok::Bytes(&b)).map_err(|_| ()); $name scheme::deserialize::<I256, _>(Tok::ByteBuf(&b)).map_err(|_| ());
                            $name scheme::deserialize::<U256, _>(Tok::Seq(&b, Hint::Exact)).map_err(|_| ()); $name scheme::deserialize::<I256, _>(Tok::Seq(&b, Hint::Unknown)).map_err(|_| ()));
                    }
                    _ => {}
                }
            }
        }};
    }
    scheme!("decimal", ethnum::serde::decimal);
    scheme!("prefixed", ethnum::serde::prefixed);
    scheme!("permissive", ethnum::serde::permissive);
    scheme!("bytes::le", ethnum::serde::bytes::le);
    scheme!("bytes::be", ethnum::serde::bytes::be);
    scheme!("compressed_bytes::le", ethnum::serde::compressed_bytes::le);
    scheme!("compressed_bytes::be", ethnum::serde::compressed_bytes::be);
    d!(l, s; "serialize" serde::Serialize::serialize(&a, Record).map_err(|_| ()); "serialize" serde::Serialize::serialize(&i, Record).map_err(|_| ()));
    let (lo, hi) = ((v[1] as u128) << 64 | v[0] as u128, v[3]);
    for t in [Tok::U128(lo), Tok::I128(lo as i128), Tok::U64(lo as u64), Tok::I64(lo as i64), Tok::F64(f64::from_bits(hi)), Tok::F32(f32::from_bits(hi as u32)), Tok::F64(lo as u32 as f64)] {
        d!(l, s; "permissive number" permissive::deserialize::<U256, _>(t).map_err(|_| ()); "permissive number" permissive::deserialize::<I256, _>(t).map_err(|_| ()));
    }
    l.nontrivial(v != [0; 4]);
}

/// Byte strings of any length through the byte schemes.
pub fn serde_lengths(l: &mut L, len: usize, fill: u8) {
    let b: Vec<u8> = (0..len).map(|k| fill.wrapping_add(k as u8)).collect();
    let s = &|| format!("{b:?}");
    for t in [Tok::Bytes(&b), Tok::BorrowedBytes(&b), Tok::ByteBuf(&b), Tok::Seq(&b, Hint::Exact), Tok::Seq(&b, Hint::Unknown), Tok::Seq(&b, Hint::Says(32)), Tok::Seq(&b, Hint::Says(1)), Tok::Seq(&b, Hint::Says(0)), Tok::Seq(&b, Hint::Says(usize::MAX))] {
        use ethnum::serde::{bytes, compressed_bytes as comp};
        d!(l, s; "bytes::le" bytes::le::deserialize::<U256, _>(t).map_err(|_| ()); "bytes::be" bytes::be::deserialize::<I256, _>(t).map_err(|_| ());
            "bytes::le" bytes::le::deserialize::<I256, _>(t).map_err(|_| ()); "bytes::be" bytes::be::deserialize::<U256, _>(t).map_err(|_| ());
            "compressed_bytes::le" comp::le::deserialize::<U256, _>(t).map_err(|_| ()); "compressed_bytes::be" comp::be::deserialize::<I256, _>(t).map_err(|_| ());
            "compressed_bytes::le" comp::le::deserialize::<I256, _>(t).map_err(|_| ()); "compressed_bytes::be" comp::be::deserialize::<U256, _>(t).map_err(|_| ()));
    }
    // Where a text is expected.
    for t in [Tok::Bytes(&b), Tok::ByteBuf(&b)] {
        use ethnum::serde::{decimal, permissive, prefixed};
        d!(l, s; "decimal of bytes" decimal::deserialize::<U256, _>(t).map_err(|_| ()); "prefixed of bytes" prefixed::deserialize::<I256, _>(t).map_err(|_| ());
            "permissive of bytes" permissive::deserialize::<U256, _>(t).map_err(|_| ()); "deserialize of bytes" <I256 as serde::Deserialize>::deserialize(t).map_err(|_| ()));
    }
    l.nontrivial(len > 0);
}

/// Texts of any length and radix, and strange ones.
pub fn parse_lengths(l: &mut L, len: usize, radix: u32, which: usize) {
    let digits = b"0123456789abcdefghijklmnopqrstuvwxyz";
    let c = [digits[radix as usize - 1], b'1', b'0', digits[radix as usize - 1].to_ascii_uppercase()][which % 4] as char;
    let body: String = std::iter::repeat(c).take(len).collect();
    for t in [body.clone(), format!("-{body}"), format!("+{body}"), format!("0x{body}"), format!("-0b{body}"), format!("{body}é"), format!("{body}_")] {
        let s = &|| format!("{t:?} radix {radix}");
        d!(l, s; "from_str_radix" U256::from_str_radix(&t, radix).map_err(|_| ()); "from_str_radix" I256::from_str_radix(&t, radix).map_err(|_| ());
            "parse" t.parse::<U256>().map_err(|_| ()); "parse" t.parse::<I256>().map_err(|_| ());
            "from_str_hex" U256::from_str_hex(&t).map_err(|_| ()); "from_str_hex" I256::from_str_hex(&t).map_err(|_| ());
            "from_str_prefixed" U256::from_str_prefixed(&t).map_err(|_| ()); "from_str_prefixed" I256::from_str_prefixed(&t).map_err(|_| ()));
    }
    l.nontrivial(len > 0);
}

/// Formatting with run-time widths and precisions.
pub fn widths(l: &mut L, v: V, w: usize) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    let mut t = String::new();
    let _ = write!(t, "{a:w$}|{a:<#w$x}|{a:^+w$b}|{a:>#0w$o}|{a:*^#w$X}|{i:w$}|{i:<#w$x}|{i:^+w$b}|{i:>#0w$o}|{i:é^#w$X}|{a:.w$e}|{i:+.w$E}|{a:w$e}|{i:0w$?}");
    d!(l, s; "formatting" t);
    l.nontrivial(w > 1);
}

/// Conversions, words, iterators, comparisons with primitives.
pub fn misc(l: &mut L, v: V, w: V) {
    let (a, b, i, j) = (U256::of(v), U256::of(w), I256::of(v), I256::of(w));
    let s = &|| show2(a, b);
    macro_rules! to {
        ($($t:ident)*) => {$(
            d!(l, s; "try_from" <$t>::try_from(a).map(|x| x as i128).map_err(|_| ()); "try_from" <$t>::try_from(i).map(|x| x as i128).map_err(|_| ());
                "as" (v[0] as $t).as_u256(); "as" (v[0] as $t).as_i256(); "try_from" U256::try_from(v[0] as $t).map_err(|_| ());
                "as_u256 of a cast" (a.as_u128() as $t).as_u256());
        )*};
    }
    to!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
    d!(l, s; "try_from" U256::try_from(i).map_err(|_| ()); "try_from" I256::try_from(a).map_err(|_| ()); "try_from error" i8::try_from(a).map(|x| x as i64).map_err(|e| { let _ = (e.to_string(), format!("{e:?}")); });
        "from" (I256::from(v[0] as i8), I256::from(v[0] as u64)); "from" (I256::from(v[0] as i128), I256::from(v[0] as u128)); "from" (I256::from(v[0] & 1 == 1), I256::from(v[0] as u32));
        "as_i256" a.as_i256(); "as_u256" i.as_u256(); "words" U256::from_words(a.into_words().1, b.into_words().0);
        "low_mut" { let mut r = a; *r.low_mut() = *b.high(); *r.high_mut() ^= *b.low(); r }; "low_mut signed" { let mut r = i; *r.low_mut() = *j.high(); *r.high_mut() ^= *j.low(); r };
        "from_le_bytes" U256::from_le_bytes(b.to_be_bytes()); "from_be_bytes" I256::from_be_bytes(j.to_le_bytes());
        "cmp" a.partial_cmp(&*b.low()); "eq" a == *b.low(); "lt" *b.low() < a; "eq signed" i == *j.low(); "lt signed" *j.low() < i; "max" a.max(b); "clamp" i.clamp(I256::MIN, j));
    p!(l, s; "sum" [a, b, a].iter().map(|x| x.wrapping_add(U256::ONE) >> 4u32).sum::<U256>(); "product" [i, j].iter().map(|x| *x >> 130u32).product::<I256>(); "sum of references" [i >> 2u32, j >> 2u32].iter().sum::<I256>();
        "+=" { let mut r = a >> 1u32; r += b >> 1u32; r }; "-=" { let mut r = i >> 1u32; r -= &(j >> 1u32); r }; "*=" { let mut r = i >> 130u32; r *= j >> 130u32; r }; "/=" { let mut r = a; r /= &b; r }; "%=" { let mut r = i; r %= 1000i128; r };
        "& |= ^=" { let mut r = a; r &= &b; r |= 5u128; r ^= b; r });
    l.nontrivial(v != w);
}
