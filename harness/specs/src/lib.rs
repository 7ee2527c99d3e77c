//! A table of format specifications, in a crate of its own because it is slow
//! to compile and does not depend on the crate under test.
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerExp, LowerHex, Octal, UpperExp, UpperHex};

pub trait Fmt: Display + Debug + LowerHex + UpperHex + Octal + Binary + LowerExp + UpperExp {}
impl<T: Display + Debug + LowerHex + UpperHex + Octal + Binary + LowerExp + UpperExp> Fmt for T {}

/// Forwards every trait with the formatter it is given, so that the table of
/// format specifications is compiled once for all types.
pub struct W<'a>(pub &'a dyn Fmt);
macro_rules! forward {
    ($($t:ident),*) => {$(
        impl $t for W<'_> {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                $t::fmt(self.0, f)
            }
        }
    )*};
}
forward!(Display, Debug, LowerHex, UpperHex, Octal, Binary, LowerExp, UpperExp);

pub struct Spec {
    pub fill_align: &'static str,
    pub sign: &'static str,
    pub alt: &'static str,
    pub zero: &'static str,
    pub prec: &'static str,
    pub ty: &'static str,
    pub f: fn(&W, usize) -> String,
    /// The exponent types of f64, for comparison.
    pub e: Option<fn(f64, usize) -> String>,
}
impl Spec {
    pub fn text(&self, w: usize) -> String {
        format!("{{:{}{}{}{}{}{}{}}}", self.fill_align, self.sign, self.alt, self.zero, w, self.prec, self.ty)
    }
}

macro_rules! types {
    ($v:ident; $a:literal, $s:literal, $h:literal, $z:literal, $p:literal) => {
        types!(@ $v; $a, $s, $h, $z, $p; "", "?", "x", "X", "o", "b", "x?", "X?");
        types!(@e $v; $a, $s, $h, $z, $p; "e", "E");
    };
    (@ $v:ident; $a:literal, $s:literal, $h:literal, $z:literal, $p:literal; $($t:literal),*) => {$(
        $v.push(Spec {
            fill_align: $a, sign: $s, alt: $h, zero: $z, prec: $p, ty: $t,
            f: |v, w| format!(concat!("{:", $a, $s, $h, $z, "w$", $p, $t, "}"), v, w = w),
            e: None,
        });
    )*};
    (@e $v:ident; $a:literal, $s:literal, $h:literal, $z:literal, $p:literal; $($t:literal),*) => {$(
        $v.push(Spec {
            fill_align: $a, sign: $s, alt: $h, zero: $z, prec: $p, ty: $t,
            f: |v, w| format!(concat!("{:", $a, $s, $h, $z, "w$", $p, $t, "}"), v, w = w),
            e: Some(|v, w| format!(concat!("{:", $a, $s, $h, $z, "w$", $p, $t, "}"), v, w = w)),
        });
    )*};
}
macro_rules! precs {
    ($v:ident; $($x:literal),*) => { types!($v; $($x),*, ""); types!($v; $($x),*, ".3"); };
}
macro_rules! zeros {
    ($v:ident; $($x:literal),*) => { precs!($v; $($x),*, ""); precs!($v; $($x),*, "0"); };
}
macro_rules! alts {
    ($v:ident; $($x:literal),*) => { zeros!($v; $($x),*, ""); zeros!($v; $($x),*, "#"); };
}
macro_rules! signs {
    ($v:ident; $($x:literal),*) => {$( alts!($v; $x, ""); alts!($v; $x, "+"); alts!($v; $x, "-"); )*};
}
pub fn specs() -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    signs!(v; "", "<", "^", ">", "*<", "_^", "0>", "\u{e9}^", "-<", "#>");
    v
}

