//! C13: formatting.
use mc::alpha::{self, V};
use mc::float::to_float;
use mc::*;
use specs::{specs, Spec, W};
use std::str::FromStr;

/// The documented meaning of a format specification for an integer.
fn model(z: Z, bits: Z, s: &Spec, width: usize, minus_extension: bool) -> String {
    let (radix, prefix) = match s.ty {
        "x" | "X" | "x?" | "X?" => (16, "0x"),
        "o" => (8, "0o"),
        "b" => (2, "0b"),
        _ => (10, ""),
    };
    let neg = z.is_neg();
    let (sign, mag) = if radix == 10 || (neg && minus_extension && s.sign == "-") {
        (if neg { "-" } else { "" }, z.abs())
    } else {
        ("", bits)
    };
    let sign = if sign.is_empty() && s.sign == "+" { "+" } else { sign };
    let mut digits = mag.digits(radix);
    if s.ty.starts_with('X') {
        digits = digits.to_uppercase();
    }
    let prefix = if s.alt == "#" { prefix } else { "" };
    let len = sign.len() + prefix.len() + digits.len();
    if len >= width {
        return format!("{sign}{prefix}{digits}");
    }
    let pad = width - len;
    if s.zero == "0" {
        return format!("{sign}{prefix}{}{digits}", "0".repeat(pad));
    }
    let mut c = s.fill_align.chars();
    let (fill, align) = match (c.next(), c.next()) {
        (Some(f), Some(a)) => (f, a),
        (Some(a), None) => (' ', a),
        _ => (' ', '>'),
    };
    let (before, after) = match align {
        '<' => (0, pad),
        '^' => (pad / 2, pad - pad / 2),
        _ => (pad, 0),
    };
    let rep = |n| fill.to_string().repeat(n);
    format!("{}{sign}{prefix}{digits}{}", rep(before), rep(after))
}

fn apply(l: &mut L, s: &Spec, w: usize, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    if let Some(e) = s.e {
        // Documented: an approximation through f64.
        let (fu, fi) = (f64::from_bits(to_float(u.z(), 52, 11)), f64::from_bits(to_float(i.z(), 52, 11)));
        chk!(l, "U256 exponent format", &|| format!("{} spec {}", show1(u), s.text(w)), (s.f)(&W(&u), w), e(fu, w));
        chk!(l, "I256 exponent format", &|| format!("{} spec {}", show1(i), s.text(w)), (s.f)(&W(&i), w), e(fi, w));
        return;
    }
    let want = model(u.z(), u.z(), s, w, true);
    chk!(l, "U256 format", &|| format!("{} spec {}", show1(u), s.text(w)), (s.f)(&W(&u), w), want);
    let want = model(i.z(), u.z(), s, w, true);
    chk!(l, "I256 format", &|| format!("{} spec {}", show1(i), s.text(w)), (s.f)(&W(&i), w), want);
}

/// The model against primitive integers.
fn bind(l: &mut L, s: &Spec, w: usize, x: u128) {
    if s.e.is_some() {
        return;
    }
    let a = &|| format!("{x} spec {}", s.text(w));
    let z = Z::u(x);
    chk!(l, "model u128", a, (s.f)(&W(&x), w), model(z, z, s, w, false));
    let y = x as i128;
    chk!(l, "model i128", a, (s.f)(&W(&y), w), model(Z::i(y), z, s, w, false));
    let y = x as i8;
    chk!(l, "model i8", a, (s.f)(&W(&y), w), model(Z::i(y as i128), Z::u(x as u8 as u128), s, w, false));
}

fn digits(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let (zu, zi) = (u.z(), i.z());
    let au = &|| show1(u);
    let ai = &|| show1(i);
    let dec = zu.dec();
    let idec = zi.dec();
    chk!(l, "U256 {}", au, u.to_string(), dec.clone());
    chk!(l, "I256 {}", ai, i.to_string(), idec.clone());
    chk!(l, "U256 {:?}", au, format!("{u:?}"), dec.clone());
    chk!(l, "I256 {:?}", ai, format!("{i:?}"), idec.clone());
    let (x, o, b) = (zu.digits(16), zu.digits(8), zu.digits(2));
    chk!(l, "U256 {:x}", au, format!("{u:x}"), x.clone());
    chk!(l, "I256 {:x}", ai, format!("{i:x}"), x.clone());
    chk!(l, "U256 {:X}", au, format!("{u:X}"), x.to_uppercase());
    chk!(l, "I256 {:X}", ai, format!("{i:X}"), x.to_uppercase());
    chk!(l, "U256 {:#o}", au, format!("{u:#o}"), format!("0o{o}"));
    chk!(l, "I256 {:#o}", ai, format!("{i:#o}"), format!("0o{o}"));
    chk!(l, "U256 {:#b}", au, format!("{u:#b}"), format!("0b{b}"));
    chk!(l, "I256 {:#b}", ai, format!("{i:#b}"), format!("0b{b}"));
    let (s, m) = if zi.is_neg() { ("-", zi.neg()) } else { ("", zi) };
    chk!(l, "I256 {:-#x}", ai, format!("{i:-#x}"), format!("{s}0x{}", m.digits(16)));
    chk!(l, "I256 {:-o}", ai, format!("{i:-o}"), format!("{s}{}", m.digits(8)));
    chk!(l, "I256 {:-b}", ai, format!("{i:-b}"), format!("{s}{}", m.digits(2)));
    // Reading a rendered number back.
    chk!(l, "U256 decimal read back", au, U256::from_str(&u.to_string()).ok(), Some(u));
    chk!(l, "I256 decimal read back", ai, I256::from_str(&i.to_string()).ok(), Some(i));
    chk!(l, "U256 hex read back", au, U256::from_str_radix(&format!("{u:x}"), 16).ok(), Some(u));
    chk!(l, "U256 octal read back", au, U256::from_str_radix(&format!("{u:o}"), 8).ok(), Some(u));
    chk!(l, "U256 binary read back", au, U256::from_str_radix(&format!("{u:b}"), 2).ok(), Some(u));
    chk!(l, "U256 prefixed read back", au, U256::from_str_prefixed(&format!("{u:#X}")).ok(), Some(u));
    chk!(l, "I256 hex read back", ai, I256::from_str_hex(&format!("{i:-#x}")).ok(), Some(i));
    chk!(l, "I256 prefixed read back", ai, I256::from_str_prefixed(&format!("{i:-#b}")).ok(), Some(i));
    l.nontrivial(v[1] | v[2] | v[3] != 0);
}

/// Decimal text of a number with the group of four digits `g` at decimal
/// position `at` over a background of nothing, sevens or nines below it.
fn group(l: &mut L, g: u32, at: usize, ground: usize) {
    let mut t = format!("{g:04}");
    match ground {
        0 => t.push_str(&"0".repeat(at)),
        1 => t.push_str(&"7".repeat(at)),
        _ => t = format!("1{}{t}{}", "9".repeat(7), "9".repeat(at)),
    }
    let t = t.trim_start_matches('0');
    let t = if t.is_empty() { "0" } else { t };
    let Ok(z) = mc::text::parse(t.as_bytes(), 10, false, 256, b"") else { return };
    let u = U256::wrap(z);
    chk!(l, "U256 {}", &|| show1(u), u.to_string(), t.to_string());
    if z.fits_i() {
        let (i, n) = (I256::wrap(z), I256::wrap(z.neg()));
        chk!(l, "I256 {}", &|| show1(i), i.to_string(), t.to_string());
        let t = if t == "0" { t.to_string() } else { format!("-{t}") };
        chk!(l, "I256 {}", &|| show1(n), n.to_string(), t);
    }
    l.nontrivial(t.len() > 4);
}

fn exponents(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let (fu, fi) = (f64::from_bits(to_float(u.z(), 52, 11)), f64::from_bits(to_float(i.z(), 52, 11)));
    chk!(l, "U256 {:e}", &|| show1(u), format!("{u:e}"), format!("{fu:e}"));
    chk!(l, "I256 {:E}", &|| show1(i), format!("{i:E}"), format!("{fi:E}"));
}

/// A writer with room for so many bytes, which takes what fits of the text
/// that overflows it, or refuses it whole.
struct Room {
    left: usize,
    partly: bool,
    got: String,
}
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.left);
        if n == s.len() {
            self.left -= n;
            self.got.push_str(s);
            return Ok(());
        }
        if self.partly {
            self.got.push_str(&s[..n]);
        }
        self.left = 0;
        Err(std::fmt::Error)
    }
}
/// A writer that refuses one of the pieces it is given, and no other.
struct Once {
    at: usize,
    calls: usize,
    before: String,
}
impl std::fmt::Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.calls <= self.at {
            self.before.push_str(s);
        }
        if self.calls - 1 == self.at {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
macro_rules! cut {
    ($l:expr, $x:expr, $($f:literal)*) => {{
        use std::fmt::Write;
        $(
            let text = format!($f, $x);
            let mut all = Once { at: usize::MAX, calls: 0, before: String::new() };
            let a = &|| show1($x);
            chk!($l, concat!("write ", $f), a, write!(all, $f, $x).is_ok(), true);
            chk!($l, concat!("write ", $f), a, all.before, text.clone());
            for at in 0..all.calls {
                let mut w = Once { at, calls: 0, before: String::new() };
                let a = &|| format!("{} with piece {at} refused", show1($x));
                chk!($l, concat!("write ", $f, ": succeeded"), a, write!(w, $f, $x).is_ok(), false);
                chk!($l, concat!("write ", $f, ": written"), a, Some(w.before.clone()), text.get(..w.before.len()).map(str::to_string));
            }
            for left in 0..=text.len() + 1 {
                for partly in [true, false] {
                    let mut w = Room { left, partly, got: String::new() };
                    let a = &|| format!("{} with room for {left} bytes", show1($x));
                    chk!($l, concat!("write ", $f, ": succeeded"), a, write!(w, $f, $x).is_ok(), left >= text.len());
                    let n = if left >= text.len() { text.len() } else if partly { left } else { w.got.len() };
                    chk!($l, concat!("write ", $f, ": written"), a, Some(w.got.clone()), text.get(..n).map(str::to_string));
                }
            }
        )*
    }};
}
fn cut_off(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    cut!(l, u, "{}" "{:?}" "{:x}" "{:#X}" "{:#o}" "{:b}" "{:+}" "{:090}" "{:<85}" "{:*^85}" "{:#070x}" "{:e}" "{:>20E}");
    cut!(l, i, "{}" "{:?}" "{:x}" "{:#X}" "{:#o}" "{:b}" "{:+}" "{:090}" "{:<85}" "{:*^85}" "{:-#070x}" "{:e}" "{:>20E}");
    l.nontrivial(v[1] | v[2] | v[3] != 0);
}

/// Numbers inside other things.
#[derive(Debug)]
#[allow(dead_code)]
struct Pair<T> {
    a: T,
    b: Option<T>,
}
macro_rules! inside {
    ($l:expr, $x:expr, $($f:literal)*) => {{
        let a = &|| show1($x);
        $(
            let t = format!($f, $x);
            let pretty = $f.contains('#');
            let want = if pretty { format!("Pair {{\n    a: {t},\n    b: Some(\n        {t},\n    ),\n}}") } else { format!("Pair {{ a: {t}, b: Some({t}) }}") };
            chk!($l, concat!($f, " of a structure"), a, format!($f, Pair { a: $x, b: Some($x) }), want);
            let want = if pretty { format!("[\n    {t},\n    {t},\n]") } else { format!("[{t}, {t}]") };
            chk!($l, concat!($f, " of a list"), a, format!($f, [$x, $x]), want);
            chk!($l, concat!($f, " of a reference"), a, format!($f, &&$x), t);
        )*
        chk!($l, "{} between texts", a, format!("<{}|{1:>90}|{0:x}>", $x, $x), format!("<{}|{}{}|{}>", $x, " ".repeat(90 - $x.to_string().len()), $x, format!("{:x}", $x)));
        chk!($l, "{:1$.2$}", a, format!("{:1$}|{0:.2$}", $x, 81, 3), format!("{:>81}|{}", $x.to_string(), $x));
    }};
}
fn nested(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    inside!(l, u, "{:?}" "{:#?}" "{:x?}" "{:#X?}" "{:+?}" "{:80?}" "{:#09x?}");
    inside!(l, i, "{:?}" "{:#?}" "{:x?}" "{:#X?}" "{:+?}" "{:80?}" "{:#09x?}");
    l.nontrivial(v[1] | v[2] | v[3] != 0);
}

fn spaces(env: &Env) -> Vec<Space> {
    let vals = if env.quick {
        alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::pows(&[-1, 0, 1]), alpha::limbs(&alpha::L7), alpha::decimals(), alpha::small(20_000), alpha::bytes_at(), alpha::radix_pows(&[-1, 0, 1]), alpha::runs()])
    } else {
        alpha::unary(env)
    };
    let ev: Vec<V> = vals.iter().copied().step_by(if env.quick { 3 } else { 1 }).collect();
    let shapes: Vec<V> = {
        let mut v: Vec<V> = [0u64, 1, 7, 9, 10, 16, 42, 99, 100, 255, 9999, 10000, 99999].iter().map(|x| [*x, 0, 0, 0]).collect();
        v.extend(v.clone().iter().map(|x| alpha::neg(*x)));
        v.extend([alpha::MIN, alpha::not(alpha::MIN), alpha::addc(alpha::MIN, 1), alpha::pow2(127), alpha::pow2(128), alpha::neg(alpha::pow2(128)), alpha::pow2(64), [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x0796_a5b4_c3d2_e1f0], [0xabcd_ef01_2345_6789, 0, 0, 0x8796_a5b4_c3d2_e1f0]]);
        if !env.quick {
            v.extend(alpha::core());
            v.extend(alpha::decimals().into_iter().step_by(17));
        }
        alpha::dedup(v)
    };
    let cv = shapes.clone();
    let nv2 = alpha::union(vec![shapes.clone(), alpha::core(), alpha::decimals()]);
    let widths: Vec<usize> = if env.quick { vec![0, 1, 2, 3, 4, 5, 8, 20, 64, 66, 67, 77, 78, 79, 80, 86, 89, 100, 255, 256, 257, 258, 259, 300] } else { (0..=300).step_by(3).chain([1, 2, 4, 5, 65, 67, 77, 79, 80, 86, 88, 256, 257, 259, 1000]).collect() };
    let (nw, nv) = (widths.len(), shapes.len());
    let prims: Vec<u128> = {
        let mut v: Vec<u128> = vec![0, 1, 7, 9, 10, 42, 99, 255, 9999, 10000, u128::MAX, 1 << 127, (1 << 127) - 1, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210];
        v.extend(v.clone().iter().map(|x| x.wrapping_neg()));
        v.sort();
        v.dedup();
        v
    };
    let np = prims.len();
    let table = specs();
    let table2 = specs();
    let table3 = specs();
    let ns = table.len();
    let widths2 = widths.clone();
    vec![
        space("model", "the model of format specifications against u128, i128 and i8", ns * nw * np, move |i, l| {
            let (s, k) = pair(i, nw * np);
            bind(l, &table2[s], widths2[k / np], prims[k % np]);
        }),
        space("specifications", "all combinations of ten fill/alignments, sign, #, 0, precision and ten types, at all widths and on all value shapes", ns * nw * nv, move |i, l| {
            let (s, k) = pair(i, nw * nv);
            apply(l, &table[s], widths[k / nv], shapes[k % nv]);
            l.nontrivial(true);
        }),
        space("very wide", "all those combinations at widths of 1000, 4096 and 65535", ns * 3 * 2, move |i, l| {
            let (s, k) = pair(i, 6);
            apply(l, &table3[s], [1000, 4096, 65535][k / 2], [alpha::neg([42, 0, 0, 0]), [0x1_0000, 0, 7, 0]][k % 2]);
            l.nontrivial(true);
        }),
        space("digits", "plain forms of every type on the alphabet, and reading the text back", vals.len(), move |i, l| digits(l, vals[i as usize])),
        space("groups", "decimal text of numbers with every group of four digits at every decimal position, over three backgrounds", 10_000 * 75 * 3, |i, l| {
            let (g, k) = pair(i, 75 * 3);
            group(l, g as u32, k / 3, k % 3);
        }),
        space("cut off", "thirteen forms each, written to every too small room: the failure is passed on, and what came before it is a beginning of the text", cv.len(), move |i, l| cut_off(l, cv[i as usize])),
        space("nested", "numbers inside structures, lists, references and among other arguments", nv2.len(), move |i, l| nested(l, nv2[i as usize])),
        space("exponents", "exponent forms on the alphabet", ev.len(), move |i, l| exponents(l, ev[i as usize])),
    ]
}

fn main() {
    mc::run::main("C13", spaces)
}
