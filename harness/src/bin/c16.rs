//! C16: the serde string formats.
use mc::alpha::{self, V};
use mc::text::{self, hex, prefixed};
use mc::tok::*;
use mc::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy)]
enum Scheme {
    Default,
    Decimal,
    Prefixed,
    Permissive,
}
use Scheme::*;
const ALL: [Scheme; 4] = [Default, Decimal, Prefixed, Permissive];

/// The schemes of a type (named by it, not by the traits behind them).
trait Schemes: Sized {
    fn ser<S: serde::Serializer>(k: Scheme, v: &Self, s: S) -> Result<S::Ok, S::Error>;
    fn de<'de, D: serde::Deserializer<'de>>(k: Scheme, d: D) -> Result<Self, D::Error>;
}
macro_rules! schemes {
    ($($t:ident)*) => {$(
        impl Schemes for $t {
            fn ser<S: serde::Serializer>(k: Scheme, v: &Self, s: S) -> Result<S::Ok, S::Error> {
                match k {
                    Default => v.serialize(s),
                    Decimal => ethnum::serde::decimal::serialize(v, s),
                    Prefixed => ethnum::serde::prefixed::serialize(v, s),
                    Permissive => ethnum::serde::permissive::serialize(v, s),
                }
            }
            fn de<'de, D: serde::Deserializer<'de>>(k: Scheme, d: D) -> Result<Self, D::Error> {
                match k {
                    Default => $t::deserialize(d),
                    Decimal => ethnum::serde::decimal::deserialize(d),
                    Prefixed => ethnum::serde::prefixed::deserialize(d),
                    Permissive => ethnum::serde::permissive::deserialize(d),
                }
            }
        }
    )*};
}
schemes!(U256 I256);
fn ser<T: Schemes, S: serde::Serializer>(k: Scheme, v: &T, s: S) -> Result<S::Ok, S::Error> {
    T::ser(k, v, s)
}
fn de<'de, T: Schemes, D: serde::Deserializer<'de>>(k: Scheme, d: D) -> Result<T, D::Error> {
    T::de(k, d)
}
fn name(k: Scheme, what: usize) -> &'static str {
    match k {
        Default => ["serialize", "deserialize"][what],
        Decimal => ["decimal::serialize", "decimal::deserialize"][what],
        Prefixed => ["prefixed::serialize", "prefixed::deserialize"][what],
        Permissive => ["permissive::serialize", "permissive::deserialize"][what],
    }
}
fn canonical<T: Int>(k: Scheme, v: T) -> String {
    let z = v.z();
    match k {
        Decimal => z.dec(),
        _ if z.is_neg() => format!("-0x{}", z.neg().digits(16)),
        _ => format!("0x{}", z.digits(16)),
    }
}
/// What a string denotes under a scheme.
fn denotes<T: Int>(k: Scheme, s: &str) -> Option<T> {
    let z = match k {
        Default => hex(s.as_bytes(), T::SIGNED),
        Decimal => text::parse(s.as_bytes(), 10, T::SIGNED, 256, b"").ok(),
        Prefixed | Permissive => prefixed(s.as_bytes(), T::SIGNED),
    };
    z.map(T::wrap)
}

macro_rules! both {
    ($f:ident!($($a:expr),*)) => { $f!($($a),*, U256); $f!($($a),*, I256); };
}

macro_rules! strings {
    ($l:expr, $s:expr, $deep:expr, $t:ident) => {{
        let s: &str = $s;
        for k in ALL {
            let want: Option<$t> = denotes(k, s);
            $l.tag(if want.is_some() { "accepted" } else { "refused" });
            let a = &|| format!("{} {:?}", $t::NAME, s);
            chk!($l, name(k, 1), a, de::<$t, _>(k, Tok::Str(s)).ok(), want);
            if $deep {
                chk!($l, name(k, 1), a, de::<$t, _>(k, Tok::Borrowed(s)).ok(), want);
                chk!($l, name(k, 1), a, de::<$t, _>(k, Tok::Owned(s)).ok(), want);
                // Text that arrives as bytes may be refused, not misread.
                for t in [Tok::Bytes(s.as_bytes()), Tok::ByteBuf(s.as_bytes())] {
                    let got = de::<$t, _>(k, t).ok();
                    let want = if got.is_some() { want } else { None };
                    chk!($l, name(k, 1), a, got, want);
                }
            }
        }
    }};
}

macro_rules! roundtrip {
    ($l:expr, $v:expr, $t:ident) => {{
        let x = $t::of($v);
        let a = &|| show1(x);
        for k in ALL {
            let c = canonical(k, x);
            chk!($l, name(k, 0), a, ser(k, &x, Record), Ok(Out::Str(c.clone())));
            for t in [Tok::Str(&c), Tok::Borrowed(&c), Tok::Owned(&c)] {
                chk!($l, name(k, 1), a, de::<$t, _>(k, t).ok(), Some(x));
            }
            if let (Some(d), 1) = (c.chars().next(), c.len()) {
                chk!($l, name(k, 1), a, de::<$t, _>(k, Tok::Char(d)).ok(), Some(x));
            }
            // (formats that do not tell text and bytes apart)
            if !matches!(k, Permissive) {
                for t in [Tok::Bytes(c.as_bytes()), Tok::BorrowedBytes(c.as_bytes()), Tok::ByteBuf(c.as_bytes())] {
                    chk!($l, name(k, 1), a, de::<$t, _>(k, t).ok(), Some(x));
                }
            }
        }
    }};
}

/// The same under formats of different natures: human readable or not, self
/// describing or not, and out of room.
macro_rules! natures {
    ($l:expr, $v:expr, $t:ident) => {{
        let x = $t::of($v);
        for h in [true, false] {
            let a = &|| format!("{} (human readable: {h})", show1(x));
            for k in ALL {
                let c = canonical(k, x);
                let out = Out::Str(c.clone());
                chk!($l, name(k, 0), a, human(h, || ser(k, &x, Record)), Ok(out.clone()));
                chk!($l, name(k, 1), a, human(h, || de::<$t, _>(k, Tok::Str(&c)).ok()), Some(x));
                if !matches!(k, Permissive) {
                    chk!($l, name(k, 1), a, human(h, || de::<$t, _>(k, Strict(&out)).ok()), Some(x));
                }
                chk!($l, name(k, 0), a, human(h, || full(|| ser(k, &x, Record).is_err())), true);
            }
            let c = canonical(Default, x);
            let mut place = $t::of([!$v[0], 0, !0, 1]);
            chk!($l, "deserialize", a, human(h, || <$t as Deserialize>::deserialize_in_place(Tok::Str(&c), &mut place).is_ok()), true);
            chk!($l, "deserialize", a, place, x);
        }
    }};
}

macro_rules! keys {
    ($l:expr, $v:expr, $t:ident) => {{
        let x = $t::of($v);
        let a = &|| show1(x);
        let m = std::collections::BTreeMap::from([(x, 7u8)]);
        let doc = format!("{{\"{}\":7}}", canonical(Default, x));
        chk!($l, "serialize", a, serde_json::to_string(&m).ok(), Some(doc.clone()));
        let back = serde_json::from_str::<std::collections::BTreeMap<$t, u8>>(&doc).ok();
        chk!($l, "deserialize", a, back.map(|b| b.into_iter().map(|(k, v)| (k.z(), v)).collect::<Vec<_>>() == vec![(x.z(), 7)]), Some(true));
    }};
}

macro_rules! json {
    ($l:expr, $v:expr, $t:ident) => {{
        let x = $t::of($v);
        let a = &|| show1(x);
        for k in ALL {
            let c = canonical(k, x);
            let mut buf = vec![];
            chk!($l, name(k, 0), a, ser(k, &x, &mut serde_json::Serializer::new(&mut buf)).is_ok(), true);
            chk!($l, name(k, 0), a, String::from_utf8(buf.clone()).ok(), Some(format!("\"{c}\"")));
            chk!($l, name(k, 1), a, de::<$t, _>(k, &mut serde_json::Deserializer::from_slice(&buf)).ok(), Some(x));
            // Escaped characters arrive as a borrowed-from-scratch string.
            let esc: String = c.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
            let esc = format!("\"{esc}\"");
            chk!($l, name(k, 1), a, de::<$t, _>(k, &mut serde_json::Deserializer::from_str(&esc)).ok(), Some(x));
            chk!($l, name(k, 1), a, de::<$t, _>(k, serde_json::Value::String(c.clone())).ok(), Some(x));
        }
    }};
}

macro_rules! anything_else {
    ($l:expr, $i:expr, $t:ident) => {{
        let bytes = [0u8, 1, 2];
        let toks = [
            Tok::Bool(true), Tok::Bool(false), Tok::Unit, Tok::None, Tok::Fail, Tok::Seq(&bytes, Hint::Exact), Tok::Seq(&[], Hint::Unknown),
            Tok::Bytes(&[0xff, 0xfe]), Tok::Bytes(&[b'0', b'x', 0xc0, 0x80]), Tok::ByteBuf(&[0x80]), Tok::BorrowedBytes(&[0xe2, 0x82]),
        ];
        let nums = [
            Tok::U8(1), Tok::I8(1), Tok::U16(1), Tok::I16(1), Tok::U32(1), Tok::I32(1), Tok::U64(1), Tok::I64(1), Tok::U128(1), Tok::I128(1), Tok::F32(1.0), Tok::F64(1.0),
        ];
        let i = $i as usize;
        for k in ALL {
            if i < toks.len() {
                let a = &|| format!("{} {:?}", $t::NAME, toks[i]);
                chk!($l, name(k, 1), a, de::<$t, _>(k, toks[i]).ok(), None);
            } else if i - toks.len() < nums.len() && !matches!(k, Permissive) {
                let t = nums[i - toks.len()];
                let a = &|| format!("{} {:?}", $t::NAME, t);
                chk!($l, name(k, 1), a, de::<$t, _>(k, t).ok(), None);
            }
        }
    }};
}

fn spellings(z: Z) -> Vec<String> {
    let d = z.abs().digits(10);
    let h = z.abs().digits(16);
    let b = z.abs().digits(2);
    let o = z.abs().digits(8);
    let mut r = vec![];
    for s in ["", "-", "+", "--", "+-", "-+", " ", "- "] {
        r.push(format!("{s}{d}"));
        r.push(format!("{s}0x{h}"));
        r.push(format!("{s}0X{h}"));
        r.push(format!("{s}{h}"));
        r.push(format!("{s}0x{}", h.to_ascii_uppercase()));
        r.push(format!("{s}0x{}", text::mixed(&h)));
    }
    for s in ["", "-", "+"] {
        r.push(format!("{s}0b{b}"));
        r.push(format!("{s}0o{o}"));
        r.push(format!("{s}0B{b}"));
        r.push(format!("{s}0O{o}"));
        r.push(format!("{s}00{d}"));
        r.push(format!("{s}0x00{h}"));
        r.push(format!("{s}0x{}{h}", "0".repeat(70)));
        r.push(format!("{s}{}{d}", "0".repeat(90)));
        r.push(format!("{s}{d}0"));
        r.push(format!("{s}0x{h}0"));
        r.push(format!("{s}0x{h}g"));
        r.push(format!("{s}{d} "));
        r.push(format!("{s}0x {h}"));
        r.push(format!("{s}0x_{h}"));
        r.push(format!("{s}{d}_"));
        r.push(format!("{s}0x-{h}"));
        r.push(format!("{s}0x0x{h}"));
        r.push(format!("{s}{d}.0"));
        r.push(format!("{s}{d}e0"));
        r.push(format!("0{s}x{h}"));
        r.push(format!("\u{0}{s}{d}"));
        r.push(format!("{s}{d}\u{0}"));
    }
    r
}

/// Lengths past those of any number, up to where 16 bits end.
const LONG: [usize; 20] = [300, 511, 512, 513, 519, 520, 767, 768, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65600];

fn spaces(env: &Env) -> Vec<Space> {
    let vals = alpha::unary(env);
    let n = vals.len();
    let short = ["0", "1", "2", "7", "8", "9", "a", "b", "f", "F", "g", "x", "X", "o", "-", "+", "_", " "];
    let nshort = text::count(&short, if env.quick { 4 } else { 5 });
    let body = ["0", "1", "f", "-", "+", "x", "b", "o"];
    let nbody = text::count(&body, if env.quick { 6 } else { 7 });
    let ascii: Vec<char> = (0..128u8).map(|b| b as char).chain(['\u{80}', 'é', '０', '\u{2212}', '€', '\u{10ffff}']).collect();
    let na = ascii.len();
    let mut sp: Vec<Z> = vec![];
    for v in alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::pows(&[-1, 0, 1]).into_iter().step_by(if env.quick { 2 } else { 1 }).collect()]) {
        let z = Z::from_limbs(v);
        sp.push(z);
        sp.push(z.add(Z::pow2(256)));
    }
    for c in -20..=20 {
        for k in [128u32, 255, 256] {
            sp.push(Z::pow2(k).add(Z::i(c)));
        }
    }
    let nsp = sp.len();
    let nums: Vec<V> = alpha::core();
    let nn = nums.len();
    let bad = ['g', 'G', ' ', '_', '-', '+', 'x', '.', '\u{0}', 'é', '/', ':', '@', '`'];
    let jn = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, true), alpha::pows(&[-1, 0, 1]), alpha::limbs(&alpha::L5)]);
    let njn = jn.len();
    let docs = ["true", "false", "null", "[]", "[1]", "{}", "{\"a\":1}", "[\"0x1\"]", "\"", "", "\"0x1"];
    vec![
        space("round trips", "canonical text and round trip of every value of the unary alphabet, all four schemes, in formats that are human readable or not, self-describing or not, or out of room", n, move |i, l| {
            both!(roundtrip!(l, vals[i as usize]));
            both!(natures!(l, vals[i as usize]));
            l.nontrivial(vals[i as usize][0] > 9 || vals[i as usize][1] > 0);
        }),
        space("json", "the same through JSON documents, plain and escaped, JSON values, and JSON object keys", njn, move |i, l| {
            both!(json!(l, jn[i as usize]));
            both!(keys!(l, jn[i as usize]));
            l.nontrivial(jn[i as usize][0] > 9 || jn[i as usize][1] > 0);
        }),
        space("short strings", "all strings of up to 4 (thorough: 5) symbols of an 18 symbol alphabet", nshort, move |i, l| {
            let s = text::nth(&short, i);
            both!(strings!(l, &s, s.len() <= 2));
            l.nontrivial(prefixed(s.as_bytes(), true).is_some());
        }),
        space("longer strings", "all strings of up to 6 (thorough: 7) symbols of an 8 symbol alphabet", nbody, move |i, l| {
            let s = text::nth(&body, i);
            both!(strings!(l, &s, false));
            l.nontrivial(prefixed(s.as_bytes(), true).is_some());
        }),
        space("characters", "all strings of one and two characters, also after 0x and -0x", na * (na + 1), move |i, l| {
            let (p, q) = pair(i, na + 1);
            let mut s = String::from(ascii[p]);
            if q > 0 {
                s.push(ascii[q - 1]);
            }
            for pre in ["", "0x", "-0x", "-"] {
                let s = format!("{pre}{s}");
                both!(strings!(l, &s, pre.is_empty()));
            }
            l.nontrivial(true);
        }),
        space("spellings", "values and values beyond the range in every spelling: signs, prefixes, cases, leading zeros, separators", nsp, move |i, l| {
            for s in spellings(sp[i as usize]) {
                both!(strings!(l, &s, false));
            }
            l.nontrivial(true);
        }),
        space("very long", "texts of 300 to 65600 characters: leading zeros before values in and out of range", LONG.len() * 4, move |i, l| {
            let (n, r) = pair(i, 4);
            let (n, (p, r)) = (LONG[n], [("", 10), ("0x", 16), ("0o", 8), ("0b", 2)][r]);
            for z in [Z::ZERO, Z::ONE, Z::pow2(255), Z::pow2(256).sub(Z::ONE), Z::pow2(256)] {
                let d = z.digits(r);
                for s in ["", "-"] {
                    let t = format!("{s}{p}{}{d}", "0".repeat(n - d.len().min(n)));
                    both!(strings!(l, &t, false));
                }
            }
            both!(strings!(l, &format!("{p}1{}", "0".repeat(n)), false));
            l.nontrivial(true);
        }),
        space("one bad character", "canonical text with a character inserted or replaced at every position", nn * bad.len(), move |i, l| {
            let (p, q) = pair(i, bad.len());
            let v = I256::of(nums[p]);
            for c in [canonical(Default, v), canonical(Decimal, v)] {
                for at in 0..=c.len() {
                    for skip in [0, 1] {
                        if at + skip <= c.len() {
                            let s = format!("{}{}{}", &c[..at], bad[q], &c[at + skip..]);
                            both!(strings!(l, &s, false));
                        }
                    }
                }
            }
            l.nontrivial(true);
        }),
        space("anything else", "tokens that are not text", 24, move |i, l| {
            both!(anything_else!(l, i));
            l.nontrivial(true);
        }),
        space("json documents", "JSON documents that are no strings or malformed", docs.len(), move |i, l| {
            let d = docs[i as usize];
            for k in ALL {
                let a = &|| format!("{d:?}");
                chk!(l, name(k, 1), a, de::<U256, _>(k, &mut serde_json::Deserializer::from_str(d)).is_ok(), false);
                chk!(l, name(k, 1), a, de::<I256, _>(k, &mut serde_json::Deserializer::from_str(d)).is_ok(), false);
            }
            l.nontrivial(true);
        }),
    ]
}

fn main() {
    mc::run::main("C16", spaces)
}
