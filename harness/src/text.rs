//! The grammar of integer strings, as a model independent of the parser.
use crate::z::Z;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Empty,
    Invalid,
    Pos,
    Neg,
}
impl crate::run::Val for Kind {
    fn same(&self, o: &Kind) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
pub fn kind(e: &std::num::ParseIntError) -> Kind {
    use std::num::IntErrorKind::*;
    match e.kind() {
        Empty => Kind::Empty,
        InvalidDigit => Kind::Invalid,
        PosOverflow => Kind::Pos,
        NegOverflow => Kind::Neg,
        other => panic!("unexpected error kind {other:?}"),
    }
}

pub fn digit(c: u8, radix: u32) -> Option<u64> {
    let d = match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'z' => c - b'a' + 10,
        b'A'..=b'Z' => c - b'A' + 10,
        _ => return None,
    } as u32;
    (d < radix).then_some(d as u64)
}

/// What parsing `s` gives, for a type of the given width and signedness: the
/// first offending character decides the error.
pub fn parse(s: &[u8], radix: u32, signed: bool, bits: u32, prefix: &[u8]) -> Result<Z, Kind> {
    if s.is_empty() {
        return Err(Kind::Empty);
    }
    let (neg, rest) = match s[0] {
        b'+' => (false, &s[1..]),
        b'-' if signed => (true, &s[1..]),
        _ => (false, s),
    };
    let rest = rest.strip_prefix(prefix).ok_or(Kind::Invalid)?;
    if rest.is_empty() {
        return Err(Kind::Invalid);
    }
    let max = Z::pow2(bits - signed as u32).sub(if neg { Z::ZERO } else { Z::ONE });
    let mut v = Z::ZERO;
    for &c in rest {
        let d = digit(c, radix).ok_or(Kind::Invalid)?;
        v = muladd(v, radix as u64, d);
        if max.lt(v) {
            return Err(if neg { Kind::Neg } else { Kind::Pos });
        }
    }
    Ok(if neg { v.neg() } else { v })
}

/// v * m + d for numbers far from the limit of the model.
fn muladd(v: Z, m: u64, d: u64) -> Z {
    let mut r = v.0;
    let mut c = d as u128;
    for x in r.iter_mut() {
        c += *x as u128 * m as u128;
        *x = c as u64;
        c >>= 64;
    }
    Z(r)
}

/// The i-th string over an alphabet, shortest first.
pub fn nth(alphabet: &[&str], mut i: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    let mut count = 1u64;
    while i >= count {
        i -= count;
        count *= k;
        len += 1;
    }
    let mut out = vec![];
    for _ in 0..len {
        out.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    out.reverse();
    out.concat()
}
/// How many strings of at most `len` symbols there are.
pub fn count(alphabet: &[&str], len: u32) -> usize {
    let k = alphabet.len();
    (0..=len).map(|n| k.pow(n)).sum()
}
/// Alternating case, starting with upper case.
pub fn mixed(s: &str) -> String {
    s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect()
}

pub const PREFIXES: [(&[u8], u32); 3] = [(b"0b", 2), (b"0o", 8), (b"0x", 16)];

/// Splits an optional sign off.
pub fn sign(s: &[u8], signed: bool) -> (bool, &[u8]) {
    match s.first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if signed => (true, &s[1..]),
        _ => (false, s),
    }
}

pub fn hex(s: &[u8], signed: bool) -> Option<Z> {
    parse(s, 16, signed, 256, b"0x").ok()
}

pub fn prefixed(s: &[u8], signed: bool) -> Option<Z> {
    let (_, rest) = sign(s, signed);
    for (p, radix) in PREFIXES {
        if rest.starts_with(p) {
            return parse(s, radix, signed, 256, p).ok();
        }
    }
    parse(s, 10, signed, 256, b"").ok()
}
