//! C12: from_str_hex, from_str_prefixed and the literal parser.
use mc::alpha::{self};
use mc::text::{self, digit, hex, prefixed, sign, PREFIXES};
use mc::*;

enum Lit {
    Value(Z),
    Refused,
    /// Not something the documentation takes a position on.
    Unclear,
}

fn literal(s: &[u8], signed: bool) -> Lit {
    let (neg, rest) = sign(s, signed);
    if rest.is_empty() {
        return Lit::Refused;
    }
    let skip = |c: u8| c == b'_' || c.is_ascii_whitespace();
    let (mut radix, mut body) = (10, rest);
    for (p, r) in PREFIXES {
        if rest.starts_with(p) {
            radix = r;
            body = &rest[2..];
        }
    }
    let digits: Vec<u8> = body.iter().copied().filter(|c| !skip(*c)).collect();
    if digits.iter().any(|c| digit(*c, radix).is_none()) {
        return Lit::Refused;
    }
    // A prefix and nothing else denotes no number.
    if radix != 10 && body.is_empty() {
        return Lit::Refused;
    }
    // No digits, and spacing anywhere but between digits (or after a prefix,
    // where Rust allows underscores too).
    if digits.is_empty() || body.iter().any(|c| *c == 0x0b) {
        return Lit::Unclear;
    }
    let odd_lead = if radix == 10 { skip(body[0]) } else { body[0].is_ascii_whitespace() };
    if odd_lead || body[body.len() - 1].is_ascii_whitespace() {
        return Lit::Unclear;
    }
    match text::parse(&digits, radix, false, 300, b"") {
        Err(_) => Lit::Refused,
        Ok(z) => {
            let z = if neg { z.neg() } else { z };
            if if signed { z.fits_i() } else { z.fits_u() } {
                Lit::Value(z)
            } else {
                Lit::Refused
            }
        }
    }
}

fn parsers(l: &mut L, s: &str) {
    let a = &|| format!("{s:?}");
    let b = s.as_bytes();
    let (wu, wi) = (hex(b, false), hex(b, true));
    l.tag(if wu.is_some() || wi.is_some() { "hex accepted" } else { "hex refused" });
    chk!(l, "U256::from_str_hex", a, U256::from_str_hex(s).ok(), wu.map(U256::wrap));
    chk!(l, "I256::from_str_hex", a, I256::from_str_hex(s).ok(), wi.map(I256::wrap));
    let (wu, wi) = (prefixed(b, false), prefixed(b, true));
    l.tag(if wu.is_some() || wi.is_some() { "prefixed accepted" } else { "prefixed refused" });
    l.nontrivial(wu.is_some() || wi.is_some());
    chk!(l, "U256::from_str_prefixed", a, U256::from_str_prefixed(s).ok(), wu.map(U256::wrap));
    chk!(l, "I256::from_str_prefixed", a, I256::from_str_prefixed(s).ok(), wi.map(I256::wrap));
}

fn literals(l: &mut L, s: &str) {
    let a = &|| format!("{s:?}");
    match literal(s.as_bytes(), false) {
        Lit::Value(z) => {
            l.tag("literal accepted");
            l.nontrivial(z.bits() > 64);
            chk!(l, "uint!", a, U256::const_from_str_prefixed(s), U256::wrap(z));
        }
        Lit::Refused => {
            l.tag("literal refused");
            l.cmp_panic("uint!", || U256::const_from_str_prefixed(s), None, a);
        }
        Lit::Unclear => l.tag("literal unspecified"),
    }
    match literal(s.as_bytes(), true) {
        Lit::Value(z) => {
            l.tag("literal accepted");
            chk!(l, "int!", a, I256::const_from_str_prefixed(s), I256::wrap(z));
        }
        Lit::Refused => {
            l.tag("literal refused");
            l.cmp_panic("int!", || I256::const_from_str_prefixed(s), None, a);
        }
        Lit::Unclear => l.tag("literal unspecified"),
    }
}

fn written(z: Z, k: usize) -> String {
    match k {
        0 => format!("0b{}", z.digits(2)),
        1 => format!("0o{}", z.digits(8)),
        2 => format!("0x{}", z.digits(16)),
        3 => z.digits(10),
        4 => format!("0x{}", text::mixed(&z.digits(16))),
        5 => format!("0x{}", z.digits(16).to_uppercase()),
        6 => format!("0x{}{}", "0".repeat(70), z.digits(16)),
        7 => format!("0b{}{}", "0".repeat(260), z.digits(2)),
        8 => format!("{}{}", "0".repeat(3), z.digits(10)),
        9 => format!("0o000{}", z.digits(8)),
        _ => format!("{}{}", "0".repeat(85), z.digits(10)),
    }
}
const WRITTEN: usize = 11;

/// Digits grouped by underscores or spacing.
fn grouped(s: &str, k: usize) -> String {
    let (p, d) = if s.len() > 2 && &s[..1] == "0" && s.as_bytes()[1].is_ascii_lowercase() { s.split_at(2) } else { ("", s) };
    let n = [1, 2, 3, 4, 8][k % 5];
    let sep = ["_", "__", " ", "\n        ", "\t", "_\r\n_"][k % 6];
    let mut out = String::from(p);
    for (i, c) in d.chars().enumerate() {
        if i > 0 && (d.len() - i) % n == 0 {
            out.push_str(sep);
        }
        out.push(c);
    }
    if k % 7 == 0 {
        out.push('_');
    }
    out
}

/// Literals the compiler evaluated.
fn compiled(l: &mut L) {
    let a = &|| "compile-time literal".to_string();
    macro_rules! go {
        ($m:ident, $T:ident, $($s:literal),* $(,)?) => {$({
            let got: $T = ethnum::$m!($s);
            let want = match literal($s.as_bytes(), $T::SIGNED) {
                Lit::Value(z) => $T::wrap(z),
                _ => panic!("bad test literal"),
            };
            chk!(l, stringify!($m), &|| $s.to_string(), got, want);
        })*};
    }
    let _ = a;
    go!(uint, U256, "0", "1", "+1", "42", "0b101010", "0o52", "0x2a", "0xFF",
        "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
        "115792089237316195423570985008687907853269984665640564039457584007913129639935",
        "0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff",
        "1_000_000", "0b1111_0000", "+0o7_7", "680564733841876926908302470789826871290",
        "0o1777777777777777777777777777777777777777777777777777777777777777777777777777777777777");
    go!(int, I256, "0", "-0", "1", "-1", "+1", "-42", "-0b101010", "-0o52", "-0x2a", "0xFf",
        "-340282366920938463463374607431768211456", "340282366920938463463374607431768211456",
        "-57896044618658097711785492504343953926634992332820282019728792003956564819968",
        "57896044618658097711785492504343953926634992332820282019728792003956564819967",
        "-0x8000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000",
        "-680564733841876926908302470789826871290");
}

/// Lengths past those of any number, up to where 16 bits end.
const LONG: [usize; 20] = [300, 511, 512, 513, 519, 520, 767, 768, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65600];

fn spaces(env: &Env) -> Vec<Space> {
    let chars: Vec<&'static str> = vec!["0", "x", "b", "o", "-", "+", "1", "7", "8", "9", "a", "F", "g", "_", " ", "X", "\u{e9}"];
    let len = if env.quick { 5 } else { 6 };
    let n = text::count(&chars, len);
    let c2 = chars.clone();
    let len_lit = if env.quick { 4 } else { 5 };
    let n_lit = text::count(&chars, len_lit);
    let vals: Vec<Z> = {
        let mut v: Vec<Z> = if env.quick { alpha::binary(env, 1) } else { alpha::unary(env) }.iter().map(|x| Z::from_limbs(*x)).collect();
        for k in [128u32, 255, 256, 257, 258, 260, 264, 270] {
            for c in -20..=20i128 {
                v.push(Z::pow2(k).add(Z::i(c)));
            }
        }
        // Carries between the words while accumulating digits: the value
        // after each digit (or after the multiplication alone) is at, just
        // below or just above a multiple of 2^128 or 2^64.
        for radix in [2u64, 8, 10, 16] {
            for m in 1..=(if env.quick { 40u64 } else { 200 }) {
                for k in [64u32, 128, 192] {
                    for c in -2..=2i128 {
                        let z = Z::pow2(k).mul_small(m).add(Z::i(c));
                        v.push(z);
                        v.push(z.mul_small(radix));
                        v.push(z.mul_small(radix).add(Z::i(radix as i128 - 1)));
                        v.push(z.divmod_small(radix).0);
                        v.push(z.divmod_small(radix).0.mul_small(radix));
                        v.push(z.mul_small(radix * radix));
                    }
                }
            }
            // Low halves that are all ones after the low limb's product.
            for top in [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u64::MAX / 10, u64::MAX / 5, u64::MAX / 3] {
                for h in 0..(if env.quick { 400u64 } else { 4000 }) {
                    // lh * radix * 2^64 + ll * radix crosses 2^128.
                    let lh = (u128::MAX / radix as u128 >> 64) as u64;
                    let z = Z::from_limbs([top, lh.wrapping_mul(h + 1) | 1, h % 3, 0]);
                    v.push(z);
                    v.push(Z::from_limbs([top, ((((h as u128 + 1) << 64) - 2) / radix as u128) as u64, 0, 0]).mul_small(radix));
                    v.push(Z::from_limbs([top, ((((h as u128 + 1) << 64) - 1) / radix as u128) as u64, 5, 0]).mul_small(radix).add(Z::u(h as u128 % radix as u128)));
                }
            }
        }
        v.sort_by_key(|z| z.0);
        v.dedup();
        v.retain(|z| z.bits() < 400);
        v
    };
    let nv = vals.len();
    let v2 = vals.clone();
    let edge: Vec<Z> = {
        let mut v = vec![];
        for k in [0u32, 8, 64, 127, 128, 129, 192, 254, 255, 256, 257] {
            for c in -12..=12i128 {
                let z = Z::pow2(k).add(Z::i(c));
                if !z.is_neg() {
                    v.push(z);
                }
            }
        }
        v
    };
    let ne = edge.len();
    let bad: Vec<&'static str> = vec!["_", " ", "+", "-", "/", ":", "@", "[", "`", "{", "\u{e9}", "G", "g", "x", ".", "\0", "2", "8", "a"];
    let nb = bad.len();
    let some: Vec<Z> = vec![Z::from_limbs(alpha::MAX), Z::from_limbs(alpha::not(alpha::MIN)), Z::from_limbs([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0, 0]), Z::u(0x89), Z::ZERO];
    let spread = |l: &mut L, s: String| {
        parsers(l, &s);
        parsers(l, &format!("-{s}"));
        parsers(l, &format!("+{s}"));
    };
    vec![
        space("compiled literals", "int! and uint! literals evaluated by the compiler", 1, |_, l| compiled(l)),
        space("short strings", "all strings of up to 5 (thorough: 6) symbols of a 17 symbol alphabet of signs, prefix letters, digits and junk", n, move |i, l| parsers(l, &text::nth(&chars, i))),
        space("short literals", "the same for literals, up to 4 (thorough: 5) symbols", n_lit, move |i, l| literals(l, &text::nth(&c2, i))),
        space("numerals", "every value of the alphabet (and larger ones) written in eleven ways with each sign", nv * WRITTEN, move |i, l| {
            let (p, k) = pair(i, WRITTEN);
            spread(l, written(vals[p].abs(), k));
        }),
        space("literal numerals", "the same as literals; out of range ones are refused", nv * WRITTEN, move |i, l| {
            let (p, k) = pair(i, WRITTEN);
            let s = written(v2[p].abs(), k);
            // Refusals unwind, which is slow: the sign and the grouping
            // rotate with the case.
            literals(l, &s);
            literals(l, &format!("-{}", grouped(&s, p + k)));
            if k % 3 == p % 3 {
                literals(l, &format!("+{}", grouped(&s, p / 3)));
            }
        }),
        space("bounds", "values around powers of two, every spelling, sign and grouping, as strings and as literals", ne * WRITTEN * 30, move |i, l| {
            let (p, k) = pair(i, WRITTEN * 30);
            let (w, g) = (k / 30, k % 30);
            let s = written(edge[p], w);
            if g == 0 {
                spread(l, s.clone());
            }
            let s = if g == 29 { s } else { grouped(&s, g) };
            literals(l, &s);
            literals(l, &format!("-{s}"));
        }),
        space("very long", "texts of 300 to 65600 characters: leading zeros before values in and out of range", LONG.len() * 4, move |i, l| {
            let (n, r) = pair(i, 4);
            let (n, (p, r)) = (LONG[n], [("", 10), ("0x", 16), ("0o", 8), ("0b", 2)][r]);
            for z in [Z::ZERO, Z::ONE, Z::pow2(255).sub(Z::ONE), Z::pow2(255), Z::pow2(256).sub(Z::ONE), Z::pow2(256)] {
                let d = z.digits(r);
                let t = format!("{p}{}{d}", "0".repeat(n - d.len().min(n)));
                literals(l, &t);
                literals(l, &format!("-{t}"));
                literals(l, &format!("{t}{}", "_".repeat(n)));
                spread(l, t);
            }
            literals(l, &format!("{p}{}g", "0".repeat(n)));
            spread(l, format!("{p}{}g", "0".repeat(n)));
            spread(l, format!("{p}1{}", "0".repeat(n)));
        }),
        space("one bad character", "one character inserted or substituted at every position", some.len() * WRITTEN * nb, move |i, l| {
            let (p, k) = pair(i, WRITTEN * nb);
            let (w, b) = (k / nb, k % nb);
            let s = written(some[p], w);
            for at in 0..=s.len() {
                if s.len() > 90 && at % 13 != 5 && at > 4 && at + 4 < s.len() {
                    continue;
                }
                for skip in [0, 1] {
                    if at + skip <= s.len() {
                        let t = format!("{}{}{}", &s[..at], bad[b], &s[at + skip..]);
                        spread(l, t.clone());
                        literals(l, &t);
                        literals(l, &format!("-{t}"));
                    }
                }
            }
        }),
    ]
}

fn main() {
    mc::run::main("C12", spaces)
}
