//! C11: from_str and from_str_radix.
use mc::alpha::{self, V};
use mc::text::{self, kind, Kind};
use mc::*;
use std::str::FromStr;

fn check(l: &mut L, s: &str, radix: u32) {
    let a = &|| format!("{s:?} radix {radix}");
    let wu = text::parse(s.as_bytes(), radix, false, 256, b"");
    let wi = text::parse(s.as_bytes(), radix, true, 256, b"");
    let tag = match (&wu, &wi) {
        (_, Err(Kind::Neg)) => "negative overflow",
        (Err(Kind::Pos), _) => "overflow",
        (Ok(_), Err(_)) => "unsigned only",
        (Err(_), Ok(_)) => "signed only",
        (Ok(_), Ok(_)) => "accepted",
        (Err(Kind::Empty), _) => "empty",
        _ => "invalid digit",
    };
    l.tag(tag);
    let wu = wu.map(U256::wrap);
    let wi = wi.map(I256::wrap);
    chk!(l, "U256::from_str_radix", a, U256::from_str_radix(s, radix).map_err(|e| kind(&e)), wu);
    chk!(l, "I256::from_str_radix", a, I256::from_str_radix(s, radix).map_err(|e| kind(&e)), wi);
    if radix == 10 {
        chk!(l, "U256::from_str", a, U256::from_str(s).map_err(|e| kind(&e)), wu);
        chk!(l, "I256::from_str", a, I256::from_str(s).map_err(|e| kind(&e)), wi);
        chk!(l, "str::parse::<U256>", a, s.parse::<U256>().map_err(|e| kind(&e)), wu);
        chk!(l, "str::parse::<I256>", a, s.parse::<I256>().map_err(|e| kind(&e)), wi);
    }
    l.nontrivial(matches!(tag, "accepted" | "overflow" | "negative overflow" | "signed only") && s.len() > 3);
}

/// The model with 128 bits must be what the standard library does.
fn model(l: &mut L, s: &str, radix: u32) {
    let a = &|| format!("{s:?} radix {radix}");
    let w = text::parse(s.as_bytes(), radix, false, 128, b"").map(|z| (z.0[1] as u128) << 64 | z.0[0] as u128);
    chk!(l, "model u128", a, u128::from_str_radix(s, radix).map_err(|e| kind(&e)), w);
    let w = text::parse(s.as_bytes(), radix, true, 128, b"").map(|z| ((z.0[1] as u128) << 64 | z.0[0] as u128) as i128);
    chk!(l, "model i128", a, i128::from_str_radix(s, radix).map_err(|e| kind(&e)), w);
    let w = text::parse(s.as_bytes(), radix, true, 8, b"").map(|z| z.0[0] as i8);
    chk!(l, "model i8", a, i8::from_str_radix(s, radix).map_err(|e| kind(&e)), w);
}

/// The numerals of one value: all spellings.
fn spell(l: &mut L, z: Z, radix: u32, both: bool) {
    let d = z.digits(radix);
    let m = text::mixed(&d);
    for (k, s) in [
        d.clone(),
        format!("+{d}"),
        format!("-{d}"),
        m.clone(),
        format!("-0{m}"),
        format!("{}{}", "0".repeat(79), d),
        format!("-{}{}", "0".repeat(64), d),
        format!("+000{d}"),
        format!("{d}0"),
        format!("-{d}0"),
        format!("{}{d}", "0".repeat(256)),
        format!("{d}_"),
        format!("{d}\u{0660}"),
    ]
    .iter()
    .enumerate()
    {
        if both || k < 4 {
            check(l, s, radix);
        }
    }
}

/// Lengths past those of any number, up to where 16 bits end.
const LONG: [usize; 20] = [300, 511, 512, 513, 519, 520, 767, 768, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65600];

fn spaces(env: &Env) -> Vec<Space> {
    let chars: Vec<&'static str> = vec!["+", "-", "0", "1", "2", "7", "8", "9", "a", "f", "g", "z", "A", "F", "Z", "_", " ", ".", "x", "/", ":", "@", "[", "`", "{", "\u{e9}", "\0"];
    let radices: Vec<u32> = if env.quick { vec![2, 3, 8, 10, 11, 16, 17, 35, 36] } else { (2..=36).collect() };
    let len = if env.quick { 4 } else { 5 };
    let nshort = text::count(&chars, len);
    let ascii: Vec<char> = (0u8..128).map(|c| c as char).chain(['\u{80}', '\u{e9}', '\u{660}', '\u{ff11}', '\u{1d7d8}', '\u{2212}', '\u{fffd}']).collect();
    let na = ascii.len();
    let small_chars: Vec<&'static str> = vec!["+", "-", "0", "1", "9", "f", "Z", "_", "\u{e9}"];
    let nsm = text::count(&small_chars, if env.quick { 6 } else { 7 });
    let (radices_c, radices_d) = (radices.clone(), radices.clone());
    // Values: the alphabet, and values beyond the range.
    let vals: Vec<Z> = {
        let base = if env.quick {
            alpha::binary(env, 1)
        } else {
            alpha::unary(env)
        };
        let mut v: Vec<Z> = base.iter().map(|x| Z::from_limbs(*x)).collect();
        for k in [255u32, 256, 257, 258, 260, 264, 270, 280, 300, 320] {
            for c in -3..=3i128 {
                v.push(Z::pow2(k).add(Z::i(c)));
            }
        }
        v
    };
    let nvals = vals.len();
    let edge: Vec<Z> = {
        // Numbers around radix^k and MAX/radix^k times radix^k.
        let mut v: Vec<Z> = vec![];
        for top in [alpha::MAX, alpha::MIN, alpha::not(alpha::MIN), alpha::pow2(128), alpha::pow2(64), alpha::pow2(192)] {
            for c in -40..=40i128 {
                v.push(Z::from_limbs(top).add(Z::i(c)));
            }
        }
        v
    };
    let nedge = edge.len();
    let edge2 = edge.clone();
    // Repeated digits of every length.
    let lens = 270;
    let pool: Vec<V> = vec![alpha::MAX, alpha::not(alpha::MIN), [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x0796_a5b4_c3d2_e1f0], [1, 0, 0, 0], [0; 4]];
    let bad: Vec<&'static str> = vec!["_", " ", "+", "-", "/", ":", "@", "[", "`", "{", "\u{e9}", "G", "z", ".", "\0"];
    let nbad = bad.len();
    let short2 = chars.clone();
    let out_of_range: Vec<u32> = vec![0, 1, 37, 38, 64, 100, 256, 258, 266, 272, 65536, 65546, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 10];
    vec![
        space("model", "the grammar model at 8 and 128 bits against the standard library, on all short strings", nsm * radices.len(), {
            let (sc, r) = (small_chars.clone(), radices.clone());
            move |i, l| {
                let (p, q) = pair(i, r.len());
                model(l, &text::nth(&sc, p as u64), r[q]);
            }
        }),
        space("model: long", "the grammar model at 128 bits against the standard library, on numerals around its range", 35 * 300, |i, l| {
            let (r, k) = pair(i, 300);
            let (b, c) = pair(k as u64, 30);
            let z = Z::pow2([64u32, 120, 126, 127, 128, 129, 130, 140, 7, 8][b]).add(Z::i(c as i128 - 15));
            let d = z.digits(r as u32 + 2);
            for s in [d.clone(), format!("-{d}"), format!("+00{d}"), format!("{d}0"), format!("-{d}_")] {
                model(l, &s, r as u32 + 2);
            }
        }),
        space("short strings", "all strings of up to 4 (thorough: 5) symbols of a 27 symbol alphabet with signs, digits, letters, neighbours of the digit ranges, multi-byte and NUL", nshort * radices.len(), move |i, l| {
            let (p, q) = pair(i, radices_c.len());
            check(l, &text::nth(&short2, p as u64), radices_c[q]);
        }),
        space("characters", "all strings of one and two ASCII characters, every radix", 35 * na * (na + 1), move |i, l| {
            let (r, k) = pair(i, na * (na + 1));
            let (a, b) = (ascii[k % na], k / na);
            let mut s = String::from(a);
            if b > 0 {
                s.push(ascii[b - 1]);
            }
            check(l, &s, r as u32 + 2);
        }),
        space("longer strings", "all strings of up to 6 (thorough: 7) symbols of a 9 symbol alphabet", nsm * radices.len(), move |i, l| {
            let (p, q) = pair(i, radices_d.len());
            check(l, &text::nth(&small_chars, p as u64), radices_d[q]);
        }),
        space("numerals", "every value of the alphabet, and values up to 2^320, written in every radix with signs, cases, leading zeros, an extra digit and a trailing invalid character", nvals * 35, move |i, l| {
            let (p, r) = pair(i, 35);
            spell(l, vals[p], r as u32 + 2, true);
        }),
        space("bounds", "all values within 40 of 0, of both bounds and of the word boundaries, in every radix", nedge * 35, move |i, l| {
            let (p, r) = pair(i, 35);
            spell(l, edge[p].abs(), r as u32 + 2, true);
        }),
        space("lengths", "repeated largest, smallest and middle digits of every length up to 269 in every radix", 35 * lens * 3, move |i, l| {
            let (r, k) = pair(i, lens * 3);
            let r = r as u32 + 2;
            let d = [r - 1, 1, r / 2][k % 3];
            let n = k / 3;
            let c = b"0123456789abcdefghijklmnopqrstuvwxyz"[d as usize] as char;
            let s: String = std::iter::repeat(c).take(n).collect();
            check(l, &s, r);
            check(l, &format!("-{s}"), r);
            check(l, &format!("+0{s}"), r);
            check(l, &format!("1{}", "0".repeat(n)), r);
            check(l, &format!("-1{}", "0".repeat(n)), r);
            check(l, &format!("-{}", "0".repeat(n)), r);
        }),
        space("very long", "texts of 300 to 65600 characters: leading zeros before values in and out of range, and digits all along", LONG.len() * 35, move |i, l| {
            let (n, r) = pair(i, 35);
            let (n, r) = (LONG[n], r as u32 + 2);
            for z in [Z::ZERO, Z::ONE, Z::pow2(255).sub(Z::ONE), Z::pow2(255), Z::pow2(256).sub(Z::ONE), Z::pow2(256)] {
                let d = z.digits(r);
                for s in ["", "-", "+"] {
                    let t = format!("{s}{}{d}", "0".repeat(n - d.len().min(n)));
                    check(l, &t, r);
                }
            }
            check(l, &"1".repeat(n), r);
            check(l, &format!("1{}", "0".repeat(n)), r);
            check(l, &format!("{}!", "0".repeat(n)), r);
            check(l, &format!("-{}\u{e9}", "0".repeat(n)), r);
        }),
        space("one bad character", "numerals with one invalid character inserted or substituted at every position", pool.len() * 35 * nbad, move |i, l| {
            let (p, k) = pair(i, 35 * nbad);
            let (r, b) = (k / nbad, k % nbad);
            let r = r as u32 + 2;
            let d = Z::from_limbs(pool[p]).digits(r);
            for at in 0..=d.len() {
                if r < 10 && at % 7 != 3 && at > 2 && at + 3 < d.len() {
                    continue;
                }
                for skip in [0, 1] {
                    if at + skip > d.len() {
                        continue;
                    }
                    let s = format!("{}{}{}", &d[..at], bad[b], &d[at + skip..]);
                    check(l, &s, r);
                    check(l, &format!("-{s}"), r);
                }
            }
        }),
        space("wrapped values", "numerals of values congruent to small ones modulo 2^256, 2^255 and 2^128", 35 * nedge, move |i, l| {
            let (r, p) = pair(i, nedge);
            let z = edge2[p].abs();
            for k in [128u32, 255, 256, 257] {
                spell(l, z.add(Z::pow2(k)), r as u32 + 2, false);
            }
        }),
        space("bad radices", "a radix outside 2..=36 panics", out_of_range.len(), move |i, l| {
            let r = out_of_range[i as usize];
            let a = &|| format!("radix {r}");
            for s in ["0", "1", "10", "-1", "zz", "", "+", "-", " ", "\u{e9}"] {
                l.cmp_panic("U256::from_str_radix", || U256::from_str_radix(s, r).is_ok(), None, a);
                l.cmp_panic("I256::from_str_radix", || I256::from_str_radix(s, r).is_ok(), None, a);
            }
        }),
    ]
}

fn main() {
    mc::run::main("C11", spaces)
}
