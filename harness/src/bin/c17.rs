//! C17: numbers given to the permissive scheme.
use mc::alpha;
use mc::float::parts;
use mc::tok::*;
use mc::*;
use serde::Deserializer;

trait Permissive: Sized {
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl Permissive for U256 {
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        ethnum::serde::permissive::deserialize(d)
    }
}
impl Permissive for I256 {
    fn de<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        ethnum::serde::permissive::deserialize(d)
    }
}
fn de<'de, T: Permissive, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
    T::de(d)
}
fn as_int<T: Int>(z: Z) -> Option<T> {
    T::chk(z)
}

fn int(l: &mut L, t: Tok, z: Z) {
    let a = &|| format!("{t:?}");
    chk!(l, "permissive::deserialize for U256", a, de::<U256, _>(t).ok(), as_int::<U256>(z));
    chk!(l, "permissive::deserialize for I256", a, de::<I256, _>(t).ok(), as_int::<I256>(z));
    let a = &|| format!("{t:?} of a format not meant for humans");
    chk!(l, "permissive::deserialize for U256", a, human(false, || de::<U256, _>(t).ok()), as_int::<U256>(z));
    chk!(l, "permissive::deserialize for I256", a, human(false, || de::<I256, _>(t).ok()), as_int::<I256>(z));
    l.nontrivial(!z.is_zero());
}

/// The exact integer a float denotes, and whether it lies within, on or
/// outside the bounds.
enum F {
    In(Z),
    Edge(Z),
    Out,
}
fn classify(bits: u64, man: u32, exp: u32) -> F {
    let e = bits >> man & ((1 << exp) - 1);
    if e == (1 << exp) - 1 {
        return F::Out;
    }
    let (neg, m, e) = parts(bits, man, exp);
    let z = if m == 0 {
        Z::ZERO
    } else if e > 80 {
        return F::Out;
    } else if e >= 0 {
        Z::u(m as u128).shl(e as u32)
    } else if e > -64 && m & ((1u64 << -e) - 1) == 0 {
        Z::u((m >> -e) as u128)
    } else {
        return F::Out;
    };
    let lim = Z::pow2(man + 1);
    let s = if neg { z.neg() } else { z };
    if z.lt(lim) {
        F::In(s)
    } else if z == lim {
        F::Edge(s)
    } else {
        F::Out
    }
}
fn float(l: &mut L, t: Tok, f: F) {
    let a = &|| format!("{t:?}");
    l.at("permissive::deserialize");
    let (u, i) = (de::<U256, _>(t).ok(), de::<I256, _>(t).ok());
    let (wu, wi) = match f {
        F::In(z) => (as_int::<U256>(z), as_int::<I256>(z)),
        F::Out => (None, None),
        F::Edge(z) => (u.and(as_int::<U256>(z)), i.and(as_int::<I256>(z))),
    };
    // A negative number is never an U256, not even on the edge.
    l.cmp("permissive::deserialize for U256", u, wu, a);
    l.cmp("permissive::deserialize for I256", i, wi, a);
    l.nontrivial(matches!(f, F::In(_) | F::Edge(_)));
}
fn f64_(l: &mut L, x: f64) {
    float(l, Tok::F64(x), classify(x.to_bits(), 52, 11));
}
fn f32_(l: &mut L, x: f32) {
    float(l, Tok::F32(x), classify(x.to_bits() as u64, 23, 8));
}

fn number(l: &mut L, text: &str) {
    // serde_json decides which token a text is; the model takes it from there.
    let tok = match serde_json::from_str::<serde_json::Value>(text) {
        Ok(serde_json::Value::Number(n)) => n,
        _ => return,
    };
    let f = if let Some(u) = tok.as_u64() {
        F::In(Z::u(u as u128))
    } else if let Some(i) = tok.as_i64() {
        F::In(Z::i(i as i128))
    } else if let Some(f) = tok.as_f64() {
        classify(f.to_bits(), 52, 11)
    } else {
        return;
    };
    let a = &|| format!("JSON {text}");
    l.at("permissive::deserialize");
    let (u, i) = (de::<U256, _>(&mut serde_json::Deserializer::from_str(text)).ok(), de::<I256, _>(&mut serde_json::Deserializer::from_str(text)).ok());
    let (u2, i2) = (de::<U256, _>(&tok).ok(), de::<I256, _>(&tok).ok());
    let (wu, wi) = match f {
        F::In(z) => (as_int::<U256>(z), as_int::<I256>(z)),
        F::Out => (None, None),
        F::Edge(z) => (u.and(as_int::<U256>(z)), i.and(as_int::<I256>(z))),
    };
    l.cmp("permissive::deserialize for U256", u, wu, a);
    l.cmp("permissive::deserialize for I256", i, wi, a);
    l.cmp("permissive::deserialize for U256 from a JSON value", u2, u, a);
    l.cmp("permissive::deserialize for I256 from a JSON value", i2, i, a);
    l.nontrivial(wi.is_some());
}

fn spaces(env: &Env) -> Vec<Space> {
    let quick = env.quick;
    let all_f32 = !quick || (env.backend == "native" && !env.debug);
    // 128-bit patterns: both words of everything in the unary alphabet.
    let mut w: Vec<u128> = alpha::union(vec![alpha::unary(env), alpha::limbs(&alpha::L11)])
        .iter()
        .flat_map(|v| [(v[1] as u128) << 64 | v[0] as u128, (v[3] as u128) << 64 | v[2] as u128])
        .collect();
    w.sort();
    w.dedup();
    let mut mans: Vec<u64> = vec![0];
    let all = (1u64 << 52) - 1;
    for i in 0..52 {
        let b = 1u64 << i;
        mans.extend([b, b - 1, all ^ b, all - b + 1, all & (b | 1)]);
        for j in 0..i {
            mans.push(b | 1 << j);
            mans.push((b - 1) ^ ((1u64 << j) - 1));
            mans.push(all ^ (b - 1) ^ (1 << j));
        }
    }
    mans.sort();
    mans.dedup();
    let nm = mans.len();
    let near = 1i64 << if quick { 16 } else { 20 };
    let chars = ["0", "1", "9", "-", "+", ".", "e", "E", "5"];
    let nt = text::count(&chars, if quick { 6 } else { 7 });
    let mut bounds: Vec<String> = vec![];
    for k in [24u32, 31, 32, 53, 63, 64, 65, 127, 128, 255, 256] {
        for c in -3..=3 {
            let d = Z::pow2(k).add(Z::i(c)).dec();
            for s in [d.clone(), format!("-{d}"), format!("{d}.0"), format!("-{d}.0"), format!("{d}.5"), format!("-{d}.5"), format!("{d}e0"), format!("{d}0e-1"), format!("-{d}e1")] {
                bounds.push(s);
            }
        }
    }
    let n32 = 1u64 << 23;
    let mut v = vec![
        space("small integers", "every 8- and 16-bit integer token", 1 << 16, |i, l| {
            let i = i as u16;
            int(l, Tok::U16(i), Z::u(i as u128));
            int(l, Tok::I16(i as i16), Z::i(i as i16 as i128));
            if i < 256 {
                int(l, Tok::U8(i as u8), Z::u(i as u128));
                int(l, Tok::I8(i as u8 as i8), Z::i(i as u8 as i8 as i128));
            }
        }),
        space("integers", "32-, 64- and 128-bit tokens of every pattern of the alphabet", w.len(), move |i, l| {
            let p = w[i as usize];
            int(l, Tok::U32(p as u32), Z::u(p as u32 as u128));
            int(l, Tok::I32(p as i32), Z::i(p as i32 as i128));
            int(l, Tok::U64(p as u64), Z::u(p as u64 as u128));
            int(l, Tok::I64(p as i64), Z::i(p as i64 as i128));
            int(l, Tok::U128(p), Z::u(p));
            int(l, Tok::I128(p as i128), Z::i(p as i128));
        }),
        space("f64", "every sign and exponent of f64 with edge, one-bit, two-bit and run mantissas", 4096 * nm, move |i, l| {
            let (e, m) = pair(i, nm);
            f64_(l, f64::from_bits((e as u64) << 52 | mans[m]));
        }),
        space("f64 near bounds", "integers and halves near 0, 2^24, 2^31, 2^32, 2^52 and 2^53, and their neighbours", (near * 2 + 1) as usize, move |i, l| {
            let i = i as i64 - near;
            for b in [0i64, 1 << 24, 1 << 31, 1 << 32, 1 << 52, 1 << 53] {
                for s in [1.0, -1.0] {
                    let x = s * (b + i) as f64;
                    f64_(l, x);
                    f64_(l, x + 0.5);
                    f64_(l, f64::from_bits(x.to_bits().wrapping_add(1)));
                    f64_(l, f64::from_bits(x.to_bits().wrapping_sub(1)));
                    f32_(l, x as f32);
                    f32_(l, (x + 0.5) as f32);
                }
            }
        }),
        space("json texts", "every JSON number of up to 6 (thorough: 7) characters", nt, move |i, l| {
            number(l, &text::nth(&chars, i));
        }),
        space("json bounds", "JSON numbers around powers of two", bounds.len(), move |i, l| {
            number(l, &bounds[i as usize]);
        }),
    ];
    if all_f32 {
        v.push(space("f32: all", "all 2^32 bit patterns of f32", 1 << 32, |i, l| {
            f32_(l, f32::from_bits(i as u32));
        }));
    } else {
        v.push(space("f32", "every mantissa of f32 in the exponents around the bounds, edges of every exponent", 8 * n32 as usize + 512 * 64, move |i, l| {
            let bits = if i < 8 * n32 {
                let e = [127u64, 149, 150, 151][(i / n32) as usize % 4];
                (i / n32 / 4) << 31 | e << 23 | i % n32
            } else {
                let i = i - 8 * n32;
                let m = i % 64;
                (i / 64) << 23 | if m < 23 { 1 << m } else if m < 46 { (1 << (m - 23)) - 1 } else { n32 - (1 << (m - 46).min(22)) }
            };
            f32_(l, f32::from_bits(bits as u32));
        }));
    }
    v
}

fn main() {
    mc::run::main("C17", spaces)
}
