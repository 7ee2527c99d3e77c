//! The float model: exact conversions between encodings and integers.
use crate::z::{Int, Z};

/// The exact value of a finite float as m * 2^e, from its encoding.
pub fn parts(bits: u64, man: u32, exp: u32) -> (bool, u64, i32) {
    let neg = bits >> (man + exp) & 1 == 1;
    let e = (bits >> man & ((1 << exp) - 1)) as i32;
    let m = bits & ((1 << man) - 1);
    let bias = (1 << (exp - 1)) - 1;
    if e == 0 {
        (neg, m, 1 - bias - man as i32)
    } else {
        (neg, m | 1 << man, e - bias - man as i32)
    }
}

/// Truncation towards zero, saturating; NaN is zero.
pub fn to_int<T: Int>(bits: u64, man: u32, exp: u32) -> T {
    let e = bits >> man & ((1 << exp) - 1);
    let neg = bits >> (man + exp) & 1 == 1;
    if e == (1 << exp) - 1 {
        if bits & ((1 << man) - 1) != 0 {
            return T::of([0; 4]);
        }
        return T::wrap(if neg { T::zmin() } else { T::zmax() });
    }
    let (neg, m, e) = parts(bits, man, exp);
    let z = if e >= 300 {
        if m == 0 { Z::ZERO } else { Z::pow2(300) }
    } else if e >= 0 {
        Z::u(m as u128).shl(e as u32)
    } else if e > -64 {
        Z::u((m >> -e) as u128)
    } else {
        Z::ZERO
    };
    T::sat(if neg { z.neg() } else { z })
}

/// The nearest float to an exact integer, ties to even, as an encoding.
pub fn to_float(z: Z, man: u32, exp: u32) -> u64 {
    let sign = (z.is_neg() as u64) << (man + exp);
    let a = z.abs();
    if a.is_zero() {
        return 0;
    }
    let n = a.bits();
    let p = man + 1;
    let mut e = n as i64 - 1;
    let m = if n <= p {
        a.0[0] << (p - n)
    } else {
        let k = n - p;
        let m = a.shr(k).0[0];
        let rest = a.sub(a.shr(k).shl(k));
        let half = Z::pow2(k - 1);
        let up = match rest.cmp(half) {
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => m & 1 == 1,
            _ => false,
        };
        m + up as u64
    };
    let m = if m >> p == 1 {
        e += 1;
        m >> 1
    } else {
        m
    };
    let bias = (1i64 << (exp - 1)) - 1;
    if e > bias {
        return sign | ((1 << exp) - 1) << man;
    }
    sign | ((e + bias) as u64) << man | (m & ((1 << man) - 1))
}
