//! The boring reference model: integers of 576 bits in two's complement, wide
//! enough that no operation explored here ever leaves their range.  None of
//! this uses `ethnum` arithmetic; values only cross the border as 128-bit words.

use ethnum::{I256, U256};
use std::cmp::Ordering;

pub const N: usize = 9;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Z(pub [u64; N]);

impl Z {
    pub const ZERO: Z = Z([0; N]);
    pub const ONE: Z = Z([1, 0, 0, 0, 0, 0, 0, 0, 0]);

    #[inline]
    pub fn from_limbs(l: [u64; 4]) -> Z {
        Z([l[0], l[1], l[2], l[3], 0, 0, 0, 0, 0])
    }
    #[inline]
    pub fn from_limbs_signed(l: [u64; 4]) -> Z {
        let s = if l[3] >> 63 == 1 { u64::MAX } else { 0 };
        Z([l[0], l[1], l[2], l[3], s, s, s, s, s])
    }
    #[inline]
    pub fn i(v: i128) -> Z {
        let s = if v < 0 { u64::MAX } else { 0 };
        Z([v as u64, ((v as u128) >> 64) as u64, s, s, s, s, s, s, s])
    }
    #[inline]
    pub fn u(v: u128) -> Z {
        Z([v as u64, (v >> 64) as u64, 0, 0, 0, 0, 0, 0, 0])
    }
    #[inline]
    pub fn limbs(self) -> [u64; 4] {
        [self.0[0], self.0[1], self.0[2], self.0[3]]
    }
    #[inline]
    pub fn pow2(k: u32) -> Z {
        let mut r = [0; N];
        r[(k / 64) as usize] = 1 << (k % 64);
        Z(r)
    }
    #[inline]
    pub fn is_neg(self) -> bool {
        self.0[N - 1] >> 63 == 1
    }
    #[inline]
    pub fn is_zero(self) -> bool {
        self == Z::ZERO
    }
    #[inline]
    pub fn bit(self, k: u32) -> bool {
        self.0[(k / 64) as usize] >> (k % 64) & 1 == 1
    }
    #[inline]
    pub fn add(self, o: Z) -> Z {
        let mut r = [0; N];
        let mut c = 0u128;
        for i in 0..N {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        Z(r)
    }
    #[inline]
    pub fn not(self) -> Z {
        let mut r = self.0;
        for x in r.iter_mut() {
            *x = !*x;
        }
        Z(r)
    }
    #[inline]
    pub fn neg(self) -> Z {
        self.not().add(Z::ONE)
    }
    #[inline]
    pub fn sub(self, o: Z) -> Z {
        let mut r = [0; N];
        let mut c = 1u128;
        for i in 0..N {
            c += self.0[i] as u128 + (!o.0[i]) as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        Z(r)
    }
    #[inline]
    pub fn abs(self) -> Z {
        if self.is_neg() {
            self.neg()
        } else {
            self
        }
    }
    /// Schoolbook product of the magnitudes, with the sign put back.
    #[inline]
    pub fn mul(self, o: Z) -> Z {
        let neg = self.is_neg() != o.is_neg();
        let (a, b) = (self.abs().0, o.abs().0);
        let mut r = [0u64; N];
        for i in 0..N {
            if a[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..N - i {
                c += a[i] as u128 * b[j] as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
        }
        if neg {
            Z(r).neg()
        } else {
            Z(r)
        }
    }
    #[inline]
    pub fn cmp(self, o: Z) -> Ordering {
        match (self.is_neg(), o.is_neg()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => {
                for i in (0..N).rev() {
                    if self.0[i] != o.0[i] {
                        return if self.0[i] < o.0[i] {
                            Ordering::Less
                        } else {
                            Ordering::Greater
                        };
                    }
                }
                Ordering::Equal
            }
        }
    }
    #[inline]
    pub fn lt(self, o: Z) -> bool {
        self.cmp(o) == Ordering::Less
    }
    #[inline]
    pub fn le(self, o: Z) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn shl(self, k: u32) -> Z {
        let mut r = [0; N];
        let (w, b) = ((k / 64) as usize, k % 64);
        for i in (0..N).rev() {
            if i >= w {
                r[i] = self.0[i - w] << b;
                if b > 0 && i > w {
                    r[i] |= self.0[i - w - 1] >> (64 - b);
                }
            }
        }
        Z(r)
    }
    /// Arithmetic shift right (floor division by a power of two).
    pub fn shr(self, k: u32) -> Z {
        let s = if self.is_neg() { u64::MAX } else { 0 };
        let mut r = [s; N];
        let (w, b) = ((k / 64) as usize, k % 64);
        for i in 0..N {
            if i + w < N {
                let hi = if i + w + 1 < N { self.0[i + w + 1] } else { s };
                r[i] = self.0[i + w] >> b;
                if b > 0 {
                    r[i] |= hi << (64 - b);
                }
            }
        }
        Z(r)
    }
    /// Division of non-negative numbers, one bit at a time.
    pub fn divmod(self, v: Z) -> (Z, Z) {
        assert!(!self.is_neg() && !v.is_neg() && !v.is_zero());
        let (mut q, mut r) = (Z::ZERO, Z::ZERO);
        let n = self.bits();
        for k in (0..n).rev() {
            r = r.shl(1);
            if self.bit(k) {
                r.0[0] |= 1;
            }
            if v.le(r) {
                r = r.sub(v);
                q.0[(k / 64) as usize] |= 1 << (k % 64);
            }
        }
        (q, r)
    }
    /// Number of significant bits of a non-negative number.
    pub fn bits(self) -> u32 {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    /// Division of a non-negative number by a small one; also the remainder.
    pub fn divmod_small(self, v: u64) -> (Z, u64) {
        let mut q = [0; N];
        let mut r = 0u128;
        for i in (0..N).rev() {
            r = r << 64 | self.0[i] as u128;
            q[i] = (r / v as u128) as u64;
            r %= v as u128;
        }
        (Z(q), r as u64)
    }
    pub fn mul_small(self, v: u64) -> Z {
        self.mul(Z::u(v as u128))
    }
    /// Digits in a radix (lower case) of a non-negative number.
    pub fn digits(self, radix: u32) -> String {
        let mut out = Vec::new();
        let mut x = self;
        loop {
            let (q, r) = x.divmod_small(radix as u64);
            out.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[r as usize]);
            x = q;
            if x.is_zero() {
                break;
            }
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    pub fn dec(self) -> String {
        if self.is_neg() {
            format!("-{}", self.neg().digits(10))
        } else {
            self.digits(10)
        }
    }
    #[inline]
    pub fn fits_u(self) -> bool {
        self.0[4] | self.0[5] | self.0[6] | self.0[7] | self.0[8] == 0
    }
    #[inline]
    pub fn fits_i(self) -> bool {
        let s = if self.0[3] >> 63 == 1 { u64::MAX } else { 0 };
        self.0[4..].iter().all(|x| *x == s)
    }
}

/// The two integer types seen through their 128-bit words.
pub trait Int: Copy + 'static {
    const SIGNED: bool;
    const NAME: &'static str;
    fn z(self) -> Z;
    fn of(l: [u64; 4]) -> Self;
    fn limbs(self) -> [u64; 4];
    #[inline]
    fn wrap(z: Z) -> Self {
        Self::of(z.limbs())
    }
    fn fits(z: Z) -> bool;
    fn zmin() -> Z;
    fn zmax() -> Z;
    #[inline]
    fn sat(z: Z) -> Self {
        if Self::fits(z) {
            Self::wrap(z)
        } else if z.is_neg() {
            Self::wrap(Self::zmin())
        } else {
            Self::wrap(Self::zmax())
        }
    }
    #[inline]
    fn ovf(z: Z) -> (Self, bool) {
        (Self::wrap(z), !Self::fits(z))
    }
    #[inline]
    fn chk(z: Z) -> Option<Self> {
        if Self::fits(z) {
            Some(Self::wrap(z))
        } else {
            None
        }
    }
    #[inline]
    fn same(self, o: Self) -> bool {
        self.limbs() == o.limbs()
    }
}

#[inline]
fn split(hi: u128, lo: u128) -> [u64; 4] {
    [lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64]
}

impl Int for U256 {
    const SIGNED: bool = false;
    const NAME: &'static str = "U256";
    #[inline]
    fn z(self) -> Z {
        Z::from_limbs(self.limbs())
    }
    #[inline]
    fn of(l: [u64; 4]) -> Self {
        U256::from_words(
            (l[3] as u128) << 64 | l[2] as u128,
            (l[1] as u128) << 64 | l[0] as u128,
        )
    }
    #[inline]
    fn limbs(self) -> [u64; 4] {
        let (hi, lo) = self.into_words();
        split(hi, lo)
    }
    #[inline]
    fn fits(z: Z) -> bool {
        z.fits_u()
    }
    fn zmin() -> Z {
        Z::ZERO
    }
    fn zmax() -> Z {
        Z::from_limbs([u64::MAX; 4])
    }
}

impl Int for I256 {
    const SIGNED: bool = true;
    const NAME: &'static str = "I256";
    #[inline]
    fn z(self) -> Z {
        Z::from_limbs_signed(self.limbs())
    }
    #[inline]
    fn of(l: [u64; 4]) -> Self {
        I256::from_words(
            ((l[3] as u128) << 64 | l[2] as u128) as i128,
            ((l[1] as u128) << 64 | l[0] as u128) as i128,
        )
    }
    #[inline]
    fn limbs(self) -> [u64; 4] {
        let (hi, lo) = self.into_words();
        split(hi as u128, lo as u128)
    }
    #[inline]
    fn fits(z: Z) -> bool {
        z.fits_i()
    }
    fn zmin() -> Z {
        Z::from_limbs_signed([0, 0, 0, 1 << 63])
    }
    fn zmax() -> Z {
        Z::from_limbs([u64::MAX, u64::MAX, u64::MAX, u64::MAX >> 1])
    }
}

/// Truncated quotient and remainder of numbers of any sign.
pub fn zdiv_trunc(a: Z, b: Z) -> (Z, Z) {
    let (q, r) = a.abs().divmod(b.abs());
    (
        if a.is_neg() != b.is_neg() { q.neg() } else { q },
        if a.is_neg() { r.neg() } else { r },
    )
}

/// Checks the model itself against primitive integers; run by `setup`.
pub fn selftest() -> u64 {
    let mut vals: Vec<i128> = vec![0, 1, 2, 3, 7, 10, 63, 64, 65, 0x5555, 0x1234_5678_9abc_def0];
    for k in 0..63 {
        vals.extend([1i128 << k, (1 << k) - 1, (1 << k) + 1]);
    }
    let neg: Vec<i128> = vals.iter().map(|v| -v).collect();
    vals.extend(neg);
    let mut n = 0;
    for &a in &vals {
        for &b in &vals {
            let (x, y) = (Z::i(a), Z::i(b));
            assert_eq!(x.add(y), Z::i(a + b));
            assert_eq!(x.sub(y), Z::i(a - b));
            assert_eq!(x.mul(y), Z::i(a * b));
            assert_eq!(x.cmp(y), a.cmp(&b));
            assert_eq!(x.neg(), Z::i(-a));
            assert_eq!(x.abs(), Z::i(a.abs()));
            if b != 0 {
                assert_eq!(zdiv_trunc(x, y), (Z::i(a / b), Z::i(a % b)));
                if a >= 0 && b > 0 {
                    let (q, r) = x.divmod_small(b as u64);
                    assert_eq!((q, r as i128), (Z::i(a / b), a % b));
                }
            }
            n += 1;
        }
        for k in 0..64 {
            assert_eq!(Z::i(a).shr(k), Z::i(a >> k));
            assert_eq!(Z::i(a).shl(k), Z::i(a << k));
            // Across limbs: shifting is multiplication by 2^k.
            assert_eq!(Z::i(a).shl(k + 200), Z::i(a).mul(Z::pow2(k + 200)));
            assert_eq!(Z::i(a).shl(k + 200).shr(k + 200), Z::i(a));
            n += 4;
        }
        assert_eq!(Z::i(a).dec(), a.to_string());
        if a >= 0 {
            assert_eq!(Z::i(a).digits(16), format!("{a:x}"));
            assert_eq!(Z::i(a).digits(2), format!("{a:b}"));
            assert_eq!(Z::i(a).bits(), 128 - a.leading_zeros());
        }
    }
    // Division across limbs: (q v + r) / v.
    for &a in &vals {
        for &b in &vals {
            if a > 0 && b > 0 {
                let v = Z::i(b).shl(130).add(Z::i(a));
                let q = Z::i(a).shl(60).add(Z::i(b));
                let u = q.mul(v).add(Z::i(a - 1));
                assert_eq!(u.divmod(v), (q, Z::i(a - 1)));
                n += 1;
            }
        }
    }
    n
}
