//! C04: exponentiation.
use mc::alpha::{self, V};
use mc::*;

/// The forms for one base and exponent; `fits` and `w` describe the exact
/// power (wrapped value, and whether the exact value is representable).
fn forms<T: Pow>(l: &mut L, a: T, e: u32, w: T, fits: bool) {
    let args = &|| format!("{} exp={}", show1(a), e);
    chk!(l, T::N[0], args, a.p_wrapping(e), w);
    chk!(l, T::N[1], args, a.p_overflowing(e), (w, !fits));
    chk!(l, T::N[2], args, a.p_checked(e), if fits { Some(w) } else { None });
    let sat = if fits {
        w
    } else if a.z().is_neg() && e % 2 == 1 {
        T::wrap(T::zmin())
    } else {
        T::wrap(T::zmax())
    };
    chk!(l, T::N[3], args, a.p_saturating(e), sat);
    if fits || !cfg!(debug_assertions) {
        chk!(l, T::N[4], args, a.p_plain(e), w);
    }
    if !fits {
        l.tag("overflow");
    }
}

trait Pow: Int + Val {
    const N: [&'static str; 5];
    fn p_wrapping(self, e: u32) -> Self;
    fn p_overflowing(self, e: u32) -> (Self, bool);
    fn p_checked(self, e: u32) -> Option<Self>;
    fn p_saturating(self, e: u32) -> Self;
    fn p_plain(self, e: u32) -> Self;
}
macro_rules! pow {
    ($T:ident, $n:expr) => {
        impl Pow for $T {
            const N: [&'static str; 5] = $n;
            fn p_wrapping(self, e: u32) -> Self { self.wrapping_pow(e) }
            fn p_overflowing(self, e: u32) -> (Self, bool) { self.overflowing_pow(e) }
            fn p_checked(self, e: u32) -> Option<Self> { self.checked_pow(e) }
            fn p_saturating(self, e: u32) -> Self { self.saturating_pow(e) }
            fn p_plain(self, e: u32) -> Self { self.pow(e) }
        }
    };
}
pow!(U256, ["U256::wrapping_pow", "U256::overflowing_pow", "U256::checked_pow", "U256::saturating_pow", "U256::pow"]);
pow!(I256, ["I256::wrapping_pow", "I256::overflowing_pow", "I256::checked_pow", "I256::saturating_pow", "I256::pow"]);

/// Powers 0..=top by repeated multiplication in the model.
fn ladder<T: Pow>(l: &mut L, v: V, top: u32) {
    let a = T::of(v);
    let z = a.z();
    let mut exact = Some(Z::ONE);
    let mut wrapped = Z::ONE;
    for e in 0..=top {
        let fits = exact.is_some_and(T::fits);
        forms(l, a, e, T::wrap(wrapped), fits);
        if !fits && e % 3 == 0 && cfg!(debug_assertions) && e < 48 {
            l.cmp_panic(T::N[4], || a.p_plain(e), None, &|| format!("{} exp={}", show1(a), e));
        }
        wrapped = T::wrap(wrapped.mul(z)).z();
        // Once out of range (and the base is not 0 or +-1, or it would never
        // have left) the magnitude only grows.
        exact = exact.filter(|x| T::fits(*x)).map(|x| x.mul(z));
    }
}

/// One large exponent, by squaring in the ring modulo 2^256.
fn large<T: Pow>(l: &mut L, v: V, e: u32) {
    let a = T::of(v);
    let z = a.z();
    let (mut acc, mut base, mut k) = (Z::ONE, z, e);
    while k > 0 {
        if k & 1 == 1 {
            acc = T::wrap(acc.mul(base)).z();
        }
        base = T::wrap(base.mul(base)).z();
        k >>= 1;
    }
    let unit = z.abs().le(Z::ONE);
    let fits = unit || (e < 257 && {
        let mut x = Some(Z::ONE);
        for _ in 0..e {
            x = x.map(|x| x.mul(z)).filter(|x| T::fits(*x));
        }
        x.is_some()
    });
    forms(l, a, e, T::wrap(acc), fits);
    if !fits && cfg!(debug_assertions) && e % 2 == 0 {
        l.cmp_panic(T::N[4], || a.p_plain(e), None, &|| format!("{} exp={}", show1(a), e));
    }
    l.nontrivial(!unit);
}

fn spaces(env: &Env) -> Vec<Space> {
    let bases = alpha::union(vec![
        alpha::binary(env, if env.quick { 1 } else { 2 }),
        alpha::small(if env.quick { 2000 } else { 1 << 16 }),
        alpha::runs().into_iter().step_by(if env.quick { 7 } else { 1 }).collect(),
    ]);
    // Roots: the largest base whose e-th power fits, for every e.
    let mut edge: Vec<(V, u32)> = vec![];
    for e in 2..=257u32 {
        for top in [alpha::MAX, alpha::not(alpha::MIN), alpha::MIN] {
            let top = Z::from_limbs(top);
            let mut x = Z::ZERO;
            for b in (0..=128).rev() {
                let y = x.add(Z::pow2(b));
                let mut p = Some(Z::ONE);
                for _ in 0..e {
                    p = p.map(|p| p.mul(y)).filter(|p| p.le(top));
                }
                if p.is_some() {
                    x = y;
                }
            }
            for c in -1..=2i128 {
                let y = x.add(Z::i(c));
                edge.push((y.limbs(), e));
                edge.push((y.neg().limbs(), e));
            }
        }
    }
    let exps: Vec<u32> = {
        let mut v: Vec<u32> = (301..=1100).step_by(if env.quick { 37 } else { 1 }).collect();
        for k in 5..32u32 {
            v.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        v.extend([u32::MAX, u32::MAX - 1, u32::MAX - 2, 0x5555_5555, 0xaaaa_aaaa, 1_000_000_007]);
        v.sort();
        v.dedup();
        v
    };
    let big_bases = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::limbs(&[0, 1, u64::MAX, 1 << 63])]);
    let ne = exps.len();
    vec![
        space("ladder", "every base of the alphabet to every exponent 0..=300", bases.len(), move |i, l| {
            ladder::<U256>(l, bases[i as usize], 300);
            ladder::<I256>(l, bases[i as usize], 300);
            l.nontrivial(true);
        }),
        space("roots", "for every exponent 2..=257 the bases around the largest one whose power fits", edge.len(), move |i, l| {
            let (v, e) = edge[i as usize];
            large::<U256>(l, v, e);
            large::<I256>(l, v, e);
        }),
        space("large exponents", "core bases to exponents up to 2^32-1", big_bases.len() * ne, move |i, l| {
            let (p, q) = pair(i, ne);
            large::<U256>(l, big_bases[p], exps[q]);
            large::<I256>(l, big_bases[p], exps[q]);
        }),
    ]
}

fn main() {
    mc::run::main("C04", spaces)
}
