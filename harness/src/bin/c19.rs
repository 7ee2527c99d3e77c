//! C19: Sum and Product.
use mc::alpha::{self, V};
use mc::*;

/// An iterator with a say about its size hint, and no shortcuts.
struct Plain<I>(I, usize, usize);
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 += 1;
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.2 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            _ => self.0.size_hint(),
        }
    }
}

fn want<T: Int>(xs: &[T], product: bool, debug: bool) -> Option<T> {
    let mut z = if product { Z::ONE } else { Z::ZERO };
    for x in xs {
        let e = if product { z.mul(x.z()) } else { z.add(x.z()) };
        if debug && !T::fits(e) {
            return None;
        }
        z = T::wrap(e).z();
    }
    Some(T::wrap(z))
}

macro_rules! folds {
    ($l:ident, $t:ident, $vs:expr, $deep:expr, $debug:expr) => {{
        let l: &mut L = $l;
        let xs: Vec<$t> = $vs.iter().map(|v| $t::of(*v)).collect();
        let a = &|| format!("[{}]", xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "));
        let s = want(&xs, false, $debug);
        let p = want(&xs, true, $debug);
        l.tag(if s.is_some() { "sum in range or wrapping" } else { "sum panics" });
        l.tag(if p.is_some() { "product in range or wrapping" } else { "product panics" });
        l.cmp_panic(concat!("Sum for ", stringify!($t)), || xs.iter().copied().sum::<$t>(), s, a);
        l.cmp_panic(concat!("Sum<&> for ", stringify!($t)), || xs.iter().sum::<$t>(), s, a);
        l.cmp_panic(concat!("Product for ", stringify!($t)), || xs.iter().copied().product::<$t>(), p, a);
        l.cmp_panic(concat!("Product<&> for ", stringify!($t)), || xs.iter().product::<$t>(), p, a);
        if $deep {
            for h in 0..3 {
                l.cmp_panic("Sum of a plain iterator", || Plain(xs.iter(), 0, h).sum::<$t>(), s, a);
                l.cmp_panic("Sum of a plain iterator by value", || Plain(xs.iter().copied(), 0, h).sum::<$t>(), s, a);
                l.cmp_panic("Product of a plain iterator", || Plain(xs.iter(), 0, h).product::<$t>(), p, a);
                l.cmp_panic("Product of a plain iterator by value", || Plain(xs.iter().copied(), 0, h).product::<$t>(), p, a);
            }
            // The whole iterator is taken, exactly once.
            let mut it = Plain(xs.iter(), 0, 0);
            if s.is_some() {
                let _ = l.caught(|| it.by_ref().sum::<$t>());
                chk!(l, "items taken by Sum", a, it.1, xs.len() + 1);
            }
            let mut it = Plain(xs.iter(), 0, 0);
            if p.is_some() && !xs.iter().any(|x| x.z().is_zero()) {
                let _ = l.caught(|| it.by_ref().product::<$t>());
                chk!(l, "items taken by Product", a, it.1, xs.len() + 1);
            }
        }
    }};
}

fn spaces(env: &Env) -> Vec<Space> {
    let debug = env.debug;
    // Few values, long sequences.
    let mut tiny: Vec<V> = vec![[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], alpha::MAX, alpha::pow2(128), alpha::MIN, [3, 0, 0, 1]];
    if !env.quick {
        tiny.push(alpha::not(alpha::MIN));
    }
    let len = if env.quick { 6 } else { 7 };
    let k = tiny.len();
    let total: usize = (0..=len).map(|n| k.pow(n)).sum();
    // More values, short sequences.
    let some = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::limbs(&[0, 1, u64::MAX])]);
    let ns = some.len();
    let pairs = some.clone();
    let step = if env.quick { 4 } else { 2 };
    let three: Vec<V> = some.iter().copied().step_by(step).collect();
    let nt = three.len();
    let long = if env.quick { 600 } else { 3000 };
    vec![
        space("sequences", "every sequence of up to 6 (thorough: 7) values of a tiny alphabet, owned and borrowed, with every kind of size hint", total, move |i, l| {
            let mut i = i as usize;
            let mut n = 0u32;
            while i >= k.pow(n) {
                i -= k.pow(n);
                n += 1;
            }
            let mut vs = vec![];
            for _ in 0..n {
                vs.push(tiny[i % k]);
                i /= k;
            }
            folds!(l, U256, vs, true, debug);
            folds!(l, I256, vs, true, debug);
            l.nontrivial(n >= 2);
        }),
        space("pairs", "every pair of a larger alphabet", ns * ns, move |i, l| {
            let (p, q) = pair(i, ns);
            let vs = [pairs[p], pairs[q]];
            folds!(l, U256, vs, false, debug);
            folds!(l, I256, vs, false, debug);
            l.nontrivial(true);
        }),
        space("triples", "every triple of a medium alphabet", nt * nt * nt, move |i, l| {
            let (p, r) = pair(i, nt * nt);
            let vs = [three[p], three[r / nt], three[r % nt]];
            folds!(l, U256, vs, false, debug);
            folds!(l, I256, vs, false, debug);
            l.nontrivial(true);
        }),
        space("very long", "iterators around 2^10, 2^12 and 2^16 items", 16, move |i, l| {
            let n = [1023u64, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70000, 131073][i as usize];
            for seed in [[1u64, 0, 0, 0], [0, 1, 0, 0]] {
                // Sums and products that stay in range...
                let vs: Vec<V> = (0..n).map(|j| if j % 7 == 3 { [0; 4] } else { seed }).collect();
                folds!(l, U256, vs, false, debug);
                folds!(l, I256, vs, false, debug);
                let vs: Vec<V> = (0..n).map(|j| if j % 8192 == 3 { [2, 0, 0, 0] } else { [1, 0, 0, 0] }).collect();
                folds!(l, U256, vs, false, debug);
                // ... and signed ones around zero.
                let vs: Vec<V> = (0..n).map(|j| if j % 2 == 1 { alpha::neg(seed) } else { seed }).collect();
                folds!(l, I256, vs, false, debug);
            }
            l.nontrivial(true);
        }),
        space("long", "iterators of every length up to 600 (thorough: 3000)", long, move |i, l| {
            for seed in [[1u64, 0, 0, 0], [0, 1, 0, 0], [7, 0, 1, 0], alpha::MAX] {
                let vs: Vec<V> = (0..i).map(|j| if j % 7 == 3 { alpha::neg(seed) } else { seed }).collect();
                folds!(l, U256, vs, true, debug);
                folds!(l, I256, vs, true, debug);
            }
            l.nontrivial(i >= 2);
        }),
    ]
}

fn main() {
    mc::run::main("C19", spaces)
}
