//! C10: conversions to and from floating point.
use mc::alpha::{self, V};
use mc::float::{to_float, to_int};
use mc::*;

fn from32(l: &mut L, b: u32) {
    let f = f32::from_bits(b);
    let a = &|| format!("{f:?} (bits {b:#010x})");
    chk!(l, "f32 as_u256", a, f.as_u256(), to_int::<U256>(b as u64, 23, 8));
    chk!(l, "f32 as_i256", a, f.as_i256(), to_int::<I256>(b as u64, 23, 8));
}
fn from64(l: &mut L, b: u64) {
    let f = f64::from_bits(b);
    let a = &|| format!("{f:?} (bits {b:#018x})");
    chk!(l, "f64 as_u256", a, f.as_u256(), to_int::<U256>(b, 52, 11));
    chk!(l, "f64 as_i256", a, f.as_i256(), to_int::<I256>(b, 52, 11));
    l.tag(if f.is_nan() {
        "NaN"
    } else if f.abs() < 1.0 {
        "below one"
    } else if f.abs() < 9007199254740992.0 {
        "within the mantissa"
    } else if f.abs() < 1.2e77 {
        "shifted"
    } else {
        "saturating"
    });
}

fn into(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let (zu, zi) = (u.z(), i.z());
    let (u32w, i32w) = (f32::from_bits(to_float(zu, 23, 8) as u32), f32::from_bits(to_float(zi, 23, 8) as u32));
    let (u64w, i64w) = (f64::from_bits(to_float(zu, 52, 11)), f64::from_bits(to_float(zi, 52, 11)));
    let au = &|| show1(u);
    let ai = &|| show1(i);
    chk!(l, "U256::as_f32", au, u.as_f32(), u32w);
    chk!(l, "U256::as_f64", au, u.as_f64(), u64w);
    chk!(l, "f32::from(U256)", au, f32::from(u), u32w);
    chk!(l, "f64::from(U256)", au, f64::from(u), u64w);
    chk!(l, "I256::as_f32", ai, i.as_f32(), i32w);
    chk!(l, "I256::as_f64", ai, i.as_f64(), i64w);
    chk!(l, "f32::from(I256)", ai, f32::from(i), i32w);
    chk!(l, "f64::from(I256)", ai, f64::from(i), i64w);
    if u32w.is_infinite() {
        l.tag("f32 overflow");
    }
    l.nontrivial(zu.bits() > 53);
}

/// Checks the float model against the primitive casts.
fn model(l: &mut L, x: u128) {
    let a = &|| format!("{x}");
    let z = Z::u(x);
    chk!(l, "model u128 as f64", a, f64::from_bits(to_float(z, 52, 11)), x as f64);
    chk!(l, "model u128 as f32", a, f32::from_bits(to_float(z, 23, 8) as u32), x as f32);
    let y = x as i128;
    chk!(l, "model i128 as f64", a, f64::from_bits(to_float(Z::i(y), 52, 11)), y as f64);
    chk!(l, "model i128 as f32", a, f32::from_bits(to_float(Z::i(y), 23, 8) as u32), y as f32);
    for f in [f64::from_bits(x as u64), f64::from_bits((x >> 64) as u64)] {
        if f.abs() < 1e38 {
            let w = to_int::<I256>(f.to_bits(), 52, 11).z();
            let g = f as i128;
            chk!(l, "model f64 as i128", a, w == Z::i(g), true);
        }
    }
}

fn spaces(env: &Env) -> Vec<Space> {
    let quick = env.quick;
    // Conversions from f32 are independent of backend and profile but for the
    // shift they end with: one configuration enumerates all of them.
    let all_f32 = !quick || (env.backend == "native" && !env.debug);
    // Mantissas: all edges, one- and two-bit patterns, runs.
    let mans = |width: u32| -> Vec<u64> {
        let mut m: Vec<u64> = vec![0];
        let all = (1u64 << width) - 1;
        for i in 0..width {
            let b = 1u64 << i;
            m.extend([b, b - 1, all ^ b, all - b + 1, all & (b | 1), all & !(b - 1)]);
            for j in 0..i {
                m.push(b | 1 << j);
                m.push(all ^ (b | 1 << j));
                m.push((b - 1) ^ ((1u64 << j) - 1));
            }
        }
        m.extend([all, all / 3, all / 3 * 2, all / 5, 0x000f_edcb_a987_6543 & all]);
        m.sort();
        m.dedup();
        m
    };
    let m64 = mans(52);
    let n64 = m64.len();
    let m32 = mans(23);
    let n32 = m32.len();
    // Integers around rounding boundaries: top + rest, for every bit length.
    let (tops53, tops24): (Vec<u64>, Vec<u64>) = {
        let f = |p: u32| {
            let hi = 1u64 << (p - 1);
            let all = (1u64 << p) - 1;
            let mut t = vec![hi, hi + 1, hi + 2, hi + 3, all, all - 1, all - 2, hi | hi >> 1, (hi | 1) + (hi >> 2), hi | 0x5555, hi | 0xaaaa];
            for i in 0..p - 1 {
                t.push(hi | 1 << i);
                t.push(all ^ 1 << i);
            }
            t.sort();
            t.dedup();
            t
        };
        (f(53), f(24))
    };
    let mut edges: Vec<V> = vec![];
    for (p, tops) in [(53u32, &tops53), (24, &tops24)] {
        for n in p..=256 {
            let k = n - p;
            for &t in tops.iter() {
                let base = Z::u(t as u128).shl(k);
                let mut rests: Vec<Z> = vec![Z::ZERO];
                if k > 0 {
                    let h = Z::pow2(k - 1);
                    for c in -2..=2i128 {
                        rests.push(h.add(Z::i(c)));
                    }
                    rests.push(Z::ONE);
                    rests.push(Z::pow2(k).sub(Z::ONE));
                    rests.push(h.sub(Z::pow2(k / 2)));
                    rests.push(h.add(Z::pow2(k / 2)));
                    // The deciding bit in every limb below the boundary.
                    for b in [0u32, 1, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 129, 180, 191, 192, 193] {
                        if b + 1 < k {
                            rests.push(h.add(Z::pow2(b)));
                            rests.push(h.sub(Z::pow2(b)));
                        }
                    }
                }
                for r in rests {
                    let z = base.add(r);
                    if z.is_neg() || !z.fits_u() {
                        continue;
                    }
                    edges.push(z.limbs());
                    edges.push(z.neg().limbs());
                }
            }
        }
    }
    let edges = alpha::dedup(edges);
    let u = alpha::union(vec![alpha::unary(env), alpha::two_bits()]);
    let mut w: Vec<u128> = u.iter().step_by(if quick { 5 } else { 1 }).map(|v| (v[1] as u128) << 64 | v[0] as u128).collect();
    w.extend(edges.iter().step_by(3).map(|v| (v[1] as u128) << 64 | v[0] as u128));
    w.sort();
    w.dedup();
    let mut v = vec![
        space("model", "the float model itself against the primitive 128-bit casts", w.len(), move |i, l| model(l, w[i as usize])),
        space("from f64", "every sign and exponent of f64 with edge, one-bit, two-bit and run mantissas (subnormals, infinities and NaNs included)", 4096 * n64, move |i, l| {
            let (e, m) = pair(i, n64);
            from64(l, (e as u64) << 52 | m64[m]);
            l.nontrivial((1023..1280).contains(&(e & 2047)));
        }),
        space("to float: rounding", "for every bit length: mantissa edges followed by zero, just below half, half, just above half with the deciding bit in any limb", edges.len(), move |i, l| into(l, edges[i as usize])),
        space("to float: alphabet", "the unary alphabet and all two-bit patterns", u.len(), move |i, l| into(l, u[i as usize])),
    ];
    if !all_f32 {
        v.push(space("from f32", "every sign and exponent of f32 with edge, one-bit, two-bit and run mantissas", 512 * n32, move |i, l| {
            let (e, m) = pair(i, n32);
            from32(l, (e as u32) << 23 | m32[m] as u32);
            l.nontrivial((127..384).contains(&(e & 255)));
        }));
    } else {
        v.push(space("from f32: all", "all 2^32 bit patterns of f32", 1 << 32, move |i, l| {
            from32(l, i as u32);
        }));
    }
    v
}

fn main() {
    mc::run::main("C10", spaces)
}
