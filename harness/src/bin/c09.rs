//! C09: conversions between integer types, and the constants.
use mc::alpha::{self, V};
use mc::*;

fn low(v: V) -> u128 {
    (v[1] as u128) << 64 | v[0] as u128
}

/// From 256 bits to every primitive type.
fn narrow(l: &mut L, v: V) {
    let (u, i) = (U256::of(v), I256::of(v));
    let (zu, zi) = (u.z(), i.z());
    let au = &|| show1(u);
    let ai = &|| show1(i);
    macro_rules! go {
        ($($t:ident $m:ident),*) => {$({
            let want = low(v) as $t;
            chk!(l, concat!("U256::", stringify!($m)), au, u.$m(), want);
            chk!(l, concat!("I256::", stringify!($m)), ai, i.$m(), want);
            #[allow(unused_comparisons)]
            let (lo, hi) = if <$t>::MIN < 0 { (Z::i(<$t>::MIN as i128), Z::i(<$t>::MAX as i128)) } else { (Z::ZERO, Z::u(<$t>::MAX as u128)) };
            let w = |z: Z| if lo.le(z) && z.le(hi) { Ok(want) } else { Err(()) };
            chk!(l, concat!(stringify!($t), "::try_from(U256)"), au, <$t>::try_from(u).map_err(|_| ()), w(zu));
            chk!(l, concat!(stringify!($t), "::try_from(I256)"), ai, <$t>::try_from(i).map_err(|_| ()), w(zi));
        })*};
    }
    go!(i8 as_i8, i16 as_i16, i32 as_i32, i64 as_i64, i128 as_i128, isize as_isize,
        u8 as_u8, u16 as_u16, u32 as_u32, u64 as_u64, u128 as_u128, usize as_usize);
    chk!(l, "U256::as_i256", au, u.as_i256(), i);
    chk!(l, "AsI256 for U256", au, AsI256::as_i256(u), i);
    chk!(l, "AsU256 for U256", au, AsU256::as_u256(u), u);
    chk!(l, "I256::as_u256", ai, i.as_u256(), u);
    chk!(l, "AsU256 for I256", ai, AsU256::as_u256(i), u);
    chk!(l, "AsI256 for I256", ai, AsI256::as_i256(i), i);
    let neg = v[3] >> 63 == 1;
    chk!(l, "I256::try_from(U256)", au, I256::try_from(u).map_err(|_| ()), if neg { Err(()) } else { Ok(i) });
    chk!(l, "U256::try_from(I256)", ai, U256::try_from(i).map_err(|_| ()), if neg { Err(()) } else { Ok(u) });
    l.tag(if v[2] | v[3] == 0 { "fits 128 bits" } else if neg { "top bit set" } else { "wide" });
    l.nontrivial(v[1] | v[2] | v[3] != 0);
}

/// From a primitive (the truncated pattern) to 256 bits.
macro_rules! widen {
    ($l:ident, $p:expr, $t:ident, $z:expr) => {{
        let l: &mut L = $l;
        let p: $t = $p;
        let z: Z = $z;
        let args = &|| format!("{}{}", p, stringify!($t));
        chk!(l, concat!(stringify!($t), " as_u256"), args, p.as_u256(), U256::wrap(z));
        chk!(l, concat!(stringify!($t), " as_i256"), args, p.as_i256(), I256::wrap(z));
        let u = if z.is_neg() { Err(()) } else { Ok(U256::wrap(z)) };
        chk!(l, concat!("U256::try_from(", stringify!($t), ")"), args, U256::try_from(p).map_err(|_| ()), u);
    }};
}
macro_rules! widen_from_i {
    ($l:ident, $p:expr, $t:ident, $z:expr) => {{
        widen!($l, $p, $t, $z);
        let args = &|| format!("{}{}", $p, stringify!($t));
        chk!($l, concat!("I256::from(", stringify!($t), ")"), args, I256::from($p), I256::wrap($z));
    }};
}
macro_rules! widen_from_u {
    ($l:ident, $p:expr, $t:ident, $z:expr) => {{
        widen_from_i!($l, $p, $t, $z);
        let args = &|| format!("{}{}", $p, stringify!($t));
        chk!($l, concat!("U256::from(", stringify!($t), ")"), args, U256::from($p), U256::wrap($z));
    }};
}

fn wide_sources(l: &mut L, x: u128) {
    widen_from_i!(l, x as i8, i8, Z::i(x as i8 as i128));
    widen_from_i!(l, x as i16, i16, Z::i(x as i16 as i128));
    widen_from_i!(l, x as i32, i32, Z::i(x as i32 as i128));
    widen_from_i!(l, x as i64, i64, Z::i(x as i64 as i128));
    widen_from_i!(l, x as i128, i128, Z::i(x as i128));
    widen!(l, x as isize, isize, Z::i(x as isize as i128));
    widen_from_u!(l, x as u8, u8, Z::u(x as u8 as u128));
    widen_from_u!(l, x as u16, u16, Z::u(x as u16 as u128));
    widen_from_u!(l, x as u32, u32, Z::u(x as u32 as u128));
    widen_from_u!(l, x as u64, u64, Z::u(x as u64 as u128));
    widen_from_u!(l, x, u128, Z::u(x));
    widen!(l, x as usize, usize, Z::u(x as usize as u128));
    let args = &|| format!("{x}");
    chk!(l, "U256::new", args, U256::new(x), U256::wrap(Z::u(x)));
    chk!(l, "I256::new", args, I256::new(x as i128), I256::wrap(Z::i(x as i128)));
    l.nontrivial(x > 0xffff);
}

fn constants(l: &mut L) {
    let a = &|| String::new();
    chk!(l, "U256::MIN", a, U256::MIN.limbs().to_vec() == vec![0; 4], true);
    chk!(l, "U256::MAX", a, U256::MAX.limbs() == alpha::MAX, true);
    chk!(l, "U256::ZERO", a, U256::ZERO.limbs() == [0; 4], true);
    chk!(l, "U256::ONE", a, U256::ONE.limbs() == [1, 0, 0, 0], true);
    chk!(l, "I256::MIN", a, I256::MIN.limbs() == alpha::MIN, true);
    chk!(l, "I256::MAX", a, I256::MAX.limbs() == alpha::not(alpha::MIN), true);
    chk!(l, "I256::ZERO", a, I256::ZERO.limbs() == [0; 4], true);
    chk!(l, "I256::ONE", a, I256::ONE.limbs() == [1, 0, 0, 0], true);
    chk!(l, "U256::default", a, U256::default().limbs() == [0; 4], true);
    chk!(l, "I256::default", a, I256::default().limbs() == [0; 4], true);
    chk!(l, "U256::BITS", a, U256::BITS, 256);
    chk!(l, "I256::BITS", a, I256::BITS, 256);
    for b in [false, true] {
        let z = Z::i(b as i128);
        let a = &|| format!("{b}");
        chk!(l, "U256::from(bool)", a, U256::from(b), U256::wrap(z));
        chk!(l, "I256::from(bool)", a, I256::from(b), I256::wrap(z));
        chk!(l, "AsU256 for bool", a, b.as_u256(), U256::wrap(z));
        chk!(l, "AsI256 for bool", a, b.as_i256(), I256::wrap(z));
    }
    chk!(l, "size", a, std::mem::size_of::<U256>() + std::mem::size_of::<I256>(), 64);
}

fn spaces(env: &Env) -> Vec<Space> {
    let u = alpha::union(vec![alpha::unary(env), if env.quick { vec![] } else { alpha::two_bits() }]);
    let mut w: Vec<u128> = u.iter().map(|v| low(*v)).collect();
    w.extend(u.iter().map(|v| low([v[2], v[3], 0, 0])));
    w.sort();
    w.dedup();
    vec![
        space("constants", "associated constants, Default, bool", 1, |_, l| constants(l)),
        space("16 bits", "every 8- and 16-bit source value, and every 16-bit pattern sign-extended to the wider sources", 1 << 16, |i, l| {
            wide_sources(l, i as u128);
            wide_sources(l, i as u16 as i16 as i128 as u128);
        }),
        space("wide sources", "every primitive source type on the words of the alphabet", w.len(), move |i, l| wide_sources(l, w[i as usize])),
        space("targets", "every primitive target type on the alphabet", u.len(), move |i, l| narrow(l, u[i as usize])),
    ]
}

fn main() {
    mc::run::main("C09", spaces)
}
