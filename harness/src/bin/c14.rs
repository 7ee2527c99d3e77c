//! C14: byte and word representations.
use mc::alpha::{self, V};
use mc::*;

fn le(v: V) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..32 {
        b[i] = (v[i / 8] >> (8 * (i % 8))) as u8;
    }
    b
}
fn rev(mut b: [u8; 32]) -> [u8; 32] {
    b.reverse();
    b
}
fn words(v: V) -> (u128, u128) {
    ((v[3] as u128) << 64 | v[2] as u128, (v[1] as u128) << 64 | v[0] as u128)
}

macro_rules! check {
    ($l:ident, $v:expr, $t:ident, $w:ident) => {{
        let l: &mut L = $l;
        let v: V = $v;
        let (hi, lo) = words(v);
        let (hi, lo) = (hi as $w, lo as $w);
        let little = le(v);
        let big = rev(little);
        let native = if cfg!(target_endian = "little") { little } else { big };
        // The public representation is the anchor: two words in native order.
        let x = if cfg!(target_endian = "little") { $t([lo, hi]) } else { $t([hi, lo]) };
        let s = if cfg!(target_endian = "little") {
            let b = rev(little);
            let mut w = [0u64; 4];
            for i in 0..32 { w[i / 8] |= (b[i] as u64) << (8 * (i % 8)); }
            let (h, l) = words(w);
            $t([l as $w, h as $w])
        } else { x };
        let a = &|| format!("{}({})", stringify!($t), alpha::hex(v));
        chk!(l, "from_words", a, $t::from_words(hi, lo), x);
        chk!(l, "into_words", a, x.into_words() == (hi, lo), true);
        chk!(l, "low", a, *x.low() == lo, true);
        chk!(l, "high", a, *x.high() == hi, true);
        chk!(l, "to_le_bytes", a, x.to_le_bytes(), little);
        chk!(l, "to_be_bytes", a, x.to_be_bytes(), big);
        chk!(l, "to_ne_bytes", a, x.to_ne_bytes(), native);
        chk!(l, "from_le_bytes", a, $t::from_le_bytes(little), x);
        chk!(l, "from_be_bytes", a, $t::from_be_bytes(big), x);
        chk!(l, "from_ne_bytes", a, $t::from_ne_bytes(native), x);
        chk!(l, "from_le_bytes (reversed)", a, $t::from_le_bytes(big), x.swap_bytes());
        chk!(l, "swap_bytes.to_le_bytes", a, x.swap_bytes().to_le_bytes(), big);
        chk!(l, "to_be", a, x.to_be(), s);
        chk!(l, "from_be", a, $t::from_be(x), s);
        chk!(l, "to_le", a, x.to_le(), if cfg!(target_endian = "little") { x } else { s });
        chk!(l, "from_le", a, $t::from_le(x), if cfg!(target_endian = "little") { x } else { s });
        if hi == 0 {
            chk!(l, "new", a, $t::new(lo), if $t::SIGNED && (lo as i128) < 0 { $t::wrap(Z::i(lo as i128)) } else { x });
        }
        chk!(l, "new(low)", a, $t::new(lo), if $t::SIGNED { $t::wrap(Z::i(lo as i128)) } else { $t::wrap(Z::u(lo as u128)) });
        l.nontrivial(hi != 0 && lo != 0 && hi != lo);
    }};
}

macro_rules! poke {
    ($l:ident, $v:expr, $w:expr, $t:ident, $p:ident) => {{
        let l: &mut L = $l;
        let (v, w): (V, u128) = ($v, $w);
        let (hi, lo) = words(v);
        let a = &|| format!("{}({}) write {:#x}", stringify!($t), alpha::hex(v), w);
        let x = $t::from_words(hi as $p, lo as $p);
        let (mut y, mut z) = (x, x);
        l.at("low_mut");
        *y.low_mut() = w as $p;
        chk!(l, "low_mut", a, y, $t::of([w as u64, (w >> 64) as u64, v[2], v[3]]));
        chk!(l, "low after low_mut", a, *y.low() as u128, w);
        chk!(l, "high after low_mut", a, *y.high() as u128, hi);
        l.at("high_mut");
        *z.high_mut() = w as $p;
        chk!(l, "high_mut", a, z, $t::of([v[0], v[1], w as u64, (w >> 64) as u64]));
        chk!(l, "high after high_mut", a, *z.high() as u128, w);
        chk!(l, "low after high_mut", a, *z.low() as u128, lo);
        l.nontrivial(w != hi && w != lo);
    }};
}

fn spaces(env: &Env) -> Vec<Space> {
    let vals = alpha::unary(env);
    let n = vals.len();
    // Every pair of bytes at every pair of byte positions (thorough), or all
    // pairs of a few byte values.
    let bs: Vec<u8> = if env.quick { (0..=255).step_by(15).chain([0x01, 0x7f, 0x80, 0xfe]).collect() } else { (0..=255).collect() };
    let nb = bs.len();
    let some = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, true), alpha::limbs(&alpha::L5)]);
    let ns = some.len();
    let mut ws: Vec<u128> = some.iter().flat_map(|v| [words(*v).0, words(*v).1]).collect();
    ws.sort();
    ws.dedup();
    let nw = ws.len();
    vec![
        space("values", "every form of every value of the unary alphabet", n, move |i, l| {
            check!(l, vals[i as usize], U256, u128);
            check!(l, vals[i as usize], I256, i128);
        }),
        space("two bytes", "two chosen bytes at every pair of byte positions over a zero background and over one where every byte is different", 32 * 32 * nb * nb, move |i, l| {
            let (p, r) = pair(i, 32 * nb * nb);
            let (q, r) = pair(r as u64, nb * nb);
            let (x, y) = (bs[r / nb], bs[r % nb]);
            for bg in 0..2u8 {
                let mut b = [0u8; 32];
                for k in 0..32 {
                    b[k] = bg * (0x80 + 3 * k as u8);
                }
                b[p] = x;
                b[q] = y;
                let mut v = [0u64; 4];
                for k in 0..32 {
                    v[k / 8] |= (b[k] as u64) << (8 * (k % 8));
                }
                check!(l, v, U256, u128);
                check!(l, v, I256, i128);
            }
        }),
        space("word writes", "every write of a word of the alphabet to either word of a value", ns * nw, move |i, l| {
            let (p, q) = pair(i, nw);
            poke!(l, some[p], ws[q], U256, u128);
            poke!(l, some[p], ws[q], I256, i128);
        }),
    ]
}

fn main() {
    mc::run::main("C14", spaces)
}
