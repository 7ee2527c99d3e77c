//! C20 and C22: the whole API over small alphabets, for an interpreter that
//! checks every access and for targets of either byte order.
use mc::alpha::{self, V};
use mc::*;

const M: u64 = u64::MAX;
const T: u64 = 1 << 63;

/// Patterns that take every branch of the division algorithm, the carries and
/// the sign handling.
fn small() -> Vec<V> {
    vec![
        [0; 4],
        [1, 0, 0, 0],
        [M; 4],
        [10, 0, 0, 0],
        [0, 0, 0, T],
        [M, M, M, T - 1],
        [0, 0, 1, 0],
        [M, M, 0, 0],
        [0, 1, 0, 0],
        [3, 0, T, 0],
        [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0],
        [0, 0, M, M],
        [1, 0, 0, T],
        [127, 0, 0, 0],
        [M, T, 0, 0],
        [1, 1, 1, 1],
    ]
}
fn medium() -> Vec<V> {
    let mut r = small();
    r.extend([
        [2, 0, 0, 0],
        [255, 0, 0, 0],
        [256, 0, 0, 0],
        [0, T, 0, 0],
        [0, 0, 0, 1],
        [M - 1, M, M, M],
        [M, 0, 0, 0],
        [0, M, M, M],
        [0, M - 1, M, T - 1],
        [M, M, M - 1, M],
        [M - 1, M, 0, T],
        [0xff, 0, 0, 0xff << 56],
        [0x8000_0000, 0, 0x8000_0000, 0],
        [0, 0, 0, 3],
        [5, 0, 0, 1 << 62],
        [0x89e8_3eed_0000_0000, 0x4ee2_d6d4, 0, 0],
        [0x53ff_ffff, 0, 0, 0],
        [0, 1 << 32, 0, 0],
    ]);
    r
}

const ERRORS: [&str; 7] = ["", "-", "+", "x", "0x", "999999999999999999999999999999999999999999999999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999999999999999999999999999999999999999999999999999"];

fn spaces(env: &Env) -> Vec<Space> {
    let lits: Vec<V> = env.dict.iter().flat_map(|x| if env.quick { vec![*x] } else { vec![alpha::addc(*x, -1), *x, alpha::addc(*x, 1), [1, 0, x[0], x[1]]] }).collect();
    let pairs = if env.quick { small() } else { medium() };
    let values = alpha::union(vec![medium(), lits, if env.quick { vec![] } else { alpha::core() }]);
    let (np, nv) = (pairs.len(), values.len());
    let amounts: Vec<u32> = if env.quick { vec![0, 1, 63, 64, 65, 127, 128, 129, 192, 255, 256, 300, u32::MAX] } else { (0..=260).chain([511, 512, u32::MAX]).collect() };
    let na = amounts.len();
    let lens: Vec<usize> = if env.quick { vec![0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 40, 64] } else { (0..=70).collect() };
    let nl = lens.len();
    let texts: Vec<usize> = if env.quick { vec![0, 1, 2, 65, 79, 257] } else { (0..=260).collect() };
    let nt = texts.len();
    let radices: Vec<u32> = if env.quick { vec![2, 10, 16, 36] } else { (2..=36).collect() };
    let nr = radices.len();
    let widths: Vec<usize> = if env.quick { vec![0, 1, 66, 79, 257, 300] } else { (0..=270).collect() };
    let nw = widths.len();
    macro_rules! pairs {
        ($name:literal, $what:literal, $f:path) => {{
            let v = pairs.clone();
            space($name, $what, np * np, move |i, l| {
                let (p, q) = pair(i, np);
                $f(l, v[p], v[q])
            })
        }};
    }
    macro_rules! values {
        ($name:literal, $what:literal, $f:path) => {{
            let v = values.clone();
            space($name, $what, nv, move |i, l| $f(l, v[i as usize]))
        }};
    }
    let few: Vec<V> = if env.quick { pairs[..9].to_vec() } else { pairs.clone() };
    let nf = few.len();
    let (v1, v2, v3) = (values.clone(), pairs.clone(), pairs.clone());
    let quick = env.quick;
    let v4 = if quick { alpha::union(vec![small(), medium()[16..26].to_vec(), values[medium().len()..].to_vec()]) } else { values.clone() };
    let ns = v4.len();
    vec![
        values!("values", "every function of one value", api::api_values),
        values!("texts", "formatting and parsing of every value", api::texts_back),
        space("serde", "every serde scheme both ways", ns, move |i, l| api::serde_values(l, v4[i as usize])),
        values!("pointers", "conversions from and to pointer-sized integers, against the definition", pointers),
        values!("order", "functions that depend on the byte order, against the definition", order),
        space("powers", "powers of every pattern", np, move |i, l| api::powers(l, v3[i as usize])),
        space("shifts", "shifts and rotations of every pattern by every amount", np * na, move |i, l| {
            let (p, q) = pair(i, na);
            api::shifts(l, v2[p], amounts[q])
        }),
        space("byte lengths", "byte strings of every length through the byte schemes", nl * 3, move |i, l| {
            let (p, q) = pair(i, 3);
            api::serde_lengths(l, lens[p], [0, 0x80, 0xf9][q])
        }),
        space("text lengths", "texts of every length, radix and leading digit", nt * nr * if env.quick { 2 } else { 4 }, move |i, l| {
            let (p, q) = pair(i, nt);
            let (p, r) = pair(p as u64, nr);
            if quick && texts[q] > 80 && radices[r] > 2 {
                return;
            }
            api::parse_lengths(l, texts[q], radices[r], p)
        }),
        space("widths", "formatting with run-time widths and precisions", nw * 6, move |i, l| {
            let (p, q) = pair(i, nw);
            api::widths(l, v1[[0, 1, 2, 4, 5, 10][p]], widths[q])
        }),
        pairs!("conversions", "conversions, words, iterators, comparisons of every ordered pair", api::misc),
        space("errors", "error values made, shown and compared", ERRORS.len() * 2, move |i, l| api::errors(l, [[M; 4], [3, 0, 0, 0]][i as usize % 2], ERRORS[i as usize / 2])),
        pairs!("other", "hashes, errors, casts", api::other),
        pairs!("pairs", "every method of two operands", api::api_pairs),
        pairs!("intrinsics", "every public intrinsic of two operands", api::intr_pairs),
        space("operators @profile", "every operator form, panics included", nf * nf, move |i, l| {
            let (p, q) = pair(i, nf);
            api::forms(l, few[p], few[q])
        }),
        pairs!("more operators @profile", "operators and panicking methods", api::ops),
        space("threads", "two groups of functions at the same time in two threads: the same one, and its neighbour (thorough: all pairs)", GROUPS * if quick { 2 } else { GROUPS }, move |i, l| {
            let (p, q) = pair(i, if quick { 2 } else { GROUPS });
            threads(l, p, (p + q) % GROUPS)
        }),
    ]
}

/// The functions whose result is defined by the byte order of the target.
fn order(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    let big = cfg!(target_endian = "big");
    let mut le = [0u8; 32];
    for k in 0..32 {
        le[k] = (v[k / 8] >> (8 * (k % 8))) as u8;
    }
    let mut be = le;
    be.reverse();
    let ne = if big { be } else { le };
    let mut r = [0u64; 4];
    for k in 0..4 {
        r[k] = v[3 - k].swap_bytes();
    }
    let (to_be, to_le) = if big { (v, r) } else { (r, v) };
    macro_rules! both {
        ($x:ident, $t:ident) => {
            chk!(l, "to_be_bytes", s, $x.to_be_bytes(), be);
            chk!(l, "to_le_bytes", s, $x.to_le_bytes(), le);
            chk!(l, "to_ne_bytes", s, $x.to_ne_bytes(), ne);
            chk!(l, "from_be_bytes", s, $t::from_be_bytes(be), $x);
            chk!(l, "from_le_bytes", s, $t::from_le_bytes(le), $x);
            chk!(l, "from_ne_bytes", s, $t::from_ne_bytes(ne), $x);
            chk!(l, "to_be", s, $x.to_be(), $t::of(to_be));
            chk!(l, "to_le", s, $x.to_le(), $t::of(to_le));
            chk!(l, "from_be", s, $t::from_be($x), $t::of(to_be));
            chk!(l, "from_le", s, $t::from_le($x), $t::of(to_le));
            chk!(l, "swap_bytes", s, $x.swap_bytes(), $t::of(r));
            // SAFETY: both are 32 plain bytes.
            chk!(l, "bytes in memory", s, unsafe { std::mem::transmute_copy::<$t, [u8; 32]>(&$x) }, ne);
            chk!(l, "low", s, *$x.low() as u128, v[0] as u128 | (v[1] as u128) << 64);
            chk!(l, "high", s, *$x.high() as u128, v[2] as u128 | (v[3] as u128) << 64);
            chk!(l, "low_mut", s, { let mut y = $t::of([0; 4]); *y.low_mut() = *$x.low(); *y.high_mut() = *$x.high(); y }, $x);
            chk!(l, "from_words", s, $t::from_words(*$x.high(), *$x.low()), $x);
            chk!(l, "into_words", s, { let (h, w) = $x.into_words(); (h as u128, w as u128) }, (*$x.high() as u128, *$x.low() as u128));
            {
                use mc::tok::{Out, Record, Tok};
                chk!(l, "serde bytes::ne", s, match ethnum::serde::bytes::ne::serialize(&$x, Record) { Ok(Out::Bytes(b)) => b, _ => vec![] }, ne.to_vec());
                chk!(l, "serde bytes::ne back", s, ethnum::serde::bytes::ne::deserialize::<$t, _>(Tok::Bytes(&ne)).ok(), Some($x));
                let short = |o| match o { Ok(Out::Bytes(b)) => b, _ => vec![0xee] };
                let c = short(ethnum::serde::compressed_bytes::ne::serialize(&$x, Record));
                let d = if big { short(ethnum::serde::compressed_bytes::be::serialize(&$x, Record)) } else { short(ethnum::serde::compressed_bytes::le::serialize(&$x, Record)) };
                chk!(l, "serde compressed_bytes::ne", s, c.clone(), d);
                chk!(l, "serde compressed_bytes::ne back", s, ethnum::serde::compressed_bytes::ne::deserialize::<$t, _>(Tok::Bytes(&c)).ok(), Some($x));
            }
        };
    }
    both!(a, U256);
    both!(i, I256);
    l.nontrivial(be != le);
}

/// The functions whose result is defined by the size of a pointer.
fn pointers(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let s = &|| show1(a);
    let bits = usize::BITS;
    let low = if bits == 64 { v[0] } else { v[0] & 0xffff_ffff };
    let signed = if bits == 64 { low as i64 } else { low as u32 as i32 as i64 };
    let rest = if signed < 0 { M } else { 0 };
    let small = v[1] | v[2] | v[3] == 0 && v[0] == low;
    let fits_unsigned = small.then_some(low as usize);
    let fits_signed_of_unsigned = (small && signed >= 0).then_some(signed as isize);
    let fits_signed = (v == [signed as u64, rest, rest, rest]).then_some(signed as isize);
    chk!(l, "as_usize", s, a.as_usize(), low as usize);
    chk!(l, "as_usize", s, i.as_usize(), low as usize);
    chk!(l, "as_isize", s, a.as_isize(), signed as isize);
    chk!(l, "as_isize", s, i.as_isize(), signed as isize);
    chk!(l, "usize::try_from", s, usize::try_from(a).ok(), fits_unsigned);
    chk!(l, "usize::try_from", s, usize::try_from(i).ok(), fits_unsigned);
    chk!(l, "isize::try_from", s, isize::try_from(a).ok(), fits_signed_of_unsigned);
    chk!(l, "isize::try_from", s, isize::try_from(i).ok(), fits_signed);
    let (u, n) = (low as usize, signed as isize);
    let (wide, sign) = ([low, 0, 0, 0], [signed as u64, rest, rest, rest]);
    chk!(l, "usize.as_u256", s, u.as_u256(), U256::of(wide));
    chk!(l, "usize.as_i256", s, u.as_i256(), I256::of(wide));
    chk!(l, "isize.as_u256", s, n.as_u256(), U256::of(sign));
    chk!(l, "isize.as_i256", s, n.as_i256(), I256::of(sign));
    chk!(l, "U256::try_from(usize)", s, U256::try_from(u).ok(), Some(U256::of(wide)));
    chk!(l, "U256::try_from(isize)", s, U256::try_from(n).ok(), (signed >= 0).then_some(U256::of(sign)));
    l.nontrivial(!small);
}

const GROUPS: usize = 12;

/// A group of functions, which one of two sets of operands.
fn group(l: &mut L, k: usize, which: usize) {
    let (v, w) = [([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0], [3, 0, T, 0]), ([M, M, M, T - 1], [7, 0, 0, 0])][which];
    match k {
        0 => api::api_values(l, v),
        1 => api::texts_back(l, v),
        2 => api::serde_values(l, v),
        3 => api::powers(l, w),
        4 => api::shifts(l, v, [77, 300][which]),
        5 => api::serde_lengths(l, [31, 33][which], 0x80),
        6 => api::widths(l, v, 90),
        7 => api::misc(l, v, w),
        8 => api::other(l, v, w),
        9 => api::api_pairs(l, v, w),
        10 => api::intr_pairs(l, v, w),
        _ => api::ops(l, v, w),
    }
}

/// Two groups at the same time: an interpreter that knows which accesses are
/// ordered finds every pair that is not, whatever the schedule.
fn threads(l: &mut L, p: usize, q: usize) {
    let alone = |k, which| {
        let mut l = L::new("threads");
        group(&mut l, k, which);
        (l.digest, l.evals)
    };
    let a = std::thread::spawn(move || alone(p, 0));
    let b = alone(q, 1);
    let a = a.join().unwrap();
    l.mix(a.0);
    l.mix(b.0);
    l.evals += a.1 + b.1;
    l.nontrivial(true);
}

fn main() {
    if std::env::args().any(|a| a == "--part" || a == "--case") {
        mc::run::interpret(spaces)
    } else {
        mc::run::main("C20", spaces)
    }
}
