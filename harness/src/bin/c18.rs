//! C18: the serde byte formats.
use mc::alpha::{self, V};
use mc::tok::*;
use mc::*;

fn le(v: V) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..32 {
        b[i] = (v[i / 8] >> (8 * (i % 8))) as u8;
    }
    b
}
fn of_le(b: [u8; 32]) -> V {
    let mut v = [0u64; 4];
    for i in 0..32 {
        v[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    v
}

const NE_BIG: bool = cfg!(target_endian = "big");

/// The shortest little-endian form: bytes that the extension puts back are
/// left out.
fn shortest(v: V, signed: bool) -> Vec<u8> {
    let mut b = le(v).to_vec();
    while let Some(&last) = b.last() {
        let rest = &b[..b.len() - 1];
        let fill = match rest.last() {
            Some(m) if signed && m >> 7 == 1 => 0xff,
            _ => 0,
        };
        if last != fill {
            break;
        }
        b.pop();
    }
    b
}
/// What a little-endian form of at most 32 bytes denotes.
fn extended(b: &[u8], signed: bool) -> V {
    let fill = match b.last() {
        Some(m) if signed && m >> 7 == 1 => 0xff,
        _ => 0,
    };
    let mut f = [fill; 32];
    f[..b.len()].copy_from_slice(b);
    of_le(f)
}
fn order(b: &[u8], big: bool) -> Vec<u8> {
    let mut b = b.to_vec();
    if big {
        b.reverse();
    }
    b
}

macro_rules! formats {
    ($f:ident!($($a:expr),*)) => {
        $f!($($a),*, le, false, U256); $f!($($a),*, be, true, U256); $f!($($a),*, ne, NE_BIG, U256);
        $f!($($a),*, le, false, I256); $f!($($a),*, be, true, I256); $f!($($a),*, ne, NE_BIG, I256);
    };
}

macro_rules! encode {
    ($l:expr, $v:expr, $m:ident, $big:expr, $t:ident) => {{
        let x = $t::of($v);
        let a = &|| show1(x);
        let full = order(&le($v), $big);
        chk!($l, concat!("bytes::", stringify!($m), "::serialize"), a, ethnum::serde::bytes::$m::serialize(&x, Record), Ok(Out::Bytes(full.clone())));
        let short = order(&shortest($v, $t::SIGNED), $big);
        chk!($l, concat!("compressed_bytes::", stringify!($m), "::serialize"), a, ethnum::serde::compressed_bytes::$m::serialize(&x, Record), Ok(Out::Bytes(short.clone())));
        for h in [true, false] {
            let a = &|| format!("{} (human readable: {h})", show1(x));
            let (f, s) = (Out::Bytes(full.clone()), Out::Bytes(short.clone()));
            chk!($l, concat!("bytes::", stringify!($m), "::serialize"), a, human(h, || ethnum::serde::bytes::$m::serialize(&x, Record)), Ok(f.clone()));
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::serialize"), a, human(h, || ethnum::serde::compressed_bytes::$m::serialize(&x, Record)), Ok(s.clone()));
            chk!($l, concat!("bytes::", stringify!($m), "::serialize"), a, human(h, || mc::tok::full(|| ethnum::serde::bytes::$m::serialize(&x, Record).is_err())), true);
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::serialize"), a, human(h, || mc::tok::full(|| ethnum::serde::compressed_bytes::$m::serialize(&x, Record).is_err())), true);
            chk!($l, concat!("bytes::", stringify!($m), "::deserialize"), a, human(h, || ethnum::serde::bytes::$m::deserialize::<$t, _>(Strict(&f)).ok()), Some(x));
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::deserialize"), a, human(h, || ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(Strict(&s)).ok()), Some(x));
            chk!($l, concat!("bytes::", stringify!($m), "::deserialize"), a, human(h, || ethnum::serde::bytes::$m::deserialize::<$t, _>(tok(&full, 2)).ok()), Some(x));
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::deserialize"), a, human(h, || ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(tok(&short, 2)).ok()), Some(x));
        }
        for k in 0..3 {
            let f = tok(&full, k * 2);
            let s = tok(&short, k * 2);
            chk!($l, concat!("bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::bytes::$m::deserialize::<$t, _>(f).ok(), Some(x));
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(s).ok(), Some(x));
        }
    }};
}

fn tok(b: &[u8], k: usize) -> Tok<'_> {
    match k {
        0 => Tok::Bytes(b),
        1 => Tok::BorrowedBytes(b),
        2 => Tok::Seq(b, Hint::Exact),
        3 => Tok::ByteBuf(b),
        _ => Tok::Seq(b, Hint::Unknown),
    }
}

macro_rules! decode {
    ($l:expr, $b:expr, $m:ident, $big:expr, $t:ident) => {{
        let b: &[u8] = $b;
        let full = (b.len() == 32).then(|| $t::of(of_le(order(b, $big).try_into().unwrap())));
        let comp = (b.len() <= 32).then(|| $t::of(extended(&order(b, $big), $t::SIGNED)));
        for k in 0..5 {
            let a = &|| format!("{} {:?}", $t::NAME, tok(b, k));
            chk!($l, concat!("bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::bytes::$m::deserialize::<$t, _>(tok(b, k)).ok(), full);
            chk!($l, concat!("compressed_bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(tok(b, k)).ok(), comp);
        }
    }};
}

macro_rules! refuse {
    ($l:expr, $tok:expr, $m:ident, $big:expr, $t:ident) => {{
        let a = &|| format!("{} {:?}", $t::NAME, $tok);
        chk!($l, concat!("bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::bytes::$m::deserialize::<$t, _>($tok).ok(), None);
        chk!($l, concat!("compressed_bytes::", stringify!($m), "::deserialize"), a, ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>($tok).ok(), None);
    }};
}

/// A sequence that announces a wrong length may be refused, and otherwise is
/// what its bytes say.
macro_rules! lying {
    ($l:expr, $b:expr, $says:expr, $m:ident, $big:expr, $t:ident) => {{
        let b: &[u8] = $b;
        let t = Tok::Seq(b, Hint::Says($says));
        let a = &|| format!("{} {t:?}", $t::NAME);
        let full = (b.len() == 32).then(|| $t::of(of_le(order(b, $big).try_into().unwrap())));
        let comp = (b.len() <= 32).then(|| $t::of(extended(&order(b, $big), $t::SIGNED)));
        for (op, want, got) in [
            (concat!("bytes::", stringify!($m), "::deserialize"), full, $l.caught(|| ethnum::serde::bytes::$m::deserialize::<$t, _>(t).ok())),
            (concat!("compressed_bytes::", stringify!($m), "::deserialize"), comp, $l.caught(|| ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(t).ok())),
        ] {
            if got != Some(None) {
                chk!($l, op, a, got.expect("a panic"), want);
            }
        }
    }};
}

macro_rules! json {
    ($l:expr, $v:expr, $m:ident, $big:expr, $t:ident) => {{
        let x = $t::of($v);
        let a = &|| show1(x);
        for (op, r) in [
            (concat!("bytes::", stringify!($m)), {
                let mut buf = vec![];
                let _ = ethnum::serde::bytes::$m::serialize(&x, &mut serde_json::Serializer::new(&mut buf));
                ethnum::serde::bytes::$m::deserialize::<$t, _>(&mut serde_json::Deserializer::from_slice(&buf)).ok()
            }),
            (concat!("compressed_bytes::", stringify!($m)), {
                let mut buf = vec![];
                let _ = ethnum::serde::compressed_bytes::$m::serialize(&x, &mut serde_json::Serializer::new(&mut buf));
                ethnum::serde::compressed_bytes::$m::deserialize::<$t, _>(&mut serde_json::Deserializer::from_slice(&buf)).ok()
            }),
        ] {
            chk!($l, op, a, r, Some(x));
        }
    }};
}

fn spaces(env: &Env) -> Vec<Space> {
    let vals = alpha::unary(env);
    let n = vals.len();
    let jn = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, true), alpha::pows(&[-1, 0, 1]), alpha::limbs(&alpha::L5)]);
    let njn = jn.len();
    // Byte strings: both ends and the background chosen freely.
    let ends = [0x00u8, 0x01, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    let ne = ends.len();
    let bgs = [0x00u8, 0x7f, 0x80, 0xff, 0xa5];
    let maxlen = 300;
    let small: Vec<u8> = vec![0x00, 0x01, 0x7f, 0x80, 0xff];
    let depth = if env.quick { 5 } else { 6 };
    let k = small.len();
    let nsmall: usize = (0..=depth).map(|d| k.pow(d)).sum();
    vec![
        space("encode", "encodings and round trips of every value of the unary alphabet, all byte orders", n, move |i, l| {
            formats!(encode!(l, vals[i as usize]));
            l.nontrivial(shortest(vals[i as usize], true).len() < 32);
        }),
        space("json", "the same through JSON arrays", njn, move |i, l| {
            formats!(json!(l, jn[i as usize]));
            l.nontrivial(shortest(jn[i as usize], true).len() < 32);
        }),
        space("decode", "byte strings of every length up to 300 with chosen first bytes, last bytes and middle, delivered as borrowed, owned and transient bytes and as sequences with and without a length", (maxlen + 1) * ne * ne * bgs.len(), move |i, l| {
            let (len, r) = pair(i, ne * ne * bgs.len());
            let (e, g) = (r / bgs.len(), r % bgs.len());
            let mut b = vec![bgs[g]; len];
            if len > 0 {
                b[len - 1] = ends[e % ne];
                b[0] = ends[e / ne];
            }
            if len > 40 && (len % 16 > 2 || g > 0) {
                return;
            }
            formats!(decode!(l, &b));
            l.tag(if len == 32 { "32 bytes" } else if len < 32 { "fewer" } else { "more" });
            l.nontrivial(len > 0 && len <= 33);
        }),
        space("short", "every byte string of up to 5 (thorough: 6) bytes over five values", nsmall, move |i, l| {
            let mut i = i as usize;
            let mut d = 0u32;
            while i >= k.pow(d) {
                i -= k.pow(d);
                d += 1;
            }
            let mut b = vec![];
            for _ in 0..d {
                b.push(small[i % k]);
                i /= k;
            }
            formats!(decode!(l, &b));
            l.nontrivial(d > 0);
        }),
        space("very long", "byte strings of 301 to 65600 bytes, delivered in every way, in which all but 32 bytes are zeros or signs", 20 * 5, move |i, l| {
            let (n, g) = pair(i, 5);
            let n = [511, 512, 513, 543, 544, 545, 1024, 1056, 4096, 4128, 32768, 65535, 65536, 65537, 65552, 65567, 65568, 65569, 65584, 65600][n];
            let mut b = vec![[0x00u8, 0xff, 0, 0xff, 0x5a][g]; n];
            let at = [0, 0, n - 32, n - 32, 0][g];
            for k in 0..32 {
                b[at + k] = k as u8 + 1;
            }
            formats!(decode!(l, &b));
            l.nontrivial(true);
        }),
        space("ramps", "every rotation of 32 distinct bytes, all shorter and slightly longer cuts of it", 256 * 36, move |i, l| {
            let (o, len) = pair(i, 36);
            let b: Vec<u8> = (0..len).map(|j| (o + 7 * j) as u8).collect();
            formats!(decode!(l, &b));
            l.nontrivial(len > 1);
        }),
        space("bad sequences", "sequences of every length with an element that is no byte, or an error, at every place", 36 * 36 * 4, move |i, l| {
            let (len, r) = pair(i, 36 * 4);
            let (at, t) = (r / 4, r % 4);
            if at >= len {
                return;
            }
            let b = vec![1u8; len];
            let t = [Tail::U16(256), Tail::U16(65535), Tail::I8(-1), Tail::Error][t];
            formats!(refuse!(l, Tok::BadSeq(&b, at, t)));
            l.nontrivial(true);
        }),
        space("announced", "sequences of every length that announce another one", 41 * 8 * 2, move |i, l| {
            let (len, r) = pair(i, 16);
            let says = [0, 1, 5, 31, 32, 33, 64, usize::MAX][r / 2];
            let b: Vec<u8> = (0..len).map(|k| if r % 2 == 0 { 0xff } else { k as u8 + 1 }).collect();
            formats!(lying!(l, &b, says));
            l.nontrivial(says != len);
        }),
        space("anything else", "tokens that are neither bytes nor sequences", 14, move |i, l| {
            let t = [Tok::Str("0x1"), Tok::Owned("1"), Tok::Bool(true), Tok::Unit, Tok::None, Tok::U8(1), Tok::I8(-1), Tok::U64(1), Tok::I64(1), Tok::U128(1), Tok::I128(1), Tok::F32(1.0), Tok::F64(1.0), Tok::Fail][i as usize];
            formats!(refuse!(l, t));
            l.nontrivial(true);
        }),
    ]
}

fn main() {
    mc::run::main("C18", spaces)
}
