//! C15: the public intrinsics against the model, and all builds against each
//! other (by digests, which the driver compares).
use ethnum::intrinsics as intr;
use ethnum::intrinsics::signed as sig;
use mc::alpha::{self, V};
use mc::api::{powers, api_pairs, api_values, ops, order, texts, serde_values};
use mc::*;
use std::mem::MaybeUninit;

fn three<T, R>(f: impl FnOnce(&mut MaybeUninit<T>) -> R) -> (T, R) {
    let mut r = MaybeUninit::uninit();
    let x = f(&mut r);
    // SAFETY: the intrinsics always write their result.
    (unsafe { r.assume_init() }, x)
}
fn two<T: Copy>(a: T, f: impl FnOnce(&mut T)) -> T {
    let mut r = a;
    f(&mut r);
    r
}

fn pairs(l: &mut L, v: V, w: V) {
    let (a, b) = (U256::of(v), U256::of(w));
    let (i, j) = (I256::of(v), I256::of(w));
    let (za, zb, zi, zj) = (a.z(), b.z(), i.z(), j.z());
    let s = &|| show2(a, b);
    macro_rules! op2 {
        ($($f:path, $x:expr, $y:expr, $z:expr;)*) => {$( { let want = $z; chk!(l, stringify!($f), s, two($x, |r| $f(r, &$y)), want); } )*};
    }
    macro_rules! op3 {
        ($($f:path, $x:expr, $y:expr, $z:expr;)*) => {$( { let want = $z; chk!(l, stringify!($f), s, three(|r| $f(r, &$x, &$y)).0, want); } )*};
    }
    macro_rules! opc {
        ($($f:path, $x:expr, $y:expr, $z:expr;)*) => {$( { let want = $z; chk!(l, stringify!($f), s, three(|r| $f(r, &$x, &$y)), want); } )*};
    }
    let (add, sub, mul) = (za.add(zb), za.sub(zb), za.mul(zb));
    let (iadd, isub, imul) = (zi.add(zj), zi.sub(zj), zi.mul(zj));
    op2! {
        intr::add2, a, b, U256::wrap(add); sig::uadd2, a, b, U256::wrap(add); sig::iadd2, i, j, I256::wrap(iadd);
        intr::sub2, a, b, U256::wrap(sub); sig::usub2, a, b, U256::wrap(sub); sig::isub2, i, j, I256::wrap(isub);
        intr::mul2, a, b, U256::wrap(mul); sig::umul2, a, b, U256::wrap(mul); sig::imul2, i, j, I256::wrap(imul);
    }
    op3! {
        intr::add3, a, b, U256::wrap(add); sig::uadd3, a, b, U256::wrap(add); sig::iadd3, i, j, I256::wrap(iadd);
        intr::sub3, a, b, U256::wrap(sub); sig::usub3, a, b, U256::wrap(sub); sig::isub3, i, j, I256::wrap(isub);
        intr::mul3, a, b, U256::wrap(mul); sig::umul3, a, b, U256::wrap(mul); sig::imul3, i, j, I256::wrap(imul);
    }
    opc! {
        intr::uaddc, a, b, U256::ovf(add); intr::iaddc, i, j, I256::ovf(iadd);
        intr::usubc, a, b, U256::ovf(sub); intr::isubc, i, j, I256::ovf(isub);
        intr::umulc, a, b, U256::ovf(mul); intr::imulc, i, j, I256::ovf(imul);
    }
    l.nontrivial(w != [0; 4] && v != [0; 4]);
    if w == [0; 4] {
        return;
    }
    let (q, r) = za.divmod(zb);
    op2! { intr::udiv2, a, b, U256::wrap(q); intr::urem2, a, b, U256::wrap(r); }
    op3! { intr::udiv3, a, b, U256::wrap(q); intr::urem3, a, b, U256::wrap(r); }
    let mut rem = MaybeUninit::uninit();
    chk!(l, "udivmod4", s, three(|x| intr::udivmod4(x, &a, &b, Some(&mut rem))).0, U256::wrap(q));
    chk!(l, "udivmod4 remainder", s, unsafe { rem.assume_init() }, U256::wrap(r));
    chk!(l, "udivmod4 without remainder", s, three(|x| intr::udivmod4(x, &a, &b, None)).0, U256::wrap(q));
    let (q, r) = zdiv_trunc(zi, zj);
    if I256::fits(q) {
        op2! { intr::idiv2, i, j, I256::wrap(q); intr::irem2, i, j, I256::wrap(r); }
        op3! { intr::idiv3, i, j, I256::wrap(q); intr::irem3, i, j, I256::wrap(r); }
        let mut rem = MaybeUninit::uninit();
        chk!(l, "idivmod4", s, three(|x| intr::idivmod4(x, &i, &j, Some(&mut rem))).0, I256::wrap(q));
        chk!(l, "idivmod4 remainder", s, unsafe { rem.assume_init() }, I256::wrap(r));
        chk!(l, "idivmod4 without remainder", s, three(|x| intr::idivmod4(x, &i, &j, None)).0, I256::wrap(q));
    }
}

fn shifts(l: &mut L, v: V, n: u32) {
    let (a, i) = (U256::of(v), I256::of(v));
    let (za, zi) = (a.z(), i.z());
    let s = &|| format!("{} by {n}", show1(a));
    let shl = za.shl(n);
    let shr = za.shr(n);
    let sar = zi.shr(n);
    let rol = Z::from_limbs(za.shl(n).limbs()).add(za.shr(256 - n));
    let ror = za.shr(n).add(Z::from_limbs(za.shl(256 - n).limbs()));
    macro_rules! op2 {
        ($($f:path, $x:expr, $z:expr;)*) => {$( { let want = $z; chk!(l, stringify!($f), s, two($x, |r| $f(r, n)), want); } )*};
    }
    macro_rules! op3 {
        ($($f:path, $x:expr, $z:expr;)*) => {$( { let want = $z; chk!(l, stringify!($f), s, three(|r| $f(r, &$x, n)).0, want); } )*};
    }
    op2! {
        intr::shl2, a, U256::wrap(shl); sig::ushl2, a, U256::wrap(shl); sig::ishl2, i, I256::wrap(shl);
        intr::shr2, a, U256::wrap(shr); sig::ushr2, a, U256::wrap(shr);
        intr::sar2, i, I256::wrap(sar); sig::isar2, i, I256::wrap(sar);
    }
    op3! {
        intr::shl3, a, U256::wrap(shl); sig::ushl3, a, U256::wrap(shl); sig::ishl3, i, I256::wrap(shl);
        intr::shr3, a, U256::wrap(shr); sig::ushr3, a, U256::wrap(shr);
        intr::sar3, i, I256::wrap(sar); sig::isar3, i, I256::wrap(sar);
        intr::rol3, a, U256::wrap(rol); sig::urol3, a, U256::wrap(rol); sig::irol3, i, I256::wrap(rol);
        intr::ror3, a, U256::wrap(ror); sig::uror3, a, U256::wrap(ror); sig::iror3, i, I256::wrap(ror);
    }
    l.nontrivial(n > 0 && v != [0; 4]);
}

fn counts(l: &mut L, v: V) {
    let (a, i) = (U256::of(v), I256::of(v));
    let z = a.z();
    let s = &|| show1(a);
    let lz = 256 - z.bits();
    let tz = (0..256).find(|k| z.bit(*k)).unwrap_or(256);
    chk!(l, "ctlz", s, intr::ctlz(&a), lz);
    chk!(l, "uctlz", s, sig::uctlz(&a), lz);
    chk!(l, "ictlz", s, sig::ictlz(&i), lz);
    chk!(l, "cttz", s, intr::cttz(&a), tz);
    chk!(l, "ucttz", s, sig::ucttz(&a), tz);
    chk!(l, "icttz", s, sig::icttz(&i), tz);
    l.nontrivial(lz + tz > 0);
}

fn spaces(env: &Env) -> Vec<Space> {
    let big = alpha::binary(env, if env.quick { 1 } else { 2 });
    let nb = big.len();
    let uni = alpha::unary(env);
    let nu = uni.len();
    let (uni2, uni3, uni4) = (uni.clone(), uni.clone(), uni.clone());
    let mid = alpha::union(vec![alpha::core(), alpha::dict(&env.dict, false), alpha::limbs(&alpha::L5)]);
    let mid2 = alpha::binary(env, if env.quick { 0 } else { 1 });
    let nm = mid2.len();
    let sh = alpha::union(vec![mid.clone(), alpha::pows(&[-1, 0, 1])]);
    let nsh = sh.len();
    let small = alpha::union(vec![alpha::core(), alpha::limbs(&[0, 1, u64::MAX]), alpha::dict(&env.dict, false)]);
    let nsm = small.len();
    vec![
        space("intrinsics: pairs", "every intrinsic of two operands on every ordered pair", nb * nb, move |i, l| {
            let (p, q) = pair(i, nb);
            pairs(l, big[p], big[q]);
        }),
        space("intrinsics: shifts", "every shift and rotation intrinsic, all amounts below 256", nsh * 256, move |i, l| {
            let (p, q) = pair(i, 256);
            shifts(l, sh[p], q as u32);
        }),
        space("intrinsics: counts", "ctlz and cttz of every value", nu, move |i, l| counts(l, uni[i as usize])),
        space("builds: pairs", "digest of every profile-independent operation of two operands, to be equal in all builds", nm * nm, move |i, l| {
            let (p, q) = pair(i, nm);
            api_pairs(l, mid2[p], mid2[q]);
        }),
        space("builds: values", "digest of every operation of one operand, to be equal in all builds", nu, move |i, l| {
            api_values(l, uni2[i as usize]);
            powers(l, uni2[i as usize]);
            order(l, uni2[i as usize]);
        }),
        space("builds: texts", "digest of formatted and parsed texts, to be equal in all builds", nu.div_ceil(3), move |i, l| texts(l, uni3[i as usize * 3])),
        space("builds: serde", "digest of every serde scheme both ways, to be equal in all builds", nu.div_ceil(3), move |i, l| serde_values(l, uni4[i as usize * 3])),
        space("builds: operators @profile", "digest of operators including their panics, to be equal for both back ends in the same profile", nsm * nsm, move |i, l| {
            let (p, q) = pair(i, nsm);
            ops(l, small[p], small[q]);
        }),
    ]
}

fn main() {
    mc::run::main("C15", spaces)
}
