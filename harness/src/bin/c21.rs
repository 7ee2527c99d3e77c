//! C21: histories of in-place updates, by explicit-state search.
//!
//! The reference model is searched breadth first from a few initial states;
//! every transition of the reachable graph is then taken by the real code, and
//! every state is also reached by the real code in one variable along its
//! whole history, panicking steps included.
use mc::alpha::{self, V};
use mc::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Low,
    High,
    Swap,
    Neg,
    Not,
    Rol,
    Ror,
    Bytes,
}
use Op::*;

/// Where the right operand comes from.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Arg {
    /// Borrowed constant.
    Ref(V),
    /// Constant by value.
    Val(V),
    /// A u128/i128 word.
    Word(u128),
    Small(u32),
    /// The same variable.
    Itself,
    /// The other variable.
    Other,
    None,
}
type Step = (u8, Op, Arg);

type State = [V; 2];

fn arg(s: &State, t: Step) -> V {
    match t.2 {
        Arg::Ref(v) | Arg::Val(v) => v,
        Arg::Word(w) => [w as u64, (w >> 64) as u64, 0, 0],
        Arg::Small(n) => [n as u64, 0, 0, 0],
        Arg::Itself => s[t.0 as usize],
        Arg::Other => s[1 - t.0 as usize],
        Arg::None => [0; 4],
    }
}

/// One step of the model; None is a panic, which changes nothing.
fn model<T: Int>(s: &State, t: Step, debug: bool) -> Option<State> {
    let x = s[t.0 as usize];
    let b = arg(s, t);
    let (zx, mut zb) = (T::of(x).z(), T::of(b).z());
    if let Arg::Word(w) = t.2 {
        zb = if T::SIGNED { Z::i(w as i128) } else { Z::u(w) };
    }
    let over = |z: Z| if debug && !T::fits(z) { None } else { Some(T::wrap(z).limbs()) };
    let amount = || {
        // Shift amounts are taken modulo 256 or refused.
        let z = zb;
        if debug && (z.is_neg() || Z::i(256).le(z)) {
            None
        } else {
            Some((z.0[0] & 255) as u32)
        }
    };
    let r = match t.1 {
        Add => over(zx.add(zb))?,
        Sub => over(zx.sub(zb))?,
        Mul => over(zx.mul(zb))?,
        Div | Rem => {
            if zb.is_zero() {
                return None;
            }
            let (q, r) = zdiv_trunc(zx, zb);
            if !T::fits(q) {
                return None;
            }
            if t.1 == Div { T::wrap(q).limbs() } else { T::wrap(r).limbs() }
        }
        And => std::array::from_fn(|i| x[i] & zb.0[i]),
        Or => std::array::from_fn(|i| x[i] | zb.0[i]),
        Xor => std::array::from_fn(|i| x[i] ^ zb.0[i]),
        Shl => T::wrap(zx.shl(amount()?)).limbs(),
        Shr => T::wrap(zx.shr(amount()?)).limbs(),
        Low => [b[0], b[1], x[2], x[3]],
        High => [x[0], x[1], b[0], b[1]],
        Swap => return Some([s[1], s[0]]),
        Neg => over(zx.neg())?,
        Not => alpha::not(x),
        Rol | Ror => {
            let n = (b[0] & 255) as u32;
            let n = if t.1 == Rol { n } else { (256 - n) & 255 };
            let z = Z::from_limbs(x);
            Z::from_limbs(z.shl(n).limbs()).add(z.shr(256 - n)).limbs()
        }
        Bytes => {
            let mut y = x;
            y.reverse();
            y.map(u64::swap_bytes)
        }
    };
    let mut s = *s;
    s[t.0 as usize] = r;
    Some(s)
}

macro_rules! real {
    ($name:ident, $t:ident, $p:ident, |$nx:ident| $neg:expr) => {
        /// One step of the real code, in place.
        fn $name(vars: &mut [$t; 2], t: Step) {
            let k = t.0 as usize;
            if t.1 == Swap {
                let (a, b) = vars.split_at_mut(1);
                std::mem::swap(&mut a[0], &mut b[0]);
                return;
            }
            let other = vars[1 - k];
            let x = &mut vars[k];
            let own = *x;
            macro_rules! assign {
                ($op:tt) => {
                    match t.2 {
                        Arg::Ref(v) => *x $op &$t::of(v),
                        Arg::Val(v) => *x $op $t::of(v),
                        Arg::Word(w) => *x $op w as $p,
                        Arg::Small(n) => *x $op n as $p,
                        Arg::Itself => *x $op own,
                        Arg::Other => *x $op &other,
                        Arg::None => unreachable!(),
                    }
                };
            }
            macro_rules! shift {
                ($op:tt) => {
                    match t.2 {
                        Arg::Ref(v) => *x $op &$t::of(v),
                        Arg::Val(v) => *x $op $t::of(v),
                        Arg::Word(w) => *x $op w as $p,
                        Arg::Small(n) => *x $op n,
                        Arg::Itself => *x $op own,
                        Arg::Other => *x $op &other,
                        Arg::None => unreachable!(),
                    }
                };
            }
            let word = || match t.2 {
                Arg::Word(w) => w as $p,
                Arg::Other => *other.low(),
                Arg::Itself => *own.low(),
                _ => unreachable!(),
            };
            let amount = || match t.2 {
                Arg::Small(n) => n,
                _ => unreachable!(),
            };
            match t.1 {
                Add => assign!(+=),
                Sub => assign!(-=),
                Mul => assign!(*=),
                Div => assign!(/=),
                Rem => assign!(%=),
                And => assign!(&=),
                Or => assign!(|=),
                Xor => assign!(^=),
                Shl => shift!(<<=),
                Shr => shift!(>>=),
                Low => *x.low_mut() = word(),
                High => *x.high_mut() = word(),
                Neg => { let $nx = *x; *x = $neg; }
                Not => *x = !*x,
                Rol => *x = x.rotate_left(amount()),
                Ror => *x = x.rotate_right(amount()),
                Bytes => *x = x.swap_bytes(),
                Swap => unreachable!(),
            }
        }
    };
}
real!(real_u, U256, u128, |x| x.wrapping_neg());
real!(real_i, I256, i128, |x| -x);

struct Graph {
    /// State, predecessor, the step that reached it, depth.
    states: Vec<(State, u32, u16, u16)>,
    steps: Vec<Step>,
    complete: bool,
}

fn search<T: Int>(init: &[State], steps: Vec<Step>, cap: usize, debug: bool) -> Graph {
    let mut seen: HashMap<State, ()> = HashMap::new();
    let mut states = vec![];
    for s in init {
        if seen.insert(*s, ()).is_none() {
            states.push((*s, u32::MAX, 0, 0));
        }
    }
    let mut at = 0;
    let mut complete = true;
    while at < states.len() {
        if states.len() >= cap {
            complete = false;
            break;
        }
        let (s, _, _, d) = states[at];
        for (k, t) in steps.iter().enumerate() {
            if let Some(n) = model::<T>(&s, *t, debug) {
                if seen.insert(n, ()).is_none() {
                    states.push((n, at as u32, k as u16, d + 1));
                }
            }
        }
        at += 1;
    }
    Graph { states, steps, complete }
}

fn show(s: &State, signed: bool) -> String {
    let f = |v: V| if signed { Z::from_limbs_signed(v).dec() } else { alpha::hex(v) };
    format!("x={} y={}", f(s[0]), f(s[1]))
}

macro_rules! explore {
    ($name:ident, $t:ident, $real:ident) => {
        fn $name(l: &mut L, g: &Graph, i: u64, debug: bool) {
            let (s, _, _, depth) = g.states[i as usize];
            l.tag("states");
            let vars = s.map($t::of);
            // Every transition from here.
            for &t in &g.steps {
                let want = model::<$t>(&s, t, debug);
                let mut x = vars;
                l.at("step");
                let got = l.caught(|| $real(&mut x, t)).is_some();
                l.tag(if got { "transitions" } else { "panicking steps" });
                let a = &|| format!("{} from {}: {:?}", stringify!($t), show(&s, $t::SIGNED), t);
                l.cmp("panic of a step", !got, want.is_none(), a);
                let to = want.unwrap_or(s);
                l.cmp("variable x after a step", x[0], $t::of(to[0]), a);
                l.cmp("variable y after a step", x[1], $t::of(to[1]), a);
            }
            // The whole history again, in one pair of variables, with a
            // refused step thrown in wherever there is one.
            let mut path = vec![];
            let mut at = i as usize;
            while g.states[at].1 != u32::MAX {
                path.push(g.steps[g.states[at].2 as usize]);
                at = g.states[at].1 as usize;
            }
            path.reverse();
            let mut m = g.states[at].0;
            let mut x = m.map($t::of);
            let refused: Vec<Step> = vec![(0, Div, Arg::Val([0; 4])), (1, Rem, Arg::Ref([0; 4])), (0, Shl, Arg::Small(256)), (1, Add, Arg::Val(alpha::MAX)), (0, Mul, Arg::Other)];
            for (n, t) in path.iter().enumerate() {
                let r = refused[(n + i as usize) % refused.len()];
                // The refused step only where the model refuses it too.
                let extra = model::<$t>(&m, r, debug).is_none().then_some(r);
                for t in extra.into_iter().chain([*t]) {
                    let _ = l.caught(|| $real(&mut x, t));
                    m = model::<$t>(&m, t, debug).unwrap_or(m);
                }
            }
            let a = &|| format!("{} history {:?} from {}", stringify!($t), path, show(&g.states[at].0, $t::SIGNED));
            l.cmp("x at the end of a history", x[0], $t::of(s[0]), a);
            l.cmp("y at the end of a history", x[1], $t::of(s[1]), a);
            let fresh = vars;
            use std::hash::{Hash, Hasher};
            let h = |v: &[$t; 2]| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut h);
                h.finish()
            };
            l.cmp("equality with a fresh value", x == fresh && x[0].cmp(&fresh[0]).is_eq(), true, a);
            l.cmp("hash of a fresh value", h(&x) == h(&fresh), true, a);
            l.tag("traces");
            l.nontrivial(depth >= 2);
        }
    };
}
explore!(explore_u, U256, real_u);
explore!(explore_i, I256, real_i);

fn one_variable(env: &Env, signed: bool) -> Vec<Step> {
    let mut r: Vec<Step> = vec![];
    let c = |n: u64| [n, 0, 0, 0];
    let x = 0;
    for (k, v) in [c(1), c(3), alpha::pow2(128), alpha::MAX, alpha::MIN, [5, 0, 1, 0], [u64::MAX, u64::MAX, 0, 0]].into_iter().enumerate() {
        for op in [Add, Sub, Mul, Div, Rem] {
            r.push((x, op, if k % 2 == 0 { Arg::Ref(v) } else { Arg::Val(v) }));
        }
    }
    for (k, v) in [alpha::pow2(64), alpha::MIN, [u64::MAX, 0, u64::MAX, 0], alpha::MAX].into_iter().enumerate() {
        for op in [And, Or, Xor] {
            r.push((x, op, if k % 2 == 1 { Arg::Ref(v) } else { Arg::Val(v) }));
        }
    }
    for w in [0u128, 1, 7, 1 << 127, u128::MAX] {
        for op in [Add, Sub, Mul, Div, Rem, Xor, Low, High] {
            r.push((x, op, Arg::Word(w)));
        }
    }
    for n in [0u32, 1, 63, 64, 127, 128, 129, 255, 256] {
        r.push((x, Shl, Arg::Small(n)));
        r.push((x, Shr, Arg::Small(n)));
        if n > 0 && n < 256 {
            r.push((x, Rol, Arg::Small(n)));
            r.push((x, Ror, Arg::Small(n)));
        }
    }
    r.push((x, Shl, Arg::Val(c(3))));
    r.push((x, Shr, Arg::Ref(c(200))));
    for op in [Add, Sub, Mul, Div, Rem, Xor, And] {
        r.push((x, op, Arg::Itself));
    }
    r.push((x, Low, Arg::Itself));
    r.push((x, High, Arg::Itself));
    if signed {
        r.push((x, Neg, Arg::None));
    }
    r.push((x, Not, Arg::None));
    r.push((x, Bytes, Arg::None));
    for d in env.dict.iter().filter(|d| d[1] | d[2] | d[3] != 0 || d[0] > 300).take(12) {
        r.push((x, Add, Arg::Val(*d)));
        r.push((x, Sub, Arg::Ref(*d)));
    }
    r
}

fn two_variables(signed: bool) -> Vec<Step> {
    let mut r: Vec<Step> = vec![(0, Swap, Arg::None)];
    for op in [Add, Sub, Mul, Div, Rem, And, Or, Xor] {
        r.push((0, op, Arg::Other));
        r.push((1, op, Arg::Other));
    }
    for op in [Low, High] {
        r.push((0, op, Arg::Other));
        r.push((1, op, Arg::Itself));
    }
    r.push((0, Shl, Arg::Other));
    r.push((1, Shr, Arg::Other));
    r.push((0, Shl, Arg::Small(1)));
    r.push((1, Shl, Arg::Small(127)));
    r.push((1, Shr, Arg::Small(64)));
    r.push((0, Add, Arg::Word(1)));
    r.push((1, Sub, Arg::Val([1, 0, 0, 0])));
    r.push((1, Mul, Arg::Itself));
    if signed {
        r.push((1, Neg, Arg::None));
    }
    r.push((0, Not, Arg::None));
    r
}

fn spaces(env: &Env) -> Vec<Space> {
    let debug = env.debug;
    let cap = if env.quick { 200_000 } else { 3_000_000 };
    let z = [0u64; 4];
    let init1: Vec<State> = [z, [1, 0, 0, 0], alpha::MAX, alpha::MIN, [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x8796_a5b4_c3d2_e1f0]].iter().map(|v| [*v, z]).collect();
    let init2: Vec<State> = vec![[z, [1, 0, 0, 0]], [[1, 0, 0, 0], [1, 0, 0, 0]], [alpha::MAX, [2, 0, 0, 0]], [alpha::MIN, alpha::MAX]];
    let mut out = vec![];
    for (name, what, signed, two) in [
        ("U256: one variable", "breadth-first search of the histories of one variable", false, false),
        ("I256: one variable", "breadth-first search of the histories of one variable", true, false),
        ("U256: two variables", "breadth-first search of the histories of two variables acting on each other", false, true),
        ("I256: two variables", "breadth-first search of the histories of two variables acting on each other", true, true),
    ] {
        let steps = if two { two_variables(signed) } else { one_variable(env, signed) };
        let init = if two { &init2 } else { &init1 };
        let g = Arc::new(if signed { search::<I256>(init, steps, cap, debug) } else { search::<U256>(init, steps, cap, debug) });
        let n = g.states.len();
        let _ = g.complete;
        // Levels completed, as tags of the last case.
        let deepest = g.states.last().map(|s| s.3).unwrap_or(0);
        out.push(space(name, what, n, move |i, l| {
            l.tag(["depth 0", "depth 1", "depth 2", "depth 3", "depth 4", "depth 5", "depth 6 and more"][(g.states[i as usize].3 as usize).min(6)]);
            let _ = deepest;
            if signed {
                explore_i(l, &g, i, debug)
            } else {
                explore_u(l, &g, i, debug)
            }
        }));
    }
    out
}

fn main() {
    mc::run::main("C21", spaces)
}
