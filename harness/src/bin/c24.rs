//! C24: a call depends on its operands alone.  Histories of calls, calls made
//! from inside callbacks, calls interrupted by their callbacks, and calls of
//! two threads in turn, against the results of the same calls made first of
//! all in threads of their own.
use mc::alpha::{self, V};
use mc::api::Mix;
use mc::tok::{Hint, Record, Tok};
use mc::*;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::{mpsc, Arc};

const M: u64 = u64::MAX;
const T: u64 = 1 << 63;

type Op = fn(&mut L, V, V);

/// Single calls.
fn ops() -> Vec<(&'static str, Op)> {
    macro_rules! calls {
        (|$v:ident, $w:ident, $a:ident, $b:ident, $i:ident, $j:ident, $n:ident| $($name:literal $e:expr;)*) => {
            vec![$(($name, {
                #[allow(unused_variables)]
                fn f(l: &mut L, $v: V, $w: V) {
                    let ($a, $b, $i, $j, $n) = (U256::of($v), U256::of($w), I256::of($v), I256::of($w), $w[0] as u32);
                    let r = l.caught(|| step::by_step(($v, $w, $a, $b, $i, $j, $n), |($v, $w, $a, $b, $i, $j, $n)| $e));
                    r.mix(l);
                }
                f as Op
            })),*]
        };
    }
    fn hash<T: Hash>(x: T) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    use ethnum::serde as s;
    calls! { |v, w, a, b, i, j, n|
        "+" a + b; "-" a - b; "*" a * b; "/" a / b; "%" a % b; "signed +" i + j; "signed -" i - j; "signed *" i * j; "signed /" i / j; "signed %" i % j;
        "+=" { let mut r = a; r += b; r }; "-=" { let mut r = i; r -= j; r }; "*=" { let mut r = a; r *= b; r }; "/=" { let mut r = i; r /= j; r }; "%=" { let mut r = a; r %= b; r };
        "+ u128" a + 3; "i128 *" 3 * i; "-" -i; "!" !a; "&" a & b; "|=" { let mut r = i; r |= j; r }; "^" a ^ b;
        "<<" a << n; ">>" i >> n; "<<=" { let mut r = a; r <<= n; r }; ">>=" { let mut r = i; r >>= n; r }; "rotate_left" a.rotate_left(n); "rotate_right" i.rotate_right(n);
        "wrapping_shl" a.wrapping_shl(n); "checked_shr" i.checked_shr(n); "overflowing_shl" i.overflowing_shl(n);
        "wrapping_add" a.wrapping_add(b); "overflowing_sub" a.overflowing_sub(b); "checked_mul" a.checked_mul(b); "saturating_add" i.saturating_add(j); "overflowing_mul" i.overflowing_mul(j); "abs_diff" i.abs_diff(j);
        "checked_div_rem" a.checked_div_rem(b); "checked_div_rem_euclid" i.checked_div_rem_euclid(j); "checked_rem_euclid" i.checked_rem_euclid(j); "checked_div" i.checked_div(j); "checked_rem" a.checked_rem(b);
        "pow" a.pow(n % 300); "wrapping_pow" i.wrapping_pow(n); "checked_pow" a.checked_pow(n); "overflowing_pow" i.overflowing_pow(n);
        "leading_zeros" a.leading_zeros(); "trailing_zeros" i.trailing_zeros(); "count_ones" a.count_ones(); "swap_bytes" a.swap_bytes(); "reverse_bits" i.reverse_bits(); "checked_next_power_of_two" a.checked_next_power_of_two();
        "abs" i.abs(); "signum" i.signum(); "checked_neg" i.checked_neg(); "unsigned_abs" i.unsigned_abs();
        "cmp" a.cmp(&b); "signed cmp" i.cmp(&j); "eq" a == b; "hash" hash(a); "signed hash" hash(i); "max" i.max(j);
        "as_f64" a.as_f64(); "signed as_f32" i.as_f32(); "f64 as_u256" f64::from_bits(v[3]).as_u256(); "f32 as_i256" f32::from_bits(v[3] as u32).as_i256();
        "u64::try_from" u64::try_from(a).map(|x| x as i64).map_err(|_| ()); "i128::try_from" i128::try_from(i).map_err(|_| ()); "I256::try_from" I256::try_from(a).map_err(|_| ()); "as_u8" a.as_u8() as u64; "as_i256" v[1].as_i256();
        "to_be_bytes" a.to_be_bytes(); "from_le_bytes" I256::from_le_bytes(b.to_be_bytes()); "high_mut" { let mut r = a; *r.high_mut() = *b.low(); r }; "low_mut" { let mut r = i; *r.low_mut() ^= *j.high(); r };
        "to_string" a.to_string(); "signed to_string" i.to_string(); "{:#x}" format!("{a:#x}"); "{:o}" format!("{i:o}"); "{:0>90b}" format!("{a:0>300b}"); "{:+80?}" format!("{i:+80?}"); "{:e}" format!("{a:e}");
        "from_str" U256::from_str(&format!("{}", w[0])).map_err(|_| ()); "from_str_radix" I256::from_str_radix("-zzzz0123", 36).map_err(|_| ()); "from_str_hex" U256::from_str_hex(["0x1ff", "0xg", "", "1"][n as usize % 4]).map_err(|_| ()); "from_str_prefixed" I256::from_str_prefixed(["-0b101", "0o7", "99", "--1"][n as usize % 4]).map_err(|_| ());
        "overflow error" U256::from_str_radix(&"9".repeat(79), 10).map_err(|e| e.to_string()).unwrap_or_else(|e| { let _ = e; U256::ZERO });
        "sum" [a, b, a].iter().map(|x| *x >> 2u32).sum::<U256>(); "product" [i, j].iter().map(|x| *x >> 130u32).product::<I256>();
        "serialize" s::decimal::serialize(&a, Record).map_err(|_| ()); "serialize signed" s::prefixed::serialize(&i, Record).map_err(|_| ()); "serialize permissive" s::permissive::serialize(&a, Record).map_err(|_| ()); "serialize bytes" s::bytes::be::serialize(&i, Record).map_err(|_| ()); "serialize compressed" s::compressed_bytes::le::serialize(&i, Record).map_err(|_| ());
        "deserialize" s::decimal::deserialize::<U256, _>(Tok::Str("12345678901234567890123456789012345678901234567890")).map_err(|_| ()); "deserialize prefixed" s::prefixed::deserialize::<I256, _>(Tok::Borrowed("-0x80")).map_err(|_| ()); "deserialize permissive" s::permissive::deserialize::<I256, _>(Tok::I64(w[0] as i64)).map_err(|_| ());
        "deserialize bytes" s::bytes::le::deserialize::<U256, _>(Tok::Seq(&a.to_be_bytes(), Hint::Exact)).map_err(|_| ()); "deserialize short bytes" s::bytes::le::deserialize::<U256, _>(Tok::Seq(&a.to_be_bytes()[..n as usize % 33], Hint::Says(32))).map_err(|_| ()); "deserialize compressed" s::compressed_bytes::be::deserialize::<I256, _>(Tok::Bytes(&b.to_be_bytes()[..w[0] as usize % 33])).map_err(|_| ());
        "literal" ethnum::uint!("0x1_0000_0000_0000_0000_0000_0000_0000_0000"); "default" U256::default();
    }
}

fn operands() -> Vec<(V, V)> {
    vec![
        ([0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f1e_2d3c_4b5a_6978, 0x0796_a5b4_c3d2_e1f0], [3, 0, T, 0]),
        ([M; 4], [0; 4]),
        ([M, M, M, T - 1], [7, 0, 0, 0]),
        ([0, 0, 0, T], [M; 4]),
        ([42, 0, 0, 0], [255, 0, 0, 0]),
        ([0, 0, 1, 0], [128, 0, 1, 0]),
        ([9, 0, 0, 0x4ff << 52], [300, 1, 0, 0]),
    ]
}

#[derive(Clone, Copy)]
struct Call {
    name: &'static str,
    op: Op,
    v: V,
    w: V,
    want: u64,
    panics: bool,
}
impl Call {
    fn run(&self) -> u64 {
        let mut l = L::new("");
        (self.op)(&mut l, self.v, self.w);
        l.digest
    }
    /// Does it panic?
    fn panics(&self) -> bool {
        let mut l = L::new("");
        (self.op)(&mut l, self.v, self.w);
        let got = l.digest;
        let mut l = L::new("");
        None::<u64>.mix(&mut l);
        got == l.digest
    }
    fn show(&self) -> String {
        format!("{} {}", self.name, show2(U256::of(self.v), U256::of(self.w)))
    }
    fn check(&self, l: &mut L, what: &'static str, after: &dyn Fn() -> String) {
        l.at(what);
        let got = self.run();
        l.evals += 1;
        if l.tracing() {
            l.note(format!("{what}: {} -> {got:016x}", self.show()));
        }
        if got != self.want {
            let show = |d: u64| format!("digest {d:016x}");
            l.fail(what, format!("{} {}", self.show(), after()), show(self.want), show(got));
        }
    }
}

/// All of them, with what they give when nothing has gone before in their
/// thread.
fn calls() -> Vec<Call> {
    let mut r = vec![];
    for (v, w) in operands() {
        for (name, op) in ops() {
            let mut c = Call { name, op, v, w, want: 0, panics: false };
            c.want = std::thread::spawn(move || c.run()).join().unwrap();
            c.panics = c.panics();
            r.push(c);
        }
    }
    r
}

/// Operands made of few words, by number: the digits of `x` in base `words`.
const WORDS: [u64; 4] = [0, T | 5, 1 << 32 | 5, T | 6];
fn spelled(mut x: usize, words: usize) -> (V, V) {
    let mut d = || {
        let r = WORDS[x % words];
        x /= words;
        r
    };
    let v = [d(), d(), d(), d()];
    (v, [d(), d(), d(), d()])
}

/// What a call gives for each of those, when nothing but that call has been
/// made in the thread.
type Table = std::sync::OnceLock<Vec<u64>>;
fn table(t: &Table, op: Op, words: usize) -> &[u64] {
    t.get_or_init(|| {
        std::thread::spawn(move || {
            let run = |x| {
                let (v, w) = spelled(x, words);
                Call { name: "", op, v, w, want: 0, panics: false }.run()
            };
            (0..words.pow(8)).map(run).collect()
        })
        .join()
        .unwrap()
    })
}

// ------------------------------------------------------------ callbacks

thread_local! {
    static INSIDE: Cell<Option<(usize, bool)>> = const { Cell::new(None) };
    static TABLE: RefCell<Option<Arc<Vec<Call>>>> = const { RefCell::new(None) };
    static WRONG: Cell<u32> = const { Cell::new(0) };
    static STOP: Cell<u32> = const { Cell::new(0) };
}

/// Called by every callback: makes a call of its own, or interrupts.
fn inside() {
    let stop = STOP.get();
    if stop > 0 {
        STOP.set(stop - 1);
        if stop == 1 {
            panic!("interrupted");
        }
    }
    if let Some((k, _)) = INSIDE.get() {
        let c = TABLE.with(|t| t.borrow().as_ref().unwrap()[k]);
        INSIDE.set(None);
        if c.run() != c.want {
            WRONG.set(WRONG.get() + 1);
        }
        INSIDE.set(Some((k, true)));
    }
}
struct Sink(String);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        inside();
        self.0.push_str(s);
        Ok(())
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        inside();
        self.0.push_str(&String::from_utf8_lossy(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Source<'a>(&'a [u8]);
impl std::io::Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        inside();
        let n = self.0.len().min(b.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        inside();
        self.0.extend(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}

/// Calls that call back.
const OUTER: usize = 18;
fn outer(k: usize, v: V) -> String {
    let (a, i) = (U256::of(v), I256::of(v));
    let mut s = Sink(String::new());
    let xs = [a >> 2u32, a >> 3u32, a >> 4u32];
    let ys = [i >> 90u32, i >> 200u32, i >> 255u32];
    use ethnum::serde as e;
    match k {
        0 => drop(write!(s, "{a}")),
        1 => drop(write!(s, "{i:>+100}")),
        2 => drop(write!(s, "{a:#0300b}{i:é^90x}")),
        3 => drop(write!(s, "{i:?}{a:o}{a:X}{i:+e}")),
        4 => s.0 = xs.iter().map(|x| { inside(); *x }).sum::<U256>().to_string(),
        5 => s.0 = ys.iter().inspect(|_| inside()).sum::<I256>().to_string(),
        6 => s.0 = ys.iter().map(|x| { inside(); *x >> 60u32 }).product::<I256>().to_string(),
        7 => s.0 = xs.iter().inspect(|_| inside()).take(1).product::<U256>().to_string(),
        8 => { let mut h = Bytes(vec![]); a.hash(&mut h); i.hash(&mut h); s.0 = format!("{:?}", h.0); }
        9 => drop(e::decimal::serialize(&i, &mut serde_json::Serializer::new(&mut s))),
        10 => drop(e::prefixed::serialize(&a, &mut serde_json::Serializer::new(&mut s))),
        11 => drop(e::permissive::serialize(&i, &mut serde_json::Serializer::new(&mut s))),
        12 => drop(e::bytes::le::serialize(&a, &mut serde_json::Serializer::new(&mut s))),
        13 => drop(e::compressed_bytes::be::serialize(&i, &mut serde_json::Serializer::new(&mut s))),
        14 => s.0 = format!("{:?}", e::decimal::deserialize::<U256, _>(&mut serde_json::Deserializer::from_reader(Source(format!("\"{a}\"").as_bytes()))).ok()),
        15 => s.0 = format!("{:?}", e::permissive::deserialize::<I256, _>(&mut serde_json::Deserializer::from_reader(Source(b"-17"))).ok()),
        16 => s.0 = format!("{:?}", e::bytes::be::deserialize::<U256, _>(&mut serde_json::Deserializer::from_reader(Source(format!("{:?}", a.to_le_bytes()).as_bytes()))).ok()),
        _ => s.0 = format!("{:?}", e::compressed_bytes::le::deserialize::<I256, _>(&mut serde_json::Deserializer::from_reader(Source(format!("{:?}", &a.to_le_bytes()[..20]).as_bytes()))).ok()),
    }
    s.0
}

// ------------------------------------------------------------ threads

/// A second thread for each worker.
struct Second {
    ask: mpsc::Sender<Call>,
    answer: mpsc::Receiver<u64>,
}
thread_local! {
    static SECOND: Second = {
        let (ask, asked) = mpsc::channel::<Call>();
        let (tell, answer) = mpsc::channel();
        std::thread::spawn(move || {
            while let Ok(c) = asked.recv() {
                if tell.send(c.run()).is_err() {
                    break;
                }
            }
        });
        Second { ask, answer }
    };
}
fn elsewhere(c: &Call) -> u64 {
    SECOND.with(|s| {
        s.ask.send(*c).unwrap();
        s.answer.recv().unwrap()
    })
}

/// Interruption of a call between any two of its instructions.
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod step {
    use super::Call;
    use std::cell::Cell;
    use std::hint::black_box;

    #[derive(Clone, Copy)]
    pub struct Plan {
        /// The call made in between.
        pub call: Call,
        /// After which instruction; after each of them if 0.
        pub at: u32,
        /// Where to stop looking.
        pub most: u32,
    }
    thread_local! {
        static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
        static STEPS: Cell<u32> = const { Cell::new(0) };
        static MADE: Cell<u32> = const { Cell::new(0) };
        static WRONG: Cell<u32> = const { Cell::new(0) };
    }
    const TF: i64 = 0x100;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }

    /// The processor has executed one instruction.
    extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
        // SAFETY: the context is what the system has handed over.
        let registers = unsafe { &mut (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs };
        let Some(plan) = PLAN.get() else {
            registers[libc::REG_EFL as usize] &= !TF;
            return;
        };
        let n = STEPS.get() + 1;
        STEPS.set(n);
        if plan.at == 0 || plan.at == n {
            // Not inside the C library: it may hold a lock.
            let at = registers[libc::REG_RIP as usize] as usize;
            let (from, to) = (&raw const __executable_start as usize, &raw const etext as usize);
            if (from..to).contains(&at) {
                PLAN.set(None);
                if plan.call.run() != plan.call.want {
                    WRONG.set(WRONG.get() + 1);
                }
                MADE.set(MADE.get() + 1);
                PLAN.set(Some(plan));
            }
        }
        if plan.at != 0 && n >= plan.at || n >= plan.most {
            registers[libc::REG_EFL as usize] &= !TF;
        }
    }

    /// The body of every call: `f`, instruction by instruction if there is a
    /// plan.
    #[inline(always)]
    pub fn by_step<A, R>(a: A, f: impl FnOnce(A) -> R) -> R {
        let stepped = PLAN.get().is_some();
        if stepped {
            // SAFETY: sets a flag which makes the processor trap.
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
        }
        let r = black_box(f(black_box(a)));
        if stepped {
            // SAFETY: clears it.
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") }
        }
        r
    }

    pub struct Seen {
        pub got: u64,
        pub steps: u32,
        pub made: u32,
        pub wrong: u32,
    }
    pub fn run(c: &Call, plan: Plan) -> Seen {
        static READY: std::sync::Once = std::sync::Once::new();
        READY.call_once(|| unsafe {
            let mut s: libc::sigaction = std::mem::zeroed();
            s.sa_sigaction = trap as *const () as usize;
            s.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &s, std::ptr::null_mut());
        });
        STEPS.set(0);
        MADE.set(0);
        WRONG.set(0);
        PLAN.set(Some(plan));
        let got = c.run();
        PLAN.set(None);
        Seen { got, steps: STEPS.get(), made: MADE.get(), wrong: WRONG.get() }
    }
}

/// The first calls of a process: a process that has made no call yet has a
/// child for each instruction, in which that call is interrupted.
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod fresh {
    use super::*;
    use std::io::{BufRead, BufReader, Write};

    /// One question: two calls, by kind and operands, with what they should
    /// give, and the instructions first, first + step, .. to try.
    pub type Ask = [u64; 8];
    pub const WRONG: [(i32, &str); 3] = [(1, "the interrupted first call"), (2, "the first call made in between"), (4, "one of them, made again")];
    const NONE: i32 = 8;

    fn child(c: &Call, other: &Call, at: u32, most: u32) -> i32 {
        // SAFETY: this process has one thread.
        unsafe {
            match libc::fork() {
                -1 => -1,
                0 => {
                    libc::alarm(10);
                    let seen = step::run(c, step::Plan { call: *other, at, most });
                    let mut r = 0;
                    if seen.steps < at {
                        r = NONE;
                    }
                    r |= (seen.got != c.want) as i32;
                    r |= 2 * (seen.wrong > 0) as i32;
                    r |= 4 * (c.run() != c.want || other.run() != other.want) as i32;
                    libc::_exit(r)
                }
                pid => {
                    let mut status = 0;
                    libc::waitpid(pid, &mut status, 0);
                    if libc::WIFEXITED(status) {
                        libc::WEXITSTATUS(status)
                    } else {
                        -libc::WTERMSIG(status) - 1
                    }
                }
            }
        }
    }

    /// Answers: how many children, and the first one that went wrong, and how.
    pub fn serve() {
        std::panic::set_hook(Box::new(|_| ()));
        let (ops, operands) = (ops(), operands());
        for line in std::io::stdin().lines().map_while(Result::ok) {
            let q: Vec<u64> = line.split(' ').map(|x| x.parse().unwrap()).collect();
            let call = |q: &[u64]| {
                let ((name, op), (v, w)) = (ops[q[0] as usize], operands[q[1] as usize]);
                Call { name, op, v, w, want: q[2], panics: false }
            };
            let (c, other) = (call(&q), call(&q[3..]));
            let (mut at, most) = (q[6] as u32, q[7] as u32);
            let (mut n, mut bad) = (0, (0, 0));
            while at <= most {
                let r = child(&c, &other, at, most);
                if r == NONE {
                    break;
                }
                n += 1;
                if r != 0 {
                    bad = (at, r);
                    break;
                }
                at += PARTS as u32;
            }
            println!("{n} {} {}", bad.0, bad.1);
        }
    }

    struct Process {
        child: std::process::Child,
        out: BufReader<std::process::ChildStdout>,
    }
    thread_local! {
        static PROCESS: RefCell<Option<Process>> = const { RefCell::new(None) };
    }
    pub fn ask(q: Ask) -> Option<(u64, u32, i32)> {
        PROCESS.with(|p| {
            let mut p = p.borrow_mut();
            let p = p.get_or_insert_with(|| {
                use std::process::{Command, Stdio};
                let mut child = Command::new(std::env::current_exe().unwrap()).arg("--first-calls").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
                let out = BufReader::new(child.stdout.take().unwrap());
                Process { child, out }
            });
            let q: Vec<String> = q.iter().map(u64::to_string).collect();
            let mut to = p.child.stdin.as_ref().unwrap();
            to.write_all(format!("{}\n", q.join(" ")).as_bytes()).ok()?;
            let mut line = String::new();
            p.out.read_line(&mut line).ok()?;
            let mut it = line.split_whitespace();
            Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?, it.next()?.parse().ok()?))
        })
    }
}

/// Which of these does a type have?  (The inherent constant is there if the
/// bound holds, and shadows the one of the trait.)
trait No {
    const YES: bool = false;
}
impl<T: ?Sized> No for T {}
macro_rules! has {
    ($t:ty: $($b:path)|*) => {{
        [$({
            #[allow(dead_code)]
            struct Has<T: ?Sized>(std::marker::PhantomData<T>);
            #[allow(dead_code)]
            impl<T: ?Sized + $b> Has<T> {
                const YES: bool = true;
            }
            (stringify!($b), <Has<$t>>::YES)
        }),*]
    }};
}

/// The operands of calls that are interrupted, and the parts that the
/// instructions of a call are divided into.
const CALM: [usize; 3] = [0, 4, 6];
const PARTS: usize = 8;

/// Interrupts `c` by `other`, after its instruction `at`, or after each of
/// them; and was there such an instruction?
fn interrupted(c: &Call, other: &Call, at: u32, most: u32, l: &mut L) -> bool {
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    {
        // (a call may have left something behind for its next one)
        c.run();
        let seen = step::run(c, step::Plan { call: *other, at, most });
        l.evals += 1 + seen.made as u64;
        let a = &|| format!("{} interrupted {} by {}", c.show(), if at == 0 { "after each of its instructions".to_string() } else { format!("after its instruction {at}") }, other.show());
        if seen.got != c.want {
            l.fail("interrupted call", a(), format!("digest {:016x}", c.want), format!("digest {:016x}", seen.got));
        }
        if seen.wrong > 0 {
            l.fail("call between two instructions", a(), "no difference".into(), format!("{} different results", seen.wrong));
        }
        if l.tracing() {
            l.note(format!("{}: {} instructions, {} calls in between", a(), seen.steps, seen.made));
        }
        if at == 0 {
            l.tag(match seen.steps {
                0 => "not possible here",
                n if n >= most => "cut",
                _ => "all instructions",
            });
        }
        l.nontrivial(seen.made > 0);
        seen.steps >= at
    }
    #[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
    {
        let _ = (c, other, at, most);
        l.tag("not possible here");
        false
    }
}

fn spaces(env: &Env) -> Vec<Space> {
    let all = Arc::new(calls());
    let n = all.len();
    let k = ops().len();
    let quick = env.quick;
    let (t1, t2, t3, t4, t5) = (all.clone(), all.clone(), all.clone(), all.clone(), all.clone());
    let deep = if quick { 2 * k } else { 5 * k };
    let turn = n;
    // Calls that do not panic, by operands and by kind.
    let still: Vec<Call> = (0..k).filter(|i| CALM.iter().all(|o| !all[o * k + i].panics)).flat_map(|i| CALM.map(|o| all[o * k + i])).collect();
    let kinds = still.len() / CALM.len();
    let calm1: Vec<Call> = (0..still.len()).map(|i| still[i % kinds * CALM.len() + i / kinds]).collect();
    let (calm2, m) = (calm1.clone(), calm1.len());
    let firsts: Vec<((usize, usize), Call)> = (0..k)
        .flat_map(|i| CALM.map(|o| (i, o)))
        .filter(|(i, o)| CALM.iter().all(|o| !all[o * k + i].panics) && (!quick || *o == CALM[0]))
        .map(|(i, o)| ((i, o), all[o * k + i]))
        .collect();
    let others = if quick { 1 } else { CALM.len() };
    let words: usize = if quick { 3 } else { 4 };
    let tables: Vec<Table> = (0..k).map(|_| Table::new()).collect();
    let (singles, near) = (ops(), words.pow(8));
    vec![
        space("operands that differ in one word", "every call on all operands made of 3 words (thorough: 4), after the same call on operands that differ in one word", k * near, move |x, l| {
            let x = x as usize;
            let (name, op) = singles[x / near];
            let wants = table(&tables[x / near], op, words);
            let x = x % near;
            let (v, w) = spelled(x, words);
            let c = Call { name, op, v, w, want: wants[x], panics: false };
            for place in 0..8 {
                let unit = words.pow(place);
                for up in 1..words {
                    let digit = x / unit % words;
                    let y = x - digit * unit + (digit + up) % words * unit;
                    let (v, w) = spelled(y, words);
                    let first = Call { v, w, want: wants[y], ..c };
                    first.run();
                    c.check(l, "call after the same call on other operands", &|| format!("after {}", first.show()));
                }
            }
            l.nontrivial(true);
        }),
        space("every call after every call", "all ordered pairs of calls", n * n, move |x, l| {
            let (p, q) = pair(x, n);
            t1[p].check(l, "first call", &|| String::new());
            t1[q].check(l, "second call", &|| format!("after {}", t1[p].show()));
            l.nontrivial(p != q);
        }),
        space("three calls", "all ordered triples of calls on two pairs of operands (thorough: five)", deep * deep * deep, move |x, l| {
            let (p, q) = pair(x, deep * deep);
            let (q, r) = (q / deep, q % deep);
            t2[p].run();
            t2[q].run();
            t2[r].check(l, "third call", &|| format!("after {} after {}", t2[q].show(), t2[p].show()));
            l.nontrivial(p != q || q != r);
        }),
        space("calls of two threads", "all ordered pairs of calls, one in this thread, the other in a second one, and the first again", turn * turn, move |x, l| {
            let (p, q) = pair(x, turn);
            t3[p].check(l, "call in the first thread", &|| String::new());
            let got = elsewhere(&t3[q]);
            l.evals += 1;
            if got != t3[q].want {
                l.fail("call in the second thread", format!("{} after {} in the first", t3[q].show(), t3[p].show()), format!("{:016x}", t3[q].want), format!("{got:016x}"));
            }
            t3[p].check(l, "call in the first thread again", &|| format!("after {} in another thread", t3[q].show()));
            l.nontrivial(p != q);
        }),
        space("calls from callbacks", "every call made from every callback (writers, readers, hashers, iterators) of every call that takes one", OUTER * n * 2, move |x, l| {
            let (p, q) = pair(x, n * 2);
            let (q, o) = (q / 2, q % 2);
            let v = operands()[o].0;
            INSIDE.set(None);
            let want = outer(p, v);
            TABLE.with(|t| {
                let mut t = t.borrow_mut();
                if t.is_none() {
                    *t = Some(t4.clone());
                }
            });
            WRONG.set(0);
            INSIDE.set(Some((q, false)));
            let got = l.caught(|| outer(p, v));
            let ran = matches!(INSIDE.get(), Some((_, true)));
            INSIDE.set(None);
            let a = &|| format!("outer call {p} of {} with {} made by its callbacks", show1(U256::of(v)), t4[q].show());
            l.evals += 2;
            if got.as_ref() != Some(&want) {
                l.fail("call that calls back", a(), want, format!("{got:?}"));
            }
            if WRONG.get() > 0 {
                l.fail("call from a callback", a(), "no difference".into(), format!("{} different results", WRONG.get()));
            }
            l.tag(if ran { "called back" } else { "no callback" });
            l.nontrivial(ran);
        }),
        space("interrupted calls", "every call after a call whose 1st .. 40th callback panicked", OUTER * n.div_ceil(3) * 8, move |x, l| {
            let (p, q) = pair(x, n.div_ceil(3) * 8);
            let (q, at) = (q / 8 * 3 % n, [1, 2, 3, 4, 7, 15, 20, 40][q % 8]);
            let v = operands()[0].0;
            INSIDE.set(None);
            let want = outer(p, v);
            STOP.set(at);
            let cut = l.caught(|| outer(p, v));
            STOP.set(0);
            t5[q].check(l, "call after an interrupted one", &|| format!("after outer call {p} was interrupted at its callback {at}"));
            let again = outer(p, v);
            if again != want {
                l.fail("call after its own interruption", format!("outer call {p} of {}", show1(U256::of(v))), want, again);
            }
            l.evals += 1;
            l.tag(if cut.is_none() { "interrupted" } else { "finished" });
            l.nontrivial(cut.is_none());
        }),
        space("a call between two instructions", "every call (thorough: on three pairs of operands) interrupted after each of its first 2000 instructions (thorough: 20000) by every call on other operands", if quick { kinds * kinds } else { m * m }, move |x, l| {
            let (p, q) = pair(x, if quick { kinds } else { m });
            let q = if quick { q + kinds } else { q };
            interrupted(&calm1[p], &calm1[q], 0, if quick { 2000 } else { 20_000 }, l);
        }),
        space("one call between two instructions", "every call interrupted after one of its instructions, for each of the first 400 (thorough: 2000), by the same call on other operands", m * others * PARTS, move |x, l| {
            let (p, q) = pair(x, others * PARTS);
            let (q, part) = (q / PARTS, q % PARTS);
            let q = match quick {
                true => (p + (q + 1) * kinds) % m,
                false => (p % kinds + q * kinds) % m,
            };
            // (each part has its share of the instructions)
            let most = if quick { 400 } else { 2000 };
            let mut at = part as u32 + 1;
            while at <= most && interrupted(&calm2[p], &calm2[q], at, most, l) {
                at += PARTS as u32;
            }
        }),
        space("interrupted first calls", "the first call of a process (every call), interrupted after one of its instructions, for each of the first 600 (thorough: 4000), by the same call and by the same call on other operands, and both again", firsts.len() * 2 * PARTS, move |x, l| {
            #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
            {
                let (p, q) = pair(x, 2 * PARTS);
                let (q, part) = (q / PARTS, q % PARTS);
                let ((kind, o), c) = firsts[p];
                let o2 = if q == 0 { o } else { CALM[(CALM.iter().position(|x| *x == o).unwrap() + 1) % CALM.len()] };
                let other = all[o2 * k + kind];
                let Some((n, at, how)) = fresh::ask([kind as u64, o as u64, c.want, kind as u64, o2 as u64, other.want, part as u64 + 1, if quick { 600 } else { 4000 }]) else {
                    l.tag("not possible here");
                    return;
                };
                l.evals += n * 4;
                l.tag(if n > 0 { "interrupted" } else { "too short" });
                for (bit, what) in fresh::WRONG {
                    if how > 0 && how & bit != 0 {
                        l.fail("first calls of a process", format!("{} interrupted after its instruction {at} by {}", c.show(), other.show()), "no difference".into(), format!("a different result of {what}"));
                    }
                }
                if how == -libc::SIGALRM - 1 {
                    l.tag("stuck");
                } else if how < -1 {
                    l.fail("first calls of a process", format!("{} interrupted after its instruction {at} by {}", c.show(), other.show()), "no signal".into(), format!("signal {}", -how - 1));
                }
                if l.tracing() {
                    l.note(format!("{} interrupted by {}: {n} processes", c.show(), other.show()));
                }
                l.nontrivial(n > 0);
            }
            #[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
            {
                let _ = (x, &firsts, &all);
                l.tag("not possible here");
            }
        }),
        space("plain data", "both types can be copied, sent to and shared with other threads, and hold no destructor", 1, |_, l| {
            use std::panic::{RefUnwindSafe, UnwindSafe};
            macro_rules! go {
                ($t:ty) => {
                    for (name, yes) in has!($t: Send | Sync | Unpin | Copy | UnwindSafe | RefUnwindSafe) {
                        chk!(l, "auto trait", &|| format!("{} of {}", name, stringify!($t)), yes, true);
                    }
                    chk!(l, "needs_drop", &|| stringify!($t).to_string(), std::mem::needs_drop::<$t>(), false);
                    chk!(l, "size_of", &|| stringify!($t).to_string(), std::mem::size_of::<$t>(), 32usize);
                };
            }
            go!(U256);
            go!(I256);
            // (the question can be answered with no)
            chk!(l, "self test", &|| String::new(), has!(std::rc::Rc<u8>: Send | Clone | Copy).map(|x| if x.1 { "y" } else { "n" }).concat(), "nyn".to_string());
            l.nontrivial(true);
        }),
    ]
}

fn main() {
    let _ = alpha::MIN;
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    if std::env::args().nth(1).as_deref() == Some("--first-calls") {
        return fresh::serve();
    }
    mc::run::main("C24", spaces)
}
