//! The explorer: runs every index of every space on all workers, catches
//! panics, watches for hangs, leaves a trace of the running case for crashes,
//! and reports what was covered.

use crate::alpha::V;
use crate::z::{Int, Z};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    /// Pairs of operands of the scaled model whose behaviour is to be
    /// found again in the real code.
    pub lift: Vec<(u16, u16)>,
    pub quick: bool,
    /// Integer literals of the current sources.
    pub dict: Vec<V>,
    pub debug: bool,
    pub backend: &'static str,
}

pub struct Space {
    pub name: &'static str,
    pub what: &'static str,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut L) + Sync>,
}

pub fn space(
    name: &'static str,
    what: &'static str,
    n: usize,
    run: impl Fn(u64, &mut L) + Sync + 'static,
) -> Space {
    Space { name, what, n: n as u64, run: Box::new(run) }
}

#[derive(Clone)]
pub struct Fail {
    pub space: &'static str,
    pub index: u64,
    pub op: String,
    pub args: String,
    pub want: String,
    pub got: String,
}

/// State local to a worker.
pub struct L {
    pub evals: u64,
    pub nontrivial: u64,
    pub tags: BTreeMap<&'static str, u64>,
    pub fails: Vec<Fail>,
    pub nfails: u64,
    pub digest: u64,
    pub verbose: bool,
    space: &'static str,
    index: u64,
    trace: Option<Vec<String>>,
}

thread_local! {
    static LABEL: Cell<&'static str> = const { Cell::new("") };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Values that can be compared and shown without using the crate under test.
pub trait Val {
    fn same(&self, o: &Self) -> bool;
    fn show(&self) -> String;
}
macro_rules! val_prim {
    ($($t:ty),*) => {$(
        impl Val for $t {
            #[inline]
            fn same(&self, o: &Self) -> bool { *self == *o }
            fn show(&self) -> String { format!("{:?}", self) }
        }
    )*};
}
val_prim! { bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, String, (), std::cmp::Ordering, [u8; 32], Vec<u8>, &'static str }
impl Val for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn show(&self) -> String {
        format!("{:?} (bits {:#x})", self, self.to_bits())
    }
}
impl Val for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn show(&self) -> String {
        format!("{:?} (bits {:#x})", self, self.to_bits())
    }
}
macro_rules! val_int {
    ($($t:ty),*) => {$(
        impl Val for $t {
            #[inline]
            fn same(&self, o: &Self) -> bool { Int::limbs(*self) == Int::limbs(*o) }
            fn show(&self) -> String { format!("{}({} = {})", <$t>::NAME, crate::alpha::hex(Int::limbs(*self)), self.z().dec()) }
        }
    )*};
}
val_int! { ethnum::U256, ethnum::I256 }
impl Val for crate::tok::Refused {
    fn same(&self, _: &Self) -> bool { true }
    fn show(&self) -> String { "refused".into() }
}
impl<T: Val> Val for Option<T> {
    #[inline]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn show(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.show()),
        }
    }
}
impl<T: Val, E: Val> Val for Result<T, E> {
    #[inline]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Err(a), Err(b)) => a.same(b),
            (Ok(a), Ok(b)) => a.same(b),
            _ => false,
        }
    }
    fn show(&self) -> String {
        match self {
            Err(x) => format!("Err({})", x.show()),
            Ok(x) => format!("Ok({})", x.show()),
        }
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    #[inline]
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
    fn show(&self) -> String {
        format!("({}, {})", self.0.show(), self.1.show())
    }
}
impl<A: Val, B: Val, C: Val> Val for (A, B, C) {
    #[inline]
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
    fn show(&self) -> String {
        format!("({}, {}, {})", self.0.show(), self.1.show(), self.2.show())
    }
}

impl L {
    pub fn new(space: &'static str) -> L {
        L {
            evals: 0,
            nontrivial: 0,
            tags: BTreeMap::new(),
            fails: vec![],
            nfails: 0,
            digest: 0,
            verbose: false,
            space,
            index: 0,
            trace: None,
        }
    }
    /// The operation about to run, for reports of panics, hangs and crashes.
    #[inline(always)]
    pub fn at(&self, op: &'static str) {
        LABEL.with(|l| l.set(op));
    }
    #[inline]
    pub fn cmp<T: Val>(&mut self, op: &'static str, got: T, want: T, args: &dyn Fn() -> String) {
        self.evals += 1;
        if let Some(t) = &mut self.trace {
            t.push(format!("{op} {} -> {}", args(), got.show()));
        }
        if !got.same(&want) {
            self.fail(op, args(), want.show(), got.show());
        }
    }
    #[cold]
    pub fn fail(&mut self, op: &str, args: String, want: String, got: String) {
        self.nfails += 1;
        if self.fails.len() < 8 {
            self.fails.push(Fail {
                space: self.space,
                index: self.index,
                op: op.to_string(),
                args,
                want,
                got,
            });
        }
    }
    /// Counts an outcome class.
    #[inline]
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    #[inline]
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial += yes as u64;
    }
    /// Runs f, telling apart a panic from a result.
    #[inline]
    pub fn caught<T>(&self, f: impl FnOnce() -> T) -> Option<T> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
    /// f must give `want`, or panic if `want` is None.
    #[inline]
    pub fn cmp_panic<T: Val>(
        &mut self,
        op: &'static str,
        f: impl FnOnce() -> T,
        want: Option<T>,
        args: &dyn Fn() -> String,
    ) {
        self.at(op);
        let got = self.caught(f);
        self.evals += 1;
        if let Some(t) = &mut self.trace {
            t.push(format!("{op} {} -> {}", args(), show_panic(&got)));
        }
        if !got.same(&want) {
            self.fail(op, args(), show_panic(&want), show_panic(&got));
        }
    }
    #[inline]
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn note(&mut self, s: String) {
        if let Some(t) = &mut self.trace {
            t.push(s);
        }
    }
    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.digest = (self.digest.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}

fn show_panic<T: Val>(v: &Option<T>) -> String {
    match v {
        None => "panic".into(),
        Some(x) => x.show(),
    }
}

/// `chk!(l, "op", args, got, want)`: one comparison against the model.
#[macro_export]
macro_rules! chk {
    ($l:expr, $op:expr, $args:expr, $got:expr, $want:expr) => {{
        $l.at($op);
        let got = $got;
        let want = $want;
        $l.cmp($op, got, want, $args);
    }};
}

struct Slots {
    ptr: *mut u64,
    n: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    /// A file-backed shared mapping survives whatever kills the process.
    fn open(path: Option<&str>, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let bytes = n * 64;
        let p = match path {
            Some(p) => {
                let f = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .create(true)
                    .truncate(true)
                    .open(p)
                    .expect("slot file");
                f.set_len(bytes as u64).unwrap();
                unsafe {
                    libc::mmap(
                        std::ptr::null_mut(),
                        bytes,
                        libc::PROT_READ | libc::PROT_WRITE,
                        libc::MAP_SHARED,
                        f.as_raw_fd(),
                        0,
                    )
                }
            }
            None => unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    bytes,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                )
            },
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots { ptr: p as *mut u64, n }
    }
    #[inline]
    fn get(&self, i: usize, k: usize) -> &AtomicU64 {
        assert!(i < self.n && k < 8);
        unsafe { AtomicU64::from_ptr(self.ptr.add(i * 8 + k)) }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| {
            *p.borrow_mut() = format!(
                "{msg} at {}",
                info.location().map(|l| l.to_string()).unwrap_or_default()
            )
        });
    }));
}

fn one(s: &Space, i: u64, l: &mut L) {
    l.index = i;
    LABEL.with(|x| x.set(""));
    if catch_unwind(AssertUnwindSafe(|| (s.run)(i, l))).is_err() {
        let op = LABEL.with(|x| x.get());
        let msg = PANIC.with(|p| p.borrow().clone());
        l.fail(op, format!("(see case {} of {})", i, s.name), "no panic".into(), format!("panic: {msg}"));
    }
}

pub fn read_dict(path: &str) -> Vec<V> {
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    let mut out = vec![];
    for line in text.lines() {
        let h = line.trim();
        if h.is_empty() || h.len() > 64 {
            continue;
        }
        let h = format!("{:0>64}", h);
        let mut v = [0u64; 4];
        for i in 0..4 {
            v[3 - i] = u64::from_str_radix(&h[16 * i..16 * i + 16], 16).unwrap();
        }
        out.push(v);
    }
    out
}

fn read_lift(path: &str) -> Vec<(u16, u16)> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((u16::from_str_radix(a, 16).ok()?, u16::from_str_radix(b, 16).ok()?))
        })
        .collect()
}

/// The plain runner for interpreters: one thread, no files, no clock.  Prints
/// the digest of every case of one part of the spaces.
pub fn interpret(spaces: fn(&Env) -> Vec<Space>) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let env = Env {
        quick: opt("--tier").as_deref() != Some("thorough"),
        lift: vec![],
        dict: opt("--lits").map(|t| t.split(',').filter_map(parse_v).collect()).unwrap_or_default(),
        debug: cfg!(debug_assertions),
        backend: if cfg!(feature = "llvm") { "llvm" } else { "native" },
    };
    install_hook();
    let all = spaces(&env);
    let (k, n): (u64, u64) = match opt("--part") {
        Some(p) => {
            let (a, b) = p.split_once('/').expect("part");
            (a.parse().unwrap(), b.parse().unwrap())
        }
        None => (0, 1),
    };
    let only = opt("--case").map(|c| {
        let (a, b) = c.split_once(':').expect("case");
        (a.parse::<usize>().unwrap(), b.parse::<u64>().unwrap())
    });
    let from = opt("--from").map(|c| {
        let (a, b) = c.split_once(':').expect("case");
        (a.parse::<usize>().unwrap(), b.parse::<u64>().unwrap())
    });
    let skip: Vec<&str> = args.iter().position(|a| a == "--without").and_then(|i| args.get(i + 1)).map(|t| t.split(',').collect()).unwrap_or_default();
    let sole = opt("--only");
    for (si, s) in all.iter().enumerate() {
        if skip.contains(&s.name) || sole.as_ref().is_some_and(|o| o != s.name) {
            continue;
        }
        println!("S {si} {} {} {}", s.n, s.name.replace(' ', "_"), s.what);
        let (mut cases, mut evals, mut non) = (0u64, 0u64, 0u64);
        let mut i = 0;
        while i < s.n {
            let mine = match only {
                Some(c) => c == (si, i),
                None => i % n == k && from.map_or(true, |f| (si, i) >= f),
            };
            if mine {
                let mut l = L::new(s.name);
                if only.is_some() {
                    l.trace = Some(vec![]);
                }
                println!("B {si} {i}");
                one(s, i, &mut l);
                println!("D {si} {i} {:016x}", l.digest);
                for t in l.trace.take().unwrap_or_default() {
                    println!("TRACE {t}");
                }
                for f in &l.fails {
                    println!("F {si} {i} {} {} expected {} got {}", f.op, f.args, f.want, f.got);
                }
                cases += 1;
                evals += l.evals;
                non += l.nontrivial.min(1);
            }
            i += 1;
        }
        println!("E {si} {cases} {evals} {non}");
    }
    println!("END");
}

fn parse_v(h: &str) -> Option<V> {
    if h.is_empty() || h.len() > 64 {
        return None;
    }
    let h = format!("{:0>64}", h);
    let mut v = [0u64; 4];
    for i in 0..4 {
        v[3 - i] = u64::from_str_radix(&h[16 * i..16 * i + 16], 16).ok()?;
    }
    Some(v)
}

/// Entry point of every explorer binary.
pub fn main(prop: &str, spaces: fn(&Env) -> Vec<Space>) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let env = Env {
        quick: opt("--tier").as_deref() != Some("thorough"),
        lift: opt("--lift").map(|p| read_lift(&p)).unwrap_or_default(),
        dict: opt("--dict").map(|p| read_dict(&p)).unwrap_or_default(),
        debug: cfg!(debug_assertions),
        backend: if cfg!(feature = "llvm") { "llvm" } else { "native" },
    };
    install_hook();
    let t0 = Instant::now();
    let model_checks = crate::z::selftest();
    let all = spaces(&env);
    {
        let mut seen = std::collections::HashSet::new();
        for s in &all {
            assert!(seen.insert(s.name), "duplicate space {}", s.name);
        }
    }

    if let (Some(name), Some(file)) = (opt("--space"), opt("--digests")) {
        // One digest per case, to find where two builds differ.
        let s = all.iter().find(|s| s.name == name).expect("space");
        let mut bytes = Vec::with_capacity(s.n as usize * 8);
        let mut l = L::new(s.name);
        for i in 0..s.n {
            l.digest = 0;
            one(s, i, &mut l);
            bytes.extend(l.digest.to_le_bytes());
        }
        std::fs::write(file, bytes).unwrap();
        std::process::exit(0);
    }
    if let Some(name) = opt("--space") {
        // Replay of a single case.
        let i: u64 = opt("--index").expect("--index").parse().unwrap();
        let by_number = name.strip_prefix('#').and_then(|n| n.parse::<usize>().ok());
        let Some(s) = all.iter().enumerate().find(|(k, s)| s.name == name || by_number == Some(*k)).map(|x| x.1) else {
            println!("no such space");
            std::process::exit(2);
        };
        if i >= s.n {
            println!("no such case");
            std::process::exit(2);
        }
        let mut l = L::new(s.name);
        if args.iter().any(|a| a == "--trace") {
            l.trace = Some(vec![]);
        }
        one(s, i, &mut l);
        println!("SPACE {}", s.name);
        for t in l.trace.take().unwrap_or_default() {
            println!("TRACE {t}");
        }
        for f in &l.fails {
            println!("FAIL {} {} case {} of {}: {} expected {} got {}", prop, f.op, f.index, f.space, f.args, f.want, f.got);
        }
        println!("{} comparisons, {} failures", l.evals, l.nfails);
        std::process::exit(if l.nfails > 0 { 1 } else { 0 });
    }

    let workers: usize = opt("--workers").map(|w| w.parse().unwrap()).unwrap_or(8);
    let cap = Duration::from_secs_f64(opt("--cap").map(|c| c.parse().unwrap()).unwrap_or(600.0));
    let slots = Slots::open(opt("--slots").as_deref(), workers);
    let hang_after = opt("--hang").map(|c| c.parse().unwrap()).unwrap_or(30u64);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let mut report: Vec<Value> = vec![];
    let mut fails: Vec<Fail> = vec![];
    let mut nfails = 0u64;

    std::thread::scope(|scope| {
        // Watchdog: a worker that stays on one case is a hang.
        let watchdog = {
            let (slots, done, stop) = (&slots, &done, &stop);
            let out = opt("--out");
            let names: Vec<&'static str> = all.iter().map(|s| s.name).collect();
            scope.spawn(move || {
                let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); slots.n];
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    if t0.elapsed() > cap {
                        stop.store(true, Relaxed);
                    }
                    for w in 0..slots.n {
                        let ticks = slots.get(w, 2).load(Relaxed);
                        if ticks != last[w].0 || slots.get(w, 3).load(Relaxed) == 0 {
                            last[w] = (ticks, Instant::now());
                        } else if last[w].1.elapsed().as_secs() > hang_after {
                            let sp = slots.get(w, 0).load(Relaxed);
                            let ix = slots.get(w, 1).load(Relaxed);
                            if let Some(o) = &out {
                                let _ = std::fs::write(
                                    o,
                                    json!({"hang": {"space": names[sp as usize], "index": ix}}).to_string(),
                                );
                            }
                            println!("HANG {} {}", names[sp as usize], ix);
                            std::process::exit(97);
                        }
                    }
                }
            })
        };

        for (si, s) in all.iter().enumerate() {
            let t = Instant::now();
            let chunk = (s.n / (workers as u64 * 64)).clamp(1, 4096);
            let next = AtomicU64::new(0);
            let covered = AtomicU64::new(0);
            let digest = AtomicU64::new(0);
            let acc: Mutex<(u64, u64, BTreeMap<&'static str, u64>, Vec<Fail>, u64)> =
                Mutex::new((0, 0, BTreeMap::new(), vec![], 0));
            std::thread::scope(|inner| {
                for w in 0..workers {
                    let (next, covered, acc, stop, slots, digest) = (&next, &covered, &acc, &stop, &slots, &digest);
                    inner.spawn(move || {
                        let mut l = L::new(s.name);
                        slots.get(w, 0).store(si as u64, Relaxed);
                        let mut ticks = slots.get(w, 2).load(Relaxed);
                        loop {
                            if stop.load(Relaxed) || l.nfails > 200 {
                                break;
                            }
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= s.n {
                                break;
                            }
                            let b = (a + chunk).min(s.n);
                            for i in a..b {
                                slots.get(w, 1).store(i, Relaxed);
                                ticks += 1;
                                slots.get(w, 2).store(ticks, Relaxed);
                                slots.get(w, 3).store(1, Relaxed);
                                one(s, i, &mut l);
                                if l.digest != 0 {
                                    // Order-independent combination of the
                                    // digests of the cases.
                                    let mut d = l.digest ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
                                    d ^= d >> 32;
                                    digest.fetch_add(d.wrapping_mul(0xD6E8_FEB8_6659_FD93), Relaxed);
                                    l.digest = 0;
                                }
                            }
                            slots.get(w, 3).store(0, Relaxed);
                            covered.fetch_add(b - a, Relaxed);
                        }
                        slots.get(w, 3).store(0, Relaxed);
                        let mut g = acc.lock().unwrap();
                        g.0 += l.evals;
                        g.1 += l.nontrivial;
                        for (k, v) in l.tags {
                            *g.2.entry(k).or_insert(0) += v;
                        }
                        g.3.extend(l.fails);
                        g.4 += l.nfails;
                    });
                }
            });
            let (evals, nontrivial, tags, mut f, nf) = acc.into_inner().unwrap();
            f.sort_by_key(|x| x.index);
            f.truncate(8);
            fails.extend(f);
            nfails += nf;
            let cov = covered.load(Relaxed);
            report.push(json!({
                "space": s.name, "what": s.what, "cases": s.n, "covered": cov,
                "complete": cov == s.n, "evaluations": evals, "nontrivial_cases": nontrivial,
                "outcomes": tags, "digest": digest.load(Relaxed), "wall_s": t.elapsed().as_secs_f64(),
            }));
        }
        done.store(true, Relaxed);
        watchdog.join().unwrap();
    });
    let out = json!({
        "property": prop,
        "backend": env.backend, "debug": env.debug,
        "spaces": report,
        "model_selftest": model_checks,
        "failures": nfails,
        "fails": fails.iter().map(|f| json!({
            "space": f.space, "index": f.index, "op": f.op, "args": f.args, "want": f.want, "got": f.got,
        })).collect::<Vec<_>>(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    match opt("--out") {
        Some(p) => std::fs::write(p, out.to_string()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
    std::process::exit(if nfails > 0 { 1 } else { 0 });
}

/// Index decoding for products.
#[inline]
pub fn pair(i: u64, n: usize) -> (usize, usize) {
    ((i / n as u64) as usize, (i % n as u64) as usize)
}

pub fn show2<A: Int, B: Int>(a: A, b: B) -> String {
    format!(
        "a={}({}) b={}({})",
        A::NAME,
        crate::alpha::hex(a.limbs()),
        B::NAME,
        crate::alpha::hex(b.limbs())
    )
}
pub fn show1<A: Int>(a: A) -> String {
    format!("a={}({})", A::NAME, crate::alpha::hex(a.limbs()))
}
pub fn z(v: V) -> Z {
    Z::from_limbs(v)
}
