//! Runtime monitor linked into every generated test program.
//!
//! It observes a generated parser only at its public boundary: the tokens it is
//! given, the calls it makes to the input iterator, the semantic actions it
//! calls, the values it hands to them, drops or returns, and its result.
//!
//! Event lines of a run (between `J <n>` and `.`):
//!   n <i>            iterator yielded the i-th item, an Ok token
//!   x <i>            iterator yielded the i-th item, an Err
//!   z                iterator yielded None
//!   o                the iterator was polled after it had yielded None or Err
//!   a <p> <pos>=<ids> .. > <ids>   action of production p, bound values, result
//!   d <id>           a tracked value was dropped
//!   R ok <ids> | R le <code> | R pe <found> <TAB> <expected> | R panic <msg> | R limit | R inj
//!   e <alive>        end of run, number of tracked values still alive
//!   q ..             summary instead of events, in quiet mode
//!   c <t> <text>     action of a token-classification program
//!   N <k> <log>      a nested run (job k of the auxiliary jobs) and its log

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, OnceLock};

pub const NT_ID_BASE: u32 = 1 << 26;

#[derive(Default)]
pub struct Ctx {
    log: String,
    quiet: bool,
    next_nt: u32,
    acts: u64,
    pulls: u64,
    act_limit: u64,
    pull_limit: u64,
    panic_at_act: Option<u64>,
    created: u64,
    dropped: u64,
    /// fingerprint of the action sequence, for quiet mode
    hash: u64,
    nest: Vec<Nest>,
}

/// Run an auxiliary job inside the n-th action or the n-th pull
#[derive(Clone, Copy, Debug)]
pub struct Nest {
    in_action: bool,
    n: u64,
    aux: usize,
}

static TABLE: OnceLock<HashMap<u32, &'static [Entry]>> = OnceLock::new();
static AUX: OnceLock<Vec<(u32, usize, Job)>> = OnceLock::new();
static JITTER: AtomicBool = AtomicBool::new(false);
static ACTIVE: AtomicU64 = AtomicU64::new(0);
static MAX_ACTIVE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static RNG: Cell<u64> = Cell::new(0);
}

fn jitter() {
    if !JITTER.load(Ordering::Relaxed) {
        return;
    }
    let mut x = RNG.with(|r| r.get());
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    RNG.with(|r| r.set(x));
    match x & 15 {
        0 | 1 => std::thread::yield_now(),
        2 => {
            for _ in 0..(x >> 8 & 63) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// Perform the nested runs that are due
fn nested(in_action: bool) {
    let due = ctx(|c| {
        let at = if in_action { c.acts - 1 } else { c.pulls - 1 };
        c.nest
            .iter()
            .filter(|n| n.in_action == in_action && n.n == at)
            .copied()
            .collect::<Vec<_>>()
    })
    .unwrap_or_default();
    for n in due {
        let (case, entry, job) = &AUX.get().unwrap()[n.aux];
        let log = observe(job, TABLE.get().unwrap()[case][*entry]);
        put(&format!("N {} {}", n.aux, esc(&log)));
    }
}

thread_local! {
    static CTX: RefCell<Vec<Ctx>> = RefCell::new(Vec::new());
}

fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    CTX.try_with(|c| match c.try_borrow_mut() {
        Ok(mut c) => c.last_mut().map(f),
        Err(_) => None,
    })
    .unwrap_or(None)
}

pub struct StepLimit;
pub struct Injected;

/// A tracked value: has an identity, cannot be copied, and its drop is recorded.
pub struct V(u32);

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.0)
    }
}

impl Drop for V {
    fn drop(&mut self) {
        let id = self.0;
        ctx(|c| {
            c.dropped += 1;
            if !c.quiet {
                let _ = writeln!(c.log, "d {}", id);
            }
        });
    }
}

/// The `comp`-th payload part of the `i`-th token
pub fn v(i: u32, comp: u32) -> V {
    ctx(|c| c.created += 1);
    V((i + 1) * 8 + comp)
}

/// A string unique to the `comp`-th payload part of the `i`-th token
pub fn s(i: u32, comp: u32) -> &'static str {
    Box::leak(format!("s{}.{}", i, comp).into_boxed_str())
}

fn fresh() -> V {
    let id = ctx(|c| {
        c.created += 1;
        c.next_nt += 1;
        NT_ID_BASE + c.next_nt - 1
    })
    .unwrap_or(0);
    V(id)
}

/// Types usable as values of terminals and non-terminals
pub trait Val: Sized {
    fn ids(&self, f: &mut dyn FnMut(u32));
    fn make() -> Self;
    fn touch(&mut self) {}
}

impl Val for V {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        f(self.0)
    }
    fn make() -> Self {
        fresh()
    }
}

#[derive(Debug)]
pub struct N<const K: usize>(pub V);

impl<const K: usize> Val for N<K> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        self.0.ids(f)
    }
    fn make() -> Self {
        N(fresh())
    }
}

/// Types with the names of others
pub mod a {
    #[derive(Debug)]
    pub struct V(crate::V);
    impl crate::Val for V {
        fn ids(&self, f: &mut dyn FnMut(u32)) {
            self.0.ids(f)
        }
        fn make() -> Self {
            V(crate::fresh())
        }
    }
    pub mod b {
        #[derive(Debug)]
        pub struct V(crate::V);
        impl crate::Val for V {
            fn ids(&self, f: &mut dyn FnMut(u32)) {
                self.0.ids(f)
            }
            fn make() -> Self {
                V(crate::fresh())
            }
        }
        #[derive(Debug)]
        pub struct N<const K: usize>(crate::V);
        impl<const K: usize> crate::Val for N<K> {
            fn ids(&self, f: &mut dyn FnMut(u32)) {
                self.0.ids(f)
            }
            fn make() -> Self {
                N(crate::fresh())
            }
        }
    }
}

/// For types written as macros and as projections
#[macro_export]
macro_rules! same {
    ($t:ty) => { $t };
}
pub trait Same {
    type T;
}
impl<X> Same for X {
    type T = X;
}

/// For trait objects
pub trait Thing: std::fmt::Debug {
    fn all(&self, f: &mut dyn FnMut(u32));
}
impl Thing for V {
    fn all(&self, f: &mut dyn FnMut(u32)) {
        self.ids(f)
    }
}
macro_rules! object {
    ($($t:ty),+) => {
        $(impl Val for Box<$t> {
            fn ids(&self, f: &mut dyn FnMut(u32)) {
                self.all(f)
            }
            fn make() -> Self {
                Box::new(fresh())
            }
        })+
    };
}
object!(dyn Thing, dyn Thing + Send, dyn Thing + Send + Sync);

macro_rules! plain {
    ($($t:ty => $v:expr),+ $(,)?) => {
        $(impl Val for $t {
            fn ids(&self, _: &mut dyn FnMut(u32)) {}
            fn make() -> Self {
                $v
            }
        })+
    };
}
fn nothing() {}
fn identity(v: V) -> V {
    v
}
plain! {
    (fn()) => nothing,
    fn(V) -> V => identity,
    fn(V) -> Box<V> => Box::new,
    *const u8 => std::ptr::null(),
    *mut u8 => std::ptr::null_mut(),
    &'static [u8] => &[1],
    &'static [&'static str] => &["x"],
    &'static &'static str => &"x",
    std::borrow::Cow<'static, str> => "x".into(),
    i64 => -1,
    f32 => 0.5,
    bool => true,
    char => 'x',
    usize => 0,
}
impl<T> Val for std::marker::PhantomData<T> {
    fn ids(&self, _: &mut dyn FnMut(u32)) {}
    fn make() -> Self {
        std::marker::PhantomData
    }
}
impl<T: Val> Val for std::rc::Rc<T> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        (**self).ids(f)
    }
    fn make() -> Self {
        std::rc::Rc::new(T::make())
    }
}
impl<T: Val> Val for std::cell::RefCell<T> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        self.borrow().ids(f)
    }
    fn make() -> Self {
        std::cell::RefCell::new(T::make())
    }
}

impl Val for () {
    fn ids(&self, _: &mut dyn FnMut(u32)) {}
    fn make() -> Self {}
}

impl<T: Val> Val for Vec<T> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        for x in self {
            x.ids(f)
        }
    }
    fn make() -> Self {
        vec![T::make()]
    }
}

impl<T: Val> Val for Option<T> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        if let Some(x) = self {
            x.ids(f)
        }
    }
    fn make() -> Self {
        Some(T::make())
    }
}

impl<T: Val> Val for Box<T> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        (**self).ids(f)
    }
    fn make() -> Self {
        Box::new(T::make())
    }
}

impl<T: Val, X: Val> Val for Result<T, X> {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        match self {
            Ok(x) => x.ids(f),
            Err(x) => x.ids(f),
        }
    }
    fn make() -> Self {
        Ok(T::make())
    }
}

impl Val for u8 {
    fn ids(&self, _: &mut dyn FnMut(u32)) {}
    fn make() -> Self {
        7
    }
}

impl Val for &'static str {
    fn ids(&self, _: &mut dyn FnMut(u32)) {}
    fn make() -> Self {
        "s"
    }
}

impl Val for String {
    fn ids(&self, _: &mut dyn FnMut(u32)) {}
    fn make() -> Self {
        "s".to_owned()
    }
}

impl<T: Val, const L: usize> Val for [T; L] {
    fn ids(&self, f: &mut dyn FnMut(u32)) {
        for x in self {
            x.ids(f)
        }
    }
    fn make() -> Self {
        std::array::from_fn(|_| T::make())
    }
}

macro_rules! tuple {
    ($($t:ident $i:tt),+) => {
        impl<$($t: Val),+> Val for ($($t,)+) {
            fn ids(&self, f: &mut dyn FnMut(u32)) { $(self.$i.ids(f);)+ }
            fn make() -> Self { ($($t::make(),)+) }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);

fn ids_str<T: Val>(x: &T) -> String {
    let mut s = String::new();
    x.ids(&mut |i| {
        if !s.is_empty() {
            s.push(',');
        }
        let _ = write!(s, "{}", i);
    });
    s
}

/// A semantic action in progress
pub struct Act {
    line: String,
    quiet: bool,
}

/// Start the action of production `p`
pub fn a(p: u32) -> Act {
    let r = ctx(|c| {
        c.acts += 1;
        let n = c.acts;
        c.hash = c.hash.wrapping_mul(0x100000001b3).wrapping_add(p as u64 + 1);
        (n > c.act_limit, c.panic_at_act == Some(n - 1), c.quiet)
    });
    let (over, inj, quiet) = r.unwrap_or((false, false, true));
    let act = Act {
        line: if quiet { String::new() } else { format!("a {}", p) },
        quiet,
    };
    jitter();
    if over {
        std::panic::resume_unwind(Box::new(StepLimit));
    }
    nested(true);
    if inj {
        ctx(|c| {
            if !c.quiet {
                let _ = writeln!(c.log, "i {}", p);
            }
        });
        std::panic::resume_unwind(Box::new(Injected));
    }
    act
}

impl Act {
    /// The binder of the symbol at `pos`, moved into the action
    pub fn b<T: Val>(mut self, pos: u32, x: T) -> Act {
        if !self.quiet {
            let _ = write!(self.line, " {}={}", pos, ids_str(&x));
        }
        drop(x);
        self
    }

    /// A `mut` binder is mutable
    pub fn m<T: Val>(self, x: &mut T) -> Act {
        x.touch();
        self
    }

    /// Finish with a new value
    pub fn r<T: Val>(self) -> T {
        let x = T::make();
        self.end(&x);
        x
    }

    /// Finish by handing on the value bound at `pos`
    pub fn pass<T: Val>(mut self, pos: u32, x: T) -> T {
        if !self.quiet {
            let _ = write!(self.line, " {}={}", pos, ids_str(&x));
        }
        self.end(&x);
        x
    }

    fn end<T: Val>(self, x: &T) {
        if self.quiet {
            return;
        }
        let mut line = self.line;
        let _ = write!(line, " > {}", ids_str(x));
        ctx(|c| {
            c.log.push_str(&line);
            c.log.push('\n');
        });
    }
}

/// The lexer error type: only `Clone`, as the parser requires
#[derive(Debug, Clone)]
pub struct LexErr(pub u32, std::rc::Rc<()>);

#[derive(Clone, Copy, Debug)]
pub enum Item {
    Tok(u32),
    Err(u32),
    Panic,
}

/// One parse to perform
#[derive(Clone, Debug, Default)]
pub struct Job {
    pub items: Arc<Vec<Item>>,
    pub quiet: bool,
    pub panic_at_act: Option<u64>,
    pub act_limit: u64,
    pub nest: Vec<Nest>,
    /// `size_hint` of the iterator: 0: the default, 1: exact, 2: an upper bound only, 3: more
    /// than there is (an iterator over a container that may get more items), 4: an upper bound
    /// far above
    pub hint: u8,
}

/// The instrumented token iterator
pub struct Src<'j, T> {
    job: &'j Job,
    pos: usize,
    over: bool,
    mk: fn(u32, u32) -> T,
}

impl<'j, T> Src<'j, T> {
    pub fn new(job: &'j Job, mk: fn(u32, u32) -> T) -> Self {
        Src {
            job,
            pos: 0,
            over: false,
            mk,
        }
    }
}

impl<'j, T> Iterator for Src<'j, T> {
    type Item = Result<T, LexErr>;

    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.job.items.len() - self.pos;
        match self.job.hint {
            1 => (left, Some(left)),
            2 => (0, Some(left + 5)),
            3 => (left + 2, None),
            4 => (0, Some(usize::MAX)),
            _ => (0, None),
        }
    }

    fn next(&mut self) -> Option<Self::Item> {
        let over = self.over;
        let lim = ctx(|c| {
            c.pulls += 1;
            if over && !c.quiet {
                c.log.push_str("o\n");
            }
            if over {
                c.hash ^= 0xdead;
            }
            c.pulls > c.pull_limit
        });
        if lim == Some(true) {
            std::panic::resume_unwind(Box::new(StepLimit));
        }
        jitter();
        nested(false);
        let i = self.pos;
        match self.job.items.get(i).copied() {
            None => {
                self.over = true;
                // an iterator need not be fused: start over when polled again
                self.pos = 0;
                ctx(|c| {
                    if !c.quiet {
                        c.log.push_str("z\n");
                    }
                });
                None
            }
            Some(Item::Tok(k)) => {
                self.pos += 1;
                ctx(|c| {
                    if !c.quiet {
                        let _ = writeln!(c.log, "n {}", i);
                    }
                });
                Some(Ok((self.mk)(k, i as u32)))
            }
            Some(Item::Err(code)) => {
                self.pos += 1;
                self.over = true;
                ctx(|c| {
                    if !c.quiet {
                        let _ = writeln!(c.log, "x {}", i);
                    }
                });
                Some(Err(LexErr(code, Default::default())))
            }
            Some(Item::Panic) => {
                self.pos += 1;
                ctx(|c| {
                    if !c.quiet {
                        let _ = writeln!(c.log, "i pull");
                    }
                });
                std::panic::resume_unwind(Box::new(Injected));
            }
        }
    }
}

/// Result of `N::parse`, in a form independent of the grammar's `ParseError` type
pub enum Res<'a> {
    Lex(&'a LexErr),
    Syn(&'a str, &'a str),
}

pub fn ok<T: Val>(x: T) {
    let ids = ids_str(&x);
    put(&format!("R ok {}", ids));
    drop(x);
}

pub fn err(r: Res) {
    match r {
        Res::Lex(e) => put(&format!("R le {}", e.0)),
        Res::Syn(f, e) => put(&format!("R pe {}\t{}", esc(f), esc(e))),
    }
}

pub fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| c.escape_default())
        .collect::<String>()
}

/// Append a line to the log of the current run
pub fn put(s: &str) {
    ctx(|c| {
        c.log.push_str(s);
        c.log.push('\n');
    });
}

/// Perform `f` as a run of its own, return its log
pub fn observe(job: &Job, f: impl FnOnce(&Job)) -> String {
    let n = job.items.len() as u64;
    CTX.with(|c| {
        c.borrow_mut().push(Ctx {
            quiet: job.quiet,
            act_limit: job.act_limit,
            pull_limit: n + 50,
            panic_at_act: job.panic_at_act,
            nest: job.nest.clone(),
            ..Ctx::default()
        })
    });
    let before = MEM.with(|m| {
        let mut x = m.get();
        x.peak = x.now;
        m.set(x);
        x
    });
    let t0 = if job.quiet { cpu() } else { 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(job)));
    let t1 = if job.quiet { cpu() } else { 0 };
    let after = MEM.with(|m| m.get());
    if let Err(p) = r {
        if p.is::<StepLimit>() {
            put("R limit");
        } else if p.is::<Injected>() {
            put("R inj");
        } else if let Some(s) = p.downcast_ref::<String>() {
            put(&format!("R panic {}", esc(s)));
        } else if let Some(s) = p.downcast_ref::<&str>() {
            put(&format!("R panic {}", esc(s)));
        } else {
            put("R panic ?");
        }
    }
    let c = CTX.with(|c| c.borrow_mut().pop().unwrap());
    let mut log = c.log;
    if c.quiet {
        let _ = writeln!(
            log,
            "q pulls={} acts={} hash={:x} peak={} total={} ns={}",
            c.pulls,
            c.acts,
            c.hash,
            after.peak - before.now,
            after.total - before.total,
            t1 - t0
        );
    }
    let _ = writeln!(log, "e {}", c.created as i64 - c.dropped as i64);
    log
}

pub type Entry = fn(&Job);

/// Counts what each thread allocates
pub struct Counting;

#[derive(Clone, Copy)]
struct Mem {
    now: i64,
    peak: i64,
    total: u64,
}

thread_local! {
    static MEM: Cell<Mem> = const { Cell::new(Mem { now: 0, peak: 0, total: 0 }) };
}

fn count(more: usize, less: usize) {
    let _ = MEM.try_with(|m| {
        let mut x = m.get();
        // while it grows, a block exists twice
        x.peak = x.peak.max(x.now + more as i64);
        x.now += more as i64 - less as i64;
        x.total += more as u64;
        m.set(x);
    });
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size(), 0);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size(), 0);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n, l.size());
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(0, l.size());
        std::alloc::System.dealloc(p, l)
    }
}

/// CPU time of this thread, in ns
fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // 3: CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

pub fn parse_job(words: &mut std::str::SplitAsciiWhitespace) -> Job {
    let mut job = Job {
        act_limit: u64::MAX,
        ..Job::default()
    };
    let mut items = vec![];
    for w in words {
        match w.as_bytes()[0] {
            b'e' => items.push(Item::Err(w[1..].parse().unwrap())),
            b'!' => items.push(Item::Panic),
            b'p' => job.panic_at_act = Some(w[1..].parse().unwrap()),
            b'l' => job.act_limit = w[1..].parse().unwrap(),
            b'q' => job.quiet = true,
            b'h' => job.hint = w[1..].parse().unwrap(),
            // nested run: Na<n>:<aux> in the n-th action, Np<n>:<aux> in the n-th pull
            b'N' => {
                let (n, aux) = w[2..].split_once(':').unwrap();
                job.nest.push(Nest {
                    in_action: w.as_bytes()[1] == b'a',
                    n: n.parse().unwrap(),
                    aux: aux.parse().unwrap(),
                });
            }
            // repetition: *<n>:<tok> <tok> ..; written r<n>x<tok>
            b'r' => {
                let (n, t) = w[1..].split_once('x').unwrap();
                let n: usize = n.parse().unwrap();
                let ts: Vec<u32> = t.split('.').map(|x| x.parse().unwrap()).collect();
                for _ in 0..n {
                    for t in &ts {
                        items.push(Item::Tok(*t));
                    }
                }
            }
            _ => items.push(Item::Tok(w.parse().unwrap())),
        }
    }
    job.items = Arc::new(items);
    job
}

/// The action of a token-classification program
pub fn note<T: std::fmt::Debug>(t: u32, x: T) {
    let ok = ctx(|c| {
        c.acts += 1;
        c.acts <= c.act_limit
    });
    if ok == Some(false) {
        std::panic::resume_unwind(Box::new(StepLimit));
    }
    put(&format!("c {} {}", t, esc(&format!("{:?}", x))));
}

fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    for i in (1..n).rev() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.swap(i, (x >> 16) as usize % (i + 1));
    }
    v
}

type Jobs = Vec<(u32, usize, Job)>;

fn parse_line(line: &str) -> (u32, usize, Job) {
    let mut w = line.split_ascii_whitespace();
    let case: u32 = w.next().unwrap().parse().unwrap();
    let entry: usize = w.next().unwrap().parse().unwrap();
    (case, entry, parse_job(&mut w))
}

fn perform(j: &(u32, usize, Job)) -> String {
    let f = TABLE.get().unwrap()[&j.0][j.1];
    let n = ACTIVE.fetch_add(1, Ordering::Relaxed) + 1;
    MAX_ACTIVE.fetch_max(n, Ordering::Relaxed);
    let log = observe(&j.2, f);
    ACTIVE.fetch_sub(1, Ordering::Relaxed);
    log
}

/// All jobs on `n` threads at once, each in an order of its own; the number of runs and the logs to
/// keep
fn on_threads(
    jobs: &Jobs,
    n: usize,
    seed: u64,
    rounds: usize,
    keep: &(dyn Fn(usize, &String) -> bool + Sync),
) -> (usize, Vec<(usize, String)>) {
    JITTER.store(true, Ordering::Relaxed);
    let barrier = Barrier::new(n);
    let barrier = &barrier;
    let res: Vec<(usize, Vec<(usize, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    RNG.with(|r| r.set(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (t as u64 + 1) << 32 | 1));
                    let mut kept = vec![];
                    let mut runs = 0;
                    let orders: Vec<Vec<usize>> = (0..rounds)
                        .map(|r| shuffled(jobs.len(), seed ^ ((t * 1000 + r) as u64 + 77)))
                        .collect();
                    barrier.wait();
                    for k in orders.into_iter().flatten() {
                        let log = perform(&jobs[k]);
                        runs += 1;
                        if keep(k, &log) {
                            kept.push((k, log));
                        }
                    }
                    (runs, kept)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    JITTER.store(false, Ordering::Relaxed);
    let runs = res.iter().map(|x| x.0).sum();
    (runs, res.into_iter().flat_map(|x| x.1).collect())
}

/// Performs jobs when it is dropped
struct AtDrop<'a> {
    jobs: &'a Jobs,
    todo: Vec<usize>,
    logs: &'a std::sync::Mutex<Vec<(usize, String)>>,
}

impl Drop for AtDrop<'_> {
    fn drop(&mut self) {
        for k in std::mem::take(&mut self.todo) {
            let log = perform(&self.jobs[k]);
            self.logs.lock().unwrap_or_else(|e| e.into_inner()).push((k, log));
        }
    }
}

/// All jobs in destructors, of a thread that unwinds or that ends
fn odd(jobs: &Jobs, seed: u64, base: &[String]) -> (usize, Vec<(usize, String)>) {
    thread_local! {
        static LAST: std::cell::RefCell<Option<AtDrop<'static>>> = const { std::cell::RefCell::new(None) };
    }
    let logs = std::sync::Mutex::new(vec![]);
    let order = shuffled(jobs.len(), seed);
    let (a, b) = order.split_at(order.len() / 2);
    for c in a.chunks(8) {
        let g = AtDrop { jobs, todo: c.to_vec(), logs: &logs };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _g = g;
            std::panic::resume_unwind(Box::new(()));
        }));
    }
    for c in b.chunks(8) {
        let g = AtDrop { jobs, todo: c[1..].to_vec(), logs: &logs };
        // the destructors of a thread's local values have run when it is joined
        let g: AtDrop<'static> = unsafe { std::mem::transmute(g) };
        let (first, logs) = (c[0], &logs);
        std::thread::scope(|s| {
            let h = s.spawn(move || {
                // the monitors' own local values are made first, so that they live longer
                ctx(|_| ());
                RNG.with(|r| r.set(seed | 1));
                LAST.with(|l| *l.borrow_mut() = Some(g));
                let log = perform(&jobs[first]);
                logs.lock().unwrap_or_else(|e| e.into_inner()).push((first, log));
            });
            let _ = h.join();
        });
    }
    let logs = std::mem::take(&mut *logs.lock().unwrap_or_else(|e| e.into_inner()));
    let runs = logs.len();
    let mut bad: Vec<(usize, String)> = logs.into_iter().filter(|(k, log)| *log != base[*k]).collect();
    if runs < jobs.len() {
        bad.push((order[0], format!("only {} of {} runs in destructors came to an end", runs, jobs.len())));
    }
    (runs, bad)
}

/// Main loop of a test program: reads the jobs file (one `<case> <entry> <items>..`
/// per line; auxiliary jobs for nested runs start with `@`), performs each, appends the log
/// of each to the log file.
///
/// Arguments: jobs file, log file, stack size, then phases performed after the first
/// sequential pass, whose logs must equal those of that pass:
///   cold:<n>:<seed>   (only as the first phase) all jobs on n threads, before the first pass
///   hist:<seed>       all jobs again in another order, on the same thread
///   odd:<seed>        all jobs again in destructors, while unwinding or when a thread ends
///   soak:<n>:<seed>   n runs of the shortest jobs of one grammar, on the same thread
///   threads:<n>:<seed>:<rounds>   on n threads at once, each in an order of its own
/// A phase reports mismatches as `X <phase> <job> <log>` and ends with `Y <phase> <runs> ..`.
pub fn main(cases: &'static [(u32, &'static [Entry])]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    // "-": only the results of the phases, to standard output
    let brief = args[2] == "-";
    let mut out: Box<dyn std::io::Write + Send> = if brief {
        Box::new(std::io::stdout())
    } else {
        Box::new(std::fs::File::create(&args[2]).unwrap())
    };
    let stack: usize = args.get(3).map_or(8 << 20, |s| s.parse().unwrap());
    let _ = TABLE.set(cases.iter().copied().collect());
    let mut jobs: Jobs = vec![];
    let mut aux: Jobs = vec![];
    for l in text.lines() {
        match l.strip_prefix('@') {
            Some(l) => aux.push(parse_line(l)),
            None => jobs.push(parse_line(l)),
        }
    }
    let _ = AUX.set(aux);
    let jobs = &jobs;
    let phases = &args[4.min(args.len())..];
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                // the first use of the parsers, by several threads at once
                let cold: Option<Vec<(usize, String)>> = phases.first().and_then(|ph| {
                    let w: Vec<&str> = ph.split(':').collect();
                    if w[0] != "cold" {
                        return None;
                    }
                    Some(on_threads(jobs, w[1].parse().unwrap(), w[2].parse().unwrap(), 1, &|_, _| true).1)
                });
                let mut base = vec![];
                for (n, j) in jobs.iter().enumerate() {
                    let log = perform(j);
                    let mut buf = format!("J {}\n", n);
                    buf.push_str(&log);
                    buf.push_str(".\n");
                    if !brief {
                        out.write_all(buf.as_bytes()).unwrap();
                    }
                    if !phases.is_empty() {
                        base.push(log);
                    }
                }
                let base = &base;
                let mut cold = cold;
                for (pn, ph) in phases.iter().enumerate() {
                    let mut bad: Vec<(usize, String)> = vec![];
                    let mut runs = 0;
                    let w: Vec<&str> = ph.split(':').collect();
                    if w[0] == "cold" {
                        for (k, log) in cold.take().unwrap_or_default() {
                            runs += 1;
                            if log != base[k] {
                                bad.push((k, log));
                            }
                        }
                    } else if w[0] == "hist" {
                        for k in shuffled(jobs.len(), w[1].parse().unwrap()) {
                            let log = perform(&jobs[k]);
                            runs += 1;
                            if log != base[k] {
                                bad.push((k, log));
                            }
                        }
                    } else if w[0] == "soak" {
                        let (n, seed): (usize, u64) = (w[1].parse().unwrap(), w[2].parse().unwrap());
                        let case = jobs[seed as usize % jobs.len()].0;
                        let mut ks: Vec<usize> = (0..jobs.len()).filter(|k| jobs[*k].0 == case).collect();
                        ks.sort_by_key(|k| base[*k].len());
                        ks.truncate(10);
                        let mut round = 0;
                        while runs < n && bad.is_empty() {
                            round += 1;
                            for k in shuffled(ks.len(), seed ^ round) {
                                let log = perform(&jobs[ks[k]]);
                                runs += 1;
                                if log != base[ks[k]] {
                                    bad.push((ks[k], format!("(after {} runs) {}", runs, log)));
                                }
                            }
                        }
                    } else if w[0] == "odd" {
                        (runs, bad) = odd(jobs, w[1].parse().unwrap(), base);
                    } else {
                        (runs, bad) = on_threads(
                            jobs,
                            w[1].parse().unwrap(),
                            w[2].parse().unwrap(),
                            w[3].parse().unwrap(),
                            &|k, log| *log != base[k],
                        );
                    }
                    let mut buf = String::new();
                    for (k, log) in bad.iter().take(20) {
                        let _ = writeln!(buf, "X {} {} {}", pn, k, esc(log));
                    }
                    let _ = writeln!(buf, "Y {} {} {}", pn, runs, MAX_ACTIVE.load(Ordering::Relaxed));
                    out.write_all(buf.as_bytes()).unwrap();
                }
            })
            .unwrap()
            .join()
            .unwrap();
    });
}
