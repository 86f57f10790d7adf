//! Shared machinery: seeded generators, the checking allocator, the panic classifier, the progress
//! watchdog and the result file. Nothing in here knows about a particular property.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- random numbers

/// splitmix64 seeded xorshift; deterministic from VERIF_SEED, suite and case number.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    mix64(h)
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    mix64(h ^ s.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix64(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix64(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        while v.len() + 8 <= len {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        while v.len() < len {
            v.push(self.next() as u8);
        }
        v
    }
    /// values crowded around the places where encodings change length
    pub fn edgy64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(300) as u64,
            1 => {
                let s = self.below(64) as u32;
                (1u64 << s).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            2 => {
                let s = (7 * self.below(10)) as u32;
                (1u64 << s).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            3 => u64::MAX - self.below(3) as u64,
            4 => self.next() >> self.below(64),
            _ => self.next(),
        }
    }
    pub fn edgy32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(300) as u32,
            1 => (1u32 << self.below(32)).wrapping_add(self.below(3) as u32).wrapping_sub(1),
            2 => (1u32 << (7 * self.below(5))).wrapping_add(self.below(3) as u32).wrapping_sub(1),
            3 => u32::MAX - self.below(3) as u32,
            4 => self.u32() >> self.below(32),
            _ => self.u32(),
        }
    }
    /// byte strings that share prefixes, contain 0x00 / 0x7f / 0x80 / 0xff, and may be empty
    pub fn key(&mut self, max: usize) -> Vec<u8> {
        if max > 0 && self.chance(1, 6) {
            return self.special(max);
        }
        let len = match self.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => self.range(0, max.min(12)),
            _ => self.range(0, max),
        };
        let style = self.below(5);
        (0..len)
            .map(|_| match style {
                0 => b'a' + self.below(3) as u8,
                1 => *self.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff]),
                2 => b'0' + self.below(10) as u8,
                3 => {
                    if self.chance(1, 2) { 0xff } else { self.next() as u8 }
                }
                _ => self.next() as u8,
            })
            .collect()
    }
    /// contents somebody might treat specially: one byte over and over, integers, patterns, a single set byte
    pub fn special(&mut self, max: usize) -> Vec<u8> {
        let len = match self.below(3) {
            0 => *self.pick(&[4usize, 8, 8, 16]),
            1 => *self.pick(&[1usize, 2, 3, 5, 7, 9, 12, 13, 15, 17, 20, 24, 31, 32, 33, 64]),
            _ => self.range(0, max.min(300)),
        }
        .min(max);
        let small = if self.chance(1, 2) { self.below(4) as u64 } else { self.next() >> self.below(64) };
        let word = self.next().to_le_bytes();
        let mut v = match self.below(9) {
            0 | 1 => vec![0; len],
            2 => vec![0xff; len],
            3 => vec![word[0]; len],
            4 => (0..len).map(|i| small.to_be_bytes()[8 - (len - i).min(8)] * (len - i <= 8) as u8).collect(),
            5 => (0..len).map(|i| small.to_le_bytes()[i.min(7)] * (i < 8) as u8).collect(),
            6 => (0..len).map(|i| word[0].wrapping_add(i as u8)).collect(),
            7 => {
                let p = 2 + self.below(4);
                (0..len).map(|i| word[i % p]).collect()
            }
            _ => vec![0; len],
        };
        if len > 0 && self.chance(1, 6) {
            let at = self.below(len);
            v[at] ^= 1 << self.below(8);
        }
        v
    }
    /// lengths next to powers of two, where a narrowed count or an internal buffer changes behaviour
    pub fn edge_len(&mut self, big: usize) -> usize {
        let top = usize::BITS - big.max(8).leading_zeros();
        let e = 1usize << self.range(2, top as usize);
        (e + self.below(5)).saturating_sub(2).min(big)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- checking allocator

/// Allocator of the harness process. Every block carries its layout in front of the user memory, so a
/// release with another layout, a second release or a release of memory that was never handed out is
/// seen at once; fresh memory is filled with 0xA5 and released memory with 0xDD, so reads of either
/// show up as wrong values; the live-byte count lets a suite require that all memory comes back.
/// Under ASan / TSan / Miri (`--cfg plain_alloc`) it only counts.
pub struct CheckAlloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    /// set on the watchdog's thread, whose own memory must not show up in the live-byte count
    static UNCOUNTED: Cell<bool> = const { Cell::new(false) };
    /// bytes taken less bytes given back by this thread
    static OWN: Cell<usize> = const { Cell::new(1 << 40) };
    /// set on threads that run whole cases of their own beside each other
    static SOLO: Cell<bool> = const { Cell::new(false) };
    /// the allocation in progress is a giant one to be zeroed
    #[cfg(not(plain_alloc))]
    static ZEROED: Cell<bool> = const { Cell::new(false) };
}

/// the next request of this size or more is refused, as by a system that is out of memory
pub static REFUSED: AtomicUsize = AtomicUsize::new(usize::MAX);

fn count_in(bytes: usize) {
    if !UNCOUNTED.try_with(|c| c.get()).unwrap_or(false) {
        if LIVE.fetch_add(bytes, Ordering::Relaxed) > LIMIT.load(Ordering::Relaxed) {
            die("live memory over the limit of the workload");
        }
        TOTAL.fetch_add(1, Ordering::Relaxed);
    }
    let _ = OWN.try_with(|c| c.set(c.get().wrapping_add(bytes)));
}

fn count_out(bytes: usize) {
    if !UNCOUNTED.try_with(|c| c.get()).unwrap_or(false) {
        LIVE.fetch_sub(bytes, Ordering::Relaxed);
    }
    let _ = OWN.try_with(|c| c.set(c.get().wrapping_sub(bytes)));
}

#[cfg(not(plain_alloc))]
const MAGIC_LIVE: u64 = 0x5AFE_B10C_0000_A110;
#[cfg(not(plain_alloc))]
const MAGIC_DEAD: u64 = 0xDEAD_B10C_0000_F4EE;

fn die(msg: &str) -> ! {
    // no allocation in here: the allocator is what failed
    let _ = std::io::Write::write_all(&mut std::io::stderr(), b"VERIF-ALLOC: ");
    let _ = std::io::Write::write_all(&mut std::io::stderr(), msg.as_bytes());
    let _ = std::io::Write::write_all(&mut std::io::stderr(), b"\n");
    std::process::abort()
}

/// Blocks of this size and more are not filled with a pattern, but for their ends: their pages stay untouched.
#[cfg(not(plain_alloc))]
const GIANT: usize = 1 << 26;

#[cfg(not(plain_alloc))]
unsafe fn fill(p: *mut u8, size: usize, byte: u8) {
    if size < GIANT {
        p.write_bytes(byte, size);
    } else {
        p.write_bytes(byte, 1 << 16);
        p.add(size - (1 << 16)).write_bytes(byte, 1 << 16);
    }
}

/// Zeroed memory of a giant size, or nothing when the system (or this build) does not have it.
pub fn giant(size: usize) -> Option<Vec<u8>> {
    if cfg!(plain_alloc) {
        return None;
    }
    let l = Layout::from_size_align(size, 1).ok()?;
    unsafe {
        let p = std::alloc::alloc_zeroed(l);
        if p.is_null() { None } else { Some(Vec::from_raw_parts(p, size, size)) }
    }
}

/// (the system has zeroed pages at hand for ordinary alignments only)
#[cfg(not(plain_alloc))]
fn whole_align(layout: Layout) -> usize {
    if layout.size() >= GIANT { layout.align().max(16) } else { layout.align().max(32) }
}

#[cfg(not(plain_alloc))]
fn header(layout: Layout) -> usize {
    layout.align().max(32)
}

unsafe impl GlobalAlloc for CheckAlloc {
    #[cfg(plain_alloc)]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() >= REFUSED.load(Ordering::Relaxed) && REFUSED.swap(usize::MAX, Ordering::Relaxed) != usize::MAX {
            return std::ptr::null_mut();
        }
        let p = System.alloc(layout);
        if !p.is_null() {
            count_in(layout.size());
        }
        p
    }
    #[cfg(plain_alloc)]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        count_out(layout.size());
        System.dealloc(ptr, layout)
    }

    #[cfg(not(plain_alloc))]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() >= REFUSED.load(Ordering::Relaxed) && REFUSED.swap(usize::MAX, Ordering::Relaxed) != usize::MAX {
            return std::ptr::null_mut();
        }
        let h = header(layout);
        let full = match layout.size().checked_add(h).map(|n| Layout::from_size_align(n, whole_align(layout))) {
            Some(Ok(l)) => l,
            _ => return std::ptr::null_mut(),
        };
        let base = if ZEROED.with(|z| z.get()) { System.alloc_zeroed(full) } else { System.alloc(full) };
        if base.is_null() {
            return base;
        }
        count_in(layout.size());
        let user = base.add(h);
        let meta = user.sub(32) as *mut u64;
        meta.write(MAGIC_LIVE);
        meta.add(1).write(layout.size() as u64);
        meta.add(2).write(layout.align() as u64);
        meta.add(3).write(!MAGIC_LIVE);
        if ZEROED.with(|z| z.replace(false)) {
            return user;
        }
        fill(user, layout.size(), 0xA5);
        user
    }
    #[cfg(not(plain_alloc))]
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let user = if layout.size() < GIANT {
            self.alloc(layout)
        } else {
            ZEROED.with(|z| z.set(true));
            let user = self.alloc(layout);
            ZEROED.with(|z| z.set(false));
            return user;
        };
        if !user.is_null() {
            user.write_bytes(0, layout.size());
        }
        user
    }
    #[cfg(not(plain_alloc))]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if (ptr as usize) % 16 != 0 {
            die("release of a pointer that was never allocated");
        }
        let meta = ptr.sub(32) as *mut u64;
        if meta.read() == MAGIC_DEAD {
            die("double release");
        }
        if meta.read() != MAGIC_LIVE || meta.add(3).read() != !MAGIC_LIVE {
            die("release of a pointer that was never allocated, or a write in front of the block");
        }
        if meta.add(1).read() != layout.size() as u64 || meta.add(2).read() != layout.align() as u64 {
            die("release with a layout that is not the one of the allocation");
        }
        count_out(layout.size());
        meta.write(MAGIC_DEAD);
        fill(ptr, layout.size(), 0xDD);
        let h = header(layout);
        System.dealloc(ptr.sub(h), Layout::from_size_align_unchecked(layout.size() + h, whole_align(layout)))
    }
}

pub fn live_bytes() -> usize {
    if SOLO.with(|c| c.get()) {
        return OWN.with(|c| c.get());
    }
    LIVE.load(Ordering::Relaxed)
}

/// Runs one case of a suite on this thread, beside others; its memory is counted for this thread alone.
pub fn solo(s: &Suite, ctx: &mut Ctx) -> R {
    SOLO.with(|c| c.set(true));
    LAST_PANIC.with(|c| c.set(None));
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(ctx)));
    SOLO.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(_) => match classify_panic() {
            Outcome::Violated(m) => Err(m),
            Outcome::HarnessBug(m) => {
                if let Ok(mut g) = HARNESS_BUG.lock() {
                    g.get_or_insert(m);
                }
                Ok(())
            }
            Outcome::Held => Ok(()),
        },
    }
}

/// what went wrong in the harness itself on a thread
pub static HARNESS_BUG: Mutex<Option<String>> = Mutex::new(None);

pub fn total_allocs() -> u64 {
    TOTAL.load(Ordering::Relaxed)
}

pub fn set_alloc_limit(bytes: usize) {
    LIMIT.store(bytes, Ordering::Relaxed)
}

// ---------------------------------------------------------------- verdict plumbing

/// Err(text) is a violation of the property, with what was observed.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Payload of a panic raised by a stand-in (source, sink, comparator) that was called more often
/// than any terminating run could: a logical step bound, not a clock.
pub struct StepLimit(pub String);

pub struct Ctx<'a> {
    pub rng: Rng,
    pub obs: &'a mut BTreeMap<&'static str, u64>,
    /// 0 = Miri, 1 = quick, 2 = thorough
    pub scale: usize,
    pub case: u64,
    pub seed: u64,
    pub fp: u64,
    pub nontrivial: bool,
    pub sample: String,
}

impl<'a> Ctx<'a> {
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.obs.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.obs.entry(name).or_insert(0);
        if *e < n {
            *e = n;
        }
    }
    pub fn mix(&mut self, x: u64) {
        self.fp = mix64(self.fp ^ x);
    }
    /// pick by scale: miri, quick, thorough
    pub fn by<T: Copy>(&self, miri: T, quick: T, thorough: T) -> T {
        match self.scale {
            0 => miri,
            1 => quick,
            _ => thorough,
        }
    }
}

#[derive(Clone, Copy)]
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    /// how a case is made and when it counts as non-trivial
    pub rule: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// number of cases: (miri, quick, thorough); 0 leaves the suite out
    pub cases: (u64, u64, u64),
    /// events that must have been seen for the run to mean anything (not required under Miri)
    pub must_see: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: Cell<Option<(String, String, Trace)>> = const { Cell::new(None) };
    // inside `no_panic`, where nobody asks who panicked (a backtrace takes Miri seconds)
    static EXPECTED: Cell<bool> = const { Cell::new(false) };
}
type Trace = Option<std::sync::Arc<std::backtrace::Backtrace>>;
static ANY_THREAD_PANIC: Mutex<Option<(String, String, Trace)>> = Mutex::new(None);

/// A panic is reported at the caller of a function marked `track_caller` (every `Index::index` is): who
/// really panicked is the innermost frame that belongs to the repository or to the harness.
fn panicked_in_repo(trace: &std::backtrace::Backtrace) -> Option<String> {
    let text = format!("{}", trace);
    let mut func = String::new();
    let mut at = vec![];
    for line in text.lines() {
        match line.trim().strip_prefix("at ") {
            Some(file) => at.push((func.clone(), file.to_string())),
            None => func = line.trim().to_string(),
        }
    }
    // the frames above this one are the hook's own
    let hook = at.iter().position(|(f, _)| f.contains("panic_with_hook") || f.contains("rust_begin_unwind"))?;
    for (_, file) in at.drain(hook..) {
        if file.contains("/rustc/") || file.contains("/rustlib/") || file.contains("/library/") {
            continue;
        }
        return if file.contains("/src/kit.rs") || file.contains("harness/src/") || file.starts_with("./src/") || file.starts_with("src/") {
            None
        } else {
            Some(file)
        };
    }
    None
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = info.payload().downcast_ref::<StepLimit>() {
            format!("STEP-LIMIT {}", s.0)
        } else {
            "panic with another payload".to_string()
        };
        let trace = if loc.starts_with("src/") && !msg.starts_with("STEP-LIMIT") && !EXPECTED.with(|e| e.get()) {
            Some(std::sync::Arc::new(std::backtrace::Backtrace::force_capture()))
        } else {
            None
        };
        if let Ok(mut g) = ANY_THREAD_PANIC.lock() {
            if g.is_none() {
                *g = Some((loc.clone(), msg.clone(), trace.clone()));
            }
        }
        LAST_PANIC.with(|c| c.set(Some((loc, msg, trace))));
    }));
}

pub enum Outcome {
    Held,
    Violated(String),
    /// the harness itself is at fault: never reported as a violation
    HarnessBug(String),
}

fn classify_panic() -> Outcome {
    let (loc, msg, trace) = LAST_PANIC
        .with(|c| c.take())
        .or_else(|| ANY_THREAD_PANIC.lock().ok().and_then(|mut g| g.take()))
        .unwrap_or(("?".into(), "?".into(), None));
    if msg.starts_with("STEP-LIMIT") {
        return Outcome::Violated(format!("no progress: {}", msg));
    }
    if let Some(place) = trace.and_then(|t| panicked_in_repo(&t)) {
        return Outcome::Violated(format!("panicked at {} (called from {}): {}", place, loc, msg));
    }
    // harness sources are compiled with paths relative to its own package
    if loc.starts_with("src/") || loc.contains("verif/harness") {
        Outcome::HarnessBug(format!("{} at {}", msg, loc))
    } else {
        Outcome::Violated(format!("panicked at {}: {}", loc, msg))
    }
}

/// Calls into the code under test where a panic is one of the answers the caller wants to see.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = EXPECTED.with(|e| e.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECTED.with(|e| e.set(outer));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<StepLimit>().is_some() {
                std::panic::resume_unwind(p)
            }
            let (loc, msg, _) = LAST_PANIC.with(|c| c.take()).unwrap_or_default();
            if let Ok(mut g) = ANY_THREAD_PANIC.lock() {
                *g = None;
            }
            Err(format!("{} at {}", msg, loc))
        }
    }
}

/// Drops a value while its thread unwinds from a panic of the caller.
pub fn drop_unwinding<T>(x: T) {
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _x = x;
        std::panic::resume_unwind(Box::new(()))
    }));
}

/// Something above `n`: just above it, far above it, or equal to something up to it in the lower bits.
pub fn beyond(r: &mut Rng, n: usize) -> usize {
    match r.below(4) {
        0 => n + 1 + r.below(9),
        1 => usize::MAX - r.below(20),
        _ => {
            let x = (1usize << *r.pick(&[8, 16, 31, 32, 33, 40, 48, 62, 63])) + r.below(n + 2);
            if x > n { x } else { n + 1 }
        }
    }
}

// ---------------------------------------------------------------- watchdog

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_TEXT: Mutex<String> = Mutex::new(String::new());
static DONE: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
/// set while a case waits for a process of its own, with a limit of its own
pub static WAITS_OUTSIDE: AtomicBool = AtomicBool::new(false);

fn cpu_ticks(path: &str) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(path).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?, f[0].chars().next()?))
}

/// Two ways a case can fail to end, both decided without a wall-clock deadline:
/// * all threads but this one sleep in the kernel and none used any CPU over 12 consecutive samples
///   of the same case. Suites never sleep or wait for anything outside the process, so nobody is
///   left to wake them: a deadlock.
/// * one case consumed `cpu_limit` seconds of CPU time, thousands of times its ordinary cost.
pub fn start_watchdog(out: String, cpu_limit: u64) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            UNCOUNTED.with(|c| c.set(true));
            READY.store(true, Ordering::SeqCst);
            let me = std::fs::read_link("/proc/thread-self").map(|p| p.file_name().unwrap().to_string_lossy().to_string()).unwrap_or_default();
            let (mut case, mut base, mut last, mut idle) = (u64::MAX, 0u64, 0u64, 0u32);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(1000));
                if DONE.load(Ordering::SeqCst) {
                    return;
                }
                let now = match cpu_ticks("/proc/self/stat") {
                    Some((t, _)) => t,
                    None => continue,
                };
                let c = CASE_NO.load(Ordering::SeqCst);
                if c != case {
                    case = c;
                    base = now;
                    last = now;
                    idle = 0;
                    continue;
                }
                let mut asleep = !WAITS_OUTSIDE.load(Ordering::SeqCst);
                if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
                    for t in dir.flatten() {
                        let id = t.file_name().to_string_lossy().to_string();
                        if id == me {
                            continue;
                        }
                        match cpu_ticks(&format!("/proc/self/task/{}/stat", id)) {
                            Some((_, 'S')) => {}
                            _ => asleep = false,
                        }
                    }
                } else {
                    asleep = false;
                }
                // the watchdog itself costs at most a tick or two
                if asleep && now <= last + 2 {
                    idle += 1;
                } else {
                    idle = 0;
                }
                last = now;
                let why = if idle >= 12 {
                    Some("deadlock: every thread sleeps and nothing is left to wake them".to_string())
                } else if now - base > cpu_limit * 100 {
                    Some(format!("no progress: one case used more than {} s of CPU time", cpu_limit))
                } else {
                    None
                };
                if let Some(why) = why {
                    let text = CASE_TEXT.lock().map(|g| g.clone()).unwrap_or_default();
                    let _ = std::fs::write(format!("{}.hang", out), format!("{}\n{}\n", text, why));
                    eprintln!("VERIF-HANG {} {}", text, why);
                    unsafe { libc_exit(42) }
                }
            }
        })
        .unwrap();
    // the thread's own start-up allocations happen before the first case
    while !READY.load(Ordering::SeqCst) {
        std::thread::yield_now();
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
}
unsafe fn libc_exit(code: i32) -> ! {
    _exit(code)
}

// ---------------------------------------------------------------- runner

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct RunArgs {
    pub prop: String,
    pub seed: u64,
    pub scale: usize,
    pub out: String,
    pub only_suite: Option<String>,
    pub only_case: Option<u64>,
    /// share of the configured number of cases, in percent
    pub pct: u64,
    /// (i, n): run the cases with number = i mod n
    pub shard: (u64, u64),
}

pub fn run(suites: &[Suite], a: &RunArgs) -> i32 {
    install_panic_hook();
    set_alloc_limit(6 << 30);
    let mut body = String::new();
    let mut violation: Option<(String, u64, String)> = None;
    let mut broken: Option<String> = None;
    let mut unseen: Option<String> = None;
    let progress = format!("{}.progress", a.out);
    let mut progress_file = std::fs::File::create(&progress).ok();
    if !cfg!(miri) {
        start_watchdog(a.out.clone(), if a.scale >= 2 { 240 } else { 90 });
    }
    for s in suites.iter().filter(|s| s.prop == a.prop) {
        if let Some(o) = &a.only_suite {
            if o != s.name {
                continue;
            }
        }
        let conf = match a.scale {
            0 => s.cases.0,
            1 => s.cases.1,
            _ => s.cases.2,
        };
        if conf == 0 {
            continue;
        }
        let n = (conf * a.pct / 100).max(1);
        let mut obs: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut done = 0u64;
        let mut nontrivial = 0u64;
        for case in 0..n {
            if case % a.shard.1 != a.shard.0 {
                continue;
            }
            if let Some(c) = a.only_case {
                if c != case {
                    continue;
                }
            }
            CASE_NO.fetch_add(1, Ordering::SeqCst);
            if let Ok(mut g) = CASE_TEXT.lock() {
                g.clear();
                let _ = write!(g, "{} {}", s.name, case);
            }
            if let Some(f) = progress_file.as_mut() {
                use std::io::{Seek, Write};
                let _ = f.rewind();
                let _ = f.write_all(format!("{:<40} {:<20}\n", s.name, case).as_bytes());
            }
            let mut ctx = Ctx {
                rng: Rng::new(mix64(a.seed) ^ hash_str(s.prop) ^ hash_str(s.name).rotate_left(17) ^ mix64(case.wrapping_mul(0x1234_5678_9abc_def1))),
                obs: &mut obs,
                scale: a.scale,
                case,
                seed: a.seed,
                fp: 0,
                nontrivial: false,
                sample: String::new(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| (s.run)(&mut ctx)));
            let out = match r {
                Ok(Ok(())) => Outcome::Held,
                Ok(Err(m)) => Outcome::Violated(m),
                Err(_) => classify_panic(),
            };
            let out = match (out, HARNESS_BUG.lock().ok().and_then(|mut g| g.take())) {
                (Outcome::Held, Some(m)) => Outcome::HarnessBug(m),
                (o, _) => o,
            };
            if let Ok(mut g) = ANY_THREAD_PANIC.lock() {
                *g = None;
            }
            let (fp, nt, sample) = (ctx.fp, ctx.nontrivial, std::mem::take(&mut ctx.sample));
            drop(ctx);
            done += 1;
            if nt && seen.insert(fp) {
                nontrivial += 1;
                if samples.len() < 3 && !sample.is_empty() {
                    samples.push(sample.clone());
                }
            }
            match out {
                Outcome::Held => {}
                Outcome::Violated(m) => {
                    violation = Some((s.name.to_string(), case, format!("{}{}{}", m, if sample.is_empty() { "" } else { " | case: " }, sample)));
                    break;
                }
                Outcome::HarnessBug(m) => {
                    broken = Some(format!("suite {} case {}: {}", s.name, case, m));
                    break;
                }
            }
        }
        if violation.is_none() && broken.is_none() && a.scale > 0 && a.only_case.is_none() && a.shard.1 == 1 && a.pct >= 100 {
            for m in s.must_see {
                if obs.get(m).copied().unwrap_or(0) == 0 && unseen.is_none() {
                    unseen = Some(format!("suite {}: event '{}' was never observed", s.name, m));
                }
            }
        }
        if !body.is_empty() {
            body.push(',');
        }
        let _ = write!(body, "{{\"suite\":{},\"rule\":{},\"cases\":{},\"distinct_nontrivial\":{},\"events\":{{", json_str(s.name), json_str(s.rule), done, nontrivial);
        for (i, (k, v)) in obs.iter().enumerate() {
            let _ = write!(body, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
        }
        let mut fps: Vec<u8> = Vec::with_capacity(seen.len() * 8);
        for f in seen.iter().take(4_000_000) {
            fps.extend_from_slice(&f.to_le_bytes());
        }
        let _ = std::fs::write(format!("{}.{}.fps", a.out, s.name), fps);
        let _ = write!(body, "}},\"samples\":[{}]}}", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        if violation.is_some() || broken.is_some() {
            break;
        }
    }
    DONE.store(true, Ordering::SeqCst);
    // a violation another suite found outranks an event that did not come up
    if violation.is_none() && broken.is_none() {
        broken = unseen;
    }
    if body.is_empty() && broken.is_none() && a.only_case.is_none() {
        broken = Some(format!("no suite ran for {}", a.prop));
    }
    let mut doc = format!("{{\"suites\":[{}]", body);
    if let Some((s, c, m)) = &violation {
        let _ = write!(doc, ",\"violation\":{{\"suite\":{},\"case\":{},\"what\":{}}}", json_str(s), c, json_str(m));
    }
    if let Some(m) = &broken {
        let _ = write!(doc, ",\"broken\":{}", json_str(m));
    }
    doc.push('}');
    if std::fs::write(&a.out, doc).is_err() {
        return 3;
    }
    if let Some((s, c, m)) = &violation {
        eprintln!("VERIF-VIOLATION {} suite={} case={} {}", a.prop, s, c, m);
        return 1;
    }
    if let Some(m) = &broken {
        eprintln!("VERIF-BROKEN {}", m);
        return 3;
    }
    0
}

/// One to three characters somebody might take for padding, an end, or a mark around a text.
pub fn padding(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    (0..n)
        .map(|_| {
            *r.pick(&[
                '\0', ' ', '\n', '\t', '\r', '\u{b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{301}', '\u{200b}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{10ffff}', 'é', 'ß',
                '"', '\'', '\\', '%', '{', '}', '.', '/', '#',
            ])
        })
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 48 {
            let _ = write!(s, "..({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{:02x}", x);
    }
    s
}

/// A copy of `b` that starts at `addr % 16 == align`: (backing, offset)
pub fn at_align(b: &[u8], align: usize) -> (Vec<u8>, usize) {
    let mut v = vec![0x5Cu8; b.len() + 48];
    let base = v.as_ptr() as usize % 16;
    let off = (align + 16 - base) % 16 + 16;
    v[off..off + b.len()].copy_from_slice(b);
    (v, off)
}
