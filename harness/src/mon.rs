//! The monitoring runtime: the allocator monitor, the flight recorder, the
//! executed-region counters, the watchdog, and the bookkeeping of cases,
//! observations and verdicts.

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::time::{Duration, Instant};

use crate::rng::{hash_bytes, mix, Rng};

// ---------------------------------------------------------------- allocator

pub struct Monitor;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static REQUESTS: AtomicUsize = AtomicUsize::new(0);

/// A call into the code under test may not have more than this in use, nor ask
/// for it at once: no workload gives it an input that could need a tenth of it.
const EXCESS: usize = 2 << 30;

fn grew(size: usize) {
    let live = LIVE.fetch_add(size, Relaxed) + size;
    if (size > EXCESS || live > EXCESS) && TICKET.load(SeqCst) & 1 == 1 {
        die(EXIT_EXCESS);
    }
    PEAK.fetch_max(live, Relaxed);
    LARGEST.fetch_max(size, Relaxed);
    REQUESTS.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        grew(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        grew(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size(), Relaxed);
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        LIVE.fetch_sub(layout.size(), Relaxed);
        grew(size);
        System.realloc(pointer, layout, size)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Memory {
    /// Bytes in use now.
    pub live: usize,
    /// The most bytes in use at once since the last reset.
    pub peak: usize,
    /// The largest single request since the last reset.
    pub largest: usize,
    /// The number of requests since the last reset.
    pub requests: usize,
}

pub fn memory() -> Memory {
    Memory {
        live: LIVE.load(Relaxed),
        peak: PEAK.load(Relaxed),
        largest: LARGEST.load(Relaxed),
        requests: REQUESTS.load(Relaxed),
    }
}

pub fn memory_reset() -> Memory {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    LARGEST.store(0, Relaxed);
    REQUESTS.store(0, Relaxed);
    memory()
}

// ------------------------------------------------- executed-region counters

#[cfg(vh_cov)]
mod regions {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *mut u64;
        fn __llvm_profile_end_counters() -> *mut u64;
    }

    pub fn range() -> (*mut u64, usize) {
        unsafe {
            let begin = __llvm_profile_begin_counters();
            let end = __llvm_profile_end_counters();
            (begin, (end as usize - begin as usize) / 8)
        }
    }
}

/// The number of executed regions so far, over all instrumented code, or
/// nothing if this build is not instrumented.
pub fn steps() -> Option<u64> {
    #[cfg(vh_cov)]
    {
        let (begin, count) = regions::range();
        let mut sum = 0u64;
        for i in 0..count {
            sum = sum.wrapping_add(unsafe { std::ptr::read_volatile(begin.add(i)) });
        }
        Some(sum)
    }
    #[cfg(not(vh_cov))]
    None
}

/// Clear the counters.
pub fn steps_clear() {
    #[cfg(vh_cov)]
    {
        let (begin, count) = regions::range();
        for i in 0..count {
            unsafe { std::ptr::write_volatile(begin.add(i), 0) };
        }
    }
}

/// A set of (region, order of magnitude of its count) pairs seen so far.
pub struct Frontier {
    seen: Vec<u8>,
    pub found: u64,
}

impl Frontier {
    pub fn new() -> Self {
        Frontier {
            seen: vec![],
            found: 0,
        }
    }

    /// Record what the counters hold and tell if any of it is new.
    pub fn absorb(&mut self) -> bool {
        let mut new = false;
        #[cfg(vh_cov)]
        {
            let (begin, count) = regions::range();
            if self.seen.len() != count {
                self.seen = vec![0; count];
            }
            for i in 0..count {
                let value = unsafe { std::ptr::read_volatile(begin.add(i)) };
                if value == 0 {
                    continue;
                }
                let bucket = match value {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if self.seen[i] & bucket == 0 {
                    self.seen[i] |= bucket;
                    self.found += 1;
                    new = true;
                }
            }
        }
        let _ = &mut self.seen;
        let _ = &mut new;
        new
    }
}

// ---------------------------------------------------------- flight recorder

const TEXT: usize = 64;
const INPUT: usize = 4096;
const RECORD: usize = 4096 + (1 << 20);

/// What survives a crash of this process: the phase (`T` while code under test
/// runs), the case, and its input.
struct Recorder(*mut u8);

unsafe impl Send for Recorder {}
unsafe impl Sync for Recorder {}

#[cfg(not(miri))]
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
}

impl Recorder {
    fn new(path: Option<&str>) -> Self {
        #[cfg(not(miri))]
        if let Some(path) = path {
            use std::os::fd::AsRawFd;
            let file = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .expect("cannot open the flight recorder");
            file.set_len(RECORD as u64)
                .expect("cannot size the flight recorder");
            let pointer = unsafe { mmap(std::ptr::null_mut(), RECORD, 3, 1, file.as_raw_fd(), 0) };
            assert!(pointer as isize != -1, "cannot map the flight recorder");
            return Recorder(pointer);
        }
        let _ = path;
        // In a static, for the leak detectors to see it.
        static HOLD: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(vec![]);
        let mut hold = HOLD.lock().unwrap();
        hold.push(vec![0u8; RECORD]);
        Recorder(hold.last_mut().unwrap().as_mut_ptr())
    }

    #[inline]
    fn phase(&self, phase: u8) {
        unsafe { std::ptr::write_volatile(self.0, phase) };
    }

    fn text(&self, text: &str) {
        let n = text.len().min(INPUT - TEXT - 8);
        unsafe {
            std::ptr::write_volatile(self.0.add(8) as *mut u32, n as u32);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.0.add(TEXT), n);
        }
    }

    fn input(&self, input: &[u8]) {
        let n = input.len().min(RECORD - INPUT);
        unsafe {
            std::ptr::write_volatile(self.0.add(16) as *mut u32, n as u32);
            std::ptr::copy_nonoverlapping(input.as_ptr(), self.0.add(INPUT), n);
        }
    }
}

// ------------------------------------------------------------------ watchdog

static TICKET: AtomicU64 = AtomicU64::new(0);

/// One call into the code under test may execute this many regions.
const RUNAWAY: u64 = 3_000_000_000;

/// The exit code that says that a single call exceeded the budget of regions.
pub const EXIT_RUNAWAY: i32 = 41;

/// The exit code that says that a single call asked for too much memory.
pub const EXIT_EXCESS: i32 = 43;

/// One call into the code under test may take this many seconds of processor
/// time; no call of any workload is expected to take a tenth of one.
#[cfg(not(miri))]
const SECONDS: u64 = 60;

fn die(code: i32) -> ! {
    #[cfg(not(miri))]
    unsafe {
        extern "C" {
            fn _exit(code: i32) -> !;
        }
        _exit(code)
    }
    #[cfg(miri)]
    std::process::exit(code)
}

#[cfg(not(miri))]
fn processor_seconds() -> u64 {
    #[repr(C)]
    struct Timespec {
        seconds: i64,
        nanoseconds: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, time: *mut Timespec) -> i32;
    }
    let mut time = Timespec {
        seconds: 0,
        nanoseconds: 0,
    };
    unsafe { clock_gettime(2, &mut time) };
    time.seconds as u64
}

/// The exit code that says that the harness itself failed.
pub const EXIT_HARNESS: i32 = 42;

#[cfg(miri)]
fn watchdog() {}

#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, 0u64, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let ticket = TICKET.load(SeqCst);
            if ticket & 1 == 0 || ticket != last.0 {
                last = (ticket, steps().unwrap_or(0), processor_seconds());
                continue;
            }
            let done = steps().unwrap_or(0).wrapping_sub(last.1);
            let spent = processor_seconds() - last.2;
            if (done > RUNAWAY || spent > SECONDS) && TICKET.load(SeqCst) == ticket {
                eprintln!("vh: a single call ran on: {done} regions, {spent} seconds");
                die(EXIT_RUNAWAY);
            }
        }
    });
}

// ------------------------------------------------------------------- context

#[derive(Clone)]
pub struct Violation {
    pub signature: String,
    pub detail: String,
    pub kind: String,
    pub index: u64,
    pub input: Vec<u8>,
}

pub struct Options {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub recorder: Option<String>,
    pub cap: Duration,
    pub corpus: Option<String>,
    /// Write down what every case amounts to, or what it costs.
    pub digests: bool,
    pub costs: bool,
    /// The workload for a slow monitor, and which of it to run.
    pub small: bool,
    pub pick: Option<HashSet<String>>,
}

pub struct Ctx {
    pub options: Options,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub digest: u64,
    pub digests: String,
    pub trace: bool,
    started: Instant,
    recorder: Recorder,
    kind: String,
    index: u64,
    input: Vec<u8>,
    capped: bool,
    sampled: HashSet<String>,
}

std::thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(text) = info.payload().downcast_ref::<&str>() {
            text.to_string()
        } else if let Some(text) = info.payload().downcast_ref::<String>() {
            text.clone()
        } else {
            "a panic".to_string()
        };
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if QUIET.with(|quiet| quiet.get()) {
            PANIC.with(|panic| *panic.borrow_mut() = Some(format!("{message} at {place}")));
        } else {
            eprintln!("vh: harness panic: {message} at {place}");
        }
    }));
}

/// Run code under test, turning a panic into its message.
pub fn guard<T>(body: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|quiet| quiet.set(true));
    let result = catch_unwind(AssertUnwindSafe(body));
    QUIET.with(|quiet| quiet.set(false));
    result.map_err(|_| {
        PANIC
            .with(|panic| panic.borrow_mut().take())
            .unwrap_or_else(|| "a panic".to_string())
    })
}

/// Strip numbers, so that one fault has one signature.
pub fn generic(text: &str) -> String {
    let mut result = String::new();
    let mut digits = false;
    for c in text.chars() {
        if c.is_ascii_digit() {
            if !digits {
                result.push('#');
            }
            digits = true;
        } else {
            digits = false;
            result.push(c);
        }
    }
    result.truncate(160);
    result
}

impl Ctx {
    pub fn new(options: Options) -> Self {
        let recorder = Recorder::new(options.recorder.as_deref());
        watchdog();
        Ctx {
            trace: options.only.is_some(),
            options,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: vec![],
            digest: 0,
            digests: String::new(),
            started: Instant::now(),
            recorder,
            kind: String::new(),
            index: 0,
            input: vec![],
            capped: false,
            sampled: HashSet::new(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.options.thorough
    }

    /// Whether to stop early: enough violations or out of the time allotted.
    pub fn enough(&mut self) -> bool {
        if self.violations.len() >= 12 {
            return true;
        }
        if self.started.elapsed() > self.options.cap {
            if !self.capped {
                self.capped = true;
                self.count("stopped at the time cap", 1);
            }
            return true;
        }
        false
    }

    /// Run `quick` or `thorough` cases of a kind, those that fall on this shard.
    pub fn cases(
        &mut self,
        kind: &str,
        quick: u64,
        thorough: u64,
        mut body: impl FnMut(&mut Ctx, &mut Rng, u64),
    ) {
        let n = if self.thorough() { thorough } else { quick };
        // What is complete as it is grows no further.
        let scale = if quick == thorough {
            self.options.scale.min(1.0)
        } else {
            self.options.scale
        };
        let n = ((n as f64) * scale).ceil() as u64;
        let salt = kind
            .bytes()
            .chain(self.options.property.bytes())
            .fold(self.options.seed, |h, b| mix(h ^ b as u64));
        let (shard, shards) = (self.options.shard, self.options.shards);
        // Start where the property's hash says, so that single-case kinds are
        // spread over the shards.
        let first = (shard + shards - mix(salt) % shards) % shards;
        let mut i = first;
        if let Some((only_kind, only_index)) = self.options.only.clone() {
            if only_kind != kind {
                return;
            }
            self.one(kind, only_index, salt, &mut body);
            return;
        }
        while i < n {
            if self.enough() {
                return;
            }
            let picked = match &self.options.pick {
                Some(pick) => pick.contains(&format!("{kind}#{i}")),
                _ => true,
            };
            if picked {
                self.one(kind, i, salt, &mut body);
            }
            i += shards;
        }
    }

    fn one(
        &mut self,
        kind: &str,
        i: u64,
        salt: u64,
        body: &mut impl FnMut(&mut Ctx, &mut Rng, u64),
    ) {
        if self.kind != kind {
            self.kind = kind.to_string();
        }
        self.index = i;
        self.input.clear();
        self.recorder.phase(b'H');
        let mut text = [0u8; 96];
        let n = {
            use std::io::Write;
            let mut slice = &mut text[..];
            let _ = write!(slice, "{kind}#{i}");
            96 - slice.len()
        };
        self.recorder.text(std::str::from_utf8(&text[..n]).unwrap());
        self.recorder.input(&[]);
        let mut rng = Rng::new(mix(salt ^ mix(i)));
        self.digest = 0;
        let mut live = 0;
        if self.options.costs {
            steps_clear();
            live = memory_reset().live;
        }
        body(self, &mut rng, i);
        if self.options.costs {
            use std::fmt::Write;
            let usage = memory();
            let cost = steps().unwrap_or(0)
                + 30 * usage.requests as u64
                + (usage.peak.saturating_sub(live) / 8) as u64;
            // The corpus takes long to load.
            let cost = match crate::corpus::USED.swap(false, Relaxed) {
                true => 1 << 40,
                false => cost,
            };
            let _ = writeln!(self.digests, "{kind}#{i} {cost}");
        }
        if self.digest != 0 && self.options.digests {
            use std::fmt::Write;
            let _ = writeln!(self.digests, "{kind}#{i} {:016x}", self.digest);
        }
        self.count(&format!("cases/{kind}"), 1);
    }

    /// Keep the input of the case, for the replay file and the flight recorder.
    pub fn input(&mut self, input: &[u8]) {
        self.input.clear();
        self.input.extend_from_slice(input);
        self.recorder.input(input);
    }

    /// Run code under test.
    pub fn target<T>(&mut self, body: impl FnOnce() -> T) -> Result<T, String> {
        self.recorder.phase(b'T');
        TICKET.fetch_add(1, SeqCst);
        let result = guard(body);
        TICKET.fetch_add(1, SeqCst);
        self.recorder.phase(b'H');
        result
    }

    /// Count one evaluation of the oracle; `key` identifies the case, and is
    /// counted as distinct and non-trivial if `nontrivial`.
    pub fn evaluated(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 3_000_000 {
            self.distinct.insert(key);
        }
    }

    pub fn evaluated_bytes(&mut self, bytes: &[u8], nontrivial: bool) {
        self.evaluated(hash_bytes(7, bytes), nontrivial);
    }

    pub fn count(&mut self, name: &str, by: u64) {
        if let Some(value) = self.counters.get_mut(name) {
            *value += by;
        } else {
            self.counters.insert(name.to_string(), by);
        }
    }

    pub fn max(&mut self, name: &str, value: u64) {
        let name = format!("max {name}");
        let old = self.counters.entry(name).or_insert(0);
        *old = (*old).max(value);
    }

    /// Keep an actual case, at most a few per kind.
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.samples.len() < 12 && self.sampled.insert(self.kind.clone()) {
            let mut text = text();
            if text.len() > 600 {
                let mut cut = 600;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                text.push_str("...");
            }
            let line = format!("{}#{}: {}", self.kind, self.index, text);
            self.samples.push(line);
        }
    }

    /// Write a line next to the digests.
    pub fn note(&mut self, text: &str) {
        if self.options.digests {
            self.digests.push_str(text);
            self.digests.push('\n');
        }
    }

    pub fn fold(&mut self, value: u64) {
        self.digest = mix(self.digest ^ value);
    }

    pub fn violate(&mut self, signature: impl Into<String>, detail: impl Into<String>) {
        let signature = signature.into();
        let detail = detail.into();
        if self.trace {
            eprintln!("vh: {signature}: {detail}");
        }
        self.count(&format!("violating: {signature}"), 1);
        if self.violations.iter().any(|v| v.signature == signature) {
            return;
        }
        self.violations.push(Violation {
            signature,
            detail,
            kind: self.kind.clone(),
            index: self.index,
            input: self.input.clone(),
        });
    }

    pub fn report(&self) -> String {
        let mut out = String::from("{");
        out.push_str(&format!(
            "\"evaluations\":{},",
            self.evaluations
        ));
        out.push_str("\"samples\":[");
        out.push_str(
            &self
                .samples
                .iter()
                .map(|s| quote(s))
                .collect::<Vec<_>>()
                .join(","),
        );
        out.push_str("],\"counters\":{");
        out.push_str(
            &self
                .counters
                .iter()
                .map(|(k, v)| format!("{}:{}", quote(k), v))
                .collect::<Vec<_>>()
                .join(","),
        );
        out.push_str("},\"violations\":[");
        out.push_str(
            &self
                .violations
                .iter()
                .map(|v| {
                    format!(
                        "{{\"signature\":{},\"detail\":{},\"kind\":{},\"index\":{},\"input\":\"{}\"}}",
                        quote(&v.signature),
                        quote(&v.detail),
                        quote(&v.kind),
                        v.index,
                        hex(&v.input[..v.input.len().min(65536)])
                    )
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        out.push_str("]}");
        out
    }

    pub fn distinct_bytes(&self) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            out.extend_from_slice(&h.to_le_bytes());
        }
        out
    }
}

pub fn hex(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len() * 2);
    for b in bytes {
        s.push_str(&format!("{b:02x}"));
    }
    s
}

/// A short rendering of bytes for samples.
pub fn brief(bytes: &[u8]) -> String {
    if bytes.len() <= 48 {
        hex(bytes)
    } else {
        format!("{}.. ({} bytes)", hex(&bytes[..48]), bytes.len())
    }
}

pub fn quote(text: &str) -> String {
    let mut s = String::with_capacity(text.len() + 2);
    s.push('"');
    for c in text.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                s.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
