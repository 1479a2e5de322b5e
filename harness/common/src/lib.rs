//! Shared runtime-monitoring kit: deterministic case generation, per-case progress records (so a crash,
//! a sanitizer abort or a hang can be attributed to one input), a counting allocator, and result output.
//!
//! No dependency outside std; nothing here touches the code under test.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    hash::{Hash, Hasher},
    io::Write as _,
    os::fd::AsRawFd,
    panic::{self, AssertUnwindSafe},
    sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering},
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- allocator

/// Counts live bytes/blocks; refuses (null => abort) beyond a hard cap so that a runaway loop ends as a
/// crash attributed to its case and not as an exhausted sandbox.
pub struct CountingAlloc;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ALLOC_CAP: AtomicI64 = AtomicI64::new(3 << 30);
pub static OOM_HIT: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE_BYTES.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64;
        if live > ALLOC_CAP.load(Ordering::Relaxed) {
            if !OOM_HIT.swap(true, Ordering::Relaxed) {
                let m = b"VERIF-OOM: allocation cap exceeded\n";
                unsafe { write(2, m.as_ptr(), m.len()) };
            }
            LIVE_BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        LIVE_BLOCKS.fetch_add(1, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}

#[cfg(not(miri))]
unsafe extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn pwrite(fd: i32, p: *const u8, n: usize, off: i64) -> isize;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}
#[cfg(miri)]
unsafe fn write(_: i32, _: *const u8, _: usize) -> isize {
    0
}

#[cfg(not(miri))]
pub fn process_cpu_seconds() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}
#[cfg(miri)]
pub fn process_cpu_seconds() -> f64 {
    0.0
}

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n>0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn string(&mut self, alphabet: &[&str], max_parts: usize) -> String {
        let n = self.below(max_parts + 1);
        let mut s = String::new();
        for _ in 0..n {
            let k = self.below(alphabet.len());
            s.push_str(alphabet[k]);
        }
        s
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- failures

#[derive(Debug, Clone)]
pub struct Fail {
    /// Short, stable name of what was violated (no addresses, no input text).
    pub sig: String,
    pub detail: String,
}
pub type Check = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), detail: detail.into() })
}

/// ensure!(cond, "sig", "detail {}", x)
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::Fail { sig: String::from($sig), detail: format!($($arg)*) }); }
    };
}
/// ensure_eq!(got, want, "sig", "context {}", x)
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail { sig: String::from($sig), detail: format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b) }); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Runs `f`, turning a panic into Err("message @ file:line").
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let loc = LAST_PANIC.with(|p| p.borrow_mut().take());
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            Err(loc.unwrap_or(msg))
        }
    }
}

// ---------------------------------------------------------------- run

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub sig: String,
    pub detail: String,
    pub input: String,
}

pub struct Case<'r> {
    pub rng: Rng,
    pub index: u64,
    pub seed: u64,
    pub thorough: bool,
    input: String,
    key: u64,
    st: &'r mut Stats,
    /// Failures that did not end the case.
    pub extra: Vec<Fail>,
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub cases: HashSet<u64>,
    pub samples: Vec<(String, String)>,
}

impl<'r> Case<'r> {
    /// Declares the concrete input of this case (before exercising the code under test).
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        progress_input(&self.input);
    }
    /// Notes a failure, if there is one, and goes on with the case.
    pub fn also(&mut self, r: Check) {
        self.extra.extend(r.err());
    }
    /// Counts `n` observed events under `name`.
    pub fn seen(&mut self, name: &str, n: u64) {
        match self.st.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.st.counters.insert(name.to_string(), n);
            }
        }
    }
    /// Marks this case (or a state reached in it) as distinct and non-trivial, by hash.
    pub fn distinct<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(t);
        self.key = self.key.rotate_left(7) ^ h;
        if self.st.distinct.len() < 2_000_000 {
            self.st.distinct.insert(h);
        }
    }
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub variant: String,
    scale: f64,
    only: Option<(String, u64)>,
    deadline: Option<Instant>,
    pub stats: Stats,
    pub evaluations: u64,
    pub truncated: bool,
    families: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    sigs: BTreeMap<String, u64>,
    out: String,
    started: Instant,
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static HANG_LIMIT_S: AtomicU64 = AtomicU64::new(30);
static PROGRESS_FD: AtomicI64 = AtomicI64::new(-1);
static PROGRESS_HDR: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(miri))]
fn progress_write(off: usize, s: &str, truncate: bool) {
    let fd = PROGRESS_FD.load(Ordering::Relaxed);
    if fd >= 0 {
        unsafe {
            if truncate {
                ftruncate(fd as i32, off as i64);
            }
            pwrite(fd as i32, s.as_ptr(), s.len(), off as i64);
            ftruncate(fd as i32, (off + s.len()) as i64);
        }
    }
}
#[cfg(miri)]
fn progress_write(_: usize, s: &str, _: bool) {
    if std::env::var_os("VERIF_TRACE").is_some() {
        eprintln!("CASE {}", s.trim_end());
    }
}
fn progress_header(s: &str) {
    PROGRESS_HDR.store(s.len(), Ordering::Relaxed);
    progress_write(0, s, false);
}
fn progress_input(s: &str) {
    progress_write(PROGRESS_HDR.load(Ordering::Relaxed), s, false);
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

impl Run {
    /// Reads VERIF_* from the environment. argv[1] is the property id.
    pub fn from_env() -> Run {
        let id = std::env::args().nth(1).expect("usage: BIN PROPERTY");
        let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
        let num = |k: &str, d: u64| env(k).and_then(|s| s.parse().ok()).unwrap_or(d);
        let only = env("VERIF_ONLY").and_then(|s| s.rsplit_once(':').and_then(|(a, b)| b.parse().ok().map(|i| (a.to_string(), i))));
        let deadline = env("VERIF_DEADLINE_S").and_then(|s| s.parse::<f64>().ok()).map(|s| Instant::now() + Duration::from_secs_f64(s));
        if let Some(p) = env("VERIF_PROGRESS") {
            if let Ok(f) = fs::OpenOptions::new().create(true).write(true).truncate(true).open(&p) {
                PROGRESS_FD.store(f.as_raw_fd() as i64, Ordering::Relaxed);
                std::mem::forget(f);
            }
        }
        HANG_LIMIT_S.store(num("VERIF_HANG_S", 30), Ordering::Relaxed);
        panic::set_hook(Box::new(|info| {
            let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| { let f = l.file(); let f = f.rsplit_once("projects/").map(|x| x.1).or(f.rsplit_once("examples/").map(|x| x.1)).unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
        }));
        let r = Run {
            id,
            thorough,
            seed: num("VERIF_SEED", 1),
            shard: num("VERIF_SHARD", 0),
            nshards: num("VERIF_NSHARDS", 1).max(1),
            variant: env("VERIF_VARIANT").unwrap_or_else(|| "native".into()),
            scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            only,
            deadline,
            stats: Stats::default(),
            evaluations: 0,
            truncated: false,
            families: BTreeMap::new(),
            violations: vec![],
            sigs: BTreeMap::new(),
            out: env("VERIF_OUT").unwrap_or_default(),
            started: Instant::now(),
        };
        #[cfg(not(miri))]
        std::thread::spawn(|| {
            let mut last = (u64::MAX, 0.0f64);
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let c = CASE_NO.load(Ordering::Relaxed);
                let cpu = process_cpu_seconds();
                if c != last.0 {
                    last = (c, cpu);
                }
                else if c != 0 && cpu - last.1 > HANG_LIMIT_S.load(Ordering::Relaxed) as f64 {
                    let _ = std::io::stderr().write_all(b"VERIF-HANG: one case used its whole CPU budget\n");
                    unsafe { _exit(97) };
                }
            }
        });
        r
    }

    pub fn set_hang_limit(&self, s: u64) {
        HANG_LIMIT_S.store(s, Ordering::Relaxed);
    }

    /// Runs `quick` (or `thorough`) cases of a family, striped over the shards. Index `i` fully determines the case.
    pub fn family(&mut self, name: &str, quick: u64, thorough: u64, mut f: impl FnMut(&mut Case) -> Check) {
        let n = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        self.family_exact(name, n, &mut f)
    }

    /// As `family`, with the same number of cases in each tier and no scaling (exhaustive enumerations).
    pub fn family_exact(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Case) -> Check) {
        if let Some((fam, _)) = &self.only {
            if fam != name {
                return;
            }
        }
        let base = hash_of(&(self.seed, name));
        let mut i = self.shard;
        if let Some((_, k)) = &self.only {
            i = *k;
        }
        let mut ran = 0u64;
        while i < n || self.only.is_some() {
            if let Some(d) = self.deadline {
                if (cfg!(miri) || ran % 8 == 0) && Instant::now() > d {
                    self.truncated = true;
                    break;
                }
            }
            CASE_NO.fetch_add(1, Ordering::Relaxed);
            progress_header(&format!("{name}\n{i}\n"));
            let mut case = Case { rng: Rng::new(base ^ i.wrapping_mul(0xD134_2543_DE82_EF95)), index: i, seed: self.seed, thorough: self.thorough, input: String::new(), key: 0, st: &mut self.stats, extra: vec![] };
            let res = catch(|| f(&mut case));
            let input = std::mem::take(&mut case.input);
            let key = case.key;
            let mut fails = std::mem::take(&mut case.extra);
            if key != 0 && self.stats.cases.len() < 2_000_000 {
                self.stats.cases.insert(key);
            }
            ran += 1;
            let fl = match res {
                Ok(Ok(())) => None,
                Ok(Err(x)) => Some(x),
                Err(p) => {
                    let site = p.rsplit_once(" @ ").map(|x| x.1.to_string()).unwrap_or_default();
                    let site = site.split(':').next().unwrap_or("").to_string();
                    Some(Fail { sig: format!("panic in {site}"), detail: p })
                }
            };
            if self.stats.samples.iter().filter(|s| s.0 == name).count() < 1 || (fl.is_none() && !input.is_empty() && i % 9973 == 17 && self.stats.samples.len() < 24) {
                self.stats.samples.push((name.to_string(), clip(&input, 300)));
            }
            fails.extend(fl);
            for x in fails {
                let c = self.sigs.entry(x.sig.clone()).or_insert(0);
                *c += 1;
                if *c <= 5 {
                    self.violations.push(Violation { family: name.to_string(), index: i, sig: x.sig, detail: clip(&x.detail, 4000), input: clip(&input, 20000) });
                }
            }
            if self.only.is_some() {
                break;
            }
            i += self.nshards;
        }
        self.evaluations += ran;
        *self.families.entry(name.to_string()).or_insert(0) += ran;
        CASE_NO.store(0, Ordering::Relaxed);
    }

    pub fn seen(&mut self, name: &str, n: u64) {
        *self.stats.counters.entry(name.to_string()).or_insert(0) += n;
    }

    /// Writes the result and exits: 0 nothing violated, 1 something was.
    pub fn finish(self) -> ! {
        let mut o = String::new();
        o.push_str("{");
        let _ = write!(o, "\"id\":{},\"shard\":{},\"seed\":{},\"evaluations\":{},\"truncated\":{},\"wall\":{:.3},", js(&self.id), self.shard, self.seed, self.evaluations, self.truncated, self.started.elapsed().as_secs_f64());
        let _ = write!(o, "\"live_bytes\":{},", LIVE_BYTES.load(Ordering::Relaxed));
        o.push_str("\"families\":{");
        o.push_str(&self.families.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"counters\":{");
        o.push_str(&self.stats.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"sigs\":{");
        o.push_str(&self.sigs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.stats.samples.iter().map(|(k, v)| format!("{{\"family\":{},\"input\":{}}}", js(k), js(v))).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        o.push_str(
            &self
                .violations
                .iter()
                .map(|v| format!("{{\"family\":{},\"index\":{},\"sig\":{},\"detail\":{},\"input\":{}}}", js(&v.family), v.index, js(&v.sig), js(&v.detail), js(&v.input)))
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str("],\"distinct\":[");
        let mut d: Vec<u64> = self.stats.distinct.iter().copied().collect();
        d.sort_unstable();
        d.truncate(400_000);
        o.push_str(&d.iter().map(|x| format!("{x}")).collect::<Vec<_>>().join(","));
        o.push_str("],\"cases\":[");
        o.push_str(&self.stats.cases.iter().map(|x| format!("{x}")).collect::<Vec<_>>().join(","));
        o.push_str("]}\n");
        let bad = !self.violations.is_empty();
        if self.out.is_empty() {
            for v in &self.violations {
                println!("VIOL {} {}:{}\n   {}\n   input: {:?}", v.sig, v.family, v.index, clip(&v.detail, 1500), clip(&v.input, 1500));
            }
            println!("id={} evals={} distinct={} wall={:.2} sigs={:?}\ncounters={:?}\nfamilies={:?}", self.id, self.evaluations, self.stats.distinct.len(), self.started.elapsed().as_secs_f64(), self.sigs, self.stats.counters, self.families);
        }
        else {
            fs::write(&self.out, o).expect("write result");
        }
        std::process::exit(if bad { 1 } else { 0 })
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Floors to a char boundary.
pub fn floor_char(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
