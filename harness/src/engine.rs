//! Choice-sequence property engine: every random decision is a recorded bounded integer, 0 being
//! the simplest; shrinking edits the recorded sequence (and then the texts), a case is replayed
//! from its texts alone. Work is a fixed number of cases; case i is a pure function of
//! (seed, property, i), so results do not depend on threads or timing.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choices

pub struct Src {
    rng: Option<[u64; 2]>,
    replay: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some([mix(seed), mix(seed ^ 0xabcd_ef01) | 1]), replay: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(c: Vec<u32>) -> Src {
        Src { rng: None, replay: c, pos: 0, rec: vec![] }
    }
    fn next(&mut self) -> u64 {
        let s = self.rng.as_mut().unwrap();
        let (mut a, b) = (s[0], s[1]);
        let r = a.wrapping_add(b);
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        mix(r)
    }
    /// uniform in `0..n`
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.rng.is_some() {
            ((self.next() >> 32) * n as u64 >> 32) as u32
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v.min(n - 1)
        };
        self.rec.push(v);
        v
    }
    /// true with probability `pct`/100; 0 means false
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        self.below(1000) + pct * 10 >= 1000
    }
    pub fn permille(&mut self, pm: u32) -> bool {
        pm > 0 && self.below(1000) + pm >= 1000
    }
    pub fn pick<'x, X>(&mut self, v: &'x [X]) -> &'x X {
        &v[self.below(v.len() as u32) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        0
    }
    /// number of items, geometric-like with the given mean, at most `max`
    pub fn count(&mut self, mean: u32, max: u32) -> u32 {
        let mut n = 0;
        while n < max && self.below(mean + 1) > 0 {
            n += 1;
        }
        n
    }
    /// log-uniform in `1..=max`
    pub fn log(&mut self, max: u32) -> u32 {
        let bits = 32 - max.leading_zeros();
        let k = self.below(bits);
        let lo = 1u32 << k;
        (lo + self.below(lo)).min(max)
    }
}

// ---------------------------------------------------------------- allocator

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static DELTA: Cell<i64> = const { Cell::new(0) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static RUNAWAY: AtomicBool = AtomicBool::new(false);
const LIVE_LIMIT: i64 = 12 << 30;

impl Counting {
    fn note(&self, d: i64) {
        let _ = DELTA.try_with(|c| {
            let v = c.get() + d;
            if v.abs() > 1 << 20 {
                c.set(0);
                let live = LIVE.fetch_add(v, Relaxed) + v;
                if live > LIVE_LIMIT && d > 0 {
                    RUNAWAY.store(true, SeqCst);
                    // never give out more memory; the monitor reports and ends the process
                    loop {
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
            } else {
                c.set(v);
            }
        });
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        self.note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        self.note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Allocations made by this thread so far.
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread.
pub fn thread_cpu_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

thread_local! {
    static INSIDE: Cell<Option<&'static AtomicBool>> = const { Cell::new(None) };
    static SERIAL: Cell<Option<&'static AtomicU64>> = const { Cell::new(None) };
}
/// Runs code under test; the monitor tells an endless loop there from one of the check.
pub fn inside<X>(f: impl FnOnce() -> X) -> X {
    struct Reset(Option<&'static AtomicBool>);
    impl Drop for Reset {
        fn drop(&mut self) {
            if let Some(b) = self.0 {
                b.store(false, Relaxed);
            }
        }
    }
    let flag = Reset(INSIDE.with(|c| c.get()));
    if let Some(b) = flag.0 {
        b.store(true, Relaxed);
    }
    // the clock of the monitor starts anew with each call
    if let Some(n) = SERIAL.with(|c| c.get()) {
        n.fetch_add(1, Relaxed);
    }
    f()
}

// ---------------------------------------------------------------- properties

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: String,
    pub texts: Vec<String>,
}

impl Case {
    pub fn one(kind: &str, text: String) -> Case {
        Case { kind: kind.into(), texts: vec![text] }
    }
}

pub enum Verdict {
    /// held; `nontrivial` by the property's rule, `label` for the distribution
    Pass { nontrivial: bool, label: &'static str },
    Fail(String),
    /// the machinery contradicts itself: an error of the check, not of the code
    Broken(String),
}

pub fn pass(nontrivial: bool, label: &'static str) -> Verdict {
    Verdict::Pass { nontrivial, label }
}

pub type Sink<'x> = dyn FnMut(Case) -> bool + 'x;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Src) -> Case,
    pub eval: fn(&Case) -> Verdict,
    /// enumerated cases: (thorough, shard, shards, sink)
    pub fixed: fn(bool, usize, usize, &mut Sink),
    pub quick: u64,
    pub thorough: u64,
    /// a case that neither ends nor stays within memory is a violation (only where termination is the property)
    pub hang_is_violation: bool,
    /// after the cases: known findings, one-off probes
    pub finish: fn(&Findings, &mut Stats) -> Option<(Case, String)>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub enumerated: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, Case, &'static str)>,
    pub bytes: u64,
    pub max_len: usize,
    pub notes: Vec<String>,
    pub known: Vec<String>,
}

impl Stats {
    fn add(&mut self, idx: u64, c: &Case, nontrivial: bool, label: &'static str) {
        self.evaluations += 1;
        let n: usize = c.texts.iter().map(|t| t.len()).sum();
        self.bytes += n as u64;
        self.max_len = self.max_len.max(n);
        *self.labels.entry(label).or_default() += 1;
        if nontrivial {
            self.nontrivial += 1;
            let fresh = self.distinct.insert(hash_case(c));
            if fresh && n < 400 && n > 0 {
                let have = self.samples.iter().filter(|s| s.2 == label).count();
                if have < 2 && self.samples.len() < 24 {
                    self.samples.push((idx, c.clone(), label));
                }
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.enumerated += o.enumerated;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.bytes += o.bytes;
        self.max_len = self.max_len.max(o.max_len);
        self.notes.extend(o.notes);
        self.known.extend(o.known);
    }
}

pub fn hash_str(h: &mut u64, s: &str) {
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        *h = mix(*h ^ u64::from_le_bytes(b));
    }
    *h = mix(*h ^ s.len() as u64);
}
fn hash_case(c: &Case) -> u64 {
    let mut h = 7;
    hash_str(&mut h, &c.kind);
    for t in &c.texts {
        hash_str(&mut h, t);
    }
    h
}

// ---------------------------------------------------------------- known findings

pub struct Findings(pub Vec<(String, String)>);
impl Findings {
    /// lines `finding: property=<id> key=<key> <what>`
    pub fn load(path: &str, id: &str) -> Findings {
        let mut v = vec![];
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut w = r.splitn(3, ' ');
                let p = w.next().unwrap_or("").trim_start_matches("property=");
                let k = w.next().unwrap_or("").trim_start_matches("key=");
                if p == id {
                    v.push((k.to_string(), w.next().unwrap_or("").to_string()));
                }
            }
        }
        Findings(v)
    }
    pub fn get(&self, key: &str) -> Option<&str> {
        self.0.iter().find(|f| f.0 == key).map(|f| f.1.as_str())
    }
}

// ---------------------------------------------------------------- shrinking

struct Shrinker<'p> {
    p: &'p Prop,
    evals: u32,
    until: Instant,
    best: Case,
    msg: String,
}
impl<'p> Shrinker<'p> {
    fn spent(&self) -> bool {
        self.evals > 20_000 || Instant::now() > self.until
    }
    fn try_case(&mut self, c: Case) -> bool {
        self.evals += 1;
        if let Verdict::Fail(m) = (self.p.eval)(&c) {
            self.best = c;
            self.msg = m;
            true
        } else {
            false
        }
    }
    fn choices(&mut self, mut cur: Vec<u32>) {
        let key = |c: &[u32]| (c.len(), c.to_vec());
        loop {
            let before = key(&cur);
            let attempt = |s: &mut Self, cand: Vec<u32>, cur: &mut Vec<u32>| -> bool {
                let mut src = Src::replay(cand);
                let c = (s.p.gen)(&mut src);
                if key(&src.rec) < key(cur) && s.try_case(c) {
                    *cur = src.rec;
                    true
                } else {
                    false
                }
            };
            let mut k = (cur.len() / 2).max(1);
            while k >= 1 {
                let mut i = cur.len();
                while i > 0 {
                    if self.spent() {
                        return;
                    }
                    i = i.saturating_sub(k);
                    if i >= cur.len() {
                        continue;
                    }
                    let e = (i + k).min(cur.len());
                    let mut c = cur.clone();
                    c.drain(i..e);
                    if !attempt(self, c, &mut cur) {
                        let e = (i + k).min(cur.len());
                        let mut c = cur.clone();
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                        attempt(self, c, &mut cur);
                    }
                }
                k /= 2;
            }
            let mut i = 0;
            while i < cur.len() {
                let mut lo = 0;
                while i < cur.len() && lo < cur[i] {
                    if self.spent() {
                        return;
                    }
                    let mid = lo + (cur[i] - lo) / 2;
                    let mut c = cur.clone();
                    c[i] = mid;
                    if !attempt(self, c, &mut cur) {
                        lo = mid + 1;
                    }
                }
                i += 1;
            }
            if key(&cur) >= before {
                return;
            }
        }
    }
    fn texts(&mut self) {
        loop {
            let before: usize = self.best.texts.iter().map(|t| t.len()).sum();
            let n0 = self.best.texts.len();
            for i in (0..n0).rev() {
                if self.best.texts.len() > 1 && i < self.best.texts.len() {
                    let mut c = self.best.clone();
                    c.texts.remove(i);
                    self.try_case(c);
                }
            }
            for i in 0..self.best.texts.len() {
                let mut k = self.best.texts[i].chars().count() / 2;
                while k >= 1 {
                    let mut at = 0;
                    loop {
                        if self.spent() {
                            return;
                        }
                        let cs: Vec<char> = self.best.texts[i].chars().collect();
                        if at >= cs.len() {
                            break;
                        }
                        let e = (at + k).min(cs.len());
                        let mut c = self.best.clone();
                        c.texts[i] = cs[..at].iter().chain(&cs[e..]).collect();
                        if !self.try_case(c) {
                            at = e;
                        }
                    }
                    k /= 2;
                }
            }
            let after: usize = self.best.texts.iter().map(|t| t.len()).sum();
            if after >= before && self.best.texts.len() == n0 {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- running

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub out_dir: String,
    pub cases: Option<u64>,
}

struct Found {
    idx: u64,
    case: Case,
    choices: Option<Vec<u32>>,
    msg: String,
}

struct Slot {
    case: Mutex<Option<Arc<Case>>>,
    serial: &'static AtomicU64,
    tid: AtomicU64,
    inside: &'static AtomicBool,
}

fn thread_cpu_ms(tid: u64) -> u64 {
    // first field of schedstat: nanoseconds on a CPU
    std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid))
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |n| n / 1_000_000)
}
fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

pub const THREADS: usize = 8;
pub const STACK: usize = 1 << 30;
/// CPU time after which a single call (normally microseconds) counts as not ending
const HANG_CPU_MS: u64 = 40_000;
/// the same for the work of the check between two calls
const STUCK_CPU_MS: u64 = 400_000;

pub fn case_src(seed: u64, id: &str, idx: u64) -> Src {
    let mut h = mix(seed);
    hash_str(&mut h, id);
    Src::random(mix(h ^ mix(idx)))
}

/// Runs one property; returns the process exit code.
pub fn run(p: &'static Prop, cfg: &Config) -> i32 {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|i| {
        if !INSIDE.with(|c| c.get()).map_or(true, |b| b.load(Relaxed)) {
            eprintln!("panic in the check: {}", i);
        }
    }));
    let total = cfg.cases.unwrap_or(if cfg.thorough { p.thorough } else { p.quick });
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<Found>>> = Arc::default();
    let broken: Arc<Mutex<Option<String>>> = Arc::default();
    let next = Arc::new(AtomicU64::new(0));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..THREADS)
            .map(|_| Slot {
                case: Mutex::new(None),
                serial: Box::leak(Box::new(AtomicU64::new(0))),
                tid: AtomicU64::new(0),
                inside: Box::leak(Box::new(AtomicBool::new(false))),
            })
            .collect(),
    );
    let stats: Arc<Mutex<Stats>> = Arc::default();
    let (seed, thorough) = (cfg.seed, cfg.thorough);

    let mut workers = vec![];
    for w in 0..THREADS {
        let (stop, found, broken, next, slots, stats) =
            (stop.clone(), found.clone(), broken.clone(), next.clone(), slots.clone(), stats.clone());
        let body = move || {
            slots[w].tid.store(gettid(), SeqCst);
            INSIDE.with(|c| c.set(Some(slots[w].inside)));
            SERIAL.with(|c| c.set(Some(slots[w].serial)));
            let slot_file = std::env::var("PBT_SLOTS")
                .ok()
                .and_then(|d| std::fs::File::create(format!("{}/{}", d, w)).ok());
            let mut st = Stats::default();
            let one = |idx: u64, case: Case, choices: Option<Vec<u32>>, st: &mut Stats| -> bool {
                let case = Arc::new(case);
                *slots[w].case.lock().unwrap() = Some(case.clone());
                slots[w].serial.fetch_add(1, SeqCst);
                if let Some(f) = &slot_file {
                    // should the process die, its parent finds the case here
                    use std::os::unix::fs::FileExt;
                    let body = replay_text(p.id, &case, "", seed);
                    let _ = f.write_all_at(format!("{:012}\n{}", body.len(), body).as_bytes(), 0);
                }
                match (p.eval)(&case) {
                    Verdict::Pass { nontrivial, label } => st.add(idx, &case, nontrivial, label),
                    Verdict::Fail(msg) => {
                        st.evaluations += 1;
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |f| idx < f.idx) {
                            *f = Some(Found { idx, case: (*case).clone(), choices, msg });
                        }
                        stop.store(true, SeqCst);
                    }
                    Verdict::Broken(m) => {
                        *broken.lock().unwrap() = Some(format!("{} on {:?}", m, case));
                        stop.store(true, SeqCst);
                    }
                }
                !stop.load(Relaxed)
            };
            let mut k = 0u64;
            let mut en = 0;
            (p.fixed)(thorough, w, THREADS, &mut |c| {
                k += 1;
                en += 1;
                one(k * THREADS as u64 + w as u64, c, None, &mut st)
            });
            st.enumerated = en;
            while !stop.load(Relaxed) {
                let i0 = next.fetch_add(64, SeqCst);
                if i0 >= total {
                    break;
                }
                for i in i0..(i0 + 64).min(total) {
                    let mut s = case_src(seed, p.id, i);
                    let c = (p.gen)(&mut s);
                    if !one((1 << 40) + i, c, Some(s.rec), &mut st) {
                        break;
                    }
                }
            }
            *slots[w].case.lock().unwrap() = None;
            stats.lock().unwrap().merge(st);
        };
        workers.push(std::thread::Builder::new().stack_size(STACK).spawn(body).unwrap());
    }

    // monitor: a case that burns CPU without end, or memory without bound
    let monitor = {
        let (slots, done) = (slots.clone(), done.clone());
        let out_dir = cfg.out_dir.clone();
        std::thread::spawn(move || {
            let mut seen = vec![(u64::MAX, 0u64); THREADS];
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let runaway = RUNAWAY.load(SeqCst);
                let mut worst: Option<(u64, Arc<Case>, bool)> = None;
                for (w, s) in slots.iter().enumerate() {
                    let (n, cpu) = (s.serial.load(SeqCst), thread_cpu_ms(s.tid.load(SeqCst)));
                    if seen[w].0 != n {
                        seen[w] = (n, cpu);
                        continue;
                    }
                    let used = cpu.saturating_sub(seen[w].1);
                    if used > if s.inside.load(SeqCst) { HANG_CPU_MS } else { STUCK_CPU_MS } || runaway {
                        if let Ok(c) = s.case.try_lock() {
                            if let Some(c) = c.as_ref() {
                                if worst.as_ref().map_or(true, |x| used > x.0) {
                                    worst = Some((used, c.clone(), s.inside.load(SeqCst)));
                                }
                            }
                        }
                    }
                }
                if let Some((ms, c, inside)) = worst {
                    let m = format!(
                        "no answer after {} ms of CPU time{}",
                        ms,
                        if runaway { ", memory grows without bound" } else { "" }
                    );
                    if p.hang_is_violation && inside {
                        let path = write_replay(&out_dir, p.id, &c, &m, seed);
                        println!("{}: {}", p.id, m);
                        println!("VIOLATION property={} replay={}", p.id, path);
                        std::process::exit(1);
                    }
                    eprintln!("{}: {} on {:?}: error of this check", p.id, m, c);
                    std::process::exit(3);
                }
            }
        })
    };

    for w in workers {
        if w.join().is_err() {
            eprintln!("{}: a worker panicked: error of this check", p.id);
            return 2;
        }
    }
    if let Some(m) = broken.lock().unwrap().take() {
        eprintln!("{}: machinery contradicts itself: {}", p.id, m);
        return 2;
    }
    let mut st = std::mem::take(&mut *stats.lock().unwrap());
    let mut f = found.lock().unwrap().take();
    let list = std::env::var("PBT_FINDINGS").unwrap_or_else(|_| format!("{}/known_findings.txt", cfg.out_dir));
    let findings = Findings::load(&list, p.id);
    if f.is_none() {
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let r = (p.finish)(&findings, &mut st);
            (r, st)
        });
        match h.unwrap().join() {
            Ok((r, s)) => {
                st = s;
                f = r.map(|(case, msg)| Found { idx: u64::MAX, case, choices: None, msg });
            }
            Err(_) => {
                eprintln!("{}: the final step panicked: error of this check", p.id);
                return 2;
            }
        }
    }
    done.store(true, SeqCst);
    let _ = monitor.join();

    for k in &st.known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let code = if let Some(f) = f {
        let mut sh = Shrinker {
            p,
            evals: 0,
            until: Instant::now() + Duration::from_secs(40),
            best: f.case.clone(),
            msg: f.msg.clone(),
        };
        let choices = f.choices.clone();
        let shrunk = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || {
                    if let Some(c) = choices {
                        sh.choices(c);
                    }
                    sh.texts();
                    (sh.best.clone(), sh.msg.clone())
                })
                .unwrap()
                .join()
                .unwrap_or((f.case.clone(), f.msg.clone()))
        });
        let path = write_replay(&cfg.out_dir, p.id, &shrunk.0, &shrunk.1, seed);
        let brief: Vec<String> = shrunk.0.texts.iter().map(|t| t.chars().take(2000).collect()).collect();
        println!("{}: {} {:?}\n{}", p.id, shrunk.0.kind, brief, shrunk.1.chars().take(4000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    } else {
        0
    };
    write_evidence(p, cfg, &mut st, code, start.elapsed().as_secs_f64());
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
            p.id,
            st.evaluations,
            st.distinct.len(),
            start.elapsed().as_secs_f64()
        );
    }
    code
}

// ---------------------------------------------------------------- files

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Replay file: a header line, then per text a line `text <bytes>` followed by the bytes.
pub fn write_replay(dir: &str, id: &str, c: &Case, msg: &str, seed: u64) -> String {
    let d = format!("{}/replays", dir);
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}.replay", d, id);
    let _ = std::fs::write(&path, replay_text(id, c, msg, seed));
    path
}

fn replay_text(id: &str, c: &Case, msg: &str, seed: u64) -> String {
    let mut o = format!("property {}\nkind {}\nseed {}\n", id, c.kind, seed);
    for l in msg.lines() {
        o.push_str(&format!("# {}\n", l));
    }
    for t in &c.texts {
        o.push_str(&format!("text {}\n{}\n", t.len(), t));
    }
    o
}

pub fn read_replay(path: &str) -> Option<(String, Case)> {
    let s = std::fs::read(path).ok()?;
    let mut s = String::from_utf8_lossy(&s).into_owned();
    // slot files: a length in front, stale bytes behind
    if let Some(n) = s.get(..12).and_then(|n| n.parse::<usize>().ok()) {
        s = s.get(13..13 + n)?.to_string();
    }
    let (mut id, mut kind, mut texts) = (String::new(), String::new(), vec![]);
    let mut i = 0;
    while i < s.len() {
        let e = s[i..].find('\n').map_or(s.len(), |n| i + n);
        let l = &s[i..e];
        i = e + 1;
        if let Some(x) = l.strip_prefix("property ") {
            id = x.into();
        } else if let Some(x) = l.strip_prefix("kind ") {
            kind = x.into();
        } else if let Some(x) = l.strip_prefix("text ") {
            let n: usize = x.parse().ok()?;
            texts.push(s.get(i..i + n)?.to_string());
            i += n + 1;
        }
    }
    Some((id, Case { kind, texts }))
}

pub fn write_evidence(p: &Prop, cfg: &Config, st: &mut Stats, code: i32, wall: f64) {
    st.samples.sort_by_key(|s| s.0);
    let mut per: BTreeMap<&str, u32> = BTreeMap::new();
    let mut samples = vec![];
    for (_, c, l) in &st.samples {
        let n = per.entry(l).or_default();
        *n += 1;
        if *n > 2 || samples.len() >= 16 {
            continue;
        }
        let texts: Vec<String> = c.texts.iter().map(|t| json(t)).collect();
        samples.push(format!(
            "   {{\"class\": {}, \"entry\": {}, \"texts\": [{}]}}",
            json(l),
            json(&c.kind),
            texts.join(", ")
        ));
    }
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let notes: Vec<String> = st.notes.iter().map(|n| json(n)).collect();
    let assume: Vec<String> = p.assumptions.iter().map(|n| json(n)).collect();
    let o = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n{}\n  ],\n  \"enumerated_cases\": {},\n  \"nontrivial_with_repeats\": {},\n  \"classes\": {{{}}},\n  \"input_bytes\": {},\n  \"longest_case_bytes\": {},\n  \"notes\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json(p.id),
        json(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        st.evaluations,
        st.distinct.len(),
        json(p.rule),
        samples.join(",\n"),
        st.enumerated,
        st.nontrivial,
        labels.join(", "),
        st.bytes,
        st.max_len,
        notes.join(", "),
        assume.join(", "),
        wall,
        code
    );
    let d = format!("{}/evidence", cfg.out_dir);
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, p.id), o) {
        eprintln!("cannot write evidence: {}", e);
    }
}
