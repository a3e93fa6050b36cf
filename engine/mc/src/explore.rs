use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Choice {
    pub n: u32,
    pub c: u32,
    pub cost: u8, // cost of a non-default alternative
    pub label: &'static str,
    pub frozen: bool, // fixed by replay / shard: do not enumerate alternatives
}

pub struct Exec {
    prefix: Vec<Choice>,
    pub trace: Vec<Choice>,
    pub events: Vec<String>,
    pub dev: u32,
    pub outcome: Option<u64>,
    pub violations: Vec<(String, String)>, // (signature, message)
    pub steps: u64,
    replay_vals: Option<Vec<u32>>,
    shard: Option<(u32, u32, u32)>,
    pub foreign: bool,
    bound: u32,
}

static EXEC: Mutex<Option<Exec>> = Mutex::new(None);
static EXEC_START: AtomicU64 = AtomicU64::new(0);
static ACTIVE_ANY: AtomicBool = AtomicBool::new(false);

thread_local! {
    static CONTROLLED: Cell<bool> = const { Cell::new(false) };
}

/// Is the current thread driven by the explorer?
#[inline]
pub fn active() -> bool {
    CONTROLLED.with(|c| c.get())
}
pub fn set_active(b: bool) -> bool {
    CONTROLLED.with(|c| c.replace(b))
}
/// Run `f` with the explorer switched off on this thread (harness bookkeeping).
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            set_active(self.0);
        }
    }
    let _g = G(set_active(false));
    f()
}

pub fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> Option<R> {
    let mut g = EXEC.lock().unwrap_or_else(|e| e.into_inner());
    g.as_mut().map(f)
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the std Hash stream: deterministic across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    hash_of(t)
}

fn choose_impl(n: usize, label: &'static str, cost: u8) -> usize {
    assert!(n > 0, "choose over nothing: {label}");
    if n == 1 {
        return 0;
    }
    let mut g = EXEC.lock().unwrap_or_else(|e| e.into_inner());
    let e = match g.as_mut() {
        Some(e) => e,
        None => return 0,
    };
    let i = e.trace.len();
    let mut frozen = false;
    let c = if let Some(v) = &e.replay_vals {
        frozen = true;
        let c = v.get(i).copied().unwrap_or(0);
        if c as usize >= n {
            drop(g);
            engine_error(&format!("replay choice {c} out of {n} at {i} ({label})"));
        }
        c
    } else if i < e.prefix.len() {
        let p = &e.prefix[i];
        if p.n != n as u32 || p.label != label {
            let m = format!(
                "nondeterminism: at choice {i} expected {}/{} got {label}/{n}\ntrace: {:?}",
                p.label, p.n, e.trace
            );
            drop(g);
            engine_error(&m);
        }
        p.c
    } else {
        0
    };
    if c > 0 {
        e.dev += cost as u32;
    }
    e.trace.push(Choice { n: n as u32, c, cost, label, frozen });
    plog(&e.trace);
    if let Some((idx, of, depth)) = e.shard {
        if e.trace.len() == depth as usize {
            let v: Vec<u32> = e.trace.iter().map(|c| c.c).collect();
            if (hash_of(&v) % of as u64) as u32 != idx {
                e.foreign = true;
            }
        }
    }
    c as usize
}

/// A deviation point: alternative 0 is the default, the others cost 1.
pub fn choose(n: usize, label: &'static str) -> usize {
    choose_impl(n, label, 1)
}
/// An alphabet point: all alternatives are enumerated and cost nothing.
pub fn free(n: usize, label: &'static str) -> usize {
    choose_impl(n, label, 0)
}
/// `free` over a slice.
pub fn pick<'a, T>(s: &'a [T], label: &'static str) -> &'a T {
    &s[free(s.len(), label)]
}
/// May the current execution still deviate?
pub fn can_deviate() -> bool {
    with(|e| e.replay_vals.is_some() || e.dev < e.bound).unwrap_or(false)
}
/// True while this execution belongs to another shard (harness may cut it short).
pub fn foreign() -> bool {
    with(|e| e.foreign).unwrap_or(false)
}

/// Log an observation of this execution (part of the replayed history).
pub fn event(s: String) {
    static LIVE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *LIVE.get_or_init(|| std::env::var_os("MC_LIVE").is_some()) {
        eprintln!("event: {s}");
    }
    with(|e| {
        if e.events.len() < 4000 {
            e.events.push(s)
        }
    });
}
/// Fingerprint of what this execution observed (for the distinct-outcome count).
pub fn outcome<T: Hash>(t: T) {
    let h = hash_of(&t);
    with(|e| e.outcome = Some(e.outcome.unwrap_or(0).rotate_left(5) ^ h));
}
/// Record a property violation. `sig` identifies the kind of failure (stable text).
pub fn violation(sig: &str, msg: String) {
    let r = with(|e| {
        if e.violations.len() < 8 {
            e.violations.push((sig.to_string(), msg.clone()));
        }
    });
    if r.is_none() {
        eprintln!("violation outside an execution: {sig}: {msg}");
    }
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { $crate::violation($sig, format!($($arg)*)); }
    };
}

/// Record a violation from which the execution cannot continue, and stop the process.
pub fn fatal(sig: &str, msg: String) -> ! {
    violation(sig, msg);
    finish_fatal()
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR: {msg}");
    if let Some(p) = RESULT_PATH.lock().unwrap().clone() {
        let _ = std::fs::write(&p, format!("{{\"engine_error\":{}}}", js(msg)));
    }
    unsafe { libc::_exit(3) }
}

// ---------------------------------------------------------------- prefix log
static PLOG: AtomicU64 = AtomicU64::new(0);
const PLOG_SIZE: usize = 1 << 16;
/// The choices of the current execution live in a shared mapping, so that they
/// survive a crash of this process and the execution can be replayed.
pub fn set_prefix_log(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(PLOG_SIZE as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), PLOG_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    PLOG.store(p as u64, Ordering::SeqCst);
}
fn plog(t: &[Choice]) {
    let p = PLOG.load(Ordering::Relaxed) as *mut u16;
    if p.is_null() {
        return;
    }
    unsafe {
        let n = t.len().min(PLOG_SIZE / 2 - 8);
        if n == t.len() {
            *p.add(1 + n) = t[n - 1].c as u16;
        }
        std::ptr::write_volatile(p, n as u16);
    }
}
fn plog_reset() {
    let p = PLOG.load(Ordering::Relaxed) as *mut u16;
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p, 0) }
    }
}

// ---------------------------------------------------------------- exploration
#[derive(Clone, Debug)]
pub struct Config {
    pub name: String,
    pub bound: u32,
    pub shard: Option<(u32, u32, u32)>, // index, of, depth
    pub time_cap: Duration,
    pub max_execs: u64,
    pub exec_limit: Duration,
    pub known: Vec<String>,
    pub result_path: Option<String>,
    pub replay: Option<Vec<u32>>,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            name: String::new(),
            bound: 2,
            shard: None,
            time_cap: Duration::from_secs(600),
            max_execs: u64::MAX,
            exec_limit: Duration::from_secs(30),
            known: vec![],
            result_path: None,
            replay: None,
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub execs: u64,
    pub nodes: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub outcomes: HashSet<u64>,
    pub completed_bound: i64,
    pub capped: bool,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub wall: f64,
}

static RESULT_PATH: Mutex<Option<String>> = Mutex::new(None);
static CUR: Mutex<Option<(Config, Stats)>> = Mutex::new(None);

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trace_json(t: &[Choice]) -> String {
    let v: Vec<String> = t.iter().map(|c| c.c.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn sample(e: &Exec) -> String {
    let ch: Vec<String> = e.trace.iter().take(60).map(|c| format!("{}={}/{}", c.label, c.c, c.n)).collect();
    let ev: Vec<String> = e.events.iter().take(40).cloned().collect();
    format!("choices[{}] {} | events: {}", e.trace.len(), ch.join(" "), ev.join("; "))
}

fn write_result(cfg: &Config, st: &Stats, viol: Option<(&Exec, &str, &str)>) {
    let Some(p) = &cfg.result_path else {
        if let Some((e, s, m)) = viol {
            eprintln!("VIOLATION {s}: {m}\n trace {:?}\n events {:#?}", e.trace, e.events);
        }
        return;
    };
    let mut o = String::from("{");
    o.push_str(&format!("\"model\":{},\"execs\":{},\"nodes\":{},\"steps\":{},\"max_depth\":{},\"completed_bound\":{},\"capped\":{},\"wall\":{:.3}", js(&cfg.name), st.execs, st.nodes, st.steps, st.max_depth, st.completed_bound, st.capped, st.wall));
    let oc: Vec<String> = st.outcomes.iter().map(|h| format!("\"{h:016x}\"")).collect();
    o.push_str(&format!(",\"outcomes\":[{}]", oc.join(",")));
    let s: Vec<String> = st.samples.iter().map(|s| js(s)).collect();
    o.push_str(&format!(",\"samples\":[{}]", s.join(",")));
    let l: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!(",\"labels\":{{{}}}", l.join(",")));
    let k: Vec<String> = st.known_hits.iter().map(|(k, (n, m))| format!("{}:{{\"count\":{n},\"first\":{}}}", js(k), js(m))).collect();
    o.push_str(&format!(",\"known\":{{{}}}", k.join(",")));
    if let Some((e, sig, msg)) = viol {
        let ev: Vec<String> = e.events.iter().map(|s| js(s)).collect();
        let lb: Vec<String> = e.trace.iter().map(|c| js(&format!("{}={}/{}", c.label, c.c, c.n))).collect();
        o.push_str(&format!(",\"violation\":{{\"sig\":{},\"msg\":{},\"choices\":{},\"labels\":[{}],\"events\":[{}]}}", js(sig), js(msg), trace_json(&e.trace), lb.join(","), ev.join(",")));
    }
    o.push('}');
    let tmp = format!("{p}.tmp");
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, p).unwrap();
}

fn finish_fatal() -> ! {
    let cur = CUR.lock().unwrap_or_else(|e| e.into_inner());
    let g = EXEC.lock().unwrap_or_else(|e| e.into_inner());
    if let (Some((cfg, st)), Some(e)) = (cur.as_ref(), g.as_ref()) {
        let (s, m) = e.violations.last().cloned().unwrap_or(("fatal".into(), "fatal".into()));
        if e.foreign {
            eprintln!("ENGINE-ERROR: fatal violation in a foreign shard: {s} {m}");
        }
        write_result(cfg, st, Some((e, &s, &m)));
    }
    unsafe { libc::_exit(1) }
}

/// Explore `body`. Returns Ok(stats), or Err((sig,msg)) after writing the counterexample.
pub fn explore(cfg: Config, mut body: impl FnMut()) -> Result<Stats, (String, String)> {
    let t0 = Instant::now();
    let mut st = Stats { completed_bound: -1, ..Default::default() };
    *RESULT_PATH.lock().unwrap() = cfg.result_path.clone();
    start_watchdog(cfg.exec_limit);
    let bounds: Vec<u32> = if cfg.replay.is_some() { vec![cfg.bound] } else { (0..=cfg.bound).collect() };
    'outer: for b in bounds {
        st.nodes = 0;
        let mut prefix: Vec<Choice> = vec![];
        let mut shared = 0usize;
        let mut hit_cost = false; // did the bound prune anything?
        loop {
            *CUR.lock().unwrap() = Some((cfg.clone(), st.clone_light()));
            *EXEC.lock().unwrap() = Some(Exec {
                prefix: std::mem::take(&mut prefix),
                trace: vec![],
                events: vec![],
                dev: 0,
                outcome: None,
                violations: vec![],
                steps: 0,
                replay_vals: cfg.replay.clone(),
                shard: cfg.shard,
                foreign: false,
                bound: b,
            });
            plog_reset();
            EXEC_START.store(now_ms(), Ordering::SeqCst);
            ACTIVE_ANY.store(true, Ordering::SeqCst);
            set_active(true);
            crate::sched::reset();
            body();
            set_active(false);
            ACTIVE_ANY.store(false, Ordering::SeqCst);
            let mut e = EXEC.lock().unwrap().take().unwrap();
            // a shard that never reached its depth: only shard 0 owns it
            if let Some((idx, of, depth)) = cfg.shard {
                if e.trace.len() < depth as usize {
                    let v: Vec<u32> = e.trace.iter().map(|c| c.c).collect();
                    if (hash_of(&v) % of as u64) as u32 != idx {
                        e.foreign = true;
                    }
                }
            }
            if e.trace.len() < e.prefix.len() {
                engine_error(&format!("nondeterminism: execution ended after {} choices, prefix has {}", e.trace.len(), e.prefix.len()));
            }
            if !e.foreign {
                st.execs += 1;
                st.nodes += (e.trace.len().saturating_sub(shared)) as u64;
                st.steps += e.trace.len() as u64 + e.steps;
                st.max_depth = st.max_depth.max(e.trace.len());
                for c in &e.trace {
                    *st.labels.entry(c.label).or_insert(0) += 1;
                }
                if let Some(o) = e.outcome {
                    if st.outcomes.insert(o) && st.samples.len() < 3 {
                        st.samples.push(sample(&e));
                    }
                } else if st.samples.is_empty() {
                    st.samples.push(sample(&e));
                }
                let mut bad = None;
                for (s, m) in &e.violations {
                    if cfg.known.iter().any(|k| k == s) {
                        let en = st.known_hits.entry(s.clone()).or_insert((0, m.clone()));
                        en.0 += 1;
                    } else if bad.is_none() {
                        bad = Some((s.clone(), m.clone()));
                    }
                }
                if let Some((s, m)) = bad {
                    st.wall = t0.elapsed().as_secs_f64();
                    write_result(&cfg, &st, Some((&e, &s, &m)));
                    return Err((s, m));
                }
            }
            // odometer
            let mut t = e.trace;
            if e.foreign {
                if let Some((_, _, d)) = cfg.shard {
                    t.truncate(d as usize);
                }
            }
            let mut next = None;
            let mut i = t.len();
            // cost of t[0..i]
            let mut costs = Vec::with_capacity(t.len() + 1);
            let mut acc = 0u32;
            costs.push(0);
            for c in &t {
                if c.c > 0 {
                    acc += c.cost as u32;
                }
                costs.push(acc);
            }
            while i > 0 {
                i -= 1;
                let c = &t[i];
                if c.frozen || c.c + 1 >= c.n {
                    continue;
                }
                if costs[i] + c.cost as u32 > b {
                    hit_cost = true;
                    continue;
                }
                next = Some(i);
                break;
            }
            match next {
                None => {
                    st.completed_bound = b as i64;
                    if !hit_cost {
                        // complete without pruning: higher bounds add nothing
                        st.completed_bound = i64::MAX;
                        break 'outer;
                    }
                    break;
                }
                Some(i) => {
                    t.truncate(i + 1);
                    t[i].c += 1;
                    shared = i;
                    prefix = t;
                }
            }
            if st.execs >= cfg.max_execs || t0.elapsed() > cfg.time_cap {
                st.capped = true;
                break 'outer;
            }
        }
    }
    st.wall = t0.elapsed().as_secs_f64();
    write_result(&cfg, &st, None);
    Ok(st)
}

impl Stats {
    fn clone_light(&self) -> Stats {
        Stats {
            execs: self.execs,
            nodes: self.nodes,
            steps: self.steps,
            max_depth: self.max_depth,
            completed_bound: self.completed_bound,
            ..Default::default()
        }
    }
}

fn now_ms() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// Real-time watchdog: one execution of a closed driver takes milliseconds; one
/// that is still running after `lim` is stuck (a hang). It exits with status 4 and
/// the caller replays the logged prefix before believing it.
fn start_watchdog(lim: Duration) {
    static STARTED: AtomicBool = AtomicBool::new(false);
    if STARTED.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if ACTIVE_ANY.load(Ordering::SeqCst) {
            let s = EXEC_START.load(Ordering::SeqCst);
            if now_ms().saturating_sub(s) > lim.as_millis() as u64 {
                eprintln!("ENGINE: execution exceeded {lim:?} of real time");
                unsafe { libc::_exit(4) }
            }
        }
    });
}
