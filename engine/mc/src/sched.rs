//! Cooperative scheduler over real OS threads (CHESS style). Exactly one
//! controlled thread runs at a time; at every synchronization operation the
//! explorer decides who runs next. Switching away from a runnable thread is a
//! deviation (preemption); a switch at a blocking operation is free. Timed waits
//! use a virtual clock: they expire when nothing else can run, or as a deviation.
use crate::explore::{self, choose, free};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    Blocked(usize),
    Finished,
}
struct Th {
    st: St,
    deadline: Option<u64>,
    timed_out: bool,
    cv: Arc<Condvar>,
}
struct S {
    th: Vec<Th>,
    cur: usize,
    now: u64,
    points: u64,
    on: bool,
    eager: bool,
}
static S: Mutex<S> = Mutex::new(S { th: vec![], cur: 0, now: 0, points: 0, on: false, eager: true });
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub const MAX_POINTS: u64 = 50_000;

fn lock() -> std::sync::MutexGuard<'static, S> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

/// New execution: the calling thread becomes controlled thread 0.
pub fn reset() {
    let mut s = lock();
    s.th.clear();
    s.th.push(Th { st: St::Runnable, deadline: None, timed_out: false, cv: Arc::new(Condvar::new()) });
    s.cur = 0;
    s.now = 0;
    s.points = 0;
    s.on = false;
    s.eager = true;
    TID.with(|t| t.set(0));
}
/// Thread-level scheduling is on only between `enable` and the end of the execution.
pub fn enable(b: bool) {
    lock().on = b;
}
#[inline]
pub fn controlled() -> bool {
    explore::active() && TID.with(|t| t.get()) != usize::MAX
}
/// May time pass while threads can still run? (default: yes, as a deviation)
pub fn eager_time(b: bool) {
    lock().eager = b;
}
pub fn now_ns() -> u64 {
    lock().now
}
pub fn live_threads() -> usize {
    lock().th.iter().filter(|t| t.st != St::Finished).count()
}

/// Hand the processor to `next` and wait for our turn again.
fn switch(mut s: std::sync::MutexGuard<'static, S>, me: usize, next: usize) {
    if next == me {
        return;
    }
    s.cur = next;
    s.th[next].cv.notify_one();
    let cv = s.th[me].cv.clone();
    while s.cur != me {
        s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

/// Scheduling point: any runnable thread may run next; a pending timeout may fire.
pub fn point(label: &'static str) {
    if !controlled() {
        gate::pass();
        return;
    }
    let me = TID.with(|t| t.get());
    let mut s = lock();
    if !s.on {
        return;
    }
    s.points += 1;
    if s.points > MAX_POINTS {
        drop(s);
        explore::fatal("livelock", format!("more than {MAX_POINTS} synchronization operations in one execution"));
    }
    explore::with(|e| e.steps += 1);
    let others: Vec<usize> = (0..s.th.len()).filter(|i| *i != me && s.th[*i].st == St::Runnable).collect();
    let timer = s.eager && earliest(&s).is_some();
    let n = 1 + others.len() + timer as usize;
    if n == 1 {
        return;
    }
    drop(s);
    let c = choose(n, label);
    if c == 0 {
        return;
    }
    let mut s = lock();
    if c <= others.len() {
        switch(s, me, others[c - 1]);
    } else {
        let i = earliest(&s).unwrap();
        expire(&mut s, i);
        switch(s, me, i);
    }
}
fn earliest(s: &S) -> Option<usize> {
    (0..s.th.len())
        .filter(|i| matches!(s.th[*i].st, St::Blocked(_)) && s.th[*i].deadline.is_some())
        .min_by_key(|i| s.th[*i].deadline)
}
fn expire(s: &mut S, i: usize) {
    let d = s.th[i].deadline.take().unwrap();
    s.now = s.now.max(d);
    s.th[i].timed_out = true;
    s.th[i].st = St::Runnable;
}

/// Pick a successor when `me` cannot continue (free choice).
fn next_runnable(me: usize, what: &str) {
    let mut s = lock();
    loop {
        let run: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Runnable).collect();
        if run.is_empty() {
            if let Some(t) = s.th.iter_mut().find(|t| t.st == St::Blocked(IDLE)) {
                t.st = St::Runnable;
                continue;
            }
            if let Some(i) = earliest(&s) {
                expire(&mut s, i);
                continue;
            }
            let d: Vec<String> = s.th.iter().enumerate().map(|(i, t)| format!("T{i}:{:?}", t.st)).collect();
            if s.th.iter().all(|t| t.st == St::Finished) {
                return;
            }
            drop(s);
            explore::fatal("deadlock", format!("no thread can run ({what}): {}", d.join(" ")));
        }
        drop(s);
        let c = free(run.len(), "switch");
        let s2 = lock();
        if s2.th[me].st == St::Finished {
            let mut s2 = s2;
            s2.cur = run[c];
            s2.th[run[c]].cv.notify_one();
        } else {
            switch(s2, me, run[c]);
        }
        return;
    }
}

/// Block the current thread on `res`. Returns true if the wait timed out.
pub fn block(res: usize, timeout_ns: Option<u64>, what: &str) -> bool {
    let me = TID.with(|t| t.get());
    {
        let mut s = lock();
        let now = s.now;
        let t = &mut s.th[me];
        t.st = St::Blocked(res);
        t.timed_out = false;
        t.deadline = timeout_ns.map(|d| now.saturating_add(d));
    }
    next_runnable(me, what);
    let mut s = lock();
    s.th[me].deadline = None;
    std::mem::take(&mut s.th[me].timed_out)
}
pub fn wake_all(res: usize) {
    if !controlled() {
        return;
    }
    let mut s = lock();
    for t in s.th.iter_mut() {
        if t.st == St::Blocked(res) {
            t.st = St::Runnable;
            t.deadline = None;
        }
    }
}
pub fn wake_one(res: usize) {
    if !controlled() {
        return;
    }
    let s = lock();
    let w: Vec<usize> = (0..s.th.len()).filter(|i| s.th[*i].st == St::Blocked(res)).collect();
    drop(s);
    if w.is_empty() {
        return;
    }
    let c = free(w.len(), "notify");
    let mut s = lock();
    s.th[w[c]].st = St::Runnable;
    s.th[w[c]].deadline = None;
}

/// Spawn a controlled thread (runs when the scheduler picks it).
pub fn spawn<T: Send + 'static>(
    name: Option<String>,
    f: impl FnOnce() -> T + Send + 'static,
) -> (usize, std::thread::JoinHandle<T>) {
    let tid = {
        let mut s = lock();
        s.th.push(Th { st: St::Runnable, deadline: None, timed_out: false, cv: Arc::new(Condvar::new()) });
        s.th.len() - 1
    };
    let mut b = std::thread::Builder::new();
    if let Some(n) = name {
        b = b.name(n);
    }
    let h = b
        .spawn(move || {
            TID.with(|t| t.set(tid));
            {
                let mut s = lock();
                let cv = s.th[tid].cv.clone();
                while s.cur != tid {
                    s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
                }
            }
            explore::set_active(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            // finished: wake joiners and hand over
            {
                let mut s = lock();
                s.th[tid].st = St::Finished;
                for t in s.th.iter_mut() {
                    if t.st == St::Blocked(usize::MAX - tid) {
                        t.st = St::Runnable;
                        t.deadline = None;
                    }
                }
            }
            next_runnable(tid, "thread end");
            explore::set_active(false);
            match r {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            }
        })
        .unwrap();
    (tid, h)
}
pub fn join(tid: usize) {
    point("join");
    loop {
        if lock().th[tid].st == St::Finished {
            return;
        }
        block(usize::MAX - tid, None, "join");
    }
}
pub fn finished(tid: usize) -> bool {
    lock().th[tid].st == St::Finished
}
const IDLE: usize = usize::MAX / 2 + 1;
/// Wait until no other thread can run (without letting time pass).
pub fn settle() {
    if controlled() && lock().on {
        block(IDLE, None, "settle");
    }
}
pub fn sleep(ns: u64) {
    block(usize::MAX / 2, Some(ns), "sleep");
}

/// A threshold for a thread the scheduler does not control (a signal handling
/// thread): it stops before its k-th synchronization operation until released.
pub mod gate {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    use std::time::Duration;
    struct G {
        left: u32,
        parked: bool,
        open: bool,
    }
    static ON: AtomicBool = AtomicBool::new(false);
    static G: Mutex<G> = Mutex::new(G { left: 0, parked: false, open: true });
    static CV: Condvar = Condvar::new();
    thread_local! { static EXEMPT: Cell<bool> = const { Cell::new(false) }; }
    pub fn exempt<R>(f: impl FnOnce() -> R) -> R {
        let o = EXEMPT.with(|e| e.replace(true));
        let r = f();
        EXEMPT.with(|e| e.set(o));
        r
    }
    pub fn arm(k: u32) {
        *G.lock().unwrap() = G { left: k, parked: false, open: false };
        ON.store(true, SeqCst);
    }
    pub fn release() {
        ON.store(false, SeqCst);
        G.lock().unwrap().open = true;
        CV.notify_all();
    }
    pub fn parked() -> bool {
        G.lock().unwrap().parked
    }
    pub fn pass() {
        if !ON.load(SeqCst) || EXEMPT.with(|e| e.get()) {
            return;
        }
        let mut g = G.lock().unwrap();
        if g.open || g.parked {
            return;
        }
        g.left -= 1;
        if g.left > 0 {
            return;
        }
        g.parked = true;
        while !g.open {
            let (ng, t) = CV.wait_timeout(g, Duration::from_secs(20)).unwrap();
            g = ng;
            if t.timed_out() {
                g.open = true;
            }
        }
    }
}


/// A clock for foreign (uncontrolled) threads that only moves when the explorer says so: their
/// timed waits register here and end by a notification or by `expire`.
pub mod clock {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    use std::time::Duration;
    #[derive(Default, Clone)]
    struct T {
        settled: bool,
        waiting: Option<Duration>,
        expired: bool,
        gen_: u32,
    }
    static ON: AtomicBool = AtomicBool::new(false);
    static TS: Mutex<Vec<T>> = Mutex::new(vec![]);
    static CV: Condvar = Condvar::new();
    thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
    pub fn manual(b: bool) {
        if b {
            TS.lock().unwrap().clear();
        }
        ON.store(b, SeqCst);
    }
    pub fn on() -> bool {
        ON.load(SeqCst)
    }
    /// before a thread is spawned; None when the clock runs normally
    pub fn spawning() -> Option<usize> {
        if !on() {
            return None;
        }
        let mut t = TS.lock().unwrap();
        t.push(T::default());
        Some(t.len() - 1)
    }
    pub fn next_id() -> usize {
        TS.lock().unwrap().len()
    }
    pub fn enter(id: usize) {
        ME.with(|m| m.set(id));
    }
    pub fn leave(id: usize) {
        if let Some(t) = TS.lock().unwrap().get_mut(id) {
            t.settled = true;
            t.waiting = None;
            t.gen_ += 1;
        }
        CV.notify_all();
    }
    /// the spawner waits until the new thread waits for something or is done
    pub fn spawned(id: usize) {
        let g = TS.lock().unwrap();
        let _ = CV.wait_timeout_while(g, Duration::from_millis(300), |t| !t[id].settled).unwrap();
    }
    /// this thread starts a timed wait; false: not on the manual clock
    pub fn begin(d: Duration) -> bool {
        let me = ME.with(|m| m.get());
        if !on() || me == usize::MAX {
            return false;
        }
        let mut g = TS.lock().unwrap();
        let Some(t) = g.get_mut(me) else { return false };
        t.settled = true;
        t.waiting = Some(d);
        t.expired = false;
        t.gen_ += 1;
        drop(g);
        CV.notify_all();
        true
    }
    pub fn expired() -> bool {
        let me = ME.with(|m| m.get());
        TS.lock().unwrap().get(me).map_or(true, |t| t.expired)
    }
    pub fn end() {
        let me = ME.with(|m| m.get());
        if let Some(t) = TS.lock().unwrap().get_mut(me) {
            t.waiting = None;
        }
    }
    /// the timed waits under way, in the order their threads were started
    pub fn waiting() -> Vec<(usize, Duration)> {
        TS.lock().unwrap().iter().enumerate().filter_map(|(i, t)| t.waiting.map(|d| (i, d))).collect()
    }
    /// let the wait of thread `id` time out, and wait until that thread has done what it does then
    pub fn expire(id: usize) {
        let mut g = TS.lock().unwrap();
        let k = g[id].gen_;
        g[id].expired = true;
        let _ = CV.wait_timeout_while(g, Duration::from_secs(20), |t| t[id].gen_ == k).unwrap();
    }
}
