//! Isolate lock, ArrayBuffer allocator, deferred destruction, external memory,
//! GC sizes, wall-clock watchdog.
use crate::shim::{self, *};
use crate::{ModelFn, Params};
use mc::check;
use openworkers_runtime_v8 as rt;
use rt::gc::{DeferredDestructionQueue, ExternalMemoryGuard, GcTraceable, Tracked, tracked_guard};
use rt::{AsyncWaiter, DeriveGcTraceable, LockerManagedIsolate};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::c_void;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![
        ("waiter_ops", waiter_ops),
        ("waiter_threads", waiter_threads),
        ("allocator_ops", allocator_ops),
        ("allocator_threads", allocator_threads),
        ("deferred", deferred),
        ("extmem_ops", extmem_ops),
        ("extmem_threads", extmem_threads),
        ("trace_sizes", trace_sizes),
        ("tracked_ops", tracked_ops),
        ("timeout_guard", timeout_guard),
    ]
}

// ------------------------------------------------------------------ isolate lock
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Idle,
    Waiting,
    Holding,
    Gone,
}
/// Every order of attempts, re-polls after a wakeup, releases, (cancellations and
/// spurious polls) of `tasks` parties, up to `depth` steps.
fn waiter_ops(p: &Params) {
    let n = p.u("tasks", 3);
    let depth = p.u("depth", 8);
    let (cancel, spurious, order) = (p.b("cancel"), p.b("spurious"), p.b("order"));
    let w = AsyncWaiter::new();
    let cnt: Vec<Arc<Count>> = (0..n).map(|_| Arc::new(Count(AtomicUsize::new(0)))).collect();
    let wk: Vec<Waker> = cnt.iter().map(|c| Waker::from(c.clone())).collect();
    let mut st = vec![P::Idle; n];
    let mut seen = vec![0usize; n]; // wakeups already consumed
    let mut since = vec![0u64; n]; // when the party started to wait
    let mut q: VecDeque<usize> = VecDeque::new(); // registrations, oldest first
    let mut clock = 0u64;
    let mut cause: Option<&'static str> = None;
    let mut log: Vec<u8> = vec![];
    for _ in 0..depth {
        if mc::foreign() {
            return;
        }
        let mut ops: Vec<(u8, usize)> = vec![];
        let mut idle_seen = false;
        for i in 0..n {
            match st[i] {
                // idle parties that never did anything are interchangeable: only the first one starts
                P::Idle if since[i] == 0 => {
                    if !idle_seen {
                        ops.push((0, i));
                        idle_seen = true;
                    }
                }
                P::Idle => ops.push((0, i)),
                P::Waiting if cnt[i].0.load(Ordering::SeqCst) > seen[i] => ops.push((1, i)),
                P::Waiting if spurious => ops.push((3, i)),
                P::Holding => ops.push((2, i)),
                _ => {}
            }
            if cancel && st[i] == P::Waiting {
                ops.push((4, i));
            }
        }
        if ops.is_empty() {
            break;
        }
        let (op, i) = ops[mc::free(ops.len(), "op")];
        clock += 1;
        log.push(op * 16 + i as u8);
        mc::event(format!("{}{i}", ["try ", "poll ", "unlock ", "spurious ", "cancel "][op as usize]));
        match op {
            0 | 1 | 3 => {
                if op == 0 {
                    since[i] = clock;
                }
                seen[i] = cnt[i].0.load(Ordering::SeqCst);
                let held = st.iter().any(|s| *s == P::Holding);
                let before: Vec<usize> = cnt.iter().map(|c| c.0.load(Ordering::SeqCst)).collect();
                let r = w.try_lock(&mut Context::from_waker(&wk[i]));
                for j in 0..n {
                    check!(cnt[j].0.load(Ordering::SeqCst) == before[j], "wrong-wake", "an attempt to take the lock woke party {j}");
                }
                check!(!(r && held), "two-holders", "party {i} got the lock while another one holds it");
                check!(r || held, "refused", "party {i} was refused although nobody holds the lock");
                if r {
                    for j in 0..n {
                        if order && j != i && st[j] == P::Waiting && since[j] < since[i] {
                            // known weakness of the lock: woken is not the same as granted
                            let s = if cnt[j].0.load(Ordering::SeqCst) > seen[j] { "overtaken/woken-but-not-polled" } else { "overtaken/requeued-behind" };
                            mc::violation(s, format!("party {i} got the lock although party {j} has been waiting longer"));
                        }
                    }
                    st[i] = P::Holding;
                } else {
                    st[i] = P::Waiting;
                    q.push_back(i);
                }
            }
            2 => {
                st[i] = P::Idle;
                let before: Vec<usize> = cnt.iter().map(|c| c.0.load(Ordering::SeqCst)).collect();
                w.unlock();
                let head = q.pop_front();
                for j in 0..n {
                    let d = cnt[j].0.load(Ordering::SeqCst) - before[j];
                    if Some(j) == head {
                        check!(d == 1, "wake-order", "the release woke the longest waiting registration (party {j}) {d} times");
                    } else {
                        check!(d == 0, "wake-order", "the release woke party {j}; the longest waiting registration is {head:?}");
                    }
                }
                if let Some(h) = head {
                    if st[h] == P::Gone {
                        cause = Some("lost-wakeup/cancelled-waiter");
                    } else if st[h] != P::Waiting || before[h] > seen[h] {
                        cause = Some("lost-wakeup/duplicate-registration");
                    }
                }
            }
            _ => {
                // a waiter gives up; if it had been woken, the wakeup goes with it
                if cnt[i].0.load(Ordering::SeqCst) > seen[i] {
                    cause = Some("lost-wakeup/cancelled-waiter");
                }
                st[i] = P::Gone;
            }
        }
        let held = st.iter().any(|s| *s == P::Holding);
        check!(w.is_free() == !held, "is-free", "is_free() is {} but held={held}", w.is_free());
        if !cancel && !spurious {
            check!(w.queue_len() == q.len(), "queue-len", "queue_len() is {} with {} parties waiting", w.queue_len(), q.len());
        }
        if !held && !order {
            let waiting: Vec<usize> = (0..n).filter(|j| st[*j] == P::Waiting).collect();
            let woken = waiting.iter().any(|j| cnt[*j].0.load(Ordering::SeqCst) > seen[*j]);
            if !waiting.is_empty() && !woken {
                let s = cause.unwrap_or("lost-wakeup");
                mc::violation(s, format!("the lock is free, {waiting:?} wait for it, and nobody was woken"));
                break;
            }
        }
    }
    mc::outcome((log.len(), st.iter().map(|s| *s as u8).collect::<Vec<_>>(), q.len()));
}

struct Park {
    woken: AtomicBool,
    res: usize,
}
impl Wake for Park {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        mc::sched::wake_all(self.res);
    }
}
fn waiter_threads(p: &Params) {
    let n = p.u("threads", 2);
    let rounds = p.u("rounds", 1);
    mc::sched::enable(true);
    let w = Arc::new(AsyncWaiter::new());
    let inside = Arc::new(AtomicUsize::new(0));
    let order: Arc<Mutex<Vec<u8>>> = Default::default();
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (w, inside, order) = (w.clone(), inside.clone(), order.clone());
            vstd::thread::spawn(move || {
                let pk = Arc::new(Park { woken: AtomicBool::new(false), res: 1_000_000 + i });
                let wk = Waker::from(pk.clone());
                for _ in 0..rounds {
                    while !w.try_lock(&mut Context::from_waker(&wk)) {
                        while !pk.woken.swap(false, Ordering::SeqCst) {
                            mc::sched::block(pk.res, None, "waiting for the isolate lock");
                        }
                    }
                    let c = inside.fetch_add(1, Ordering::SeqCst);
                    check!(c == 0, "two-holders", "{} threads hold the lock", c + 1);
                    mc::sched::point("inside");
                    order.lock().unwrap().push(i as u8);
                    inside.fetch_sub(1, Ordering::SeqCst);
                    w.unlock();
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    check!(w.is_free(), "is-free", "everybody released the lock, it is not free");
    mc::outcome(order.lock().unwrap().clone());
}

// ------------------------------------------------------------------ ArrayBuffer allocator
#[derive(Clone, Copy)]
struct Alloc(*mut c_void);
unsafe impl Send for Alloc {}
unsafe impl Sync for Alloc {}
fn new_allocator(max: usize) -> (Arc<rt::security::CustomAllocator>, Alloc, Arc<AtomicBoolV>) {
    let flag = Arc::new(AtomicBoolV::new(false));
    let a = rt::security::CustomAllocator::new(max, flag.clone());
    let u = a.clone().into_v8_allocator();
    (a, Alloc(u.into_raw() as *mut c_void), flag)
}
type AtomicBoolV = vstd::sync::atomic::AtomicBool;

fn allocator_ops(p: &Params) {
    let depth = p.u("depth", 5);
    let max = *mc::pick(&[100usize, 4096, 0], "max");
    let (a, raw, flag) = new_allocator(max);
    struct Buf {
        p: *mut u8,
        n: usize,
        tag: u8,
    }
    let mut live: Vec<Buf> = vec![];
    let mut used = 0usize;
    let mut denied = false;
    let mut tag = 1u8;
    for _ in 0..depth {
        if mc::foreign() {
            break;
        }
        let mut ops: Vec<(bool, usize)> = vec![];
        let left = max - used;
        let mut sizes = vec![0, 1, 24, left / 2, left, left + 1, max + 1, usize::MAX / 2, usize::MAX - used, usize::MAX];
        if used > 0 {
            sizes.push((usize::MAX - used).wrapping_add(1)); // wraps to 0 when added
            sizes.push((usize::MAX - used).saturating_add(2));
        }
        sizes.sort();
        sizes.dedup();
        for s in &sizes {
            ops.push((true, *s));
            if *s <= left {
                ops.push((false, *s));
            }
        }
        let nb = ops.len();
        let c = mc::free(nb + live.len(), "op");
        if c < nb {
            let (zero, n) = ops[c];
            mc::event(format!("allocate{}({n}) with {used}/{max} in use", if zero { "" } else { "_uninitialized" }));
            let ptr = unsafe { if zero { shim_allocator_allocate(raw.0, n) } else { shim_allocator_allocate_uninit(raw.0, n) } };
            if n <= left {
                check!(!ptr.is_null(), "denied", "{n} bytes were denied with {used} of {max} in use");
            } else {
                check!(ptr.is_null(), "over-limit", "{n} bytes were granted with {used} of {max} in use");
                denied = true;
            }
            if ptr.is_null() {
                denied = true;
            } else if n <= left {
                let sl = unsafe { std::slice::from_raw_parts_mut(ptr, n) };
                if zero {
                    check!(sl.iter().all(|b| *b == 0), "not-zeroed", "a new buffer of {n} bytes is not zeroed");
                }
                for b in &live {
                    let o = (ptr as usize) < b.p as usize + b.n && (b.p as usize) < ptr as usize + n;
                    check!(!o || n == 0 || b.n == 0, "overlap", "two live buffers overlap");
                }
                sl.fill(tag);
                live.push(Buf { p: ptr, n, tag });
                tag = tag.wrapping_add(37).max(1);
                used += n;
            } else {
                return; // reported above; the buffer is not usable
            }
        } else {
            let b = live.remove(c - nb);
            mc::event(format!("free({})", b.n));
            unsafe { shim_allocator_free(raw.0, b.p, b.n) };
            used -= b.n;
        }
        for b in &live {
            let sl = unsafe { std::slice::from_raw_parts(b.p, b.n) };
            check!(sl.iter().all(|x| *x == b.tag), "corrupted", "a live buffer of {} bytes changed", b.n);
        }
        check!(a.current_usage() == used, "usage", "usage {} reported, {used} bytes are allocated", a.current_usage());
        check!(flag.load(Ordering::SeqCst) == denied, "limit-flag", "limit-hit flag {}, denied={denied}", flag.load(Ordering::SeqCst));
    }
    mc::outcome((used, live.len(), denied));
    for b in live.drain(..) {
        unsafe { shim_allocator_free(raw.0, b.p, b.n) };
    }
    check!(a.current_usage() == 0, "usage", "usage {} reported after everything was freed", a.current_usage());
    check!(Arc::strong_count(&a) == 2, "allocator-ref", "allocator has {} owners", Arc::strong_count(&a));
    unsafe { shim_allocator_delete(raw.0) };
    check!(Arc::strong_count(&a) == 1, "allocator-leak", "the allocator outlives its isolate");
}

fn allocator_threads(p: &Params) {
    let n = p.u("threads", 2);
    const MAX: usize = 100;
    let scripts: Vec<Vec<usize>> = (0..n).map(|_| mc::pick(&[vec![50], vec![100], vec![60, 40], vec![50, 50], vec![101], vec![10, 101]], "script").clone()).collect();
    mc::sched::enable(true);
    let (a, raw, _f) = new_allocator(MAX);
    struct Call {
        n: usize,
        s: u64,
        e: u64,
        granted: bool,
        freed: u64,
    }
    let log: Arc<Mutex<(u64, Vec<Call>)>> = Default::default();
    let hs: Vec<_> = scripts
        .iter()
        .cloned()
        .map(|sc| {
            let log = log.clone();
            vstd::thread::spawn(move || {
                let raw = raw;
                let raw = &raw;
                for n in sc {
                    let id = {
                        let mut l = log.lock().unwrap();
                        l.0 += 1;
                        let s = l.0;
                        l.1.push(Call { n, s, e: u64::MAX, granted: false, freed: u64::MAX });
                        l.1.len() - 1
                    };
                    let ptr = unsafe { shim_allocator_allocate(raw.0, n) };
                    {
                        let mut l = log.lock().unwrap();
                        l.0 += 1;
                        let t = l.0;
                        l.1[id].e = t;
                        l.1[id].granted = !ptr.is_null();
                        // certainly alive now: returned and not yet given back
                        let now: usize = l.1.iter().filter(|c| c.granted && c.e <= t && c.freed == u64::MAX).map(|c| c.n).sum();
                        check!(now <= MAX, "over-limit", "{now} bytes are allocated, the limit is {MAX}");
                    }
                    if !ptr.is_null() {
                        mc::sched::point("use");
                        {
                            let mut l = log.lock().unwrap();
                            l.1[id].freed = u64::MAX - 1; // being freed
                        }
                        unsafe { shim_allocator_free(raw.0, ptr, n) };
                        let mut l = log.lock().unwrap();
                        l.0 += 1;
                        let t = l.0;
                        l.1[id].freed = t;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let l = log.lock().unwrap();
    for (i, c) in l.1.iter().enumerate() {
        if c.granted {
            continue;
        }
        let peak = (c.s..=c.e).map(|t| l.1.iter().enumerate().filter(|(j, d)| *j != i && d.granted && d.s <= t && t <= d.freed).map(|(_, d)| d.n).sum::<usize>()).max().unwrap_or(0);
        check!(peak + c.n > MAX, "denied", "a request of {} bytes was denied although never more than {peak} of {MAX} bytes were in use", c.n);
    }
    check!(a.current_usage() == 0, "usage", "usage {} after everything was freed", a.current_usage());
    mc::outcome(l.1.iter().map(|c| c.granted).collect::<Vec<_>>());
    unsafe { shim_allocator_delete(raw.0) };
}

// ------------------------------------------------------------------ isolates shared by the executions of this process
struct Iso {
    l: *mut LockerManagedIsolate,
    p: *mut c_void,
    h: v8::IsolateHandle,
}
thread_local! { static ISO: RefCell<Vec<Iso>> = const { RefCell::new(vec![]) }; }
fn with_iso<R>(i: usize, f: impl FnOnce(&Iso) -> R) -> R {
    ISO.with(|v| {
        let mut v = v.borrow_mut();
        while v.len() <= i {
            mc::off(|| {
                let l = Box::into_raw(Box::new(LockerManagedIsolate::new(Default::default())));
                let k = v8::Locker::new(unsafe { &mut (*l).isolate });
                let p = unsafe { std::mem::transmute::<v8::UnsafeRawIsolatePtr, *mut c_void>(k.as_raw_isolate_ptr()) };
                let h = k.thread_safe_handle();
                drop(k);
                v.push(Iso { l, p, h });
            });
        }
        f(&v[i])
    })
}
pub(super) fn iso(i: usize) -> &'static mut LockerManagedIsolate {
    with_iso(i, |x| unsafe { &mut *x.l })
}
pub(super) fn iso_ptr(i: usize) -> *mut c_void {
    with_iso(i, |x| x.p)
}
pub(super) fn iso_handle(i: usize) -> v8::IsolateHandle {
    with_iso(i, |x| x.h.clone())
}

// ------------------------------------------------------------------ deferred destruction
fn deferred(p: &Params) {
    let threads = p.u("threads", 2);
    let per = p.u("per", 2);
    let passes = p.u("passes", 2);
    let i0 = iso(0);
    shim::log_start(iso_ptr(0), false);
    let mut handles: Vec<Vec<v8::Global<v8::String>>> = vec![];
    {
        let mut locker = v8::Locker::new(&mut i0.isolate);
        let scope = std::pin::pin!(v8::HandleScope::new(&mut *locker));
        let scope = scope.init();
        for _ in 0..threads {
            handles.push((0..per).map(|_| v8::Global::new(&scope, v8::String::empty(&scope))).collect());
        }
    }
    let total = threads * per;
    let q = Arc::new(DeferredDestructionQueue::new());
    i0.deferred_destruction_queue = q.clone();
    let done = Arc::new(AtomicUsize::new(0));
    let (started, max_len) = (Arc::new(AtomicUsize::new(0)), total as u64);
    mc::sched::enable(true);
    let hs: Vec<_> = handles
        .into_iter()
        .map(|hv| {
            let (q, done, started) = (q.clone(), done.clone(), started.clone());
            struct Own(Vec<v8::Global<v8::String>>);
            unsafe impl Send for Own {}
            let hv = Own(hv);
            vstd::thread::spawn(move || {
                let hv = hv;
                for h in { hv }.0 {
                    started.fetch_add(1, Ordering::SeqCst);
                    q.defer(h);
                    done.fetch_add(1, Ordering::SeqCst);
                }
            })
        })
        .collect();
    let mut resets = 0usize;
    let mut log = vec![];
    let collect = |resets: &mut usize| {
        for r in shim::log_take() {
            if r.kind == RESET {
                *resets += 1;
                check!(r.v == 1, "unlocked-destruction", "a handle was destroyed by a thread that does not hold the isolate");
            }
        }
    };
    for k in 0..=passes {
        if k == passes {
            // the last pass comes after everybody finished
            break;
        }
        mc::sched::point("pass");
        let before = done.load(Ordering::SeqCst);
        let g = i0.lock();
        collect(&mut resets);
        check!(resets >= before, "not-destroyed", "{before} handles were deferred before the isolate was locked, {resets} are destroyed");
        check!(resets <= started.load(Ordering::SeqCst), "double-destruction", "{resets} destructions of {} handles", started.load(Ordering::SeqCst));
        let l = q.len();
        check!(l <= max_len, "count", "{l} destructions are reported pending, only {total} handles exist");
        log.push(resets);
        drop(g);
    }
    for h in hs {
        let _ = h.join();
    }
    let pend = q.len();
    collect(&mut resets);
    check!(pend == (total - resets) as u64, "count", "{pend} destructions reported pending, {} are", total - resets);
    check!(q.is_empty() == (pend == 0) && q.has_pending() == (pend > 0), "count", "is_empty/has_pending disagree with len {pend}");
    let g = i0.lock();
    collect(&mut resets);
    check!(resets == total, "not-destroyed", "{resets} of {total} deferred handles were destroyed after the last lock");
    check!(q.is_empty() && q.len() == 0, "count", "{} destructions are still reported pending", q.len());
    drop(g);
    mc::sched::enable(false);
    // nothing is destroyed a second time when the queue goes away
    i0.deferred_destruction_queue = Arc::new(DeferredDestructionQueue::new());
    drop(q);
    collect(&mut resets);
    check!(resets == total, "double-destruction", "{resets} destructions of {total} handles");
    shim::log_stop();
    mc::outcome(log);
}

// ------------------------------------------------------------------ external memory
struct Ext {
    rep: [i64; 2],
}
impl Ext {
    fn pull(&mut self) {
        for r in shim::log_take() {
            if r.kind == ADJUST {
                let i = (0..2).find(|i| iso_ptr(*i) == r.p);
                match i {
                    Some(i) => self.rep[i] += r.v,
                    None => mc::violation("unknown-isolate", "memory was reported to an isolate that takes no part".into()),
                }
            }
        }
    }
}
fn pend(i: usize) -> i64 {
    iso(i).pending_memory_delta.load(Ordering::SeqCst)
}
fn lock_static(i: usize) -> Box<(v8::Locker<'static>, rt::JsLock)> {
    Box::new(iso(i).lock())
}
/// Guards created, adjusted and dropped while either isolate, both (nested) or none
/// is locked. Every byte a guard tracks is reported to its own isolate, once.
fn extmem_ops(p: &Params) {
    let depth = p.u("depth", 5);
    let ng = p.u("guards", 2);
    let _ = (iso(0), iso(1));
    for i in 0..2 {
        iso(i).pending_memory_delta.store(0, Ordering::SeqCst);
    }
    shim::log_start(std::ptr::null_mut(), false);
    let mut e = Ext { rep: [0, 0] };
    let mut locks: Vec<(usize, Box<(v8::Locker<'static>, rt::JsLock)>)> = vec![];
    struct G {
        g: ExternalMemoryGuard,
        own: Option<usize>,
        amt: i64,
    }
    let mut gs: Vec<Option<G>> = vec![];
    let mut deferred = [false; 2];
    let mut log: Vec<u8> = vec![];
    for _ in 0..depth {
        if mc::foreign() {
            break;
        }
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Lock(usize),
            Unlock,
            New(i64),
            Adjust(usize, i64),
            Set(usize, i64),
            Drop(usize),
        }
        let mut ops = vec![];
        for i in 0..2 {
            if !locks.iter().any(|l| l.0 == i) {
                ops.push(Op::Lock(i));
            }
        }
        if !locks.is_empty() {
            ops.push(Op::Unlock);
        }
        if gs.len() < ng {
            ops.push(Op::New(0));
            ops.push(Op::New(1000));
        }
        for (i, g) in gs.iter().enumerate() {
            if let Some(g) = g {
                ops.push(Op::Adjust(i, 300));
                if g.amt >= 200 {
                    ops.push(Op::Adjust(i, -200));
                }
                ops.push(Op::Set(i, 50));
                ops.push(Op::Drop(i));
            }
        }
        let c = mc::free(ops.len(), "op");
        let op = ops[c];
        log.push(c as u8);
        mc::event(format!("{op:?}"));
        let cur = locks.last().map(|l| l.0);
        let sum = |gs: &[Option<G>], i: usize| gs.iter().flatten().filter(|g| g.own == Some(i)).map(|g| g.amt).sum::<i64>();
        match op {
            Op::Lock(i) => {
                locks.push((i, lock_static(i)));
                deferred[i] = false;
                e.pull();
                check!(pend(i) == 0, "pending", "deferred memory of isolate {i} is not applied when it is locked");
                check!(e.rep[i] == sum(&gs, i), "report", "isolate {i} was told {} bytes when locked, its guards track {}", e.rep[i], sum(&gs, i));
            }
            Op::Unlock => {
                locks.pop();
            }
            Op::New(n) => {
                let g = if n == 0 { ExternalMemoryGuard::empty() } else { ExternalMemoryGuard::new(n) };
                gs.push(Some(G { g, own: cur, amt: n }));
            }
            Op::Adjust(i, d) => {
                let g = gs[i].as_mut().unwrap();
                g.g.adjust(d);
                g.amt += d;
                if g.own.is_none() {
                    g.own = cur;
                }
            }
            Op::Set(i, v) => {
                let g = gs[i].as_mut().unwrap();
                g.g.set(v);
                if g.own.is_none() && g.amt != v {
                    g.own = cur;
                }
                g.amt = v;
            }
            Op::Drop(i) => {
                gs[i] = None;
            }
        }
        e.pull();
        for (i, g) in gs.iter().enumerate() {
            if let Some(g) = g {
                check!(g.g.amount() == g.amt, "amount", "guard {i} says {} bytes, {} were requested", g.g.amount(), g.amt);
            }
        }
        for i in 0..2 {
            let s = sum(&gs, i);
            check!(e.rep[i] + pend(i) == s, "balance", "isolate {i}: reported {} + deferred {}, its guards track {s}", e.rep[i], pend(i));
            // what happens while an isolate is the locked one reaches it at once
            if pend(i) != 0 && cur != Some(i) {
                deferred[i] = true; // legitimately: another isolate (or none) was locked
            }
            if locks.last().map(|l| l.0) == Some(i) && !deferred[i] {
                check!(pend(i) == 0, "late-report", "isolate {i} is locked, yet {} bytes were deferred", pend(i));
            }
        }
    }
    for g in gs.iter_mut() {
        *g = None;
    }
    while locks.pop().is_some() {}
    for i in 0..2 {
        let l = lock_static(i);
        e.pull();
        check!(e.rep[i] == 0 && pend(i) == 0, "balance", "isolate {i} keeps {} bytes of guards that are gone", e.rep[i]);
        drop(l);
    }
    shim::log_stop();
    mc::outcome(log);
}

fn extmem_threads(p: &Params) {
    let threads = p.u("threads", 2);
    let _ = iso(0);
    iso(0).pending_memory_delta.store(0, Ordering::SeqCst);
    let scripts: Vec<usize> = (0..threads).map(|_| mc::free(3, "script")).collect();
    shim::log_start(std::ptr::null_mut(), false);
    let mut e = Ext { rep: [0, 0] };
    let mut gs = vec![];
    {
        let _l = lock_static(0);
        for i in 0..threads {
            gs.push(ExternalMemoryGuard::new(1000 << i));
        }
    }
    mc::sched::enable(true);
    let kept: Arc<Mutex<Vec<ExternalMemoryGuard>>> = Default::default();
    let hs: Vec<_> = gs
        .into_iter()
        .zip(scripts)
        .map(|(mut g, s)| {
            let kept = kept.clone();
            vstd::thread::spawn(move || match s {
                0 => drop(g),
                1 => {
                    g.adjust(7);
                    drop(g);
                }
                _ => {
                    g.set(5);
                    g.adjust(3);
                    kept.lock().unwrap().push(g);
                }
            })
        })
        .collect();
    for _ in 0..2 {
        let l = lock_static(0);
        mc::sched::point("locked");
        e.pull();
        drop(l);
    }
    for h in hs {
        let _ = h.join();
    }
    mc::sched::enable(false);
    drop(lock_static(0));
    e.pull();
    let left: i64 = kept.lock().unwrap().iter().map(|g| g.amount()).sum();
    check!(e.rep[0] == left && pend(0) == 0, "balance", "isolate was told {} bytes, the guards left track {left}", e.rep[0]);
    {
        let _l = lock_static(0);
        kept.lock().unwrap().clear();
    }
    e.pull();
    check!(e.rep[0] == 0, "balance", "isolate keeps {} bytes of guards that are gone", e.rep[0]);
    shim::log_stop();
    mc::outcome(left);
}

// ------------------------------------------------------------------ sizes reported to the collector
use std::mem::size_of;
macro_rules! subset {
    ($n:ident, $t:ident, $u:ident, [$($a:meta)?] [$($b:meta)?] [$($c:meta)?] [$($d:meta)?]) => {
        #[allow(dead_code)]
        #[derive(DeriveGcTraceable)]
        struct $n { $(#[$a])? a: Vec<u8>, $(#[$b])? b: String, $(#[$c])? c: Option<Box<Vec<u8>>>, $(#[$d])? d: Vec<String> }
        #[allow(dead_code)]
        #[derive(DeriveGcTraceable)]
        struct $t($(#[$a])? Vec<u8>, $(#[$b])? String, $(#[$c])? Option<Box<Vec<u8>>>, $(#[$d])? Vec<String>);
        #[allow(dead_code)]
        #[derive(DeriveGcTraceable)]
        struct $u<'a, T: GcTraceable, const N: usize> where T: Clone { $(#[$a])? a: T, $(#[$b])? b: T, $(#[$c])? c: T, $(#[$d])? d: T, e: &'a [u8; N] }
    };
}
subset!(S0, T0, U0, [] [] [] []);
subset!(S1, T1, U1, [gc(track)] [] [] []);
subset!(S2, T2, U2, [] [gc(track)] [] []);
subset!(S3, T3, U3, [gc(track)] [gc(track)] [] []);
subset!(S4, T4, U4, [] [] [gc(track)] []);
subset!(S5, T5, U5, [gc(track)] [] [gc(track)] []);
subset!(S6, T6, U6, [] [gc(track)] [gc(track)] []);
subset!(S7, T7, U7, [gc(track)] [gc(track)] [gc(track)] []);
subset!(S8, T8, U8, [] [] [] [gc(track)]);
subset!(S9, T9, U9, [gc(track)] [] [] [gc(track)]);
subset!(S10, T10, U10, [] [gc(track)] [] [gc(track)]);
subset!(S11, T11, U11, [gc(track)] [gc(track)] [] [gc(track)]);
subset!(S12, T12, U12, [] [] [gc(track)] [gc(track)]);
subset!(S13, T13, U13, [gc(track)] [] [gc(track)] [gc(track)]);
subset!(S14, T14, U14, [] [gc(track)] [gc(track)] [gc(track)]);
subset!(S15, T15, U15, [gc(track)] [gc(track)] [gc(track)] [gc(track)]);
#[derive(DeriveGcTraceable)]
struct UnitS;
#[derive(DeriveGcTraceable)]
#[gc(crate_path = "openworkers_runtime_v8")]
struct WithPath {
    #[gc(track)]
    inner: S15,
    #[gc(track)]
    more: Vec<S3>,
}

fn vecu8(cap: usize, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(cap);
    v.resize(len.min(cap), 7);
    v
}
fn strc(cap: usize, len: usize) -> String {
    let mut s = String::with_capacity(cap);
    for _ in 0..len.min(cap) {
        s.push('x');
    }
    s
}
fn trace_sizes(_p: &Params) {
    let cap = *mc::pick(&[0usize, 1, 5, 64], "cap");
    let len = *mc::pick(&[0usize, 1, 5], "len").min(&cap);
    let want = |got: usize, exp: usize, what: &str| check!(got == exp, "size", "{what} (capacity {cap}, length {len}) reports {got} bytes, holds {exp}");
    let k = mc::free(11, "shape");
    let v = vecu8(cap, len);
    let c = v.capacity();
    let s = strc(cap, len);
    let sc = s.capacity();
    match k {
        0 => want(v.external_memory_size(), c, "Vec<u8>"),
        1 => want(s.external_memory_size(), sc, "String"),
        2 => {
            let b = bytes::Bytes::from(v);
            want(b.external_memory_size(), len, "Bytes");
            let part = b.slice(0..len / 2);
            want(part.external_memory_size(), len / 2, "a slice of Bytes");
            want(bytes::Bytes::from_static(b"abc").external_memory_size(), 3, "static Bytes");
        }
        3 => {
            want(None::<Vec<u8>>.external_memory_size(), 0, "None");
            want(Some(v).external_memory_size(), c, "Some(Vec<u8>)");
            want(Some(Some(s)).external_memory_size(), sc, "Some(Some(String))");
        }
        4 => {
            want(Box::new(v).external_memory_size(), size_of::<Vec<u8>>() + c, "Box<Vec<u8>>");
            want(Box::new(Box::new(s)).external_memory_size(), size_of::<Box<String>>() + size_of::<String>() + sc, "Box<Box<String>>");
        }
        5 => {
            let r = Rc::new(v);
            want(r.external_memory_size(), size_of::<Vec<u8>>() + c, "a sole Rc");
            let r2 = r.clone();
            want(r.external_memory_size() + r2.external_memory_size(), 0, "a shared Rc");
            drop(r2);
            let wk = Rc::downgrade(&r);
            want(r.external_memory_size(), size_of::<Vec<u8>>() + c, "a sole Rc with a weak reference");
            drop(wk);
        }
        6 => {
            let r = Arc::new(s);
            want(r.external_memory_size(), size_of::<String>() + sc, "a sole Arc");
            let r2 = r.clone();
            want(r.external_memory_size() + r2.external_memory_size(), 0, "a shared Arc");
            drop(r);
            want(r2.external_memory_size(), size_of::<String>() + sc, "an Arc that became the only one");
        }
        7 => {
            let n = mc::free(4, "n");
            let mut o: Vec<Vec<u8>> = Vec::with_capacity(mc::free(5, "ocap"));
            let mut e = 0;
            for i in 0..n {
                let x = vecu8(cap + i, len);
                e += x.capacity();
                o.push(x);
            }
            e += o.capacity() * size_of::<Vec<u8>>();
            want(o.external_memory_size(), e, "Vec<Vec<u8>>");
            let w = vec![Some(o), None];
            want(w.external_memory_size(), e + w.capacity() * size_of::<Option<Vec<Vec<u8>>>>(), "Vec<Option<Vec<Vec<u8>>>>");
        }
        8 => {
            let m = mc::free(16, "tracked_fields");
            let shape = mc::free(3, "kind");
            let boxed = Some(Box::new(vecu8(2 * cap, len)));
            let strs = vec![strc(3, 1), strc(cap, 0)];
            let sizes = [c, sc, size_of::<Vec<u8>>() + boxed.as_ref().unwrap().capacity(), strs.capacity() * size_of::<String>() + strs.iter().map(|s| s.capacity()).sum::<usize>()];
            let exp: usize = (0..4).filter(|i| m >> i & 1 == 1).map(|i| sizes[i]).sum();
            macro_rules! go {
                ($($i:literal $S:ident $T:ident $U:ident;)*) => { match (m, shape) {
                    $(($i, 0) => want($S { a: v, b: s, c: boxed, d: strs }.external_memory_size(), exp, concat!("derived struct, fields mask ", $i)),
                      ($i, 1) => want($T(v, s, boxed, strs).external_memory_size(), exp, concat!("derived tuple struct, fields mask ", $i)),
                      ($i, _) => {
                        let g = |k: usize| vecu8(cap + k, 0);
                        let x = $U { a: g(0), b: g(100), c: g(1000), d: g(10000), e: &[0u8; 3] };
                        let z = [x.a.capacity(), x.b.capacity(), x.c.capacity(), x.d.capacity()];
                        let e: usize = (0..4).filter(|i| m >> i & 1 == 1).map(|i| z[i]).sum();
                        want(x.external_memory_size(), e, concat!("derived generic struct, fields mask ", $i));
                      })*
                    _ => unreachable!() } };
            }
            go! { 0 S0 T0 U0; 1 S1 T1 U1; 2 S2 T2 U2; 3 S3 T3 U3; 4 S4 T4 U4; 5 S5 T5 U5; 6 S6 T6 U6; 7 S7 T7 U7;
                  8 S8 T8 U8; 9 S9 T9 U9; 10 S10 T10 U10; 11 S11 T11 U11; 12 S12 T12 U12; 13 S13 T13 U13; 14 S14 T14 U14; 15 S15 T15 U15; }
        }
        9 => {
            want(UnitS.external_memory_size(), 0, "a unit struct");
            let inner = S15 { a: v, b: s, c: None, d: vec![] };
            let more = vec![S3 { a: vecu8(9, 1), b: strc(4, 0), c: Some(Box::new(vecu8(50, 0))), d: vec![strc(8, 1)] }];
            let e = c + sc + more.capacity() * size_of::<S3>() + more[0].a.capacity() + more[0].b.capacity();
            want(WithPath { inner, more }.external_memory_size(), e, "a derived struct of derived structs");
        }
        _ => {
            // a guard made from a value reports its size
            let g = tracked_guard(&v);
            want(g.amount() as usize, c, "tracked_guard");
        }
    }
    mc::outcome((k, cap, len));
}

fn tracked_ops(p: &Params) {
    let depth = p.u("depth", 4);
    let _ = iso(0);
    iso(0).pending_memory_delta.store(0, Ordering::SeqCst);
    shim::log_start(std::ptr::null_mut(), false);
    let mut e = Ext { rep: [0, 0] };
    let mut lock = Some(lock_static(0));
    let n0 = *mc::pick(&[0usize, 10, 1000], "initial");
    let mut t = Some(Tracked::new(vecu8(n0, n0)));
    let mut synced = t.as_ref().unwrap().get().capacity() as i64;
    let mut content = vec![7u8; n0];
    for _ in 0..depth {
        let c = mc::free(7, "op");
        mc::event(["resize", "shrink", "update_size", "lock/unlock", "into_inner", "drop", "push"][c].to_string());
        match (c, t.as_mut()) {
            (0, Some(t)) => {
                t.get_mut().resize(3000, 1);
                content.resize(3000, 1);
            }
            (1, Some(t)) => {
                t.get_mut().truncate(2);
                t.get_mut().shrink_to_fit();
                content.truncate(2);
            }
            (2, Some(t)) => {
                t.update_size();
                synced = t.get().capacity() as i64;
            }
            (3, _) => {
                lock = if lock.is_some() { None } else { Some(lock_static(0)) };
            }
            (4, Some(_)) => {
                let v = t.take().unwrap().into_inner();
                check!(v == content, "value", "into_inner returned another value");
                synced = 0;
            }
            (5, Some(_)) => {
                t = None;
                synced = 0;
            }
            (6, Some(t)) => {
                t.get_mut().push(9);
                content.push(9);
            }
            _ => {}
        }
        if let Some(t) = &t {
            check!(**t == content && t.get() == &content, "value", "the tracked value changed by itself");
        }
        e.pull();
        check!(e.rep[0] + pend(0) == synced, "balance", "{} bytes reported (+{} deferred), the value was last synced at {synced}", e.rep[0], pend(0));
        if lock.is_some() {
            check!(pend(0) == 0, "pending", "bytes stay deferred although the isolate is locked");
        }
    }
    drop(t);
    drop(lock);
    drop(lock_static(0));
    e.pull();
    check!(e.rep[0] == 0, "balance", "{} bytes stay reported after the value is gone", e.rep[0]);
    shim::log_stop();
    mc::outcome(synced);
}

// ------------------------------------------------------------------ wall-clock watchdog
fn timeout_guard(p: &Params) {
    let two = p.b("two");
    const MS: u64 = 1_000_000;
    let _ = (iso(0), iso(1));
    shim::log_start(std::ptr::null_mut(), true);
    mc::sched::enable(true);
    let n = if two { 2 } else { 1 };
    let eager = p.b("eager");
    mc::sched::eager_time(eager);
    let ts: Vec<u64> = (0..n).map(|_| *mc::pick(&[5u64, 0, 1, 1500, if eager { 1 << 40 } else { u64::MAX }], "limit")).collect();
    let t0 = mc::sched::now_ns();
    let mut gs: Vec<Option<rt::security::TimeoutGuard>> = (0..n).map(|i| Some(rt::security::TimeoutGuard::new(iso_handle(i), ts[i]))).collect();
    let mut fired = vec![0usize; 2];
    let mut gone = vec![false; n];
    let pull = |fired: &mut Vec<usize>, gone: &Vec<bool>| {
        for r in shim::log_take() {
            if r.kind == TERMINATE {
                let i = (0..2).find(|i| iso_ptr(*i) == r.p).unwrap_or(0);
                fired[i] += 1;
                check!(i < n && ts[i] != 0, "disabled-fired", "isolate {i} was terminated although it has no limit");
                if i < n {
                    let el = mc::sched::now_ns() - t0;
                    check!(el >= ts[i].saturating_mul(MS), "early", "limit {} ms, terminated after {} ms", ts[i], el / MS);
                    check!(!gone[i], "late-termination", "isolate {i} was terminated after its guard was dropped");
                }
            }
        }
    };
    let steps = p.u("steps", 3);
    for _ in 0..steps {
        let c = mc::free(3 + n, "step");
        match c {
            0 => mc::sched::sleep(1 * MS),
            1 => mc::sched::sleep(5 * MS),
            // past the limit of 1.5 s
            2 => mc::sched::sleep(if ts.contains(&1500) && mc::sched::now_ns() - t0 < 1500 * MS { 1512 } else { 22 } * MS),
            i => {
                let i = i - 3;
                if let Some(g) = gs[i].take() {
                    pull(&mut fired, &gone);
                    drop(g);
                    pull(&mut fired, &gone);
                    gone[i] = true;
                }
            }
        }
        pull(&mut fired, &gone);
        let el = mc::sched::now_ns() - t0;
        for i in 0..n {
            if let Some(g) = &gs[i] {
                let trig = g.was_triggered();
                pull(&mut fired, &gone);
                check!(!trig || fired[i] > 0 || ts[i] > 0, "trigger-flag", "a disabled guard says it fired");
                check!(!(trig && el < ts[i].saturating_mul(MS)) || mc::sched::now_ns() - t0 >= ts[i].saturating_mul(MS), "early", "flag set after {} ms, limit {}", el / MS, ts[i]);
            }
        }
    }
    // let everything that is due happen: one more sleep gives the watchdogs the processor
    mc::sched::settle();
    mc::sched::enable(false);
    pull(&mut fired, &gone);
    let el = mc::sched::now_ns() - t0;
    for i in 0..n {
        if let Some(g) = &gs[i] {
            let due = !eager && ts[i] > 0 && el > ts[i].saturating_mul(MS);
            check!(!due || fired[i] > 0, "not-terminated", "limit {} ms, {} ms elapsed and the isolate still runs", ts[i], el / MS);
            check!(g.was_triggered() == (fired[i] > 0), "trigger-flag", "was_triggered {} but terminated {} times", g.was_triggered(), fired[i]);
        }
    }
    mc::sched::enable(true);
    for i in 0..n {
        gs[i] = None;
        pull(&mut fired, &gone);
        gone[i] = true;
    }
    mc::sched::sleep(3000 * MS);
    mc::sched::settle();
    pull(&mut fired, &gone);
    check!(mc::sched::live_threads() == 1, "watchdog-leak", "{} watchdog threads outlive their guards", mc::sched::live_threads() - 1);
    shim::log_stop();
    mc::outcome((ts, fired));
}
