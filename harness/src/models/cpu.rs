//! CPU limit: the kernel's timers are replaced by a table, and expiry is an
//! environment event (a real, queued signal with the timer's value).
use super::sec::{iso, iso_handle, iso_ptr};
use crate::shim::{self, *};
use crate::{ModelFn, Params};
use mc::check;
use mc::sched::gate;
use openworkers_runtime_v8 as rt;
use rt::security::CpuEnforcer;
use std::ffi::c_void;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("cpu_ops", cpu_ops), ("cpu_drop_race", cpu_drop_race), ("cpu_burst", cpu_burst)]
}

#[derive(Clone, Copy)]
pub(super) struct Timer {
    clock: i32,
    signo: i32,
    value: usize,
    pub(super) armed: i128,
    /// 0: one shot
    pub(super) interval: i128,
    pub(super) live: bool,
}
pub(super) static TIMERS: Mutex<Vec<Timer>> = Mutex::new(vec![]);
static FAIL: Mutex<(bool, bool)> = Mutex::new((false, false));

fn enomem() -> i32 {
    unsafe { *libc::__errno_location() = libc::EAGAIN };
    -1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_timer_create(clock: libc::clockid_t, ev: *mut libc::sigevent, id: *mut libc::timer_t) -> i32 {
    if FAIL.lock().unwrap().0 {
        return enomem();
    }
    let mut t = TIMERS.lock().unwrap();
    let e = unsafe { &*ev };
    t.push(Timer { clock, signo: e.sigev_signo, value: e.sigev_value.sival_ptr as usize, armed: -1, interval: 0, live: true });
    unsafe { *id = t.len() as *mut c_void };
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_timer_settime(id: libc::timer_t, _f: i32, new: *const libc::itimerspec, old: *mut libc::itimerspec) -> i32 {
    if FAIL.lock().unwrap().1 {
        return enomem();
    }
    let n = unsafe { &*new };
    let mut t = TIMERS.lock().unwrap();
    if !old.is_null() {
        let a = t[id as usize - 1].armed.max(0);
        unsafe { (*old) = std::mem::zeroed() };
        unsafe { (*old).it_value = libc::timespec { tv_sec: (a / 1_000_000_000) as i64, tv_nsec: (a % 1_000_000_000) as i64 } };
    }
    t[id as usize - 1].armed = n.it_value.tv_sec as i128 * 1_000_000_000 + n.it_value.tv_nsec as i128;
    t[id as usize - 1].interval = n.it_interval.tv_sec as i128 * 1_000_000_000 + n.it_interval.tv_nsec as i128;
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __wrap_timer_delete(id: libc::timer_t) -> i32 {
    let mut t = TIMERS.lock().unwrap();
    let x = &mut t[id as usize - 1];
    if !x.live {
        unsafe { *libc::__errno_location() = libc::EINVAL };
        return -1;
    }
    x.live = false;
    0
}
/// the signal thread exists
pub(super) fn warm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| drop(real(|| CpuEnforcer::new(iso_handle(2), 777))));
    TIMERS.lock().unwrap().clear();
}
pub(super) fn live() -> Vec<Timer> {
    TIMERS.lock().unwrap().iter().filter(|t| t.live).copied().collect()
}
#[repr(C)]
struct SigInfo {
    signo: i32,
    errno: i32,
    code: i32,
    _pad: i32,
    tid: i32,
    overrun: i32,
    value: usize,
    rest: [u64; 13],
}
pub(super) fn fire(t: Timer) {
    let mut si = SigInfo { signo: t.signo, errno: 0, code: -2, _pad: 0, tid: 0, overrun: 0, value: t.value, rest: [0; 13] };
    let r = unsafe {
        libc::syscall(libc::SYS_rt_tgsigqueueinfo, libc::getpid(), libc::syscall(libc::SYS_gettid), t.signo, &mut si as *mut SigInfo)
    };
    assert_eq!(r, 0, "rt_tgsigqueueinfo");
}
/// Operations that share locks with the (uncontrolled) signal thread.
fn real<R>(f: impl FnOnce() -> R) -> R {
    gate::exempt(|| mc::off(f))
}
unsafe impl Send for E {}
struct E {
    e: CpuEnforcer,
    t: Timer,
}
fn new(i: usize, ms: u64) -> Option<E> {
    let n = TIMERS.lock().unwrap().len();
    let e = real(|| CpuEnforcer::new(iso_handle(i), ms))?;
    let v = TIMERS.lock().unwrap();
    let t = v.get(n).copied();
    drop(v);
    match t {
        Some(t) => Some(E { e, t }),
        None => {
            mc::violation("not-armed", format!("an enforcer with a limit of {ms} ms created no timer"));
            None
        }
    }
}
/// Everything fired before has been handled once a sentinel enforcer, fired
/// afterwards, has terminated (its own isolate). Signals are handled in order.
pub(super) fn fence() {
    let Some(s) = new(2, 777) else { return };
    let t0 = Instant::now();
    let mut again = Instant::now();
    fire(s.t);
    while !real(|| s.e.was_terminated()) {
        std::thread::sleep(Duration::from_micros(20));
        if again.elapsed() > Duration::from_millis(500) {
            fire(s.t);
            again = Instant::now();
        }
        if t0.elapsed() > Duration::from_secs(15) {
            mc::fatal("not-terminated", "an enforcer whose timer expired did not terminate its isolate within 15 s".into());
        }
    }
    real(|| drop(s));
}
/// isolates terminated since the last call, the sentinel's excepted
fn terminated() -> Vec<usize> {
    shim::log_take()
        .into_iter()
        .filter(|r| r.kind == TERMINATE && r.p != iso_ptr(2))
        .map(|r| (0..2).find(|i| iso_ptr(*i) == r.p).unwrap_or(9))
        .collect()
}
fn begin() {
    let _ = (iso(0), iso(1), iso(2));
    *FAIL.lock().unwrap() = (false, false);
    shim::log_start(std::ptr::null_mut(), true);
    let _ = shim::log_take();
}

/// Every sequence of creating (with faults), expiring, rearming and dropping
/// enforcers of two isolates, expired timers of dropped enforcers included.
fn cpu_ops(p: &Params) {
    begin();
    TIMERS.lock().unwrap().clear();
    let depth = p.u("depth", 4);
    let reset = p.b("reset");
    let mut s: [Option<E>; 2] = [None, None];
    let mut lim = [0u64; 2];
    let mut flag = [false; 2];
    let mut stale: Option<Timer> = None;
    let mut log = vec![];
    for _ in 0..depth {
        if mc::foreign() {
            break;
        }
        let mut ops: Vec<(u8, usize)> = vec![];
        for i in 0..2 {
            if s[i].is_none() {
                ops.push((0, i));
            } else {
                ops.push((1, i));
                ops.push((2, i));
                if reset {
                    ops.push((4, i));
                }
            }
        }
        if stale.is_some() {
            ops.push((3, 0));
        }
        let (op, i) = ops[mc::free(ops.len(), "op")];
        let mut expect: Vec<usize> = vec![];
        let mut again = None;
        match op {
            0 => {
                let (ms, fc, fs) = *mc::pick(&[(50u64, false, false), (0, false, false), (1500, false, false), (20, true, false), (20, false, true)], "limit/fault");
                *FAIL.lock().unwrap() = (fc, fs);
                s[i] = new(i, ms);
                *FAIL.lock().unwrap() = (false, false);
                lim[i] = ms;
                flag[i] = false;
                mc::event(format!("new {i} limit {ms} faults {fc} {fs}"));
                let want = ms > 0 && !fc && !fs;
                check!(s[i].is_some() == want, "created", "limit {ms} (create fails {fc}, arm fails {fs}): enforcer present {}", s[i].is_some());
            }
            1 => {
                mc::event(format!("expire {i}"));
                fire(s[i].as_ref().unwrap().t);
                // what goes on after the limit may be terminated again
                if flag[i] {
                    again = Some(i);
                } else {
                    expect.push(i);
                }
                flag[i] = true;
            }
            2 => {
                mc::event(format!("drop {i}"));
                let e = s[i].take().unwrap();
                stale = Some(e.t);
                real(|| drop(e));
            }
            3 => {
                mc::event("expired timer of a dropped enforcer".into());
                fire(stale.unwrap());
            }
            _ => {
                mc::event(format!("rearm {i}"));
                let e = s[i].as_ref().unwrap();
                let r = real(|| e.e.reset(20));
                check!(r.is_ok(), "rearm", "rearming failed");
                lim[i] = 20;
                flag[i] = false;
            }
        }
        log.push(op * 2 + i as u8);
        fence();
        let mut got = terminated();
        got.dedup();
        check!(got == expect || got.len() == 1 && got.first() == again.as_ref(), "terminated", "isolates terminated: {got:?}, expected: {expect:?}");
        for i in 0..2 {
            if let Some(e) = &s[i] {
                let f = real(|| e.e.was_terminated());
                check!(f == flag[i], "flag", "was_terminated() of enforcer {i} is {f}, its timer expired: {}", flag[i]);
                let l: Vec<Timer> = live().into_iter().filter(|t| t.value == e.t.value).collect();
                check!(l.len() == 1, "timer", "{} timers for one enforcer", l.len());
                if let Some(t) = l.first() {
                    check!(t.armed == lim[i] as i128 * 1_000_000, "limit", "limit {} ms, the timer is set to {} ns", lim[i], t.armed);
                    check!(t.clock == libc::CLOCK_THREAD_CPUTIME_ID, "clock", "the timer measures clock {}, not this thread's CPU time", t.clock);
                }
            }
        }
        let n = s.iter().flatten().count();
        check!(live().len() == n, "timer-leak", "{} timers exist for {n} enforcers", live().len());
    }
    real(|| drop(s));
    check!(live().is_empty(), "timer-leak", "{} timers outlive their enforcers", live().len());
    shim::log_stop();
    mc::outcome(log);
}

/// The enforcer is dropped while the signal thread stands before its k-th
/// synchronization operation: once the drop is done, nothing is terminated any more.
fn cpu_drop_race(p: &Params) {
    begin();
    let kmax = p.u("points", 10);
    fence(); // the signal thread is up and idle
    let k = mc::free(kmax, "signal thread stops before its k-th operation") as u32 + 1;
    let other = mc::free(2, "another enforcer is armed on the isolate afterwards") == 1;
    let Some(e) = new(0, 100) else { return };
    let _ = terminated();
    gate::arm(k);
    fire(e.t);
    let t0 = Instant::now();
    while !gate::parked() && !real(|| e.e.was_terminated()) && t0.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_micros(50));
    }
    std::thread::sleep(Duration::from_millis(3));
    let parked = gate::parked();
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        gate::exempt(|| {
            let e = e;
            drop(e)
        });
        let _ = tx.send(());
    });
    let dropped = rx.recv_timeout(Duration::from_millis(if parked { 150 } else { 5000 })).is_ok();
    let before = terminated();
    mc::event(format!("signal thread stopped: {parked}; drop done meanwhile: {dropped}; terminations so far: {before:?}"));
    check!(parked || dropped, "drop-blocks", "dropping the enforcer does not finish");
    // the next execution of the same isolate, with its own limit
    let next = if other && dropped { new(0, 100) } else { None };
    gate::release();
    let _ = h.join();
    fence();
    let after = terminated();
    if parked && dropped {
        check!(after.is_empty(), "late-termination", "isolate terminated after its enforcer had been dropped (signal thread stopped before operation {k})");
    }
    if let Some(n) = next {
        check!(!real(|| n.e.was_terminated()), "late-termination", "the next execution's enforcer says it fired");
        real(|| drop(n));
    }
    shim::log_stop();
    mc::outcome((k, parked, dropped, before.len(), after.len()));
}

/// n executions exceed their limit while the signal thread is busy with the first.
fn cpu_burst(p: &Params) {
    begin();
    fence();
    let n = mc::free(p.u("max", 8), "executions over their limit at once") + 1;
    let es: Vec<E> = (0..n).filter_map(|_| new(0, 100)).collect();
    gate::arm(1);
    for (i, e) in es.iter().enumerate() {
        fire(e.t);
        if i == 0 {
            let t0 = Instant::now();
            while !gate::parked() && t0.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    gate::release();
    fence();
    let lost = es.iter().filter(|e| !real(|| e.e.was_terminated())).count();
    if lost > 0 {
        let s = if n > 6 { "burst-lost" } else { "lost" };
        mc::violation(s, format!("{n} executions exceeded their CPU limit at the same time, {lost} of them were not terminated"));
    }
    real(|| drop(es));
    shim::log_stop();
    mc::outcome((n, lost));
}
