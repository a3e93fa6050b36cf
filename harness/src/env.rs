//! Glue between the patched tokio scheduler and the explorer.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::rc::Rc;

/// Environment of a closed driver: events that may happen at any scheduler step.
pub trait Env {
    /// number of events that may happen now; `idle`: no code is running
    fn pending(&self, idle: bool) -> usize;
    fn fire(&self, i: usize);
    /// may an event also strike between two task polls (a deviation)?
    fn preempt(&self) -> bool {
        true
    }
    /// When the system is idle but for timers, time may pass up to the next one: the events from this
    /// number on come after that alternative (None: all events come before time passes).
    fn wait_at(&self) -> Option<usize> {
        None
    }
}
thread_local! {
    static ENV: RefCell<Option<Rc<dyn Env>>> = const { RefCell::new(None) };
    static TIMERS: Cell<bool> = const { Cell::new(false) };
    static HUNG: Cell<bool> = const { Cell::new(false) };
    static TASK_CHOICE: Cell<bool> = const { Cell::new(true) };
    static PICKS: Cell<u64> = const { Cell::new(0) };
    static PICK_LIMIT: Cell<u64> = const { Cell::new(200_000) };
}
pub fn set_env(e: Option<Rc<dyn Env>>) {
    ENV.with(|x| *x.borrow_mut() = e);
}
/// task polls so far
pub fn polls() -> u64 {
    PICKS.with(|p| p.get())
}
pub fn set_timers(b: bool) {
    TIMERS.with(|t| t.set(b));
}
pub fn set_task_choice(b: bool) {
    TASK_CHOICE.with(|t| t.set(b));
}
fn env() -> Option<Rc<dyn Env>> {
    ENV.with(|x| x.borrow().clone())
}
pub fn install_hooks() {
    tokio::mc_hooks::set(tokio::mc_hooks::Hooks {
        active: mc::active,
        choose: |n, l| {
            if l == "task" || l == "local" || l == "select" {
                let p = PICKS.with(|p| {
                    p.set(p.get() + 1);
                    p.get()
                });
                if p > PICK_LIMIT.with(|l| l.get()) {
                    mc::fatal("livelock", format!("the event loop did not settle within {p} task polls"));
                }
                if !TASK_CHOICE.with(|t| t.get()) {
                    return 0;
                }
            }
            mc::choose(n, l)
        },
        before_pick: || {
            if let Some(e) = env() {
                if e.preempt() {
                    let n = e.pending(false);
                    if n > 0 {
                        let c = mc::choose(n + 1, "env");
                        if c > 0 {
                            e.fire(c - 1);
                        }
                    }
                }
            }
        },
        on_idle: |timer| {
            if let Some(e) = env() {
                let n = e.pending(true);
                if n > 0 {
                    let at = e.wait_at().filter(|_| timer);
                    let c = mc::choose(n + at.is_some() as usize, "env.idle");
                    match at {
                        Some(a) if c == a => return false,
                        Some(a) if c > a => e.fire(c - 1),
                        _ => e.fire(c),
                    }
                    return true;
                }
            }
            false
        },
        hang: || {
            mc::fatal("hang", "nothing can make progress: no task is ready, no timer is set, no event is outstanding".into());
        },
        timers: || TIMERS.with(|t| t.get()),
    });
}
/// Run `f` on a current-thread runtime + LocalSet under explorer control, on
/// virtual time.
pub fn run<F: Future>(f: F) -> F::Output {
    PICKS.with(|p| p.set(0));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let ls = tokio::task::LocalSet::new();
    let r = ls.block_on(&rt, f);
    // teardown is not part of the explored behaviour
    mc::off(|| {
        drop(ls);
        rt.shutdown_background();
    });
    r
}
