#!/usr/bin/env python3
"""Copy tokio 1.50.0 from the cargo registry and put the explorer in charge of
its current-thread scheduler, LocalSet, select! randomness and idle time."""
import os, shutil, sys, glob

HOOKS = r'''
//! Hooks of the model checker (only in the patched copy under /verif/.build).
use std::sync::OnceLock;
#[derive(Clone, Copy, Debug)]
#[allow(missing_docs)]
pub struct Hooks {
    pub active: fn() -> bool,
    pub choose: fn(usize, &'static str) -> usize,
    pub before_pick: fn(),
    pub on_idle: fn(bool) -> bool,
    pub hang: fn(),
    pub timers: fn() -> bool,
}
static HOOKS: OnceLock<Hooks> = OnceLock::new();
#[allow(missing_docs)]
pub fn set(h: Hooks) { let _ = HOOKS.set(h); }
#[inline]
pub(crate) fn get() -> Option<&'static Hooks> {
    match HOOKS.get() { Some(h) if (h.active)() => Some(h), _ => None }
}
'''

BLOCK_ON = r'''
            if let Some(h) = crate::mc_hooks::get() {
                let mut root = false;
                let mut root_last = false;
                loop {
                    let handle = &context.handle;
                    if core.unhandled_panic {
                        return (core, None);
                    }
                    let (c, ()) = context.enter(core, || (h.before_pick)());
                    core = c;
                    while let Some(t) = handle.next_remote_task() {
                        core.push_task(handle, t);
                    }
                    root |= handle.reset_woken();
                    let nt = core.tasks.len();
                    let n = nt + root as usize;
                    if n == 0 {
                        if context.has_pending_work(&core) {
                            core = context.park_yield(core, handle);
                            continue;
                        }
                        let timer = handle.driver.time().mc_next_expiration().is_some();
                        let (c, progressed) = context.enter(core, || (h.on_idle)(timer));
                        core = c;
                        if progressed || context.has_pending_work(&core) {
                            core = context.park_yield(core, handle);
                            continue;
                        }
                        core = context.park(core, handle);
                        continue;
                    }
                    let timers = (h.timers)()
                        && handle.driver.time().mc_next_expiration().is_some();
                    let i = (h.choose)(n + timers as usize, "task");
                    if i == n {
                        // let virtual time reach the next timer first
                        core = context.mc_fire_timer(core, handle);
                        continue;
                    }
                    let is_root = root && if root_last { i == nt } else { i == 0 };
                    if is_root {
                        root = false;
                        root_last = true;
                        let (c, res) = context.enter(core, || {
                            crate::task::coop::budget(|| future.as_mut().poll(&mut cx))
                        });
                        core = c;
                        if let Ready(v) = res {
                            return (core, Some(v));
                        }
                    } else {
                        let ti = if root && !root_last { i - 1 } else { i };
                        root_last = false;
                        let entry = core.tasks.remove(ti).unwrap();
                        let task = context.handle.shared.owned.assert_owner(entry);
                        let (c, ()) = context.run_task(core, || { task.run(); });
                        core = c;
                    }
                    core = context.park_yield(core, handle);
                }
            }

            'outer: loop {'''

FIRE = r'''
impl Context {
    fn mc_fire_timer(&self, mut core: Box<Core>, handle: &Handle) -> Box<Core> {
        let mut driver = core.driver.take().expect("driver missing");
        let t = handle.driver.time();
        if let Some(d) = t.mc_until_next(handle.driver.clock()) {
            if let Err(msg) = handle.driver.clock().advance(d) { panic!("{}", msg); }
        }
        core = self.park_internal(core, handle, &mut driver, Some(Duration::from_millis(0)));
        core.driver = Some(driver);
        core
    }
}

impl CoreGuard<'_> {
    #[track_caller]
    fn block_on'''

TIME = r'''
impl Handle {
    pub(crate) fn mc_next_expiration(&self) -> Option<u64> {
        self.inner.lock().wheel.next_expiration_time()
    }
    pub(crate) fn mc_until_next(&self, clock: &Clock) -> Option<Duration> {
        let when = self.mc_next_expiration()?;
        let now = self.time_source.now(clock);
        Some(self.time_source.tick_to_duration(when.saturating_sub(now)))
    }
}
'''

def rep(path, old, new, count=1):
    s = open(path).read()
    if s.count(old) < 1:
        sys.exit(f"tokio patch: anchor not found in {path}: {old[:80]!r}")
    s = s.replace(old, new, count)
    open(path, 'w').write(s)

def main(dst):
    src = None
    for c in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/tokio-1.50.0')) + \
             glob.glob('/root/.cargo/registry/src/*/tokio-1.50.0'):
        src = c; break
    if not src: sys.exit('tokio 1.50.0 not in the registry')
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(src, dst)
    for d in ('tests', 'benches'):
        shutil.rmtree(os.path.join(dst, d), ignore_errors=True)
    p = lambda x: os.path.join(dst, 'src', x)
    open(p('mc_hooks.rs'), 'w').write(HOOKS.lstrip())
    rep(p('lib.rs'), '#[macro_use]\n#[doc(hidden)]\npub mod macros;', '#[macro_use]\n#[doc(hidden)]\npub mod macros;\npub mod mc_hooks;')
    ct = p('runtime/scheduler/current_thread/mod.rs')
    rep(ct, "\n            'outer: loop {", BLOCK_ON)
    rep(ct, "impl CoreGuard<'_> {\n    #[track_caller]\n    fn block_on", FIRE.lstrip())
    tm = p('runtime/time/mod.rs')
    rep(tm, '                if let Some(duration) = limit {\n                    self.park_thread_timeout(rt_handle, duration);\n                } else {',
            '                if let Some(duration) = limit {\n                    self.park_thread_timeout(rt_handle, duration);\n                } else {\n                    if let Some(h) = crate::mc_hooks::get() { (h.hang)(); }')
    s = open(tm).read() + TIME
    open(tm, 'w').write(s)
    rep(p('runtime/context.rs'), 'pub(crate) fn thread_rng_n(n: u32) -> u32 {',
        'pub(crate) fn thread_rng_n(n: u32) -> u32 {\n    if let Some(h) = crate::mc_hooks::get() { return (h.choose)(n as usize, "select") as u32; }')
    lo = p('task/local.rs')
    rep(lo, "            match self.next_task() {", "            if _mc_i > 0 && crate::mc_hooks::get().is_some() { return true; }\n            match self.next_task() {")
    rep(lo, "for _ in 0..MAX_TASKS_PER_TICK {", "for _mc_i in 0..MAX_TASKS_PER_TICK {")
    rep(lo, "        let tick = self.tick.get();\n", '''        if let Some(h) = crate::mc_hooks::get() {
            let mut all = std::collections::VecDeque::new();
            while let Some(t) = self.pop_local() { all.push_back(t); }
            if let Some(q) = self.context.shared.queue.lock().as_mut() {
                while let Some(t) = q.pop_front() { all.push_back(t); }
            }
            if all.is_empty() { return None; }
            let i = if all.len() > 1 { (h.choose)(all.len(), "local") } else { 0 };
            let t = all.remove(i).unwrap();
            for x in all {
                // Safety: as for pop_local
                unsafe { self.context.shared.local_state.task_push_back(x) };
            }
            return Some(unsafe { self.context.shared.local_state.assert_owner(t) });
        }
        let tick = self.tick.get();
''')

main(sys.argv[1])
