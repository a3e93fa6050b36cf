//! The pinned pool under every history of requests (owners, workers, versions, environments,
//! endings), against a reference model of what may be shared and what must be reused.
use super::resp::{client, Client, Got};
use super::wk::*;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::oneshot;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("pool", pool)]
}
const JS: &str = r#"
const id = crypto.randomUUID();
let n = 0;
console.log(`boot ${me} ${env.E} ${id}`);
if (broken) throw new Error('broken');
globalThis.mark = (globalThis.mark || '') + me + env.E;
addEventListener('fetch', ev => {
  n++;
  const [k, r] = new URL(ev.request.url).pathname.slice(1).split('-');
  console.log(`run ${r} ${me} ${env.E} ${id} ${n} ${mark}`);
  if (k === 'x') throw new Error('wrong');
  const hold = () => fetch('http://h/' + r);
  if (k === 'b') ev.waitUntil(hold());
  ev.respondWith((async () => { if (k === 'h') await hold(); return new Response(`${me} ${env.E} ${n}`) })());
});
"#;
type Log = Arc<Mutex<Vec<(usize, Vec<String>)>>>;
struct PoolOps {
    log: Log,
    holds: Arc<Mutex<HashMap<usize, oneshot::Sender<()>>>>,
}
impl OperationsHandler for PoolOps {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        Box::pin(async move {
            let Operation::Fetch(r) = op else { return OperationResult::Ack };
            let n: usize = r.url.rsplit('/').next().and_then(|s| s.parse().ok()).unwrap_or(0);
            let (tx, rx) = oneshot::channel();
            self.holds.lock().unwrap().insert(n, tx);
            let _ = rx.await;
            OperationResult::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::None }))
        })
    }
    fn handle_log(&self, _level: LogLevel, message: String) {
        let iso = crate::shim::current_isolate();
        mc::event(format!("isolate {iso}: {}", message.split(' ').filter(|w| w.len() < 30).collect::<Vec<_>>().join(" ")));
        self.log.lock().unwrap().push((iso, message.split(' ').map(|s| s.to_string()).collect()));
    }
}
#[derive(Clone, Debug)]
struct Ctx {
    key: String,
    id: String,
    uses: u32,
    last: u64,
    ops: usize,
}
#[derive(Clone, Debug)]
struct Iso {
    id: usize,
    owner: char,
    busy: bool,
    start: u64,
    end: u64,
    ctxs: Vec<Ctx>,
    /// it may have been evicted
    maybe: bool,
}
struct Running {
    n: usize,
    kind: char,
    iso: usize,
    ctx: Ctx,
    guard: Option<usize>,
    task: tokio::task::JoinHandle<Result<(), TerminationReason>>,
    got: Arc<Mutex<Got>>,
}
struct M {
    per_thread: usize,
    per_owner: usize,
    cached: usize,
    reuses: u32,
    isos: Vec<Iso>,
    gone: Vec<usize>,
    running: Vec<Running>,
    seq: u64,
    hist: Vec<String>,
    stats: (usize, usize, usize),
    ops: Vec<Arc<PoolOps>>,
    log: Log,
    holds: Arc<Mutex<HashMap<usize, oneshot::Sender<()>>>>,
}
async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}
impl M {
    fn ctx(&self) -> String {
        format!("{:?}", self.hist)
    }
    fn drop_iso(&mut self, id: usize) {
        self.isos.retain(|i| i.id != id);
        self.gone.push(id);
    }
    /// an isolate became free: what must hold of the pool's size now
    fn released(&mut self, iso: usize) {
        self.seq += 1;
        let s = self.seq;
        if let Some(i) = self.isos.iter_mut().find(|i| i.id == iso) {
            i.busy = false;
            i.end = s;
        }
        let free: Vec<usize> = self.isos.iter().filter(|i| !i.busy).map(|i| i.id).collect();
        let over = self.isos.iter().filter(|i| !i.maybe).count().saturating_sub(self.per_thread);
        if over >= free.len() {
            for f in free {
                self.drop_iso(f);
            }
        } else if over > 0 {
            self.isos.iter_mut().filter(|i| !i.busy).for_each(|i| i.maybe = true);
        }
    }
    fn size(&self) {
        let s = rt::get_local_pool_stats().unwrap();
        check!(s.in_use == self.running.len(), "in-use", "{}: {} isolates count as in use while {} requests run", self.ctx(), s.in_use, self.running.len());
        let sure = self.isos.iter().filter(|i| !i.maybe).count();
        check!(s.total >= sure && s.total <= self.isos.len(), "size", "{}: the pool holds {} isolates, expected {} ({:?})", self.ctx(), s.total, sure, self.isos);
        check!(s.total <= self.per_thread.max(s.in_use), "over", "{}: the pool keeps {} isolates ({} in use, at most {})", self.ctx(), s.total, s.in_use, self.per_thread);
        check!(s.capacity == self.per_thread, "capacity", "capacity {}", s.capacity);
    }
    /// context `c` was given back by the request that used it in `iso`
    fn keep(&mut self, iso: usize, mut c: Ctx) {
        self.seq += 1;
        c.last = self.seq;
        let cached = self.cached;
        if let Some(i) = self.isos.iter_mut().find(|i| i.id == iso) {
            if cached == 0 {
                return;
            }
            if i.ctxs.len() >= cached {
                let k = (0..i.ctxs.len()).min_by_key(|k| i.ctxs[*k].last).unwrap();
                i.ctxs.remove(k);
            }
            i.ctxs.push(c);
        }
    }
    async fn request(&mut self, spec: &str) {
        let c: Vec<char> = spec.chars().collect();
        let (owner, kind) = (c[0], c[4]);
        let me: String = c[..3].iter().collect();
        let (worker, version, e) = (c[1], c[2].to_digit(10).unwrap() as i32, c[3].to_digit(10).unwrap() as i64);
        let key = format!("{me}{e}");
        let n = self.ops.len();
        let ops = Arc::new(PoolOps { log: self.log.clone(), holds: self.holds.clone() });
        self.ops.push(ops.clone());
        let warmed: Arc<Mutex<Vec<usize>>> = Arc::default();
        let wm = warmed.clone();
        let mut script = Script::new(format!("const me = '{me}', broken = {};\n{JS}", kind == 's'));
        script.env = Some(HashMap::from([("E".to_string(), e.to_string())]));
        let (task, rx) = Event::fetch(get(&format!("http://x/{kind}-{n}")));
        let req = rt::PinnedExecuteRequest {
            owner_id: owner.to_string(),
            worker_id: format!("worker-{worker}"),
            version,
            script,
            ops,
            task,
            on_warm_hit: Some(Box::new(move |o: &OperationsHandle| wm.lock().unwrap().push(Arc::as_ptr(o) as *const () as usize))),
            env_updated_at: if e == 0 { None } else { Some(e) },
        };
        let before = rt::get_local_pool_stats().map(|s| (s.total, s.in_use)).unwrap_or((0, 0));
        let guards: Vec<usize> = mc::sched::clock::waiting().iter().map(|w| w.0).collect();
        let (got, _j) = client_(rx);
        let task = tokio::task::spawn_local(rt::execute_pinned(req));
        settle().await;
        let st = rt::get_pinned_pool_stats();
        let ctx = self.ctx();
        self.stats.0 += 1;
        let mut run: Vec<(usize, Vec<String>)> = self.log.lock().unwrap().iter().filter(|l| l.1[0] == "run" && l.1[1] == n.to_string()).cloned().collect();
        let boots: Vec<(usize, Vec<String>)> = self.log.lock().unwrap().drain(..).filter(|l| l.1[0] == "boot").collect();
        if kind == 's' {
            run = boots.iter().map(|b| (b.0, vec!["run".into(), n.to_string(), b.1[1].clone(), b.1[2].clone(), b.1[3].clone(), "1".into(), key.clone()])).collect();
        }
        // --- must it be refused?
        let mine = |f: &dyn Fn(&Iso) -> bool| self.isos.iter().filter(|i| i.owner == owner && f(i)).count();
        let free_sure = mine(&|i| !i.busy && !i.maybe);
        let free_maybe = mine(&|i| !i.busy && i.maybe);
        let (own_sure, own_all) = (mine(&|i| !i.maybe), mine(&|_| true));
        if run.is_empty() {
            let r = if task.is_finished() { format!("{:?}", task.await) } else { "still running".into() };
            check!(r.contains("capacity"), "lost", "{ctx}: the request did not run: {r}");
            check!(free_sure == 0 && self.per_owner > 0 && own_all >= self.per_owner, "refused", "{ctx}: refused ({r}) although the owner has {own_all} isolates, {free_sure} of them free");
            check!(got.lock().unwrap().at.is_none(), "refused", "{ctx}: refused but answered");
            check!(warmed.lock().unwrap().is_empty() && boots.is_empty(), "refused", "{ctx}: refused but code ran");
            self.check_stats(&st);
            self.hist.push("refused".into());
            return;
        }
        check!(run.len() == 1, "once", "{ctx}: the handler ran {} times", run.len());
        let (iso, l) = (run[0].0, &run[0].1);
        check!(l[2] == me && l[3] == e.to_string(), "foreign-code", "{ctx}: the request of {me} with environment {e} was served by the code of {} with environment {}", l[2], l[3]);
        check!(l[6] == key, "foreign-globals", "{ctx}: the globals carry the traces of {}", l[6]);
        // --- which isolate?
        let known = self.isos.iter().position(|i| i.id == iso);
        check!(!self.gone.contains(&iso), "not-lru", "{ctx}: isolate {iso} was used although another one was to be kept instead of it");
        self.seq += 1;
        let seq = self.seq;
        match known {
            Some(k) => {
                let i = &mut self.isos[k];
                check!(i.owner == owner, "shared-isolate", "{ctx}: isolate {iso} of owner {} serves owner {owner}", i.owner);
                check!(!i.busy, "exclusive", "{ctx}: isolate {iso} serves two requests at once");
                i.maybe = false;
                i.busy = true;
                i.start = seq;
                self.stats.1 += 1;
            }
            None => {
                check!(free_sure == 0, "not-reused", "{ctx}: a new isolate although {free_sure} of the owner are free");
                check!(self.per_owner == 0 || own_sure < self.per_owner, "per-owner", "{ctx}: owner {owner} has {} isolates, at most {}", own_sure + 1, self.per_owner);
                self.stats.2 += 1;
                let after = rt::get_local_pool_stats().unwrap().total;
                // (the request may be over already, and the pool back to its size)
                let over = task.is_finished() && before.0 >= self.per_thread;
                if before.0 >= self.per_thread && before.1 < before.0 {
                    check!(after == before.0, "eviction", "{ctx}: the pool grew from {} to {after} although one was free", before.0);
                    let free: Vec<&Iso> = self.isos.iter().filter(|i| !i.busy).collect();
                    let a = free.iter().min_by_key(|i| i.start).map(|i| i.id);
                    let b = free.iter().min_by_key(|i| i.end).map(|i| i.id);
                    if a == b && free_maybe == 0 && free.iter().all(|i| !i.maybe) {
                        if let Some(a) = a {
                            self.drop_iso(a);
                        }
                    } else {
                        self.isos.iter_mut().filter(|i| !i.busy).for_each(|i| i.maybe = true);
                    }
                } else if !over {
                    check!(after == before.0 + 1, "growth", "{ctx}: the pool went from {} to {after} isolates", before.0);
                }
                self.isos.push(Iso { id: iso, owner, busy: true, start: seq, end: seq, ctxs: vec![], maybe: false });
            }
        }
        self.check_stats(&st);
        // --- which context?
        let i = self.isos.iter_mut().find(|i| i.id == iso).unwrap();
        let id = l[4].clone();
        let warm = i.ctxs.iter().position(|c| c.key == key && c.uses < self.reuses);
        let cx = match warm {
            Some(k) => {
                let mut c = i.ctxs.remove(k);
                check!(boots.is_empty() && c.id == id, "not-warm", "{ctx}: a new context although one is kept for {key}");
                c.uses += 1;
                check!(l[5] == c.uses.to_string(), "not-warm", "{ctx}: use {} of the context, not {}", l[5], c.uses);
                check!(*warmed.lock().unwrap() == vec![c.ops], "warm-callback", "{ctx}: the warm-hit callback was called {} times, with {} operations handle", warmed.lock().unwrap().len(), if warmed.lock().unwrap().first() == Some(&c.ops) { "the right" } else { "a wrong" });
                c
            }
            None => {
                check!(boots.len() == 1 && boots[0].0 == iso && l[5] == "1", "stale-context", "{ctx}: a context that was not to be used again served the request (use {})", l[5]);
                check!(warmed.lock().unwrap().is_empty(), "warm-callback", "{ctx}: the warm-hit callback was called for a new context");
                Ctx { key: key.clone(), id, uses: 1, last: 0, ops: Arc::as_ptr(&self.ops[n]) as *const () as usize }
            }
        };
        let guard = mc::sched::clock::waiting().iter().map(|w| w.0).rfind(|g| !guards.contains(g));
        self.running.push(Running { n, kind, iso, ctx: cx, guard, task, got });
        if kind == 's' {
            let k = self.running.len() - 1;
            self.ended(k, "broken").await;
        } else if matches!(kind, 'o' | 'x') {
            let k = self.running.len() - 1;
            self.ended(k, "ok").await;
        } else {
            let r = self.running.last().unwrap();
            check!(!r.task.is_finished(), "early", "{ctx}: the request ended although its work goes on");
            check!(r.got.lock().unwrap().at.is_some() == (kind == 'b'), "held", "{ctx}: {:?}", r.got.lock().unwrap());
        }
    }
    fn check_stats(&self, st: &rt::PinnedPoolStats) {
        let (t, h, m) = BASE.with(|b| *b.borrow());
        let now = (st.total_requests - t, st.cache_hits - h, st.cache_misses - m);
        check!(now == self.stats, "statistics", "{}: statistics (requests, hits, misses) {now:?}, expected {:?}", self.ctx(), self.stats);
        let rate = st.cache_hits as f64 / st.total_requests as f64;
        check!((st.hit_rate - rate).abs() < 1e-9, "statistics", "hit rate {} with {} hits of {}", st.hit_rate, st.cache_hits, st.total_requests);
    }
    /// running request `k` is over ('ok', 'drop', 'expire')
    async fn ended(&mut self, k: usize, how: &str) {
        let r = self.running.remove(k);
        let ctx = self.ctx();
        if how == "drop" {
            drop(r.task);
            self.released(r.iso);
            return;
        }
        check!(r.task.is_finished(), "endless", "{ctx}: request {} goes on after its end", r.n);
        if !r.task.is_finished() {
            return;
        }
        let res = r.task.await.unwrap_or_else(|e| {
            mc::violation("panic", format!("{ctx}: {e}"));
            panic!()
        });
        let got = r.got.lock().unwrap().clone();
        let body = String::from_utf8_lossy(&got.bytes()).to_string();
        let want = format!("{} {} {}", &r.ctx.key[..3], &r.ctx.key[3..], r.ctx.uses);
        match (how, r.kind) {
            ("ok", 'x') => check!(res.is_ok() && got.status == 500, "result", "{ctx}: {res:?} {got:?}"),
            ("ok", _) | (_, 'b') => check!(res.is_ok() && got.status == 200 && body == want, "result", "{ctx}: {res:?} {got:?} expected {want}"),
            _ => check!(res.is_err(), "result", "{ctx}: {res:?} {got:?} after it was cut short"),
        }
        if how == "ok" {
            self.keep(r.iso, r.ctx);
        }
        self.released(r.iso);
    }
    async fn control(&mut self, c: &str) {
        let last = c == "F" || c == "D" || c == "T";
        let k = if last { self.running.len() - 1 } else { 0 };
        match c {
            "f" | "F" => {
                if let Some(tx) = self.holds.lock().unwrap().remove(&self.running[k].n) {
                    let _ = tx.send(());
                }
                settle().await;
                self.ended(k, "ok").await;
            }
            "d" | "D" | "e" => {
                // (e: its limit has just expired)
                if let Some(g) = self.running[k].guard.filter(|_| c == "e") {
                    mc::sched::clock::expire(g);
                }
                self.running[k].task.abort();
                settle().await;
                self.ended(k, "drop").await;
            }
            _ => {
                match self.running[k].guard {
                    Some(g) => mc::sched::clock::expire(g),
                    None => check!(false, "no-limit", "{}: no wall-clock limit guards the request", self.ctx()),
                }
                settle().await;
                self.ended(k, "expire").await;
            }
        }
    }
}
thread_local! { static BASE: std::cell::RefCell<(usize, usize, usize)> = const { std::cell::RefCell::new((0, 0, 0)) }; }
fn client_(rx: oneshot::Receiver<HttpResponse>) -> (Arc<Mutex<Got>>, tokio::task::JoinHandle<()>) {
    client(&World::new(false), rx, Client::Read)
}
fn pool(p: &Params) {
    let (per_thread, per_owner, cached, reuses, depth) = (p.u("threads", 2), p.u("owner", 0), p.u("cached", 2), p.u("reuses", 1000), p.u("depth", 3));
    let alphabet: Vec<String> = p.s("alphabet").split(',').map(|s| s.to_string()).collect();
    let preempt = p.b("preempt");
    unsafe { std::env::set_var("CONTEXT_MAX_REUSES", reuses.to_string()) };
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            let w = World::new(false);
            use_env(&w, preempt);
            mc::sched::clock::manual(true);
            let lim = RuntimeLimits { max_wall_clock_time_ms: 1000, ..limits() };
            rt::init_pinned_pool(rt::PinnedPoolConfig { max_per_thread: per_thread, max_per_owner: (per_owner > 0).then_some(per_owner), max_concurrent_per_isolate: 1, max_cached_contexts: cached, limits: lim });
            let st = rt::get_pinned_pool_stats();
            BASE.with(|b| *b.borrow_mut() = (st.total_requests, st.cache_hits, st.cache_misses));
            crate::shim::new_isolate_numbers();
            let mut m = M { per_thread, per_owner, cached, reuses: reuses as u32, isos: vec![], gone: vec![], running: vec![], seq: 0, hist: vec![], stats: (0, 0, 0), ops: vec![], log: Arc::default(), holds: Arc::default() };
            for _ in 0..depth {
                let can: Vec<&String> = alphabet.iter().filter(|a| a.len() > 1 || !m.running.is_empty()).collect();
                let a = can[mc::free(can.len(), "action")].clone();
                mc::event(format!("-- {a}"));
                m.hist.push(a.clone());
                if a.len() > 1 {
                    m.request(&a).await;
                } else {
                    m.control(&a).await;
                }
                m.size();
            }
            while !m.running.is_empty() {
                m.hist.push("f".into());
                m.control("f").await;
                m.size();
            }
            mc::outcome(format!("{:?} {:?}", m.hist, m.isos.iter().map(|i| (i.owner, i.ctxs.iter().map(|c| (c.key.clone(), c.uses)).collect::<Vec<_>>())).collect::<Vec<_>>()));
            m.ops.clear();
            env::set_env(None);
            mc::sched::clock::manual(false);
        })
    });
}
