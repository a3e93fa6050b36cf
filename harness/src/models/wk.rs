//! Whole workers: the real Worker / pinned pool on virtual time, with every
//! operation of the outside world under the control of the explorer.
use super::cpu;
use crate::env::{self, Env};
use crate::{ModelFn, Params};
use bytes::Bytes;
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, oneshot};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("wk_smoke", smoke), ("wk_real", real)]
}

/// headers of an answer `cook:`
pub const COOK: [(&str, &str); 6] = [("Set-Cookie", "a=1; Path=/"), ("X-A", "1"), ("set-cookie", "b=2, c"), ("x-a", "2"), ("content-type", "text/x"), ("x-empty", "")];
pub enum Pend {
    /// an operation (or a step of a driver) that may go on now
    Gate(oneshot::Sender<()>),
    /// a streamed body: pieces still to come, then the end
    Feed(mpsc::Sender<Result<Bytes, String>>, VecDeque<Result<Bytes, String>>),
}
#[derive(Default)]
pub struct Inner {
    pub logs: Vec<(u64, String)>,
    pub started: Vec<String>,
    pub pend: Vec<(String, Pend)>,
    /// limits that expired: (ms, kind, guard, while code of the worker ran)
    pub expired: Vec<(u64, char, usize, bool)>,
    /// for each of them: what the worker logged last, if its code ran
    pub during: Vec<String>,
    /// for each of them: how much was logged before
    pub marks: Vec<usize>,
    /// heap limits while code of the worker ran: (configured, in force)
    pub heaps: Vec<(usize, usize)>,
    pub sockets: Vec<(mpsc::UnboundedReceiver<WebSocketOutgoing>, mpsc::UnboundedSender<WebSocketIncoming>)>,
}
/// The outside world: what the worker logged, what it asked for, what is outstanding.
pub struct World {
    pub t0: tokio::time::Instant,
    pub gated: bool,
    /// limits expire when the explorer says so (wall clock, CPU)
    pub wall: AtomicBool,
    pub cpu: AtomicBool,
    /// the heap is full when the explorer says so, while code of the worker runs
    pub heap: AtomicBool,
    /// code stopped by its CPU limit ends the execution without any further limit
    pub once: AtomicBool,
    pub i: Mutex<Inner>,
}
impl World {
    /// must be called inside the runtime
    pub fn new(gated: bool) -> Arc<World> {
        Self::with(gated, false, false)
    }
    pub fn with(gated: bool, wall: bool, cpu: bool) -> Arc<World> {
        Arc::new(World { t0: tokio::time::Instant::now(), gated, wall: wall.into(), cpu: cpu.into(), heap: AtomicBool::new(false), once: AtomicBool::new(false), i: Mutex::default() })
    }
    /// limits that can expire now: (kind, number of the guard)
    pub fn expiries(&self) -> Vec<(char, usize)> {
        let mut v = vec![];
        let stopped = self.once.load(SeqCst) && self.i.lock().unwrap().expired.iter().any(|e| e.1 == 'c' && e.3);
        if self.wall.load(SeqCst) && !stopped {
            let done: Vec<usize> = self.i.lock().unwrap().expired.iter().filter(|e| e.1 == 'w').map(|e| e.2).collect();
            v.extend(mc::sched::clock::waiting().iter().map(|w| ('w', w.0)).filter(|w| !done.contains(&w.1)));
        }
        if self.cpu.load(SeqCst) {
            let done: Vec<usize> = self.i.lock().unwrap().expired.iter().filter(|e| e.1 == 'c').map(|e| e.2).collect();
            v.extend(cpu::TIMERS.lock().unwrap().iter().enumerate().filter(|(i, t)| t.live && t.armed > 0 && !done.contains(i)).map(|(i, _)| ('c', i)));
        }
        v
    }
    pub fn expire(&self, (kind, n): (char, usize), js: bool) {
        mc::event(format!("[{} ms] the {} limit of guard {n} expires", self.now(), match kind { 'w' => "wall-clock", 'c' => "CPU", _ => "heap" }));
        {
            let mut i = self.i.lock().unwrap();
            i.expired.push((self.now(), kind, n, js));
            let last = if js { i.logs.last().map(|l| l.1.clone()).unwrap_or_default() } else { String::new() };
            i.during.push(last);
            let n = i.logs.len();
            i.marks.push(n);
        }
        if kind == 'h' {
            let room = crate::shim::fill_heap();
            check!(room > 0, "heap-room", "V8 is given no room ({room} bytes) when the heap is full: it ends the process");
        } else if kind == 'w' {
            mc::sched::clock::expire(n);
        } else {
            let t = {
                let mut t = cpu::TIMERS.lock().unwrap();
                let x = t[n];
                t[n].armed = t[n].interval;
                x
            };
            cpu::fire(t);
            cpu::fence();
        }
    }
    pub fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
    pub fn log(&self, s: String) {
        mc::event(format!("[{} ms] {s}", self.now()));
        let t = self.now();
        let n = {
            let mut i = self.i.lock().unwrap();
            i.logs.push((t, s));
            if crate::shim::has_heap() {
                i.heaps.push(crate::shim::heap_limit());
            }
            i.logs.len()
        };
        // the worker's code is running: limits may expire right here
        let mut e = self.expiries();
        if self.heap.load(SeqCst) && crate::shim::has_heap() && !self.i.lock().unwrap().expired.iter().any(|e| e.1 == 'h') {
            e.push(('h', crate::shim::current_isolate()));
        }
        if !e.is_empty() {
            let c = if n > 12 { 1 + mc::choose(e.len(), "js.limit") } else { mc::choose(e.len() + 1, "js.limit") };
            if c > 0 {
                self.expire(e[c - 1], true);
            }
        }
        // a while after a limit: whoever goes on is stopped again, if that is what the guards do
        if self.i.lock().unwrap().marks.last().is_some_and(|m| n > m + 8) {
            let done: Vec<(char, usize)> = self.i.lock().unwrap().expired.iter().map(|e| (e.1, e.2)).collect();
            for (kind, g) in done {
                if kind == 'w' && mc::sched::clock::waiting().iter().any(|w| w.0 == g) {
                    mc::sched::clock::expire(g);
                }
                if kind == 'c' {
                    let t = cpu::TIMERS.lock().unwrap()[g];
                    if t.live && t.armed > 0 {
                        cpu::fire(t);
                        cpu::fence();
                    }
                }
            }
        }
        if n > 60 {
            mc::fatal("runaway", "the worker's code goes on although its limit expired".into());
        }
    }
    pub fn logs(&self) -> Vec<(u64, String)> {
        self.i.lock().unwrap().logs.clone()
    }
    pub fn gate(&self, name: String) -> oneshot::Receiver<()> {
        let (tx, rx) = oneshot::channel();
        self.i.lock().unwrap().pend.push((name, Pend::Gate(tx)));
        rx
    }
    pub async fn pass(&self, name: String) {
        if self.gated {
            let g = self.gate(name);
            let _ = g.await;
        }
    }
    fn feed(&self, name: &str, hwm: usize, chunks: VecDeque<Result<Bytes, String>>) -> mpsc::Receiver<Result<Bytes, String>> {
        let (tx, rx) = mpsc::channel(hwm.max(1));
        if self.gated {
            self.i.lock().unwrap().pend.push((name.to_string(), Pend::Feed(tx, chunks)));
        } else {
            tokio::spawn(async move {
                for c in chunks {
                    if tx.send(c).await.is_err() {
                        return;
                    }
                }
            });
        }
        rx
    }
    /// `ok:BODY`, `stat:404:BODY`, `str:a,b,c[!err]`, `err:MSG`, `none`, `bad`
    fn http(&self, name: &str, spec: &str) -> OperationResult {
        let (k, v) = spec.split_once(':').unwrap_or((spec, ""));
        let r = |status, body| OperationResult::Http(Ok(HttpResponse { status, headers: vec![("x-spec".into(), spec.to_string())], body }));
        match k {
            "ok" => r(200, ResponseBody::Bytes(Bytes::copy_from_slice(v.as_bytes()))),
            "stat" => {
                let (c, b) = v.split_once(':').unwrap_or((v, ""));
                r(c.parse().unwrap_or(200), ResponseBody::Bytes(Bytes::copy_from_slice(b.as_bytes())))
            }
            "none" => r(204, ResponseBody::None),
            "cook" => OperationResult::Http(Ok(HttpResponse { status: 201, headers: COOK.iter().map(|h| (h.0.to_string(), h.1.to_string())).collect(), body: ResponseBody::Bytes(Bytes::copy_from_slice(v.as_bytes())) })),
            "str" => {
                let (d, e) = v.split_once('!').map(|(d, e)| (d, Some(e))).unwrap_or((v, None));
                let mut q: VecDeque<Result<Bytes, String>> = d.split(',').filter(|s| !s.is_empty()).map(|s| Ok(Bytes::copy_from_slice(s.as_bytes()))).collect();
                if let Some(e) = e {
                    q.push_back(Err(e.to_string()));
                }
                r(200, ResponseBody::Stream(self.feed(name, 1, q)))
            }
            "bad" => OperationResult::Ack,
            _ => OperationResult::Http(Err(v.to_string())),
        }
    }
}
pub struct WorldEnv(pub Arc<World>, pub bool);
impl WorldEnv {
    fn ready(&self) -> Vec<usize> {
        let i = self.0.i.lock().unwrap();
        (0..i.pend.len())
            .filter(|&k| match &i.pend[k].1 {
                Pend::Gate(_) => true,
                Pend::Feed(tx, q) => tx.is_closed() || q.is_empty() || tx.capacity() > 0,
            })
            .collect()
    }
}
impl Env for WorldEnv {
    fn pending(&self, idle: bool) -> usize {
        // a CPU limit is exceeded only while the thread runs
        self.ready().len() + self.0.expiries().iter().filter(|e| !idle || e.0 == 'w').count()
    }
    fn wait_at(&self) -> Option<usize> {
        Some(if self.0.now() > 5000 { self.pending(true) } else { self.ready().len() })
    }
    fn fire(&self, n: usize) {
        let r = self.ready();
        if n >= r.len() {
            self.0.expire(self.0.expiries()[n - r.len()], false);
            return;
        }
        let k = r[n];
        let mut i = self.0.i.lock().unwrap();
        let (name, p) = i.pend.remove(k);
        mc::event(format!("[{} ms] world: {name} goes on", self.0.now()));
        match p {
            Pend::Gate(tx) => {
                let _ = tx.send(());
            }
            Pend::Feed(tx, mut q) => {
                if tx.is_closed() {
                    mc::event(format!("world: nobody wants {name} any more"));
                } else if let Some(c) = q.pop_front() {
                    let _ = tx.try_send(c);
                    i.pend.insert(k, (name, Pend::Feed(tx, q)));
                }
            }
        }
    }
    fn preempt(&self) -> bool {
        self.1
    }
}

/// The operations handler given to the worker.
pub struct Ops(pub Arc<World>);
pub fn describe(op: &Operation) -> (String, String) {
    fn tail(u: &str) -> String {
        let s = u.split_once("://").map(|(_, r)| r).unwrap_or(u);
        s.split_once('/').map(|(_, r)| r).unwrap_or(s).to_string()
    }
    match op {
        Operation::Fetch(r) => (format!("fetch {} {}", r.method, r.url), tail(&r.url)),
        Operation::BindingFetch { binding, request } => (format!("assets {binding} {} {}", request.method, request.url), tail(&request.url)),
        Operation::BindingWorker { binding, request } => (format!("worker {binding} {} {}", request.method, request.url), tail(&request.url)),
        Operation::BindingStorage { binding, op } => (format!("storage {binding} {op:?}"), match op {
            StorageOp::Get { key } | StorageOp::Fetch { key } | StorageOp::Put { key, .. } | StorageOp::Head { key } | StorageOp::Delete { key } => key.trim_start_matches('/').to_string(),
            StorageOp::List { prefix, .. } => prefix.clone().unwrap_or_default(),
        }),
        Operation::BindingKv { binding, op } => (format!("kv {binding} {op:?}"), match op {
            KvOp::Get { key } | KvOp::Put { key, .. } | KvOp::Delete { key } => key.clone(),
            KvOp::List { prefix, .. } => prefix.clone().unwrap_or_default(),
        }),
        Operation::BindingDatabase { binding, op: DatabaseOp::Query { sql, params } } => (format!("db {binding} {sql} {params:?}"), sql.clone()),
        Operation::WebSocketConnect { url, .. } => (format!("ws {url}"), tail(url)),
        Operation::Log { message, .. } => ("log".into(), message.clone()),
    }
}
impl OperationsHandler for Ops {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let w = self.0.clone();
        Box::pin(async move {
            let (name, spec) = describe(&op);
            w.i.lock().unwrap().started.push(name.clone());
            mc::event(format!("[{} ms] op {name}", w.now()));
            w.pass(name.clone()).await;
            let v = spec.split_once(':').map(|(_, v)| v.to_string()).unwrap_or_default();
            match op {
                Operation::Fetch(_) | Operation::BindingFetch { .. } | Operation::BindingWorker { .. } => w.http(&name, &spec),
                _ if spec.starts_with("bad") => OperationResult::Ack,
                Operation::BindingStorage { op, .. } => OperationResult::Storage(if spec.starts_with("err:") { StorageResult::Error(v) } else {
                    match op {
                        StorageOp::Get { .. } => StorageResult::Body(if spec.starts_with("none") { None } else { Some(v.into_bytes()) }),
                        StorageOp::Fetch { .. } => match w.http(&name, &spec) {
                            OperationResult::Http(Ok(r)) => StorageResult::Response(r),
                            OperationResult::Http(Err(e)) => StorageResult::Error(e),
                            _ => StorageResult::Error("?".into()),
                        },
                        StorageOp::Put { .. } | StorageOp::Delete { .. } => StorageResult::Body(None),
                        StorageOp::Head { .. } => StorageResult::Head { size: v.len() as u64, etag: Some(v) },
                        StorageOp::List { .. } => StorageResult::List { keys: v.split(',').map(|s| s.into()).collect(), truncated: false },
                    }
                }),
                Operation::BindingKv { op, .. } => OperationResult::Kv(if spec.starts_with("err:") { KvResult::Error(v) } else {
                    match op {
                        KvOp::Get { .. } => KvResult::Value(if spec.starts_with("none") { None } else { Some(serde_json::Value::String(v)) }),
                        KvOp::List { .. } => KvResult::Keys(v.split(',').map(|s| s.into()).collect()),
                        _ => KvResult::Ok,
                    }
                }),
                Operation::BindingDatabase { .. } => OperationResult::Database(if spec.starts_with("err:") { DatabaseResult::Error(v) } else { DatabaseResult::Rows(format!("[{{\"v\":{}}}]", serde_json::Value::String(v))) }),
                Operation::WebSocketConnect { .. } => OperationResult::WebSocket(if spec.starts_with("err:") { Err(v) } else {
                    let (stx, srx) = mpsc::unbounded_channel();
                    let (rtx, rrx) = mpsc::unbounded_channel();
                    w.i.lock().unwrap().sockets.push((srx, rtx));
                    Ok(WebSocketConnection { send_tx: stx, recv_rx: rrx })
                }),
                Operation::Log { message, .. } => {
                    w.log(message);
                    OperationResult::Ack
                }
            }
        })
    }
    fn handle_log(&self, _level: LogLevel, message: String) {
        self.0.log(message);
    }
}

pub fn limits() -> RuntimeLimits {
    RuntimeLimits { max_cpu_time_ms: 0, max_wall_clock_time_ms: 0, ..Default::default() }
}
pub fn get(url: &str) -> HttpRequest {
    HttpRequest { method: HttpMethod::Get, url: url.into(), headers: HashMap::new(), body: RequestBody::None }
}
/// Where a script runs.
pub enum Host {
    Worker(Box<rt::Worker>),
    Pinned { owner: String, id: String, version: i32, script: Script, ops: OperationsHandle },
}
impl Host {
    pub async fn new(kind: &str, script: Script, ops: OperationsHandle, lim: RuntimeLimits) -> Result<Host, TerminationReason> {
        Ok(match kind {
            "pinned" => {
                rt::init_pinned_pool(rt::PinnedPoolConfig { max_per_thread: 2, max_per_owner: None, max_concurrent_per_isolate: 1, max_cached_contexts: 2, limits: lim });
                Host::Pinned { owner: "o".into(), id: "wk".into(), version: 1, script, ops }
            }
            _ => Host::Worker(Box::new(rt::Worker::new_with_ops(script, Some(lim), ops).await?)),
        })
    }
    pub async fn exec(&mut self, task: Event) -> Result<(), TerminationReason> {
        match self {
            Host::Worker(w) => w.exec(task).await,
            Host::Pinned { owner, id, version, script, ops } => {
                rt::execute_pinned(rt::PinnedExecuteRequest { owner_id: owner.clone(), worker_id: id.clone(), version: *version, script: script.clone(), ops: ops.clone(), task, on_warm_hit: None, env_updated_at: None }).await
            }
        }
    }
}
pub fn use_env(w: &Arc<World>, preempt: bool) {
    env::set_env(Some(Rc::new(WorldEnv(w.clone(), preempt))));
}

fn smoke(p: &Params) {
    let kind = p.s("host");
    let js = p.s("js");
    let wall = p.u("wall", 0) as u64;
    let n = p.u("n", 1);
    let heap = p.u("heap", 128);
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            let w = World::new(false);
            use_env(&w, false);
            let t = std::time::Instant::now();
            let lim = RuntimeLimits { max_wall_clock_time_ms: wall, heap_max_mb: heap, ..limits() };
            let mut h = Host::new(&kind, Script::new(js.as_str()), Arc::new(Ops(w.clone())), lim).await.unwrap_or_else(|e| panic!("{e:?}"));
            eprintln!("new {:?}", t.elapsed());
            for _ in 0..n {
                let t = std::time::Instant::now();
                let (ev, rx) = Event::fetch(get("http://x/"));
                let r = h.exec(ev).await;
                eprintln!("exec {:?} {r:?}", t.elapsed());
                let resp = rx.await;
                match resp {
                    Ok(resp) => eprintln!("status {} body {:?}", resp.status, resp.body.collect().await),
                    Err(_) => eprintln!("no response"),
                }
            }
            eprintln!("{:?}", w.logs());
            let t = std::time::Instant::now();
            drop(h);
            eprintln!("drop {:?}", t.elapsed());
            env::set_env(None);
        })
    });
}
/// real time, no explorer: used to confirm findings by hand
pub fn real(p: &Params) {
    let js = p.s("js");
    let wall = p.u("wall", 0) as u64;
    mc::off(|| {
        let rt_ = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        tokio::task::LocalSet::new().block_on(&rt_, async move {
            let w = World::new(false);
            let lim = RuntimeLimits { max_wall_clock_time_ms: wall, ..limits() };
            let mut h = Host::new("", Script::new(js.as_str()), Arc::new(Ops(w.clone())), lim).await.unwrap_or_else(|e| panic!("{e:?}"));
            let (ev, _rx) = Event::fetch(get("http://x/"));
            let t = std::time::Instant::now();
            let r = tokio::time::timeout(std::time::Duration::from_secs(5), h.exec(ev)).await;
            eprintln!("exec {:?} {r:?}", t.elapsed());
        });
    });
}
