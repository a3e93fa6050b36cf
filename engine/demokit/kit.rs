//! Runs `scenario::demo` inside node (whose V8 the runtime uses here).
#![allow(dead_code)]
mod scenario;
pub use openworkers_core::*;
pub use openworkers_runtime_v8 as rt;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::oneshot;

pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await;
}
/// Answers `fetch('http://h/BODY')` with BODY at once, `http://h/hold-X` when X is released,
/// `http://h/fail-X` with an error; KV get KEY with KEY.
#[derive(Default)]
pub struct Ops {
    pub logs: Mutex<Vec<String>>,
    pub seen: Mutex<Vec<String>>,
    pub holds: Mutex<HashMap<String, oneshot::Sender<()>>>,
}
impl Ops {
    pub fn new() -> Arc<Ops> {
        Arc::default()
    }
    pub fn release(&self, k: &str) -> bool {
        self.holds.lock().unwrap().remove(k).map(|t| t.send(()).is_ok()).unwrap_or(false)
    }
    pub fn logs(&self) -> Vec<String> {
        self.logs.lock().unwrap().clone()
    }
}
impl OperationsHandler for Ops {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        Box::pin(async move {
            let (what, url) = match &op {
                Operation::Fetch(r) | Operation::BindingFetch { request: r, .. } | Operation::BindingWorker { request: r, .. } => ("http", r.url.clone()),
                Operation::BindingKv { op: KvOp::Get { key }, .. } => ("kv", key.clone()),
                Operation::Log { message, .. } => {
                    self.logs.lock().unwrap().push(message.clone());
                    return OperationResult::Ack;
                }
                _ => return OperationResult::Ack,
            };
            let name = url.rsplit('/').next().unwrap_or("").to_string();
            self.seen.lock().unwrap().push(name.clone());
            if let Some(k) = name.strip_prefix("hold-") {
                let (tx, rx) = oneshot::channel();
                self.holds.lock().unwrap().insert(k.to_string(), tx);
                let _ = rx.await;
            }
            if what == "kv" {
                return OperationResult::Kv(KvResult::Value(Some(name.into())));
            }
            if name.starts_with("fail-") {
                return OperationResult::Http(Err(name));
            }
            OperationResult::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::Bytes(name.into_bytes().into()) }))
        })
    }
    fn handle_log(&self, _level: LogLevel, message: String) {
        self.logs.lock().unwrap().push(message);
    }
}
pub fn limits() -> RuntimeLimits {
    RuntimeLimits { max_cpu_time_ms: 0, max_wall_clock_time_ms: 0, ..Default::default() }
}
pub fn get(path: &str) -> HttpRequest {
    HttpRequest { method: HttpMethod::Get, url: format!("http://x/{path}"), headers: HashMap::new(), body: RequestBody::None }
}
pub async fn worker(js: &str, ops: &Arc<Ops>, lim: RuntimeLimits) -> rt::Worker {
    rt::Worker::new_with_ops(Script::new(js), Some(lim), ops.clone()).await.expect("worker")
}
pub fn pinned(owner: &str, id: &str, version: i32, js: &str, ops: &Arc<Ops>, task: Event) -> rt::PinnedExecuteRequest {
    rt::PinnedExecuteRequest { owner_id: owner.into(), worker_id: id.into(), version, script: Script::new(js), ops: ops.clone(), task, on_warm_hit: None, env_updated_at: None }
}
/// status and whole body (or what went wrong)
pub async fn answer(rx: oneshot::Receiver<HttpResponse>) -> Result<(u16, String), String> {
    let r = rx.await.map_err(|_| "no answer".to_string())?;
    let s = r.status;
    let mut v = vec![];
    match r.body {
        ResponseBody::None => {}
        ResponseBody::Bytes(b) => v.extend_from_slice(&b),
        ResponseBody::Stream(mut rx) => {
            while let Some(c) = rx.recv().await {
                v.extend_from_slice(&c.map_err(|e| format!("body failed: {e}"))?);
            }
        }
    }
    Ok((s, String::from_utf8_lossy(&v).into_owned()))
}
/// One fetch event: result and answer.
pub async fn fetch(w: &mut rt::Worker, path: &str) -> (Result<(), TerminationReason>, Result<(u16, String), String>) {
    let (ev, rx) = Event::fetch(get(path));
    let a = tokio::task::spawn_local(answer(rx));
    let r = w.exec(ev).await;
    (r, a.await.unwrap())
}
pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expected: T) -> Result<(), String> {
    if got == expected { Ok(()) } else { Err(format!("{what}: {got:?}, expected {expected:?}")) }
}
unsafe extern "C" {
    fn shim_init_platform();
}
#[unsafe(no_mangle)]
pub extern "C" fn napi_register_module_v1(_env: *mut c_void, _exports: *mut c_void) -> *mut c_void {
    unsafe { shim_init_platform() };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let rt_ = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            tokio::task::LocalSet::new().block_on(&rt_, async { tokio::time::timeout(Duration::from_secs(40), scenario::demo()).await })
        })
        .unwrap()
        .join();
    let code = match r {
        Ok(Ok(Ok(()))) => 0,
        Ok(Ok(Err(e))) => {
            eprintln!("DEMO FAILED: {e}");
            1
        }
        Ok(Err(_)) => {
            eprintln!("DEMO FAILED: it hangs");
            1
        }
        Err(_) => {
            eprintln!("DEMO FAILED: panic");
            1
        }
    };
    unsafe { libc::_exit(code) }
}
