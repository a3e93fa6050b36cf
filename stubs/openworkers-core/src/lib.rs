//! Stand-in for openworkers-core v0.14.0. Data carriers only: no behaviour of
//! /repo lives here. Inferred from how /repo/src and /repo/tests use them.
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use tokio::sync::{mpsc, oneshot};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum HttpMethod { Get, Post, Put, Delete, Patch, Head, Options }

impl std::str::FromStr for HttpMethod {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(match s.to_ascii_uppercase().as_str() {
            "GET" => Self::Get, "POST" => Self::Post, "PUT" => Self::Put, "DELETE" => Self::Delete,
            "PATCH" => Self::Patch, "HEAD" => Self::Head, "OPTIONS" => Self::Options,
            o => return Err(format!("unknown method {o}")),
        })
    }
}
impl HttpMethod {
    pub fn as_str(&self) -> &'static str {
        match self { Self::Get => "GET", Self::Post => "POST", Self::Put => "PUT", Self::Delete => "DELETE",
            Self::Patch => "PATCH", Self::Head => "HEAD", Self::Options => "OPTIONS" }
    }
}
impl std::fmt::Display for HttpMethod {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.as_str()) }
}

#[derive(Debug, Default)]
pub enum RequestBody { #[default] None, Bytes(Bytes), Stream(mpsc::Receiver<Result<Bytes, String>>) }
impl RequestBody {
    pub fn is_none(&self) -> bool { matches!(self, Self::None) }
    pub fn is_stream(&self) -> bool { matches!(self, Self::Stream(_)) }
}

#[derive(Debug)]
pub struct HttpRequest { pub method: HttpMethod, pub url: String, pub headers: HashMap<String, String>, pub body: RequestBody }

#[derive(Debug, Default)]
pub enum ResponseBody { #[default] None, Bytes(Bytes), Stream(mpsc::Receiver<Result<Bytes, String>>) }
impl ResponseBody {
    pub fn is_none(&self) -> bool { matches!(self, Self::None) }
    pub fn is_stream(&self) -> bool { matches!(self, Self::Stream(_)) }
    pub async fn collect(self) -> Option<Bytes> {
        match self {
            Self::None => None,
            Self::Bytes(b) => Some(b),
            Self::Stream(mut rx) => {
                let mut v = Vec::new();
                while let Some(c) = rx.recv().await { match c { Ok(b) => v.extend_from_slice(&b), Err(_) => return None } }
                Some(Bytes::from(v))
            }
        }
    }
}

#[derive(Debug)]
pub struct HttpResponse { pub status: u16, pub headers: Vec<(String, String)>, pub body: ResponseBody }

#[derive(Debug, Clone, PartialEq)]
pub struct HttpResponseMeta { pub status: u16, pub status_text: String, pub headers: Vec<(String, String)> }

pub type ResponseSender = oneshot::Sender<HttpResponse>;

#[derive(Debug, Clone, PartialEq)]
pub enum TaskSource { Schedule { time: u64 }, Invoke { origin: Option<String> } }

#[derive(Debug, Clone, PartialEq)]
pub struct TaskResult { pub success: bool, pub data: Option<serde_json::Value>, pub error: Option<String> }
impl TaskResult {
    pub fn success() -> Self { Self { success: true, data: None, error: None } }
}

#[derive(Debug)]
pub struct FetchInit { pub req: HttpRequest, pub res_tx: ResponseSender }
#[derive(Debug)]
pub struct TaskInit { pub task_id: String, pub payload: Option<serde_json::Value>, pub source: Option<TaskSource>, pub attempt: u32, pub res_tx: oneshot::Sender<TaskResult> }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EventType { Fetch, Task }

#[derive(Debug)]
pub enum Event { Fetch(Option<FetchInit>), Task(Option<TaskInit>) }
impl Event {
    pub fn fetch(req: HttpRequest) -> (Self, oneshot::Receiver<HttpResponse>) {
        let (res_tx, rx) = oneshot::channel();
        (Event::Fetch(Some(FetchInit { req, res_tx })), rx)
    }
    pub fn task(task_id: String, payload: Option<serde_json::Value>, source: Option<TaskSource>, attempt: u32) -> (Self, oneshot::Receiver<TaskResult>) {
        let (res_tx, rx) = oneshot::channel();
        (Event::Task(Some(TaskInit { task_id, payload, source, attempt, res_tx })), rx)
    }
    pub fn from_schedule(task_id: String, time: u64) -> (Self, oneshot::Receiver<TaskResult>) {
        Self::task(task_id, None, Some(TaskSource::Schedule { time }), 1)
    }
    pub fn event_type(&self) -> EventType { match self { Event::Fetch(_) => EventType::Fetch, Event::Task(_) => EventType::Task } }
}

#[derive(Debug, Clone, PartialEq)]
pub enum WorkerCode { JavaScript(String), Snapshot(Vec<u8>), Wasm(Vec<u8>) }
impl WorkerCode {
    pub fn snapshot(v: impl Into<Vec<u8>>) -> Self { Self::Snapshot(v.into()) }
}
impl From<&str> for WorkerCode { fn from(s: &str) -> Self { Self::JavaScript(s.to_string()) } }
impl From<String> for WorkerCode { fn from(s: String) -> Self { Self::JavaScript(s) } }
impl From<&String> for WorkerCode { fn from(s: &String) -> Self { Self::JavaScript(s.clone()) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BindingType { Assets, Storage, Kv, Database, Worker }
#[derive(Debug, Clone, PartialEq)]
pub struct BindingInfo { pub name: String, pub binding_type: BindingType }
impl BindingInfo {
    pub fn new(name: impl Into<String>, binding_type: BindingType) -> Self { Self { name: name.into(), binding_type } }
}

#[derive(Debug, Clone)]
pub struct Script { pub code: WorkerCode, pub env: Option<HashMap<String, String>>, pub bindings: Vec<BindingInfo> }
impl Script {
    pub fn new(code: impl Into<WorkerCode>) -> Self { Self { code: code.into(), env: None, bindings: vec![] } }
    pub fn with_env(code: impl Into<WorkerCode>, env: HashMap<String, String>) -> Self { Self { code: code.into(), env: Some(env), bindings: vec![] } }
    pub fn with_bindings(code: impl Into<WorkerCode>, env: Option<HashMap<String, String>>, bindings: Vec<BindingInfo>) -> Self { Self { code: code.into(), env, bindings } }
}

#[derive(Debug, Clone)]
pub struct RuntimeLimits { pub heap_initial_mb: usize, pub heap_max_mb: usize, pub max_cpu_time_ms: u64, pub max_wall_clock_time_ms: u64, pub stream_buffer_size: usize }
impl Default for RuntimeLimits {
    fn default() -> Self { Self { heap_initial_mb: 1, heap_max_mb: 128, max_cpu_time_ms: 50, max_wall_clock_time_ms: 30_000, stream_buffer_size: 16 } }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TerminationReason { CpuTimeLimit, WallClockTimeout, MemoryLimit, Exception(String), InitializationError(String), Terminated, Aborted, MaxIterationsReached, Other(String) }
impl std::fmt::Display for TerminationReason {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for TerminationReason {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LogLevel { Error, Warn, Info, Log, Debug, Trace }
impl std::fmt::Display for LogLevel {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", format!("{self:?}").to_lowercase()) }
}
#[derive(Debug, Clone)]
pub struct LogEvent { pub level: LogLevel, pub message: String }

#[derive(Debug, Clone, PartialEq)]
pub enum StorageOp { Get { key: String }, Fetch { key: String }, Put { key: String, body: Vec<u8> }, Head { key: String }, List { prefix: Option<String>, limit: Option<u32> }, Delete { key: String } }
#[derive(Debug)]
pub enum StorageResult { Body(Option<Vec<u8>>), Head { size: u64, etag: Option<String> }, List { keys: Vec<String>, truncated: bool }, Response(HttpResponse), Error(String) }
#[derive(Debug, Clone, PartialEq)]
pub enum KvOp { Get { key: String }, Put { key: String, value: serde_json::Value, expires_in: Option<u64> }, Delete { key: String }, List { prefix: Option<String>, limit: Option<u32> } }
#[derive(Debug, Clone, PartialEq)]
pub enum KvResult { Value(Option<serde_json::Value>), Ok, Keys(Vec<String>), Error(String) }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlPrimitive { Null, Bool(bool), Int(i64), Float(f64), String(String) }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlParam { Primitive(SqlPrimitive), Array(Vec<SqlPrimitive>) }
#[derive(Debug, Clone, PartialEq)]
pub enum DatabaseOp { Query { sql: String, params: Vec<SqlParam> } }
#[derive(Debug, Clone, PartialEq)]
pub enum DatabaseResult { Rows(String), Error(String) }

pub type WebSocketId = u64;
#[derive(Debug, Clone, PartialEq)]
pub enum WebSocketIncoming { Text(String), Binary(Vec<u8>), Closed { code: u16, reason: String }, Error(String) }
#[derive(Debug, Clone, PartialEq)]
pub enum WebSocketOutgoing { Text(String), Binary(Vec<u8>), Close { code: u16, reason: String } }
#[derive(Debug)]
pub struct WebSocketConnection { pub send_tx: mpsc::UnboundedSender<WebSocketOutgoing>, pub recv_rx: mpsc::UnboundedReceiver<WebSocketIncoming> }

#[derive(Debug)]
pub enum Operation {
    Fetch(HttpRequest),
    BindingFetch { binding: String, request: HttpRequest },
    BindingStorage { binding: String, op: StorageOp },
    BindingKv { binding: String, op: KvOp },
    BindingDatabase { binding: String, op: DatabaseOp },
    BindingWorker { binding: String, request: HttpRequest },
    WebSocketConnect { url: String, headers: HashMap<String, String> },
    Log { level: LogLevel, message: String },
}
#[derive(Debug)]
pub enum OperationResult {
    Http(Result<HttpResponse, String>),
    Storage(StorageResult),
    Kv(KvResult),
    Database(DatabaseResult),
    WebSocket(Result<WebSocketConnection, String>),
    Ack,
}

pub type OpFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

pub trait OperationsHandler: Send + Sync {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        Box::pin(async move {
            match op {
                Operation::Fetch(r) => OperationResult::Http(self.handle_fetch(r).await),
                Operation::BindingFetch { binding, request } => OperationResult::Http(self.handle_binding_fetch(&binding, request).await),
                Operation::BindingStorage { binding, op } => OperationResult::Storage(self.handle_binding_storage(&binding, op).await),
                Operation::BindingKv { binding, op } => OperationResult::Kv(self.handle_binding_kv(&binding, op).await),
                Operation::BindingDatabase { binding, op } => OperationResult::Database(self.handle_binding_database(&binding, op).await),
                Operation::BindingWorker { binding, request } => OperationResult::Http(self.handle_binding_worker(&binding, request).await),
                Operation::WebSocketConnect { url, headers } => OperationResult::WebSocket(self.handle_websocket_connect(url, headers).await),
                Operation::Log { level, message } => { self.handle_log(level, message); OperationResult::Ack }
            }
        })
    }
    fn handle_fetch(&self, _request: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { Box::pin(async { Err("Fetch not available".to_string()) }) }
    fn handle_binding_fetch(&self, _b: &str, _r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { Box::pin(async { Err("Binding fetch not available".to_string()) }) }
    fn handle_binding_storage(&self, _b: &str, _op: StorageOp) -> OpFuture<'_, StorageResult> { Box::pin(async { StorageResult::Error("Storage not available".into()) }) }
    fn handle_binding_kv(&self, _b: &str, _op: KvOp) -> OpFuture<'_, KvResult> { Box::pin(async { KvResult::Error("KV not available".into()) }) }
    fn handle_binding_database(&self, _b: &str, _op: DatabaseOp) -> OpFuture<'_, DatabaseResult> { Box::pin(async { DatabaseResult::Error("Database not available".into()) }) }
    fn handle_binding_worker(&self, _b: &str, _r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { Box::pin(async { Err("Worker binding not available".to_string()) }) }
    fn handle_websocket_connect(&self, _url: String, _h: HashMap<String, String>) -> OpFuture<'_, Result<WebSocketConnection, String>> { Box::pin(async { Err("WebSocket not available".to_string()) }) }
    fn handle_log(&self, _level: LogLevel, _message: String) {}
}
pub type OperationsHandle = Arc<dyn OperationsHandler>;
pub struct DefaultOps;
impl OperationsHandler for DefaultOps {}

#[allow(async_fn_in_trait)]
pub trait Worker: Sized {
    async fn new(script: Script, limits: Option<RuntimeLimits>) -> Result<Self, TerminationReason>;
    async fn exec(&mut self, task: Event) -> Result<(), TerminationReason>;
    fn abort(&mut self);
}
