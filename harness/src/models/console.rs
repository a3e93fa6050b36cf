//! What a worker logs reaches the host: every call once, in order, with its level and text.
use super::resp::{driver, pick};
use super::{cpu, wk::*};
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("console", console)]
}
struct Logger(Arc<World>, Arc<Mutex<Vec<(LogLevel, String)>>>);
impl OperationsHandler for Logger {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let w = self.0.clone();
        let seen = self.1.clone();
        Box::pin(async move {
            if let Operation::Log { level, message } = op {
                seen.lock().unwrap().push((level, message));
                return OperationResult::Ack;
            }
            Ops(w).handle(op).await
        })
    }
    fn handle_log(&self, level: LogLevel, message: String) {
        self.1.lock().unwrap().push((level, message.clone()));
        Ops(self.0.clone()).handle_log(level, message)
    }
}
/// (expression, text; None: any text, but the call must not throw)
const VALUES: &[(&str, Option<&str>)] = &[
    ("'a'", Some("a")), ("''", Some("")), ("'\\u00e9\\u0000\\u{1f600}\\n\\t\"'", Some("\u{e9}\u{0}\u{1f600}\n\t\"")), ("'%s %d %o'", Some("%s %d %o")), ("'x'.repeat(70000)", Some("(x*70000)")), ("'y\\u00e9'.repeat(40000)", Some("(y\u{e9}*40000)")), ("'\\ud800'", Some("\u{fffd}")),
    ("5", Some("5")), ("-1.5e300", Some("-1.5e+300")), ("0.1 + 0.2", Some("0.30000000000000004")), ("NaN", Some("NaN")), ("-Infinity", Some("-Infinity")), ("10n", Some("10")),
    ("true", Some("true")), ("null", Some("null")), ("undefined", Some("undefined")), ("Symbol('s')", Some("Symbol(s)")), ("Symbol()", Some("Symbol()")),
    ("({ a: 1, b: [null, 'x'] })", Some("{\"a\":1,\"b\":[null,\"x\"]}")), ("[]", Some("[]")), ("[1, [2, { c: 'd' }]]", Some("[1,[2,{\"c\":\"d\"}]]")), ("({})", Some("{}")), ("new Date(0)", Some("\"1970-01-01T00:00:00.000Z\"")), ("Object.create(null)", Some("{}")),
    ("({ toJSON() { return 'j'; } })", Some("\"j\"")), ("({ toString() { return 'no'; } })", Some("{}")),
    ("Object.assign(new Error('e'), { stack: undefined })", Some("Error: e")), ("Object.assign(new TypeError('e'), { stack: '' })", Some("TypeError: e")), ("Object.assign(new Error('e'), { stack: 'S' })", Some("S")),
    ("new Error('e')", None), ("new DOMException('m', 'AbortError')", None), ("new Map([[1, 2]])", None), ("new Set([1])", None), ("new Uint8Array(3)", None), ("() => 1", None), ("class A {}", None), ("/x/g", None), ("Promise.resolve(1)", None), ("new Headers({ a: 'b' })", None), ("new Response('x')", None), ("new URL('http://h/')", None), ("globalThis", None), ("env", None), ("console", None),
    ("(() => { const o = {}; o.o = o; return o; })()", None), ("(() => { const o = []; o.push(o); return o; })()", None), ("({ a: 10n })", None), ("({ toJSON() { throw 1; } })", None), ("({ toJSON() { return undefined; } })", None), ("({ get a() { throw new Error('g'); } })", None),
    ("(() => { const o = Object.create(null); o.o = o; return o; })()", None), ("({ a: 1n, toString() { throw 1; } })", None), ("({ a: 1n, [Symbol.toPrimitive]: 5 })", None), ("(() => { const r = Proxy.revocable({}, {}); r.revoke(); return r.proxy; })()", None), ("new Proxy({}, { get() { throw 1; }, getPrototypeOf() { throw 2; }, ownKeys() { throw 3; } })", None),
    ("(() => { const e = new Error('x'); Object.defineProperty(e, 'stack', { get() { throw 1; } }); return e; })()", None), ("(() => { const e = new Error('x'); e.stack = ''; e.name = Symbol('n'); return e; })()", None), ("(() => { const e = new Error('x'); e.stack = { toString() { throw 1; } }; return e; })()", None), ("Object.assign(() => 1, { toString() { throw 1; } })", None), ("Object.assign(() => 1, { toString: 5, valueOf: 5 })", None),
    ("(() => { let o = {}; for (let i = 0; i < 20000; i++) o = { o }; return o; })()", None),
];
const METHODS: &[(&str, LogLevel)] = &[("log", LogLevel::Info), ("info", LogLevel::Info), ("warn", LogLevel::Warn), ("error", LogLevel::Error), ("debug", LogLevel::Debug), ("trace", LogLevel::Trace)];
const PHASES: &[&str] = &["top", "handler", "micro", "timer", "op", "after", "stream", "listener"];

fn console(p: &Params) {
    let host = p.s("host");
    let mode = pick(p, "mode", &["value", "args", "order", "end"]);
    let m = |n: usize| METHODS[n];
    // (phase, method, arguments, text) of each call, in program order
    let mut calls: Vec<(&str, usize, String, Option<String>)> = vec![];
    let mut ending = "";
    match mode.as_str() {
        "value" => {
            let v = mc::pick(VALUES, "value");
            calls.push((mc::pick(&["top", "handler"], "phase"), mc::free(METHODS.len(), "method"), v.0.into(), v.1.map(|s| s.into())));
        }
        "args" => {
            let few: Vec<_> = VALUES.iter().filter(|v| v.1.is_some()).collect();
            let n = mc::free(p.u("args", 3), "count");
            let vs: Vec<_> = (0..n).map(|_| **mc::pick(&few, "value")).collect();
            calls.push(("handler", 0, vs.iter().map(|v| v.0).collect::<Vec<_>>().join(", "), Some(vs.iter().map(|v| v.1.unwrap()).collect::<Vec<_>>().join(" "))));
        }
        "order" => {
            let n = p.u("calls", 3);
            for i in 0..n {
                let ph = *mc::pick(PHASES, "phase");
                let me = mc::free(METHODS.len().min(p.u("methods", 2)), "method") * 3;
                calls.push((ph, me, format!("'m{i}'"), Some(format!("m{i}"))));
            }
        }
        _ => {
            ending = mc::pick(&["throw-top", "throw", "reject", "spin-logs"], "ending");
            let ph = if ending == "throw-top" { "top" } else { *mc::pick(&["top", "handler", "micro", "timer"], "phase") };
            for i in 0..2 {
                calls.push((ph, 0, format!("'m{i}'"), Some(format!("m{i}"))));
            }
        }
    }
    let spin = ending.starts_with("spin");
    let preempt = p.b("preempt");
    // long texts are abbreviated in the table
    for c in calls.iter_mut() {
        if let Some(t) = &mut c.3 {
            *t = t.replace("(x*70000)", &"x".repeat(70000)).replace("(y\u{e9}*40000)", &"y\u{e9}".repeat(40000));
        }
    }
    // `said` is what was logged, as the worker sees it; the number of a call comes first
    let call = |i: usize| format!("try {{ said.push({i}); console.{}({}); }} catch (e) {{ threw.push({i}); }}", m(calls[i].1).0, calls[i].2);
    let code = |ph: &str| (0..calls.len()).filter(|i| calls[*i].0 == ph).map(call).collect::<Vec<_>>().join("\n");
    let end = |ph: &str| match ending {
        "throw-top" if ph == "top" => "throw new Error('end');",
        "throw" if ph == "handler" => "throw new Error('end');",
        "reject" if ph == "handler" => "ev.respondWith(Promise.reject(new Error('end'))); return;",
        "spin-logs" if ph == "late" => "for (let i = 0; ; i++) console.log('spin ' + i);",
        _ => "",
    };
    let js = format!(
        "const said = [], threw = [];
         const sleep = ms => new Promise(r => setTimeout(r, ms));
         {}
         {}
         addEventListener('fetch', ev => {{
           {}
           {}
           queueMicrotask(() => {{ {} }});
           const t = sleep(5).then(() => {{ {} }});
           const o = fetch('http://h/ok:x').then(r => r.text()).then(() => {{ {} }});
           const ac = new AbortController();
           ac.signal.addEventListener('abort', () => {{ {} }});
           ev.respondWith(new Response(new ReadableStream({{ async start(c) {{ await sleep(2); {}; c.enqueue(new TextEncoder().encode('ok')); c.close(); }} }})));
           ev.waitUntil((async () => {{ await t; await o; ac.abort(); await sleep(10); {}; {} console.log('said ' + JSON.stringify([said, threw])); }})());
         }});",
        code("top"), end("top"), code("handler"), end("handler"), code("micro"), code("timer"), code("op"), code("listener"), code("stream"), code("after"), end("late")
    );
    let expr = calls.iter().map(|c| format!("{}: console.{}({})", c.0, m(c.1).0, c.2)).collect::<Vec<_>>().join("; ");
    let expr = if ending.is_empty() { expr } else { format!("{expr}; {ending}") };
    driver(preempt, move |w| async move {
        cpu::TIMERS.lock().unwrap().clear();
        let seen: Arc<Mutex<Vec<(LogLevel, String)>>> = Arc::default();
        let ops: OperationsHandle = Arc::new(Logger(w.clone(), seen.clone()));
        mc::sched::clock::manual(true);
        let lim = RuntimeLimits { max_cpu_time_ms: 100, max_wall_clock_time_ms: 1000, ..limits() };
        let h = Host::new(&host, Script::new(js), ops, lim).await;
        let mut result = None;
        if let Ok(mut h) = h {
            w.cpu.store(spin, SeqCst);
            let (ev, rx) = Event::fetch(get("http://x/"));
            let body = tokio::spawn(async move {
                match rx.await {
                    Ok(r) => {
                        r.body.collect().await;
                    }
                    Err(_) => {}
                }
            });
            let r = h.exec(ev).await;
            w.cpu.store(false, SeqCst);
            body.abort();
            result = Some(format!("{r:?}"));
            drop(h);
        }
        let mut seen = seen.lock().unwrap().clone();
        let expired = !w.i.lock().unwrap().expired.is_empty();
        let short = |v: &Vec<(LogLevel, String)>| format!("{v:?}").chars().take(300).collect::<String>();
        // the order in which the worker called: its own account, or program order if it did not get that far
        let said: Vec<usize> = match seen.last().and_then(|l| l.1.strip_prefix("said ")).and_then(|s| serde_json::from_str::<[Vec<usize>; 2]>(s).ok()) {
            Some([said, threw]) => {
                seen.pop();
                check!(threw.is_empty(), "throws", "{expr}: the call threw");
                let mut all = said.clone();
                all.sort();
                check!(all == (0..calls.len()).collect::<Vec<_>>(), "not-run", "{expr}: ran {said:?}");
                said
            }
            None => {
                check!(!ending.is_empty(), "lost", "{expr}: the last message did not arrive: {}, {result:?}", short(&seen));
                (0..calls.len()).collect()
            }
        };
        // what the runtime itself reports of a failing handler
        if !ending.is_empty() {
            seen.retain(|l| l.1.starts_with('m') || l.1.starts_with("spin "));
        }
        let spun: Vec<String> = seen.iter().filter(|l| l.1.starts_with("spin ")).map(|l| l.1.clone()).collect();
        seen.retain(|l| !l.1.starts_with("spin "));
        check!(spun.iter().enumerate().all(|(i, l)| *l == format!("spin {i}")), "order", "{expr}: {spun:?}");
        if spin && expired && ending == "spin-logs" && w.i.lock().unwrap().during.iter().any(|d| d.starts_with("spin ")) {
            check!(!spun.is_empty(), "lost", "{expr}: nothing of what was logged before the limit expired");
        }
        let late = |ph: &str| ending == "throw" && ph != "top" && ph != "handler" || spin && expired || ending == "reject" && !matches!(ph, "top" | "handler");
        let want: Vec<(LogLevel, Option<&String>)> = said.iter().map(|i| (m(calls[*i].1).1, calls[*i].3.as_ref())).collect();
        let fits = seen.len() <= want.len() && seen.iter().zip(&want).all(|(s, w)| s.0 == w.0 && w.1.is_none_or(|t| *t == s.1));
        let whole = seen.len() == want.len() || calls.iter().any(|c| late(c.0));
        check!(fits && whole, "logged", "{expr}: the host got {} instead of {}, {result:?}", short(&seen), format!("{want:?}").chars().take(300).collect::<String>());
        mc::outcome((expr, short(&seen), result));
        mc::sched::clock::manual(false);
    });
}
