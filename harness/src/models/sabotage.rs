//! Worker code that turns against the runtime: it replaces what the runtime relies on in its
//! context. It may break itself, nobody else.
use super::resp::{client, Client};
use super::{cpu, ops, wk::*};
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("sabotage", sabotage)]
}
const NAMES: &[&str] = &[
    "__lastResponse", "__requestComplete", "__activeResponseStreams", "__lastResponseStreamId", "__taskResult", "__timerCallbacks", "__intervalIds", "__nextTimerId", "__executeTimer", "__triggerFetch", "__fetchHandler",
    "__taskHandler", "__scheduledHandler", "__signalClientDisconnect", "__createNativeStream", "__chunkBytes", "__bufferBody", "__prepareFetch", "__responseStreamWrite", "__responseStreamEnd", "__responseStreamIsClosed",
    "__responseStreamCreate", "__nativeStreamRead", "__nativeScheduleTimeout", "__nativeFetchStreaming", "Request", "Response", "Headers", "ReadableStream", "ReadableStreamDefaultController", "Promise", "Map", "Uint8Array", "Error", "JSON", "Object", "Symbol", "console",
    "TextEncoder", "AbortController", "String", "Array", "globalThis", "env", "addEventListener", "default",
];
const HOW: &[&str] = &[
    "delete globalThis.@", "globalThis.@ = undefined", "globalThis.@ = 5", "globalThis.@ = () => { throw new Error('x') }", "globalThis.@ = function () { return new Proxy(function () {}, { get() { throw 1 }, apply() { throw 2 } }) }",
    "globalThis.@ = new Proxy(function () {}, { get() { throw 1 }, apply() { throw 2 }, construct() { throw 3 } })", "Object.defineProperty(globalThis, '@', { configurable: true, get() { throw 1 }, set(v) { throw 2 } })", "globalThis.@ = Symbol()", "globalThis.@ = Promise.reject(null)", "globalThis.@ = { get status() { throw 1 }, get headers() { throw 2 }, get body() { throw 3 } }", "Object.defineProperty(globalThis, '@', { value: null, configurable: false, writable: false })",
];
const EXTRA: &[&str] = &[
    "Object.prototype.then = function () { throw 1 }", "Object.defineProperty(Object.prototype, 'status', { get() { throw 1 }, set() { throw 2 } })",
    "for (const k of ['method', 'headers', 'body', '_bodyStreamId', 'error', 'done', 'value', 'ok', 'status', 'statusText', 'streamId']) Object.defineProperty(Object.prototype, k, { get() { throw 1 }, set() { throw 2 }, configurable: true })",
    "for (const k of ['method', 'headers', 'body', '_bodyStreamId', 'error', 'done', 'value', 'ok', 'status', 'statusText', 'streamId']) Object.prototype[k] = 'poison'",
    "Array.prototype[Symbol.iterator] = undefined", "Object.defineProperty(Array.prototype, 0, { get() { throw 1 }, set() { throw 2 } })", "Promise.prototype.then = undefined", "Promise.prototype.then = () => { throw 1 }", "Promise.resolve = Promise.all = Promise.allSettled = () => { throw 1 }",
    "Map.prototype.get = Map.prototype.set = Map.prototype.has = () => { throw 1 }", "Object.setPrototypeOf(globalThis, new Proxy({}, { get() { throw 1 }, has() { throw 2 }, set() { throw 3 } }))", "Object.freeze(globalThis)", "Object.preventExtensions(globalThis)", "for (const k of Reflect.ownKeys(globalThis)) try { delete globalThis[k] } catch (e) {}",
    "for (const k of Reflect.ownKeys(globalThis)) try { globalThis[k] = () => { throw 1 } } catch (e) {}", "Symbol.prototype.toString = () => { throw 1 }", "Error.prepareStackTrace = () => { throw 1 }", "Error.prepareStackTrace = () => ({ get toString() { throw 1 } })", "Error.stackTraceLimit = 1e9", "Error.captureStackTrace = null; Error.prototype.toString = () => { throw 1 }",
    "Function.prototype.call = Function.prototype.apply = () => { throw 1 }", "Uint8Array.prototype.set = () => { throw 1 }", "ArrayBuffer.prototype.slice = () => { throw 1 }", "RegExp.prototype.exec = () => { throw 1 }", "String.prototype.toLowerCase = () => { throw 1 }", "Number.prototype.toString = () => { throw 1 }",
    // natives called directly
    "for (const v of [0, -1, NaN, Infinity, 1e300, 2 ** 53, 2 ** 63, 2 ** 64, 2 ** 32]) { __nativeScheduleTimeout(v, v); __nativeScheduleInterval(v, v); __nativeClearTimer(v) }",
    "for (const v of [0, -1, NaN, Infinity, 1e300, 2 ** 53, 2 ** 63, 2 ** 64]) { __nativeScheduleTimeout(1, v) }", "__nativeScheduleInterval(7, 0)", "__nativeScheduleInterval(7, -1)", "__nativeScheduleInterval(7, 2 ** 63)", "for (let i = 0; i < 5; i++) __executeTimer(i)",
    "for (const v of [0, 1, -1, NaN, 1e300, 2 ** 53]) { __nativeStreamRead(v, () => {}); __nativeStreamCancel(v); __responseStreamEnd(v); __responseStreamWrite(v, new Uint8Array(1)) }", "for (let i = 0; i < 50; i++) { __responseStreamCreate() }", "{ const s = __responseStreamCreate(); __responseStreamWrite(s, new Uint8Array(3)); __responseStreamEnd(s); __responseStreamEnd(s); __responseStreamWrite(s, new Uint8Array(3)) }",
    "for (const v of [0, 1, -1, 1e300]) { __nativeWebSocketAccept(v, () => {}); __nativeWebSocketSend(v, 'x'); __nativeWebSocketClose(v, 99999, 'y'.repeat(1e5)) }", "__nativeWebSocketConnect('', null, () => {}, () => {})",
    "__nativeFetchStreaming({ url: 'http://h/ok:x', method: 'GET', headers: {} }, () => { throw 1 }, () => { throw 2 })", "__nativeFetchStreaming({ url: 'http://h/str:a,b', method: 'GET', headers: {} }, v => { globalThis.__executeTimer = undefined; throw v }, () => {})", "__nativeFetchStreaming({ url: 'http://h/err:x', method: 'GET', headers: {} }, () => {}, () => { throw 2 })",
    "__nativeBindingKv('KV', 'get', { key: 'ok:1' }, () => { throw 1 }, () => {})", "setTimeout(new Proxy(function () {}, { apply() { throw 1 } }), 1)", "__timerCallbacks.set(99, 5); __nativeScheduleTimeout(99, 1)", "__timerCallbacks.set(99, null); __nativeScheduleInterval(99, 1)",
];
/// what the handler then answers with
const ANSWERS: &[&str] = &["new Response('x')", "new Response(new ReadableStream({ start(c) { c.enqueue('a'); setTimeout(() => c.close(), 5) } }))"];
const ODD: &[&str] = &[
    "Object.assign(new Response('x'), { status: 1e10 })", "Object.assign(new Response('x'), { status: -1 })", "Object.assign(new Response('x'), { status: NaN })", "Object.assign(new Response('x'), { status: 'abc' })", "Object.assign(new Response('x'), { status: Symbol() })", "Object.assign(new Response('x'), { status: { valueOf() { throw 1 } } })",
    "Object.assign(new Response('x'), { headers: null })", "Object.assign(new Response('x'), { headers: { a: Symbol(), get b() { throw 1 }, c: { toString() { throw 2 } } } })", "Object.assign(new Response('x'), { headers: new Proxy({}, { get() { throw 1 }, ownKeys() { throw 2 } }) })", "Object.assign(new Response('x'), { headers: { _map: new Map([[Symbol(), 1], ['b', [Symbol(), 'c']], [{ toString() { throw 1 } }, 'x']]) } })",
    "Object.assign(new Response('x'), { headers: { _map: new Map([['a', new Array(50000000)]]) } })", "Object.assign(new Response('x'), { headers: { _map: new Map([['\\u0000\\n\\u{1f600}', 'v\\r\\n\\ud800']]) } })",
    "Object.assign(new Response('x'), { _responseStreamId: 1e300 })", "Object.assign(new Response('x'), { _responseStreamId: -1 })", "Object.assign(new Response('x'), { _responseStreamId: 4242 })", "Object.assign(new Response('x'), { _responseStreamId: Symbol() })", "Object.assign(new Response('x'), { _responseStreamId: 'x' })", "Object.assign(new Response('x'), { _nativeStreamId: 7 })",
    "Object.assign(new Response('x'), { _getRawBody: 5 })", "Object.assign(new Response('x'), { _getRawBody() { throw 1 } })", "Object.assign(new Response('x'), { _getRawBody() { return Symbol() } })", "Object.assign(new Response('x'), { _getRawBody() { const b = new Uint8Array(4); b.buffer.transfer(); return b } })", "Object.assign(new Response('x'), { _getRawBody() { return new DataView(new ArrayBuffer(9), 3) } })", "Object.assign(new Response('x'), { body: 5 })", "Object.assign(new Response(new ReadableStream()), { body: null })",
    "(() => { const r = new Response(new ReadableStream({ start(c) { setTimeout(() => c.close(), 5) } })); r.body.getReader(); return r })()", "new Proxy(new Response('x'), { get() { throw 1 } })", "Proxy.revocable(new Response('x'), {}).proxy", "Object.create(new Response('x'))", "Object.create(Response.prototype)", "(() => { const p = Proxy.revocable(new Response('x'), {}); p.revoke(); return p.proxy })()",
    "(() => { const r = new Response('x'); Object.defineProperty(r, 'status', { get() { throw 1 } }); return r })()", "(() => { const r = new Response('x'); Object.defineProperty(r, 'status', { get() { globalThis.__lastResponse = undefined; return 200 } }); return r })()",
];

fn sabotage(p: &Params) {
    let host = p.s("host");
    let pinned = host == "pinned";
    let set = p.s("set");
    let (code, stage, answer) = match set.as_str() {
        "odd" => (String::new(), "none", *mc::pick(ODD, "answer")),
        _ => {
            let code = if set == "extra" { mc::pick(EXTRA, "code").to_string() } else { mc::pick(HOW, "how").replace('@', mc::pick(NAMES, "name")) };
            let stage = *mc::pick(&["top", "handler", "late"], "stage");
            (code, stage, *mc::pick(ANSWERS, "answer"))
        }
    };
    let at = |s: &str| if s == stage { code.clone() } else { String::new() };
    let js = format!(
        "const native = {{ setTimeout, fetch }};\n{};\naddEventListener('fetch', async ev => {{\n{};\nev.waitUntil((async () => {{ await native.fetch('http://h/ok:1'); await new Promise(r => native.setTimeout(r, 3)); {}; await native.fetch('http://h/ok:2') }})());\nev.respondWith((async () => {{ await native.fetch('http://h/str:a'); return {answer} }})());\n}});",
        at("top"), at("handler"), at("late")
    );
    const GOOD: &str = "addEventListener('fetch', e => e.respondWith((async () => { await new Promise(r => setTimeout(r, 2)); const v = await env.KV.get('ok:v'); return new Response((await (await fetch('http://h/ok:fine')).text()) + v, { headers: { a: 'b' } }) })()));";
    let leave = p.b("leave");
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            cpu::TIMERS.lock().unwrap().clear();
            mc::sched::clock::manual(true);
            let w = World::with(true, false, false);
            use_env(&w, false);
            let lim = RuntimeLimits { max_wall_clock_time_ms: 1000, heap_max_mb: 64, ..limits() };
            let ops: OperationsHandle = Arc::new(Ops(w.clone()));
            let bad = Script { bindings: ops::bindings(), ..Script::new(js.as_str()) };
            let good = Script { bindings: ops::bindings(), ..Script::new(GOOD) };
            mc::event(js.clone());
            w.wall.store(true, SeqCst);
            let mut results = vec![];
            match Host::new(&host, bad, ops.clone(), lim.clone()).await {
                Ok(mut h) => {
                    for _ in 0..if pinned { 2 } else { 1 } {
                        let (ev, rx) = Event::fetch(get("http://x/"));
                        let (g, j) = client(&w, rx, if leave { Client::Leave(0) } else { Client::Read });
                        let r = h.exec(ev).await;
                        mc::event(format!("[{} ms] exec: {r:?}", w.now()));
                        check!(w.now() < 20_000, "endless", "the execution went on for {} ms", w.now());
                        results.push((format!("{r:?}"), g, j));
                    }
                    if let Host::Pinned { id, version, script, .. } = &mut h {
                        *id = "other".into();
                        *version += 1;
                        *script = good.clone();
                    } else {
                        drop(h);
                        h = Host::new(&host, good, ops.clone(), lim.clone()).await.unwrap_or_else(|e| {
                            mc::violation("aftermath", format!("a new worker fails: {e:?}"));
                            panic!()
                        });
                    }
                    w.wall.store(false, SeqCst);
                    for _ in 0..2 {
                        let (ev, rx) = Event::fetch(get("http://x/"));
                        let (g, j) = client(&w, rx, Client::Read);
                        let r = h.exec(ev).await;
                        let _ = j.await;
                        let g = g.lock().unwrap().clone();
                        check!(r.is_ok() && g.status == 200 && g.bytes() == b"finev" && g.error.is_none() && g.headers == vec![("a".to_string(), "b".to_string())], "aftermath", "another worker got {r:?} {g:?}");
                        if matches!(h, Host::Worker(_)) {
                            break;
                        }
                    }
                    drop(h);
                }
                Err(e) => results.push((format!("new: {e:?}"), Default::default(), tokio::spawn(async {}))),
            }
            w.wall.store(false, SeqCst);
            if pinned {
                let s = rt::get_local_pool_stats().unwrap();
                check!(s.in_use == 0, "leak", "{} isolates stay in use", s.in_use);
            }
            for (r, g, j) in results {
                // the pool keeps the context of the sabotaged worker: its body may stay open
                if !pinned {
                    let _ = j.await;
                }
                let g = g.lock().unwrap().clone();
                mc::outcome((r, g.status, g.error.is_some(), g.end.is_some()));
            }
            env::set_env(None);
            mc::sched::clock::manual(false);
        })
    });
}
