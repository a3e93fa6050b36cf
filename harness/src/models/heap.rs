//! Memory: whoever fills the heap, at whatever moment, is stopped there and then and reported for it; the
//! process lives, and what runs next has the configured heap again.
use super::wk::*;
use super::cpu;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("heap", heap)]
}

/// `eat()` is what uses the memory
const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
const bytes = s => new TextEncoder().encode(s);
const K = {
  ok: () => new Response('fine'),
  sync: () => { eat(); return new Response('r'); },
  catching: () => { for (let i = 0; i < 5; i++) { try { eat(); } catch (e) { console.log('caught'); } finally { console.log('finally'); } } return new Response('r'); },
  micro: async () => { for (let i = 0; i < 4; i++) { await 0; eat(); } return new Response('r'); },
  async_: async () => { eat(); return new Response('r'); },
  queued: () => { Promise.resolve().then(() => console.log('queued')); eat(); return new Response('r'); },
  timer: async () => { await sleep(5); eat(); await sleep(5); return new Response('r'); },
  bare: () => { setTimeout(eat, 5); setTimeout(() => console.log('later'), 50); return new Promise(r => setTimeout(() => { eat(); r(new Response('r')); }, 20)); },
  interval: () => new Promise(r => { let n = 0; const i = setInterval(() => { eat(); if (++n == 3) { clearInterval(i); r(new Response('r')); } }, 5); }),
  op: async () => { await (await fetch('http://h/ok:hello')).text(); eat(); await (await fetch('http://h/ok:hello')).text(); return new Response('r'); },
  then: () => fetch('http://h/ok:hello').then(r => { eat(); return r.text(); }).then(t => { eat(); return new Response('r'); }),
  stream: () => new Response(new ReadableStream({ async start(c) { for (let i = 0; i < 3; i++) { await sleep(5); c.enqueue(bytes('p' + i)); eat(); } c.close(); } })),
  pull: () => new Response(new ReadableStream({ async pull(c) { await sleep(5); eat(); c.enqueue(bytes('p')); c.close(); } })),
  background: (e) => { e.waitUntil((async () => { await sleep(5); eat(); console.log('done'); })()); return new Response('r'); },
  getter: () => Object.defineProperty(new Response('r'), 'status', { get() { eat(); return 200; } }),
  cloned: () => { structuredClone({ get x() { eat(); return 1; } }); return new Response('r'); },
  replacer: () => new Response(JSON.stringify({ toJSON() { eat(); return 'r'; } })),
};
addEventListener('fetch', e => e.respondWith(K[e.request.url.slice('http://x/'.length)](e)));
addEventListener('task', e => K[e.payload](e));
"#;
const KINDS: &[&str] = &["sync", "catching", "micro", "async_", "queued", "timer", "bare", "interval", "op", "then", "stream", "pull", "background", "getter", "cloned", "replacer"];
const SAY: &str = "console.log('eating');";
/// ways to fill a heap, most of them with one allocation that is far larger than what is left of it
const EAT: &[(&str, &str)] = &[
    ("said", SAY),
    ("push", "const a = []; for (;;) a.push({ x: 1 });"),
    ("caught", "for (;;) { try { const a = []; for (;;) a.push({ x: 1 }); } catch (e) {} }"),
    ("map", "const m = new Map(); for (let i = 0; ; i++) m.set(i, { i });"),
    ("set", "const m = new Set(); for (let i = 0; ; i++) m.add(i + 0.5);"),
    ("props", "const o = {}; for (let i = 0; ; i++) o['k' + i] = i;"),
    ("spread", "let s = 'abc'; for (let i = 0; i < 24; i++) s += s; const a = [...s]; for (;;) a.push({ a });"),
    ("split", "const a = []; for (;;) a.push(('x' + a.length).repeat(100000).split(''));"),
    ("strings", "const a = []; for (;;) a.push('x'.repeat(1000) + a.length);"),
    ("fill", "const a = []; for (;;) a.push(new Array(1e6).fill(a));"),
    ("double", "let a = [1.5]; for (;;) { a = a.concat(a); }"),
    ("double3", "let a = [1, 2, 3]; for (;;) { a = a.concat(a); }"),
    ("double5", "let a = [{}, 2, 3, 4, {}]; for (;;) { a = a.concat(a); }"),
    ("double7", "let a = [1, 2, 3, 4, 5, 6, 7]; for (;;) { a = [...a, ...a]; }"),
    ("closures", "const a = []; for (let i = 0; ; i++) a.push(() => i);"),
    ("nested", "let o = {}; for (;;) o = { o, p: [1, 2, 3] };"),
    ("promises", "const a = []; for (;;) a.push(new Promise(() => {}));"),
    ("then", "const a = []; for (;;) a.push(Promise.resolve(1).then(() => a));"),
    ("json", "const a = []; for (;;) a.push(JSON.parse('[' + '{\"a\":1},'.repeat(100000) + '1]'));"),
    ("bigint", "const a = []; for (;;) a.push(3n ** 10000n + BigInt(a.length));"),
    ("errors", "const a = []; for (;;) a.push(new Error('x'));"),
    ("micro", "const f = () => Promise.resolve().then(() => { f(); f(); }); f();"),
    ("headers", "const a = []; for (;;) a.push(new Headers([['a', 'b' + a.length]]));"),
    ("clone", "let o = { a: [1] }; for (;;) o = { x: structuredClone(o), y: structuredClone(o) };"),
    ("timers", "for (;;) setTimeout(() => {}, 1e6);"),
];

async fn go(h: &mut Option<Host>, w: &Arc<World>, kind: &str, task: bool) -> (Result<(), TerminationReason>, Option<String>, u64) {
    if task {
        let (ev, rx) = Event::task("t".into(), Some(serde_json::json!(kind)), None, 1);
        let r = h.as_mut().unwrap().exec(ev).await;
        let t = w.now();
        return (r, rx.await.ok().map(|r| format!("{} {:?}", r.success, r.error)), t);
    }
    let (ev, rx) = Event::fetch(get(&format!("http://x/{kind}")));
    let body = tokio::spawn(async move {
        let r = rx.await.ok()?;
        let s = r.status;
        Some(format!("{s} {}", match r.body.collect().await { Some(b) => String::from_utf8_lossy(&b).to_string(), None => "(failed)".into() }))
    });
    let r = h.as_mut().unwrap().exec(ev).await;
    let t = w.now();
    (r, body.await.ok().flatten(), t)
}
const TOPS: &[&str] = &[
    "eat();",
    "(async () => { await 0; eat(); await 0; eat(); })();",
    "globalThis.default = { get fetch() { eat(); return () => new Response('fine'); } };",
    "globalThis.default = { get task() { eat(); return () => {}; }, fetch: () => new Response('fine') };",
    "try { eat(); } finally { eat(); }",
    "throw { toString() { eat(); return 'no'; } };",
    "queueMicrotask(eat);",
    "Promise.resolve().then(() => console.log('queued')); eat();",
    "throw { toString() { Promise.resolve().then(() => console.log('queued')); eat(); return 'no'; } };",
    "addEventListener({ toString() { eat(); return 'x'; } }, eat);",
];

fn heap(p: &Params) {
    let host = p.s("host");
    let pinned = host == "pinned";
    let (task, warm, load, real) = (p.b("task"), p.b("warm"), p.b("load"), p.b("real"));
    let rounds = p.u("rounds", 1);
    let only = p.s("kind");
    let (eat, how) = if real { EAT[1 + mc::free(EAT.len() - 1, "eat")] } else { EAT[0] };
    let kind = if load { "ok" } else if only.is_empty() { *mc::pick(KINDS, "kind") } else { KINDS.iter().find(|k| **k == only).unwrap() };
    // (nobody asks the last one for its type)
    let top = if load { *mc::pick(&TOPS[..TOPS.len() - real as usize], "top") } else { "" };
    let js = format!("function eat() {{ {how} }}\n{JS}\n{top}");
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            cpu::TIMERS.lock().unwrap().clear();
            let w = World::with(true, false, false);
            use_env(&w, true);
            let ops: OperationsHandle = Arc::new(Ops(w.clone()));
            let lim = RuntimeLimits { heap_max_mb: 16, ..limits() };
            let mut h: Option<Host> = None;
            if warm {
                let mut x = Host::new(&host, Script::new(js.as_str()), ops.clone(), lim.clone()).await.ok();
                let (r, b, _) = go(&mut x, &w, "ok", task).await;
                check!(r.is_ok() && b.is_some(), "warm-up", "{r:?} {b:?}");
                h = x;
            }
            for _ in 0..rounds {
                w.i.lock().unwrap().expired.clear();
                w.heap.store(!real, SeqCst);
                if h.is_none() {
                    h = Host::new(&host, Script::new(js.as_str()), ops.clone(), lim.clone()).await.map_err(|e| mc::event(format!("new: {e:?}"))).ok();
                }
                let (r, b, t) = match h {
                    Some(_) => go(&mut h, &w, kind, task).await,
                    None => (Err(TerminationReason::MemoryLimit), None, w.now()),
                };
                w.heap.store(false, SeqCst);
                mc::event(format!("[{t} ms] exec: {r:?}, response {b:?}"));
                let (full, n, mark) = {
                    let i = w.i.lock().unwrap();
                    (i.expired.first().map(|e| e.0), i.logs.len(), i.marks.last().copied().unwrap_or(0))
                };
                let what = format!("{eat} {kind} {top}: {}", match full { None if real => "the heap gets full".into(), None => "the heap was never full".to_string(), Some(t) => format!("the heap was full at {t} ms") });
                if full.is_some() || real {
                    // background work on the pool goes on after the request was reported
                    let done = kind == "background" && b.as_deref() == Some("200 r");
                    // this one eats only when the code that called it is through
                    let later = eat == "micro";
                    if later && top.starts_with("throw") {
                        check!(r.is_err(), "reason", "{what}: reported {r:?}");
                    } else {
                    check!((done && pinned && r.is_ok()) || r == Err(TerminationReason::MemoryLimit), "reason", "{what}: reported {r:?}");
                    }
                    match &b {
                        None => {}
                        Some(b) if task => check!(!b.starts_with("true"), "served", "{what}: the task was reported as {b:?}"),
                        Some(b) => check!(done || later || b.ends_with("(failed)") || b.starts_with('5'), "served", "{what}: the client got {b:?}"),
                    }
                    if let Some(full) = full {
                        check!(done || t == full, "late-stop", "{what}: exec returned at {t} ms");
                        check!(n == mark, "went-on", "{what}: then the worker logged {:?}", &w.logs()[mark..]);
                    }
                } else if top.starts_with("throw") {
                    check!(h.is_none() || matches!(&r, Err(TerminationReason::Exception(_))), "served", "{what}: {r:?}");
                } else {
                    let want = match kind { "ok" => "200 fine", "stream" => "200 p0p1p2", "pull" => "200 p", "replacer" => "200 \"r\"", _ => "200 r" };
                    check!(r.is_ok() && b.as_deref() == Some(if task { "true None" } else { want }), "served", "{what}: {r:?} {b:?}");
                }
                mc::outcome((eat, kind, top, format!("{r:?} {b:?}"), full));
                // a worker that failed is not used again
                if !pinned && r.is_err() {
                    h = None;
                }
            }
            // the same worker and another one go on, with the heap limit that was configured
            let js = format!("function eat() {{ {SAY} }}\n{JS}");
            let what = format!("after {eat} {kind} {top}{}", if w.i.lock().unwrap().expired.is_empty() { "" } else { " filled the heap" });
            if h.is_none() || (pinned && load) {
                h = Host::new(&host, Script::new(js.as_str()), ops.clone(), lim.clone()).await.ok();
            }
            let n = w.logs().len();
            for (id, version) in if pinned { &[("wk", 1), ("wk", 2), ("other", 1), ("wk", 2)][..] } else { &[("", 0)][..] } {
                if let Host::Pinned { id: i, version: v, script, .. } = h.as_mut().unwrap() {
                    (*i, *v) = (id.to_string(), *version);
                    if load || *version == 2 || *id == "other" {
                        *script = Script::new(js.as_str());
                    }
                    if load && *id == "wk" && *version == 1 {
                        continue;
                    }
                }
                let (r, b, _) = go(&mut h, &w, "ok", task).await;
                let want = if task { "true None" } else { "200 fine" };
                check!(r.is_ok() && b.as_deref() == Some(want), "aftermath", "{what}: a normal event on worker {id:?} gave {r:?} {b:?}");
                if *version == 2 {
                    let (r, b, _) = go(&mut h, &w, "sync", task).await;
                    check!(r.is_ok() && b.is_some(), "aftermath", "{what}: a normal event on worker {id:?} gave {r:?} {b:?}");
                }
            }
            let late: Vec<String> = w.logs()[n..].iter().map(|l| l.1.clone()).filter(|l| l != "eating").collect();
            check!(late.is_empty(), "went-on", "{what}: code that was stopped logged {late:?}");
            if let Some(limit) = w.i.lock().unwrap().heaps.last() {
                check!(limit.1 <= limit.0, "limit", "{what}: the heap limit is {} instead of {} afterwards", limit.1, limit.0);
            }
            if pinned {
                let s = rt::get_local_pool_stats().unwrap();
                check!(s.in_use == 0, "leak", "{what}: {} isolates stay in use", s.in_use);
            }
            env::set_env(None);
            drop(h);
        })
    });
}
