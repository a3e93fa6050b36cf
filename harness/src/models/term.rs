//! Limits: whichever limit an execution exceeds, at whatever moment, it stops there and then, is
//! reported as that limit, and what runs next is unharmed.
use super::wk::*;
use super::cpu;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("term", term), ("load", load)]
}

const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
const K = {
  ok: () => new Response('fine'),
  hang: () => new Promise(() => {}),
  op: async () => new Response(await (await fetch('http://h/ok:hello')).text()),
  timer: async () => { await sleep(5); await sleep(5); return new Response('t'); },
  interval: () => new Promise(() => setInterval(() => {}, 50)),
  spin: () => { for (;;) console.log('x'); },
  spin3: () => { for (let i = 0; i < 3; i++) console.log('x'); return new Response('s'); },
  catching: () => { for (;;) { try { for (;;) console.log('x'); } catch (e) { console.log('caught'); } finally { console.log('finally'); } } },
  micro: async () => { for (;;) { await 0; console.log('m'); } },
  queued: () => { for (let i = 0; i < 3; i++) Promise.resolve().then(() => { for (;;) console.log('q'); }); for (;;) console.log('x'); },
  timers: () => new Promise(() => { for (let i = 0; i < 4; i++) setTimeout(() => { Promise.resolve().then(() => { for (;;) console.log('q'); }); for (;;) console.log('x'); }, 5); }),
  getters: () => { const r = new Response('g'), spin = { get() { for (;;) console.log('g'); } }; for (const k of ['_responseStreamId', 'headers', '_getRawBody', 'body']) Object.defineProperty(r, k, spin); return r; },
  chain: async () => { for (let i = 0; i < 3; i++) { await 0; console.log('m'); } return new Response('c'); },
  timerspin: () => new Promise(() => setTimeout(() => { for (;;) console.log('x'); }, 5)),
  thenspin: async () => { await (await fetch('http://h/ok:hello')).text(); for (;;) console.log('x'); },
  throws: () => { throw new Error('no'); },
  stream: () => new Response(new ReadableStream({ async start(c) { for (let i = 0; i < 3; i++) { await sleep(5); c.enqueue(new TextEncoder().encode('p' + i)); } c.close(); } })),
  endless: () => new Response(new ReadableStream({ async pull(c) { await sleep(500); c.enqueue(new TextEncoder().encode('p')); } })),
  background: (e) => { e.waitUntil((async () => { await sleep(5); await fetch('http://h/ok:bg'); console.log('done'); })()); return new Response('b'); },
  bgspin: (e) => { e.waitUntil((async () => { await sleep(5); for (;;) console.log('x'); })()); return new Response('b'); },
  memory: () => new Response(new ArrayBuffer(1 << 30)),
  memcaught: () => { try { new ArrayBuffer(1 << 30); } catch (e) {} return new Response('m'); },
  memspin: () => { try { new ArrayBuffer(1 << 30); } catch (e) {} for (;;) console.log('x'); },
};
addEventListener('fetch', e => e.respondWith(K[e.request.url.slice('http://x/'.length)](e)));
addEventListener('task', e => K[e.payload](e));
"#;
const KINDS: &[&str] = &["ok", "hang", "op", "timer", "interval", "spin", "spin3", "catching", "micro", "queued", "timers", "getters", "chain", "timerspin", "thenspin", "throws", "stream", "endless", "background", "bgspin", "memory", "memcaught", "memspin"];

fn term(p: &Params) {
    let pinned = p.s("host") == "pinned";
    let host = p.s("host");
    let task = p.b("task");
    let ends = |k: &str| !matches!(k, "hang" | "interval" | "spin" | "catching" | "micro" | "timerspin" | "queued" | "timers" | "getters" | "thenspin" | "endless" | "bgspin" | "memspin");
    let (wall, cpu_) = (!p.b("nowall"), !p.b("nocpu"));
    let only = p.s("kind");
    let kind = if only.is_empty() { *mc::pick(KINDS, "kind") } else { *KINDS.iter().find(|k| **k == only).unwrap() };
    let kind = kind.to_string();
    // without a wall-clock limit, what waits for ever is not ended
    if matches!(kind.as_str(), "hang" | "interval" | "endless") && !wall {
        return;
    }
    let warm = pinned && p.b("warm");
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            cpu::TIMERS.lock().unwrap().clear();
            cpu::warm();
            mc::sched::clock::manual(true);
            let w = World::with(true, false, false);
            w.once.store(true, SeqCst);
            use_env(&w, true);
            let lim = RuntimeLimits { max_wall_clock_time_ms: if wall { 1000 } else { 0 }, max_cpu_time_ms: if cpu_ { 100 } else { 0 }, heap_max_mb: 64, ..limits() };
            let ops: OperationsHandle = Arc::new(Ops(w.clone()));
            let mut h = match Host::new(&host, Script::new(JS), ops.clone(), lim.clone()).await {
                Ok(h) => Some(h),
                Err(e) => return mc::violation("init", format!("{e:?}")),
            };
            async fn go(h: &mut Option<Host>, w: &Arc<World>, kind: &str, task: bool) -> (Result<(), TerminationReason>, Option<String>, u64) {
                if task {
                    let (ev, rx) = Event::task("t".into(), Some(serde_json::json!(kind)), None, 1);
                    let r = h.as_mut().unwrap().exec(ev).await;
                    let t = w.now();
                    return (r, rx.await.ok().map(|r| format!("{} {:?}", r.success, r.error)), t);
                }
                let (ev, rx) = Event::fetch(get(&format!("http://x/{kind}")));
                let body = tokio::spawn(async move {
                    let r = rx.await.ok()?;
                    let s = r.status;
                    Some(format!("{s} {}", match r.body.collect().await { Some(b) => String::from_utf8_lossy(&b).to_string(), None => "(failed)".into() }))
                });
                let r = h.as_mut().unwrap().exec(ev).await;
                let t = w.now();
                if r.is_err() && matches!(h, Some(Host::Worker(_))) {
                    // a worker that failed is not used again
                    *h = None;
                }
                (r, body.await.ok().flatten(), t)
            }
            if warm {
                let (r, b, _) = go(&mut h, &w, "ok", task).await;
                check!(r.is_ok() && b.is_some(), "warm-up", "{r:?} {b:?}");
            }
            let base = (mc::sched::clock::next_id(), cpu::TIMERS.lock().unwrap().len());
            w.wall.store(wall, SeqCst);
            w.cpu.store(cpu_, SeqCst);
            let (r, b, t) = go(&mut h, &w, &kind, task).await;
            w.wall.store(false, SeqCst);
            w.cpu.store(false, SeqCst);
            let ex = w.i.lock().unwrap().expired.clone();
            // guards of this execution: those of loading or resetting its context (pool), then its own
            let own: Vec<_> = ex.iter().filter(|e| e.2 <= pinned as usize + if e.1 == 'w' { base.0 } else { base.1 }).collect();
            let want = if own.iter().any(|e| e.1 == 'c') {
                Err(TerminationReason::CpuTimeLimit)
            } else if own.iter().any(|e| e.1 == 'w') {
                Err(TerminationReason::WallClockTimeout)
            } else if kind.starts_with("mem") {
                Err(TerminationReason::MemoryLimit)
            } else {
                Ok(())
            };
            mc::event(format!("[{t} ms] exec: {r:?}, response {b:?}"));
            check!(r == want, "reason", "{kind}: expired {ex:?}, reported {r:?}, expected {want:?}");
            if let Some(e) = own.iter().find(|e| e.1 == 'w' || e.3) {
                check!(t == e.0, "late-stop", "{kind}: the limit expired at {} ms, exec returned at {t} ms", e.0);
            }
            // (what the host asks a response for, it asks one by one)
            if let Some(k) = ex.iter().position(|e| own.contains(&e) && (e.1 == 'w' || e.3)).filter(|_| kind != "getters") {
                let i = w.i.lock().unwrap();
                check!(i.logs.len() == i.marks[k], "went-on", "{kind}: after its limit expired the worker logged {:?}", &i.logs[i.marks[k]..]);
            }
            if own.is_empty() {
                check!(b.is_some(), "no-response", "{kind}: exec returned {r:?} without a response");
            }
            // what comes next is unharmed: on the same worker and (pinned) on another one of the same owner
            if pinned {
                for id in ["wk", "other", "wk"] {
                    if let Host::Pinned { id: i, .. } = h.as_mut().unwrap() {
                        *i = id.into();
                    }
                    let (r, b, _) = go(&mut h, &w, "ok", task).await;
                    let want = if task { "true None" } else { "200 fine" };
                    check!(r.is_ok() && b.as_deref() == Some(want), "aftermath", "after {kind} (expired {ex:?}) a normal request on worker {id} gave {r:?} {b:?}");
                }
                let s = rt::get_local_pool_stats().unwrap();
                check!(s.in_use == 0, "leak", "{} isolates stay in use", s.in_use);
            } else if let Some(Host::Worker(h)) = &mut h {
                // aborting is reported as such
                h.abort();
                let (ev, _rx) = Event::fetch(get("http://x/ok"));
                let r = h.exec(ev).await;
                check!(r == Err(TerminationReason::Aborted), "aborted", "exec of an aborted worker: {r:?}");
            }
            mc::outcome((kind, format!("{r:?} {b:?}"), ex.len()));
            env::set_env(None);
            drop(h);
            mc::sched::clock::manual(false);
        })
    });
}

/// (kind, script, what loading it comes to if no limit expires)
const LOADS: &[(&str, &str, &str)] = &[
    ("fine", "", "ok"),
    ("logs", "for (let i = 0; i < 3; i++) console.log('x');", "ok"),
    ("spin", "for (;;) console.log('x');", "limit"),
    ("catching", "for (;;) { try { for (;;) console.log('x'); } catch (e) { console.log('c'); } finally { console.log('f'); } }", "limit"),
    ("micro", "(async () => { for (;;) { await 0; console.log('m'); } })();", "limit"),
    ("chain", "(async () => { for (let i = 0; i < 3; i++) { await 0; console.log('m'); } })();", "ok"),
    ("module", "globalThis.default = { get fetch() { for (;;) console.log('g'); } };", "limit"),
    ("getter", "globalThis.default = { get fetch() { console.log('g'); return () => new Response('fine'); } };", "ok"),
    ("task", "globalThis.default = { get task() { for (;;) console.log('g'); } };", "limit"),
    ("tostring", "throw { toString() { for (;;) console.log('s'); } };", "limit"),
    ("queued", "for (let i = 0; i < 3; i++) Promise.resolve().then(() => { for (;;) console.log('q'); }); for (;;) console.log('x');", "limit"),
    ("qstring", "throw { toString() { Promise.resolve().then(() => { for (;;) console.log('q'); }); for (;;) console.log('s'); } };", "limit"),
    ("throws", "throw new Error('no');", "Exception"),
    ("syntax", "for (;;", "Exception"),
    ("memory", "new ArrayBuffer(1 << 30);", "MemoryLimit"),
    ("memspin", "try { new ArrayBuffer(1 << 30); } catch (e) {} for (;;) console.log('x');", "limit"),
];
/// what a worker may leave in the way of clearing up after its request
const TRAPS: &[(&str, &str)] = &[
    ("nothing", ""),
    ("clear", "__timerCallbacks.clear = () => { for (;;) console.log('t'); };"),
    ("clear3", "__timerCallbacks.clear = () => { for (let i = 0; i < 3; i++) console.log('t'); };"),
    ("setter", "let last; Object.defineProperty(globalThis, '__lastResponse', { get() { return last; }, set(v) { last = v; while (v === undefined) console.log('t'); } });"),
    ("micro", "__intervalIds.clear = () => { (async () => { for (;;) { await 0; console.log('m'); } })(); };"),
    ("proto", "Map.prototype.clear = Set.prototype.clear = () => { for (;;) console.log('t'); };"),
    ("throws", "__timerCallbacks.clear = () => { throw new Error('no'); };"),
    ("memory", "__timerCallbacks.clear = () => { new ArrayBuffer(1 << 30); };"),
    ("memcaught", "__timerCallbacks.clear = () => { try { new ArrayBuffer(1 << 30); } catch (e) {} };"),
];
const FINE: &str = "if (!globalThis.default) addEventListener('fetch', e => { trap(); e.respondWith(new Response('fine')); }); function trap() {}";

/// Limits hold while a worker is loaded, and while its context is cleared up for the next request.
fn load(p: &Params) {
    let host = p.s("host");
    let pinned = host == "pinned";
    let trap = p.b("trap");
    let (kind, js, ends) = if trap {
        let (k, t) = *mc::pick(TRAPS, "trap");
        (k, FINE.replace("function trap() {}", &format!("function trap() {{ {t} }}")), "ok")
    } else {
        let (k, js, ends) = *mc::pick(LOADS, "kind");
        (k, format!("{FINE}\n{js}"), ends)
    };
    let (wall, cpu_) = (!p.b("nowall"), !p.b("nocpu"));
    let pre = p.b("pre");
    crate::util::on_fresh_thread(move || {
        // (what does not compile has no compiled code)
        let code = if pre { WorkerCode::Snapshot(rt::pack_code_cache(&js, &rt::create_code_cache(&js).unwrap_or_default())) } else { WorkerCode::from(&js) };
        env::run(async move {
            cpu::TIMERS.lock().unwrap().clear();
            cpu::warm();
            mc::sched::clock::manual(true);
            let w = World::with(true, false, false);
            w.once.store(true, SeqCst);
            use_env(&w, true);
            let lim = RuntimeLimits { max_wall_clock_time_ms: if wall { 1000 } else { 0 }, max_cpu_time_ms: if cpu_ { 100 } else { 0 }, heap_max_mb: 64, ..limits() };
            let ops: OperationsHandle = Arc::new(Ops(w.clone()));
            async fn ask(h: &mut Host) -> (Result<(), TerminationReason>, Option<String>) {
                let (ev, rx) = Event::fetch(get("http://x/"));
                let body = tokio::spawn(async move {
                    let r = rx.await.ok()?;
                    let s = r.status;
                    Some(format!("{s} {}", match r.body.collect().await { Some(b) => String::from_utf8_lossy(&b).to_string(), None => "(failed)".into() }))
                });
                (h.exec(ev).await, body.await.ok().flatten())
            }
            let fine = Some("200 fine".to_string());
            let mut h = None;
            if trap {
                let mut x = Host::new(&host, Script::new(code.clone()), ops.clone(), lim.clone()).await.unwrap_or_else(|e| panic!("{e:?}"));
                let (r, b) = ask(&mut x).await;
                check!(r.is_ok() && b == fine, "trap", "{kind}: {r:?} {b:?}");
                h = Some(x);
            }
            w.wall.store(wall, SeqCst);
            w.cpu.store(cpu_, SeqCst);
            let (r, b) = match h.take() {
                Some(mut x) => {
                    let r = ask(&mut x).await;
                    h = Some(x);
                    r
                }
                None => match Host::new(&host, Script::new(code.clone()), ops.clone(), lim.clone()).await {
                    Ok(mut x) => {
                        let r = ask(&mut x).await;
                        h = Some(x);
                        r
                    }
                    Err(e) => (Err(e), None),
                },
            };
            w.wall.store(false, SeqCst);
            w.cpu.store(false, SeqCst);
            let ex = w.i.lock().unwrap().expired.clone();
            mc::event(format!("[{} ms] {r:?}, response {b:?}", w.now()));
            let what = format!("{kind}: expired {ex:?}");
            let limit = |k: char| if k == 'c' { TerminationReason::CpuTimeLimit } else { TerminationReason::WallClockTimeout };
            if ex.is_empty() {
                match ends {
                    "ok" if trap && kind.starts_with("mem") => check!(b == fine, "served", "{what}: {r:?} {b:?}"),
                    "ok" => check!(r.is_ok() && b == fine, "served", "{what}: {r:?} {b:?}"),
                    "MemoryLimit" => check!(r == Err(TerminationReason::MemoryLimit), "reason", "{what}: {r:?}"),
                    _ => check!(matches!(&r, Err(TerminationReason::Exception(_))), "reason", "{what}: {r:?}"),
                }
            } else if trap {
                // clearing up may have been cut short; the request itself only by a limit of its own
                check!(b == fine || ex.iter().any(|e| r == Err(limit(e.1))), "served", "{what}: {r:?} {b:?}");
            } else {
                check!(ex.iter().any(|e| r == Err(limit(e.1))), "reason", "{what}: reported {r:?}");
            }
            // others are unharmed
            drop(h);
            let mut x = match pinned {
                true => Host::Pinned { owner: "o".into(), id: "other".into(), version: 1, script: Script::new(FINE), ops: ops.clone() },
                false => Host::new(&host, Script::new(FINE), ops.clone(), lim.clone()).await.unwrap_or_else(|e| panic!("{e:?}")),
            };
            for _ in 0..2 {
                let (r, b) = ask(&mut x).await;
                check!(r.is_ok() && b == fine, "aftermath", "{what}: then another worker: {r:?} {b:?}");
                if !pinned {
                    break;
                }
            }
            if !trap && !ex.is_empty() {
                let i = w.i.lock().unwrap();
                check!(i.logs.len() == i.marks[0], "went-on", "{what}: after its limit expired the worker logged {:?}", &i.logs[i.marks[0]..]);
            }
            if pinned {
                let s = rt::get_local_pool_stats().unwrap();
                check!(s.in_use == 0, "leak", "{what}: {} isolates stay in use", s.in_use);
            }
            mc::outcome((kind, format!("{r:?} {b:?}"), ex.len()));
            env::set_env(None);
            drop(x);
            mc::sched::clock::manual(false);
        })
    });
}
