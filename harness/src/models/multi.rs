//! Several requests at the same time on one thread: in one isolate (multiplexing) or in several.
use super::resp::{client, pick, Client};
use super::wk::*;
use super::cpu;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("multi", multi)]
}
const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
let n = 0;
globalThis.mark = (globalThis.mark ?? 0) + 1;
const op = s => fetch('http://h/ok:' + s).then(r => r.text());
const K = {
  ok: () => new Response('fine'),
  op: async (e, t) => { const a = await op(t + '1'), b = await op(t + '2'); return new Response(a + b); },
  both: async (e, t) => new Response((await Promise.all([op(t + '1'), op(t + '2')])).join()),
  timer: async (e, t) => { await sleep(5); await sleep(5); return new Response('t' + t); },
  micro: async (e, t) => { for (let i = 0; i < 20; i++) await 0; return new Response('m' + t); },
  stream: (e, t) => new Response(new ReadableStream({ async start(c) { for (let i = 0; i < 3; i++) { await sleep(5); c.enqueue(new TextEncoder().encode(t + i)); } c.close(); } })),
  piped: async (e, t) => new Response((await fetch('http://h/str:' + t + '1,' + t + '2')).body),
  bg: (e, t) => { e.waitUntil((async () => { await op(t + 'b'); await sleep(3); console.log('done ' + t); })()); return new Response('b' + t); },
  throws: async () => { await 0; throw new Error('no'); },
  spins: (e, t) => { for (let i = 0; i < 3; i++) console.log('spin ' + t); return new Response('s' + t); },
  hang: () => new Promise(() => {}),
  spin: (e, t) => { for (;;) console.log('spin ' + t); },
  thenspin: async (e, t) => { await op(t + '1'); for (;;) console.log('spin ' + t); },
  memory: () => new Response(new ArrayBuffer(1 << 30)),
};
addEventListener('fetch', e => { const [k, t] = e.request.url.slice('http://x/'.length).split('-'); n++; if (globalThis.mark !== 1) console.log('not alone in the context'); e.respondWith(K[k](e, t)); });
"#;
const KINDS: &[&str] = &["ok", "op", "both", "timer", "micro", "stream", "piped", "bg", "throws", "spins"];
fn answer(k: &str, t: &str) -> (u16, String) {
    match k {
        "ok" => (200, "fine".into()),
        "op" => (200, format!("{t}1{t}2")),
        "both" => (200, format!("{t}1,{t}2")),
        "timer" => (200, format!("t{t}")),
        "micro" => (200, format!("m{t}")),
        "stream" => (200, format!("{t}0{t}1{t}2")),
        "piped" => (200, format!("{t}1{t}2")),
        "bg" => (200, format!("b{t}")),
        "spins" => (200, format!("s{t}")),
        _ => (500, String::new()),
    }
}
fn multi(p: &Params) {
    let n = p.u("n", 2);
    let per = p.u("per", 4);
    let kinds: Vec<String> = (0..n).map(|i| pick(p, ["first", "second", "third"][i.min(2)], KINDS)).collect();
    let same = p.b("same");
    let warm = p.b("warm");
    let (wall, cpu_) = (p.b("wall"), p.b("cpu"));
    let leave = p.b("leave");
    let preempt = !p.b("quiet");
    let drops = p.b("drop");
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            cpu::TIMERS.lock().unwrap().clear();
            let limited = wall || cpu_;
            if limited {
                mc::sched::clock::manual(true);
            }
            let w = World::with(true, false, false);
            use_env(&w, preempt);
            let lim = if limited { RuntimeLimits { max_wall_clock_time_ms: 1000, max_cpu_time_ms: 100, heap_max_mb: 64, ..limits() } } else { limits() };
            rt::init_pinned_pool(rt::PinnedPoolConfig { max_per_thread: n, max_per_owner: None, max_concurrent_per_isolate: per, max_cached_contexts: 4, limits: lim });
            let ops: OperationsHandle = Arc::new(Ops(w.clone()));
            let go = |id: &str, url: String, c: Client| {
                let (ev, rx) = Event::fetch(get(&url));
                let (g, j) = client(&w, rx, c);
                let req = rt::PinnedExecuteRequest { owner_id: "o".into(), worker_id: id.into(), version: 1, script: Script::new(JS), ops: ops.clone(), task: ev, on_warm_hit: None, env_updated_at: None };
                (rt::execute_pinned(req), g, j)
            };
            let id = |i: usize| if same { "wk".to_string() } else { format!("wk{i}") };
            if warm {
                for i in 0..if same { 1 } else { n } {
                    let (f, _, j) = go(&id(i), "http://x/ok-w".into(), Client::Read);
                    let r = f.await;
                    let _ = j.await;
                    check!(r.is_ok(), "warm-up", "{r:?}");
                }
            }
            // whose limit each guard is
            let guards: Arc<Mutex<Vec<(char, usize, usize)>>> = Arc::default();
            let own = |i: usize, f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), TerminationReason>>>>| {
                let (guards, mut f) = (guards.clone(), f);
                std::future::poll_fn(move |cx| {
                    let at = (mc::sched::clock::next_id(), cpu::TIMERS.lock().unwrap().len());
                    let r = f.as_mut().poll(cx);
                    let mut g = guards.lock().unwrap();
                    g.extend((at.0..mc::sched::clock::next_id()).map(|n| ('w', n, i)));
                    g.extend((at.1..cpu::TIMERS.lock().unwrap().len()).map(|n| ('c', n, i)));
                    r
                })
            };
            w.wall.store(wall, SeqCst);
            w.cpu.store(cpu_, SeqCst);
            let results: Arc<Mutex<Vec<Option<Result<(), TerminationReason>>>>> = Arc::new(Mutex::new(vec![None; n]));
            let mut jobs = vec![];
            let mut clients = vec![];
            for i in 0..n {
                let (f, g, j) = go(&id(i), format!("http://x/{}-{i}", kinds[i]), if leave && i == 0 { Client::Leave(0) } else { Client::Read });
                let f = own(i, Box::pin(f));
                clients.push((g, j));
                let (res, w2) = (results.clone(), w.clone());
                jobs.push(tokio::task::spawn_local(async move {
                    if drops && i == 0 {
                        let gate = w2.gate("caller gives up".into());
                        tokio::select! { biased; r = f => res.lock().unwrap()[i] = Some(r), _ = gate => {} };
                    } else {
                        let r = f.await;
                        mc::event(format!("[{} ms] request {i}: {r:?}", w2.now()));
                        res.lock().unwrap()[i] = Some(r);
                    }
                }));
            }
            for j in jobs {
                let _ = j.await;
            }
            w.wall.store(false, SeqCst);
            w.cpu.store(false, SeqCst);
            if drops {
                // a gate nobody waits for any more
                w.i.lock().unwrap().pend.retain(|p| p.0 != "caller gives up");
            }
            let mut gots = vec![];
            for (g, j) in clients {
                let _ = j.await;
                let g = g.lock().unwrap().clone();
                gots.push(g);
            }
            let ex = w.i.lock().unwrap().expired.clone();
            let during = w.i.lock().unwrap().during.clone();
            let guards = guards.lock().unwrap().clone();
            // a limit on computation can only be exceeded by computing
            for (e, d) in ex.iter().zip(&during) {
                let g = guards.iter().find(|g| (g.0, g.1) == (e.1, e.2)).map(|g| g.2);
                let Some(g) = g else { continue };
                if e.1 == 'c' && e.3 {
                    check!(d.ends_with(&format!(" {g}")), "charged", "requests {kinds:?}: the CPU limit of request {g} counted while {d:?} ran");
                }
            }
            let has = |i: usize, k: char| ex.iter().any(|e| e.1 == k && guards.contains(&(k, e.2, i)));
            let what = format!("requests {kinds:?}{}{}", if same { ", one worker" } else { "" }, if ex.is_empty() { String::new() } else { format!(", expired {ex:?}") });
            let logs: Vec<String> = w.logs().iter().map(|l| l.1.clone()).collect();
            check!(!logs.iter().any(|l| l.contains("not alone")), "shared", "{what}: two executions in one context");
            for i in 0..n {
                let r = results.lock().unwrap()[i].clone();
                let g = &gots[i];
                let Some(r) = r else { continue };
                if has(i, 'c') || has(i, 'w') {
                    let late = r.is_ok() && g.status == answer(&kinds[i], "").0 && kinds[i] == "bg";
                    let want = if has(i, 'c') { TerminationReason::CpuTimeLimit } else { TerminationReason::WallClockTimeout };
                    check!(late || r == Err(want.clone()), "reason", "{what}: request {i} ended with {r:?} instead of {want:?}");
                    continue;
                }
                if kinds[i] == "memory" {
                    check!(r == Err(TerminationReason::MemoryLimit), "reason", "{what}: request {i} ended with {r:?} instead of MemoryLimit");
                    continue;
                }
                check!(r.is_ok(), "result", "{what}: request {i} ended with {r:?}");
                let (status, body) = answer(&kinds[i], &i.to_string());
                check!(g.at.is_some(), "no-response", "{what}: request {i} got no response");
                if leave && i == 0 {
                    continue;
                }
                check!(g.status == status, "status", "{what}: request {i}: status {}", g.status);
                if status == 200 {
                    check!(String::from_utf8_lossy(&g.bytes()) == body && g.error.is_none() && g.end.is_some(), "body", "{what}: request {i} got {:?} instead of {body:?}", g);
                }
                if kinds[i] == "bg" {
                    check!(logs.iter().filter(|l| **l == format!("done {i}")).count() == 1, "background", "{what}: request {i}: its background work was not done once");
                }
            }
            let s = rt::get_local_pool_stats().unwrap();
            check!(s.in_use == 0, "leak", "{what}: {} isolates stay in use", s.in_use);
            for i in 0..n {
                let (f, g, j) = go(&id(i), "http://x/ok-z".into(), Client::Read);
                let r = f.await;
                let _ = j.await;
                let g = g.lock().unwrap();
                check!(r.is_ok() && g.status == 200 && g.bytes() == b"fine", "aftermath", "{what}: then a request gave {r:?} {g:?}");
            }
            mc::outcome((what, format!("{:?}", results.lock().unwrap())));
            env::set_env(None);
            mc::sched::clock::manual(false);
        })
    });
}
