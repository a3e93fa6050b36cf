//! What a finished request left behind: nothing of it goes on while its context waits in the
//! cache, and nothing of it shows up in a later request.
use super::resp::{client, driver, pick, Client};
use super::{ops, wk::*};
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::Arc;
use std::time::Duration;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("leftover", leftover)]
}
const JS: &str = r#"
let n = 0;
const L = {
  i0: m => { setInterval(() => m('i0'), 0) },
  i7: m => { setInterval(() => m('i7'), 7) },
  t3: m => { setTimeout(() => m('t3'), 3) },
  t60: m => { setTimeout(() => m('t60'), 60) },
  chain: m => { const f = () => { m('chain'); setTimeout(f, 4) }; setTimeout(f, 4) },
  poll: m => { setInterval(() => { m('poll'); fetch('http://h/ok:poll').then(() => m('polled')) }, 9) },
  fetch: m => { fetch('http://h/ok:x').then(r => { m('fetch'); return fetch('http://h/ok:y') }).then(() => m('fetched'), () => m('failed')) },
  str: m => { fetch('http://h/str:a,b,c').then(() => m('str')) },
  read: m => { (async () => { const rd = (await fetch('http://h/str:a,b,c,d')).body.getReader(); for (;;) { const { done } = await rd.read(); m('read'); if (done) break } })().catch(() => m('failed')) },
  kv: m => { env.KV.get('ok:1').then(() => { m('kv'); return env.KV.get('ok:2') }).then(() => m('kv2')) },
  sto: m => { env.STORE.get('ok:1').then(() => m('sto')) },
  db: m => { env.DB.query('ok:1').then(() => m('db')) },
  assets: m => { env.ASSETS.fetch('http://h/str:q,r').then(() => m('assets')) },
  svc: m => { env.OTHER.fetch('http://h/str:q,r').then(() => m('svc')) },
  ws: m => { const s = new WebSocket('ws://h/ok:ws'); s.onopen = () => m('ws open'); s.onmessage = () => m('ws message'); s.onclose = () => m('ws close') },
  never: m => { new Promise(() => {}).then(() => m('never')) },
  abort: m => { AbortSignal.timeout(6).addEventListener('abort', () => m('abort')) },
};
addEventListener('fetch', ev => {
  const r = ++n;
  const [how, what] = new URL(ev.request.url).pathname.slice(1).split('|');
  const m = k => console.log('L' + r + ' ' + k);
  for (const k of what ? what.split(',') : []) L[k](m);
  if (how === 'throw') throw new Error('wrong');
  if (how === 'reject') return ev.respondWith(Promise.reject(new Error('wrong')));
  if (how === 'now') return ev.respondWith(new Response('now'));
  if (how === 'wait') ev.waitUntil(new Promise(f => setTimeout(f, 8)));
  if (how === 'stream') return ev.respondWith(new Response(new ReadableStream({ async start(c) { c.enqueue('a'); await new Promise(f => setTimeout(f, 5)); c.enqueue('b'); c.close() } })));
  if (how === 'pass') return ev.respondWith(fetch('http://h/str:p,q'));
  ev.respondWith((async () => {
    if (how === 'slow') await new Promise(f => setTimeout(f, 12));
    const t = await (await fetch('http://h/ok:fine')).text();
    return new Response([r, t, await env.KV.get('ok:v'), globalThis.__activeResponseStreams, globalThis.__timerCallbacks.size].join(' '));
  })());
});
addEventListener("task", ev => { const r = ++n, m = k => console.log('L' + r + ' ' + k); L.i7(m); L.fetch(m); });
"#;
const KINDS: &[&str] = &["i0", "i7", "t3", "t60", "chain", "poll", "fetch", "str", "read", "kv", "sto", "db", "assets", "svc", "ws", "never", "abort"];
const HOWS: &[&str] = &["now", "ok", "slow", "wait", "throw", "reject", "stream", "pass", "task"];

fn leftover(p: &Params) {
    let host = p.s("host");
    let how = pick(p, "how", HOWS);
    let max = p.u("max", 1);
    let only = p.s("kinds");
    let kinds: Vec<&str> = if only.is_empty() { KINDS.to_vec() } else { only.split(',').collect() };
    let mut what = vec![];
    if how != "task" {
        let mut from = 0;
        for _ in 0..max {
            let k = mc::free(kinds.len() - from + 1, "kind");
            if k == 0 {
                break;
            }
            what.push(kinds[from + k - 1]);
            from += k - 1;
        }
    }
    let what = what.join(",");
    // what the next request is: the same context again after a while, or at once
    let gap = *mc::pick(&[0u64, 40, 500], "gap");
    let second = if p.b("second") { pick(p, "second_how", &["ok", "slow"]) } else { "slow".into() };
    driver(p.b("preempt"), move |w| async move {
        let sc = Script { bindings: ops::bindings(), ..Script::new(JS) };
        let mut h = match Host::new(&host, sc, Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let ctx = format!("[{what}] left behind by a request answered with '{how}'");
        let j;
        if how == "task" {
            let (t, _rx) = Event::task("t".into(), None, None, 1);
            let r = h.exec(t).await;
            mc::event(format!("[{} ms] exec: {r:?}", w.now()));
            j = None;
        } else {
            let (ev, rx) = Event::fetch(get(&format!("http://x/{how}|{what}")));
            let (g, jj) = client(&w, rx, Client::Read);
            let r = h.exec(ev).await;
            mc::event(format!("[{} ms] exec: {r:?}", w.now()));
            check!(r.is_ok(), "exec", "{ctx}: {r:?}");
            j = Some((g, jj));
        }
        let mut h = Some(h);
        if host == "worker" {
            // a worker that is no longer wanted
            h = None;
        }
        // what was asked for until now may have reached the host a moment later
        tokio::time::sleep(Duration::from_millis(0)).await;
        if let Some((g, jj)) = j {
            let _ = jj.await;
            let g = g.lock().unwrap();
            let want: &[u8] = match how.as_str() {
                "now" => b"now",
                "stream" => b"ab",
                "pass" => b"pq",
                _ => b"",
            };
            check!(want.is_empty() || g.bytes() == want, "answer", "{ctx}: the client got {g:?}");
        }
        let (logs, asked) = (w.logs().len(), w.i.lock().unwrap().started.len());
        let polls = env::polls();
        if gap > 0 {
            tokio::time::sleep(Duration::from_millis(gap)).await;
            let polls = env::polls() - polls;
            check!(polls <= 40, "busy", "{ctx}: {polls} task polls in {gap} ms after the end of the request");
            check!(w.logs().len() == logs, "code-runs", "{ctx}: code of the worker ran after its end: {:?}", &w.logs()[logs..]);
            let now: Vec<String> = w.i.lock().unwrap().started[asked..].to_vec();
            check!(now.is_empty(), "operation", "{ctx}: the host was asked for {now:?} after the end of the request");
            // nobody waits for the answers
            for (name, p) in &w.i.lock().unwrap().pend {
                let wanted = match p {
                    Pend::Gate(tx) => !tx.is_closed(),
                    Pend::Feed(tx, _) => !tx.is_closed(),
                };
                check!(!wanted, "in-flight", "{ctx}: '{name}' is still in flight {gap} ms after the end of the request");
            }
            for (out, inc) in &mut w.i.lock().unwrap().sockets {
                while out.try_recv().is_ok() {}
                check!(inc.is_closed(), "socket", "{ctx}: its WebSocket is still open {gap} ms after the end of the request");
            }
        }
        if let Some(h) = &mut h {
            let asked = w.i.lock().unwrap().started.len();
            let logs = w.logs().len();
            let (ev, rx) = Event::fetch(get(&format!("http://x/{second}")));
            let (g, jj) = client(&w, rx, Client::Read);
            let t0 = w.now();
            let r = h.exec(ev).await;
            mc::event(format!("[{} ms] exec: {r:?}", w.now()));
            let _ = jj.await;
            let g = g.lock().unwrap().clone();
            let ctx = format!("after {ctx} and {gap} ms: the next request");
            check!(r.is_ok() && g.status == 200 && g.error.is_none(), "next", "{ctx}: {r:?} {g:?}");
            let body = String::from_utf8_lossy(&g.bytes()).to_string();
            check!(body == "2 fine v 0 0", "next", "{ctx} got '{body}' instead of '2 fine v 0 0'");
            let d = g.at.unwrap_or(9999) - t0;
            check!(d == if second == "slow" { 12 } else { 0 }, "late", "{ctx} was answered after {d} ms");
            check!(w.logs().len() == logs, "carried-over", "{ctx}: code of the first one ran: {:?}", &w.logs()[logs..]);
            let now: Vec<String> = w.i.lock().unwrap().started[asked..].iter().filter(|o| !o.contains("ok:fine") && !o.contains("ok:v")).cloned().collect();
            check!(now.is_empty(), "carried-over", "{ctx}: asked the host for {now:?}");
            if host == "pinned" {
                let s = openworkers_runtime_v8::get_local_pool_stats().unwrap();
                check!(s.in_use == 0, "leak", "{} isolates stay in use", s.in_use);
            }
        }
        mc::outcome((ctx, format!("{:?}", w.logs())));
    });
}
