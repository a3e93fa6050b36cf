//! Requests from start to finish: the response the handler produced reaches the client once and
//! whole, streamed bodies in order, background work to its end, disconnects to the source.
use super::wk::*;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::{Arc, Mutex};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("resp", resp), ("stream", stream), ("wait", wait), ("gone", gone), ("forward", forward)]
}

const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
const enc = s => new TextEncoder().encode(s);
const delays = {
  now: null,
  micro: () => Promise.resolve(),
  op: async () => { await (await fetch('http://h/ok:x')).text(); },
  timer: () => sleep(5),
};
const bodies = {
  text: () => 'hello', empty: () => '', nul: () => null, undef: () => undefined,
  bytes: () => new Uint8Array([0, 255, 128, 10]),
  view: () => new Uint8Array([1, 2, 3, 4, 5]).subarray(1, 4),
  buffer: () => new Uint8Array([7, 8]).buffer,
  uni: () => 'h\u00e9\u20ac\u{1f600}',
  closed: () => new ReadableStream({ start(c) { c.close(); } }),
  sync2: () => new ReadableStream({ start(c) { c.enqueue(enc('a')); c.enqueue(enc('bc')); c.close(); } }),
  strs: () => new ReadableStream({ start(c) { c.enqueue('a'); c.enqueue(''); c.enqueue('\u00e9'); c.close(); } }),
  views: () => new ReadableStream({ start(c) { c.enqueue(enc('xaby').subarray(1, 3)); c.enqueue(new Uint8Array(0)); c.enqueue(enc('z').buffer); c.enqueue(new DataView(enc('pqr').buffer, 1, 1)); c.enqueue(new Uint16Array([0x4241])); c.close(); } }),
  timed: () => new ReadableStream({ async start(c) { for (const s of ['a', 'b', 'c']) { await sleep(5); c.enqueue(enc(s)); } c.close(); } }),
  pulled: () => { let n = 0; return new ReadableStream({ async pull(c) { if (n++ < 3) { await delays[n == 1 ? 'op' : 'timer'](); c.enqueue(enc('p' + n)); } else c.close(); } }); },
  gen: () => { let n = 0; return new ReadableStream({ pull(c) { if (n++ < 40) c.enqueue(enc('' + (n % 10))); else c.close(); } }); },
  many: () => new ReadableStream({ start(c) { for (let n = 1; n <= 40; n++) c.enqueue(enc('' + (n % 10))); c.close(); } }),
  fail: () => new ReadableStream({ async start(c) { c.enqueue(enc('a')); await sleep(5); c.error(new Error('boom')); } }),
  failop: () => new ReadableStream({ async start(c) { c.enqueue(enc('a')); }, async pull(c) { await delays.op(); throw new Error('boom'); } }),
  tee: () => bodies.timed().tee()[1],
};
const extra = { none: {}, hdr: { status: 404, headers: { 'X-A': '1', 'content-type': 'text/x' } }, cookies: { status: 201, headers: (() => { const h = new Headers(); h.append('Set-Cookie', 'a=1'); h.append('set-cookie', 'b=2'); h.set('x-b', '2'); h.append('x-b', '3'); return h; })() } };
const values = { undef: undefined, nul: null, num: 42, str: 'text', obj: {} };
async function produce(what, delay, body, x) {
  if (delays[delay]) await delays[delay]();
  return make(what, body, x);
}
function make(what, body, x) {
  if (what == 'throw') throw new Error('failed');
  if (what == 'throwstr') throw 'failed';
  if (what == 'thrownull') throw null;
  if (what != 'resp') return values[what];
  return new Response(bodies[body](), extra[x]);
}
let seq = 0;
const background = {
  micro: async n => { await 0; await 0; console.log('end ' + n); },
  timer: async n => { await sleep(20); console.log('end ' + n); },
  op: async n => { await delays.op(); console.log('end ' + n); },
  optimer: async n => { await delays.op(); await sleep(5); await delays.op(); console.log('end ' + n); },
  rej: async n => { await sleep(3); console.log('end ' + n); throw new Error('bg ' + n); },
  rejnow: n => { console.log('end ' + n); return Promise.reject(new Error('bg ' + n)); },
  value: n => { console.log('end ' + n); return 5; },
};
function bg(ev, list) {
  for (const b of list) {
    const n = b + ++seq;
    console.log('bg ' + n);
    if (b == 'late') {
      ev.waitUntil((async () => { await sleep(5); const m = 'timer' + ++seq; console.log('bg ' + m); ev.waitUntil(background.timer(m)); console.log('end ' + n); })());
    } else ev.waitUntil(background[b](n));
  }
}
"#;
const SW: &str = r#"
addEventListener('fetch', ev => {
  const [how, what, delay, body, x, wu] = ev.request.url.slice('http://x/'.length).split('-');
  if (wu) bg(ev, wu.split('.'));
  switch (how) {
    case 'rw': ev.respondWith(make(what, body, x)); break;
    case 'rwp': ev.respondWith(produce(what, delay, body, x)); break;
    case 'ret': return make(what, body, x);
    case 'retp': return produce(what, delay, body, x);
    case 'rwlate': return (async () => { await delays[delay](); ev.respondWith(make(what, body, x)); })();
    case 'cb': sleep(5).then(() => delays[delay]()).then(() => ev.respondWith(make(what, body, x))); break;
    case 'both': ev.respondWith(produce(what, delay, body, x)); return new Response('other');
  }
});
"#;
const ESM: &str = r#"
globalThis.default = {
  fetch(req, env, ctx) {
    const [how, what, delay, body, x, wu] = req.url.slice('http://x/'.length).split('-');
    if (wu) bg(ctx, wu.split('.'));
    return how == 'esm' ? make(what, body, x) : produce(what, delay, body, x);
  }
};
"#;
/// content of a body, and whether it ends with an error
fn content(body: &str) -> (Vec<u8>, bool) {
    let v: &[u8] = match body {
        "text" => b"hello",
        "bytes" => &[0, 255, 128, 10],
        "view" => &[2, 3, 4],
        "buffer" => &[7, 8],
        "uni" => "h\u{e9}\u{20ac}\u{1f600}".as_bytes(),
        "sync2" | "timed" | "tee" => b"abc",
        "strs" => "a\u{e9}".as_bytes(),
        "views" => b"abzqAB",
        "pulled" => b"p1p2p3",
        "gen" | "many" => b"1234567890123456789012345678901234567890",
        "fail" | "failop" => b"a",
        _ => b"",
    };
    (v.to_vec(), body.starts_with("fail"))
}
#[derive(Default, Clone, Debug)]
pub struct Got {
    /// when the response arrived
    pub at: Option<u64>,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub chunks: Vec<Vec<u8>>,
    pub error: Option<String>,
    /// when the body was complete
    pub end: Option<u64>,
    pub dropped: bool,
}
impl Got {
    pub fn bytes(&self) -> Vec<u8> {
        self.chunks.concat()
    }
}
/// How the client takes the response.
#[derive(Clone, Copy, PartialEq)]
pub enum Client {
    Read,
    /// each chunk only when the explorer lets it
    Slow,
    /// each chunk 20 ms after the one before
    Lazy,
    /// goes away after so many chunks (when the explorer lets it)
    Leave(usize),
}
pub fn client(w: &Arc<World>, rx: tokio::sync::oneshot::Receiver<HttpResponse>, how: Client) -> (Arc<Mutex<Got>>, tokio::task::JoinHandle<()>) {
    let got = Arc::new(Mutex::new(Got::default()));
    let (g, w) = (got.clone(), w.clone());
    let j = tokio::spawn(async move {
        let Ok(r) = rx.await else {
            g.lock().unwrap().dropped = true;
            return;
        };
        mc::event(format!("[{} ms] client: response {}", w.now(), r.status));
        {
            let mut g = g.lock().unwrap();
            g.at = Some(w.now());
            g.status = r.status;
            g.headers = r.headers.clone();
        }
        match r.body {
            ResponseBody::None => {}
            ResponseBody::Bytes(b) => g.lock().unwrap().chunks.push(b.to_vec()),
            ResponseBody::Stream(mut s) => {
                let mut n = 0;
                loop {
                    if how == Client::Slow {
                        w.pass("client reads".into()).await;
                    }
                    if how == Client::Lazy {
                        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
                    }
                    if how == Client::Leave(n) {
                        w.pass("client leaves".into()).await;
                        mc::event(format!("[{} ms] client leaves", w.now()));
                        break;
                    }
                    n += 1;
                    match s.recv().await {
                        None => break,
                        Some(Ok(b)) => {
                            mc::event(format!("[{} ms] client: chunk {:?}", w.now(), String::from_utf8_lossy(&b)));
                            g.lock().unwrap().chunks.push(b.to_vec());
                        }
                        Some(Err(e)) => {
                            mc::event(format!("[{} ms] client: body fails: {e}", w.now()));
                            g.lock().unwrap().error = Some(e);
                            break;
                        }
                    }
                }
            }
        }
        g.lock().unwrap().end = Some(w.now());
    });
    (got, j)
}
pub fn script(how: &str) -> Script {
    Script::new(format!("{JS}\n{}", if how.starts_with("esm") { ESM } else { SW }))
}
/// one request: result of exec, when exec returned
pub async fn request(h: &mut Host, w: &Arc<World>, url: &str, how: Client) -> (Result<(), TerminationReason>, u64, Arc<Mutex<Got>>, tokio::task::JoinHandle<()>) {
    let (ev, rx) = Event::fetch(get(url));
    let (g, j) = client(w, rx, how);
    let r = h.exec(ev).await;
    mc::event(format!("[{} ms] exec: {r:?}", w.now()));
    (r, w.now(), g, j)
}
/// run a driver in a fresh thread with a gated world
pub fn driver<F: std::future::Future<Output = ()> + 'static>(preempt: bool, f: impl FnOnce(Arc<World>) -> F + Send + 'static) {
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            let w = World::new(true);
            use_env(&w, preempt);
            f(w).await;
            env::set_env(None);
        })
    });
}
fn expect(g: &Got, how: &str, what: &str, body: &str, x: &str, ctx: &str) {
    let handler_wrong = what != "resp";
    let Some(_) = g.at else {
        mc::violation("no-response", format!("{ctx}: the client got no response"));
        return;
    };
    if handler_wrong {
        check!(g.status == 500, "status", "{ctx}: status {} instead of 500", g.status);
        return;
    }
    let _ = how;
    let st = match x {
        "hdr" => 404,
        "cookies" => 201,
        _ => 200,
    };
    check!(g.status == st, "status", "{ctx}: status {} instead of {st}", g.status);
    let want: Vec<(&str, &str)> = match x {
        "hdr" => vec![("content-type", "text/x"), ("x-a", "1")],
        "cookies" => vec![("set-cookie", "a=1"), ("set-cookie", "b=2"), ("x-b", "2, 3")],
        _ => vec![],
    };
    let mut have: Vec<(String, String)> = g.headers.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
    have.sort();
    check!(have.len() == want.len() && have.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "headers", "{ctx}: headers {have:?} instead of {want:?}");
    let (c, err) = content(body);
    check!(g.bytes() == c, "body", "{ctx}: body {:?} instead of {:?}", String::from_utf8_lossy(&g.bytes()), String::from_utf8_lossy(&c));
    check!(g.error.is_some() == err, "ending", "{ctx}: the body {}", if err { "failed at its source but looks complete to the client" } else { "was complete but failed for the client" });
    check!(g.end.is_some(), "endless", "{ctx}: the body never ended");
}
pub fn pick(p: &Params, key: &'static str, all: &[&str]) -> String {
    let only = p.s(key);
    if only.is_empty() {
        mc::pick(all, key).to_string()
    } else {
        let v: Vec<&str> = only.split(',').collect();
        if v.len() == 1 { v[0].to_string() } else { mc::pick(&v, key).to_string() }
    }
}
const BUFFERED: &[&str] = &["text", "empty", "nul", "undef", "bytes", "view", "buffer", "uni"];
const STREAMED: &[&str] = &["closed", "sync2", "strs", "views", "timed", "pulled", "gen", "many", "fail", "failop", "tee"];

fn resp(p: &Params) {
    let host = p.s("host");
    let how = pick(p, "how", &["rw", "rwp", "ret", "retp", "rwlate", "cb", "both", "esm", "esmp"]);
    let what = pick(p, "what", &["resp", "throw", "throwstr", "thrownull", "undef", "nul", "num", "str", "obj"]);
    let sync = matches!(how.as_str(), "rw" | "ret" | "esm");
    let delay = if sync { "now".to_string() } else { pick(p, "delay", if how == "rwlate" || how == "cb" { &["micro", "op", "timer"] } else { &["now", "micro", "op", "timer"] }) };
    if (how.starts_with("ret") && !what.starts_with("throw") || how == "cb") && what != "resp" {
        return; // no answer yet: respondWith() may still be called from a callback
    }
    let (body, x) = if what == "resp" {
        (pick(p, "body", &[BUFFERED, &["sync2", "timed"]].concat()), pick(p, "x", &["none", "hdr", "cookies"]))
    } else {
        ("text".into(), "none".into())
    };
    let warm = p.b("warm");
    driver(true, move |w| async move {
        let mut h = match Host::new(&host, script(&how), Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let url = format!("http://x/{how}-{what}-{delay}-{body}-{x}");
        if warm {
            let (r, _, g, j) = request(&mut h, &w, &format!("http://x/{}-resp-now-text-hdr", if how.starts_with("esm") { "esm" } else { "rw" }), Client::Read).await;
            let _ = j.await;
            expect(&g.lock().unwrap().clone(), "rw", "resp", "text", "hdr", "first request");
            check!(r.is_ok(), "exec", "first request: {r:?}");
        }
        let (r, _, g, j) = request(&mut h, &w, &url, Client::Read).await;
        let _ = j.await;
        check!(r.is_ok(), "exec", "{url}: {r:?}");
        let g = g.lock().unwrap().clone();
        expect(&g, &how, &what, &body, &x, &url);
        mc::outcome((url, format!("{g:?}")));
        drop(h);
    });
}
/// Streamed bodies and how the client reads them.
fn pace(p: &Params) -> Client {
    match pick(p, "client", &["read", "slow", "lazy"]).as_str() {
        "slow" => Client::Slow,
        "lazy" => Client::Lazy,
        _ => Client::Read,
    }
}
fn stream(p: &Params) {
    let host = p.s("host");
    let how = pick(p, "how", &["rw"]);
    let body = pick(p, "body", STREAMED);
    let c = pace(p);
    let buffer = p.u("buffer", 1);
    driver(true, move |w| async move {
        let lim = RuntimeLimits { stream_buffer_size: buffer, ..limits() };
        let mut h = match Host::new(&host, script(&how), Arc::new(Ops(w.clone())), lim).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let url = format!("http://x/{how}-resp-now-{body}-none");
        let (r, _, g, j) = request(&mut h, &w, &url, c).await;
        let _ = j.await;
        check!(r.is_ok(), "exec", "{url}: {r:?}");
        let g = g.lock().unwrap().clone();
        expect(&g, &how, "resp", &body, "none", &url);
        mc::outcome((url, format!("{g:?}")));
        drop(h);
    });
}
/// Background work.
fn wait(p: &Params) {
    let host = p.s("host");
    let how = pick(p, "how", &["rw", "rwp", "retp", "esmp"]);
    let what = pick(p, "what", &["resp", "throw"]);
    let kinds = ["micro", "timer", "op", "optimer", "rej", "rejnow", "value", "late"];
    let n = 1 + mc::free(p.u("max", 2), "count");
    let list: Vec<&str> = (0..n).map(|_| *mc::pick(&kinds, "bg")).collect();
    let body = pick(p, "body", &["text", "timed"]);
    driver(true, move |w| async move {
        let mut h = match Host::new(&host, script(&how), Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let url = format!("http://x/{how}-{what}-micro-{body}-none-{}", list.join("."));
        let (r, t, g, j) = request(&mut h, &w, &url, Client::Read).await;
        // everything announced must have come to its end when exec returns
        let logs: Vec<String> = w.logs().into_iter().map(|l| l.1).collect();
        let started: Vec<&str> = logs.iter().filter_map(|l| l.strip_prefix("bg ")).filter(|l| !l.contains(' ')).collect();
        for s in &started {
            let n = logs.iter().filter(|l| l.strip_prefix("end ") == Some(s)).count();
            check!(n == 1, "background-lost", "{url}: background work {s} ended {n} times before the execution was over (at {t} ms)");
        }
        check!(started.len() >= list.len(), "background-lost", "{url}: background work not started");
        let _ = j.await;
        check!(r.is_ok(), "exec", "{url}: {r:?}");
        let g = g.lock().unwrap().clone();
        expect(&g, &how, &what, &body, "none", &url);
        // the response does not wait for background work
        check!(g.at.is_none_or(|a| a == 0), "response-delayed", "{url}: the response came at {:?} ms", g.at);
        mc::outcome((url, t, started.len()));
        drop(h);
    });
}
/// The client goes away.
fn gone(p: &Params) {
    let host = p.s("host");
    let kind = pick(p, "kind", &["tick", "aware", "pullop", "pulltick", "stuck", "big", "burst", "forward", "background"]);
    let leave = mc::free(3, "leave");
    let bg = kind == "background" || mc::free(2, "background") == 1;
    let late = p.b("late");
    let buffer = p.u("buffer", 1);
    driver(true, move |w| async move {
        let js = r#"
        const sleep = ms => new Promise(r => setTimeout(r, ms));
        let n = 0;
        const put = c => { try { c.enqueue(new TextEncoder().encode('' + (n++ % 10))); } catch (e) { console.log('cancelled'); throw e; } };
        const cancel = r => console.log('cancelled');
        const S = {
          tick: () => new ReadableStream({ async start(c) { try { for (;;) { await sleep(30); put(c); } } catch (e) { } } }),
          aware: () => new ReadableStream({ async start(c) { put(c); put(c); c.signal.addEventListener('abort', () => { console.log('cancelled'); }); while (!c.signal.aborted) await sleep(70); } }),
          pullop: () => new ReadableStream({ async pull(c) { await (await fetch('http://h/ok:x')).text(); put(c); }, cancel }),
          pulltick: () => new ReadableStream({ async pull(c) { await sleep(30); put(c); }, cancel }),
          stuck: () => new ReadableStream({ start(c) { put(c); put(c); }, pull() { return new Promise(() => {}); }, cancel }),
          big: () => new ReadableStream({ pull(c) { put(c); }, cancel }),
          burst: () => new ReadableStream({ start(c) { for (let i = 0; i < 60; i++) put(c); }, cancel }),
          background: () => S.pulltick(),
        };
        addEventListener('fetch', ev => {
          const [k, bg] = ev.request.url.slice('http://x/'.length).split('-');
          n = 0;
          if (k == 'plain') return ev.respondWith(new Response('plain'));
          if (bg) ev.waitUntil((async () => { await sleep(400); console.log('background done'); })());
          if (k == 'forward') return ev.respondWith(fetch('http://h/str:0,1,2,3,4,5,6,7,8,9'));
          ev.respondWith(new Response(S[k]()));
        });"#;
        let lim = RuntimeLimits { stream_buffer_size: buffer, max_wall_clock_time_ms: if late { 3_000_000 } else { 0 }, ..limits() };
        let mut h = match Host::new(&host, Script::new(js), Arc::new(Ops(w.clone())), lim).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let url = format!("http://x/{kind}{}", if bg { "-bg" } else { "" });
        let (r, t, g, j) = request(&mut h, &w, &url, Client::Leave(leave)).await;
        let _ = j.await;
        check!(r.is_ok(), "exec", "{kind}: {r:?}");
        let g = g.lock().unwrap().clone();
        let left = g.end.unwrap_or(0);
        check!(b"01".starts_with(&g.bytes()[..]) && g.chunks.len() <= leave, "body", "{kind}: {:?}", g.bytes());
        check!(g.error.is_none() && g.at.is_some(), "failed", "{kind}: {g:?}");
        if kind == "forward" {
            // whoever produces the body learns that nobody reads it
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
            let open = w.i.lock().unwrap().pend.iter().filter(|p| matches!(&p.1, Pend::Feed(tx, _) if !tx.is_closed())).count();
            check!(open == 0, "upstream-open", "{kind}: the upstream body is still wanted although the client left");
        } else {
            // the execution does not go on for the sake of somebody who left
            let until = if bg { left.max(400) + 100 + 100 } else { left + 100 + 100 };
            check!(t <= until, "execution-goes-on", "{kind}: the client left at {left} ms, the execution was over at {t} ms");
            let logs = w.logs();
            let c = logs.iter().filter(|l| l.1 == "cancelled").count();
            check!(c >= 1, "not-told", "{kind}: the source of the body was never told that the client left (at {left} ms; over at {t} ms)");
            let first = logs.iter().find(|l| l.1 == "cancelled").map(|l| l.0).unwrap_or(0);
            check!(first <= left + 200, "told-late", "{kind}: the client left at {left} ms, the worker was told at {first} ms");
            if bg {
                check!(logs.iter().any(|l| l.1 == "background done"), "background-lost", "{kind}: the background work was cut off at {t} ms");
            }
        }
        if host == "pinned" {
            let (r, _, g, j) = request(&mut h, &w, "http://x/plain", Client::Read).await;
            let _ = j.await;
            let g = g.lock().unwrap().clone();
            check!(r.is_ok() && g.bytes() == b"plain", "next-request", "after {kind}: {r:?} {g:?}");
        }
        mc::outcome((kind, leave, t, left, format!("{g:?}")));
        drop(h);
    });
}
fn forward(p: &Params) {
    let host = p.s("host");
    let spec = pick(p, "spec", &["str:a,b,c", "str:a,b!lost", "ok:whole", "none", "stat:404:no", "cook:c"]);
    let mode = pick(p, "mode", &["direct", "rewrap", "await", "same", "worker", "assets"]);
    let end = pick(p, "end", if host == "pinned" { &["keep", "again", "evict", "drop"] } else { &["keep", "drop"] });
    let c = pace(p);
    driver(true, move |w| async move {
        let js = r#"
        addEventListener('fetch', ev => {
          const [mode, spec] = ev.request.url.slice('http://x/'.length).split('-');
          const up = () => mode == 'worker' ? env.OTHER.fetch('http://h/' + spec) : mode == 'assets' ? env.ASSETS.fetch('http://h/' + spec) : fetch('http://h/' + spec);
          if (mode == 'plain') ev.respondWith(new Response('plain'));
          if (mode == 'direct' || mode == 'worker' || mode == 'assets') ev.respondWith(up());
          if (mode == 'same') ev.respondWith(up().then(r => new Response(r.body, r)));
          if (mode == 'rewrap') ev.respondWith(up().then(r => new Response(r.body, { status: r.status, headers: { 'x-w': '1' } })));
          if (mode == 'await') ev.respondWith((async () => { const r = await up(); await new Promise(r => setTimeout(r, 5)); return r; })());
        });"#;
        let mut h = match Host::new(&host, Script::with_bindings(js, None, super::ops::bindings()), Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => Some(h),
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let url = format!("http://x/{mode}-{spec}");
        let (r, _, g, j) = request(h.as_mut().unwrap(), &w, &url, c).await;
        check!(r.is_ok(), "exec", "{url}: {r:?}");
        match end.as_str() {
            "keep" => {}
            "drop" => h = None,
            e => {
                for n in 0..if e == "evict" { 3 } else { 1 } {
                    if let (Host::Pinned { id, .. }, "evict") = (h.as_mut().unwrap(), e) {
                        *id = format!("w{n}");
                    }
                    let (r, _, g, j) = request(h.as_mut().unwrap(), &w, "http://x/plain-", Client::Read).await;
                    let _ = j.await;
                    let g = g.lock().unwrap().clone();
                    check!(r.is_ok() && g.bytes() == b"plain", "next-request", "after {url}: {r:?} {g:?}");
                }
            }
        }
        let _ = j.await;
        let g = g.lock().unwrap().clone();
        let (st, b, e) = match spec.as_str() {
            "str:a,b,c" => (200, "abc", false),
            "str:a,b!lost" => (200, "ab", true),
            "ok:whole" => (200, "whole", false),
            "none" => (204, "", false),
            "cook:c" => (201, "c", false),
            _ => (404, "no", false),
        };
        check!(g.at.is_some(), "no-response", "{url}: no response");
        check!(g.status == st, "status", "{url}: status {} instead of {st}", g.status);
        let mut want: Vec<(String, String)> = match (mode.as_str(), spec.as_str()) {
            ("rewrap", _) => vec![("x-w".into(), "1".into())],
            (_, "cook:c") => [("set-cookie", "a=1; Path=/"), ("set-cookie", "b=2, c"), ("x-a", "1, 2"), ("content-type", "text/x"), ("x-empty", "")].map(|(a, b)| (a.to_string(), b.to_string())).to_vec(),
            _ => vec![("x-spec".into(), spec.clone())],
        };
        let mut have: Vec<(String, String)> = vec![];
        for (k, v) in &g.headers {
            let k = k.to_lowercase();
            match have.iter_mut().find(|h| h.0 == k && k != "set-cookie") {
                Some(h) => h.1 = format!("{}, {v}", h.1),
                None => have.push((k, v.clone())),
            }
        }
        have.sort();
        want.sort();
        check!(have == want, "headers", "{url}: headers {have:?} instead of {want:?}");
        check!(g.error.is_some() == e, "ending", "{url} ({end}): the client's body {}, having got {:?} of {b:?}", if e { "looks complete although the origin's failed" } else { "failed although the origin's did not" }, String::from_utf8_lossy(&g.bytes()));
        check!(g.bytes() == b.as_bytes(), "body", "{url} ({end}): the client got {:?} instead of {b:?}", String::from_utf8_lossy(&g.bytes()));
        mc::outcome((url, end, format!("{g:?}")));
        drop(h);
    });
}
