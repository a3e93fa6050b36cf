//! Requests on their way in: the handler sees the request that was sent, and can pass it on.
use super::resp::driver;
use super::wk::*;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("incoming", incoming)]
}

const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
const hex = b => [...(b instanceof Uint8Array ? b : new Uint8Array(b))].map(x => x.toString(16).padStart(2, '0')).join('');
const enc = s => new TextEncoder().encode(s);
async function collect(body) {
  const r = body.getReader(), all = [];
  for (;;) { const { done, value } = await r.read(); if (done) break; if (!(value instanceof Uint8Array)) throw new Error('a chunk that is not bytes'); all.push(hex(value)); }
  await r.closed;
  return all.join('');
}
const READ = {
  text: async r => 't' + hex(enc(await r.text())),
  buffer: async r => hex(await r.arrayBuffer()),
  reader: async r => r.body ? collect(r.body) : '',
  tee: async r => { if (!r.body) return ''; const [a, b] = r.body.tee(); const [x, y] = await Promise.all([collect(a), collect(b)]); return x === y ? x : `${x} and ${y}`; },
  clone: async r => { const c = r.clone(); const [x, y] = await Promise.all([r.arrayBuffer(), c.arrayBuffer()]); return hex(x) === hex(y) ? hex(x) : `${hex(x)} and ${hex(y)}`; },
  cloned: async r => { const c = r.clone(), x = hex(await c.arrayBuffer()), y = hex(await r.arrayBuffer()); return x === y ? x : `${x} and ${y}`; },
  rewrap: async r => { const q = new Request(r); if (q.method !== r.method || q.url !== r.url || JSON.stringify([...q.headers]) !== JSON.stringify([...r.headers])) return 'a different request'; return hex(await q.arrayBuffer()); },
  moved: async r => hex(await new Request('http://other/', { method: 'POST', body: r.body }).arrayBuffer()),
  response: async r => hex(await new Response(r.body).arrayBuffer()),
  late: async r => { await sleep(20); return hex(await r.arrayBuffer()); },
  slowly: async r => { if (!r.body) return ''; const d = r.body.getReader(), all = []; for (;;) { const { done, value } = await d.read(); if (done) return all.join(''); all.push(hex(value)); await sleep(5); } },
};
async function handle(req, ev) {
  const how = HOW;
  const meta = { url: req.url, method: req.method, headers: [...req.headers], isnull: req.body === null, used: req.bodyUsed };
  const answer = body => new Response(JSON.stringify({ ...meta, body }), { headers: { 'x-how': how } });
  if (how == 'echo') return new Response(req.body, { headers: { meta: hex(enc(JSON.stringify(meta))) } });
  if (how == 'ignore') return answer('');
  if (how == 'cancel') { if (req.body) await req.body.cancel('not wanted'); return answer(''); }
  if (how == 'one') { if (req.body) { const r = req.body.getReader(); await r.read().catch(() => {}); r.releaseLock(); } return answer(''); }
  if (how == 'twice') { await req.arrayBuffer().catch(() => {}); try { await req.text(); return answer('read again'); } catch (e) { return answer(e instanceof TypeError ? '' : 'other error ' + e); } }
  if (how == 'throws') { if (req.body) req.body.getReader(); throw new Error('no'); }
  if (how == 'after') { ev.waitUntil(READ.buffer(req).then(b => console.log('read ' + b), e => console.log('failed ' + e.message))); return answer(''); }
  if (how == 'fwd') { const r = await fetch(req); return answer(await r.text()); }
  if (how == 'fwdclone') { const c = req.clone(); const r = await fetch(c); return answer(await r.text() + ' ' + hex(await req.arrayBuffer())); }
  if (how == 'fwdinit') { const r = await fetch('http://up/there', { method: 'PUT', headers: req.headers, body: req.body }); return answer(await r.text()); }
  if (how == 'fwdover') { const r = await fetch(req, { method: 'PATCH', headers: { 'X-Own': '1' } }); return answer(await r.text()); }
  if (how == 'fwdnew') { const r = await fetch(new Request('http://up/new', req)); return answer(await r.text()); }
  try { return answer(await READ[how](req)); } catch (e) { return answer('failed ' + (e && e.message || e)); }
}
"#;
const READS: &[&str] = &["text", "buffer", "reader", "tee", "clone", "cloned", "rewrap", "moved", "response", "late", "slowly"];
const HOW: &[&str] = &["text", "buffer", "reader", "tee", "clone", "cloned", "rewrap", "moved", "response", "late", "slowly", "echo", "ignore", "cancel", "one", "twice", "throws", "after", "fwd", "fwdclone", "fwdinit", "fwdover"];
const STYLES: &[&str] = &["addEventListener('fetch', ev => ev.respondWith(handle(ev.request, ev)));", "globalThis.default = { fetch: (request, env, ctx) => handle(request, ctx) };"];

type Recorded = (String, String, BTreeMap<String, String>, Option<Vec<u8>>);
struct Up(Arc<World>, Mutex<Vec<Recorded>>);
impl OperationsHandler for Up {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        Box::pin(async move {
            let Operation::Fetch(r) = op else { return OperationResult::Ack };
            let body = match r.body {
                RequestBody::None => None,
                RequestBody::Bytes(b) => Some(b.to_vec()),
                RequestBody::Stream(mut rx) => {
                    let mut v = vec![];
                    while let Some(c) = rx.recv().await {
                        match c {
                            Ok(c) => v.extend_from_slice(&c),
                            Err(e) => return OperationResult::Http(Err(e)),
                        }
                    }
                    Some(v)
                }
            };
            mc::event(format!("[{} ms] forwarded {} {}", self.0.now(), r.method, r.url));
            self.1.lock().unwrap().push((r.method.to_string(), r.url, r.headers.into_iter().collect(), body));
            OperationResult::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::Bytes("up".into()) }))
        })
    }
    fn handle_log(&self, _level: LogLevel, message: String) {
        self.0.log(message);
    }
}

const URLS: &[&str] = &["http://x/", "http://x", "https://user:pw@ex.com:8080/p%20q/\u{e9}?a=1&a=2&b#frag", "http://x/?q=%E2%82%AC&__proto__=1&\u{1f600}", "http://X.com/%zz/../a//b/./?", "http://x/\"'\\\u{2028}${1}`"];
const METHODS: &[HttpMethod] = &[HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Delete, HttpMethod::Patch, HttpMethod::Head, HttpMethod::Options];
const HEADERS: &[&[(&str, &str)]] = &[
    &[],
    &[("X-A", "1")],
    &[("content-type", "text/plain; charset=utf-8"), ("Cookie", "a=1; b=2, c"), ("x-empty", ""), ("Set-Cookie", "x=1, y=2")],
    &[("__proto__", "p"), ("constructor", "c"), ("toString", "t"), ("hasOwnProperty", "h")],
    &[("1", "one"), ("0", "zero"), ("-", "dash"), ("a.b", "dot"), ("x-uni", "\u{e9}\u{20ac}\u{1f600}"), ("X-UPPER-lower", " padded ")],
    &[("method", "m"), ("url", "u"), ("body", "b"), ("headers", "h"), ("_bodyStreamId", "1"), ("length", "3"), ("size", "0")],
];
/// pieces; '!' fails
const BODIES: &[&str] = &["-", "bytes:", "bytes:a", "bytes:\u{e9}\0\u{1f600}\r\n", "bytes:RAW", "bytes:BIG", "str:", "str:a", "str:a,,bc", "str:HALF", "str:!lost", "str:a,b!lost", "str:BIG,x,BIG", "str:MANY"];
fn piece(p: &str) -> Vec<Vec<u8>> {
    match p {
        "RAW" => vec![vec![0, 255, 128, 0xC3, 10]],
        "BIG" => vec![(0..70_000u32).map(|i| (i % 251) as u8).collect()],
        "HALF" => vec![vec![b'a', 0xE2, 0x82], vec![0xAC, 0xF0], vec![0x9F, 0x98, 0x80, b'z']],
        "MANY" => (0..40).map(|i| format!("{i};").into_bytes()).collect(),
        p => vec![p.as_bytes().to_vec()],
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn incoming(p: &Params) {
    let host = p.s("host");
    let rounds = p.u("rounds", 1);
    let sel = |name: &'static str, all: &[&'static str]| -> &'static str {
        let s = p.s(name);
        let l: Vec<&'static str> = if s.is_empty() { all.to_vec() } else { all.iter().filter(|a| s.split(' ').any(|x| x == **a)).copied().collect() };
        *mc::pick(&l, name)
    };
    let how = sel("how", HOW);
    let style = if p.b("module") { STYLES[1] } else { STYLES[0] };
    let body = sel("body", BODIES);
    let (url, method, headers) = if p.b("meta") {
        (*mc::pick(URLS, "url"), *mc::pick(METHODS, "method"), *mc::pick(HEADERS, "headers"))
    } else {
        ("http://x/path?q", HttpMethod::Post, HEADERS[2])
    };
    let paced = p.b("paced");
    driver(p.b("preempt"), move |w| async move {
        let js = format!("{}\n{style}", JS.replace("= HOW", &format!("= '{how}'")));
        let up = Arc::new(Up(w.clone(), Mutex::default()));
        let mut h = match Host::new(&host, Script::new(js), up.clone(), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        for round in 0..rounds {
            let (kind, spec) = body.split_once(':').unwrap_or(("none", ""));
            let (spec, fails) = match spec.split_once('!') { Some((s, _)) => (s, true), None => (spec, false) };
            let pieces: Vec<Vec<u8>> = if kind == "none" || kind == "str" && spec.is_empty() { vec![] } else { spec.split(',').flat_map(piece).collect() };
            let whole: Vec<u8> = pieces.concat();
            let hs: HashMap<String, String> = headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            let mut sender = None;
            let b = match kind {
                "none" => RequestBody::None,
                "bytes" => RequestBody::Bytes(whole.clone().into()),
                _ => {
                    let (tx, rx) = mpsc::channel(1);
                    let w = w.clone();
                    sender = Some(tokio::task::spawn_local(async move {
                        let n = pieces.len();
                        for (i, c) in pieces.into_iter().enumerate() {
                            if paced && (i < 2 || i + 1 == n) {
                                w.pass(format!("piece {i}")).await;
                            }
                            if tx.send(Ok(c.into())).await.is_err() {
                                mc::event(format!("[{} ms] the source is released at piece {i}", w.now()));
                                return;
                            }
                        }
                        if paced {
                            w.pass("end".into()).await;
                        }
                        if fails {
                            let _ = tx.send(Err("lost".into())).await;
                        }
                    }));
                    RequestBody::Stream(rx)
                }
            };
            let (ev, rx) = Event::fetch(HttpRequest { method, url: url.into(), headers: hs, body: b });
            let client = tokio::task::spawn_local(async move {
                let r = rx.await.ok()?;
                let (s, hs) = (r.status, r.headers.clone());
                Some((s, hs, r.body.collect().await))
            });
            let seen = w.logs().len();
            let r = h.exec(ev).await;
            mc::event(format!("[{} ms] exec: {r:?}", w.now()));
            let at = w.now();
            let ctx = format!("{how} of {method} {url} {headers:?} with body {body} (request {round})");
            // an echo goes on as long as its client reads
            let released = |s: Option<tokio::task::JoinHandle<()>>| async {
                match s {
                    Some(mut s) => tokio::time::timeout(std::time::Duration::from_secs(600), &mut s).await.is_ok(),
                    None => true,
                }
            };
            let got = client.await.unwrap();
            check!(released(sender).await, "released", "{ctx}: the source of the body is not released");
            if how == "throws" {
                check!(got.as_ref().is_some_and(|g| g.0 == 500), "failed", "{ctx}: {r:?}, answer {:?}", got.map(|g| g.0));
                continue;
            }
            let forwards = how.starts_with("fwd");
            if forwards && fails {
                // the request cannot be made: the handler fails
                check!(up.1.lock().unwrap().drain(..).next().is_none(), "forwarded", "{ctx}: a request whose body failed was forwarded");
                check!(got.as_ref().is_some_and(|g| g.0 == 500), "failed", "{ctx}: {r:?}, answer {:?}", got.map(|g| g.0));
                continue;
            }
            check!(r.is_ok(), "exec", "{ctx}: {r:?}");
            let Some((status, rh, bytes)) = got else {
                return mc::violation("no-response", format!("{ctx}: no answer"));
            };
            check!(status == 200, "status", "{ctx}: status {status}");
            let meta: String;
            if how == "echo" {
                match bytes {
                    None => check!(fails, "body", "{ctx}: the echo failed"),
                    Some(b) => check!(!fails && b == whole, "body", "{ctx}: the echo is {:?}", String::from_utf8_lossy(&b[..b.len().min(100)])),
                }
                let m = rh.iter().find(|h| h.0.eq_ignore_ascii_case("meta")).map(|h| h.1.clone()).unwrap_or_default();
                meta = String::from_utf8((0..m.len() / 2).map(|i| u8::from_str_radix(&m[i * 2..i * 2 + 2], 16).unwrap_or(b'?')).collect()).unwrap_or_default();
            } else {
                meta = String::from_utf8_lossy(&bytes.unwrap_or_default()).to_string();
            }
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&meta) else {
                return mc::violation("answer", format!("{ctx}: answer {meta:?}"));
            };
            check!(v["url"] == url, "url", "{ctx}: the handler sees {}", v["url"]);
            check!(v["method"] == method.to_string(), "method", "{ctx}: the handler sees {}", v["method"]);
            check!(v["used"] == false, "used", "{ctx}: the body is used before the handler runs");
            let mut have: Vec<(String, String)> = v["headers"].as_array().map(|a| a.iter().map(|e| (e[0].as_str().unwrap_or("?").to_string(), e[1].as_str().unwrap_or("?").to_string())).collect()).unwrap_or_default();
            have.sort();
            let mut want: Vec<(String, String)> = headers.iter().map(|(k, v)| (k.to_lowercase(), v.to_string())).collect();
            want.sort();
            check!(have == want, "headers", "{ctx}: the handler sees {have:?}");
            check!(v["isnull"] == (kind == "none" || kind == "bytes" && whole.is_empty()), "null", "{ctx}: body is null: {}", v["isnull"]);
            let b = v["body"].as_str().unwrap_or("");
            if READS.contains(&how) {
                let want = match (fails, how) {
                    (true, _) => "failed".to_string(),
                    (_, "text") => {
                        let t = whole.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(&whole);
                        format!("t{}", hex(String::from_utf8_lossy(t).as_bytes()))
                    }
                    _ => hex(&whole),
                };
                let ok = if fails { b.starts_with("failed") && b.contains("lost") } else { b == want };
                check!(ok, "body", "{ctx}: the handler reads {:?}, not {:?}", &b[..b.len().min(80)], &want[..want.len().min(80)]);
            }
            if how == "twice" {
                check!(b.is_empty(), "twice", "{ctx}: {b}");
            }
            if how == "after" {
                let l: Vec<String> = w.logs()[seen..].iter().map(|l| l.1.clone()).collect();
                let ok = l.len() == 1 && if fails { l[0].starts_with("failed") && l[0].contains("lost") } else { l[0] == format!("read {}", hex(&whole)) };
                check!(ok, "body", "{ctx}: background work reads {l:?}");
            }
            if forwards {
                let f = std::mem::take(&mut *up.1.lock().unwrap());
                check!(f.len() == 1, "forwarded", "{ctx}: {} requests forwarded", f.len());
                let (m, u, hs, fb) = f.into_iter().next().unwrap();
                let (wm, wu) = match how { "fwdinit" => ("PUT".to_string(), "http://up/there"), "fwdover" => ("PATCH".to_string(), url), _ => (method.to_string(), url) };
                check!(m == wm && u == wu, "forwarded", "{ctx}: forwarded as {m} {u}");
                let wh: BTreeMap<String, String> = if how == "fwdover" { [("x-own".to_string(), "1".to_string())].into() } else { want.into_iter().collect() };
                let hs: BTreeMap<String, String> = hs.into_iter().map(|(k, v)| (k.to_lowercase(), v)).collect();
                check!(hs == wh, "forwarded-headers", "{ctx}: forwarded with {hs:?} instead of {wh:?}");
                check!(fb.clone().unwrap_or_default() == whole, "forwarded-body", "{ctx}: forwarded with body {:?}", fb.map(|b| String::from_utf8_lossy(&b[..b.len().min(100)]).to_string()));
                check!(b == if how == "fwdclone" { format!("up {}", hex(&whole)) } else { "up".into() }, "answer", "{ctx}: {b:?}");
            }
            mc::outcome((how, body, at));
        }
    });
}
