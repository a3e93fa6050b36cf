//! Operations a worker asks its host for: each settles once, with its own outcome.
use super::resp::{driver, request, Client};
use super::wk::*;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::Arc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("ops", ops), ("opargs", opargs), ("opvals", opvals)]
}
pub fn bindings() -> Vec<BindingInfo> {
    vec![
        BindingInfo::new("ASSETS", BindingType::Assets),
        BindingInfo::new("STORE", BindingType::Storage),
        BindingInfo::new("KV", BindingType::Kv),
        BindingInfo::new("DB", BindingType::Database),
        BindingInfo::new("OTHER", BindingType::Worker),
    ]
}
const JS: &str = r#"
const log = s => console.log(s);
const read = async r => {
  if (!(r instanceof Response)) throw new TypeError('not a response');
  const ok = r.ok, st = r.status, h = r.headers.get('x-spec');
  if (ok != (st >= 200 && st < 300)) log('wrong ok');
  return st + ' ' + h + ' ' + await r.text();
};
const K = {
  fetch: s => fetch('http://h/' + s).then(read),
  assets: s => env.ASSETS.fetch('http://h/' + s).then(read),
  worker: s => env.OTHER.fetch('http://h/' + s).then(read),
  sget: s => env.STORE.get(s), sput: s => env.STORE.put(s, 'data'), shead: s => env.STORE.head(s), slist: s => env.STORE.list({ prefix: s }), sdel: s => env.STORE.delete(s),
  sfetch: s => env.STORE.fetch('http://h/' + s).then(read),
  kget: s => env.KV.get(s), kput: s => env.KV.put(s, { a: 1 }), kdel: s => env.KV.delete(s), klist: s => env.KV.list({ prefix: s }),
  db: s => env.DB.query(s, [1, 'a', null]),
};
let base = 0;
function start(n, op) {
  const [k, s] = op.split('~');
  log('start ' + n);
  let p;
  try { p = K[k](s); } catch (e) { p = Promise.reject(e); }
  return p.then(v => log('settle ' + n + ' ok ' + JSON.stringify(v === undefined ? '(undefined)' : v)), e => log('settle ' + n + ' err ' + (e instanceof Error ? e.message : 'not an error: ' + e)));
}
addEventListener('fetch', ev => {
  const [mode, list] = decodeURIComponent(ev.request.url.slice('http://x/'.length)).split('|||');
  const ops = list.split('|').filter(s => s), first = base;
  base += ops.length;
  switch (mode) {
    case 'all': ev.waitUntil(Promise.all(ops.map((o, i) => start(first + i, o)))); break;
    case 'seq': ev.waitUntil(ops.reduce((p, o, i) => p.then(() => start(first + i, o)), Promise.resolve())); break;
    case 'timer': ev.waitUntil(Promise.all(ops.map((o, i) => new Promise(r => setTimeout(() => r(start(first + i, o)), 5))))); break;
    case 'handler': ev.respondWith((async () => { await Promise.all(ops.map((o, i) => start(first + i, o))); return new Response('ok'); })()); return;
    case 'leave': ops.forEach((o, i) => start(first + i, o)); break;
  }
  ev.respondWith(new Response('ok'));
});
"#;
/// what the worker has to see
fn expect(kind: &str, spec: &str) -> Result<String, String> {
    let (k, v) = spec.split_once(':').unwrap_or((spec, ""));
    let js = |s: &str| serde_json::Value::String(s.into()).to_string();
    let undef = || Ok(js("(undefined)"));
    if k == "bad" {
        return Err("nexpected".into());
    }
    if k == "err" {
        return Err(v.into());
    }
    match kind {
        "fetch" | "assets" | "worker" | "sfetch" => match k {
            "ok" => Ok(js(&format!("200 {spec} {v}"))),
            "stat" => {
                let (c, b) = v.split_once(':').unwrap();
                Ok(js(&format!("{c} {spec} {b}")))
            }
            "none" => Ok(js(&format!("204 {spec} "))),
            _ => match v.split_once('!') {
                Some((_, e)) => Err(e.into()),
                None => Ok(js(&format!("200 {spec} {}", v.replace(',', "")))),
            },
        },
        "sget" if k == "none" => Ok("null".into()),
        "kget" if k == "none" => Ok("null".into()),
        "sget" | "kget" => Ok(js(v)),
        "shead" => Ok(format!("{{\"size\":{},\"etag\":{}}}", v.len(), js(v))),
        "slist" => Ok(format!("{{\"keys\":[{}],\"truncated\":false}}", v.split(',').map(js).collect::<Vec<_>>().join(","))),
        "klist" => Ok(format!("[{}]", v.split(',').map(js).collect::<Vec<_>>().join(","))),
        "db" => Ok(format!("[{{\"v\":{}}}]", js(v))),
        _ => undef(),
    }
}
fn outcomes(kind: &str, i: usize) -> Vec<String> {
    let mut v = vec![format!("ok:v{i},w{i}"), format!("err:e{i}"), format!("bad:{i}")];
    match kind {
        "fetch" | "assets" | "worker" | "sfetch" => v.extend([format!("stat:404:v{i}"), "none".into(), format!("str:a{i},b{i}"), format!("str:a{i}!lost{i}")]),
        "sget" | "kget" => v.push("none".into()),
        _ => {}
    }
    v
}
const KINDS: &[&str] = &["fetch", "assets", "worker", "sget", "sput", "shead", "slist", "sdel", "sfetch", "kget", "kput", "kdel", "klist", "db"];

fn choose_ops(p: &Params, n: usize, from: usize) -> Vec<(String, String)> {
    let only = p.s("kinds");
    let kinds: Vec<&str> = if only.is_empty() { KINDS.to_vec() } else { only.split(',').collect() };
    let few = p.b("few");
    (0..n)
        .map(|i| {
            let k = *mc::pick(&kinds, "kind");
            let mut o = outcomes(k, from + i);
            if few {
                o.truncate(2);
            }
            (k.to_string(), mc::pick(&o, "outcome").clone())
        })
        .collect()
}
fn join(v: &[(String, String)]) -> String {
    v.iter().map(|(k, s)| format!("{k}~{s}")).collect::<Vec<_>>().join("|")
}
fn judge(logs: &[(u64, String)], from: usize, v: &[(String, String)], ctx: &str, must: bool) {
    for (i, (k, s)) in v.iter().enumerate() {
        let n = from + i;
        let got: Vec<&str> = logs.iter().filter_map(|l| l.1.strip_prefix(&format!("settle {n} "))).collect();
        if must || got.len() > 1 {
            check!(got.len() == 1, "settles-once", "{ctx}: operation {n} ({k} {s}) settled {} times: {got:?}", got.len());
        }
        if let Some(g) = got.first() {
            match expect(k, s) {
                Ok(w) => check!(g.strip_prefix("ok ") == Some(w.as_str()), "result", "{ctx}: operation {n} ({k} {s}) settled with {g} instead of {w}"),
                Err(w) => check!(g.strip_prefix("err ").is_some_and(|e| e.contains(&w) && !e.contains("not an error")), "result", "{ctx}: operation {n} ({k} {s}) settled with {g} instead of an error about {w:?}"),
            }
        }
    }
    for l in logs {
        check!(!l.1.starts_with("wrong"), "result", "{ctx}: {}", l.1);
    }
}
fn ops(p: &Params) {
    let host = p.s("host");
    let mode = super::resp::pick(p, "mode", &["all", "seq", "timer", "handler"]);
    let n = 1 + mc::free(p.u("max", 2), "count");
    let v = choose_ops(p, n, 0);
    // operations of the next request, while those of this one may still be outstanding
    let second = if mode == "leave" { choose_ops(p, p.u("second", 1), n) } else { vec![] };
    let buffer = p.u("buffer", 16);
    let preempt = p.b("preempt");
    driver(preempt, move |w| async move {
        let lim = RuntimeLimits { stream_buffer_size: buffer, ..limits() };
        let sc = Script::with_bindings(JS, None, bindings());
        let mut h = match Host::new(&host, sc, Arc::new(Ops(w.clone())), lim).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let ctx = format!("{mode} {}", join(&v));
        let (r, _, g, j) = request(&mut h, &w, &format!("http://x/{mode}|||{}", join(&v)), Client::Read).await;
        let _ = j.await;
        check!(r.is_ok() && g.lock().unwrap().bytes() == b"ok", "exec", "{ctx}: {r:?} {:?}", g.lock().unwrap());
        judge(&w.logs(), 0, &v, &ctx, mode != "leave");
        if mode == "leave" {
            let before = w.logs();
            let ctx = format!("{ctx} then {}", join(&second));
            let (r, _, g, j) = request(&mut h, &w, &format!("http://x/all|||{}", join(&second)), Client::Read).await;
            let _ = j.await;
            check!(r.is_ok() && g.lock().unwrap().bytes() == b"ok", "exec", "{ctx}: {r:?} {:?}", g.lock().unwrap());
            judge(&w.logs(), 0, &v, &ctx, false);
            judge(&w.logs(), n, &second, &ctx, true);
            let late = w.logs()[before.len()..].iter().find(|l| l.1.starts_with("settle ") && (0..n).any(|i| l.1.starts_with(&format!("settle {i} ")))).cloned();
            if let Some(l) = late {
                mc::violation("carried-over", format!("{ctx}: an operation of the first request settled during the second one: {}", l.1));
            }
        }
        mc::outcome((ctx, format!("{:?}", w.logs())));
        drop(h);
    });
}
/// What the host is asked for; arguments that cannot be used are refused, not forgotten.
fn opargs(p: &Params) {
    // (expression, what the host is asked for; None: a rejection)
    let fetchlike: &[(&str, Option<&str>)] = &[
        ("F('http://h/ok:x')", Some("GET http://h/ok:x {} -")),
        ("F(new URL('http://h/ok:x'))", Some("GET http://h/ok:x {} -")),
        ("F({ toString() { return 'http://h/ok:y'; } })", Some("GET http://h/ok:y {} -")),
        ("F(new Request('http://h/ok:x'))", Some("GET http://h/ok:x {} -")),
        ("F(new Request('http://h/ok:x', { method: 'POST', headers: { A: 'b' }, body: 'data' }))", Some("POST http://h/ok:x {a: b} data")),
        ("F(new Request('http://h/ok:x', { method: 'POST', body: 'data' }), { method: 'PUT', body: 'other', headers: { C: 'd' } })", Some("PUT http://h/ok:x {c: d} other")),
        ("F(new Request('http://h/ok:x', { headers: { A: 'b' } }), { headers: { C: 'd' } })", Some("GET http://h/ok:x {c: d} -")),
        ("F('http://h/ok:x', { method: 'POST', body: 'h\\u00e9' })", Some("POST http://h/ok:x {} h\u{e9}")),
        ("F('http://h/ok:x', { method: 'post', body: '' })", Some("POST http://h/ok:x {} ")),
        ("F('http://h/ok:x', { method: 'DELETE' })", Some("DELETE http://h/ok:x {} -")),
        ("F('http://h/ok:x', { method: 'HEAD' })", Some("HEAD http://h/ok:x {} -")),
        ("F('http://h/ok:x', { method: 'OPTIONS' })", Some("OPTIONS http://h/ok:x {} -")),
        ("F('http://h/ok:x', { method: 'PATCH', body: new Uint8Array([97, 98]) })", Some("PATCH http://h/ok:x {} ab")),
        ("F('http://h/ok:x', { method: 'POST', body: new Uint8Array([97, 98, 99, 100]).subarray(1, 3) })", Some("POST http://h/ok:x {} bc")),
        ("F('http://h/ok:x', { method: 'POST', body: new Uint8Array([97, 98]).buffer })", Some("POST http://h/ok:x {} ab")),
        ("F('http://h/ok:x', { method: 'POST', body: new DataView(new Uint8Array([97, 98, 99]).buffer, 1) })", Some("POST http://h/ok:x {} bc")),
        ("F('http://h/ok:x', { method: 'POST', body: new Uint16Array([0x6261]) })", Some("POST http://h/ok:x {} ab")),
        ("F('http://h/ok:x', { method: 'POST', body: new ReadableStream({ start(c) { c.enqueue(new TextEncoder().encode('a')); c.enqueue(new TextEncoder().encode('bc')); c.close(); } }) })", Some("POST http://h/ok:x {} abc")),
        ("F('http://h/ok:x', { method: 'POST', body: new ReadableStream({ start(c) { c.error(new Error('src')); } }) })", None),
        ("F('http://h/ok:x', { body: null })", Some("GET http://h/ok:x {} -")),
        ("F('http://h/ok:x', { headers: { A: 'b', c: 'd' } })", Some("GET http://h/ok:x {a: b, c: d} -")),
        ("F('http://h/ok:x', { headers: new Headers({ A: 'b' }) })", Some("GET http://h/ok:x {a: b} -")),
        ("F('http://h/ok:x', { headers: [['A', 'b'], ['c', 'd']] })", Some("GET http://h/ok:x {a: b, c: d} -")),
        ("F('http://h/ok:x', { headers: { A: 5, b: true } })", Some("GET http://h/ok:x {a: 5, b: true} -")),
        ("F('http://h/ok:x', { headers: undefined })", Some("GET http://h/ok:x {} -")),
        ("F('http://h/ok:x', { headers: {}, method: 'POST', body: 5 })", Some("POST http://h/ok:x {} 5")),
        ("F('http://h/err:no')", None),
    ];
    let others: &[(&str, Option<&str>)] = &[
        ("fetch('http://h/ok:x', { method: 'POST', body: new URLSearchParams({ a: '1&2' }) })", Some("fetch POST http://h/ok:x {content-type: application/x-www-form-urlencoded;charset=UTF-8} a=1%262")),
        ("fetch('http://h/ok:x', { method: 'POST', body: new Blob(['ab', 'c'], { type: 'text/x' }) })", Some("fetch POST http://h/ok:x {content-type: text/x} abc")),
        ("env.STORE.get('k')", Some("storage STORE Get { key: \"k\" }")),
        ("env.STORE.put('k', 'h\\u00e9')", Some("storage STORE Put { key: \"k\", body: [104, 195, 169] }")),
        ("env.STORE.put('k', new Uint8Array([1, 2, 3]).subarray(1))", Some("storage STORE Put { key: \"k\", body: [2, 3] }")),
        ("env.STORE.put('k', new Uint8Array([1, 2]).buffer)", Some("storage STORE Put { key: \"k\", body: [1, 2] }")),
        ("env.STORE.put('k', '')", Some("storage STORE Put { key: \"k\", body: [] }")),
        ("env.STORE.head('k')", Some("storage STORE Head { key: \"k\" }")),
        ("env.STORE.delete('k')", Some("storage STORE Delete { key: \"k\" }")),
        ("env.STORE.list()", Some("storage STORE List { prefix: None, limit: None }")),
        ("env.STORE.list({ prefix: 'p', limit: 3 })", Some("storage STORE List { prefix: Some(\"p\"), limit: Some(3) }")),
        ("env.STORE.fetch('http://h/ok:a')", Some("storage STORE Fetch { key: \"/ok:a\" }")),
        ("env.KV.get('k')", Some("kv KV Get { key: \"k\" }")),
        ("env.KV.put('k', 'v')", Some("kv KV Put { key: \"k\", value: String(\"v\"), expires_in: None }")),
        ("env.KV.put('k', 5, { expiresIn: 60 })", Some("kv KV Put { key: \"k\", value: Number(5), expires_in: Some(60) }")),
        ("env.KV.put('k', [true, null, 'x'])", Some("kv KV Put { key: \"k\", value: Array [Bool(true), Null, String(\"x\")], expires_in: None }")),
        ("env.KV.put('k', { a: { b: 1.5 } })", Some("kv KV Put { key: \"k\", value: Object {\"a\": Object {\"b\": Number(1.5)}}, expires_in: None }")),
        ("env.KV.put('k', null)", Some("kv KV Put { key: \"k\", value: Null, expires_in: None }")),
        ("env.KV.delete('k')", Some("kv KV Delete { key: \"k\" }")),
        ("env.KV.list()", Some("kv KV List { prefix: None, limit: None }")),
        ("env.KV.list({ prefix: 'p', limit: 2 })", Some("kv KV List { prefix: Some(\"p\"), limit: Some(2) }")),
        ("env.KV.put('k', 1, { expiresIn: 0 })", Some("kv KV Put { key: \"k\", value: Number(1), expires_in: Some(0) }")),
        ("env.KV.list({ limit: 0 })", Some("kv KV List { prefix: None, limit: Some(0) }")),
        ("env.STORE.list({ limit: 0 })", Some("storage STORE List { prefix: None, limit: Some(0) }")),
        ("env.DB.query('select 1')", Some("db DB select 1 []")),
        ("env.DB.query('select ?', [1, 'a', null, true, 1.5])", Some("db DB select ? [Primitive(Int(1)), Primitive(String(\"a\")), Primitive(Null), Primitive(Bool(true)), Primitive(Float(1.5))]")),
        ("env.DB.query('select ?', [[1, 2]])", Some("db DB select ? [Array([Int(1), Int(2)])]")),
    ];
    // whatever these mean, the promise settles
    let odd: &[&str] = &[
        "fetch()", "fetch(undefined, null)", "fetch('http://h/ok:x', { method: 5 })", "fetch('http://h/ok:x', { method: Symbol('x') })", "fetch('http://h/ok:x', { method: {} })", "fetch('http://h/ok:x', { headers: 5 })", "fetch('http://h/ok:x', { headers: 'abc' })", "fetch('http://h/ok:x', { headers: null })",
        "fetch('http://h/ok:x', { headers: { a: undefined, b: null, c: {} } })", "fetch('http://h/ok:x', { headers: { a: Symbol('x') } })", "fetch('http://h/ok:x', { headers: [['a']] })", "fetch('http://h/ok:x', { headers: [5] })", "fetch('http://h/ok:x', { method: 'POST', body: {} })", "fetch('http://h/ok:x', { method: 'POST', body: [1, 2] })",
        "fetch('http://h/ok:x', { method: 'POST', body: () => 1 })", "fetch('http://h/ok:x', { method: 'POST', body: Symbol('x') })", "fetch('http://h/ok:x', { method: 'POST', body: new Map() })", "fetch('http://h/ok:x', { method: 'POST', body: new Blob(['x']) })", "fetch('http://h/ok:x', { method: 'POST', body: new Date() })", "fetch('http://h/ok:x', { method: 'POST', body: new FormData() })",
        "fetch('http://h/ok:x', { method: 'POST', body: 10n })", "fetch({ toString() { throw new Error('no'); } })", "fetch('http://h/ok:x', { method: 'POST', body: new ReadableStream({ start(c) { c.enqueue('str'); c.close(); } }) })", "fetch('http://h/ok:x', { method: 'POST', body: new ReadableStream({ start(c) { c.enqueue(5); c.close(); } }) })", "fetch('http://h/ok:x', { headers: { upgrade: 5 } })", "fetch('http://h/ok:x', { headers: { Upgrade: 'websocket', x: 5 } })",
        "env.ASSETS.fetch()", "env.ASSETS.fetch('http://h/ok:x', { headers: { a: 5 } })", "env.ASSETS.fetch('http://h/ok:x', { method: 'POST', body: {} })", "env.ASSETS.fetch('http://h/ok:x', { method: 'POST', body: 'str' })", "env.ASSETS.fetch('http://h/ok:x', { method: 'POST', body: new ReadableStream({ start(c) { c.close(); } }) })", "env.ASSETS.fetch({ toString() { throw new Error('no'); } })", "env.ASSETS.fetch('http://h/ok:x', { method: 'POST', body: new FormData() })", "env.ASSETS.fetch('http://h/ok:x', { method: 'POST', body: new Blob(['x']) })",
        "env.OTHER.fetch()", "env.OTHER.fetch('http://h/ok:x', { headers: { a: 5 } })", "env.OTHER.fetch('http://h/ok:x', { method: 'POST', body: {} })", "env.OTHER.fetch('http://h/ok:x', { method: 'POST', body: 'str' })", "env.OTHER.fetch('http://h/ok:x', { method: 'POST', body: new URLSearchParams('a=b') })", "env.OTHER.fetch('http://h/ok:x', { method: 'POST', body: new FormData() })",
        "env.STORE.get()", "env.STORE.get(5)", "env.STORE.get(null)", "env.STORE.get({})", "env.STORE.put()", "env.STORE.put('k')", "env.STORE.put('k', 5)", "env.STORE.put('k', {})", "env.STORE.put('k', null)", "env.STORE.put('k', [1])", "env.STORE.put(5, 'x')", "env.STORE.put('k', new DataView(new ArrayBuffer(2)))", "env.STORE.put('k', new Blob(['x']))",
        "env.STORE.head()", "env.STORE.delete()", "env.STORE.list(5)", "env.STORE.list({ limit: -1 })", "env.STORE.list({ limit: 1.5 })", "env.STORE.list({ limit: 'x' })", "env.STORE.list({ prefix: 5 })", "env.STORE.list(null)", "env.STORE.fetch()", "env.STORE.fetch('::')", "env.STORE.fetch({ toString() { throw new Error('no'); } })",
        "env.KV.get()", "env.KV.get(5)", "env.KV.get(null)", "env.KV.put()", "env.KV.put('k')", "env.KV.put('k', undefined)", "env.KV.put('k', () => 1)", "env.KV.put('k', Symbol('x'))", "env.KV.put('k', 10n)", "env.KV.put('k', NaN)", "env.KV.put('k', Infinity)", "env.KV.put('k', new Map([[1, 2]]))", "env.KV.put('k', new Date(0))", "env.KV.put('k', new Uint8Array(2))", "env.KV.put('k', { a: undefined })", "(() => { const o = {}; o.o = o; return env.KV.put('k', o); })()",
        "env.KV.put('k', { get a() { throw new Error('getter'); } })", "env.KV.put('k', 1, { expiresIn: -5 })", "env.KV.put('k', 1, { expiresIn: 1.5 })", "env.KV.put('k', 1, { expiresIn: 'x' })", "env.KV.delete()", "env.KV.list({ limit: -1 })", "env.KV.list({ limit: 'x' })", "env.KV.list({ prefix: 5 })",
        "env.DB.query()", "env.DB.query(5)", "env.DB.query('q', 5)", "env.DB.query('q', {})", "env.DB.query('q', 'str')", "env.DB.query('q', [undefined])", "env.DB.query('q', [{}])", "env.DB.query('q', [10n])", "env.DB.query('q', [NaN])", "env.DB.query('q', [new Date(0)])", "env.DB.query('q', [[[1]]])", "env.DB.query('q', [1e300])", "env.DB.query('q', [Symbol('x')])",
    ];
    let host = p.s("host");
    let what = super::resp::pick(p, "what", &["fetch", "assets", "worker", "others", "odd"]);
    let (expr, want): (String, Option<Option<String>>) = match what.as_str() {
        "others" => {
            let c = mc::pick(others, "case");
            (c.0.to_string(), Some(c.1.map(|s| s.to_string())))
        }
        "odd" => (mc::pick(odd, "case").to_string(), None),
        k => {
            let (f, name) = match k {
                "fetch" => ("fetch(", "fetch"),
                "assets" => ("env.ASSETS.fetch(", "assets ASSETS"),
                _ => ("env.OTHER.fetch(", "worker OTHER"),
            };
            let c = mc::pick(fetchlike, "case");
            (c.0.replacen("F(", f, 1), Some(c.1.map(|s| format!("{name} {s}"))))
        }
    };
    driver(false, move |w| async move {
        let js = format!(
            "addEventListener('fetch', ev => {{
               ev.respondWith((async () => {{
                 try {{ let p = {expr}; if (!p || typeof p.then != 'function') console.log('no promise'); const v = await p; console.log('settled'); }}
                 catch (e) {{ console.log('rejected ' + (e instanceof Error || e === undefined) + ' ' + e); }}
                 try {{ await (await fetch('http://h/ok:after')).text(); console.log('after'); }} catch (e) {{ console.log('after ' + e); }}
                 return new Response('ok');
               }})());
               ev.waitUntil(new Promise(r => setTimeout(r, 50)));
             }});"
        );
        let ops = Recorder(w.clone());
        let mut h = match Host::new(&host, Script::with_bindings(js, None, bindings()), Arc::new(ops), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let (ev, rx) = Event::fetch(get("http://x/"));
        let (_g, j) = super::resp::client(&w, rx, Client::Read);
        let r = tokio::time::timeout(std::time::Duration::from_millis(2000), h.exec(ev)).await;
        j.abort();
        let logs: Vec<String> = w.logs().into_iter().map(|l| l.1).filter(|l| !l.starts_with("[fetch]")).collect();
        let asked: Vec<String> = w.i.lock().unwrap().started.clone();
        let asked: Vec<&String> = asked.iter().filter(|a| !a.contains("ok:after")).collect();
        let first = logs.first().cloned().unwrap_or_default();
        check!(first == "settled" || first.starts_with("rejected"), "never-settles", "{expr}: the promise did not settle: {logs:?}, asked {asked:?}, exec {r:?}");
        check!(logs.iter().any(|l| l == "after"), "others-affected", "{expr}: the next operation did not work: {logs:?}");
        match &want {
            Some(Some(a)) => {
                check!(first == "settled", "refused", "{expr}: {first}");
                check!(asked.len() == 1 && asked[0] == a, "asked", "{expr}: the host was asked for {asked:?} instead of {a:?}");
            }
            Some(None) => check!(first.starts_with("rejected true"), "not-refused", "{expr}: {first}"),
            None => {
                check!(asked.len() <= 1, "asked", "{expr}: the host was asked for {asked:?}");
                check!(first == "settled" && asked.len() == 1 || first.starts_with("rejected"), "asked", "{expr}: {first}, but the host was asked for {asked:?}");
            }
        }
        mc::outcome((expr, logs, format!("{asked:?}")));
        drop(h);
    });
}
/// records requests with headers and body
struct Recorder(Arc<World>);
impl OperationsHandler for Recorder {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let full = match &op {
            Operation::Fetch(r) | Operation::BindingFetch { request: r, .. } | Operation::BindingWorker { request: r, .. } => {
                let mut h: Vec<String> = r.headers.iter().map(|(k, v)| format!("{}: {v}", k.to_lowercase())).collect();
                h.sort();
                let b = match &r.body {
                    RequestBody::None => "-".into(),
                    RequestBody::Bytes(b) => String::from_utf8_lossy(b).to_string(),
                    RequestBody::Stream(_) => "(stream)".to_string(),
                };
                format!("{} {{{}}} {b}", describe(&op).0, h.join(", "))
            }
            _ => describe(&op).0,
        };
        let w = self.0.clone();
        Box::pin(async move {
            let r = Ops(w.clone()).handle(op).await;
            let mut i = w.i.lock().unwrap();
            if let Some(l) = i.started.last_mut() {
                *l = full;
            }
            r
        })
    }
    fn handle_log(&self, level: LogLevel, message: String) {
        Ops(self.0.clone()).handle_log(level, message)
    }
}
/// Answers of the host, with what the worker has to see of them (null: a rejection with the given message).
struct Answers(Arc<World>, std::sync::Mutex<Option<OperationResult>>);
impl OperationsHandler for Answers {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let w = self.0.clone();
        let r = self.1.lock().unwrap().take();
        Box::pin(async move {
            w.pass(describe(&op).0).await;
            r.unwrap_or_else(|| OperationResult::Http(Ok(HttpResponse { status: 200, headers: vec![], body: ResponseBody::Bytes("after".into()) })))
        })
    }
    fn handle_log(&self, level: LogLevel, message: String) {
        Ops(self.0.clone()).handle_log(level, message)
    }
}
fn opvals(p: &Params) {
    use serde_json::{json, Value};
    let host = p.s("host");
    let what = super::resp::pick(p, "what", &["kvalue", "kkeys", "body", "head", "list", "rows", "http", "err"]);
    let strings = ["", "a", "\u{e9}\u{0}\u{1f600}\u{2028}", "line\nbreak\\\"'`${x}", "null", "__proto__"];
    let none: Result<Value, String> = Ok(Value::Null);
    let bin = |b: &[u8]| json!(b);
    // (expression whose value is shown as JSON, what the host answers, what has to be seen)
    let (expr, answer, want): (String, OperationResult, Result<Value, String>) = match what.as_str() {
        "kvalue" => {
            let mut vals = vec![json!(null), json!(true), json!(false), json!(0), json!(-1.5), json!(1e300), json!(9007199254740991u64), json!([]), json!({}), json!([[], [null], [[1]]]), json!({"a": {"b": [1, {"": null}]}}), json!({"then": "x", "error": "y", "success": false}), json!({"__proto__": 1, "constructor": 2})];
            vals.extend(strings.iter().map(|s| json!(s)));
            vals.extend(strings.iter().map(|s| json!({ *s: s })));
            if mc::free(2, "present") == 0 {
                let v = mc::pick(&vals, "value").clone();
                ("env.KV.get('k')".into(), OperationResult::Kv(KvResult::Value(Some(v.clone()))), Ok(v))
            } else {
                ("env.KV.get('k')".into(), OperationResult::Kv(KvResult::Value(None)), none)
            }
        }
        "kkeys" | "list" => {
            let n = mc::free(4, "count");
            let keys: Vec<String> = (0..n).map(|_| mc::pick(&strings, "key").to_string()).collect();
            if what == "kkeys" {
                ("env.KV.list()".into(), OperationResult::Kv(KvResult::Keys(keys.clone())), Ok(json!(keys)))
            } else {
                let truncated = mc::free(2, "truncated") == 1;
                ("env.STORE.list()".into(), OperationResult::Storage(StorageResult::List { keys: keys.clone(), truncated }), Ok(json!({ "keys": keys, "truncated": truncated })))
            }
        }
        "body" => {
            let b = match mc::free(strings.len() + 1, "body") {
                0 => None,
                i => Some(strings[i - 1].to_string()),
            };
            ("env.STORE.get('k')".into(), OperationResult::Storage(StorageResult::Body(b.clone().map(|s| s.into_bytes()))), Ok(json!(b)))
        }
        "head" => {
            let size = *mc::pick(&[0u64, 1, 4294967296, 9007199254740991], "size");
            let etag = match mc::free(strings.len() + 1, "etag") {
                0 => None,
                i => Some(strings[i - 1].to_string()),
            };
            let w = match &etag {
                Some(e) => json!({ "size": size, "etag": e }),
                None => json!({ "size": size }),
            };
            ("env.STORE.head('k')".into(), OperationResult::Storage(StorageResult::Head { size, etag }), Ok(w))
        }
        "rows" => {
            let rows = vec![json!([]), json!([{ "a": 1 }]), json!([{ "a": null, "b": true, "c": -0.5, "d": "\u{e9}\u{0}\u{1f600}\u{2028}" }, {}]), json!([{ "__proto__": 1, "": [[]] }]), json!([[1, 2], "x", null])];
            let r = mc::pick(&rows, "rows").clone();
            ("env.DB.query('q')".into(), OperationResult::Database(DatabaseResult::Rows(r.to_string())), Ok(r))
        }
        "http" => {
            let who = *mc::pick(&["fetch('http://h/x')", "env.ASSETS.fetch('http://h/x')", "env.OTHER.fetch('http://h/x')", "env.STORE.fetch('http://h/x')"], "who");
            let status = *mc::pick(&[200u16, 201, 204, 301, 304, 400, 404, 500, 599], "status");
            let headers: Vec<(String, String)> = mc::pick(&[vec![], vec![("a", "1")], vec![("A-b", "x y"), ("set-cookie", "p=1"), ("set-cookie", "q=2; Path=/")], vec![("v", ""), ("w", "caf\u{e9}")], vec![("x", "1"), ("x", "2")]], "headers").iter().map(|h| (h.0.to_string(), h.1.to_string())).collect();
            let bytes: Vec<u8> = vec![0, 255, 10, 195, 169, 200];
            let no_body = matches!(status, 204 | 304);
            let kind = mc::free(if no_body { 1 } else { 7 }, "body");
            let part = |b: &[u8]| Ok::<_, String>(bytes::Bytes::copy_from_slice(b));
            let stream = |v: Vec<Result<bytes::Bytes, String>>| {
                let (tx, rx) = tokio::sync::mpsc::channel(8);
                for x in v {
                    tx.try_send(x).unwrap();
                }
                ResponseBody::Stream(rx)
            };
            let (body, seen): (ResponseBody, Result<Vec<u8>, String>) = match kind {
                0 => (ResponseBody::None, Ok(vec![])),
                1 => (ResponseBody::Bytes(bytes.clone().into()), Ok(bytes)),
                2 => (ResponseBody::Bytes(Default::default()), Ok(vec![])),
                3 => (stream(vec![part(&bytes[..2]), part(&[]), part(&bytes[2..])]), Ok(bytes)),
                4 => (stream(vec![]), Ok(vec![])),
                5 => (stream(vec![part(&bytes), Err("lost \u{e9}".into())]), Err("lost \u{e9}".into())),
                _ => (stream(vec![part(&bytes), Err("".into())]), Err("".into())),
            };
            let mut hs: Vec<(String, Vec<String>)> = vec![];
            for (k, v) in &headers {
                let k = k.to_lowercase();
                match hs.iter_mut().find(|h| h.0 == k && k != "set-cookie") {
                    Some(h) => h.1.push(v.clone()),
                    None => hs.push((k, vec![v.clone()])),
                }
            }
            hs.sort();
            let hs: Vec<Value> = hs.into_iter().map(|(k, v)| json!([k, v.join(", ")])).collect();
            let r = HttpResponse { status, headers, body };
            let a = if who.contains("STORE") { OperationResult::Storage(StorageResult::Response(r)) } else { OperationResult::Http(Ok(r)) };
            let e = format!("{who}.then(async r => {{ const h = [...r.headers].sort((a, b) => a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : a[1] < b[1] ? -1 : 1); return [r instanceof Response, r.status, r.ok, h, [...new Uint8Array(await r.arrayBuffer())]]; }})");
            (e, a, seen.map(|b| json!([true, status, (200..300).contains(&status), hs, bin(&b)])))
        }
        _ => {
            let m = mc::pick(&strings, "message").to_string();
            let ops: Vec<(&str, fn(String) -> OperationResult)> = vec![
                ("fetch('http://h/x')", |m| OperationResult::Http(Err(m))),
                ("env.ASSETS.fetch('http://h/x')", |m| OperationResult::Http(Err(m))),
                ("env.OTHER.fetch('http://h/x')", |m| OperationResult::Http(Err(m))),
                ("env.STORE.fetch('http://h/x')", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.STORE.get('k')", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.STORE.put('k', 'v')", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.STORE.head('k')", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.STORE.list()", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.STORE.delete('k')", |m| OperationResult::Storage(StorageResult::Error(m))),
                ("env.KV.get('k')", |m| OperationResult::Kv(KvResult::Error(m))),
                ("env.KV.put('k', 1)", |m| OperationResult::Kv(KvResult::Error(m))),
                ("env.KV.delete('k')", |m| OperationResult::Kv(KvResult::Error(m))),
                ("env.KV.list()", |m| OperationResult::Kv(KvResult::Error(m))),
                ("env.DB.query('q')", |m| OperationResult::Database(DatabaseResult::Error(m))),
            ];
            let o = mc::pick(&ops, "operation");
            (o.0.to_string(), (o.1)(m.clone()), Err(m))
        }
    };
    let buffer = p.u("buffer", 16);
    driver(false, move |w| async move {
        let js = format!(
            "addEventListener('fetch', ev => ev.respondWith((async () => {{
               try {{ const v = await {expr}; console.log('ok ' + JSON.stringify(v)); }}
               catch (e) {{ console.log('err ' + (e instanceof Error) + JSON.stringify(e.message)); }}
               console.log('then ' + await (await fetch('http://h/ok:after')).text());
               return new Response('ok');
             }})()));"
        );
        let shown = format!("{answer:?}");
        let lim = RuntimeLimits { stream_buffer_size: buffer, ..limits() };
        let mut h = match Host::new(&host, Script::with_bindings(js, None, bindings()), Arc::new(Answers(w.clone(), std::sync::Mutex::new(Some(answer)))), lim).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let (ev, rx) = Event::fetch(get("http://x/"));
        let (_g, j) = super::resp::client(&w, rx, Client::Read);
        let r = h.exec(ev).await;
        j.abort();
        let logs: Vec<String> = w.logs().into_iter().map(|l| l.1).collect();
        let seen = logs.first().cloned().unwrap_or_default();
        let short = expr.split(".then").next().unwrap_or_default();
        match &want {
            Ok(v) => {
                let got: Option<Value> = seen.strip_prefix("ok ").and_then(|s| serde_json::from_str(s).ok());
                // numbers are compared as the worker's numbers
                fn same(a: &Value, b: &Value) -> bool {
                    match (a, b) {
                        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
                        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
                        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w))),
                        _ => a == b,
                    }
                }
                check!(got.as_ref().is_some_and(|g| same(g, v)), "value", "{short} answered with {shown}: {seen} instead of {v}");
            }
            Err(m) => {
                let got = seen.strip_prefix("err true").and_then(|s| serde_json::from_str::<String>(s).ok());
                check!(got.is_some_and(|g| g.contains(m.as_str())), "value", "{short} answered with {shown}: {seen} instead of an error about {m:?}");
            }
        }
        check!(logs.len() == 2 && logs[1] == "then after", "others-affected", "{short} answered with {shown}: {logs:?}, {r:?}");
        mc::outcome((short.to_string(), logs));
        drop(h);
    });
}
