//! The environment of a worker: exactly what was configured, whatever the worker tries to do to it.
use super::resp::{driver, request, Client};
use super::wk::*;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("envs", envs)]
}
const JS: &str = r#"
const describe = () => {
  const out = [];
  for (const n of Reflect.ownKeys(env)) {
    const v = env[n], d = Object.getOwnPropertyDescriptor(env, n);
    out.push([String(n), v !== null && typeof v === 'object' ? Object.keys(v).sort() : v]);
    if (!d.enumerable || d.writable || d.configurable || d.get) out.push(['flags of ' + String(n), JSON.stringify(d)]);
  }
  if (!Object.isFrozen(env)) out.push(['not frozen', 1]);
  if (Object.getPrototypeOf(env) !== Object.prototype) out.push(['prototype', 1]);
  const d = Object.getOwnPropertyDescriptor(globalThis, 'env');
  if (!d || d.writable || d.configurable || d.value !== env) out.push(['not read-only', JSON.stringify(d)]);
  return JSON.stringify(out.sort((a, b) => a[0] < b[0] ? -1 : 1));
};
const first = env, text = describe();
const evil = { A: 'evil', fetch() { return 'evil' } };
const names = () => [...Object.keys(first), 'A', 'NEW', '__proto__', 'toString'];
const ATTACKS = {
  none: () => {},
  set: () => names().map(n => () => { env[n] = 'evil' }),
  strictset: () => names().map(n => () => { 'use strict'; env[n] = 'evil' }),
  remove: () => names().map(n => () => { delete env[n] }),
  define: () => names().map(n => () => Object.defineProperty(env, n, { value: 'evil' })),
  getter: () => names().map(n => () => env.__defineGetter__(n, () => 'evil')),
  proto: () => [() => Object.setPrototypeOf(env, evil), () => { env.__proto__ = evil }],
  assign: () => [() => Object.assign(env, evil)],
  replace: () => [() => { globalThis.env = evil }, () => { env = evil }, () => { 'use strict'; env = evil }, () => Reflect.set(globalThis, 'env', evil)],
  redefine: () => [() => Object.defineProperty(globalThis, 'env', { value: evil }), () => Object.defineProperty(globalThis, 'env', { get: () => evil, configurable: true }), () => globalThis.__defineGetter__('env', () => evil)],
  drop: () => [() => { delete globalThis.env }, () => { Reflect.deleteProperty(globalThis, 'env') }],
  eval: () => [() => (0, eval)('var env = 5; env'), () => (0, eval)('env = 5')],
  thaw: () => [() => { Object.isFrozen = () => true; Object.freeze = x => x }],
};
async function handler(given, url) {
  const log = s => console.log(s);
  const attack = url.slice('http://x/'.length);
  for (const f of ATTACKS[attack]() || []) try { f(); } catch {}
  if (env !== first) log('another object');
  if (given !== undefined && given !== first) log('given another object');
  if (describe() !== text) log('changed');
  log('env ' + describe());
  for (const [n, b] of Object.entries(env)) {
    if (typeof b !== 'object') continue;
    if (b.query) log(n + ' ' + JSON.stringify(await b.query('ok:q', [])));
    else if (b.head) { log(n + ' ' + await b.get('ok:s')); log(n + ' ' + await (await b.fetch('http://h/ok:f')).text()); }
    else if (b.get) log(n + ' ' + await b.get('ok:k'));
    else log(n + ' ' + await (await b.fetch('http://h/ok:f')).text());
  }
  return new Response('ok');
}
"#;
fn script_of(style: usize) -> &'static str {
    [
        "addEventListener('fetch', e => e.respondWith(handler(undefined, e.request.url)))",
        "globalThis.default = { fetch(r, env) { return handler(env, r.url) } }",
        "addEventListener('fetch', e => e.respondWith(handler(undefined, e.request.url))); for (const k of ['set', 'define', 'proto', 'replace', 'redefine', 'drop']) for (const f of ATTACKS[k]()) try { f() } catch {}",
    ][style]
}
const NAMES: &[&str] = &["A", "", "__proto__", "toString", "a-b \"'\\`${x}", "é\u{2028}\u{1F600}", "7", "\0", "constructor", "</script>\n"];
const VALUES: &[&str] = &["v", "", "\"'\\`${1}\\u0041\n\r\u{2028}\u{2029}", "é\u{1F600}\u{FFFD}", "\0\u{7f}", "{\"json\":[1]}", "__proto__", "123"];
const TYPES: &[&str] = &["Assets", "Storage", "Kv", "Database", "Worker"];
const ATTACKS: &[&str] = &["none", "set", "strictset", "remove", "define", "getter", "proto", "assign", "replace", "redefine", "drop", "eval", "thaw"];

fn binding(name: &str, t: &str) -> BindingInfo {
    let t = match t {
        "Assets" => BindingType::Assets,
        "Storage" => BindingType::Storage,
        "Kv" => BindingType::Kv,
        "Database" => BindingType::Database,
        _ => BindingType::Worker,
    };
    BindingInfo::new(name, t)
}
fn envs(p: &Params) {
    let host = p.s("host");
    let style = mc::free(3, "style");
    let names = &NAMES[..p.u("names", NAMES.len())];
    let values = &VALUES[..p.u("values", VALUES.len())];
    let mut env = None;
    let mut want: BTreeMap<String, Value> = BTreeMap::new();
    let mut types: BTreeMap<String, &str> = BTreeMap::new();
    if mc::free(2, "env") == 1 {
        let mut m = HashMap::new();
        for _ in 0..p.u("vars", 1) {
            let n = mc::free(names.len() + 1, "name");
            if n == 0 {
                break;
            }
            let v = mc::pick(values, "value");
            m.insert(names[n - 1].to_string(), v.to_string());
            want.insert(names[n - 1].into(), json!(v));
        }
        env = Some(m);
    }
    let mut binds = vec![];
    for _ in 0..p.u("bindings", 1) {
        let t = mc::free(TYPES.len() + 1, "type");
        if t == 0 {
            break;
        }
        let n = mc::pick(names, "binding");
        let t = TYPES[t - 1];
        binds.push(binding(n, t));
        types.insert(n.to_string(), t);
        want.insert(
            n.to_string(),
            match t {
                "Assets" | "Worker" => json!(["fetch"]),
                "Storage" => json!(["delete", "fetch", "get", "head", "list", "put"]),
                "Kv" => json!(["delete", "get", "list", "put"]),
                _ => json!(["query"]),
            },
        );
    }
    let attacks: Vec<&str> = match p.u("attacks", 1) {
        0 => vec!["none"],
        n => (0..n).map(|_| *mc::pick(ATTACKS, "attack")).collect(),
    };
    let code = format!("{JS}\n{}", script_of(style));
    let what = format!("environment {want:?}, types {types:?}, style {style}");
    driver(false, move |w| async move {
        let script = Script { code: WorkerCode::JavaScript(code), env, bindings: binds };
        let mut h = match Host::new(&host, script, Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{what}: {e:?}")),
        };
        for a in attacks.iter().chain([&"none"]) {
            let (from, ops) = (w.logs().len(), w.i.lock().unwrap().started.len());
            let (r, _, g, j) = request(&mut h, &w, &format!("http://x/{a}"), Client::Read).await;
            let _ = j.await;
            let status = g.lock().unwrap().status;
            check!(r.is_ok() && status == 200, "failed", "{what}, {a}: {r:?} {status:?}");
            let logs: Vec<String> = w.logs()[from..].iter().map(|l| l.1.clone()).collect();
            let mut got: Vec<(String, Value)> = vec![];
            let mut used = BTreeMap::<String, Vec<String>>::new();
            for l in &logs {
                if let Some(t) = l.strip_prefix("env ") {
                    got = serde_json::from_str(t).unwrap_or_default();
                    got.sort_by(|a, b| a.0.cmp(&b.0));
                } else if let Some(n) = types.keys().filter(|n| l.starts_with(&format!("{n} "))).max_by_key(|n| n.len()) {
                    used.entry(n.clone()).or_default().push(l[n.len() + 1..].to_string());
                } else {
                    mc::violation("changed", format!("{what}, {a}: {l}"));
                }
            }
            let expect: Vec<(String, Value)> = want.clone().into_iter().collect();
            check!(got == expect, "env", "{what}, {a}: the worker sees {got:?}");
            let started: Vec<String> = w.i.lock().unwrap().started[ops..].to_vec();
            let mut ops: Vec<String> = vec![];
            for (n, t) in &types {
                let (o, r): (Vec<String>, Vec<&str>) = match *t {
                    "Assets" => (vec![format!("assets {n} GET http://h/ok:f")], vec!["f"]),
                    "Worker" => (vec![format!("worker {n} GET http://h/ok:f")], vec!["f"]),
                    "Storage" => (vec![format!("storage {n} {:?}", StorageOp::Get { key: "ok:s".into() }), format!("storage {n} {:?}", StorageOp::Fetch { key: "/ok:f".into() })], vec!["s", "f"]),
                    "Kv" => (vec![format!("kv {n} {:?}", KvOp::Get { key: "ok:k".into() })], vec!["k"]),
                    _ => (vec![format!("db {n} ok:q {:?}", Vec::<Value>::new())], vec!["[{\"v\":\"q\"}]"]),
                };
                ops.extend(o);
                check!(used.get(n).map(|u| u.as_slice()) == Some(&r.iter().map(|s| s.to_string()).collect::<Vec<_>>()), "result", "{what}, {a}: binding {n:?} gave {:?}", used.get(n));
            }
            let (mut s, mut o) = (started.clone(), ops.clone());
            s.sort();
            o.sort();
            check!(s == o, "operations", "{what}, {a}: operations {started:?}, expected {ops:?}");
        }
        mc::outcome(what);
        drop(h);
    });
}
