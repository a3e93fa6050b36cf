//! Precompiled workers: a bundle of source and compiled code is that worker, whatever became of the
//! compiled code; what is not a whole bundle is refused.
use super::wk::*;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use openworkers_runtime_v8 as rt;
use std::collections::HashMap;
use std::sync::Arc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("bundle", bundle), ("precompiled", precompiled), ("not_a_bundle", not_a_bundle)]
}

/// What the format says, read without the code under test
fn parse(d: &[u8]) -> Option<(&str, &[u8])> {
    if d.len() < 8 || d[..4] != [0x5E, 0xCA, 0xDE, 0xC0] {
        return None;
    }
    let n = d[4] as u64 + (d[5] as u64) * 256 + (d[6] as u64) * 65536 + (d[7] as u64) * 16777216;
    if (d.len() - 8) as u64 >= n {
        Some((std::str::from_utf8(&d[8..8 + n as usize]).ok()?, &d[8 + n as usize..]))
    } else {
        None
    }
}

fn bundle(p: &Params) {
    const CH: &[char] = &['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '\0', '^'];
    const BY: &[u8] = &[0, 0x5E, 0xCA, 0xFF, 0x80];
    let mut s = String::new();
    for _ in 0..mc::free(p.u("len", 3) as usize + 1, "characters") {
        s.push(*mc::pick(CH, "character"));
    }
    // lengths whose encoding has more than one byte
    let s = match mc::free(4, "long") {
        0 => s,
        1 => s + &"x".repeat(253),
        2 => s + &"\u{20ac}".repeat(300),
        _ => s + &"y".repeat(65536),
    };
    let mut c = vec![];
    for _ in 0..mc::free(3, "bytes") {
        c.push(*mc::pick(BY, "byte"));
    }
    let d = rt::pack_code_cache(&s, &c);
    check!(parse(&d) == Some((&s, &c)), "packed", "{s:?} {c:?} is packed as {d:?}");
    let try_ = |d: &[u8], what: String| {
        let got = rt::unpack_code_cache(d);
        check!(got == parse(d), "unpacked", "{what}: unpacked as {got:?}, not {:?}", parse(d));
        check!(rt::is_code_cache(d) == (d.len() >= 8 && d[..4] == [0x5E, 0xCA, 0xDE, 0xC0]), "recognised", "{what}: is_code_cache() = {}", rt::is_code_cache(d));
    };
    check!(rt::unpack_code_cache(&d) == Some((&s, &c)), "round-trip", "{s:?} {c:?} comes back as {:?}", rt::unpack_code_cache(&d));
    let near = |i: usize| i < 40 || i + 40 > d.len();
    for n in (0..=d.len()).filter(|n| near(*n)) {
        try_(&d[..n], format!("the first {n} of {} bytes", d.len()));
    }
    for i in (0..d.len()).filter(|n| near(*n)) {
        let mut e = d.clone();
        let values: Vec<u8> = if i < 8 { (0..=255).collect() } else { vec![0, 0x7F, 0x80, 0xC3, 0xE2, 0xF0, 0xFF, d[i] ^ 1, d[i] ^ 0x80] };
        for v in values {
            e[i] = v;
            try_(&e, format!("byte {i} of {} is {v}", d.len()));
        }
    }
    for extra in [1, 8, 300] {
        let mut e = d.clone();
        e.resize(d.len() + extra, 0xAA);
        try_(&e, format!("{extra} more bytes"));
    }
}

/// (source, path asked for)
const SCRIPTS: &[(&str, &str)] = &[
    ("classic", r#"
console.log('top', typeof env, env.NAME);
const re = /(?<y>\d{4})-(\d+)/u, tag = (s, ...v) => s.raw.join('|') + v.join(',');
class Base { #n = 1; static s = 'st'; get n() { return this.#n++; } *gen() { yield this.n; yield* [this.n, this.n]; } }
class Derived extends Base { constructor(x) { super(); this.x = x; } toString() { return `${this.x}:${[...this.gen()]}`; } }
async function* slow() { for (let i = 0; i < 3; i++) { await new Promise(r => setTimeout(r, 5)); yield i; } }
function never() { return (function inner(a = 1, { b = 2, ...rest } = {}) { return () => a + b + rest.c; })(...arguments); }
addEventListener('fetch', ev => ev.respondWith((async () => {
  const out = [new Derived('d') + '', Base.s, '2024-05'.match(re).groups.y, tag`a${1}\n${2}`, never(3, { c: 4 })()];
  for await (const i of slow()) out.push(i);
  try { null.x; } catch ({ message }) { out.push(message); } finally { out.push('f'); }
  out.push(await (await fetch('http://h/ok:hello')).text(), env.NAME, 10n ** 20n, [1, [2]].flat(), new Date(0).toISOString());
  console.log('handled', out.length);
  return new Response(out.join(' '), { status: 201, headers: { 'x-a': 'b' } });
})()));
addEventListener('task', ev => ev.respondWith({ success: true, data: { p: ev.payload, n: never(1, { c: 2 })() } }));
"#),
    ("module", r#"
let n = 0;
const helper = { async text() { return 'n=' + ++n; } };
globalThis.default = {
  async fetch(request, env, ctx) { ctx.waitUntil((async () => { await 0; console.log('after', n); })()); return new Response(await helper.text() + env.NAME + new URL(request.url).pathname); },
  async task(event) { return { n: ++n, payload: event.payload }; },
};
console.log('module');
"#),
    ("unicode", "const caf\u{e9} = '\u{20ac}\u{1f600}\\u{1f600}', \u{3b1} = `\u{4e2d}\u{6587} ${caf\u{e9}.length}`; // \u{1f4a9}\nconsole.log(caf\u{e9}, \u{3b1}); addEventListener('fetch', e => { class \u{416} {} e.respondWith(new Response(caf\u{e9} + \u{3b1} + \u{416}.name)); }); addEventListener('task', e => e.respondWith({ success: true, data: caf\u{e9} }));"),
    ("latin", "const caf\u{e9} = 'caf\u{e9}'; addEventListener('fetch', e => e.respondWith(new Response(caf\u{e9}.length + caf\u{e9}))); addEventListener('task', e => { throw new Error(caf\u{e9}); });"),
    ("strict", "'use strict'; let r; try { undefinedName = 1; r = 'sloppy'; } catch (e) { r = e.name; } addEventListener('fetch', function (e) { e.respondWith(new Response(r + typeof (function () { return this; })())); }); addEventListener('task', e => { undefinedTask = 1; });"),
    ("sloppy", "var g = 1; function hoisted() { return g2; } leaked = 5; var g2 = globalThis.g; addEventListener('fetch', e => e.respondWith(new Response([hoisted(), globalThis.leaked, typeof this].join()))); addEventListener('task', e => { e.respondWith({ success: true, data: hoisted() }); });"),
    ("throws", "console.log('before'); function f() { throw new TypeError('at the top'); } f(); console.log('after');"),
    ("throwstr", "console.log('before'); throw 'a string';"),
    ("empty", ""),
    ("later", "setTimeout(() => console.log('timer'), 3); Promise.resolve().then(() => console.log('micro')); queueMicrotask(() => console.log('queued')); addEventListener('fetch', async e => { e.respondWith(new Promise(r => setTimeout(() => r(new Response('late')), 10))); }); addEventListener('task', e => e.waitUntil(new Promise(r => setTimeout(r, 10))));"),
    ("rejects", "addEventListener('fetch', e => e.respondWith(Promise.reject(new Error('no answer')))); addEventListener('task', async e => { await 0; throw new RangeError('no result'); });"),
    ("syntax", "console.log('never'); addEventListener('fetch', e => { e.respondWith(new Response('x')) );"),
    ("dup", "let a = 1; let a = 2;"),
];

async fn observe(host: &str, id: &str, code: WorkerCode, task: bool, rounds: usize) -> Vec<String> {
    let w = World::new(false);
    use_env(&w, false);
    let env: HashMap<String, String> = [("NAME".to_string(), "v\u{e9}lo".to_string())].into();
    let script = Script { code, env: Some(env), bindings: vec![] };
    let mut out = vec![];
    let h = Host::new(host, script, Arc::new(Ops(w.clone())), limits()).await;
    let told = |e: &TerminationReason| match e {
        // the text around the message differs with the way it was found
        TerminationReason::Exception(m) => format!("exception {}", ["TypeError: at the top", "a string", "SyntaxError", "no answer", "no result", "caf\u{e9}", "undefinedTask"].iter().find(|s| m.contains(**s)).copied().unwrap_or(m)),
        e => format!("{e:?}"),
    };
    match h {
        Err(e) => out.push(format!("load: {}", told(&e))),
        Ok(mut h) => {
            // (an isolate of its own: V8 remembers what it compiled)
            if let Host::Pinned { id: i, owner, .. } = &mut h {
                (*i, *owner) = (id.into(), id.into());
            }
            for _ in 0..rounds {
                if task {
                    let (ev, rx) = Event::task("t1".into(), Some(serde_json::json!({ "k": [1] })), None, 1);
                    let r = h.exec(ev).await;
                    out.push(match r { Ok(()) => "done".into(), Err(e) => format!("load: {}", told(&e)) });
                    out.push(match rx.await { Ok(r) => format!("task {} {:?} {:?}", r.success, r.data, r.error), Err(_) => "no result".into() });
                } else {
                    let (ev, rx) = Event::fetch(get("http://x/path"));
                    let body = tokio::spawn(async move {
                        let r = rx.await.ok()?;
                        let (s, hs) = (r.status, format!("{:?}", r.headers));
                        Some(format!("{s} {hs} {:?}", r.body.collect().await.map(|b| String::from_utf8_lossy(&b).to_string())))
                    });
                    let r = h.exec(ev).await;
                    out.push(match r { Ok(()) => "done".into(), Err(e) => format!("load: {}", told(&e)) });
                    out.push(format!("{:?}", body.await.unwrap()));
                }
            }
        }
    }
    for (_, l) in w.logs() {
        out.push(format!("log {l}"));
    }
    out
}

fn precompiled(p: &Params) {
    let host = p.s("host");
    let task = p.b("task");
    let only = p.s("script");
    let (name, src) = if only.is_empty() { *mc::pick(SCRIPTS, "script") } else { *SCRIPTS.iter().find(|s| s.0 == only).unwrap() };
    let what = p.s("what");
    let rounds = p.u("rounds", 1) as usize;
    crate::util::on_fresh_thread(move || {
        let own = rt::create_code_cache(src);
        check!(own.is_ok() == !matches!(name, "syntax" | "dup"), "compiled", "{name}: {:?}", own.as_ref().map(|c| c.len()));
        let own = own.unwrap_or_default();
        let mut damage = None;
        let cache = match what.as_str() {
            "cut" => {
                let n = mc::free(own.len(), "cut");
                damage = Some(format!("{n} of {} bytes of compiled code", own.len()));
                own[..n].to_vec()
            }
            "grown" => {
                let n = 1 + mc::free(40, "more");
                damage = Some(format!("{n} bytes after the compiled code"));
                let mut c = own.clone();
                c.resize(own.len() + n, 0x11);
                c
            }
            "header" => {
                // version, source, flags and lengths of the compiled code, as V8 checks them
                let (i, bit) = (mc::free(p_header(&own), "byte"), mc::free(8, "bit"));
                damage = Some(format!("bit {bit} of byte {i} of the compiled code"));
                let mut c = own.clone();
                c[i] ^= 1 << bit;
                c
            }
            _ => match mc::free(6, "cache") {
                0 => own.clone(),
                1 => { damage = Some("no compiled code".into()); vec![] }
                2 => { damage = Some("zeros".into()); vec![0; own.len()] }
                3 => { damage = Some("0xFF".into()); vec![0xFF; 200] }
                4 => { damage = Some("the source as compiled code".into()); src.as_bytes().to_vec() }
                _ => { damage = Some("compiled code of another source".into()); rt::create_code_cache(&format!("{} // {src}\nconsole.log('of another');", "other ".repeat(10).replace(' ', "_") + "; var other_other_other_other_other_other_other_other_other_other_ = 1;")).unwrap_or_else(|_| rt::create_code_cache("console.log('of another');").unwrap()) }
            },
        };
        let bundle = rt::pack_code_cache(src, &cache);
        env::run(async move {
            let plain = observe(&host, "plain", WorkerCode::JavaScript(src.into()), task, rounds).await;
            let pre = observe(&host, "precompiled", WorkerCode::Snapshot(bundle), task, rounds).await;
            for l in &pre {
                mc::event(l.clone());
            }
            check!(plain == pre, "same", "{name} with {}: {pre:?}, the source itself: {plain:?}", damage.unwrap_or("its compiled code".into()));
        })
    });
}
fn p_header(own: &[u8]) -> usize {
    own.len().min(24)
}

/// What is not a bundle runs nothing, and leaves nothing behind
fn not_a_bundle(p: &Params) {
    let host = p.s("host");
    crate::util::on_fresh_thread(move || {
        let src = "console.log('ran'); /* \u{20ac} */ addEventListener('fetch', e => e.respondWith(new Response('r')));";
        let good = rt::pack_code_cache(src, &rt::create_code_cache(src).unwrap());
        let end = 8 + src.len();
        let (bad, what): (Vec<u8>, String) = match mc::free(6, "damage") {
            0 => { let n = mc::free(end, "cut"); (good[..n].to_vec(), format!("the first {n} bytes")) }
            1 => { let b = mc::free(32, "bit"); let mut d = good.clone(); d[b / 8] ^= 1 << (b % 8); (d, format!("bit {b} of the magic number")) }
            2 => { let b = 12 + mc::free(20, "bit"); let mut d = good[..end].to_vec(); d[4 + b / 8] ^= 1 << (b % 8); (d, format!("bit {b} of the length")) }
            3 => { let i = src.find('\u{20ac}').unwrap() + mc::free(3, "byte"); let mut d = good.clone(); d[8 + i] = 0xFF; (d, "a byte of the source that is not UTF-8".into()) }
            4 => { let b = src.find('\u{20ac}').unwrap() + 1 + mc::free(2, "byte"); let mut d = good.clone(); d[4..8].copy_from_slice(&(b as u32).to_le_bytes()); (d, "a length that ends within a character".into()) }
            _ => (src.as_bytes().to_vec(), "the bare source".into()),
        };
        env::run(async move {
            let w = World::new(false);
            use_env(&w, false);
            for (n, code) in [bad.clone(), good.clone(), bad.clone()].into_iter().enumerate() {
                let before = w.logs().len();
                let r = Host::new(&host, Script::new(WorkerCode::Snapshot(code)), Arc::new(Ops(w.clone())), limits()).await;
                let (r, got) = match r {
                    Err(e) => (Err(e), None),
                    Ok(mut h) => {
                        if let Host::Pinned { version, owner, .. } = &mut h {
                            (*version, *owner) = (n as i32, format!("o{}", n / 2));
                        }
                        let (ev, rx) = Event::fetch(get("http://x/"));
                        let r = h.exec(ev).await;
                        let got = match rx.await { Ok(r) => r.body.collect().await.map(|b| String::from_utf8_lossy(&b).to_string()), Err(_) => None };
                        (r, got)
                    }
                };
                mc::event(format!("{n}: {r:?} {got:?}"));
                let ran = w.logs().len() - before;
                if n == 1 {
                    check!(r.is_ok() && got.as_deref() == Some("r") && ran == 1, "whole", "a whole bundle after {what}: {r:?} {got:?}");
                } else {
                    check!(r.is_err() && got.is_none() && ran == 0, "refused", "{what}: {r:?}, answer {got:?}, {ran} logs");
                }
            }
        })
    });
}
