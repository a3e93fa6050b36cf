//! Task events: what the handler is given, what is reported of it and when.
use super::resp::{driver, pick};
use super::{ops, wk::*};
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("task", task)]
}
const JS: &str = r#"
const log = s => console.log(s);
const later = ms => new Promise(f => setTimeout(f, ms));
const op = k => fetch('http://h/ok:' + k).then(r => r.text());
const ANSWERS = {
  nothing: () => {},
  v42: () => 42, vnull: () => null, vfalse: () => false, vtext: () => 'text', vzero: () => 0, vempty: () => '',
  vobj: () => ({ a: 1, b: [null, 'é'] }),
  vok: () => ({ success: true, data: [1] }), vfail: () => ({ success: false, error: 'E' }), vfaildata: () => ({ success: false, error: 'E', data: 5 }), vbare: () => ({ success: true }),
  rok: e => { e.respondWith({ success: true, data: [1] }) }, rfail: e => { e.respondWith({ success: false, error: 'E' }) }, rbare: e => { e.respondWith({ data: 'd' }) }, r7: e => { e.respondWith(7) }, rempty: e => { e.respondWith({}) },
  rfailv: e => { e.respondWith({ success: false, error: 'E' }); return 42 }, rokv: e => { e.respondWith({ success: true, data: 1 }); return { success: false, error: 'no' } }, rbarev: e => { e.respondWith({ success: true }); return 42 },
  rtwice: e => { e.respondWith(1); e.respondWith(2) },
  terror: () => { throw new Error('bad') }, ttext: () => { throw 'text' }, tnull: () => { throw null }, tundef: () => { throw undefined }, tempty: () => { throw new TypeError('') }, trange: () => null.x.y,
  thostile: () => { throw { get message() { throw new Error('no') } } }, tnoproto: () => { throw Object.create(null) },
  rthrow: e => { e.respondWith({ success: true, data: 1 }); throw new Error('bad') },
};
const WORK = {
  timer: () => later(5).then(() => log('done timer')),
  op: () => op('w').then(() => log('done op')),
  wait: () => later(40).then(() => log('done wait')),
  reject: () => Promise.reject(new Error('W')),
  late: () => later(7).then(() => { log('done late'); throw new Error('W') }),
  more: e => later(3).then(() => { log('done more'); e.waitUntil(later(4).then(() => log('done inner'))) }),
  value: () => 5,
  answer: e => later(2).then(() => { e.respondWith && e.respondWith({ success: true, data: 'late' }); log('done answer') }),
};
let calls = 0;
function handler(kind, e, ctx) {
  calls++;
  const { taskId, attempt, payload, scheduledTime } = e;
  const p = payload && payload.spec ? payload : globalThis.SPEC;
  log('call ' + kind + ' ' + calls + ' ' + JSON.stringify([taskId, attempt, payload, scheduledTime].map(x => x === undefined ? 'undefined' : x)));
  const [answer, when, work] = globalThis.SPEC;
  const w = { waitUntil: x => (ctx || e).waitUntil(x), respondWith: e.respondWith };
  const announce = () => { for (const k of work) w.waitUntil(WORK[k]({ waitUntil: w.waitUntil, respondWith: e.respondWith })) };
  const end = () => ANSWERS[answer](kind === 'scheduled' ? { respondWith() {} } : e);
  if (when === 'now') { announce(); return end() }
  if (when === 'timer') { announce(); return later(6).then(end) }
  if (when === 'op') { announce(); return op('h').then(end) }
  return (async () => { await later(1); announce(); await op('h'); return end() })();
}
"#;
fn style(s: &str) -> &'static str {
    match s {
        "listen" => "addEventListener('task', e => handler('task', e))",
        "listen-scheduled" => "addEventListener('scheduled', e => handler('scheduled', e))",
        "both" => "addEventListener('scheduled', e => handler('scheduled', e)); addEventListener('task', e => handler('task', e))",
        "module" => "globalThis.default = { task(e, env, ctx) { if (env !== globalThis.env) throw 1; return handler('task', e, ctx) } }",
        "module-event" => "globalThis.default = { async task(e) { return handler('task', e) } }",
        "module-scheduled" => "globalThis.default = { scheduled(e, env, ctx) { return handler('scheduled', e, ctx) } }",
        "module-both" => "globalThis.default = { task(e, env, ctx) { return handler('task', e, ctx) }, scheduled(e, env, ctx) { return handler('scheduled', e, ctx) } }",
        "listen-module-fetch" => "addEventListener('task', e => handler('task', e)); globalThis.default = { fetch() { return new Response('x') } }",
        "fetch" => "addEventListener('fetch', e => e.respondWith(new Response('x')))",
        "module-fetch" => "globalThis.default = { fetch() { return new Response('x') } }",
        _ => "",
    }
}
const STYLES: &[&str] = &["listen", "listen-scheduled", "both", "module", "module-event", "module-scheduled", "module-both", "listen-module-fetch"];
const UNHANDLED: &[&str] = &["fetch", "module-fetch", "nothing"];
const ANSWERS: &[&str] = &[
    "nothing", "v42", "vnull", "vfalse", "vtext", "vzero", "vempty", "vobj", "vok", "vfail", "vfaildata", "vbare", "rok", "rfail", "rbare", "r7", "rempty", "rfailv", "rokv", "rbarev", "rtwice", "terror", "ttext", "tnull", "tundef", "tempty", "trange",
    "thostile", "tnoproto", "rthrow",
];
const WHENS: &[&str] = &["now", "timer", "op", "async"];
const WORK: &[&str] = &["timer", "op", "wait", "reject", "late", "more", "value", "answer"];

/// what is reported: Ok(data), or Err(acceptable messages), and whether a response was given explicitly
fn answer(a: &str) -> Result<Option<Value>, Vec<&'static str>> {
    Ok(match a {
        "nothing" | "vnull" | "vbare" | "rempty" | "rbarev" => None,
        "v42" => Some(json!(42)),
        "vfalse" => Some(json!(false)),
        "vtext" => Some(json!("text")),
        "vzero" => Some(json!(0)),
        "vempty" => Some(json!("")),
        "vobj" => Some(json!({"a": 1, "b": [null, "é"]})),
        "vok" | "rok" => Some(json!([1])),
        "rbare" => Some(json!("d")),
        "r7" => Some(json!(7)),
        "rokv" => Some(json!(1)),
        "rtwice" => Some(json!(2)),
        "vfail" | "vfaildata" | "rfail" | "rfailv" => return Err(vec!["E"]),
        "terror" | "rthrow" => return Err(vec!["bad"]),
        "ttext" => return Err(vec!["text"]),
        "tnull" => return Err(vec!["null"]),
        "tundef" => return Err(vec!["undefined"]),
        "tempty" => return Err(vec!["TypeError", ""]),
        _ => return Err(vec![]),
    })
}
fn task(p: &Params) {
    let host = p.s("host");
    let unhandled = p.b("unhandled");
    let st = pick(p, "style", if unhandled { UNHANDLED } else { STYLES });
    let scheduled = st.contains("scheduled");
    let answers: Vec<&str> = ANSWERS.iter().copied().filter(|a| !scheduled || *a == "nothing" || *a == "v42" || a.starts_with('t')).collect();
    let (mut a, mut when, mut work) = (p.s("answer"), p.s("when"), vec![]);
    if unhandled {
        (a, when) = ("nothing".into(), "now".into());
    } else {
        if a.is_empty() || a.contains(',') {
            a = if a.is_empty() { mc::pick(&answers, "answer").to_string() } else { pick(p, "answer", &[]) };
        }
        if !answers.contains(&a.as_str()) {
            return; // a scheduled handler has nothing to respond to
        }
        if when.is_empty() || when.contains(',') {
            when = pick(p, "when", WHENS);
        }
        for _ in 0..p.u("work", 0) {
            let k = mc::free(WORK.len() + 1, "work");
            if k == 0 {
                break;
            }
            work.push(WORK[k - 1]);
        }
    }
    let (mut payload, mut source, mut attempt, mut id) = (None, Some(TaskSource::Invoke { origin: None }), 1, "t-1");
    if p.b("given") {
        payload = mc::pick(
            &[None, Some(Value::Null), Some(json!(5)), Some(json!("é\u{2028}\0\"")), Some(json!({"a": [1, null, {"b": -0.5}], "__proto__": {"x": 1}, "": ""})), Some(json!([])), Some(json!(false)), Some(json!(9007199254740991u64))],
            "payload",
        )
        .clone();
        source = mc::pick(&[None, Some(TaskSource::Invoke { origin: Some("o".into()) }), Some(TaskSource::Schedule { time: 1_700_000_000_123 }), Some(TaskSource::Schedule { time: 0 })], "source").clone();
        attempt = *mc::pick(&[1, 0, 7, u32::MAX], "attempt");
        id = mc::pick(&["t-1", "", "é\u{1F600}"], "id");
    }
    let rounds = p.u("rounds", 1);
    let spec = json!([a, when, work]);
    let code = format!("globalThis.SPEC = {spec};\n{JS}\n{}", style(&st));
    driver(p.b("preempt"), move |w| async move {
        let sc = Script { bindings: ops::bindings(), ..Script::new(code.as_str()) };
        let mut h = match Host::new(&host, sc, Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        for round in 1..=rounds {
            let ctx = format!("{st}: answer {a} ({when}), work {work:?}, event {} of the worker", round);
            let from = w.logs().len();
            let (t, rx) = Event::task(id.to_string(), payload.clone(), source.clone(), attempt);
            // what had been logged when the result was reported
            let got = Arc::new(Mutex::new(None));
            let (g, wr) = (got.clone(), w.clone());
            let j = tokio::spawn(async move {
                let r = rx.await;
                *g.lock().unwrap() = Some((r.ok(), wr.logs().len()));
            });
            let t0 = w.now();
            let r = h.exec(t).await;
            mc::event(format!("[{} ms] exec: {r:?}", w.now()));
            let logs: Vec<String> = w.logs()[from..].iter().map(|l| l.1.clone()).filter(|l| l.contains("call ") || l.contains("done ")).collect();
            let _ = j.await;
            let (res, at) = got.lock().unwrap().take().unwrap();
            mc::event(format!("result: {res:?}"));
            let took = w.now() - t0;
            if unhandled {
                check!(took < 500, "unhandled", "{ctx}: took {took} ms to find that nobody handles it");
                check!(r.is_err() || res.as_ref().is_some_and(|r| !r.success), "unhandled", "{ctx}: reported as {res:?}");
                continue;
            }
            check!(r.is_ok(), "exec", "{ctx}: {r:?}");
            let Some(res) = res else { return mc::violation("no-result", format!("{ctx}: nothing was reported")) };
            // the handler was called once, with what was given
            let js = |v: Value| v.to_string();
            let kind = if scheduled { "scheduled" } else { "task" };
            let undef = || json!("undefined");
            let time = match &source {
                Some(TaskSource::Schedule { time }) => json!(time),
                _ => undef(),
            };
            let args: Value = if st == "listen-scheduled" && host != "x" { json!([undef(), undef(), undef(), time]) } else { json!([id, attempt, payload.clone().unwrap_or(undef()), time]) };
            let calls: Vec<&String> = logs.iter().filter(|l| l.contains("call ")).collect();
            check!(calls.len() == 1, "calls", "{ctx}: the handler was called {} times", calls.len());
            let c = calls.first().map(|c| c[c.find("call ").unwrap()..].to_string()).unwrap_or_default();
            let (head, rest) = c.split_at(c.find('[').unwrap_or(0));
            let n = head.split(' ').nth(2).unwrap_or("").parse::<usize>().unwrap_or(0);
            check!(head.starts_with(&format!("call {kind} ")) && n >= 1, "calls", "{ctx}: {c}");
            let have: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
            // a handler for scheduled events need only be told the time
            check!(have == args || (scheduled && have[3] == args[3]), "event", "{ctx}: the handler was given {rest} instead of {}", js(args));
            // the work was done before the result was reported
            let mut want = vec![];
            for k in &work {
                match *k {
                    "timer" | "op" | "wait" | "late" | "answer" => want.push(format!("done {k}")),
                    "more" => want.extend(["done more".to_string(), "done inner".into()]),
                    _ => {}
                }
            }
            let mut done: Vec<String> = logs.iter().filter(|l| l.contains("done ")).map(|l| l[l.find("done ").unwrap()..].to_string()).collect();
            done.sort();
            want.sort();
            check!(done == want, "work", "{ctx}: of the announced work {want:?} only {done:?} was done when the execution ended");
            check!(at >= from + logs.len(), "early", "{ctx}: the result was reported before the announced work was done");
            // the result
            let failing = work.iter().any(|k| *k == "reject" || *k == "late");
            let late = work.contains(&"answer") && !scheduled;
            match (answer(&a), failing) {
                (Ok(_), true) => check!(!res.success && res.error.as_deref() == Some("W"), "result", "{ctx}: reported {res:?} although announced work failed"),
                (Err(mut m), f) => {
                    let any = m.is_empty();
                    if f {
                        m.push("W");
                    }
                    // an answer given later, by announced work, may replace the first, but hides no exception
                    let replaced = late && !a.starts_with('t') && a != "rthrow" && !f && res.success && res.data == Some(json!("late"));
                    check!(replaced || (!res.success && (any || res.error.as_deref().is_some_and(|e| m.contains(&e)))), "result", "{ctx}: reported {res:?} instead of failure {m:?}");
                }
                (Ok(d), false) => {
                    let d = if scheduled { None } else { d };
                    let replaced = late && res.data == Some(json!("late"));
                    check!(res.success && (res.data == d || replaced), "result", "{ctx}: reported {res:?} instead of {d:?}");
                }
            }
            check!(took < 200, "slow", "{ctx}: took {took} ms");
        }
        if host == "pinned" {
            let s = openworkers_runtime_v8::get_local_pool_stats().unwrap();
            check!(s.in_use == 0, "leak", "{} isolates stay in use", s.in_use);
        }
        mc::outcome((spec.to_string(), format!("{:?}", w.logs())));
    });
}
