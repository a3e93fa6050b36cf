//! Timers: the worker logs what it asks for and what runs; a monitor follows that log.
use super::resp::{driver, request, Client};
use super::wk::*;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::Arc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("timers", timers), ("delays", delays)]
}
const JS: &str = r#"
const ids = [], runs = [];
const log = s => console.log(s);
function set(kind, d, then) {
  const k = ids.length;
  runs[k] = 0;
  const f = function (...a) {
    log('run ' + k);
    if (k % 2 ? a.length : a.length != 2 || a[0] !== k || a[1] !== 'x') log('wrong arguments ' + k);
    runs[k]++;
    if (kind == 'I' && runs[k] >= 3) clear(k);
    if (then && runs[k] == 1) act(then, k);
  };
  if (kind == 'S') {
    const sg = AbortSignal.timeout(d);
    if (sg.aborted) log('wrong: aborted at once');
    sg.addEventListener('abort', () => { log(sg.aborted && sg.reason.name == 'TimeoutError' && runs[k]++ == 0 ? 'run ' + k : 'wrong reason ' + sg.reason); });
    ids.push(-1);
    return log('set ' + k + ' T ' + d);
  }
  const id = (kind == 'T' ? setTimeout : setInterval)(f, d, ...(k % 2 ? [] : [k, 'x']));
  if (!Number.isInteger(id) || id <= 0 || ids.includes(id)) log('wrong id ' + id);
  ids.push(id);
  log('set ' + k + ' ' + kind + ' ' + d);
}
function clear(k) {
  log('clear ' + k);
  (k % 2 ? clearInterval : clearTimeout)(k < ids.length ? ids[k] : 987654);
}
function act(a, self) {
  const v = Number(a.slice(1));
  switch (a[0]) {
    case 'x': throw new Error('callback failed');
    case 'r': Promise.reject(new Error('callback rejected')); break;
    case 's': clear(self); break;
    case 'c': clear(v); break;
    case 't': set('T', v); break;
    case 'i': set('I', v); break;
    case 'm': Promise.resolve().then(() => set('T', v)); break;
    case 'o': fetch('http://h/ok:x').then(() => set('T', v)); break;
  }
}
async function plan(list) {
  for (const s of list) {
    const m = /^([TIS])(\d+)(.*)$/.exec(s);
    if (m) set(m[1], Number(m[2]), m[3]);
    else if (s == 'A') await (await fetch('http://h/ok:x')).text();
    else if (s == 'M') await null;
    else act(s, 0);
  }
}
addEventListener('fetch', ev => {
  const l = ev.request.url.slice('http://x/'.length);
  ev.waitUntil(new Promise(r => setTimeout(r, 40)));
  ev.waitUntil(plan(l.split('.').filter(s => s)));
  ev.respondWith(new Response('ok'));
});
"#;
struct T {
    k: usize,
    ms: u64,
    due: u64,
    /// position in the order of starts
    start: usize,
    interval: bool,
}
/// follow the log: what ran was due exactly then, nothing that was due is missing
fn monitor(logs: &[(u64, String)], end: u64, ctx: &str) -> usize {
    let mut pending: Vec<T> = vec![];
    let mut ran = 0;
    for (n, (t, l)) in logs.iter().enumerate() {
        let v: Vec<&str> = l.split(' ').collect();
        let k = v.get(1).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
        if let Some(p) = pending.iter().find(|p| p.due < *t) {
            mc::violation("late", format!("{ctx}: timer {} was due at {} ms, but has not run at {t} ms", p.k, p.due));
            return ran;
        }
        match v[0] {
            "set" => {
                let ms: u64 = v[3].parse().unwrap();
                pending.push(T { k, ms, due: t + ms, start: n, interval: v[2] == "I" });
            }
            "clear" => pending.retain(|p| p.k != k),
            "run" => {
                ran += 1;
                let Some(i) = pending.iter().position(|p| p.k == k) else {
                    mc::violation("spurious", format!("{ctx}: timer {k} ran at {t} ms although it was cleared or had run before"));
                    return ran;
                };
                let p = pending.remove(i);
                check!(p.due == *t, "early", "{ctx}: timer {k} was due at {} ms, but ran at {t} ms", p.due);
                if let Some(q) = pending.iter().find(|q| q.due == *t && q.start < p.start && q.ms <= p.ms) {
                    mc::violation("order", format!("{ctx}: timer {k} ran at {t} ms before timer {}, which was started earlier and is due then, too", q.k));
                }
                if p.interval {
                    pending.push(T { due: t + p.ms, start: n, ..p });
                }
            }
            _ => {
                mc::violation("wrong", format!("{ctx}: {l} at {t} ms"));
            }
        }
    }
    if let Some(p) = pending.iter().find(|p| p.due < end) {
        mc::violation("lost", format!("{ctx}: timer {} was due at {} ms, but never ran (the execution ended at {end} ms)", p.k, p.due));
    }
    ran
}
fn timers(p: &Params) {
    let host = p.s("host");
    let a = p.s("alphabet");
    let a: Vec<&str> = a.split(',').collect();
    let n = 1 + mc::free(p.u("depth", 2), "length");
    let mut plan: Vec<String> = vec![];
    for _ in 0..n {
        plan.push(mc::pick(&a, "op").to_string());
    }
    let again = p.b("again");
    driver(p.b("preempt"), move |w| async move {
        let mut h = match Host::new(&host, Script::new(JS), Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let ctx = plan.join(" ");
        let (r, t, g, j) = request(&mut h, &w, &format!("http://x/{}", plan.join(".")), Client::Read).await;
        let _ = j.await;
        check!(r.is_ok() && g.lock().unwrap().bytes() == b"ok", "exec", "{ctx}: {r:?} {:?}", g.lock().unwrap());
        let logs = w.logs();
        let n = monitor(&logs, t, &ctx);
        if again {
            // nothing of it goes on in the next request, whose own timers work
            let (r, t, _, j) = request(&mut h, &w, "http://x/T5t5.I7", Client::Read).await;
            let _ = j.await;
            check!(r.is_ok(), "exec", "second request: {r:?}");
            let mut later = w.logs().split_off(logs.len());
            // timers are numbered on in the reused context
            let base = logs.iter().filter(|l| l.1.starts_with("set ")).count();
            for l in &mut later {
                let v: Vec<&str> = l.1.split(' ').collect();
                let k: usize = v[1].parse().unwrap_or(0);
                check!(k >= base || l.1.starts_with("clear"), "carried-over", "{ctx}: timer {k} of the first request ran during the second one, at {} ms", l.0);
            }
            monitor(&later, t, "second request");
        }
        mc::outcome((ctx, n, format!("{logs:?}")));
        drop(h);
    });
}
/// What a delay may be given as.
fn delays(p: &Params) {
    let host = p.s("host");
    let cases: &[(&str, Option<u64>)] = &[
        ("undefined", Some(0)), ("null", Some(0)), ("NaN", Some(0)), ("-1", Some(0)), ("-0", Some(0)), ("'7'", Some(7)), ("' 7 '", Some(7)), ("'x'", Some(0)), ("5.9", Some(5)), ("0.5", Some(0)),
        ("true", Some(1)), ("[]", Some(0)), ("[3]", Some(3)), ("({})", Some(0)), ("({ valueOf() { return 4; } })", Some(4)), ("new Date(6)", Some(6)),
        ("-Infinity", Some(0)), ("1e6", None), ("2147483647", None), ("4294967296 * 1000", None), ("Number.MAX_SAFE_INTEGER", None), ("1e19", None), ("1e300", None),
    ];
    let (arg, want) = *mc::pick(cases, "delay");
    let kind = *mc::pick(&["setTimeout", "setInterval"], "kind");
    if kind == "setInterval" && want == Some(0) {
        return;
    }
    let clear = *mc::pick(&["", "clearTimeout(undefined); clearTimeout(null); clearTimeout(NaN); clearTimeout(-1); clearTimeout(1.5); clearTimeout(1e300); clearTimeout({}); clearInterval('x'); clearTimeout();", "clearTimeout(String(id))"], "clear");
    driver(false, move |w| async move {
        let js = format!(
            "addEventListener('fetch', ev => {{ let n = 0;
               ev.waitUntil(new Promise(r => setTimeout(r, 40)));
               ev.respondWith(new Response('ok'));
               const id = {kind}(() => {{ console.log('run'); if (n++ == 2) clearInterval(id); }}, {arg}); {clear} }});"
        );
        let mut h = match Host::new(&host, Script::new(js), Arc::new(Ops(w.clone())), limits()).await {
            Ok(h) => h,
            Err(e) => return mc::violation("init", format!("{e:?}")),
        };
        let ctx = format!("{kind}(f, {arg}); {clear}");
        let (r, _, g, j) = request(&mut h, &w, "http://x/", Client::Read).await;
        let _ = j.await;
        let g = g.lock().unwrap().clone();
        check!(r.is_ok() && g.status == 200 && g.bytes() == b"ok", "exec", "{ctx}: {r:?} {g:?}");
        let got: Vec<u64> = w.logs().iter().map(|l| l.0).collect();
        let want: Vec<u64> = match want {
            _ if clear.contains("String") => vec![],
            None => vec![],
            Some(d) if kind == "setTimeout" => vec![d],
            Some(d) => vec![d, 2 * d, 3 * d],
        };
        check!(got == want, "delay", "{ctx}: runs at {got:?} instead of {want:?}");
        mc::outcome(ctx);
        drop(h);
    });
}
