//! WebSockets: every message arrives once, in order, unchanged; a connection opens once and ends once.
use super::resp::pick;
use super::wk::*;
use crate::env;
use crate::{ModelFn, Params};
use mc::check;
use openworkers_core::*;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("ws", ws)]
}
const JS: &str = r#"
const sleep = ms => new Promise(r => setTimeout(r, ms));
const show = d => typeof d === 'string' ? 't:' + d : d instanceof ArrayBuffer ? 'b:' + [...new Uint8Array(d)] : 'other:' + typeof d;
function watch(ws, style, log, at) {
  const on = {
    open: e => log.push('open ' + ws.readyState),
    message: e => log.push('message ' + ws.readyState + ' ' + show(e.data)),
    error: e => log.push('error'),
    close: e => log.push('close ' + ws.readyState + ' ' + e.code + ' ' + e.reason + ' ' + e.wasClean),
  };
  for (const t of Object.keys(on)) {
    const f = e => { if (e.type !== t) log.push('type ' + e.type); on[t](e); at(t); };
    if (style === 'on') ws['on' + t] = f;
    else if (style === 'listen') ws.addEventListener(t, f);
    else { // others that come, go and throw
      const gone = () => log.push('removed ' + t);
      ws.addEventListener(t, gone);
      ws.addEventListener(t, () => { ws.removeEventListener(t, late); throw new Error('listener'); });
      ws.addEventListener(t, f);
      ws.addEventListener(t, f);
      const late = () => log.push('late ' + t);
      ws.addEventListener(t, late);
      ws.addEventListener(t, () => ws.addEventListener(t, never));
      const never = () => log.push('never ' + t);
      if (t === 'open' || t === 'close' || t === 'error') ; else ws.addEventListener(t, () => ws.removeEventListener(t, never));
      ws.removeEventListener(t, gone);
      ws['on' + t] = () => { throw new Error('on' + t); };
    }
  }
}
const buf = new Uint8Array([9, 1, 2, 255]).buffer;
const ACT = {
  nothing() {},
  text(ws) { ws.send('hi'); ws.send(''); ws.send('\u00e9\u0000\u{1f600}'); },
  bytes(ws) { ws.send(buf); ws.send(new Uint8Array(buf, 1, 2)); ws.send(new DataView(buf, 2)); },
  values(ws, log) { ws.send(7); ws.send(null); ws.send({ toString() { return 'obj'; } }); try { ws.send({ toString() { throw new Error('no'); } }); log.push('sent what throws'); } catch (e) { log.push('threw ' + e.message); } },
  close(ws) { ws.close(); },
  closeargs(ws) { ws.close(4001, 'b\u00e9'); },
  sendclose(ws) { ws.send('last'); ws.close(1000, 'done'); },
  closesend(ws) { ws.close(3000); ws.send('too late'); ws.close(4000, 'again'); },
  badclose(ws, log) { for (const a of [[999], [1001], [2999], [5000], ['x'], [NaN], [1000, 'x'.repeat(124)]]) { try { ws.close(...a); log.push('closed with ' + a); } catch (e) { log.push(e.name); } } },
};
async function work(how, style, when, act) {
  const log = [];
  let did = false, ended;
  const end = new Promise(r => ended = r);
  const go = () => { if (did) return; did = true; log.push('act'); try { ACT[act](ws, log); } catch (e) { log.push('act threw ' + e.name); } };
  let ws;
  const at = t => { if (when === t) go(); if (t === 'close') ended(); };
  if (how === 'new') {
    ws = new WebSocket('ws://h/sock');
    watch(ws, style, log, at);
    if (ws.readyState !== 0) log.push('state ' + ws.readyState);
  } else {
    let r;
    try { r = await fetch('http://h/sock', { headers: { Upgrade: 'websocket' } }); } catch (e) { log.push('refused ' + e); return log; }
    ws = r.webSocket;
    if (r.status !== 101) log.push('status ' + r.status);
    watch(ws, style, log, at);
    if (how === 'late') await sleep(5);
    ws.accept();
    if (when === 'open') go();
  }
  if (when === 'now') go();
  if (when === 'later') { await sleep(5); go(); }
  await Promise.race([end, sleep(200)]);
  await sleep(20);
  log.push('state ' + ws.readyState);
  return log;
}
addEventListener('fetch', e => e.respondWith((async () => { const [how, style, when, act] = e.request.url.slice('http://x/'.length).split('-'); return new Response(JSON.stringify(await work(how, style, when, act))); })()));
"#;
struct Peer {
    w: Arc<World>,
    script: Vec<WebSocketIncoming>,
    /// how the host answers the attempt
    answer: String,
    headers: Mutex<Vec<(String, bool)>>,
    reacts: bool,
    sent: Mutex<usize>,
    closed_by_worker: Mutex<bool>,
    received: Mutex<Vec<WebSocketOutgoing>>,
}
struct PeerOps(Arc<Peer>);
impl OperationsHandler for PeerOps {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let p = self.0.clone();
        Box::pin(async move {
            let Operation::WebSocketConnect { url, headers } = op else { return OperationResult::Ack };
            p.headers.lock().unwrap().push((url, headers.iter().any(|h| h.0.eq_ignore_ascii_case("upgrade"))));
            p.w.pass("connect".into()).await;
            match p.answer.as_str() {
                "refuse" => return OperationResult::WebSocket(Err("refused".into())),
                "odd" => return OperationResult::Ack,
                _ => {}
            }
            let (stx, srx) = mpsc::unbounded_channel();
            let (rtx, rrx) = mpsc::unbounded_channel();
            let p2 = p.clone();
            // the peer: sends its script, each message when the explorer says, then keeps, closes or drops the connection
            tokio::spawn(async move {
                let p = p2;
                let mut srx = srx;
                let script = p.script.clone();
                let mut next = 0;
                let mut gate = None;
                loop {
                    if gate.is_none() && next < script.len() {
                        gate = Some(p.w.gate(format!("peer {next}")));
                    }
                    tokio::select! {
                        biased;
                        m = srx.recv() => match m {
                            None => break,
                            Some(m) => {
                                mc::event(format!("[{} ms] peer got {m:?}", p.w.now()));
                                let c = match &m { WebSocketOutgoing::Close { code, reason } => Some((*code, reason.clone())), _ => None };
                                p.received.lock().unwrap().push(m);
                                if let Some((code, reason)) = c {
                                    *p.closed_by_worker.lock().unwrap() = true;
                                    if p.reacts {
                                        // completes the closing handshake
                                        p.w.pass("peer answers the close".into()).await;
                                        let _ = rtx.send(WebSocketIncoming::Closed { code, reason });
                                    } else {
                                        rtx.closed().await;
                                    }
                                    // what comes after is noted, too
                                    srx.close();
                                    while let Some(m) = srx.recv().await { p.received.lock().unwrap().push(m); }
                                    return;
                                }
                            }
                        },
                        _ = async { let _ = gate.as_mut().unwrap().await; }, if gate.is_some() => {
                            gate = None;
                            mc::event(format!("[{} ms] peer sends {:?}", p.w.now(), script[next]));
                            let last = matches!(script[next], WebSocketIncoming::Closed { .. });
                            let drops = script[next] == WebSocketIncoming::Text("(drop)".into());
                            if drops { next += 1; *p.sent.lock().unwrap() = next; break; }
                            let _ = rtx.send(script[next].clone());
                            next += 1;
                            *p.sent.lock().unwrap() = next;
                            if last { break; }
                        }
                    }
                }
                drop(rtx);
                while let Some(m) = srx.recv().await { p.received.lock().unwrap().push(m); }
            });
            OperationResult::WebSocket(Ok(WebSocketConnection { send_tx: stx, recv_rx: rrx }))
        })
    }
    fn handle_log(&self, _level: LogLevel, message: String) {
        self.0.w.log(message);
    }
}
fn ws(p: &Params) {
    let host = p.s("host");
    let how = pick(p, "how", &["new", "fetch", "late"]);
    let style = pick(p, "style", &["on", "listen", "many"]);
    let when = pick(p, "when", &["open", "message", "now", "later"]);
    let act = pick(p, "act", &["nothing", "text", "bytes", "values", "close", "closeargs", "sendclose", "closesend", "badclose"]);
    let answer = pick(p, "answer", &["accept", "refuse", "odd"]);
    let text = |s: &str| WebSocketIncoming::Text(s.into());
    let scripts: Vec<(&str, Vec<WebSocketIncoming>)> = vec![
        ("silent", vec![]),
        ("two", vec![text("a"), WebSocketIncoming::Binary(vec![0, 200, 7])]),
        ("odd", vec![text(""), text("\u{e9}\u{0}\u{1f600}"), WebSocketIncoming::Binary(vec![])]),
        ("closes", vec![text("a"), WebSocketIncoming::Closed { code: 4002, reason: "bye".into() }]),
        ("drops", vec![text("a"), text("(drop)")]),
        ("fails", vec![WebSocketIncoming::Error("broken".into()), WebSocketIncoming::Closed { code: 1006, reason: "".into() }]),
    ];
    let peer = pick(p, "peer", &["silent", "two", "odd", "closes", "drops", "fails"]);
    let script = if answer == "accept" { scripts.iter().find(|s| s.0 == peer).unwrap().1.clone() } else { vec![] };
    if answer != "accept" && peer != "silent" {
        return;
    }
    let reacts = answer == "accept" && mc::free(2, "peer reacts to close") == 0;
    let preempt = p.b("preempt");
    let rounds = p.u("rounds", 1);
    crate::util::on_fresh_thread(move || {
        env::run(async move {
            let w = World::new(true);
            use_env(&w, preempt);
            let mk = || Arc::new(Peer { w: w.clone(), script: script.clone(), answer: answer.clone(), headers: Mutex::default(), reacts, sent: Mutex::new(0), closed_by_worker: Mutex::new(false), received: Mutex::default() });
            let pr = mk();
            let ops: OperationsHandle = Arc::new(PeerOps(pr.clone()));
            let mut h = match Host::new(&host, Script::new(JS), ops, limits()).await {
                Ok(h) => h,
                Err(e) => return mc::violation("init", format!("{e:?}")),
            };
            for round in 0..rounds {
                pr.received.lock().unwrap().clear();
                *pr.sent.lock().unwrap() = 0;
                *pr.closed_by_worker.lock().unwrap() = false;
                let (ev, rx) = Event::fetch(get(&format!("http://x/{how}-{style}-{when}-{act}")));
                let body = tokio::spawn(async move {
                    let r = rx.await.ok()?;
                    let s = r.status;
                    Some((s, r.body.collect().await.map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default()))
                });
                let r = h.exec(ev).await;
                // what is under way when the request ends
                let got = body.await.ok().flatten();
                let what = format!("{how} {style} {act} at {when}, host {answer}s, peer {peer}{}{}", if reacts { "" } else { " never answers a close" }, if round > 0 { ", again" } else { "" });
                mc::event(format!("[{} ms] {r:?} {got:?}", w.now()));
                let Some((200, got)) = got else {
                    mc::violation("response", format!("{what}: {r:?} {got:?}"));
                    break;
                };
                let log: Vec<String> = serde_json::from_str(&got).unwrap_or_default();
                verdict(&what, &how, &when, &act, &answer, &script, *pr.sent.lock().unwrap(), reacts, &log, &pr.received.lock().unwrap());
                mc::outcome((what, log));
                // the connection ends with the request
                w.i.lock().unwrap().pend.retain(|p| !p.0.starts_with("peer"));
            }
            env::set_env(None);
            drop(h);
        })
    });
}
fn shown(m: &WebSocketIncoming) -> Option<String> {
    match m {
        WebSocketIncoming::Text(t) => Some(format!("t:{t}")),
        WebSocketIncoming::Binary(b) => Some(format!("b:{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))),
        _ => None,
    }
}
#[allow(clippy::too_many_arguments)]
fn verdict(what: &str, how: &str, when: &str, act: &str, answer: &str, script: &[WebSocketIncoming], sent: usize, reacts: bool, log: &[String], received: &[WebSocketOutgoing]) {
    let at = |s: &str| log.iter().position(|l| l.starts_with(s));
    let count = |s: &str| log.iter().filter(|l| l.starts_with(s)).count();
    let fresh = how == "new";
    // acted while the connection was being made
    let early = fresh && at("act").is_some() && at("open").is_none_or(|o| at("act") < Some(o)) && when != "open";
    let over = at("act").is_some() && at("close ").is_some_and(|c| Some(c) < at("act"));
    for l in log {
        let odd = ["removed", "late", "never", "type", "sent what", "closed with", "status", "act threw"].iter().find(|o| l.starts_with(**o));
        // sending is refused while the connection is being made
        if l == "act threw InvalidStateError" && early && !matches!(act, "close" | "closeargs" | "nothing" | "closesend" | "badclose") {
            continue;
        }
        // nothing is converted once the connection is over
        if l == "sent what throws" && over {
            continue;
        }
        check!(odd.is_none(), "event", "{what}: {l:?} in {log:?}");
    }
    let acted = at("act").is_some();
    if answer != "accept" {
        check!(received.is_empty(), "sent", "{what}: sent {received:?}");
        if fresh {
            check!(count("open") == 0 && count("error") == 1 && count("close ") == 1 && at("error") < at("close "), "refused", "{what}: {log:?}");
            check!(log.last().map(|s| s.as_str()) == Some("state 3"), "state", "{what}: {log:?}");
        } else {
            check!(count("refused") == 1 && log.len() == 1, "refused", "{what}: {log:?}");
        }
        return;
    }
    let closes = matches!(act, "close" | "closeargs" | "sendclose" | "closesend") && acted && !(early && act == "sendclose");
    // what the peer got
    let mut want: Vec<WebSocketOutgoing> = vec![];
    let t = |s: &str| WebSocketOutgoing::Text(s.into());
    if acted && !early && !over {
        match act {
            "text" => want.extend([t("hi"), t(""), t("\u{e9}\u{0}\u{1f600}")]),
            "bytes" => want.extend([vec![9, 1, 2, 255], vec![1, 2], vec![2, 255]].map(WebSocketOutgoing::Binary)),
            "values" => want.extend([t("7"), t("null"), t("obj")]),
            "sendclose" => want.push(t("last")),
            _ => {}
        }
    }
    if act == "values" && acted && !early && !over {
        check!(count("threw no") == 1, "send-throws", "{what}: {log:?}");
    }
    if act == "badclose" && acted {
        check!(count("InvalidAccessError") == 6 && count("SyntaxError") == 1, "bad-close", "{what}: {log:?}");
    }
    if closes && !over {
        let (code, reason) = if early { (1000, "") } else {
            match act {
                "closeargs" => (4001, "b\u{e9}"),
                "sendclose" => (1000, "done"),
                "closesend" => (3000, ""),
                _ => (1000, ""),
            }
        };
        want.push(WebSocketOutgoing::Close { code, reason: reason.into() });
    }
    // a peer that has gone may miss what was sent meanwhile
    let ended = sent > 0 && (matches!(script[sent - 1], WebSocketIncoming::Closed { .. }) || script[sent - 1] == WebSocketIncoming::Text("(drop)".into()));
    if !ended {
        check!(received == &want[..], "sent", "{what}: the peer got {received:?} instead of {want:?}");
    } else {
        check!(want.starts_with(received), "sent", "{what}: the peer got {received:?} instead of {want:?}");
    }
    // what the worker got
    if early && closes {
        check!(count("open") == 0 && count("message") == 0 && count("close ") == 1, "aborted", "{what}: {log:?}");
        check!(log.last().map(|s| s.as_str()) == Some("state 3"), "state", "{what}: {log:?}");
        return;
    }
    if fresh {
        check!(count("open 1") == 1 && count("open") == 1, "open", "{what}: {log:?}");
    }
    let msgs: Vec<String> = script[..sent].iter().filter(|m| **m != WebSocketIncoming::Text("(drop)".into())).filter_map(shown).collect();
    let got: Vec<String> = log.iter().filter_map(|l| l.strip_prefix("message ").map(|s| s[2..].to_string())).collect();
    if closes && !over {
        check!(msgs.starts_with(&got), "messages", "{what}: got {got:?} of {msgs:?}");
        // closing: no message any more
        let c = at("act").unwrap();
        check!(!log[c..].iter().any(|l| l.starts_with("message")), "message-after-close", "{what}: {log:?}");
    } else {
        check!(got == msgs, "messages", "{what}: got {got:?} instead of {msgs:?}");
    }
    let errors = script[..sent].iter().filter(|m| matches!(m, WebSocketIncoming::Error(_))).count();
    if !closes || over {
        check!(count("error") == errors, "errors", "{what}: {log:?}");
    }
    if ended || closes && reacts {
        check!(count("close ") == 1, "close-event", "{what}: {} close events in {log:?}", count("close "));
        check!(log.iter().rposition(|l| l.starts_with("close ") || l.starts_with("message") || l.starts_with("error")) == at("close ") || act == "nothing", "after-close", "{what}: {log:?}");
        check!(log.last().map(|s| s.as_str()) == Some("state 3"), "state", "{what}: {log:?}");
        let c = &log[at("close ").unwrap_or(0)];
        let own = format!("close 3 {}", match act { "closeargs" => "4001 b\u{e9} true", "sendclose" => "1000 done true", "closesend" => "3000  true", _ => "1000  true" });
        let peers = if !ended { None } else {
            match &script[sent - 1] {
                WebSocketIncoming::Closed { code, reason } => Some(format!("close 3 {code} {reason} ")),
                _ => Some("close 3 1006  false".into()),
            }
        };
        check!(closes && !over && *c == own || peers.is_some_and(|p| c.starts_with(&p)), "close-code", "{what}: {c:?}");
    } else {
        check!(count("close ") == 0, "close-event", "{what}: closed by nobody: {log:?}");
        check!(log.last().map(|s| s.as_str()) == Some(if closes { "state 2" } else { "state 1" }), "state", "{what}: {log:?}");
    }
}
