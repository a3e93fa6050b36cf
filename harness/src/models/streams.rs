//! StreamManager: every operation sequence (with asynchronous reads and writes
//! left in flight, polled late, or cancelled) up to a depth, on the real object,
//! judged by delivery invariants.
use crate::{ModelFn, Params, env};
use bytes::Bytes;
use mc::check;
use mc::mini::Mini;
use openworkers_runtime_v8::runtime::stream_manager::{StreamChunk, StreamId, StreamManager};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub fn models() -> Vec<(&'static str, ModelFn)> {
    vec![("stream_ops", stream_ops), ("pump", pump)]
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum K {
    Data,
    Done,
    Err,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Pending,
    Ok,
    Err,
    Cancelled,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rx {
    InMap,
    InFlight,
    Taken,
    Gone,
}
#[derive(Debug)]
struct Wr {
    tag: u32,
    k: K,
    st: W,
    issued: u64, // logical times: a write that completed before another was issued comes first
    done: u64,
}
struct Inc {
    id: StreamId,
    url: String,
    writes: Vec<Wr>,
    delivered: Vec<u32>,
    terminal: bool,
    open: bool, // created and neither closed nor cleared
    sender: bool,
    rx: Rx,
    lost_rx: bool, // a read was cancelled: the receiver went with it
    taken: Option<tokio::sync::mpsc::Receiver<StreamChunk>>,
    reads: usize,
}
impl Inc {
    fn undelivered(&self) -> usize {
        self.writes.iter().filter(|w| w.st == W::Ok && !self.delivered.contains(&w.tag)).count()
    }
    fn pending_writers(&self) -> usize {
        self.writes.iter().filter(|w| w.st == W::Pending).count()
    }
}
struct World {
    incs: Vec<Inc>,
    next_tag: u32,
    hwm: usize,
    clock: u64,
}
type Wd = Rc<RefCell<World>>;

fn chunk(tag: u32, k: K) -> StreamChunk {
    match k {
        K::Data => StreamChunk::Data(Bytes::copy_from_slice(&tag.to_le_bytes())),
        K::Done => StreamChunk::Done,
        K::Err => StreamChunk::Error(tag.to_string()),
    }
}

impl World {
    /// A chunk came out of stream incarnation `i`.
    fn deliver(&mut self, i: usize, c: &StreamChunk) -> bool {
        let (tag, k) = match c {
            StreamChunk::Data(b) => (u32::from_le_bytes(b[..].try_into().unwrap_or([255; 4])), K::Data),
            StreamChunk::Error(s) => (s.parse().unwrap_or(u32::MAX), K::Err),
            StreamChunk::Done => {
                // Done carries no tag: some end marker written to this stream and not delivered yet
                let t = self.incs[i].writes.iter().find(|w| w.k == K::Done && matches!(w.st, W::Ok | W::Pending) && !self.incs[i].delivered.contains(&w.tag));
                match t {
                    Some(w) => (w.tag, K::Done),
                    None => {
                        mc::violation("foreign-end", format!("stream #{i} delivered an end marker that was not written to it"));
                        return true;
                    }
                }
            }
        };
        let inc = &mut self.incs[i];
        let Some(pos) = inc.writes.iter().position(|w| w.tag == tag) else {
            mc::violation("cross-stream", format!("stream #{i} delivered chunk {tag} that was written to another stream"));
            return k != K::Data;
        };
        check!(!inc.delivered.contains(&tag), "duplicate", "chunk {tag} delivered twice on stream #{i}");
        check!(matches!(inc.writes[pos].st, W::Ok | W::Pending), "rejected-delivered", "chunk {tag} delivered although its write failed");
        check!(!inc.terminal, "after-end", "chunk {tag} delivered on stream #{i} after its end");
        for w in &inc.writes {
            if w.st == W::Ok && w.done < inc.writes[pos].issued && !inc.delivered.contains(&w.tag) {
                mc::violation("order", format!("stream #{i}: chunk {tag} overtook chunk {} accepted before it was written", w.tag));
            }
        }
        inc.delivered.push(tag);
        if k != K::Data {
            inc.terminal = true;
        }
        k != K::Data
    }
    fn issue(&mut self, i: usize, k: K) -> u32 {
        let tag = self.next_tag;
        self.next_tag += 1;
        self.clock += 1;
        let issued = self.clock;
        self.incs[i].writes.push(Wr { tag, k, st: W::Pending, issued, done: u64::MAX });
        tag
    }
    fn complete(&mut self, i: usize, tag: u32, ok: bool) {
        self.clock += 1;
        let t = self.clock;
        let e = self.incs[i].writes.iter_mut().find(|x| x.tag == tag).unwrap();
        e.st = if ok { W::Ok } else { W::Err };
        e.done = t;
    }
    fn bounds(&self) {
        for (i, c) in self.incs.iter().enumerate() {
            check!(c.undelivered() <= self.hwm, "unbounded", "stream #{i} holds {} accepted undelivered chunks, limit {}", c.undelivered(), self.hwm);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Create,
    Try(usize, K),
    Write(usize, K),
    Read(usize),
    Close(usize),
    Take(usize),
    Recv(usize),
    DropTaken(usize),
    Clear,
    Poll(usize),
    Cancel(usize),
}

#[derive(Clone, Copy, PartialEq)]
enum TaskKind {
    Write(usize, u32),
    Read(usize),
}

fn stream_ops(p: &Params) {
    let depth = p.u("depth", 5);
    let max_streams = p.u("streams", 2);
    let hwm = p.u("hwm", 1);
    let al = p.s("alphabet"); // letters select operations
    let has = |c: char| al.contains(c);
    let m = Arc::new(StreamManager::with_high_water_mark(hwm));
    let w: Wd = Rc::new(RefCell::new(World { incs: vec![], next_tag: 1, hwm, clock: 0 }));
    let mut ex = Mini::new();
    let mut tasks: Vec<(usize, TaskKind)> = vec![];
    // start from one open stream (the create-only prefix is trivial)
    do_create(&m, &w);
    for _ in 0..depth {
        if mc::foreign() {
            break;
        }
        let mut ops: Vec<Op> = vec![];
        {
            let wb = w.borrow();
            let n = wb.incs.len();
            for i in 0..n {
                // stale incarnations stay addressable only where that is the point
                if !wb.incs[i].open && !has('s') {
                    continue;
                }
                ops.push(Op::Try(i, K::Data));
                if has('w') && wb.incs[i].pending_writers() < 2 {
                    ops.push(Op::Write(i, K::Data));
                }
                if wb.incs[i].rx != Rx::Taken {
                    ops.push(Op::Read(i));
                }
                if has('d') {
                    ops.push(Op::Try(i, K::Done));
                }
                if has('e') {
                    ops.push(Op::Try(i, K::Err));
                }
                if has('D') && wb.incs[i].pending_writers() < 2 {
                    ops.push(Op::Write(i, K::Done));
                }
                if has('c') && wb.incs[i].open {
                    ops.push(Op::Close(i));
                }
                if has('t') {
                    if wb.incs[i].rx == Rx::Taken {
                        ops.push(Op::Recv(i));
                        ops.push(Op::DropTaken(i));
                    } else {
                        ops.push(Op::Take(i));
                    }
                }
            }
            if n < max_streams {
                ops.push(Op::Create);
            }
            if has('l') {
                ops.push(Op::Clear);
            }
            for t in ex.woken() {
                ops.push(Op::Poll(t));
            }
            if has('x') {
                for t in ex.live() {
                    ops.push(Op::Cancel(t));
                }
            }
        }
        if ops.is_empty() {
            break;
        }
        let op = ops[mc::free(ops.len(), "op")];
        mc::event(format!("{op:?}"));
        match op {
            Op::Create => do_create(&m, &w),
            Op::Try(i, k) => {
                let (id, tag, can, full, here) = {
                    let mut wb = w.borrow_mut();
                    let c = &wb.incs[i];
                    let alive = matches!(c.rx, Rx::InMap | Rx::InFlight | Rx::Taken) && !c.lost_rx;
                    let idle = c.pending_writers() == 0;
                    let full = c.undelivered() >= hwm;
                    let r = (c.id, c.open && c.sender && alive && idle && !full, full, c.open && c.sender);
                    let tag = wb.issue(i, k);
                    (r.0, tag, r.1, r.2, r.3)
                };
                let r = m.try_write_chunk(id, chunk(tag, k));
                let mut wb = w.borrow_mut();
                wb.complete(i, tag, r.is_ok());
                check!(!can || r.is_ok(), "refused", "write to open stream #{i} with room refused: {r:?}");
                check!(here || r.is_err(), "write-after-close", "write to closed stream #{i} accepted");
                check!(!full || r.is_err(), "overfull", "write to full stream #{i} accepted");
                if r.is_err() && wb.incs[i].open && wb.incs[i].sender && (wb.incs[i].rx == Rx::Gone) {
                    wb.incs[i].sender = false;
                }
            }
            Op::Write(i, k) => {
                let (id, tag) = {
                    let mut wb = w.borrow_mut();
                    let tag = wb.issue(i, k);
                    (wb.incs[i].id, tag)
                };
                let (m2, w2) = (m.clone(), w.clone());
                let t = ex.spawn(format!("w{tag}"), async move {
                    let was_open = {
                        let wb = w2.borrow();
                        wb.incs[i].open && wb.incs[i].sender
                    };
                    let r = m2.write_chunk(id, chunk(tag, k)).await;
                    let mut wb = w2.borrow_mut();
                    check!(was_open || r.is_err(), "write-after-close", "write to closed stream #{i} accepted");
                    wb.complete(i, tag, r.is_ok());
                    if r.is_err() && wb.incs[i].open && wb.incs[i].rx == Rx::Gone {
                        wb.incs[i].sender = false;
                    }
                });
                tasks.push((t, TaskKind::Write(i, tag)));
                ex.poll(t);
            }
            Op::Read(i) => {
                let (id, rx, n_und, open, lost) = {
                    let wb = w.borrow();
                    let c = &wb.incs[i];
                    (c.id, c.rx, c.undelivered(), c.open, c.lost_rx)
                };
                let (m2, w2) = (m.clone(), w.clone());
                if rx == Rx::InMap {
                    w.borrow_mut().incs[i].rx = Rx::InFlight;
                }
                w.borrow_mut().incs[i].reads += 1;
                let t = ex.spawn(format!("r{i}"), async move {
                    let r = m2.read_chunk(id).await;
                    let mut wb = w2.borrow_mut();
                    wb.incs[i].reads -= 1;
                    match &r {
                        Ok(c) => {
                            mc::event(format!("read #{i} -> {}", show(c)));
                            check!(rx == Rx::InMap, "two-readers", "second concurrent read of stream #{i} got data");
                            let end = wb.deliver(i, c);
                            wb.incs[i].rx = if end { Rx::Gone } else { Rx::InMap };
                        }
                        Err(e) => {
                            mc::event(format!("read #{i} -> Err({e})"));
                            if rx == Rx::InMap {
                                let c = &wb.incs[i];
                                check!(!(c.open && c.sender), "read-failed", "read of open stream #{i} failed: {e}");
                                check!(c.undelivered() == 0 || !c.open, "lost-data", "stream #{i} ended with {} accepted chunks undelivered", c.undelivered());
                                wb.incs[i].rx = Rx::Gone;
                            }
                        }
                    }
                });
                tasks.push((t, TaskKind::Read(i)));
                let done = ex.poll(t);
                if rx == Rx::InMap && n_und > 0 && open && !lost {
                    check!(done, "read-stuck", "read of stream #{i} with {n_und} buffered chunks did not complete at once");
                }
                if rx != Rx::InMap {
                    check!(done, "read-stuck", "read of stream #{i} without a readable side ({rx:?}) hangs");
                }
            }
            Op::Close(i) => {
                let id = w.borrow().incs[i].id;
                m.close_stream(id);
                closed(&mut w.borrow_mut().incs[i]);
            }
            Op::Clear => {
                m.clear();
                for c in w.borrow_mut().incs.iter_mut() {
                    closed(c);
                }
            }
            Op::Take(i) => {
                let id = w.borrow().incs[i].id;
                let r = m.take_receiver(id);
                let mut wb = w.borrow_mut();
                let c = &mut wb.incs[i];
                let should = c.rx == Rx::InMap && c.open;
                check!(!should || r.is_some(), "take", "take_receiver of stream #{i} in state {:?} gave nothing", c.rx);
                check!(c.rx == Rx::InMap || r.is_none(), "take", "take_receiver of stream #{i} in state {:?} gave a receiver", c.rx);
                if r.is_some() {
                    c.rx = Rx::Taken;
                    c.taken = r;
                }
            }
            Op::Recv(i) => {
                let r = w.borrow_mut().incs[i].taken.as_mut().unwrap().try_recv();
                mc::event(format!("recv -> {}", r.as_ref().map(show).unwrap_or("none".into())));
                let mut wb = w.borrow_mut();
                match r {
                    Ok(c) => {
                        if wb.deliver(i, &c) {
                            wb.incs[i].taken = None;
                            wb.incs[i].rx = Rx::Gone;
                        }
                    }
                    Err(_) => {
                        let u = wb.incs[i].undelivered();
                        check!(u == 0, "lost-data", "taken receiver of stream #{i} empty, {u} accepted chunks undelivered");
                    }
                }
            }
            Op::DropTaken(i) => {
                let mut wb = w.borrow_mut();
                wb.incs[i].taken = None;
                wb.incs[i].rx = Rx::Gone;
            }
            Op::Poll(t) => {
                ex.poll(t);
            }
            Op::Cancel(t) => {
                ex.cancel(t);
                let k = tasks.iter().find(|x| x.0 == t).unwrap().1;
                let mut wb = w.borrow_mut();
                match k {
                    TaskKind::Write(i, tag) => wb.incs[i].writes.iter_mut().find(|x| x.tag == tag).unwrap().st = W::Cancelled,
                    TaskKind::Read(i) => {
                        wb.incs[i].reads -= 1;
                        wb.incs[i].rx = Rx::Gone;
                        wb.incs[i].lost_rx = true;
                    }
                }
            }
        }
        state_check(&m, &w);
    }
    // everything that was woken runs; then nothing may be stuck
    while let Some(t) = ex.woken().first().copied() {
        ex.poll(t);
    }
    state_check(&m, &w);
    {
        let wb = w.borrow();
        for (t, k) in &tasks {
            if ex.is_done(*t) {
                continue;
            }
            match *k {
                TaskKind::Read(i) => {
                    let c = &wb.incs[i];
                    check!(c.undelivered() == 0 && c.pending_writers() == 0, "lost-wakeup", "reader of stream #{i} sleeps although data is there");
                    check!(c.open, "stuck-reader", "reader of closed stream #{i} never returns");
                }
                TaskKind::Write(i, tag) => {
                    let c = &wb.incs[i];
                    check!(c.undelivered() >= hwm, "lost-wakeup", "writer {tag} of stream #{i} sleeps although there is room");
                    check!(c.rx != Rx::Gone && (c.open || c.rx == Rx::Taken || c.rx == Rx::InFlight), "stuck-writer", "writer {tag} of stream #{i} waits for a reader that is gone");
                }
            }
        }
    }
    // drain what is left on open streams: exactly the accepted chunks, in order
    let n_incs = w.borrow().incs.len();
    for i in 0..n_incs {
        for _ in 0..16 {
            let (id, rx, open) = {
                let wb = w.borrow();
                (wb.incs[i].id, wb.incs[i].rx, wb.incs[i].open)
            };
            if !open || !(rx == Rx::InMap || rx == Rx::Taken) || w.borrow().incs[i].undelivered() == 0 {
                break;
            }
            if rx == Rx::Taken {
                let r = w.borrow_mut().incs[i].taken.as_mut().unwrap().try_recv();
                match r {
                    Ok(c) => {
                        let end = w.borrow_mut().deliver(i, &c);
                        if end {
                            w.borrow_mut().incs[i].rx = Rx::Gone;
                        }
                    }
                    Err(_) => {
                        mc::violation("lost-data", format!("stream #{i}: accepted chunk never delivered"));
                        break;
                    }
                }
            } else {
                let (m2, w2) = (m.clone(), w.clone());
                let t = ex.spawn("drain", async move {
                    match m2.read_chunk(id).await {
                        Ok(c) => {
                            let mut wb = w2.borrow_mut();
                            if wb.deliver(i, &c) {
                                wb.incs[i].rx = Rx::Gone;
                            }
                        }
                        Err(e) => mc::violation("lost-data", format!("stream #{i}: accepted chunk never delivered: {e}")),
                    }
                });
                if !ex.poll(t) {
                    mc::violation("lost-data", format!("stream #{i}: accepted chunk not readable"));
                    break;
                }
                while let Some(t) = ex.woken().first().copied() {
                    ex.poll(t);
                }
            }
        }
    }
    let o: Vec<(Vec<u32>, usize)> = w.borrow().incs.iter().map(|c| (c.delivered.clone(), c.undelivered())).collect();
    mc::outcome(o);
    drop(ex);
}
fn show(c: &StreamChunk) -> String {
    match c {
        StreamChunk::Data(b) => format!("data{:?}", &b[..]),
        StreamChunk::Done => "done".into(),
        StreamChunk::Error(e) => format!("error({e})"),
    }
}
fn closed(c: &mut Inc) {
    c.open = false;
    c.sender = false;
    if c.rx == Rx::InMap {
        c.rx = Rx::Gone;
    }
}
fn do_create(m: &Arc<StreamManager>, w: &Wd) {
    let url = format!("u{}", w.borrow().incs.len());
    let id = m.create_stream(url.clone());
    let mut wb = w.borrow_mut();
    for (i, c) in wb.incs.iter().enumerate() {
        if c.id == id {
            if c.open {
                mc::violation("id-clash", format!("new stream got the id {id} of open stream #{i}"));
            } else {
                mc::violation("id-reuse", format!("new stream got the id {id} of earlier stream #{i}, whose producers and readers may still hold it"));
            }
        }
    }
    wb.incs.push(Inc { id, url, writes: vec![], delivered: vec![], terminal: false, open: true, sender: true, rx: Rx::InMap, lost_rx: false, taken: None, reads: 0 });
}
fn state_check(m: &StreamManager, w: &Wd) {
    let wb = w.borrow();
    wb.bounds();
    let mut act = 0;
    for (i, c) in wb.incs.iter().enumerate() {
        if c.open && c.sender {
            act += 1;
        }
        if wb.incs.iter().skip(i + 1).any(|d| d.id == c.id) {
            continue;
        }
        check!(m.has_sender(c.id) == (c.open && c.sender), "has-sender", "stream #{i}: has_sender {} but open={} sender={}", m.has_sender(c.id), c.open, c.sender);
        let info = m.get_stream_info(c.id);
        check!(info.is_some() == c.open && (info.is_none() || info.as_deref() == Some(c.url.as_str())), "info", "stream #{i}: info {info:?}, open={}", c.open);
    }
    check!(m.active_count() == act, "active-count", "active_count {} but {act} streams are open", m.active_count());
}

// ------------------------------------------------------------------ request body pump
fn pump(p: &Params) {
    let items = p.u("items", 3);
    let hwm = 1 + mc::free(p.u("max_hwm", 2), "hwm");
    let src_cap = 1 + mc::free(2, "src_cap");
    // the source script: data* then (end | error); the consumer: how many it reads before closing / clearing / dropping
    let n = mc::free(items + 1, "n_items");
    let fail = mc::free(2, "fails") == 1;
    let consume = mc::free(n + 3, "consume"); // n+2 = everything
    let how = mc::free(if consume < n + 2 { 3 } else { 1 }, "give_up"); // close | clear | drop taken receiver
    let taken = how == 2 || mc::free(2, "taken") == 1;
    mc::event(format!("hwm={hwm} src_cap={src_cap} items={n} fails={fail} consume={consume} how={how} taken={taken}"));
    env::run(async move {
        let m = Arc::new(StreamManager::with_high_water_mark(hwm));
        let (tx, rx) = tokio::sync::mpsc::channel::<Result<Bytes, String>>(src_cap);
        let id = m.pump_request_body(rx);
        let sent = Rc::new(RefCell::new(0usize));
        let s2 = sent.clone();
        let prod_done = Rc::new(RefCell::new(false));
        let pd = prod_done.clone();
        let prod = tokio::task::spawn_local(async move {
            for i in 0..n {
                if tx.send(Ok(Bytes::from(vec![i as u8; 1 + i]))).await.is_err() {
                    *pd.borrow_mut() = true;
                    return;
                }
                *s2.borrow_mut() += 1;
            }
            if fail {
                let _ = tx.send(Err("boom".to_string())).await;
            }
            *pd.borrow_mut() = true;
        });
        let mut got: Vec<Bytes> = vec![];
        let mut end: Option<&'static str> = None;
        let mut trx = if taken { m.take_receiver(id) } else { None };
        if taken {
            check!(trx.is_some(), "no-stream", "the pumped stream has no receiver");
            if trx.is_none() {
                return;
            }
        }
        for _ in 0..consume {
            let c = match trx.as_mut() {
                Some(r) => r.recv().await.ok_or_else(|| "closed".to_string()),
                None => m.read_chunk(id).await,
            };
            match c {
                Ok(StreamChunk::Data(b)) => {
                    check!(end.is_none(), "after-end", "data after the end of the body");
                    got.push(b)
                }
                Ok(StreamChunk::Done) => {
                    check!(end.is_none(), "after-end", "end reported twice");
                    end = Some("done");
                    if taken {
                        break;
                    }
                }
                Ok(StreamChunk::Error(e)) => {
                    check!(e == "boom", "error-text", "error {e}");
                    end = Some("error");
                    if taken {
                        break;
                    }
                }
                Err(e) => {
                    check!(end.is_some(), "truncated", "body of {n} chunks (fails={fail}) ended early after {} with {e}", got.len());
                    break;
                }
            }
            // never more buffered ahead than source + pump + stream can hold
            let ahead = *sent.borrow() as i64 - got.len() as i64;
            check!(ahead <= (src_cap + hwm + 1) as i64, "no-backpressure", "{ahead} chunks were taken from the source ahead of the reader");
        }
        for (i, b) in got.iter().enumerate() {
            check!(b[..] == vec![i as u8; 1 + i][..], "order", "chunk {i} arrived as {:?}", b);
        }
        if consume >= n + 1 {
            check!(got.len() == n, "lost-data", "{} of {n} chunks arrived", got.len());
            let want = if fail { "error" } else { "done" };
            check!(end == Some(want), "wrong-end", "body ended with {end:?}, expected {want}");
        } else {
            check!(got.len() == consume.min(n), "lost-data", "{} of {} chunks arrived", got.len(), consume.min(n));
        }
        // give up on the rest
        match how {
            0 => m.close_stream(id),
            1 => m.clear(),
            _ => {}
        }
        drop(trx);
        // the producer must be released (finish or see the closed channel), never hang
        for _ in 0..50 {
            if *prod_done.borrow() {
                break;
            }
            tokio::task::yield_now().await;
        }
        check!(*prod_done.borrow(), "producer-stuck", "the body source is still blocked after the reader went away");
        prod.abort();
        mc::outcome((got.len(), end, *sent.borrow()));
    });
}
