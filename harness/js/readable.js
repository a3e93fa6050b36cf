// ReadableStream against a boring reference queue.
const track = (p) => { const r = { s: 'pending' }; p.then((v) => { r.s = 'ok'; r.v = v; }, (e) => { r.s = 'err'; r.v = e; }); return r; };
const show = (r) => r.s === 'ok' ? (r.v && typeof r.v === 'object' && 'done' in r.v ? (r.v.done ? 'done' : 'chunk ' + r.v.value) : 'ok') : r.s === 'err' ? 'err ' + (r.v instanceof TypeError ? 'TypeError' : r.v) : 'pending';
const call = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e: e instanceof TypeError ? 'TypeError' : String(e) }; } };

async function push() {
  let ctl, cancelled = [];
  const s = new ReadableStream({ start(c) { ctl = c; }, cancel(r) { cancelled.push(r); } });
  // reference
  const M = { state: 'readable', closing: false, q: [], err: null, reader: null, pend: [], cancels: [] };
  let reader = null, released = null, n = 0, reads = [], closedP = null, log = [];
  const finish = () => { M.state = 'closed'; for (const p of M.pend) p.want = 'done'; M.pend = []; };
  const alpha = params.alphabet.split('');
  for (let d = 0; d < params.depth; d++) {
    if (mc.foreign()) return;
    const ops = alpha.filter((o) => 'ecx'.includes(o) || (o === 'g') || ('rlk'.includes(o) && reader) || (o === 'K') || (o === 'z' && released));
    const op = mc.pick(ops);
    log.push(op);
    if (op === 'e') {
      const k = ++n;
      mc.event('enqueue ' + k);
      const r = call(() => ctl.enqueue(k));
      const can = M.state === 'readable' && !M.closing;
      mc.check(r.ok === can, 'enqueue', `enqueue ${r.ok ? 'accepted' : 'refused ' + r.e}, the stream is ${M.state}${M.closing ? ' (closing)' : ''}`);
      if (can) { if (M.pend.length) M.pend.shift().want = 'chunk ' + k; else M.q.push(k); }
    } else if (op === 'c') {
      mc.event('close');
      const r = call(() => ctl.close());
      const can = M.state === 'readable' && !M.closing;
      mc.check(r.ok === can, 'close', `close ${r.ok ? 'accepted' : 'refused ' + r.e}, the stream is ${M.state}${M.closing ? ' (closing)' : ''}`);
      if (can) { M.closing = true; if (!M.q.length) finish(); }
    } else if (op === 'x') {
      mc.event('error');
      const r = call(() => ctl.error('E' + d));
      mc.check(r.ok, 'error', `controller.error threw ${r.e}`);
      if (M.state === 'readable') { M.state = 'errored'; M.err = 'E' + d; M.q = []; for (const p of M.pend) p.want = 'err ' + M.err; M.pend = []; }
    } else if (op === 'g') {
      mc.event('getReader');
      const r = call(() => s.getReader());
      mc.check(r.ok === !reader, 'lock', `getReader ${r.ok ? 'succeeded' : 'failed'}, locked ${!!reader}`);
      mc.check(r.ok || r.e === 'TypeError', 'lock', `getReader threw ${r.e}`);
      if (r.ok) { reader = r.v; closedP = track(reader.closed); }
    } else if (op === 'r') {
      mc.event('read');
      const t = track(reader.read());
      let want = 'pending';
      if (M.state === 'errored') want = 'err ' + M.err;
      else if (M.q.length) { want = 'chunk ' + M.q.shift(); if (M.closing && !M.q.length) finish(); }
      else if (M.state === 'closed') want = 'done';
      const rec = { t, want };
      if (want === 'pending') M.pend.push(rec);
      reads.push(rec);
    } else if (op === 'l') {
      mc.event('releaseLock');
      const r = call(() => reader.releaseLock());
      if (M.pend.length) {
        mc.check(!r.ok && r.e === 'TypeError', 'release', 'releaseLock with reads pending must be refused');
      } else {
        mc.check(r.ok, 'release', `releaseLock threw ${r.e}`);
        released = reader; reader = null; closedP = null;
      }
    } else if (op === 'z') {
      const t = track(released.read());
      reads.push({ t, want: 'err TypeError' });
    } else { // cancel through the reader or the stream
      mc.event(op === 'k' ? 'reader.cancel' : 'stream.cancel');
      if (op === 'K' && reader) { log.pop(); continue; }
      const r = call(() => (op === 'k' ? reader : s).cancel('R' + d));
      mc.check(r.ok, 'cancel', `cancel threw ${r.e}`);
      const t = r.ok ? track(r.v) : null;
      if (t) reads.push({ t, want: M.state === 'errored' ? 'err ' + M.err : 'ok' });
      if (M.state === 'readable') { M.cancels.push('R' + d); M.q = []; finish(); }
      if (op === 'k') { released = reader; reader = null; closedP = null; }
    }
    await mcTicks(8);
    for (const { t, want } of reads) mc.check(show(t) === want, 'read', () => `a read settled as ${show(t)}, expected ${want}`);
    mc.check(s.locked === !!reader, 'locked', () => `locked is ${s.locked}, a reader is attached: ${!!reader}`);
    mc.eq(cancelled, M.cancels, 'cancel-source', 'reasons passed to the source\'s cancel:');
    if (M.cancels.length) mc.check(ctl.signal.aborted, 'signal', 'the controller\'s signal is not aborted after cancel');
    else if (M.state === 'readable') mc.check(!ctl.signal.aborted, 'signal', 'the controller\'s signal is aborted for no reason');
    if (closedP) {
      const w = M.state === 'errored' ? 'err ' + M.err : M.state === 'closed' ? 'ok' : 'pending';
      // closed only settles once the end was read; before that it may be pending
      const got = show(closedP);
      mc.check(got === w || (got === 'pending' && w === 'ok') || params.lateReader, 'closed', () => `reader.closed is ${got}, expected ${w}`);
    }
  }
  mc.outcome([log.join(''), reads.map((r) => show(r.t)).join()]);
}

// A source that is pulled: sync or async, one or two chunks per pull, then close or error.
async function pull() {
  const total = mc.choose(4), per = 1 + mc.choose(2), async_ = mc.choose(2), end = mc.pick(['close', 'error', 'reject', 'open']);
  mc.event(`source: ${total} chunks, ${per} per pull, ${async_ ? 'async' : 'sync'}, then ${end}`);
  let next = 0, pulls = 0, over = 0;
  const s = new ReadableStream({
    pull(c) {
      pulls++;
      const go = () => {
        if (next >= total) {
          if (end === 'close') return c.close();
          if (end === 'error') return c.error('E');
          if (end === 'reject') throw 'E';
          return;
        }
        for (let i = 0; i < per && next < total; i++) c.enqueue(next++);
      };
      if (end === 'reject' || async_) return Promise.resolve().then(go);
      go();
    },
  });
  const r = s.getReader();
  const nreads = total + 2;
  const burst = 1 + mc.choose(3); // reads issued before waiting
  const got = [];
  let want = [];
  for (let i = 0; i < nreads;) {
    const ts = [];
    for (let j = 0; j < burst && i < nreads; j++, i++) ts.push(track(r.read()));
    await mcTicks(20);
    got.push(...ts.map(show));
  }
  const chunks = got.filter((g) => g.startsWith('chunk')).map((g) => +g.slice(6));
  mc.check(chunks.every((c, i) => c === i), 'order', () => `chunks arrived as ${chunks}`);
  if (end === 'close' || end === 'open') mc.check(chunks.length === total, 'lost', () => `${chunks.length} of ${total} chunks arrived: ${got}`);
  for (let i = 0; i < nreads; i++) {
    const w = i < total ? 'chunk ' + i : end === 'close' ? 'done' : end === 'open' ? 'pending' : 'err E';
    // a source that fails drops what was queued but not read
    const ok = got[i] === w || (end !== 'close' && end !== 'open' && got[i] === 'err E') ;
    mc.check(ok, 'pull-read', () => `read ${i} settled as ${got[i]}, expected ${w}; all: ${got}`);
  }
  if (end !== 'open') mc.check(pulls <= nreads, 'pulls', () => `the source was pulled ${pulls} times for ${nreads} reads`);
  mc.outcome([total, per, async_, end, burst, got.join()]);
}

// tee: every branch gets everything, whatever the order of reads and cancels.
async function tee() {
  const total = params.chunks, end = mc.pick(['close', 'error']), mode = mc.pick(['queued', 'pulled', 'pulled-async']);
  let cancelled = [], src = [];
  const mk = (i) => new Uint8Array([i, i]);
  const s = new ReadableStream(mode === 'queued' ? {
    start(c) { for (let i = 0; i < total; i++) c.enqueue(mk(i)); if (end === 'close') c.close(); },
    cancel(r) { cancelled.push(r); },
  } : {
    pull(c) {
      const go = () => { if (src.length < total) { src.push(1); c.enqueue(mk(src.length - 1)); } else if (end === 'close') c.close(); else c.error('E'); };
      return mode === 'pulled' ? go() : Promise.resolve().then(go);
    },
    cancel(r) { cancelled.push(r); },
  });
  const [a, b] = s.tee();
  mc.check(s.locked, 'tee-lock', 'the original is not locked after tee');
  const R = [a.getReader(), b.getReader()];
  const got = [[], []], dead = [false, false], ended = [false, false];
  const vals = [[], []];
  const hist = [];
  for (let d = 0; d < params.depth; d++) {
    if (mc.foreign()) return;
    const ops = [];
    for (let i = 0; i < 2; i++) if (!dead[i]) { ops.push(['r', i]); if (params.cancel) ops.push(['k', i]); }
    if (!dead[0] && !dead[1] && params.both) ops.push(['b', 0]);
    if (!ops.length) break;
    const [op, i] = mc.pick(ops);
    hist.push(op + i);
    mc.event((op === 'k' ? 'cancel ' : op === 'b' ? 'read both ' : 'read ') + i);
    if (op === 'k') {
      const r = call(() => R[i].cancel('R' + i));
      mc.check(r.ok, 'tee-cancel', `cancel threw ${r.e}`);
      dead[i] = true;
    } else {
      for (const j of op === 'b' ? [0, 1] : [i]) {
        const t = track(R[j].read());
        got[j].push(t);
      }
    }
    await mcTicks(30);
    for (let j = 0; j < 2; j++) {
      got[j].forEach((t, n) => {
        const open = mode === 'queued' && end === 'error'; // source stays open
        let w = n < total ? 'chunk ' + n + ',' + n : open ? 'pending' : end === 'close' ? 'done' : 'err E';
        const g = show(t);
        const lostToError = mode !== 'queued' && end === 'error' && g === 'err E' && n < total;
        if (dead[j] && g === 'done' && w === 'pending') w = 'done';
        mc.check(g === w || lostToError, 'tee-read', () => `branch ${j}, read ${n}: ${g}, expected ${w} (${hist})`);
        if (t.s === 'ok' && t.v.value && !vals[j].includes(t.v.value)) vals[j].push(t.v.value);
      });
    }
    for (const x of vals[0]) mc.check(!vals[1].includes(x) && !vals[1].some((y) => y.buffer === x.buffer), 'tee-shared', 'both branches got the same buffer');
    const sourceOver = ended[0] || got.some((g) => g.some((t) => ['done', 'err E'].includes(show(t))));
    if (dead[0] && dead[1]) mc.check(cancelled.length === 1 || sourceOver || (end === 'close' && mode === 'queued') || mode !== 'queued', 'tee-cancel-source', () => `both branches cancelled, the source was told ${cancelled.length} times`);
    else mc.check(cancelled.length === 0, 'tee-cancel-source', 'the source was cancelled while a branch is in use');
    mc.check(cancelled.length <= 1, 'tee-cancel-source', 'the source was cancelled twice');
  }
  mc.outcome([end, mode, hist.join(), got.map((g) => g.map(show).join())]);
}
globalThis.mcRun = () => ({ push, pull, tee })[params.mode]();
