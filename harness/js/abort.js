// AbortController and AbortSignal against a list of listeners.
const call = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e }; } };
globalThis.mcRun = () => {
  const REASONS = [['none'], ['r', 'why'], ['zero', 0], ['null', null], ['false', false], ['empty', ''], ['undefined', undefined], ['error', new TypeError('x')]];
  const ctl = mc.choose(2) ? new AbortController() : null;
  let sig, aborted = false, reason, log = [];
  if (ctl) sig = ctl.signal;
  else {
    const r = mc.pick(REASONS);
    log.push('AbortSignal.abort ' + r[0]);
    sig = r.length > 1 ? AbortSignal.abort(r[1]) : AbortSignal.abort();
    aborted = true; reason = r[1];
  }
  const calls = [], model = [], list = []; // calls seen, calls expected, listeners registered
  const L = {};
  const body = (id, extra) => function (ev) {
    calls.push(id);
    if (!ev || ev.type !== 'abort' || ev.target !== sig) mc.fail('event', `${log}: listener ${id} got the event ${mc.show(ev)}`);
    if (!sig.aborted) mc.fail('order', `${log}: a listener is called while the signal is not aborted`);
    if (extra) extra();
  };
  L.p = body('p');
  L.q = body('q');
  L.t = body('t', () => { throw new Error('listener'); });
  L.r = body('r', () => { sig.removeEventListener('abort', L.q); });
  L.a = body('a', () => { sig.addEventListener('abort', L.n); });
  L.n = body('n');
  L.s = body('s', () => { if (ctl) ctl.abort('again'); });
  L.o = { handleEvent: body('o') };
  L.z = body('z', () => { sig.removeEventListener('abort', L.z); });
  const add = (id) => { if (!list.includes(id)) list.push(id); };
  const fire = () => {
    for (const id of [...list]) {
      if (!list.includes(id)) continue;
      model.push(id);
      if (id === 'r') list.splice(list.indexOf('q') < 0 ? list.length : list.indexOf('q'), 1);
      if (id === 'z') list.splice(list.indexOf('z'), 1);
      if (id === 'a') add('n');
    }
  };
  const acts = [...'pqtraosz'].map((id) => ['add', id]);
  acts.push(['add twice', 'p'], ['remove', 'p'], ['remove', 'q'], ['remove', 'o'], ['other', 'p'], ['null']);
  if (ctl) for (const r of REASONS) acts.push(['abort', ...r]);
  for (let d = 0; d < params.depth; d++) {
    if (mc.foreign()) return;
    const a = mc.pick(acts);
    log.push(a.slice(0, 2).join(' '));
    mc.event(log[log.length - 1]);
    const r = call(() => {
      if (a[0] === 'add') { sig.addEventListener('abort', L[a[1]]); add(a[1]); }
      else if (a[0] === 'add twice') { sig.addEventListener('abort', L.p); sig.addEventListener('abort', L.p); add('p'); }
      else if (a[0] === 'remove') { sig.removeEventListener('abort', L[a[1]]); const i = list.indexOf(a[1]); if (i >= 0) list.splice(i, 1); }
      else if (a[0] === 'other') sig.addEventListener('other', L.p);
      else if (a[0] === 'null') { sig.addEventListener('abort', null); sig.removeEventListener('abort', null); }
      else {
        if (!aborted) { aborted = true; reason = a[2]; fire(); }
        a.length > 2 ? ctl.abort(a[2]) : ctl.abort();
      }
    });
    mc.check(r.ok, 'threw', () => `${log}: threw ${r.e}`);
    mc.eq(calls, model, 'listeners', `${log}: listeners called:`);
    mc.eq(sig.aborted, aborted, 'aborted', `${log}: aborted:`);
    const t = call(() => sig.throwIfAborted());
    mc.check(t.ok === !aborted, 'throwIfAborted', `${log}: throwIfAborted ${t.ok ? 'returned' : 'threw'}`);
    if (!aborted) mc.check(sig.reason === undefined, 'reason', `${log}: reason before the abort`);
    else {
      if (reason === undefined) mc.check(sig.reason instanceof DOMException && sig.reason instanceof Error && sig.reason.name === 'AbortError', 'reason', () => `${log}: reason is ${mc.show(sig.reason)}`);
      else mc.check(sig.reason === reason, 'reason', () => `${log}: reason is ${mc.show(sig.reason)}, expected ${mc.show(reason)}`);
      mc.check(t.e === sig.reason, 'throwIfAborted', () => `${log}: throwIfAborted threw ${mc.show(t.e)}`);
    }
  }
  mc.outcome(log.join(';') + mc.show(calls));
};
