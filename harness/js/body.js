// Bodies of requests and responses, blobs and forms: what went in comes out.
const enc = (s) => new TextEncoder().encode(s);
const U = (...b) => new Uint8Array(b);
const bytes = (x) => Array.from(x instanceof ArrayBuffer ? new Uint8Array(x) : new Uint8Array(x.buffer, x.byteOffset, x.byteLength));
const settle = async (p) => { try { return { ok: true, v: await p }; } catch (e) { return { ok: false, e }; } };
const sync = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e }; } };
const name = (e) => (e instanceof Error ? e.name : String(e));
const hidden = () => { const b = new ArrayBuffer(8); new Uint8Array(b).set([91, 92, 65, 66, 67, 68, 93, 94]); return b; };
// [description, make, expected bytes]
const KINDS = [
  ['a text', () => 'aé\u{1F600}', bytes(enc('aé\u{1F600}'))],
  ['an empty text', () => '', []],
  ['a lone surrogate', () => 'x\ud800', bytes(enc('x\ufffd'))],
  ['a number', () => 42, [52, 50]],
  ['bytes', () => U(1, 0, 255, 195), [1, 0, 255, 195]],
  ['no bytes', () => U(), []],
  ['a part of bytes', () => new Uint8Array(hidden(), 2, 3), [65, 66, 67]],
  ['an Uint16Array', () => new Uint16Array(hidden(), 2, 2), [65, 66, 67, 68]],
  ['a DataView', () => new DataView(hidden(), 2, 3), [65, 66, 67]],
  ['a clamped array', () => new Uint8ClampedArray(hidden(), 2, 2), [65, 66]],
  ['a Float32Array', () => new Float32Array(hidden(), 4, 1), [67, 68, 93, 94]],
  ['an ArrayBuffer', () => hidden(), [91, 92, 65, 66, 67, 68, 93, 94]],
  ['an empty ArrayBuffer', () => new ArrayBuffer(0), []],
  ['a Blob', () => new Blob(['é', U(255)]), [195, 169, 255]],
  ['a Blob of one part', () => new Blob([new Uint8Array(hidden(), 2, 2)]), [65, 66]],
  ['a slice of a Blob', () => new Blob(['abcdef', 'gh']).slice(2, -1), bytes(enc('cdefg'))],
  ['a File', () => new File(['abc'], 'f.txt'), [97, 98, 99]],
  ['an empty Blob', () => new Blob([]), []],
  ['query parameters', () => new URLSearchParams([['a', '1 &'], ['b', 'é']]), bytes(enc('a=1%20%26&b=%C3%A9'))],
];
const CHUNKS = [
  ['bytes', () => U(195), [195]], ['text', () => 'é', [195, 169]], ['buffer', () => U(169, 65).buffer, [169, 65]], ['nothing', () => U(), []],
  ['words', () => new Uint16Array(hidden(), 2, 1), [65, 66]], ['view', () => new DataView(hidden(), 1, 2), [92, 65]], ['part', () => new Uint8Array(hidden(), 3, 2), [66, 67]],
];
const make = {
  Response: (b, h) => new Response(b, { headers: h || {} }),
  Request: (b, h) => new Request('http://x/', { method: 'POST', body: b, headers: h || {} }),
  again: (b, h) => new Request(new Request('http://x/', { method: 'POST', body: b, headers: h || {} })),
  override: (b, h) => new Request(new Request('http://x/', { method: 'POST', body: 'wrong' }), { body: b, headers: h || {} }),
};
const utf8 = (b) => new TextDecoder().decode(new Uint8Array(b));
async function consume(o, how, want, what, fails) {
  mc.eq(o.bodyUsed, false, 'bodyUsed', what + ': bodyUsed before:');
  let r;
  if (how === 'reader') {
    if (!o.body) { mc.check(want.length === 0, 'lost', what + ': there is no body'); return; }
    r = await settle((async () => {
      const out = [], rd = o.body.getReader();
      for (;;) { const { done, value } = await rd.read(); if (done) return new Uint8Array(out).buffer; out.push(...bytes(typeof value === 'string' ? enc(value) : value)); }
    })());
  } else r = await settle(o[how]());
  if (fails) {
    mc.check(!r.ok && r.e === fails, 'error', () => `${what}: ${how}() of a failing stream: ${r.ok ? mc.show(r.v) : name(r.e)}`);
  } else {
    mc.check(r.ok || how === 'json', 'threw', () => `${what}: ${how}() threw ${name(r.e)} ${r.e && r.e.message}`);
    if (how === 'text') mc.eq(r.v, utf8(want), 'text', `${what}: text():`);
    else if (how === 'json') {
      const j = sync(() => JSON.parse(utf8(want)));
      mc.check(r.ok === j.ok && (!r.ok ? r.e instanceof SyntaxError : mc.show(r.v) === mc.show(j.v)), 'json', () => `${what}: json(): ${r.ok ? mc.show(r.v) : name(r.e)}`);
    } else if (r.ok) {
      mc.check(r.v instanceof ArrayBuffer, 'type', () => `${what}: arrayBuffer() gives ${mc.show(r.v)}`);
      mc.eq(bytes(r.v), want, 'bytes', `${what}: ${how}:`);
    }
  }
  if (how === 'reader') return;
  mc.eq(o.bodyUsed, true, 'bodyUsed', what + ': bodyUsed after:');
  for (const again of ['text', 'arrayBuffer', 'json', 'formData']) {
    const s = await settle(o[again]());
    mc.check(!s.ok && s.e instanceof TypeError, 'twice', () => `${what}: ${again}() after ${how}() ${s.ok ? 'gives ' + mc.show(s.v) : 'throws ' + name(s.e)}`);
  }
  const c = sync(() => o.clone());
  mc.check(!c.ok && c.e instanceof TypeError, 'twice', () => `${what}: clone() after ${how}()`);
}
const HOW = ['text', 'arrayBuffer', 'json', 'reader'];
async function kinds() {
  const [what, mk, want] = mc.pick(KINDS);
  const cls = mc.pick(['Response', 'Request', 'again', 'override']);
  const copies = mc.choose(3), how = mc.pick(HOW);
  mc.event(`${cls} of ${what}, ${copies} clones, ${how}`);
  const src = mk(), before = ArrayBuffer.isView(src) || src instanceof ArrayBuffer ? bytes(src) : null;
  const r = sync(() => make[cls](src));
  mc.check(r.ok, 'threw', () => `${cls} of ${what} threw ${name(r.e)}`);
  if (!r.ok) return;
  const all = [r.v];
  for (let i = 0; i < copies; i++) all.push(mc.choose(2) ? all[i].clone() : all[0].clone());
  const first = mc.choose(all.length);
  const order = [all[first], ...all.filter((_, i) => i !== first)];
  for (let i = 0; i < order.length; i++) await consume(order[i], i ? mc.pick(['text', 'arrayBuffer']) : how, want, `${cls} of ${what}${copies ? ' (' + copies + ' clones)' : ''}`);
  if (before) mc.eq(bytes(src), before, 'source', 'the bytes given changed:');
  mc.outcome(`${cls} ${what} ${how}`);
}
async function nothing() {
  const cls = mc.pick(['Response', 'Request']), how = mc.pick(['text', 'arrayBuffer']), b = mc.pick([null, undefined]);
  const o = make[cls](b);
  mc.eq(o.body, null, 'body', `the body of a ${cls} without one:`);
  const c = mc.choose(2) ? o.clone() : o;
  await consume(c, how, [], `${cls} without a body`);
  mc.outcome(cls + how);
}
async function streams() {
  const list = [];
  for (let i = 0, k = mc.choose(params.chunks + 1); i < k; i++) list.push(mc.pick(CHUNKS));
  const end = mc.pick(['close', 'error']), when = mc.pick(['start', 'pull', 'later']);
  const cls = mc.pick(['Response', 'Request']), clone = mc.choose(2), how = mc.pick(['text', 'arrayBuffer']);
  const failure = { failure: 1 };
  const want = list.flatMap((c) => c[2]);
  const what = `${cls}${clone ? ' (cloned)' : ''} of a stream (${when}) of ${list.map((c) => c[0])} then ${end}`;
  mc.event(what + ' ' + how);
  let i = 0;
  const step = (c) => { if (i < list.length) c.enqueue(list[i++][1]()); else if (end === 'close') c.close(); else c.error(failure); };
  const s = new ReadableStream(when === 'start' ? { start(c) { for (let k = 0; k <= list.length; k++) step(c); } } : when === 'pull' ? { pull: step } : { async pull(c) { await null; await null; step(c); } });
  const o = make[cls](s);
  const all = clone ? [o, o.clone()] : [o];
  // (an error discards what was queued: reading fails with it either way)
  for (const x of mc.choose(2) ? all.reverse() : all) await consume(x, how, want, what, end === 'error' ? failure : null);
  mc.outcome(what);
}
// --- blobs
async function blobs() {
  const PARTS = [['text', () => 'aé', bytes(enc('aé'))], ['bytes', () => U(1, 2), [1, 2]], ['view', () => new Uint8Array(hidden(), 2, 2), [65, 66]], ['words', () => new Uint16Array(hidden(), 2, 1), [65, 66]], ['dataview', () => new DataView(hidden(), 3, 2), [66, 67]], ['buffer', () => U(7, 8).buffer, [7, 8]], ['blob', () => new Blob(['x', 'y']), [120, 121]], ['empty', () => '', []], ['number', () => 5, [53]]];
  const list = [], src = [];
  for (let i = 0, k = mc.choose(params.parts + 1); i < k; i++) list.push(mc.pick(PARTS));
  for (const p of list) src.push(p[1]());
  const want = list.flatMap((p) => p[2]);
  const type = mc.pick(['', 'text/x']), cls = mc.pick(['Blob', 'File']);
  const what = `${cls} of ${list.map((p) => p[0])}`;
  mc.event(what);
  let b = cls === 'Blob' ? new Blob(src, { type }) : new File(src, 'n.t', { type, lastModified: 7 });
  const check = async (b, want, what) => {
    mc.eq(b.size, want.length, 'size', what + ': size:');
    mc.eq(bytes(await b.arrayBuffer()), want, 'bytes', what + ': arrayBuffer:');
    mc.eq(await b.text(), utf8(want), 'text', what + ': text:');
    const rd = b.stream().getReader(), out = [];
    for (;;) { const { done, value } = await rd.read(); if (done) break; out.push(...bytes(value)); value.fill(9); }
    mc.eq(out, want, 'bytes', what + ': stream:');
  };
  // nothing anybody does to the parts or to what was handed out changes the blob
  for (const s of src) { if (s instanceof ArrayBuffer) new Uint8Array(s).fill(9); else if (ArrayBuffer.isView(s)) new Uint8Array(s.buffer).fill(9); }
  await check(b, want, what);
  new Uint8Array(await b.arrayBuffer()).fill(9);
  await check(b, want, what + ' (after changing what it gave)');
  mc.eq(b.type, type, 'type', what + ': type:');
  if (cls === 'File') mc.check(b.name === 'n.t' && b.lastModified === 7 && b instanceof Blob, 'file', what + ': name and lastModified');
  const args = mc.pick([[], [0], [1], [1, 3], [-2], [-3, -1], [0, 99], [3, 1], [99], [0, 0], [1, undefined], [1, 3, 'a/b']]);
  const s = b.slice(...args);
  await check(s, want.slice(args[0], args[1]), `${what} slice(${args})`);
  mc.eq(s.type, args[2] || '', 'type', `${what} slice(${args}): type:`);
  await check(new Blob([s, b]), [...want.slice(args[0], args[1]), ...want], `${what} and its slice(${args})`);
  await check(b, want, what + ' (after slicing)');
  mc.outcome(what);
}
// --- forms
async function forms() {
  const B = mc.pick(['XX', '----WebKitFormBoundary7', "a'()+_,-./:=?"]);
  const FIELDS = [
    ['name="a"', null, 'v'], ['name="a"', null, ''], ['name="b c"', null, 'l1\r\nl2é'], ['name=""', null, 'anon'], ['name="d"', null, 'x--' + B + 'y'], ['name="d"', null, '\r\n--' + B.slice(0, 1)],
    ['name="f"; filename="f.bin"', 'application/x', U(0, 255, 13, 10, 45, 45)], ['filename="g.txt"; name="f"', 'text/plain', U(65)], ['name="f"; filename=""', 'application/octet-stream', U()], ['name="f"; filename="h"', null, U(13, 10)], ['name="name"; filename="name"', 'text/plain', U(66)],
  ];
  const list = [], out = [], pre = mc.pick(['', 'preamble\r\n']), post = mc.pick(['', '\r\n', '\r\nepilogue']);
  for (let i = 0, k = mc.choose(params.fields + 1); i < k; i++) list.push(mc.pick(FIELDS));
  const push = (x) => out.push(...bytes(typeof x === 'string' ? enc(x) : x));
  push(pre);
  for (const [disp, type, v] of list) {
    push(`--${B}\r\nContent-Disposition: form-data; ${disp}\r\n${type ? 'Content-Type: ' + type + '\r\n' : ''}\r\n`);
    push(v); push('\r\n');
  }
  push(`--${B}--${post}`);
  const quoted = /[^\w-]/.test(B) || mc.choose(2);
  const cls = mc.pick(['Response', 'Request']);
  const what = `${cls}: multipart ${mc.show(list.map((f) => f[0]))} boundary ${B} ${mc.show([pre, post])}`;
  mc.event(what);
  const r = await settle(make[cls](new Uint8Array(out), { 'Content-Type': `multipart/form-data; boundary=${quoted ? '"' + B + '"' : B}` }).formData());
  mc.check(r.ok, 'form-threw', () => `${what}: formData() threw ${name(r.e)} ${r.e && r.e.message}`);
  if (!r.ok) return;
  const got = [];
  for (const [n, v] of r.v) got.push([n, typeof v === 'string' ? v : v instanceof File ? ['file', v.name, v.type, bytes(await v.arrayBuffer())] : 'odd']);
  const want = list.map(([disp, type, v]) => {
    const n = /(?:^|; )name="([^"]*)"/.exec(disp)[1], f = /filename="([^"]*)"/.exec(disp);
    return [n, f ? ['file', f[1], type || (got[list.indexOf(disp)] || [])[2] || '*', bytes(v)] : v];
  });
  // (the type of a file without one is not laid down)
  got.forEach((g, i) => { if (want[i] && Array.isArray(g[1]) && Array.isArray(want[i][1]) && !list[i][1]) g[1][2] = want[i][1][2] = '*'; });
  mc.eq(got, want, 'form', what + ':');
  mc.outcome(what);
}
async function urlencoded() {
  const words = ['a', 'b c', 'é&=', '', '100%', '+'];
  const list = [];
  for (let i = 0, k = mc.choose(params.fields + 1); i < k; i++) list.push([mc.pick(words), mc.pick(words)]);
  const plus = mc.choose(2), cls = mc.pick(['Response', 'Request']);
  const e = (s) => { const x = encodeURIComponent(s); return plus ? x.replace(/%20/g, '+') : x; };
  const text = list.map((p) => p.map(e).join('=')).join('&');
  mc.event(text);
  const r = await settle(make[cls](text, { 'content-type': mc.pick(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=UTF-8']) }).formData());
  mc.check(r.ok, 'form-threw', () => `formData() of ${text} threw ${name(r.e)}`);
  if (r.ok) mc.eq([...r.v], list, 'form', `formData() of ${mc.show(text)}:`);
  mc.outcome(text);
}
// --- what belongs to a message besides its body
async function meta() {
  const status = mc.pick([undefined, 200, 201, 204, 404, 500]), st = mc.pick([undefined, 'Fine']), how = mc.pick(['headers', 'object', 'pairs', 'none']);
  const H = () => ({ headers: new Headers({ 'X-A': '1', 'Set-Cookie': 'c' }), object: { 'X-A': '1', 'Set-Cookie': 'c' }, pairs: [['X-A', '1'], ['Set-Cookie', 'c']], none: undefined }[how]);
  const src = H(), list = how === 'none' ? [] : [['set-cookie', 'c'], ['x-a', '1']];
  const hs = (h) => [...h].sort((a, b) => (a[0] < b[0] ? -1 : 1));
  const kind = mc.pick(['new', 'json', 'request']);
  const mk = () => (kind === 'new' ? new Response('b', { status, statusText: st, headers: src }) : kind === 'json' ? Response.json({ a: [1] }, { status, statusText: st, headers: src }) : new Request('http://x/y?z', { method: 'put', headers: src, body: 'b' }));
  const extra = kind === 'json' ? [['content-type', 'application/json']] : [];
  const want = [...extra, ...list];
  const same = (o, what) => {
    mc.check(o.headers instanceof Headers, 'headers', what + ': headers');
    mc.eq(hs(o.headers), want, 'headers', what + ': headers:');
    if (kind === 'request') mc.eq([o.url, o.method], ['http://x/y?z', 'PUT'], 'meta', what + ': url, method:');
    else mc.eq([o.status, o.statusText, o.ok], [status || 200, st || '', (status || 200) < 300], 'meta', what + ': status, statusText, ok:');
  };
  const a = mk(), b = mk(), what = `${kind} ${mc.show([status, st, how])}`;
  mc.event(what);
  same(a, what);
  const c = a.clone();
  same(c, what + ' (clone)');
  const d = kind === 'request' ? new Request(a) : new Response(null, a);
  same(d, what + ' (made from it)');
  // changing one changes no other
  const victim = mc.pick([a, b, c, d]);
  victim.headers.set('X-A', 'changed'); victim.headers.append('X-New', '1');
  for (const o of [a, b, c, d]) if (o !== victim) same(o, what + ' (after changing the headers of another)');
  if (how === 'headers') mc.eq(hs(src), list, 'headers', what + ': the headers it was made from:');
  const e = Response.error();
  mc.eq([e.status, e.ok, e.type, e.body], [0, false, 'error', null], 'meta', 'Response.error():');
  const s = mc.pick([undefined, 301, 302, 303, 307, 308]), rd = Response.redirect('http://y/', s);
  mc.eq([rd.status, rd.headers.get('location'), rd.ok], [s || 302, 'http://y/', false], 'meta', `Response.redirect ${s}:`);
  const bad = sync(() => Response.redirect('http://y/', mc.pick([200, 300, 304, 404])));
  mc.check(!bad.ok && bad.e instanceof RangeError, 'meta', 'Response.redirect with a status that is none');
  mc.outcome(what);
}
globalThis.mcRun = () => ({ kinds, nothing, streams, blobs, forms, urlencoded, meta })[params.mode]();
