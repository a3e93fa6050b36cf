// Headers, URLSearchParams and FormData against a list of [name, value].
const call = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e: String(e && e.name || e) }; } };
const KINDS = {
  headers: { make: (i) => new Headers(i), norm: (n) => String(n).toLowerCase(), names: ['A', 'a', 'b-c', 'Set-Cookie', 'set-cookie', 'WWW-Authenticate', 7] },
  params: { make: (i) => new URLSearchParams(i), norm: (n) => String(n), names: ['a', 'A', 'b&=', '', 7, 'ä'] },
  form: { make: () => new FormData(), norm: (n) => String(n), names: ['a', 'A', '', 7, 'ä'] },
};
const joined = (l) => l.join(', ');
// what iteration must give
function sameEntries(kind, got, want, what) {
  const bad = (m) => mc.fail('entries', `${what}: ${m}: got ${mc.show(got)}, expected ${mc.show(want)}`);
  if (got.some((e) => !Array.isArray(e) || e.length !== 2 || typeof e[0] !== 'string')) return bad('not a list of pairs');
  if (kind !== 'headers') { if (mc.show(got) !== mc.show(want)) bad('wrong entries'); return; }
  // headers: values of a name are combined (set-cookie never); names in order of first insertion or sorted
  const names = [...new Set(want.map((e) => e[0]))], seen = [...new Set(got.map((e) => e[0]))];
  if (mc.show(seen) !== mc.show(names) && mc.show(seen) !== mc.show([...names].sort())) return bad('wrong names');
  for (const n of names) {
    const w = want.filter((e) => e[0] === n).map((e) => e[1]), g = got.filter((e) => e[0] === n).map((e) => e[1]);
    if (n === 'set-cookie' ? mc.show(g) !== mc.show(w) : n.endsWith('authenticate') ? joined(g) !== joined(w) : mc.show(g) !== mc.show([joined(w)])) bad('wrong values of ' + n);
  }
}
function verify(kind, o, ref, what, probes) {
  const K = KINDS[kind];
  const entries = [...o.entries()];
  sameEntries(kind, entries, ref, what);
  mc.eq([...o], entries, 'iterate', what + ': iteration and entries():');
  mc.eq([...o.keys()], entries.map((e) => e[0]), 'iterate', what + ': keys():');
  mc.eq([...o.values()], entries.map((e) => e[1]), 'iterate', what + ': values():');
  const each = [], self = {};
  o.forEach(function (v, n, x) { each.push([n, v]); if (x !== o || this !== self) mc.fail('forEach', what + ': forEach passes a wrong object or this'); }, self);
  mc.eq(each, entries, 'iterate', what + ': forEach:');
  if (kind === 'params') mc.eq(o.size, ref.length, 'size', what + ': size:');
  for (const n of probes) {
    const w = ref.filter((e) => e[0] === K.norm(n)).map((e) => e[1]);
    mc.eq(o.has(n), w.length > 0, 'has', `${what}: has(${mc.show(n)}):`);
    const g = o.get(n);
    if (kind === 'headers') {
      const okay = w.length === 0 ? [null] : /cookie|authenticate/i.test(n) ? [w[0], joined(w)] : [joined(w)];
      mc.check(okay.includes(g), 'get', () => `${what}: get(${mc.show(n)}): got ${mc.show(g)}, expected ${mc.show(okay)}`);
    } else {
      mc.eq(g, w.length ? w[0] : null, 'get', `${what}: get(${mc.show(n)}):`);
      mc.eq(o.getAll(n), w, 'getAll', `${what}: getAll(${mc.show(n)}):`);
    }
  }
  if (kind === 'headers') mc.eq(o.getSetCookie(), ref.filter((e) => e[0] === 'set-cookie').map((e) => e[1]), 'cookies', what + ': getSetCookie():');
}
// change everything the object has handed out
function meddle(kind, o) {
  for (const e of [...o.entries(), ...o]) { e[0] = 'evil'; e[1] = 'evil'; }
  if (kind === 'headers') { const c = o.getSetCookie(); c.push('evil'); c[0] = 'evil'; }
  else for (const n of KINDS[kind].names) { const a = o.getAll(n); a.push('evil'); a[0] = 'evil'; }
}
function refSet(kind, ref, n, v) {
  const i = ref.findIndex((e) => e[0] === n);
  if (i < 0) return [...ref, [n, v]];
  return ref.filter((e, k) => e[0] !== n || k === i).map((e) => (e[0] === n ? [n, v] : e));
}
function ops() {
  const kind = params.kind, K = KINDS[kind];
  let o = K.make(), ref = [], n = 0, log = [], old = [];
  const acts = [];
  for (const name of params.names ? params.names.split(',') : K.names) acts.push(['append', name], ['set', name], ['delete', name]);
  if (params.names) acts.push(['meddle']);
  else acts.push(['append', K.names[0], ''], ['append', K.names[1], 3], ['append', K.names[0], 'x, y;é&='.slice(0, kind === 'headers' ? 5 : 9)], ['set', K.names[1], null], ['meddle']);
  if (kind !== 'form') acts.push(['copy'], ['pairs']);
  if (kind === 'params') acts.push(['sort'], ['reparse']);
  for (let d = 0; d < params.depth; d++) {
    if (mc.foreign()) return;
    const a = mc.pick(acts);
    const what = () => log.join('; ');
    log.push(a.map((x) => mc.show(x)).join(' '));
    mc.event(log[log.length - 1]);
    const v = a.length > 2 ? a[2] : 'v' + ++n;
    const key = K.norm(a[1]);
    const r = call(() => {
      if (a[0] === 'append') { o.append(a[1], v); ref = [...ref, [key, String(v)]]; }
      else if (a[0] === 'set') { o.set(a[1], v); ref = refSet(kind, ref, key, String(v)); }
      else if (a[0] === 'delete') { o.delete(a[1]); ref = ref.filter((e) => e[0] !== key); }
      else if (a[0] === 'copy') { old.push([o, ref]); o = K.make(o); }
      else if (a[0] === 'pairs') { old.push([o, ref]); o = K.make([...o]); }
      else if (a[0] === 'sort') { o.sort(); ref = [...ref].sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0)); }
      else if (a[0] === 'reparse') { o = K.make(o.toString()); }
      else meddle(kind, o);
    });
    mc.check(r.ok, 'threw', () => `${what()}: threw ${r.e}`);
    verify(kind, o, ref, what(), K.names);
  }
  for (const [x, r] of old) verify(kind, x, r, log.join('; ') + ' (the object copied from)', K.names);
  mc.outcome(ref);
}
// construction from every kind of initializer
function init() {
  const kind = params.kind, K = KINDS[kind];
  const names = kind === 'headers' ? ['X-B', 'a', 'Set-Cookie'] : ['b', 'a', 'A'];
  const pairs = [];
  for (let i = 0, k = mc.choose(4); i < k; i++) pairs.push([mc.pick(names), 'v' + i]);
  const uniq = new Map(pairs);
  const how = mc.pick(['pairs', 'object', 'same', 'map', 'iterable', 'nothing', 'undefined', 'numbers', 'entries']);
  mc.event(how + ' ' + mc.show(pairs));
  const want = { pairs, object: [...uniq], same: pairs, map: [...uniq], iterable: pairs, nothing: [], undefined: [], numbers: pairs.map(([n], i) => [n, String(i)]), entries: [...uniq] }[how];
  const src = { pairs: () => pairs.map((p) => [...p]), object: () => Object.fromEntries(pairs), same: () => K.make(pairs), map: () => new Map(pairs), iterable: () => (function* () { for (const p of pairs) yield [...p]; })(), nothing: () => undefined, undefined: () => ({}), numbers: () => pairs.map(([n], i) => [n, i]), entries: () => Object.entries(Object.fromEntries(pairs)) }[how]();
  const r = call(() => (how === 'nothing' ? K.make() : K.make(src)));
  mc.check(r.ok, 'threw', () => `new from ${how} ${mc.show(pairs)}: threw ${r.e}`);
  if (!r.ok) return;
  const ref = want.map(([n, v]) => [K.norm(n), v]);
  verify(kind, r.v, ref, `from ${how} ${mc.show(pairs)}`, names);
  // independent of what it was made from
  r.v.append('zz', '1');
  r.v.append(names[0], 'w');
  if (how === 'same') verify(kind, src, pairs.map(([n, v]) => [K.norm(n), v]), 'the original after changes to the copy', names);
  mc.outcome(how + mc.show(pairs));
}
// query strings
function utf8(s) { return Array.from(new TextEncoder().encode(s)); }
function refDecode(s) {
  const b = utf8(s), out = [], hex = (c) => '0123456789abcdef'.indexOf(String.fromCharCode(c).toLowerCase());
  for (let i = 0; i < b.length; i++) {
    if (b[i] === 43) out.push(32);
    else if (b[i] === 37 && i + 2 < b.length && hex(b[i + 1]) >= 0 && hex(b[i + 2]) >= 0) { out.push(hex(b[i + 1]) * 16 + hex(b[i + 2])); i += 2; }
    else out.push(b[i]);
  }
  return new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(out));
}
function refParse(q) {
  const out = [];
  for (const part of q.split('&')) {
    if (part === '') continue;
    const i = part.indexOf('=');
    out.push(i < 0 ? [refDecode(part), ''] : [refDecode(part.slice(0, i)), refDecode(part.slice(i + 1))]);
  }
  return out;
}
function parse() {
  const tokens = ['a', '=', '&', '+', '%', '4', '%41', '%C3', '%a9', 'é', '%26', '%3D', '?', '%ff', '\u{1F600}', '%2B', ' '].slice(0, params.tokens || 99);
  let q = '';
  for (let i = 0, k = mc.choose(params.len + 1); i < k; i++) q += mc.pick(tokens);
  const lead = mc.choose(2) ? '?' : '';
  mc.event(lead + q);
  const r = call(() => new URLSearchParams(lead + q));
  mc.check(r.ok, 'parse-threw', () => `parsing ${mc.show(lead + q)} threw ${r.e}`);
  if (!r.ok) return;
  const want = refParse(lead === '' && q.startsWith('?') ? q.slice(1) : q);
  mc.eq([...r.v], want, 'parse', `parsing ${mc.show(lead + q)}:`);
  const s = call(() => r.v.toString());
  mc.check(s.ok, 'serialize', () => `serializing ${mc.show(want)} threw ${s.e}`);
  mc.eq([...new URLSearchParams(s.v)], want, 'round-trip', `${mc.show(want)} serialized as ${s.v} and parsed again:`);
  mc.check(/^[\x21-\x7e]*$/.test(s.v), 'serialize', () => `serialized as ${mc.show(s.v)}`);
  const u = call(() => new URL('http://h/p' + '?' + q + '#f'));
  mc.check(u.ok, 'url-threw', () => `new URL(${mc.show('http://h/p?' + q + '#f')}) threw ${u.e}`);
  if (u.ok) mc.eq([...u.v.searchParams], refParse(q), 'parse', `query of the URL with ${mc.show(q)}:`);
  mc.outcome(want);
}
// names and values made of anything survive serialization
function serialize() {
  const atoms = ['a', '&', '=', '+', '%', '%41', ' ', 'é', '\u{1F600}', '\ud800', '\udc00', '', '#', '?', '\0', '\n', '"', "'", '*', '~', '(', '[]', '/'];
  const word = () => { let s = ''; for (let i = 0, k = 1 + mc.choose(params.len); i < k; i++) s += mc.pick(atoms); return s; };
  const n = word(), v = word();
  mc.event(mc.show([n, v]));
  const p = new URLSearchParams();
  p.append('first', '1'); p.append(n, v); p.append('last', '2');
  const r = call(() => p.toString());
  mc.check(r.ok, 'serialize', () => `serializing ${mc.show([n, v])} threw ${r.e}`);
  if (!r.ok) return;
  const wf = (s) => s.toWellFormed();
  mc.eq([...new URLSearchParams(r.v)].map((e) => e.map(wf)), [['first', '1'], [wf(n), wf(v)], ['last', '2']], 'round-trip', `${mc.show([n, v])} serialized as ${r.v} and parsed again:`);
  mc.outcome(r.v);
}
globalThis.mcRun = () => ({ ops, init, parse, serialize })[params.mode]();
