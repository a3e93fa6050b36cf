// structuredClone: an isomorphic copy that shares nothing with the original.
class Point { constructor() { this.x = 1; } get y() { return 2; } }
const LEAVES = [
  () => undefined, () => null, () => true, () => -0, () => NaN, () => 5, () => 'é\ud800', () => 10n,
  () => new Date(77), () => new Date(NaN), () => /a[/]"/giu, () => new Number(5), () => new String('s'), () => new Boolean(false),
  () => new RangeError('m'), () => new Error(''), () => U8(1, 2, 3).buffer, () => new Uint8Array(0),
];
const U8 = (...b) => new Uint8Array(b);
const BAD = [() => () => 1, () => Symbol('s'), () => class {}];
function build(n, all, depth) {
  const leafs = params.leaves ? params.leaves.split(',').map((i) => LEAVES[i]) : LEAVES;
  const opts = [...leafs.map((f) => ['leaf', f])];
  if (params.views) opts.push(['view']);
  if (params.bad) for (const b of BAD) opts.push(['bad', b]);
  if (depth > 0) for (const k of ['array', 'holes', 'object', 'proto', 'null', 'class', 'map', 'mapkey', 'set', 'arrayprop']) opts.push([k]);
  for (let i = 0; i < all.length; i++) opts.push(['ref', i]);
  const o = mc.pick(opts);
  n.push(o[0] + (o[0] === 'ref' ? o[1] : o[0] === 'leaf' ? mc.show(o[1]()) : ''));
  if (o[0] === 'ref') return all[o[1]];
  const keep = (v) => { if (v !== null && typeof v === 'object') all.push(v); return v; };
  const sub = () => build(n, all, depth - 1);
  switch (o[0]) {
    case 'leaf': return keep(o[1]());
    case 'bad': n.bad = true; return o[1]();
    case 'view': {
      const bufs = all.filter((b) => b instanceof ArrayBuffer);
      const b = bufs.length && mc.choose(2) ? bufs[bufs.length - 1] : keep(new ArrayBuffer(16));
      new Uint8Array(b).forEach((_, i, a) => { a[i] = i + 1; });
      return keep(mc.pick([() => new Uint8Array(b, 1, 2), () => new DataView(b, 2, 3), () => new Uint16Array(b, 2, 2), () => new Float64Array(b, 8), () => new BigInt64Array(b, 0, 1), () => new Uint8ClampedArray(b), () => new DataView(b)])());
    }
    case 'array': { const a = keep([]); a.push(sub()); if (params.wide) a.push(sub()); return a; }
    case 'holes': { const a = keep([]); a.length = 3; a[1] = sub(); return a; }
    case 'arrayprop': { const a = keep([1]); a.extra = sub(); return a; }
    case 'object': { const a = keep({}); a.k = sub(); if (params.wide) a.l = sub(); return a; }
    case 'proto': { const a = keep({}); Object.defineProperty(a, '__proto__', { value: sub(), enumerable: true, writable: true, configurable: true }); return a; }
    case 'null': { const a = keep(Object.create(null)); a.constructor = sub(); return a; }
    case 'class': { const a = keep(new Point()); a.p = sub(); return a; }
    case 'map': { const a = keep(new Map()); a.set('k', sub()); return a; }
    case 'mapkey': { const a = keep(new Map()); a.set(sub(), 'v'); return a; }
    case 'set': { const a = keep(new Set()); a.add(sub()); a.add('last'); return a; }
  }
}
function same(a, b, to, from, path) {
  const bad = (m) => { mc.fail('copy', `${path}: ${m}`); throw 'stop'; };
  if (a === null || typeof a !== 'object') { if (!Object.is(a, b)) bad(`${mc.show(a)} became ${mc.show(b)}`); return; }
  if (b === null || typeof b !== 'object') bad(`${mc.show(a)} became ${mc.show(b)}`);
  if (a === b) bad('the copy shares an object with the original');
  if (to.has(a) || from.has(b)) { if (to.get(a) !== b || from.get(b) !== a) bad('references that were the same are not, or the other way round'); return; }
  to.set(a, b); from.set(b, a);
  const proto = Object.getPrototypeOf(b), plain = a instanceof Point || Object.getPrototypeOf(a) === null;
  if (proto !== (plain ? Object.prototype : Object.getPrototypeOf(a))) bad(`a ${a.constructor && a.constructor.name} became a ${b.constructor && b.constructor.name}`);
  const tag = (x) => Object.prototype.toString.call(x);
  if (tag(a) !== tag(b)) bad(`${tag(a)} became ${tag(b)}`);
  const sub = (x, y, k) => same(x, y, to, from, path + k);
  if (a instanceof Date) { if (!Object.is(a.getTime(), b.getTime())) bad('another date'); return; }
  if (a instanceof RegExp) { if (String(a) !== String(b)) bad(`${a} became ${b}`); return; }
  if (a instanceof Number || a instanceof String || a instanceof Boolean) { if (!Object.is(a.valueOf(), b.valueOf())) bad('another value'); return; }
  if (a instanceof Error) { if (a.name !== b.name || a.message !== b.message) bad(`${mc.show(a)} became ${mc.show(b)}`); return; }
  if (a instanceof ArrayBuffer) { if (mc.show(a) !== mc.show(b)) bad(`${mc.show(a)} became ${mc.show(b)}`); return; }
  if (ArrayBuffer.isView(a)) {
    if (mc.show(a) !== mc.show(b) || a.byteOffset !== b.byteOffset) bad(`${mc.show(a)} became ${mc.show(b)}`);
    sub(a.buffer, b.buffer, '.buffer');
    return;
  }
  if (a instanceof Map) {
    const x = [...a], y = [...b];
    if (x.length !== y.length) bad('another size');
    x.forEach(([k, v], i) => { sub(k, y[i][0], '<key>'); sub(v, y[i][1], '<value>'); });
    return;
  }
  if (a instanceof Set) {
    const x = [...a], y = [...b];
    if (x.length !== y.length) bad('another size');
    x.forEach((v, i) => sub(v, y[i], '<member>'));
    return;
  }
  if (Array.isArray(a) && a.length !== b.length) bad(`length ${a.length} became ${b.length}`);
  const ka = Object.keys(a), kb = Object.keys(b);
  if (mc.show(ka) !== mc.show(kb)) bad(`keys ${ka} became ${kb}`);
  for (const k of ka) sub(a[k], b[k], '.' + k);
}
globalThis.mcRun = () => {
  const n = [], all = [];
  const v = build(n, all, params.depth);
  mc.event(n.join(' '));
  const before = mc.show(v);
  let c, err;
  try { c = structuredClone(v); } catch (e) { err = e; }
  if (n.bad) {
    mc.check(err, 'uncloneable', () => `[${n.join(' ')}]: a function or symbol was cloned`);
    if (err) mc.check(err.name === 'DataCloneError', 'uncloneable', () => `[${n.join(' ')}]: threw ${err}`);
    return;
  }
  mc.check(!err, 'threw', () => `[${n.join(' ')}]: threw ${err && err.stack}`);
  if (err) return;
  same(v, c, new Map(), new Map(), `[${n.join(' ')}]: value`);
  mc.eq(mc.show(v), before, 'original', 'the original changed:');
  mc.outcome(n.join(' '));
};
