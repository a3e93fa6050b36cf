globalThis.mc = {
  choose: (n) => __mc_choose(n),
  pick: (a) => a[__mc_choose(a.length)],
  foreign: () => __mc_foreign(),
  event: (s) => __mc_event(String(s)),
  outcome: (s) => __mc_outcome(typeof s === 'string' ? s : JSON.stringify(s)),
  fail: (sig, msg) => { __mc_fail(sig, msg); },
  check: (c, sig, msg) => { if (!c) __mc_fail(sig, typeof msg === 'function' ? msg() : msg); },
  eq: (a, b, sig, msg) => { const x = mc.show(a), y = mc.show(b); if (x !== y) __mc_fail(sig, (msg || '') + ' got ' + x + ', expected ' + y); },
  show: (v) => mc_show(v, 0),
};
globalThis.mc_show = function (v, d) {
  if (d > 6) return '...';
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  if (typeof v === 'bigint') return v + 'n';
  if (typeof v === 'number') return Object.is(v, -0) ? '-0' : String(v);
  if (typeof v === 'string') return JSON.stringify(v);
  if (typeof v === 'function') return 'function';
  if (typeof v !== 'object') return String(v);
  const s = (x) => mc_show(x, d + 1);
  if (Array.isArray(v)) return '[' + v.map(s).join(',') + ']';
  if (v instanceof ArrayBuffer) return 'AB(' + Array.from(new Uint8Array(v)) + ')';
  if (ArrayBuffer.isView(v)) return v.constructor.name + '(' + Array.from(new Uint8Array(v.buffer, v.byteOffset, v.byteLength)) + ')';
  if (v instanceof Error) return v.name + '(' + v.message + ')';
  if (v instanceof Map) return 'Map' + s([...v]);
  if (v instanceof Set) return 'Set' + s([...v]);
  if (v instanceof Date) return 'Date' + v.getTime();
  return '{' + Object.keys(v).sort().map((k) => k + ':' + s(v[k])).join(',') + '}';
};
globalThis.__mcStart = function () {
  globalThis.__mcDone = 0;
  const bad = (e) => { globalThis.__mcDone = 2; if (e !== 'stop') __mc_fail('threw', 'the driver threw: ' + (e && e.stack || e)); };
  try {
    Promise.resolve(mcRun()).then(() => { globalThis.__mcDone = 1; }, bad);
  } catch (e) { bad(e); }
};
// settle everything that can settle in microtasks
globalThis.mcTicks = async function (n) { for (let i = 0; i < (n || 30); i++) await null; };
