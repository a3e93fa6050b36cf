// Every function the runtime gives to worker code, called with arguments nobody expects.
const stdre = /^(Object|Function|Array|Number|parse(Float|Int)|Infinity|NaN|undefined|Boolean|String|Symbol|Date|Promise|RegExp|\w*Error|JSON|Math|Intl|\w*Array|ArrayBuffer|SharedArrayBuffer|Atomics|DataView|Map|BigInt|Set|Iterator|Weak\w+|Proxy|Reflect|FinalizationRegistry|(de|en)codeURI(Component)?|escape|unescape|eval|isFinite|isNaN|globalThis|WebAssembly|(__)?mc\w*|params|discover)$/;
function discover() {
  const out = [], seen = new Set([globalThis]);
  function walk(o, path, owner) {
    if (o === null || (typeof o !== 'object' && typeof o !== 'function') || seen.has(o)) return;
    seen.add(o);
    for (const k of Reflect.ownKeys(o)) {
      const de = Reflect.getOwnPropertyDescriptor(o, k), p = path ? path + '.' + String(k) : String(k);
      for (const [t, f] of [['', de.value], ['get ', de.get], ['set ', de.set]]) {
        if (typeof f === 'function' && !seen.has(f)) out.push({ name: t + p, f, owner: o, proto: path.endsWith('.prototype') ? path.slice(0, -10) : null, ctor: t === '' && /^class\b/.test(Function.prototype.toString.call(f)) });
        walk(f, p);
      }
    }
  }
  const names = Object.getOwnPropertyNames(globalThis);
  for (const k of names) if (stdre.test(k)) walk({ [k]: globalThis[k] }, '');
  out.length = 0;
  for (const k of names) if (!stdre.test(k)) walk({ [k]: globalThis[k] }, '');
  return out;
}
const u8 = (n) => new Uint8Array(n || 4).fill(7);
const detached = () => { const b = new ArrayBuffer(8); b.transfer(); return b; };
const detachedView = () => { const v = u8(8); v.buffer.transfer(); return v; };
const shrunk = () => { const b = new ArrayBuffer(16, { maxByteLength: 64 }); const v = new Uint8Array(b, 8); b.resize(4); return v; };
const tracking = () => { const b = new ArrayBuffer(16, { maxByteLength: 64 }); const v = new Uint8Array(b); b.resize(64); return v; };
const boom = () => { throw new Error('boom'); };
const trap = () => new Proxy({}, new Proxy({}, { get: () => boom }));
const circ = () => { const a = { b: [] }; a.b.push(a); a.self = a; return a; };
const deep = () => { let a = {}; for (let i = 0; i < 20000; i++) a = { a }; return a; };
const evil = () => ({ get name() { return boom(); }, get method() { return boom(); }, get headers() { return boom(); }, get body() { return boom(); }, get type() { return boom(); }, toString: boom, valueOf: boom, get length() { return boom(); }, [Symbol.iterator]: boom, then: boom, get signal() { return boom(); } });
const odd = () => ({ name: 5n, hash: Symbol('h'), method: {}, headers: [[1, Symbol('x')], 'x', null], url: -1, body: [null], type: {}, length: -5, streamId: 1e300, iterations: NaN, salt: new Uint8Array(0) });
const HOSTILE = {
  'nothing': () => undefined, 'null': () => null, 'true': () => true, '-1': () => -1, '0.5': () => 0.5, 'NaN': () => NaN, 'Infinity': () => Infinity, '2^53': () => 2 ** 53, '2^32': () => 2 ** 32, '1e300': () => 1e300,
  'a bigint': () => -1n, 'a symbol': () => Symbol('s'), 'empty string': () => '', 'lone surrogate': () => 'a\ud800', 'NUL and non-Latin': () => '\0\u{1f600}\u0100\r\n', 'long string': () => 'x'.repeat(1 << 17),
  'object': () => ({}), 'object without prototype': () => Object.create(null), 'array': () => [1, [2]], 'circular': circ, 'deep': deep, 'throwing getters': evil, 'odd members': odd, 'throwing proxy': trap,
  'revoked proxy': () => { const r = Proxy.revocable(u8(), {}); r.revoke(); return r.proxy; }, 'function': () => boom, 'class': () => class { constructor() { boom(); } },
  'detached buffer': detached, 'detached view': detachedView, 'view out of bounds': shrunk, 'view of a growing buffer': tracking, 'empty view': () => new Uint8Array(0), 'shared': () => new Uint8Array(new SharedArrayBuffer(8)),
  'DataView': () => new DataView(new ArrayBuffer(8), 3), 'Float64Array': () => new Float64Array([NaN, 1e300]), 'BigInt64Array': () => new BigInt64Array(2), 'large view': () => u8(1 << 17),
  'Map': () => new Map([[{}, 1]]), 'date': () => new Date(NaN), 'regexp': () => /x/g, 'Blob': () => new Blob(['x']), 'FormData': () => { const f = new FormData(); f.append('a', 'b'); return f; }, 'stream': () => new ReadableStream({ start(c) { c.enqueue({}); c.error(null); } }), 'Response': () => new Response('x'), 'pending promise': () => new Promise(() => {}), 'rejected promise': () => Promise.reject(undefined), 'globalThis': () => globalThis,
};
const HN = Object.keys(HOSTILE);
const cb = () => () => {};
const key = (name, data) => new CryptoKey('secret', true, { name, hash: { name: 'SHA-256' } }, ['sign', 'verify', 'deriveBits'], data || u8(32));
const opts = () => ({ method: 'POST', url: 'http://h/', headers: { a: 'b' }, body: u8() });
// what each function expects; those that are not listed are given hostile values only
const BASE = {
  'console.log': () => ['x'], __console_log: () => [2, 'x'], __formatArg: () => ['x'], __nativeScheduleTimeout: () => [1, 5], __nativeScheduleInterval: () => [1, 5], __nativeClearTimer: () => [1], __coerceDelay: () => [1], setTimeout: () => [cb(), 1, 2], setInterval: () => [cb(), 1, 2], clearTimeout: () => [1], queueMicrotask: () => [cb()], __executeTimer: () => [1],
  __chunkBytes: () => [u8()], __bufferBody: () => ['x'], __bindingCall: () => [__nativeBindingKv, 'KV', 'get', {}], __normalizeFetchInput: () => ['http://h/', opts()], __nativeFetchStreaming: () => [opts(), cb(), cb()], __nativeBindingFetch: () => ['B', opts(), cb(), cb()], __nativeBindingStorage: () => ['B', 'get', { key: 'k', body: u8() }, cb(), cb()], __nativeBindingKv: () => ['B', 'get', { key: 'k', value: '1' }, cb(), cb()], __nativeBindingDatabase: () => ['B', { query: 'q', params: '[]' }, cb(), cb()], __nativeBindingWorker: () => ['B', opts(), cb(), cb()],
  __serializeFormData: () => [new FormData()], __prepareFetch: () => ['http://h/', opts()], fetch: () => ['http://h/', opts()], __nativeStreamRead: () => [1, cb()], __nativeStreamCancel: () => [1], __createNativeStream: () => [1], __responseStreamCreate: () => [], __responseStreamWrite: () => [__responseStreamCreate(), u8()], __responseStreamEnd: () => [__responseStreamCreate(), 'e'], __responseStreamIsClosed: () => [1],
  __nativeWebSocketConnect: () => ['ws://h/', {}, cb()], __nativeWebSocketAccept: () => [1, cb()], __nativeWebSocketSend: () => [1, u8()], __nativeWebSocketClose: () => [1, 1000, 'r'], WebSocket: () => ['ws://h/', []], 'WebSocket.__adopt': () => [1],
  'WebSocket.prototype.send': () => ['x'], 'WebSocket.prototype.close': () => [1000, 'x'], 'WebSocket.prototype._dispatch': () => ['message', {}],
  'crypto.subtle.__nativeDigest': () => ['SHA-256', u8()], 'crypto.subtle.digest': () => ['SHA-256', u8()], 'crypto.subtle.__nativeHmacSign': () => ['SHA-256', u8(), u8()], 'crypto.subtle.__nativeHmacVerify': () => ['SHA-256', u8(), u8(32), u8()],
  'crypto.subtle.importKey': () => ['raw', u8(65), { name: mc.pick(['HMAC', 'ECDSA', 'RSASSA-PKCS1-v1_5', 'PBKDF2']), hash: 'SHA-256', namedCurve: 'P-256' }, true, ['sign']], 'crypto.subtle.sign': () => [mc.pick(['HMAC', 'ECDSA', 'RSASSA-PKCS1-v1_5']), key(mc.pick(['HMAC', 'ECDSA', 'RSASSA-PKCS1-v1_5'])), u8()], 'crypto.subtle.verify': () => { const n = mc.pick(['HMAC', 'ECDSA', 'RSASSA-PKCS1-v1_5']); return [n, key(n), u8(32), u8()]; },
  'crypto.subtle.__nativeEcdsaSign': () => [u8(138), u8()], 'crypto.subtle.__nativeEcdsaVerify': () => [u8(65), u8(64), u8()], 'crypto.subtle.generateKey': () => [{ name: mc.pick(['HMAC', 'ECDSA']), namedCurve: 'P-256', hash: 'SHA-256' }, true, ['sign']], 'crypto.subtle.__nativeRsaSign': () => ['SHA-256', u8(100), u8()], 'crypto.subtle.__nativeRsaVerify': () => ['SHA-256', u8(100), u8(256), u8()],
  'crypto.subtle.__nativePbkdf2DeriveBits': () => ['SHA-256', u8(), u8(), 2, 64], 'crypto.subtle.deriveBits': () => [{ name: 'PBKDF2', salt: u8(), iterations: 2, hash: 'SHA-256' }, key('PBKDF2'), 64], 'crypto.getRandomValues': () => [u8()], CryptoKey: () => ['secret', true, {}, [], u8()], __createCryptoKey: () => ['secret', true, {}, [], u8()],
  __text_encode: () => ['x'], __text_decode: () => ['utf-8', u8(), false, false], TextDecoder: () => ['utf-8', { fatal: true }], 'TextDecoder.prototype.decode': () => [u8(), {}], 'TextEncoder.prototype.encode': () => ['x'], 'TextEncoder.prototype.encodeInto': () => ['x', u8()],
  ReadableStream: () => [{ start() {}, pull() {}, cancel() {} }, {}], ReadableStreamDefaultController: () => [new ReadableStream()], ReadableStreamDefaultReader: () => [new ReadableStream()], 'ReadableStreamDefaultController.prototype.enqueue': () => ['x'],
  Blob: () => [['x', u8()], { type: 'a/b' }], 'Blob.prototype.slice': () => [0, 1, 'x'], File: () => [['x'], 'n', {}], 'FormData.prototype.append': () => ['a', 'b', 'c'], 'FormData.prototype.set': () => ['a', 'b', 'c'], 'FormData.prototype.get': () => ['a'], 'FormData.prototype.forEach': () => [cb()],
  'AbortSignal.prototype.addEventListener': () => ['abort', cb()], 'AbortSignal.abort': () => ['x'], 'AbortSignal.timeout': () => [1], 'AbortController.prototype.abort': () => ['x'], structuredClone: () => [{ a: 1 }, { transfer: [] }], btoa: () => ['x'], atob: () => ['eA=='],
  URLSearchParams: () => ['a=b'], 'URLSearchParams.prototype.append': () => ['a', 'b'], 'URLSearchParams.prototype.set': () => ['a', 'b'], 'URLSearchParams.prototype.forEach': () => [cb()], URL: () => ['http://h/p?q#f', 'http://b/'], Headers: () => [[['a', 'b']]], 'Headers.prototype.append': () => ['a', 'b'], 'Headers.prototype.set': () => ['a', 'b'], 'Headers.prototype.forEach': () => [cb()],
  Request: () => ['http://h/', opts()], Response: () => ['x', { status: 200, headers: {} }], 'Response.json': () => [{}, {}], 'Response.redirect': () => ['http://h/', 302],
};
const MAKE = {
  WebSocket: () => WebSocket.__adopt(1), TextEncoder: () => new TextEncoder(), TextDecoder: () => new TextDecoder(), ReadableStream: () => new ReadableStream(), ReadableStreamDefaultController: () => { let c; new ReadableStream({ start(x) { c = x; } }); return c; }, ReadableStreamDefaultReader: () => new ReadableStream().getReader(),
  Blob: () => new Blob(['xy']), File: () => new File(['x'], 'n'), FormData: () => HOSTILE.FormData(), AbortSignal: () => new AbortController().signal, AbortController: () => new AbortController(), URLSearchParams: () => new URLSearchParams('a=b'), URL: () => new URL('http://h/'), Headers: () => new Headers({ a: 'b' }), Request: () => new Request('http://h/', opts()), Response: () => new Response('x'),
};
const ALL = discover();

globalThis.mcRun = async function () {
  const t = mc.pick(ALL), base = (BASE[t.name] || (() => []))();
  const n = Math.min(base.length + (BASE[t.name] ? 1 : 2), 6);
  const at = mc.choose(n + (t.proto ? 1 : 0));
  const h = mc.pick(HN), args = base.slice();
  let self = t.proto && MAKE[t.proto] ? MAKE[t.proto]() : t.owner;
  const put = (i, name) => { if (i === n) self = HOSTILE[name](); else { while (args.length < i) args.push(undefined); args[i] = HOSTILE[name](); } };
  put(at, h);
  let what = `${t.name}: ${h} at ${at}`;
  if (params.two) {
    const b = mc.choose(n - at + (t.proto ? 1 : 0));
    if (b) { const g = mc.pick(HN); put(at + b, g); what += `, ${g} at ${at + b}`; }
  } else if (params.fewer && mc.choose(2)) args.length = at + 1;
  mc.event(what);
  // a very large count of PBKDF2 rounds only takes long
  if (t.name.endsWith('DeriveBits') && typeof args[3] === 'number' && args[3] > 1e6) return;
  let r, how = 'returned ';
  try { r = t.ctor ? Reflect.construct(t.f, args) : Reflect.apply(t.f, self, args); } catch (e) { how = 'threw '; }
  try { how += typeof r; } catch (e) {}
  mc.outcome(t.name + ' ' + how);
  if (r !== null && typeof r === 'object') {
    try { if (typeof r.then === 'function') r.then(() => {}, () => {}); } catch (e) {}
  }
  await mcTicks(6);
  // the context still works
  mc.check(new TextDecoder().decode(new TextEncoder().encode('ok')) === 'ok' && new URL('http://h/x').pathname === '/x', 'broken', what);
};
