globalThis.singleByte={"windows-1252": {"labels": ["latin1", "ascii", "iso-8859-1", "windows-1252", "Windows-1252 "], "table": "\u20ac\u0081\u201a\u0192\u201e\u2026\u2020\u2021\u02c6\u2030\u0160\u2039\u0152\u008d\u017d\u008f\u0090\u2018\u2019\u201c\u201d\u2022\u2013\u2014\u02dc\u2122\u0161\u203a\u0153\u009d\u017e\u0178\u00a0\u00a1\u00a2\u00a3\u00a4\u00a5\u00a6\u00a7\u00a8\u00a9\u00aa\u00ab\u00ac\u00ad\u00ae\u00af\u00b0\u00b1\u00b2\u00b3\u00b4\u00b5\u00b6\u00b7\u00b8\u00b9\u00ba\u00bb\u00bc\u00bd\u00be\u00bf\u00c0\u00c1\u00c2\u00c3\u00c4\u00c5\u00c6\u00c7\u00c8\u00c9\u00ca\u00cb\u00cc\u00cd\u00ce\u00cf\u00d0\u00d1\u00d2\u00d3\u00d4\u00d5\u00d6\u00d7\u00d8\u00d9\u00da\u00db\u00dc\u00dd\u00de\u00df\u00e0\u00e1\u00e2\u00e3\u00e4\u00e5\u00e6\u00e7\u00e8\u00e9\u00ea\u00eb\u00ec\u00ed\u00ee\u00ef\u00f0\u00f1\u00f2\u00f3\u00f4\u00f5\u00f6\u00f7\u00f8\u00f9\u00fa\u00fb\u00fc\u00fd\u00fe\u00ff"}, "iso-8859-2": {"labels": ["iso-8859-2", "latin2"], "table": "\u0080\u0081\u0082\u0083\u0084\u0085\u0086\u0087\u0088\u0089\u008a\u008b\u008c\u008d\u008e\u008f\u0090\u0091\u0092\u0093\u0094\u0095\u0096\u0097\u0098\u0099\u009a\u009b\u009c\u009d\u009e\u009f\u00a0\u0104\u02d8\u0141\u00a4\u013d\u015a\u00a7\u00a8\u0160\u015e\u0164\u0179\u00ad\u017d\u017b\u00b0\u0105\u02db\u0142\u00b4\u013e\u015b\u02c7\u00b8\u0161\u015f\u0165\u017a\u02dd\u017e\u017c\u0154\u00c1\u00c2\u0102\u00c4\u0139\u0106\u00c7\u010c\u00c9\u0118\u00cb\u011a\u00cd\u00ce\u010e\u0110\u0143\u0147\u00d3\u00d4\u0150\u00d6\u00d7\u0158\u016e\u00da\u0170\u00dc\u00dd\u0162\u00df\u0155\u00e1\u00e2\u0103\u00e4\u013a\u0107\u00e7\u010d\u00e9\u0119\u00eb\u011b\u00ed\u00ee\u010f\u0111\u0144\u0148\u00f3\u00f4\u0151\u00f6\u00f7\u0159\u016f\u00fa\u0171\u00fc\u00fd\u0163\u02d9"}, "koi8-r": {"labels": ["koi8-r", "koi8"], "table": "\u2500\u2502\u250c\u2510\u2514\u2518\u251c\u2524\u252c\u2534\u253c\u2580\u2584\u2588\u258c\u2590\u2591\u2592\u2593\u2320\u25a0\u2219\u221a\u2248\u2264\u2265\u00a0\u2321\u00b0\u00b2\u00b7\u00f7\u2550\u2551\u2552\u0451\u2553\u2554\u2555\u2556\u2557\u2558\u2559\u255a\u255b\u255c\u255d\u255e\u255f\u2560\u2561\u0401\u2562\u2563\u2564\u2565\u2566\u2567\u2568\u2569\u256a\u256b\u256c\u00a9\u044e\u0430\u0431\u0446\u0434\u0435\u0444\u0433\u0445\u0438\u0439\u043a\u043b\u043c\u043d\u043e\u043f\u044f\u0440\u0441\u0442\u0443\u0436\u0432\u044c\u044b\u0437\u0448\u044d\u0449\u0447\u044a\u042e\u0410\u0411\u0426\u0414\u0415\u0424\u0413\u0425\u0418\u0419\u041a\u041b\u041c\u041d\u041e\u041f\u042f\u0420\u0421\u0422\u0423\u0416\u0412\u042c\u042b\u0417\u0428\u042d\u0429\u0427\u042a"}, "windows-1251": {"labels": ["windows-1251", "cp1251"], "table": "\u0402\u0403\u201a\u0453\u201e\u2026\u2020\u2021\u20ac\u2030\u0409\u2039\u040a\u040c\u040b\u040f\u0452\u2018\u2019\u201c\u201d\u2022\u2013\u2014\u0098\u2122\u0459\u203a\u045a\u045c\u045b\u045f\u00a0\u040e\u045e\u0408\u00a4\u0490\u00a6\u00a7\u0401\u00a9\u0404\u00ab\u00ac\u00ad\u00ae\u0407\u00b0\u00b1\u0406\u0456\u0491\u00b5\u00b6\u00b7\u0451\u2116\u0454\u00bb\u0458\u0405\u0455\u0457\u0410\u0411\u0412\u0413\u0414\u0415\u0416\u0417\u0418\u0419\u041a\u041b\u041c\u041d\u041e\u041f\u0420\u0421\u0422\u0423\u0424\u0425\u0426\u0427\u0428\u0429\u042a\u042b\u042c\u042d\u042e\u042f\u0430\u0431\u0432\u0433\u0434\u0435\u0436\u0437\u0438\u0439\u043a\u043b\u043c\u043d\u043e\u043f\u0440\u0441\u0442\u0443\u0444\u0445\u0446\u0447\u0448\u0449\u044a\u044b\u044c\u044d\u044e\u044f"}, "macintosh": {"labels": ["macintosh"], "table": "\u00c4\u00c5\u00c7\u00c9\u00d1\u00d6\u00dc\u00e1\u00e0\u00e2\u00e4\u00e3\u00e5\u00e7\u00e9\u00e8\u00ea\u00eb\u00ed\u00ec\u00ee\u00ef\u00f1\u00f3\u00f2\u00f4\u00f6\u00f5\u00fa\u00f9\u00fb\u00fc\u2020\u00b0\u00a2\u00a3\u00a7\u2022\u00b6\u00df\u00ae\u00a9\u2122\u00b4\u00a8\u2260\u00c6\u00d8\u221e\u00b1\u2264\u2265\u00a5\u00b5\u2202\u2211\u220f\u03c0\u222b\u00aa\u00ba\u03a9\u00e6\u00f8\u00bf\u00a1\u00ac\u221a\u0192\u2248\u2206\u00ab\u00bb\u2026\u00a0\u00c0\u00c3\u00d5\u0152\u0153\u2013\u2014\u201c\u201d\u2018\u2019\u00f7\u25ca\u00ff\u0178\u2044\u20ac\u2039\u203a\ufb01\ufb02\u2021\u00b7\u201a\u201e\u2030\u00c2\u00ca\u00c1\u00cb\u00c8\u00cd\u00ce\u00cf\u00cc\u00d3\u00d4\uf8ff\u00d2\u00da\u00db\u00d9\u0131\u02c6\u02dc\u00af\u02d8\u02d9\u02da\u00b8\u02dd\u02db\u02c7"}, "ibm866": {"labels": ["ibm866"], "table": "\u0410\u0411\u0412\u0413\u0414\u0415\u0416\u0417\u0418\u0419\u041a\u041b\u041c\u041d\u041e\u041f\u0420\u0421\u0422\u0423\u0424\u0425\u0426\u0427\u0428\u0429\u042a\u042b\u042c\u042d\u042e\u042f\u0430\u0431\u0432\u0433\u0434\u0435\u0436\u0437\u0438\u0439\u043a\u043b\u043c\u043d\u043e\u043f\u2591\u2592\u2593\u2502\u2524\u2561\u2562\u2556\u2555\u2563\u2551\u2557\u255d\u255c\u255b\u2510\u2514\u2534\u252c\u251c\u2500\u253c\u255e\u255f\u255a\u2554\u2569\u2566\u2560\u2550\u256c\u2567\u2568\u2564\u2565\u2559\u2558\u2552\u2553\u256b\u256a\u2518\u250c\u2588\u2584\u258c\u2590\u2580\u0440\u0441\u0442\u0443\u0444\u0445\u0446\u0447\u0448\u0449\u044a\u044b\u044c\u044d\u044e\u044f\u0401\u0451\u0404\u0454\u0407\u0457\u040e\u045e\u00b0\u2219\u00b7\u221a\u2116\u00a4\u25a0\u00a0"}, "iso-8859-15": {"labels": ["iso-8859-15"], "table": "\u0080\u0081\u0082\u0083\u0084\u0085\u0086\u0087\u0088\u0089\u008a\u008b\u008c\u008d\u008e\u008f\u0090\u0091\u0092\u0093\u0094\u0095\u0096\u0097\u0098\u0099\u009a\u009b\u009c\u009d\u009e\u009f\u00a0\u00a1\u00a2\u00a3\u20ac\u00a5\u0160\u00a7\u0161\u00a9\u00aa\u00ab\u00ac\u00ad\u00ae\u00af\u00b0\u00b1\u00b2\u00b3\u017d\u00b5\u00b6\u00b7\u017e\u00b9\u00ba\u00bb\u0152\u0153\u0178\u00bf\u00c0\u00c1\u00c2\u00c3\u00c4\u00c5\u00c6\u00c7\u00c8\u00c9\u00ca\u00cb\u00cc\u00cd\u00ce\u00cf\u00d0\u00d1\u00d2\u00d3\u00d4\u00d5\u00d6\u00d7\u00d8\u00d9\u00da\u00db\u00dc\u00dd\u00de\u00df\u00e0\u00e1\u00e2\u00e3\u00e4\u00e5\u00e6\u00e7\u00e8\u00e9\u00ea\u00eb\u00ec\u00ed\u00ee\u00ef\u00f0\u00f1\u00f2\u00f3\u00f4\u00f5\u00f6\u00f7\u00f8\u00f9\u00fa\u00fb\u00fc\u00fd\u00fe\u00ff"}};

const hex = (a) => Array.from(a, (x) => x.toString(16).padStart(2, '0')).join(' ');
const call = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e }; } };

// Encoding Standard, UTF-8 decoder.
function refDecode(b, start) {
  let out = '', bad = false, i = start || 0;
  const cp = [];
  while (i < b.length) {
    const x = b[i++];
    if (x < 0x80) { cp.push(x); continue; }
    let need, lo = 0x80, hi = 0xbf, c;
    if (x >= 0xc2 && x <= 0xdf) { need = 1; c = x & 0x1f; }
    else if (x >= 0xe0 && x <= 0xef) { need = 2; c = x & 0xf; if (x === 0xe0) lo = 0xa0; if (x === 0xed) hi = 0x9f; }
    else if (x >= 0xf0 && x <= 0xf4) { need = 3; c = x & 7; if (x === 0xf0) lo = 0x90; if (x === 0xf4) hi = 0x8f; }
    else { cp.push(0xfffd); bad = true; continue; }
    while (need) {
      if (i >= b.length || b[i] < lo || b[i] > hi) { cp.push(0xfffd); bad = true; c = -1; break; }
      c = (c << 6) | (b[i++] & 0x3f); lo = 0x80; hi = 0xbf; need--;
    }
    if (c >= 0) cp.push(c);
  }
  return { s: cp.map((c) => String.fromCodePoint(c)).join(''), bad };
}
function refEncode(s) {
  const out = [];
  for (let i = 0; i < s.length; i++) {
    let c = s.charCodeAt(i);
    const pair = c >= 0xd800 && c <= 0xdbff && i + 1 < s.length && s.charCodeAt(i + 1) >= 0xdc00 && s.charCodeAt(i + 1) <= 0xdfff;
    let units = 1;
    if (pair) { c = 0x10000 + ((c - 0xd800) << 10) + (s.charCodeAt(++i) - 0xdc00); units = 2; }
    else if (c >= 0xd800 && c <= 0xdfff) c = 0xfffd;
    const b = c < 0x80 ? [c] : c < 0x800 ? [0xc0 | c >> 6, 0x80 | c & 63] : c < 0x10000 ? [0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63] : [0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63];
    out.push({ b, units });
  }
  return out;
}
const D = {};
for (const f of [false, true]) for (const g of [false, true]) D[[f, g]] = new TextDecoder('utf-8', { fatal: f, ignoreBOM: g });

function checkDecode(bytes, view) {
  const bom = bytes[0] === 0xef && bytes[1] === 0xbb && bytes[2] === 0xbf;
  for (const g of [false, true]) {
    const want = refDecode(bytes, bom && !g ? 3 : 0);
    const r = call(() => D[[false, g]].decode(view));
    mc.check(r.ok && r.v === want.s, 'decode', () => `decode(${hex(bytes)}${g ? ', ignoreBOM' : ''}) gave ${r.ok ? mc.show(r.v) : 'an exception'}, expected ${mc.show(want.s)}`);
    const q = call(() => D[[true, g]].decode(view));
    if (want.bad) mc.check(!q.ok && q.e instanceof TypeError, 'fatal', () => `fatal decode of the invalid ${hex(bytes)} gave ${q.ok ? mc.show(q.v) : q.e}`);
    else mc.check(q.ok && q.v === want.s, 'fatal', () => `fatal decode of the valid ${hex(bytes)} gave ${q.ok ? mc.show(q.v) : q.e}`);
  }
}
const LEAD = [0x41, 0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff];
function decode() {
  const n = mc.choose(params.len), pre = [];
  for (let i = 0; i < n; i++) pre.push(mc.pick(LEAD));
  for (let x = 0; x < (params.last || 256); x++) {
    const all = [...pre, x];
    checkDecode(all, new Uint8Array(all));
  }
  mc.outcome(hex(pre));
}
// longer texts, built from fragments, in every kind of view
const FRAG = [[], [0x41], [0xef, 0xbb, 0xbf], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [0xf0, 0x9f], [0xed, 0xa0, 0x80], [0xff]];
function views() {
  const bytes = [];
  for (let i = 0; i < params.len; i++) bytes.push(...mc.pick(FRAG));
  const pad = mc.choose(2);
  const src = new Uint8Array([...(pad ? [0x7a, 0xc3] : []), ...bytes, ...(pad ? [0xa9, 0x7a] : [])]);
  const off = pad ? 2 : 0;
  const kinds = [() => new Uint8Array(src.buffer, off, bytes.length), () => new DataView(src.buffer, off, bytes.length), () => new Int8Array(src.buffer, off, bytes.length), () => new Uint8ClampedArray(src.buffer, off, bytes.length)];
  if (!pad) kinds.push(() => src.buffer);
  if (bytes.length % 2 === 0) kinds.push(() => new Uint16Array(src.buffer, off, bytes.length / 2));
  for (const k of kinds) checkDecode(bytes, k());
  for (const [f, g] of [[false, false], [true, true]]) {
    const d = new TextDecoder(mc.pick(['utf-8', 'UTF8', ' utf-8\n']), { fatal: f, ignoreBOM: g });
    mc.check(d.fatal === f && d.ignoreBOM === g, 'options', 'options are not reflected');
    const want = refDecode(bytes, !g && bytes[0] === 0xef && bytes[1] === 0xbb ? 3 : 0);
    const r = call(() => d.decode(src.subarray(off, off + bytes.length)));
    if (f && want.bad) mc.check(!r.ok, 'fatal', 'invalid input accepted'); else mc.check(r.ok && r.v === want.s, 'decode', () => `${hex(bytes)} gave ${mc.show(r)}`);
    // a failed or finished decode leaves nothing behind
    mc.check(d.decode(new Uint8Array([0x42])) === 'B' && d.decode() === '', 'state', 'a decoder kept something of an earlier call');
  }
  mc.outcome(hex(bytes));
}
// chunks of a text decoded with {stream: true}
function stream() {
  const bytes = [];
  for (let i = 0; i < params.len; i++) bytes.push(...mc.pick([[0x41], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80]]));
  const cut = mc.choose(bytes.length + 1);
  const inside = cut < bytes.length && (bytes[cut] & 0xc0) === 0x80;
  const d = new TextDecoder();
  const got = d.decode(new Uint8Array(bytes.slice(0, cut)), { stream: true }) + d.decode(new Uint8Array(bytes.slice(cut)), { stream: true }) + d.decode();
  const want = refDecode(bytes).s;
  mc.check(got === want, inside ? 'stream-split' : 'stream', () => `${hex(bytes)} cut at ${cut} decoded as ${mc.show(got)}`);
  mc.outcome([hex(bytes), cut, got]);
}
const UNITS = [0x61, 0x00, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xffff];
const enc = new TextEncoder();
function encode() {
  const n = mc.choose(params.len + 1);
  let s = '';
  for (let i = 0; i < n; i++) s += String.fromCharCode(mc.pick(UNITS));
  const ref = refEncode(s), bytes = ref.flatMap((r) => r.b);
  const got = enc.encode(s);
  mc.check(got instanceof Uint8Array && hex(got) === hex(bytes), 'encode', () => `encode(${mc.show(s)}) gave ${hex(got)}, expected ${hex(bytes)}`);
  mc.check(got.byteOffset === 0 && got.buffer.byteLength === bytes.length, 'encode-buffer', 'the result is a window of a larger buffer');
  const back = new TextDecoder('utf-8', { ignoreBOM: true }).decode(got);
  if (s.isWellFormed()) mc.check(back === s, 'roundtrip', () => `${mc.show(s)} came back as ${mc.show(back)}`);
  for (let room = 0; room <= bytes.length + 1; room++) {
    const buf = new Uint8Array(room + 3).fill(0xaa);
    const r = enc.encodeInto(s, buf.subarray(1, 1 + room));
    let read = 0, w = [];
    for (const x of ref) { if (w.length + x.b.length > room) break; w.push(...x.b); read += x.units; }
    mc.check(r.read === read && r.written === w.length, 'into-count', () => `encodeInto(${mc.show(s)}, ${room} bytes) reported ${mc.show(r)}, expected read ${read}, written ${w.length}`);
    mc.check(hex(buf.subarray(1, 1 + r.written)) === hex(w), 'into', () => `encodeInto(${mc.show(s)}, ${room} bytes) wrote ${hex(buf.subarray(1, 1 + r.written))}`);
    for (let i = 0; i < buf.length; i++) if (i < 1 || i > room) mc.check(buf[i] === 0xaa, 'into-outside', 'encodeInto wrote outside of its destination');
  }
  mc.outcome(hex(bytes));
}
function labels() {
  const names = Object.keys(singleByte);
  const k = mc.choose(names.length + 4);
  if (k >= names.length) {
    const which = k - names.length;
    if (which === 0) for (const l of ['', 'utf-7', 'nope', 'utf_8x', 'utf 8']) { const r = call(() => new TextDecoder(l)); mc.check(!r.ok && r.e instanceof RangeError, 'label', `label ${l} was not refused`); }
    if (which === 1) { mc.eq(enc.encode(), new Uint8Array(0), 'encode-empty'); mc.eq(enc.encode(undefined), new Uint8Array(0), 'encode-empty'); mc.eq(enc.encode(12), new Uint8Array([49, 50]), 'encode-number'); mc.eq(enc.encoding, 'utf-8', 'name'); mc.eq(new TextDecoder().encoding, 'utf-8', 'name'); }
    if (which >= 2) {
      const le = which === 2, d = new TextDecoder(le ? 'utf-16le' : 'utf-16be');
      for (const a of UNITS) for (const b of UNITS) {
        const s = 'x' + String.fromCharCode(a, b), raw = [];
        for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); raw.push(...(le ? [c & 255, c >> 8] : [c >> 8, c & 255])); }
        const r = call(() => d.decode(new Uint8Array(raw)));
        mc.check(r.ok && r.v === s.toWellFormed(), 'utf16', () => `utf-16 ${hex(raw)} gave ${mc.show(r)}`);
      }
    }
    return mc.outcome(k);
  }
  const { labels, table } = singleByte[names[k]];
  for (const l of labels) {
    const d = new TextDecoder(l);
    for (let x = 0; x < 256; x++) {
      const want = x < 128 ? String.fromCharCode(x) : table[x - 128];
      mc.check(d.decode(new Uint8Array([0x41, x, 0x42])) === 'A' + want + 'B', 'single-byte', () => `${l}: byte ${x}`);
    }
  }
  mc.outcome(names[k]);
}
// base64
const B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/';
function refBtoa(s) {
  let bits = '';
  for (const c of s) bits += c.charCodeAt(0).toString(2).padStart(8, '0');
  while (bits.length % 6) bits += '0';
  let o = '';
  for (let i = 0; i < bits.length; i += 6) o += B64[parseInt(bits.slice(i, i + 6), 2)];
  while (o.length % 4) o += '=';
  return o;
}
function refAtob(s) { // null: refused
  s = s.replace(/[\t\n\f\r ]/g, '');
  if (s.length % 4 === 0) s = s.endsWith('==') ? s.slice(0, -2) : s.endsWith('=') ? s.slice(0, -1) : s;
  if (s.length % 4 === 1) return null;
  let bits = '';
  for (const c of s) {
    const v = c === '-' ? 62 : c === '_' ? 63 : B64.indexOf(c);
    if (v < 0) return null;
    bits += v.toString(2).padStart(6, '0');
  }
  let o = '';
  for (let i = 0; i + 8 <= bits.length; i += 8) o += String.fromCharCode(parseInt(bits.slice(i, i + 8), 2));
  return o;
}
function btoa_() {
  const n = mc.choose(params.len);
  let pre = '';
  for (let i = 0; i < n; i++) pre += mc.pick(['\0', 'a', '\x7f', '\x80', '\xff', '\x3f', '\xfb']);
  for (let c = 0; c < 258; c++) {
    const s = pre + String.fromCharCode(c === 257 ? 0x4e00 : c);
    const r = call(() => btoa(s));
    if (c > 255) { mc.check(!r.ok && r.e.name === 'InvalidCharacterError', 'btoa-range', () => `btoa accepted ${mc.show(s)}`); continue; }
    mc.check(r.ok && r.v === refBtoa(s), 'btoa', () => `btoa(${mc.show(s)}) = ${mc.show(r)}`);
    const q = call(() => atob(r.v));
    mc.check(q.ok && q.v === s, 'roundtrip', () => `atob(btoa(${mc.show(s)})) = ${mc.show(q)}`);
  }
  mc.outcome([n, pre]);
}
const BA = ['A', '/', 'Q', '9', '+', '=', ' ', '\n', '!', '-', '_', '\u00e9'];
function atob_() {
  const n = mc.choose(params.len);
  let pre = '';
  for (let i = 0; i < n; i++) pre += mc.pick(BA);
  for (const c of [...B64, '=', ' ', '\n', '\t', '\f', '\r', '\x0b', '-', '_', '!', '\u00a0', '\u0141', '']) {
    const s = pre + c, want = refAtob(s), r = call(() => atob(s));
    if (want === null) mc.check(!r.ok && r.e.name === 'InvalidCharacterError', 'atob-invalid', () => `atob(${mc.show(s)}) gave ${mc.show(r)}, the input is not base64`);
    else mc.check(r.ok && r.v === want, 'atob', () => `atob(${mc.show(s)}) gave ${mc.show(r)}, expected ${mc.show(want)}`);
  }
  mc.outcome([n, pre]);
}
// sizes around powers of two, the interesting character at the very end
function long() {
  const n = mc.pick([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16385, 65535, 65536, 65537]);
  const fill = mc.pick(['a', '\u00e9', '\u20ac', '\u{1f600}']), end = mc.pick(['', 'z', '\u00e9', '\ud800', '\u{1f600}']);
  const s = fill.repeat(n) + end;
  const bytes = refEncode(s).flatMap((r) => r.b), got = enc.encode(s);
  mc.check(got.length === bytes.length && got.every((x, i) => x === bytes[i]), 'encode', () => `encoding ${n} x ${mc.show(fill)} and ${mc.show(end)} is wrong`);
  mc.check(new TextDecoder().decode(got) === s.toWellFormed(), 'roundtrip', () => `decoding ${n} x ${mc.show(fill)} and ${mc.show(end)} is wrong`);
  const buf = new Uint8Array(bytes.length - 1), r = enc.encodeInto(s, buf), last = refEncode(s).at(-1);
  mc.check(r.written === bytes.length - last.b.length && r.read === s.length - last.units, 'into-count', () => `encodeInto of ${s.length} units into ${buf.length} bytes reported ${mc.show(r)}`);
  const bin = String.fromCharCode(n & 255, 255, 0).repeat(n) + 'x'.repeat(n % 3), b64 = btoa(bin);
  mc.check(b64 === refBtoa(bin), 'btoa', () => `btoa of ${bin.length} characters is wrong`);
  mc.check(atob(b64) === bin, 'atob', () => `atob of ${b64.length} characters is wrong`);
  mc.outcome([n, fill, end]);
}
globalThis.mcRun = () => ({ decode, views, stream, encode, labels, btoa: btoa_, atob: atob_, long })[params.mode]();
