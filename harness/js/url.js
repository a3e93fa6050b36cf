// URL: components, relative references and changes against a small reference.
const call = (f) => { try { return { ok: true, v: f() }; } catch (e) { return { ok: false, e: String(e && e.name || e) + ': ' + String(e && e.message) }; } };
const FIELDS = ['protocol', 'username', 'password', 'hostname', 'port', 'pathname', 'search', 'hash'];
const blank = (s) => (s === '?' || s === '#' ? '' : s);
const dec = (s) => { try { return decodeURIComponent(s); } catch (e) { return s; } };
const userinfo = (m) => (m.username || m.password ? m.username + (m.password ? ':' + m.password : '') + '@' : '');
const compose = (m) => m.protocol + '//' + userinfo(m) + m.hostname + (m.port ? ':' + m.port : '') + m.pathname + m.search + m.hash;
function query(s) {
  return s.replace(/^\?/, '').split('&').filter((x) => x).map((p) => { const i = p.indexOf('='); return (i < 0 ? [p, ''] : [p.slice(0, i), p.slice(i + 1)]).map((x) => dec(x.replace(/\+/g, ' '))); });
}
function verify(u, m, what, given) {
  for (const f of FIELDS) {
    const got = u[f], want = m[f];
    const ok = got === want || (f === 'search' || f === 'hash' ? blank(got) === blank(want) : f === 'username' || f === 'password' ? got === dec(want) : false);
    mc.check(ok, f, () => `${what}: ${f} is ${mc.show(got)}, expected ${mc.show(want)}`);
  }
  const host = m.hostname + (m.port ? ':' + m.port : '');
  mc.eq(u.host, host, 'host', what + ': host:');
  if (/^https?:$/.test(m.protocol)) mc.eq(u.origin, m.protocol + '//' + host, 'origin', what + ': origin:');
  const h = u.href, want = compose(m);
  const same = (a, b) => a === b || a.replace(/[?]?#?$/, '') === b.replace(/[?]?#?$/, '') || a.replace('?#', '#') === b.replace('?#', '#');
  mc.check(same(h, want) || h === given || (m.pathname === '/' && same(h, compose({ ...m, pathname: '' }))), 'href', () => `${what}: href is ${mc.show(h)}, expected ${mc.show(want)}`);
  mc.eq(u.toString(), h, 'href', what + ': toString():');
  mc.eq(String(u), h, 'href', what + ': String(url):');
  const j = call(() => JSON.stringify({ u }));
  mc.check(j.ok && j.v === JSON.stringify({ u: h }), 'json', () => `${what}: JSON.stringify gives ${j.v || j.e}`);
  mc.eq([...u.searchParams], query(m.search), 'searchParams', what + ': searchParams:');
}
function parts() {
  const full = params.full;
  const m = {
    protocol: mc.pick(['http:', 'https:', 'ws:', 'postgresql:'].slice(0, full ? 4 : 2)),
    ui: mc.pick(['', 'u@', 'u:p@', 'u:p:q@', 'u%40x:p%2F@', '%:%@', ':p@'].slice(0, full ? 7 : 3)),
    hostname: mc.pick(['h', 'a.b-c.example', '127.0.0.1', '[::1]', '[2001:db8::1]']),
    port: mc.pick(['', '8080', '1']),
    pathname: mc.pick(['', '/', '/a', '/a/b/', '/a;x=1:2@c//d', '/%7Ea/:1']),
    search: mc.pick(['', '?', '?a=1', '?a=1&b=2&a=3', '?x=/y?z@h:1', '?q=100%', '?u=http://k/p']),
    hash: mc.pick(['', '#', '#f', '#f?x/y#z@']),
  };
  const u0 = m.ui.replace(/@$/, ''), i = u0.indexOf(':');
  m.username = i < 0 ? u0 : u0.slice(0, i); m.password = i < 0 ? '' : u0.slice(i + 1);
  const s = m.protocol + '//' + m.ui + m.hostname + (m.port ? ':' + m.port : '') + m.pathname + m.search + m.hash;
  if (m.pathname === '') m.pathname = '/';
  mc.event(s);
  const r = call(() => new URL(s));
  mc.check(r.ok, 'threw', () => `new URL(${mc.show(s)}) threw ${r.e}`);
  if (!r.ok) return;
  verify(r.v, m, s, s);
  const c = call(() => new URL(r.v));
  mc.check(c.ok, 'threw', () => `new URL of the URL ${mc.show(s)} threw ${c.e}`);
  if (c.ok) verify(c.v, m, s + ' (copied)', s);
  mc.outcome(s);
}
function dots(path) {
  const out = [], seg = path.split('/').slice(1);
  seg.forEach((x, i) => {
    const last = i === seg.length - 1;
    if (x === '..') { out.pop(); if (last) out.push(''); } else if (x === '.') { if (last) out.push(''); } else out.push(x);
  });
  return '/' + out.join('/');
}
function relative() {
  const b = { protocol: mc.pick(['http:', 'https:']), username: '', password: '', hostname: mc.pick(['h', '[::1]']), port: mc.pick(['', '81']), pathname: mc.pick(['', '/', '/a', '/a/', '/a/b/c', '/a/b/']), search: mc.pick(['', '?k=/x/y', '?k']), hash: mc.pick(['', '#f/g']) };
  if (mc.choose(2)) { b.username = 'u'; b.password = 'p'; }
  const base = compose(b);
  if (b.pathname === '') b.pathname = '/';
  const kind = mc.pick(['path', 'abs', 'query', 'hash', 'empty', 'host', 'full']);
  const p = kind === 'path' ? mc.pick(['x', 'x/y', './x', '../x', '../../x', '../../../x', 'x/../y', '.', '..', './', '../', 'x:y/z', 'x/', 'a.b', '...', '.x/..y']) : kind === 'abs' ? mc.pick(['/', '/x', '/x/../y', '/x/./y/', '/../x', '/x@y']) : kind === 'host' ? mc.pick(['//k', '//k:8/x', '//k/x/y']) : kind === 'full' ? mc.pick(['https://k/x', 'ws://k:9/x/y']) : '';
  if (p === 'x:y/z') return; // (scheme-like)
  const q = kind === 'query' ? mc.pick(['?q', '?q=a/b', '?q=http://k/']) : kind === 'hash' || kind === 'empty' ? '' : mc.pick(['', '?q=/1/..', '?u=//k/']);
  const f = kind === 'hash' ? mc.pick(['#n', '#n/../m']) : kind === 'empty' ? '' : mc.pick(['', '#n/../m']);
  const rel = p + q + f;
  const m = { ...b };
  m.search = q; m.hash = f;
  if (kind === 'path') m.pathname = dots(b.pathname.replace(/[^/]*$/, '') + p);
  else if (kind === 'abs') m.pathname = dots(p);
  else if (kind === 'hash' || kind === 'empty') m.search = b.search;
  else if (kind === 'host' || kind === 'full') {
    const x = /^([a-z]+:)?\/\/(\w+)(?::(\d+))?(\/.*)?$/.exec(p);
    m.protocol = x[1] || b.protocol; m.username = m.password = ''; m.hostname = x[2]; m.port = x[3] || ''; m.pathname = x[4] || '/';
  }
  const how = mc.pick(['string', 'URL']);
  const what = `${mc.show(rel)} relative to ${base}`;
  mc.event(what);
  const r = call(() => new URL(rel, how === 'URL' ? new URL(base) : base));
  mc.check(r.ok, 'threw', () => `${what}: threw ${r.e}`);
  if (!r.ok) return;
  verify(r.v, m, what);
  mc.outcome(r.v.href);
}
function change() {
  const m = { protocol: 'http:', username: '', password: '', hostname: 'h', port: '', pathname: '/p', search: '', hash: '' };
  if (mc.choose(2)) { m.username = 'u'; m.password = 'p'; m.port = '81'; }
  if (mc.choose(2)) { m.search = '?a=1&b=2'; m.hash = '#f'; }
  const u = new URL(compose(m)), sp = u.searchParams;
  const log = [compose(m)];
  const acts = [
    ['pathname', '/x/y'], ['pathname', 'z'], ['search', '?n=1'], ['search', 'n=2&m=3'], ['search', ''], ['hash', '#g'], ['hash', 'g/1'], ['hash', ''],
    ['hostname', 'k.example'], ['host', 'k:99'], ['host', 'k2'], ['port', '77'], ['port', 8], ['port', ''], ['protocol', 'https:'], ['protocol', 'https'],
    ['username', 'me'], ['password', 'pw'], ['href', 'https://u2:p2@n:5/q?z=1#y'], ['append', 'c', 'x y&='], ['append', 'a', '4'], ['set', 'a', '9'], ['delete', 'a'], ['delete', 'b'], ['sort'],
  ].filter((a) => !params.only || params.only.split(',').includes(a[0]));
  for (let d = 0; d < params.depth; d++) {
    if (mc.foreign()) return;
    const a = mc.pick(acts);
    log.push(a.map(String).join(' '));
    mc.event(log[log.length - 1]);
    const what = log.join('; ');
    let list = query(m.search), changed = false;
    const r = call(() => {
      if (a[0] === 'append') { (d % 2 ? sp : u.searchParams).append(a[1], a[2]); list.push([a[1], a[2]]); changed = true; }
      else if (a[0] === 'set') { u.searchParams.set(a[1], a[2]); const i = list.findIndex((e) => e[0] === a[1]); list = i < 0 ? [...list, [a[1], a[2]]] : list.filter((e, k) => e[0] !== a[1] || k === i).map((e) => (e[0] === a[1] ? [a[1], a[2]] : e)); changed = true; }
      else if (a[0] === 'delete') { u.searchParams.delete(a[1]); list = list.filter((e) => e[0] !== a[1]); changed = true; }
      else if (a[0] === 'sort') { u.searchParams.sort(); list = [...list].sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0)); changed = true; }
      else {
        u[a[0]] = a[1];
        if (a[0] === 'pathname') m.pathname = a[1].startsWith('/') ? a[1] : '/' + a[1];
        else if (a[0] === 'search' || a[0] === 'hash') m[a[0]] = a[1] === '' ? '' : a[1].replace(/^[?#]?/, a[0] === 'hash' ? '#' : '?');
        else if (a[0] === 'protocol') m.protocol = 'https:';
        else if (a[0] === 'host') { const [h, p] = a[1].split(':'); m.hostname = h; if (p) m.port = p; }
        else if (a[0] === 'href') Object.assign(m, { protocol: 'https:', username: 'u2', password: 'p2', hostname: 'n', port: '5', pathname: '/q', search: '?z=1', hash: '#y' });
        else m[a[0]] = String(a[1]);
      }
    });
    mc.check(r.ok, 'threw', () => `${what}: threw ${r.e}`);
    if (!r.ok) return;
    if (changed) {
      // any serialization of the list will do
      const got = u.search;
      mc.eq(query(got), list, 'search', `${what}: search ${mc.show(got)} read back:`);
      mc.check(list.length > 0 || got === '', 'search', () => `${what}: search is ${mc.show(got)}`);
      m.search = got;
    }
    verify(u, m, what);
    mc.check(u.searchParams === sp, 'searchParams', what + ': searchParams is another object');
    // what a request for this URL would use
    const n = call(() => new URL(u.href));
    mc.check(n.ok, 'threw', () => `${what}: href cannot be parsed`);
    if (n.ok) verify(n.v, m, what + ' (parsed again)');
  }
  mc.outcome(u.href);
}
globalThis.mcRun = () => ({ parts, relative, change })[params.mode]();
