#!/usr/bin/env python3
"""Build the harness from /repo's current working tree, offline.

  .build/mirror   copy of /repo (src, gc-derive, Cargo.toml) with: openworkers-core
                  -> stubs/openworkers-core, `extern crate vstd as std`, an empty
                  icudtl.dat (V8 and ICU come from node's own binary)
  .build/tokio    tokio 1.50.0 + the scheduler hooks
  .build/shim.o   C ABI shim between openworkers-v8 and node's V8
  .build/target   cargo's output; the product is libharness.so
"""
import fcntl, filecmp, os, re, shutil, subprocess, sys, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, '.build')
REPO = os.environ.get('VERIF_REPO', '/repo')

def sync_tree(src, dst, xform=lambda rel, data: data):
    """Copy with content comparison, so that unchanged files keep their mtime."""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ('target', '.git')]
        for f in files:
            p = os.path.join(root, f); rel = os.path.relpath(p, src); want.add(rel)
            data = xform(rel, open(p, 'rb').read())
            q = os.path.join(dst, rel)
            if os.path.exists(q) and open(q, 'rb').read() == data: continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'wb').write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f); rel = os.path.relpath(p, dst)
            if rel not in want and rel != 'icudtl.dat': os.remove(p)

def mirror():
    m = os.path.join(B, 'mirror'); os.makedirs(m, exist_ok=True)
    def lib(rel, data):
        if rel == 'lib.rs':
            s = data.decode()
            # after the inner attributes / docs at the top of the file
            lines = s.split('\n'); i = 0
            while i < len(lines) and (lines[i].startswith('//!') or lines[i].startswith('#![') or not lines[i].strip()): i += 1
            lines.insert(i, '#[allow(unused_extern_crates)] extern crate vstd as std;')
            return '\n'.join(lines).encode()
        return data
    sync_tree(os.path.join(REPO, 'src'), os.path.join(m, 'src'), lib)
    ic = os.path.join(m, 'src', 'icudtl.dat')
    if not os.path.exists(ic): open(ic, 'wb').write(b'')
    sync_tree(os.path.join(REPO, 'gc-derive'), os.path.join(m, 'gc-derive'))
    t = open(os.path.join(REPO, 'Cargo.toml')).read()
    t = re.sub(r'(?m)^openworkers-core\s*=.*$', f'openworkers-core = {{ path = "{V}/stubs/openworkers-core" }}\nvstd = {{ path = "{V}/engine/vstd" }}', t)
    t = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', t)
    t = re.sub(r'(?ms)^\[\[(bench|test|example|bin)\]\].*?(?=^\[|\Z)', '', t)
    t = re.sub(r'(?ms)^\[workspace\].*?(?=^\[|\Z)', '', t)
    t = t.replace('[package]', '[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\nbuild = false', 1)
    t = re.sub(r'(?m)^build\s*=\s*"build.rs"\s*$', '', t)
    q = os.path.join(m, 'Cargo.toml')
    if not os.path.exists(q) or open(q).read() != t: open(q, 'w').write(t)

def shim():
    src = os.path.join(V, 'engine/v8shim/shim.cc'); o = os.path.join(B, 'shim.o'); st = o + '.hash'
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(V, 'engine/v8shim/extra.cc'), 'rb').read()).hexdigest()
    if os.path.exists(o) and os.path.exists(st) and open(st).read() == h: return
    subprocess.run(['g++', '-std=c++20', '-O1', '-fPIC', '-fno-exceptions', '-fno-rtti', '-w', '-I/usr/include/node', '-c', src, '-o', o], check=True)
    open(st, 'w').write(h)

def tokio():
    d = os.path.join(B, 'tokio'); st = d + '.hash'; p = os.path.join(V, 'engine/tokio-patch/patch.py')
    h = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    if os.path.exists(os.path.join(d, 'Cargo.toml')) and os.path.exists(st) and open(st).read() == h: return
    subprocess.run([sys.executable, p, d], check=True)
    open(st, 'w').write(h)

def env(target=None):
    e = dict(os.environ)
    for k in ('CARGO_BUILD_TARGET', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'): e.pop(k, None)
    snap = os.path.join(B, 'empty-snapshot.bin')
    if not os.path.exists(snap): open(snap, 'wb').close()
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', DOCS_RS='1',
             CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', RUNTIME_SNAPSHOT_PATH=snap,
             CARGO_TARGET_DIR=target or os.path.join(B, 'target'),
             PATH='/root/.cargo/bin:' + os.environ.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'))
    return e

HARNESSES = {'default': [], 'mux': ['--features', 'mux']}

def build(name='default', quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        mirror(); shim(); tokio()
        r = subprocess.run(['cargo', 'build', '--offline'] + HARNESSES[name], cwd=os.path.join(V, 'harness'), env=env(os.path.join(B, 'target' if name == 'default' else 'target-' + name)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not quiet:
            print('\n'.join(l for l in r.stdout.splitlines() if r.returncode == 0 or True)[-12000:], file=sys.stderr)
        if r.returncode != 0:
            return None
    return os.path.join(B, 'target' if name == 'default' else 'target-' + name, 'debug', 'libharness.so')

if __name__ == '__main__':
    p = build(quiet='-v' not in sys.argv)
    print(p)
    sys.exit(0 if p else 2)
