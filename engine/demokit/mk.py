import os, re, shutil, sys
D, R, T = sys.argv[1:]
K = os.path.join(D, 'kit'); m = os.path.join(T, 'mirror')
shutil.copytree(os.path.join(R, 'src'), os.path.join(m, 'src'))
shutil.copytree(os.path.join(R, 'gc-derive'), os.path.join(m, 'gc-derive'), ignore=shutil.ignore_patterns('target'))
for f in (os.path.join(m, 'src', 'icudtl.dat'), os.path.join(T, 'empty.bin')): open(f, 'wb').close()
t = open(os.path.join(R, 'Cargo.toml')).read()
t = re.sub(r'(?m)^openworkers-core\s*=.*$', f'openworkers-core = {{ path = "{T}/core" }}', t)
t = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', t)
t = re.sub(r'(?ms)^\[\[(bench|test|example|bin)\]\].*?(?=^\[|\Z)', '', t)
t = re.sub(r'(?ms)^\[workspace\].*?(?=^\[|\Z)', '', t)
t = t.replace('[package]', '[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\nbuild = false', 1)
open(os.path.join(m, 'Cargo.toml'), 'w').write(t)
os.makedirs(os.path.join(T, 'core', 'src')); os.makedirs(os.path.join(T, 'demo', 'src'))
shutil.copy(os.path.join(K, 'core.rs'), os.path.join(T, 'core', 'src', 'lib.rs'))
shutil.copy(os.path.join(K, 'core.toml'), os.path.join(T, 'core', 'Cargo.toml'))
shutil.copy(os.path.join(K, 'lock.txt'), os.path.join(T, 'demo', 'Cargo.lock'))
shutil.copy(os.path.join(K, 'kit.rs'), os.path.join(T, 'demo', 'src', 'lib.rs'))
shutil.copy(os.path.join(D, 'scenario.rs'), os.path.join(T, 'demo', 'src', 'scenario.rs'))
features = ', features = ["multiplexing"]' if os.path.exists(os.path.join(D, 'multiplexing')) else ''
open(os.path.join(T, 'demo', 'Cargo.toml'), 'w').write(f'''[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[lib]
crate-type = ["cdylib"]
[dependencies]
openworkers-runtime-v8 = {{ path = "../mirror"{features} }}
openworkers-core = {{ path = "../core" }}
tokio = {{ version = "=1.50.0", features = ["full"] }}
bytes = "1"
libc = "0.2"
[profile.dev]
debug = 0
[workspace]
''')
open(os.path.join(T, 'demo', 'build.rs'), 'w').write(f'''fn main() {{
    println!("cargo:rustc-link-arg={T}/shim.o");
    println!("cargo:rustc-link-arg=-Wl,-z,lazy");
}}
''')
