#!/bin/bash
# Builds the crate of the current directory with stand-ins for what cannot be fetched offline
# (openworkers-core; V8 and ICU come from node's own binary) and runs scenario.rs against it.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$D/kit/mk.py" "$D" "$PWD" "$T"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true DOCS_RS=1 CARGO_INCREMENTAL=0
export RUNTIME_SNAPSHOT_PATH="$T/empty.bin" CARGO_TARGET_DIR="$T/target" PATH="/root/.cargo/bin:$PATH"
unset CARGO_BUILD_TARGET RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS NODE_OPTIONS
g++ -std=c++20 -O1 -fPIC -fno-exceptions -fno-rtti -w -I/usr/include/node -c "$D/kit/shim.cc" -o "$T/shim.o" &
(cd "$T/demo" && cargo build --offline -q 2> "$T/err" || { wait; cargo build --offline -q 2> "$T/err"; }) || { tail -40 "$T/err"; exit 3; }
wait
timeout 60 node -e "process.dlopen({exports:{}}, '$T/target/debug/libdemo.so')"
