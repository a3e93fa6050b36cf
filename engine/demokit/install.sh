#!/bin/bash
# engine/demokit/install.sh ID: put the kit beside the demonstration of seeded/ID
set -e
K=/verif/engine/demokit; D=/verif/seeded/$1; mkdir -p $D/kit; V=/verif
cp $K/demo.sh $D/demo.sh; cp $K/mk.py $K/kit.rs $D/kit/
cp $V/engine/v8shim/shim.cc $V/engine/v8shim/extra.cc $D/kit/
cp $V/stubs/openworkers-core/src/lib.rs $D/kit/core.rs; cp $V/stubs/openworkers-core/Cargo.toml $D/kit/core.toml
cp $V/harness/Cargo.lock $D/kit/lock.txt
