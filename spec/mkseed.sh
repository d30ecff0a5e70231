#!/bin/bash
# mkseed.sh ID SRC: make /verif/seeded/ID from SRC/{patch.diff,main.rs,meta.json} and the demonstration kit
set -e
v=/verif; d=$v/seeded/$1; k=$v/spec/demokit
rm -rf "$d"; mkdir -p "$d/demo/src"
cp "$2/patch.diff" "$2/meta.json" "$d/"; cp $k/demo.sh "$d/"
cp $k/Cargo.toml "$d/demo/"; sed 's/name = "dbcmc"/name = "demo"/' $v/harness/Cargo.lock > "$d/demo/Cargo.lock"
cp -r $v/stubs "$d/stubs"; cp $v/harness/src/{svm,env,mocks}.rs "$d/demo/src/"; cp "$2/main.rs" "$d/demo/src/main.rs"
