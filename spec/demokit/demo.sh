#!/bin/bash
# exit 0 if the guarantee holds on the code in the current directory, nonzero otherwise
repo=$PWD
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$here/stubs" "$t/" || exit 9
sed -i "s#@REPO@#$repo#g" "$t/demo/Cargo.toml"
cd "$t/demo" || exit 9
CARGO_TARGET_DIR="$t/target" cargo build --offline --locked >"$t/log" 2>&1 || { tail -40 "$t/log"; exit 9; }
"$t/target/debug/demo"
