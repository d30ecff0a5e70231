#!/bin/bash
# build the checker against /repo's working tree; quiet unless it fails
cd "$(dirname "$0")/harness" && . ../env.sh
# cargo trusts file times; make it look again whenever the content under /repo differs from the last build
sum=$(cd /repo && find programs libs dynamic-bonding-curve-sdk idls Cargo.toml -type f -not -path '*/target/*' -not -path '*/node_modules/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/dynamic-bonding-curve-* "$CARGO_TARGET_DIR"/release/.fingerprint/dynamic_bonding_curve-* "$CARGO_TARGET_DIR/repo.sum"
fi
out=$(cargo build --release --offline --locked "$@" 2>&1) || { echo "$out" | grep -A12 -E '^error' | head -${LINES_MAX:-80}; exit 3; }
echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"
