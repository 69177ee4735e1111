#!/bin/bash
# Build one configuration of the simulator against /repo's working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target/$1" RUSTC_BOOTSTRAP=vbsim VBSIM_CONFIG="$1" RUSTC_WRAPPER="$here/rustc.sh"
# times of files may go back when a tree is put in place of another: judge by content
now="$(cd /repo && find Cargo.toml src meta -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ -d "$CARGO_TARGET_DIR" ] && [ "$(cat "$CARGO_TARGET_DIR/tree" 2>/dev/null)" != "$now" ]; then
    cargo clean --offline --quiet --manifest-path "$here/Cargo.toml" -p value-bag -p value-bag-sval2 -p value-bag-serde1 -p vbsim 2>/dev/null || true
fi
mkdir -p "$CARGO_TARGET_DIR"
echo "$now" >"$CARGO_TARGET_DIR/tree"
exec cargo build --offline --locked --quiet --manifest-path "$here/Cargo.toml" --features "cfg-$1"
