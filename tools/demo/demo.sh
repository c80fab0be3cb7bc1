#!/bin/bash
# exit 0 if every recognition of case.json produces what expect.txt says
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
cp -r "$here/drive" "$w/drive"
sed "s|@REPO@|$repo|" "$here/drive/Cargo.toml" > "$w/drive/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$w/target"
( cd "$w/drive" && cargo build -q --offline ) > "$w/log" 2>&1
rc=2
if [ -x "$w/target/debug/drive" ]; then
    timeout 120 "$w/target/debug/drive" "$here/case.json" > "$w/out" 2>&1
    if diff "$here/expect.txt" "$w/out"; then rc=0; else rc=1; fi
else
    tail -20 "$w/log"
fi
rm -rf "$w"
exit $rc
