#!/bin/bash
# builds demo.rs against the library that build.sh left in target/debug, and runs it
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
for t in target/debug/deps/libtoml-*.rlib; do
  if rustc --edition 2021 -A warnings -O -C overflow-checks=on -L target/debug/deps --extern rawloader=target/debug/librawloader.rlib --extern toml=$t "$D/demo.rs" -o "$W/demo" 2>"$W/err"; then
    timeout 120 "$W/demo"; exit $?
  fi
done
cat "$W/err"; exit 99
