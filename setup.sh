#!/bin/bash
# Builds the analyser and warms the caches of the standard library's IR (all rebuilt on demand by check.sh as well).
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/out"
(cd "$here/sa" && cargo build --release --offline -q --target-dir "$here/out/sa-target") || exit 1
for c in rel nostd small chk chksmall serde schema; do bash "$here/tools/build_ir.sh" "$c" "$here/out/$c" || echo "configuration $c not built (the checks report it)" >&2; done
exit 0
