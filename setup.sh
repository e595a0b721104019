#!/bin/bash
# Builds the harness crates from the committed files (the checks rebuild what has changed).
set -u
cd "$(dirname "$0")" || exit 2
root=$(pwd)
. "$root/tools/env.sh"
for c in local remote; do
  [ -f "$root/$c/Cargo.toml" ] && { (cd "$root/$c" && cargo build --offline --bin $c) || exit 1; }
done
exit 0
