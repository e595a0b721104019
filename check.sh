#!/bin/bash
# check.sh <id>: builds the crates that check <id> against /repo's working tree and runs them.
# check.sh replay <file>: re-executes a saved failing case.
set -u
cd "$(dirname "$0")" || exit 2
root=$(pwd)
. "$root/tools/env.sh"
id=$1
[ "$id" = replay ] && key=$(basename "$2" .json) || key=$id
case "$key" in
  C25*|C26*|C27*) crates=remote ;;
  C17|C18) crates="local remote" ;;
  C17-peer_*|C18-remote_*) crates=remote ;;
  *) crates=local ;;
esac
mkdir -p "$root/target"
for crate in $crates; do
  if ! (cd "$root/$crate" && cargo build --offline --bin $crate 2>"$root/target/build-$crate.log"); then
    tail -40 "$root/target/build-$crate.log" >&2
    echo "could not build $crate against /repo" >&2
    exit 2
  fi
done
export VERIF_ROOT=$root
rc=0
for crate in $crates; do
  "$root/target/debug/$crate" "$@"
  r=$?
  [ $r = 0 ] || [ $rc = 1 ] || rc=$r
  export VERIF_MERGE=1
done
exit $rc
