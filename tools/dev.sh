# dev.sh [ids...]: build and run checks during development
root=${VROOT:-/verif}; export VROOT=$root; . /verif/tools/env.sh; python3 /verif/tools/regen_main.py
(cd $root/local && cargo build --offline 2>&1 | grep -E "^(error|warning: unu)|^  *-->|^[0-9 ]+\|" | grep -A8 -B1 error | head -${LINES_MAX:-60})
for c in "$@"; do VERIF_ROOT=$root $root/target/debug/local $c; done
