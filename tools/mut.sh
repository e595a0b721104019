# mut.sh <file in /repo> <python-expr old> <new> ids...: apply a textual mutation to /repo, run checks, undo
f=$1; old=$2; new=$3; shift 3
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
python3 - "$f" "$old" "$new" <<'P' || exit 2
import sys
f,o,n=sys.argv[1:]; f='/repo/'+f; s=open(f).read()
if s.count(o)<1: print("NOT FOUND"); sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
timeout 800 /verif/tools/dev.sh "$@" 2>&1 | cut -c1-400 | grep -E "^error|VIOLATION|held|FAILS|KNOWN" | head -20
git -C /repo checkout -- .
