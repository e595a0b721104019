# mutp.sh <patch> ids...
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
p=$1; shift
git -C /repo apply "$p" || exit 2
timeout 800 /verif/tools/dev.sh "$@" 2>&1 | cut -c1-400 | grep -E "^error|VIOLATION|held|FAILS|KNOWN" | head -20
git -C /repo checkout -- .
