#!/bin/bash
# tools/seed.sh ID [CHECK...]: verifies seeded/ID in a scratch copy of /repo and runs the checks against it
set -u
S=/verif/seeded/$1; shift
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 9
git -C "$W/repo" checkout -q -- .
mkdir "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
timeout 300 bash "$W/d/demo.sh" >"$W/o1" 2>&1; r1=$?
git apply "$S/patch.diff" || { echo "$S: does not apply"; exit 9; }
timeout 300 bash "$W/d/demo.sh" >"$W/o2" 2>&1; r2=$?
echo "demo: unchanged $r1 (want 0), patched $r2 (want nonzero): $(tail -1 "$W/o2" | cut -c1-150)"
[ $r1 = 0 ] || head -20 "$W/o1"
# the repository's own tests, with the patch
if [ -z "${NOTEST:-}" ]; then
cp -r /opt/vp/harness "$W/h"; sed -i "s#set(REPO /repo)#set(REPO $W/repo)#" "$W/h/CMakeLists.txt"
cmake -S "$W/h" -B "$W/b" -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 >/dev/null && ninja -C "$W/b" >"$W/blog" 2>&1 || { echo "BUILD FAILS"; tail -5 "$W/blog"; }
n=0; for t in $("$W/b/driver" --list); do timeout -k 5 120 "$W/b/driver" "$t" >/dev/null 2>&1 && n=$((n+1)) && echo "$t" >>"$W/ok"; done
python3 - "$W/ok" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); want=set(b.get('stable',b.get('passed',[])))
got=set(open(sys.argv[1]).read().split())
print("tests: missing", sorted(w for w in want if w not in got and w.split('::')[-1] not in got))
P
fi
for c in "$@"; do
  SXE_REPO="$W/repo" timeout 900 /verif/check $c ${TIER:-quick} > "$W/out" 2>&1; rc=$?
  echo "check $c: exit $rc: $(grep -m1 -A0 "^$c: " "$W/out" | cut -c1-200)"
  [ $rc = 2 ] && tail -5 "$W/out"
done
