#!/bin/bash
# trybug.sh ID [notest]: confirms the planted bug seeded/ID in a scratch copy
# and runs its property's check against it.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
W=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$W"' EXIT
git -C /repo archive HEAD | tar x -C "$W" || exit 1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$W" && git init -q . && git add -A -f && git -c user.email=a -c user.name=a commit -qm base
bash "$S/demo.sh" > "$W.log" 2>&1 || { echo "$1: DEMO FAILS ON BASE"; tail -5 "$W.log"; exit 1; }
git apply "$S/patch.diff" || { echo "$1: PATCH"; exit 1; }
go build ./... || { echo "$1: BUILD"; exit 1; }
if bash "$S/demo.sh" > "$W.log" 2>&1; then echo "$1: DEMO PASSES WITH PATCH"; exit 1; fi
if [ "${2:-}" != notest ]; then
  go test -json -vet=off -tags extensive_tests -count=1 -timeout 10m ./... > "$W.json" 2>/dev/null
  python3 - "$W.json" <<'P' || { echo "$1: TESTS FAIL"; exit 1; }
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('stable') or base.get('tests') or base.get('passed')
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail'): res[e['Package']+'/'+e['Test']]=e['Action']; res[e['Test']]=e['Action']
bad=[k for k,v in res.items() if v=='fail']
print('tests failing:',bad[:6]) if bad else None
sys.exit(1 if bad else 0)
P
  rm -f "$W.json"
fi
rm -f "$W.log"
for p in ${C:-$P}; do
  AMINO_REPO="$W" AMINO_OUT="/tmp/bugout.$1.$p" "$V/bin/check" $p > /tmp/bugs/$1.$p.log 2>&1; r=$?
  echo "$1: $p exit $r $(grep -c "VIOLATION property=$p" /tmp/bugs/$1.$p.log) $(grep -m1 VIOLATION /tmp/bugs/$1.$p.log | cut -c1-150)"
  rm -rf "/tmp/bugout.$1.$p"
done
