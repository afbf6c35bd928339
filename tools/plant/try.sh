#!/bin/bash
# try.sh ID [CHECK...]: in a scratch copy of /repo, confirms that /verif/seeded/ID builds, passes the stable tests,
# that its demonstration tells it from the unchanged tree, and says which of the given checks (default: its property's) see it.
set -u
id="$1"; shift
d=/verif/seeded/$id
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
w=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/v"; git -C /repo archive HEAD | tar x -C "$w/repo"
cp -r "$d" "$w/demo"; cp -r /verif/harness "$w/h"; cp /verif/known-findings.txt "$w/v/"; mkdir -p "$w/v/harness"; [ -d /verif/harness/corpus ] && cp -r /verif/harness/corpus "$w/v/harness/"
sed -i "s#=> /repo#=> $w/repo#" "$w/h/go.mod"
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/out" 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -5 "$w/out"; exit 1; }
(cd "$w/repo" && git init -q . && git apply "$d/patch.diff") || { echo "$id: does not apply"; exit 1; }
(cd "$w/repo" && go build ./...) || { echo "$id: does not build"; exit 1; }
(cd "$w/repo" && go test -json -vet=off -count=1 ./... >"$w/log"; python3 - "$w/log" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
miss=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-ok
if miss: print('tests fail:',miss); sys.exit(1)
P
) || { echo "$id: stable tests fail"; exit 1; }
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/out" 2>&1) && { echo "$id: demo passes with the patch"; exit 1; }
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "$checks" = all ] && checks=$(seq -f 'P%02.0f' 1 36)
(cd "$w/h" && go build -tags p28 -o "$w/harness" . && case " $checks " in *P16*|*P32*) go build -race -o "$w/harness-race" .;; esac) || { echo "$id: harness does not build"; exit 1; }
r=""
for c in $checks; do
  b=$w/harness; case $c in P16|P32) b=$w/harness-race ;; esac
  s=$(date +%s.%N); (cd "$w/v" && VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR="$w/v" "$b" check $c quick >"$w/c.$c" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$c" "$w/c.$c"; then r="$r $c:caught"; elif [ $rc = 0 ]; then r="$r $c:-"; else r="$r $c:ODD$rc"; fi
  [ -n "${SHOW:-}" ] && head -c 700 "$w/c.$c"
done
echo "$id:$r"
