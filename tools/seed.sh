#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch applies and builds,
# the stable tests pass, demo.sh exits 0 without and nonzero with it. Reports what the checks see.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; d=$here/seeded/$id; s=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$s/repo"; mkdir "$s/demo" "$s/v"; cp "$d"/* "$s/demo"
  rm -f "$s"/demo/*.diff "$s"/demo/meta.json
  cd "$s/repo"
  bash "$s/demo/demo.sh" >"$s/o1" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$s"; return; }
  go build ./... >"$s/ob" 2>&1 || { echo "$id: build fails"; cat "$s/ob"; rm -rf "$s"; return; }
  go test -json -vet=off -count=1 ./... >"$s/ot" 2>&1
  fails=$(python3 -c "
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open('$s/ot'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action']=='pass': ok.add(e['Package']+'/'+e['Test'])
print(len(st-ok))")
  bash "$s/demo/demo.sh" >"$s/o2" 2>&1; b=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p "$s/v/evidence"; cp "$here/KNOWN_FINDINGS.txt" "$s/v/"
  VERIF_REPO="$s/repo" VERIF_DIR="$s/v" timeout 800 /tmp/checker all >"$s/oc" 2>&1
  alarms=$(grep -o 'VIOLATION property=C[0-9]*' "$s/oc" | sort -u | sed 's/.*=//' | tr '\n' ' ')
  [ $a = 0 ] && [ $b != 0 ] && [ "$fails" = 0 ] && ok=ok || { ok=BAD; tail -n 5 "$s/o1"; tail -n 5 "$s/o2"; }
  case " $alarms" in *" $p "*) c=caught;; *) c=MISSED;; esac
  echo "$id: $ok demo=$a/$b testfails=$fails property=$p $c alarms: $alarms"
  rm -rf "$s"
}
export -f one; export here
[ $# = 0 ] && set -- $(ls $here/seeded)
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
