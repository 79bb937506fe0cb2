#!/bin/bash
# tools/plant.sh ID...: confirms a seeded bug on /repo (demo passes without it; it applies,
# builds, passes the stable tests; the demo fails with it), then runs its property's check.
# /repo is restored afterwards.  NOCHECK=1 / NOTESTS=1 skip those steps; PROPS overrides the checks.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is dirty"; exit 2; }
restore() { git -C /repo checkout -q -- . ; }
trap restore EXIT
rc=0
for id in "$@"; do
    d=$here/seeded/$id
    w=$(mktemp -d /tmp/plantXXXXXX)
    cp -r "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
    bash /opt/vp/build.sh >"$w/build0" 2>&1 || { echo "$id: base build failed"; rc=1; continue; }
    (cd /repo && timeout 300 bash "$w/demo/demo.sh") >"$w/demo0" 2>&1; a=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; rc=1; continue; }
    b=- ; t=- ; c=-
    if bash /opt/vp/build.sh >"$w/build1" 2>&1; then
        s=$(date +%s)
        (cd /repo && timeout 300 bash "$w/demo/demo.sh") >"$w/demo1" 2>&1; b=$?
        s=$(( $(date +%s) - s ))
        if [ -z "$NOTESTS" ]; then
            bash /opt/vp/test.sh "$w/out.json" >"$w/test" 2>&1
            t=$(python3 - "$w/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); base=json.load(open('/opt/vp/BASELINE.json'))
st=base.get('stable') or base.get('passed') or base.get('tests')
m=set(st)-set(o['passed']); print('ok' if not m else 'FAIL:%s'%sorted(m)[:5])
P
)
        fi
        if [ -z "$NOCHECK" ]; then
            p=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
            c=
            for q in $p; do
                VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 "$here/check.py" $q >"$w/check.$q" 2>&1
                r=$?
                c="$c $q=$r($(grep -c '^VIOLATION property='$q "$w/check.$q"))"
                tail -3 "$w/check.$q" > /tmp/plant.last.$q
            done
        fi
    else
        echo "$id: patched build failed"; tail -5 "$w/build1"; rc=1
    fi
    restore
    verdict=ok
    [ "$a" = 0 ] && [ "$b" != 0 ] && [ "$b" != - ] && { [ "$t" = ok ] || [ -n "$NOTESTS" ]; } || { verdict=BAD; rc=1; cp "$w"/demo[01] /tmp/ 2>/dev/null; }
    echo "$id: $verdict demo0=$a demo1=$b (${s}s) tests=$t checks:$c"
    rm -rf "$w"
done
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf /verif/replays
exit $rc
