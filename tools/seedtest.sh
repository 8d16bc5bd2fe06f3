#!/bin/bash
# seedtest.sh ID...: in a private mount namespace over a scratch copy of /repo: demo on the clean
# tree, then patch, build, stable tests, demo, and the property's check.  One summary line each.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; S=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo "$S/r"; cp -a "$V/seeded/$id" "$S/s"
  unshare -Urm bash -c '
    S=$1; V=$2; id=$3; mount --bind $S/r /repo; mkdir -p $S/ev; mount --bind $S/ev $V/evidence; cd /repo
    bash $S/s/demo.sh >$S/d0 2>&1; d0=$?
    git apply $S/s/patch.diff || { echo "$id NOAPPLY"; exit; }
    bash /opt/vp/test.sh $S/t.json >$S/b 2>&1; b=$?
    t=$(python3 - $S/t.json <<P
import json,sys
B=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(sys.argv[1]))
B=B.get("passed",B.get("stable",B.get("tests",B))) if isinstance(B,dict) else B
m=[x for x in B if x not in set(t["passed"])]
print(len(m), m[:3])
P
)
    bash $S/s/demo.sh >$S/d1 2>&1; d1=$?
    p=$(python3 -c "import json;print(json.load(open(\"$S/s/meta.json\"))[\"property\"])")
    r=""; for q in $p $EXTRA; do timeout 900 python3 $V/check.py $q quick >$S/c 2>&1; r="$r $q:rc=$? $(grep -h "^  /" $S/c | head -1 | cut -c1-200)"; done
    echo "$id demo0=$d0 build=$b missing=$t demo1=$d1 |$r"
    [ $b = 0 ] || grep -E "error|FAILED" $S/b | head -5
    [ $d0 = 0 ] || head -5 $S/d0
    [ -n "$VERB" ] && head -5 $S/d1
  ' _ "$S" "$V" "$id"
  rm -rf "$S"
}
export -f one; export V EXTRA VERB
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
