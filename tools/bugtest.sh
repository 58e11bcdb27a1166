#!/bin/bash
# bugtest.sh ID [notests] -- development aid: tries a planted bug in a scratch copy of /repo:
# the demonstration on the unchanged and on the changed copy, the tests, and the property's quick check.
ID=$1; S=/verif/seeded/$ID; [ -d "$S" ] || S=/verif/planted/$ID; W=/tmp/bug-$ID; CPU=${3:-$((RANDOM % 8))}
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
rm -rf "/tmp/bug-$ID"; cp -a /repo "$W"; cd "$W" || exit 2
D=$(mktemp -d); cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
export PYTHONPATH=$W/src
timeout 300 bash "$D/demo.sh" > "$W.clean.log" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
timeout 300 bash "$D/demo.sh" > "$W.bug.log" 2>&1; b=$?
echo "$ID demo: clean=$a bug=$b ($(tail -1 "$W.bug.log" | cut -c1-150))"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(VERIF_REPO=$W timeout 900 /verif/run.sh "$P" > "$W.check.log" 2>&1; echo "$ID check $P: exit $? $(grep -m1 VIOLATION "$W.check.log" | cut -c1-160)")
if [ "$2" != notests ]; then
  taskset -c $CPU python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --basetemp="$W.pt" --junitxml="$W.xml" > "$W.test.log" 2>&1
  /usr/bin/python3 /opt/vp/results.py "$W.json" "junit:$W.xml" >/dev/null 2>&1
  python3 - "$W.json" "$ID" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print(sys.argv[2],'tests MISSING',len(miss),miss[:5])
P
fi
cd /; rm -rf "$W" "$W.pt" "$D" "$W.xml" "$W.json"
