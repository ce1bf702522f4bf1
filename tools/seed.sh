#!/bin/bash
# seed.sh ID [check-args]: validates /verif/seeded/ID against /repo: demo passes
# on the unchanged tree; with the patch it builds, the stable tests pass, the
# demo fails; then runs the property's quick check.  Needs a clean /repo.
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
T=$(mktemp -d)
undo() { cd /repo; git checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; /bin/rm -r -- "$T"; }
trap undo EXIT
cp "$S"/demo* "$T"/ ; for f in "$S"/*; do case $f in *.diff|*meta.json) ;; *) cp -r "$f" "$T"/;; esac; done
[ -n "$SKIP" ] || { bash /opt/vp/build.sh all_tests > $T/b0 2>&1; bash "$T/demo.sh" > $T/d0 2>&1 || { echo "$S: demo fails on the unchanged tree"; tail -5 $T/d0; exit 1; }; }
git apply "$S/patch.diff" || exit 1
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh > $T/b1 2>&1 || { echo "does not build"; tail -20 $T/b1; exit 1; }
bash /opt/vp/test.sh $T/o.json > $T/t 2>&1
python3 - $T/o.json <<'X' || exit 1
import json,sys
d=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
f=d['failed']; print('tests: %d passed, failed %s' % (len(d['passed']), f)); sys.exit(1 if f or len(d['passed'])<123 else 0)
X
timeout 300 bash "$T/demo.sh" > $T/d1 2>&1 && { echo "$S: demo passes with the patch"; tail -5 $T/d1; exit 1; }
echo "demo fails with the patch: $(tail -1 $T/d1)"
fi
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $P "$@" > $T/c 2>&1; rc=$?
grep -a VIOLATION $T/c; echo "$S ($P): check exit $rc"; [ $rc = 1 ] || tail -3 $T/c
