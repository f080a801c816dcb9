#!/bin/bash
# try_seed.sh ID [check...]: apply seeded/ID to a scratch copy of /repo; run its demo on both trees, the
# stable tests and the named checks (default: its property's) on the patched one.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/ts-$id; rm -rf "/tmp/ts-$id"; mkdir -p "$W"
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo"
bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; echo "demo clean: $? $(tail -1 $W/clean.log)"
git apply "$S/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1; echo "demo bug: $? $(tail -1 $W/bug.log)"
if [ -z "$NOTESTS" ]; then
(cd "$W/repo/tests" && MPLBACKEND=Agg PYTHONPATH="$W/repo" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=150 . -k "not test_FitEmissionLines2D" > "$W/test.log" 2>&1; tail -1 "$W/test.log")
fi
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in $checks; do
  (cd /verif && MISFIT_REPO="$W/repo" timeout 900 /opt/venv/bin/python check.py $c > "$W/$c.log" 2>&1; echo "$c: exit $? $(grep -m1 VIOLATION $W/$c.log)"; tail -2 "$W/$c.log")
done
[ -z "$KEEP" ] && rm -rf "/tmp/ts-$id"
exit 0
