#!/bin/bash
# trybug.sh ID [CHECK...]: try a planted bug of seeded/ in a scratch copy of /repo: tests, demo, its check(s).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
id=$1; shift
d=$here/seeded/$id
w=/tmp/trybug_$id
cp -a /repo "$w" || exit 3
trap 'rm -rf "$w"' EXIT
git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 3; }
(cd /repo && bash "$d/demo.sh" >/tmp/trybug_$id.d0 2>&1); d0=$?
(cd "$w" && PYTHONPATH=$w/src bash "$d/demo.sh" >/tmp/trybug_$id.d1 2>&1); d1=$?
t=skipped
if [ -z "$NOTESTS" ]; then
  t=$(cd "$w" && PYTHONPATH=$w/src timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors --basetemp="$w/tmp_pytest" 2>&1 | tail -1)
fi
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -eq 0 ] && set -- "$prop"
echo "$id ($prop): demo clean=$d0 bug=$d1  tests: $t"
tail -1 /tmp/trybug_$id.d1
for p in "$@"; do
  VERIF_SEED=1 VERIF_EVIDENCE_DIR=$w/ev VERIF_REPO=$w bash "$here/run.sh" "$p" --tier quick >"/tmp/trybug_$id.$p" 2>&1; c=$?
  echo "   check $p exit=$c $(grep -c VIOLATION /tmp/trybug_$id.$p) violation; $(grep -m2 "^\[$p\]" /tmp/trybug_$id.$p | tail -1 | cut -c1-220)"
done
