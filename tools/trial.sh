#!/bin/bash
# tools/trial.sh ID... : confirm planted changes in a scratch copy and run the check against them
# (demo passes without, fails with the patch; tests pass; the property's quick check reports it)
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/trial-$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; mkdir "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W"/d/*.diff "$W"/d/meta.json
  cd "$W/repo" || exit 1
  PYTHONPATH="$W/repo/src" bash "$W/d/demo.sh" >"$W/o1" 2>&1; a=$?
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  PYTHONPATH="$W/repo/src" bash "$W/d/demo.sh" >"$W/o2" 2>&1; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    t=$(OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$W/repo/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest tests -n 4 --no-cov -q -p no:cacheprovider --basetemp="$W/t" 2>&1 | tail -1)
  fi
  c=skipped
  if [ -z "$NOCHECK" ] && [ -f /verif/checks/${prop,,}.py ]; then
    cd /verif; VALORI_SRC="$W/repo/src" VERIF_EVIDENCE="$W/ev" VERIF_TIER=quick VERIF_SEED=1 python3-vt engine/run.py $prop >"$W/o3" 2>&1; c=$?
    [ $c = 1 ] && c="CAUGHT ($(grep -A1 VIOLATION "$W/o3" | sed -n 2p | cut -c1-150))" || c="MISSED rc=$c $(grep -v '^    ' "$W/o3" | tail -3 | cut -c1-200)"
  fi
  echo "$id [$prop] demo clean=$a bug=$b | tests: $t | check: $c"
  [ $a = 0 ] || cat "$W/o1"
  [ $b = 0 ] && cat "$W/o2"
  cd /; rm -rf "$W"
done
