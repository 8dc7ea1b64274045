#!/bin/bash
# trybugs.sh [-a] [-p DIR] ID...: run the check of each planted bug's property (with -a: every check) on a
# scratch copy of /repo with the bug applied.  Results go to /tmp/try/results.
all=; dir=/verif/seeded
while [ "${1#-}" != "$1" ]; do case "$1" in -a) all=1;; -p) shift; dir="$1";; esac; shift; done
w=/tmp/try; mkdir -p $w
rsync -a --delete /repo/ $w/repo/ --exclude target 2>/dev/null || { mkdir -p $w/repo; (cd /repo && tar c --exclude=./target .) | tar x -C $w/repo; }
mkdir -p $w/verif; (cd /verif && tar c --exclude=./target --exclude=./evidence --exclude=./replays --exclude=./seeded --exclude=./.git .) | tar x -C $w/verif
mkdir -p $w/verif/evidence
sed -i "s#/repo\"#$w/repo\"#" $w/verif/sim/Cargo.toml
export CARGO_TARGET_DIR=$w/target VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick
for id in "$@"; do
  git -C $w/repo checkout -q -- . 
  git -C $w/repo apply "$dir/$id/patch.diff" || { echo "$id patch does not apply"; continue; }
  props=$(python3 -c "import json;print(json.load(open('$dir/$id/meta.json'))['property'])")
  [ -n "$all" ] && props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23"
  for p in $props; do
    t0=$(date +%s)
    out=$(timeout 900 $w/verif/check.sh $p 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -E '^(VIOLATION|KNOWN)' | head -1) $(echo "$out" | grep -iE 'detail|class' | head -1 | cut -c1-200)" | tee -a $w/results
  done
done
git -C $w/repo checkout -q -- .
