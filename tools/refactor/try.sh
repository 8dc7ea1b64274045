#!/bin/bash
# try.sh [GROUP...]: apply the behaviour-preserving rewrites of make.py to a scratch copy of /repo, run its
# stable tests, then every check; all must exit 0.  Results go to /tmp/try_rf/results.
here=$(cd "$(dirname "$0")" && pwd); verif=${VERIF:-/verif}
w=/tmp/try_rf; mkdir -p $w/repo $w/verif/evidence
(cd $verif && tar c --exclude=./target --exclude=./evidence --exclude=./replays --exclude=./seeded --exclude=./.git .) | tar x -C $w/verif
sed -i "s#/repo\"#$w/repo\"#" $w/verif/sim/Cargo.toml
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER=quick
[ $# = 0 ] && set -- all
for g in "$@"; do
  find $w/repo -mindepth 1 -delete
  (cd /repo && tar c --exclude=./target .) | tar x -C $w/repo
  python3 $here/make.py $w/repo $g || exit 1
  t=$(cd $w/repo && CARGO_TARGET_DIR=$w/rt cargo test --offline 2>&1 | grep '^test result' | head -1)
  echo "$g tests: $t" | tee -a $w/results
  for p in ${PROPS:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('$verif/MANIFEST.json'))['checks']])")}; do
    t0=$(date +%s)
    out=$(CARGO_TARGET_DIR=$w/target timeout 900 $w/verif/check.sh $p 2>&1); rc=$?
    echo "$g $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -E '^(VIOLATION|KNOWN)' | head -1) $(echo "$out" | grep -iE 'detail|class' | head -1 | cut -c1-300)" | tee -a $w/results
  done
done
