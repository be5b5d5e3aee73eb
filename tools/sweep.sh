#!/bin/bash
# tools/sweep.sh "SEEDS" [PROPS]: every check on the current tree with several seeds (false-alarm sweep)
cd "$(dirname "$0")/.."
props=${2:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for s in $1; do for p in $props; do
  out=$(VERIF_SEED=$s ./check $p 2>&1); rc=$?
  echo "seed $s $p rc=$rc $(echo "$out" | tail -1 | cut -c1-160)"
done; done
