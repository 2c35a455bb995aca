#!/bin/bash
# usage: determinism.sh [RUNS]   every property, several seeds, different worker counts: the histories must be the same
set -u
cd "$(dirname "$0")/.." || exit 2
runs=${1:-3000}
dir=$(mktemp -d)
cp known-findings.txt "$dir/"
bad=0
for id in $(python3 -c 'import json;print(*[json.loads(l)["id"] for l in open("properties.jsonl")])'); do
    for seed in 1 2 77; do
        want=
        for w in 8 1 3 8; do
            VERIF_ROOT=$dir VERIF_RUNS=$runs VERIF_SEED=$seed VERIF_WORKERS=$w sim/target/release/sim check "$id" >/dev/null 2>&1
            got=$(python3 - "$dir/evidence/$id.json" <<'P'
import json,sys
c=json.load(open(sys.argv[1]))["coverage"]
print({k:c[k] for k in ("evaluations","distinct_nontrivial","history_digest","simulated_seconds","faults_fired","probes","samples")})
P
)
            [ -z "$want" ] && want=$got
            if [ "$got" != "$want" ]; then echo "DIFFERS $id seed $seed workers $w"; bad=1; fi
        done
    done
    echo "$id ok"
done
rm -rf "$dir"
exit $bad
