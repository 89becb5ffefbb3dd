#!/bin/bash
# Run on the committed tree after all proofs went through: records the proved IR of each harness in harness/baseline.json.
cd "$(dirname "$0")/.."
for p in ${@:-$(ls harness/P*.cc | sed 's#.*/\(P[0-9]*\).*#\1#' | sort -u)}; do VC_BASELINE=1 ./check.sh $p quick | grep -v ' ok ' ; done
