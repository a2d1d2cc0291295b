#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
here=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bash setup.sh >/dev/null || { echo "cannot build the engine" >&2; exit 3; }
args=()
if [ "$tier" = thorough ]; then args+=(-budget "${VERIF_BUDGET:-3600}"); fi
exec bin/gosym -prop "$prop" -tier "$tier" -harness "$here/harness" -evidence "$here/evidence" -known "$here/known_findings.txt" "${args[@]}"
