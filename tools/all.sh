#!/bin/bash
# Run every check on the current tree: all.sh [seed] [tier]
cd "$(dirname "$0")/.." || exit 1
t0=$(date +%s)
for i in $(sed -n 's/.*"id": "\(C[0-9]*\)".*/\1/p' properties.jsonl); do
    s=$(date +%s)
    VERIF_SEED=${1:-1} VERIF_TIER=${2:-quick} ./check.sh $i > /tmp/all-$i.log 2>&1; rc=$?
    echo "$i rc=$rc $(($(date +%s) - s))s $(grep -h '^VIOLATION' /tmp/all-$i.log)"
done
echo "total $(($(date +%s) - t0))s"
