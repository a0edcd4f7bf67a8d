#!/bin/bash
# Run the checks against the seeded bugs: trybugs.sh [bug ...]   (never called by a check)
# With ALL=1, run every check on each bug instead of only that of its property.
# /repo itself is left alone: a patched copy is mounted over it, and the checks run from a copy of /verif.
cd "$(dirname "$0")/.." || exit 1
w=/tmp/trybugs
mkdir -p $w/verif/target
for b in ${*:-$(ls seeded)}; do
    p=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' seeded/$b/meta.json)
    rsync -a --delete --exclude /target --exclude /evidence --exclude .git ./ $w/verif/ 2>/dev/null ||
        { find $w/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +; tar cf - --exclude=./target --exclude=./evidence --exclude=./.git . | tar xf - -C $w/verif; }
    mkdir -p $w/verif/evidence
    rm -rf /tmp/trybugs/repo
    cp -a /repo $w/repo
    git -C $w/repo checkout -q -- . && git -C $w/repo apply "$PWD/seeded/$b/patch.diff" || continue
    if [ -n "${ALL:-}" ]; then ids=$(sed -n 's/.*"id": "\(C[0-9]*\)".*/\1/p' properties.jsonl); else ids=$p; fi
    caught=
    for i in $ids; do
        s=$(date +%s)
        VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick unshare -Urm bash -c "mount --bind $w/repo /repo && exec $w/verif/check.sh $i" > $w/try.log 2>&1; rc=$?
        t=$(($(date +%s) - s))
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$i " $w/try.log; then caught="$caught $i(${t}s)"; elif [ $rc != 0 ]; then caught="$caught $i:rc=$rc"; fi
    done
    case "$caught" in *"$p("*) echo "caught  $b ($p):$caught" ;; *) echo "MISSED  $b ($p):$caught" ;; esac
done
