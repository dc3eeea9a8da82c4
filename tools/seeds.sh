#!/bin/bash
# usage: tools/seeds.sh [id...]: run the check of each planted bug's property against it.
# Applies the patch to /repo, runs the quick check and undoes the patch straight afterwards.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    out=$(./check.sh "$p" 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=caught; else r="MISSED (exit $rc)"; fi
    echo "$id $p $r $(( $(date +%s) - s ))s"
done
