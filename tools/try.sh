#!/bin/bash
# tools/try.sh <patch file | -R commit> check...   applies a change to /repo's working tree, runs checks, undoes it
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "$1" = -R ]; then git diff "$2" "$2~1" -- . ':!*_test.go' | git apply -3 - || { git checkout -q -f HEAD -- .; git reset -q; exit 2; }; git reset -q; shift 2
else git apply "$1" || exit 2; shift; fi
for c in "$@"; do
  echo "--- $c"; (cd /verif && timeout 900 python3 run/check.py $c 2>&1 | grep -E 'VIOLATION|^OK|ERROR|violated|Traceback|KNOWN' | cut -c1-400)
done
git checkout -q -- . ; git status --porcelain
