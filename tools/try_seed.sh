#!/bin/bash
# tools/try_seed.sh ID CHECK... : run checks against /repo with seeded/ID applied, then undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
for c in "$@"; do timeout 900 python3-vt /verif/check.py $c 2>&1 | tail -${TAILN:-4} | cut -c1-400; done
git -C /repo checkout -q -- .
