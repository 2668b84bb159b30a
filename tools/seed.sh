#!/bin/bash
# tools/seed.sh ID : take the edits made in /tmp/wt (a copy of /repo) as seeded/ID/patch.diff, check demo on both trees
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
test -s $d/patch.diff
(cd /tmp/wt && bash $d/demo.sh >/tmp/demo.out 2>&1) && { echo "$id: demo passes WITH patch"; exit 1; } || true
git -C /tmp/wt checkout -q -- .
(cd /tmp/wt && bash $d/demo.sh >/tmp/demo0.out 2>&1) || { echo "$id: demo FAILS without patch"; cat /tmp/demo0.out | tail -20; exit 1; }
echo "$id ok: $(tail -1 /tmp/demo.out)"
