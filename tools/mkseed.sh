#!/bin/bash
# mkseed.sh ID: turn the edits in scratch worktree /tmp/wt into seeded/ID/patch.diff and try the demo both ways.
# (demos run with cwd = the tree and find /repo paths; here they run against /repo with the patch applied, then undone)
set -u
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
if [ -d /tmp/wt ] && [ -n "$(git -C /tmp/wt diff --stat)" ]; then git -C /tmp/wt diff > $D/patch.diff; git -C /tmp/wt checkout -q -- .; fi
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
cd /repo
bash $D/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $D/patch.diff || exit 1
bash $D/demo.sh >/tmp/demo1.log 2>&1; b=$?
echo "$ID demo clean=$a patched=$b"
if [ "${2:-}" != "" ]; then cd /verif; for c in $2; do timeout 800 ./check $c > /tmp/ck.$c.log 2>&1; echo "  check $c -> $?  $(grep -m1 VIOLATION /tmp/ck.$c.log)"; grep -m4 "^\[" /tmp/ck.$c.log | cut -c1-200; done; fi
git -C /repo checkout -q -- .
[ $a = 0 ] || tail -5 /tmp/demo0.log
[ $b != 0 ] || tail -5 /tmp/demo1.log
