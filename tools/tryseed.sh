#!/bin/bash
# tryseed.sh ID : demo on the clean tree and on the patched one, then the check of its property; undoes the patch
# (REPO and VDIR name another clone of /repo and of /verif)
REPO=${REPO:-/repo}; VDIR=${VDIR:-/verif}; export VERIF_REPO=$REPO
id=$1; S=$VDIR/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $REPO
[ -n "$(git status --porcelain)" ] && { echo "$REPO not clean"; exit 1; }
bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $? (want 0)"
git apply $S/patch.diff || exit 1
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -2 /tmp/demo1.log
[ -n "$DEMO_ONLY" ] || (cd $VDIR && python3 check.py $prop 2>&1 | tail -${2:-6}; echo "check rc ${PIPESTATUS[0]} (want 1)")
git checkout -q -- .
