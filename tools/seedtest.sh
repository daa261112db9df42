#!/bin/bash
# seedtest.sh <seed id> [check properties...]: try a planted bug in the scratch copy /tmp/rs
# (made by: cp -a /repo /tmp/rs, build scripts rewritten for that path in /tmp/rsb).
S=/verif/seeded/$1; [ -d $S ] || S=/verif/seeded-more/$1; shift
cd /tmp/rs && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
rb() { bash /tmp/rsb/build.sh > /tmp/rsb/b.log 2>&1 || { echo BUILD-FAILS; tail -5 /tmp/rsb/b.log; }; }
rb; (mkdir -p /tmp/rsb/d; cp -r $S/. /tmp/rsb/d/; sed -i 's#/repo#/tmp/rs#g' /tmp/rsb/d/demo.sh; cd /tmp/rs; timeout 300 bash /tmp/rsb/d/demo.sh > /tmp/rsb/demo0.log 2>&1; echo "demo unchanged: $?")
git apply $S/patch.diff || exit 2
rb; (cd /tmp/rs; timeout 300 bash /tmp/rsb/d/demo.sh > /tmp/rsb/demo1.log 2>&1; echo "demo patched: $?")
[ -n "$NOTEST" ] || bash /tmp/rsb/test.sh /tmp/rsb/o.json 2>&1 | tail -1
cd /verif; for p in "$@"; do VF_REPO=/tmp/rs python3 vf/run.py $p 2>&1 | tail -8; done
cd /tmp/rs && git checkout -q -- .; rm -rf /tmp/rsb/d
