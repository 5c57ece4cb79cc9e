#!/bin/bash
# usage: tools/mkref.sh NAME  < python edit script operating on cwd (scratch copy); stores refactors/NAME.diff if it builds and passes the tests
S=/tmp/mkref.$$; cp -a /repo $S; cd $S
python3 - || { echo EDIT FAILED; rm -rf $S; exit 1; }
git diff > /tmp/mkref.diff.$$
if [ ! -s /tmp/mkref.diff.$$ ]; then echo "no change"; rm -rf $S; exit 1; fi
if cargo build --offline --workspace 2>/tmp/mkref.err.$$ >/dev/null && cargo test --offline --workspace >/tmp/mkref.out.$$ 2>&1; then
  cp /tmp/mkref.diff.$$ ${DEST:-/verif/refactors}/$1.diff; echo ok $1
else grep -E '^error' -A8 /tmp/mkref.err.$$ | head -40; grep -E 'FAILED|failed|panicked' /tmp/mkref.out.$$ | head; echo FAILED; fi
rm -rf $S /tmp/mkref.*.$$
