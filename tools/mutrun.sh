#!/bin/bash
# usage: tools/mutrun.sh CHECK[,CHECK...] patch...   run checks against a scratch copy of /repo with the patch applied (development aid)
S=/tmp/mutrepo.$$
cp -a /repo "$S"
checks=$1; shift
for p in "$@"; do
  p=$(realpath "$p")
  git -C "$S" checkout -q -- . 
  if ! git -C "$S" apply "$p"; then echo "$p: DOES NOT APPLY"; continue; fi
  for c in ${checks//,/ }; do
    out=$(LAPEX_REPO=$S LAPEX_OUT=/tmp/mutout.$$ /verif/check $c 2>&1); rc=$?
    echo "$(basename "$(dirname "$p")")/$(basename "$p") $c rc=$rc"
    [ -n "$V" ] && echo "$out" | grep -v '^OK' | cut -c1-${V}
  done
done
rm -rf "$S" "/tmp/mutout.$$"
