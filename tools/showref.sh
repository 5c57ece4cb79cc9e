#!/bin/bash
# usage: tools/showref.sh REF FUNCTION [OPAQUE...]   summary of FUNCTION with refactors/REF.diff applied (development aid)
S=/tmp/sr.$$; cp -a /repo $S; git -C $S apply /verif/refactors/$1.diff || git -C $S apply $1; shift
cd /verif; LAPEX_REPO=$S python3 -m sa.show "$@"
rm -rf $S
