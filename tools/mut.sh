#!/bin/bash
# tools/mut.sh 'sed-expr' file PROP [args]: run a check against a mutated copy
set -e
D=/tmp/mut.$$; B=${BASE:-/repo}; mkdir -p $D; cp -a $B/src $B/include $B/config.h.in $D/
if [ "${1##*.}" = diff ]; then (cd $D && git init -q . 2>/dev/null; git -C $D apply "$(realpath "$1")" --exclude='*/tests/*'); shift; else
cp $D/$2 $D/orig.tmp; python3 - "$D/$2" "$1" <<'P'
import sys,re
p,e=sys.argv[1:3]; s=open(p).read(); a,b=e.split('=>',1)
assert s.count(a)>=1,'no match'
open(p,'w').write(s.replace(a,b,1))
P
shift 2; fi
P=$1; shift
XD_REPO=$D XD_BUILD=/tmp/mutbuild python3 check.py $P --no-evidence "$@" || true
rm -rf $D
