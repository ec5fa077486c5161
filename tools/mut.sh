#!/bin/bash
# mut.sh PROP FILE 'python expr old' 'new'  : run a check against a scratch copy with one textual change
set -e
P=$1; F=$2; OLD=$3; NEW=$4
D=$(mktemp -d /tmp/mut.XXXX)
cp -a /repo/euphonic /repo/c $D/
python3 - "$D/$F" "$OLD" "$NEW" <<'P'
import sys
f,o,n=sys.argv[1:]
s=open(f).read(); assert o in s,'not found'; open(f,'w').write(s.replace(o,n,1))
P
EUPHONIC_REPO=$D timeout 900 /verif/run $P ${@:5} | cut -c1-420 || true
rm -rf "$D"
