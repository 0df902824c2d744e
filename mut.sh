#!/bin/bash
# mut.sh FILE 'python replace: old===new' PROP...   try a source change in a scratch copy (development aid)
F=$1; R=$2; shift 2
rm -rf /tmp/mutx; mkdir /tmp/mutx; cp -a ${BASE:-/repo}/include ${BASE:-/repo}/src /tmp/mutx/
python3 - "$F" "$R" <<'P'
import sys
p='/tmp/mutx/'+sys.argv[1]; s=open(p).read(); a,b=sys.argv[2].split('===')
assert a in s, 'pattern not found'
open(p,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 9
for P in "$@"; do echo "== $P"; CALIGO_REPO=/tmp/mutx python3 /verif/check.py $P | cut -c1-260 | tail -4; done
rm -rf /tmp/mutx
