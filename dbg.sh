#!/bin/bash
# dbg.sh PROP ENTRY [flags]: prepare and run one entry, keeping the module in /tmp/dbg
P=$1; E=$2; shift 2
mkdir -p /tmp/dbg; python3 - $P <<'X'
import sys; sys.path.insert(0,'/verif'); import check
d,e,s=check.prepare(sys.argv[1],'quick','/tmp/dbg')
print(' '.join('--stub '+x for x in d['stub']))
X
