#!/usr/bin/env python3
"""mkseed.py SPEC.py...  (development aid) each SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++), srcs; writes seeded/<id>/"""
import sys, os, json, subprocess
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g)
    for s in g['seeds']:
        d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        sh = lambda *a: subprocess.run(a, check=True, capture_output=True, text=True, cwd='/tmp/sr').stdout
        sh('git', 'checkout', '-q', '--', '.'); sh('git', 'fetch', '-q', '/repo', 'HEAD'); sh('git', 'reset', '-q', '--hard', 'FETCH_HEAD')
        for file, old, new in s['edits']:
            p = '/tmp/sr/' + file; t = open(p).read(); assert t.count(old) >= 1, (s['id'], file, old)
            open(p, 'w').write(t.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git', 'diff'))
        sh('git', 'checkout', '-q', '--', '.')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        inc = ' '.join('-include ' + h for h in 'cstring algorithm memory variant filesystem stdexcept functional array cstdint span string vector'.split())
        src = s.get('srcs', '')
        vg = s.get('valgrind')
        run = f'valgrind -q --error-exitcode=7 "$T/d"' if vg else '"$T/d"'
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: behaves as specified; nonzero: property {s['prop']} broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++20 {s.get('opt','-O2')} -w -maes -mpclmul {inc} -Iinclude "$D/demo.cpp" {src} -o "$T/d" || exit 9
timeout 250 {run}
''')
