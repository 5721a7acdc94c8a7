#!/usr/bin/env python3
"""plant.py SPEC.py: writes seeded/<id>/ directories from a list BUGS of dicts
{id, property, needs, breaks, edits: [(file, old, new)...], demo: python text}.
Helper for writing planted bugs; nothing reads its output but the person."""
import difflib, json, os, sys, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/os_urlpattern/'
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, 1 otherwise
export PATH=/opt/venv/bin:$PATH PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
for b in runpy.run_path(sys.argv[1])['BUGS']:
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    byf = {}
    for f, old, new in b['edits']:
        t = byf.get(f) or open(SRC + f).read()
        assert t.count(old) == 1, (b['id'], f, t.count(old), old)
        byf[f] = t.replace(old, new)
    out = ''
    for f, t in byf.items():
        p = 'src/os_urlpattern/' + f
        out += ''.join(difflib.unified_diff(open(SRC + f).read().splitlines(True), t.splitlines(True), 'a/' + p, 'b/' + p))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip())
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
