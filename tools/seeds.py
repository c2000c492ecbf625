#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below (patch.diff against /repo's HEAD, demo.sh, demo.cc, meta.json)."""
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, flags='-O1'):
    SEEDS.append((id, prop, needs, breaks, edits, demo, flags))
exec(open(f'{V}/tools/seed_list.py').read())
SH = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken. Run in the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 %s -w -I"$PWD" "$d/demo.cc" -o "$t/demo" -pthread || exit 2
timeout 120 "$t/demo"
'''
only = sys.argv[1:]
for id, prop, needs, breaks, edits, demo, flags in SEEDS:
    if only and id not in only: continue
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        diff = ''
        byfile = {}
        for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
        for f, es in byfile.items():
            s0 = s = open(f'/repo/{f}').read()
            for old, new in es:
                assert s.count(old) == 1, (id, s.count(old), old)
                s = s.replace(old, new)
            os.makedirs(f'{w}/a/{os.path.dirname(f)}', exist_ok=True); os.makedirs(f'{w}/b/{os.path.dirname(f)}', exist_ok=True)
            open(f'{w}/a/{f}', 'w').write(s0); open(f'{w}/b/{f}', 'w').write(s)
            diff += subprocess.run(['diff', '-u', '--label', f'a/{f}', '--label', f'b/{f}', f'a/{f}', f'b/{f}'], cwd=w, capture_output=True, text=True).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    open(f'{d}/demo.cc', 'w').write(demo.lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write(SH % flags); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
print(len(SEEDS), 'planted bugs')
