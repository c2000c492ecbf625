#!/usr/bin/env python3
"""Sensitivity: applies small source changes in a scratch copy of the headers and runs the simulations against it.
usage: [KIND=refactors] mutants.py <harness> [filter]   (mutants listed in tools/mutants/<harness>.txt)
Format of the list, separated by lines of ---:
  name | file | properties expected to report (comma separated)
  <<<
  old text
  >>>
  new text
"""
import sys, os, re, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = sys.argv[1]; filt = sys.argv[2] if len(sys.argv) > 2 else ''
after = sys.argv[3] if len(sys.argv) > 3 else ''
kind = os.environ.get('KIND', 'mutants') # KIND=refactors: behaviour is kept, every check must stay quiet
want = 1 if kind == 'mutants' else 0
txt = open(f'{V}/tools/{kind}/{h}.txt').read()
runs = os.environ.get('MUT_RUNS', '200000')
bad = 0
for blk in re.split(r'^---\n', txt, flags=re.M):
    m = re.match(r'(.*?)\n((?:<<<\n.*?>>>\n.*?(?=<<<|\Z))+)', blk.strip('\n') + '\n', re.S)
    if not m: continue
    name, f, props = [x.strip() for x in m.group(1).split('|')]
    if after:
        if name == after: after = ''
        else: continue
    if filt not in name: continue
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/util', d + '/r/util')
        p = f'{d}/r/{f}'; s = open(p).read()
        for e in re.finditer(r'<<<\n(.*?)>>>\n(.*?)(?=<<<|\Z)', m.group(2), re.S):
            old, new = e.group(1).rstrip('\n'), e.group(2).rstrip('\n')
            assert old in s, (name, old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
        env = dict(os.environ, SIM_REPO=d + '/r', SIM_VERIF=d)
        shutil.copy(f'{V}/known_findings.txt', d)
        b = subprocess.run([f'{V}/sim/build.sh', h, d + '/b'], env=env, capture_output=True, text=True)
        if b.returncode: print(name, 'BUILD FAILED', b.stderr[:600]); bad += 1; continue
        res = []
        for pr in props.split(','):
            extra = ['--runs', runs] if runs != '0' else []
            r = subprocess.run([f'{d}/b/{h}', '--prop', pr.strip(), '--no-evidence'] + extra, env=env, capture_output=True, text=True)
            v = re.search(r'^%s: \[(.*?)\]' % pr.strip(), r.stdout, re.M)
            res.append(f'{pr.strip()}:{r.returncode}' + (f'[{v.group(1)}]' if v else '') + (r.stderr[:200] if r.returncode == 2 else ''))
            if r.returncode != want: bad += 1; print(r.stdout[-600:]) if not want else 0
        print(f'{name:45s}', ' '.join(res), flush=True)
    finally:
        shutil.rmtree(d)
print('not as wanted:', bad)
