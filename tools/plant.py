#!/usr/bin/env python3
"""tools/plant.py SPEC.py...: turn bug specifications into /verif/seeded/<id>/ and try them.

A specification assigns ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text) and FLAGS.
The patched copy of /repo lives under /tmp and is removed afterwards.
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# run in the root of the repository: exit 0 when the property holds on this input or schedule
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 %s -I include "$d/demo.cpp" -o "$t/demo" || exit 3
r=$(pwd); cd "$t" && timeout 120 ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    i = g['ID']; w = '/tmp/plant_' + i
    shutil.rmtree(w, ignore_errors=True)
    run(['cp', '-a', '/repo', w]); run(['git', '-C', w, 'update-index', '-q', '--refresh'])
    ok = True
    for f, old, new in g['EDITS']:
        p = w + '/include/ffcl/' + f; s = open(p).read()
        if s.count(old) < 1: print(i, 'NO MATCH', f, old[:60]); ok = False; break
        if s.count(old) > 1 and not g.get('ALL'): print(i, 'AMBIGUOUS', f, s.count(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: shutil.rmtree(w); continue
    diff = run(['git', '-C', w, 'diff']).stdout
    d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(g['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write(SH % g.get('FLAGS', '-O1 -fopenmp -DTHREADS_ENABLED=true')); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    a = run(['bash', d + '/demo.sh'], cwd='/repo'); b = run(['bash', d + '/demo.sh'], cwd=w)
    print(i, g['PROPERTY'], 'demo clean', a.returncode, 'patched', b.returncode, a.stdout[-300:] if a.returncode else '', b.stdout[-200:].strip() if b.returncode != 3 else b.stdout[-1500:], flush=True)
    props = [g['PROPERTY']] + g.get('ALSO', [])
    for pr in props:
        e = dict(os.environ, FFCL_REPO=w, FFCL_BUILD=w + '/sb')
        c = run(['python3', 'check.py', pr], cwd=V, env=e)
        v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
        print('   check', pr, 'exit', c.returncode, v[:2] or c.stdout[-500:] if c.returncode else 'MISSED', flush=True)
    if '-k' not in os.environ.get('PLANT', ''): shutil.rmtree(w)
