#!/usr/bin/env python3
"""seed.py new <id> <spec.py>: makes seeded/<id> from a spec (EDITS=[(path, old, new)], PROPERTY, NEEDS, BREAKS, FILES={name: text}); validates it in a scratch copy:
   builds, all stable tests pass, demo 0 without and nonzero with the patch.   seed.py demo0 <id>: only run the demo on /repo"""
import json, os, shutil, subprocess, sys, runpy, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    sid, spec = sys.argv[1], runpy.run_path(sys.argv[2])
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    for n, t in spec['FILES'].items(): open(os.path.join(d, n), 'w').write(t)
    shutil.copy(os.path.join(V, 'tools/demolib/demo.sh'), d)
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    wt = '/tmp/seedwt-' + sid
    shutil.rmtree(wt, ignore_errors=True)
    sh('git -C /repo worktree prune')
    r = sh('git clone -q /repo %s' % wt); assert r.returncode == 0, r.stderr
    for p, o, n in spec['EDITS']:
        q = os.path.join(wt, p); s = open(q).read()
        if s.count(o) < 1: print('NOEDIT', p, o); return 1
        open(q, 'w').write(s.replace(o, n, 1))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % wt).stdout)
    shutil.rmtree(wt)
    return 0
sys.exit(main())
