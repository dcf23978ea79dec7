#!/usr/bin/env python3
"""Developer helper: mk(sid, prop, [(file, old, new[, nth])...], demo_py, needs, breaks) writes seeded/<sid>/"""
import json, os, subprocess
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C %s status --porcelain' % REPO, shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(REPO, f)
            s = open(p).read()
            n = s.count(old)
            if len(e) > 3:
                i = -1
                for _ in range(e[3] + 1):
                    i = s.index(old, i + 1)
            else:
                assert n == 1, (sid, f, n, old)
                i = s.index(old)
            s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        diff = subprocess.run('git -C %s diff' % REPO, shell=True, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        subprocess.run('git -C %s checkout -- .' % REPO, shell=True)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
