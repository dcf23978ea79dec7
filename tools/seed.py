#!/usr/bin/env python3
"""Developer tool (never run by a check): make and try planted bugs.

seed.py try ID...     apply seeded/ID/patch.diff to a scratch copy of /repo, build, run the stable tests, the demo and the check
seed.py list
"""
import json, os, shutil, subprocess, sys, time
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def attempt(sid, checks=None, tests=True):
    d = os.path.join(SEED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo not clean'
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    if a.returncode:
        return 'patch does not apply: ' + a.stderr
    try:
        t = 'skipped'
        if tests:
            sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = set(json.load(open('/tmp/seed_out.json'))['passed'])
            t = 'ok' if stable <= got else 'FAIL %s' % (stable - got)
        r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        res = []
        for c in checks or [meta['property']]:
            s = time.time()
            k = sh('/opt/venv/bin/python harness/run.py %s quick' % c, cwd=ROOT, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            res.append('%s rc=%d %s %.0fs' % (c, k.returncode, 'CAUGHT' if 'VIOLATION property=%s' % c in k.stdout and k.returncode == 1 else 'missed', time.time() - s))
            if k.returncode == 1:
                res.append([l for l in k.stdout.splitlines() if l.startswith('   ')][:1])
    finally:
        sh('git -C %s checkout -- .' % REPO)
    return 'demo clean=%d patched=%d tests=%s %s %s' % (r0.returncode, r1.returncode, t, res, '' if r0.returncode == 0 and r1.returncode else '   <<<<< DEMO BAD\n' + r0.stderr[-500:] + r1.stderr[-300:])


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for s in sorted(os.listdir(SEED)):
            m = json.load(open(os.path.join(SEED, s, 'meta.json')))
            print(s, m['property'], m['what_it_breaks'])
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith('-')] or sorted(os.listdir(SEED))
        for s in ids:
            print(s, attempt(s, tests='--notest' not in sys.argv), flush=True)
    if len(sys.argv) > 1 and sys.argv[1] == 'try':
        sh('bash /opt/vp/build.sh')
