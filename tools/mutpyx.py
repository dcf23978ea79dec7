#!/usr/bin/env python3
"""Developer tool (never run by a check): small textual mutations of the Cython sources, run against the quick checks.

mutpyx.py run FILE STEP OFFSET [FUNC,FUNC..] CHECK...     FUNC list '-' = every function
"""
import os, re, shutil, subprocess, sys, tempfile, queue
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('MUT_WORKERS', '2'))
RULES = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!])<(?![=<])', '<='), (r'(?<![<>=!])>(?![=>])', '>='), (r'==', '!='), (r'!=', '=='),
         (r'(?<=[\w\])])\+(?=[\w(\[])', '-'), (r'(?<=[\w\])])-(?=[\w(\[])', '+'), (r'(?<=[\w\])])\*(?=[\w(\[])', '+'), (r'\+=', '-='),
         (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bbreak\b', 'pass'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'), (r'\b1\b', '2'), (r'\b0\b', '1')]


def sites(src, funcs):
    out, cur, doc = [], None, False
    for n, l in enumerate(src.split('\n')):
        m = re.match(r'(?:cpdef|cdef|def)\b.*?(\w+)\(', l)
        if m:
            cur = m.group(1)
            continue
        code = l.split('#')[0]
        if code.count('"""') == 1:
            doc = not doc
            continue
        if doc or cur is None or not code.startswith((' ', '\t')) or 'cdef' in code or 'print' in code or 'verbose' in code or 'np.ndarray[' in code or 'import' in code or (funcs and cur not in funcs):
            continue
        for r, t in RULES:
            for m in re.finditer(r, code):
                out.append((n, m.start(), m.end(), t, cur))
    return out


def main():
    rel, step, off, funcs = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    checks = sys.argv[6:]
    src = open('/repo/' + rel).read()
    S = sites(src, None if funcs == '-' else funcs.split(','))
    base = tempfile.mkdtemp(prefix='mut_')
    q = queue.Queue()
    for w in range(W):
        d = os.path.join(base, str(w))
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/repo/src')
        shutil.copytree('/repo/src_cython', d + '/repo/src_cython')
        shutil.copytree(ROOT + '/harness', d + '/v/harness', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copyfile(ROOT + '/known_findings.json', d + '/v/known_findings.json')
        q.put(d)
    done = [0, 0, 0]

    def work(k):
        n, a, b, t, fn = S[k]
        L = src.split('\n')
        old = L[n]
        L[n] = old[:a] + t + old[b:]
        what = '%s:%d  %s  ->  %s' % (fn, n + 1, old.strip()[:110], L[n].strip()[:110])
        d = q.get()
        try:
            p = os.path.join(d, 'repo', rel)
            open(p, 'w').write('\n'.join(L))
            caught = None
            for c in checks:
                env = dict(os.environ, VERIF_DEV_REPO=d + '/repo', VERIF_NPROC=str(max(1, 8 // W)), VERIF_SEED='1')
                r = subprocess.run(['timeout', '-k', '5', '900', '/opt/venv/bin/python', 'harness/run.py', c, 'quick'], cwd=d + '/v', env=env, text=True, capture_output=True)
                if r.returncode != 0:
                    if 'do not build' in r.stdout + r.stderr:
                        done[2] += 1
                        return
                    caught = c
                    if r.returncode != 1 or 'VIOLATION' not in r.stdout:
                        print('ODD    %s #%d %s [%s rc=%d] %s' % (rel, k, what, c, r.returncode, (r.stdout + r.stderr)[-300:]), flush=True)
                    break
            done[0] += 1
            if caught:
                done[1] += 1
                if os.environ.get('MUT_V'):
                    print('caught %s #%d %s [%s]' % (rel, k, what, caught), flush=True)
            else:
                print('MISSED %s #%d %s' % (rel, k, what), flush=True)
        finally:
            open(os.path.join(d, 'repo', rel), 'w').write(src)
            q.put(d)

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, range(off, len(S), step)))
    print('%s: %d of %d mutants run, %d caught, %d do not compile' % (rel, done[0], len(S), done[1], done[2]), flush=True)
    shutil.rmtree(base)


main()
