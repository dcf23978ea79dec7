"""Bounded exhaustive explorer: case enumeration over a pool of processes, exact counting of
states / transitions / validated traces, replay artefacts, known findings, evidence."""
import contextlib
import io
import json
import multiprocessing as mp
from multiprocessing.connection import wait as mp_wait
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')  # development only: try a change in a scratch copy
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
CASE_LIMIT_S = 180
MAXVIOL = 8
REPORT_S = 300          # with a violation in hand, report after this time instead of finishing the exploration

sys.path.insert(0, os.path.join(REPO, 'src'))
warnings.simplefilter('ignore')


class CaseTimeout(Exception):
    pass


class Sink(io.TextIOBase):
    """swallows what the library prints"""

    def write(self, s):
        return len(s)

    def writable(self):
        return True


class Ctx:
    """what one case reports"""

    def __init__(self, suite, case):
        self.suite, self.case = suite, case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.violations = []
        self.sample = None

    def state(self, *key):
        self.states.add(hash((self.suite,) + key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key, n=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def note(self, **kw):
        if self.sample is None:
            self.sample = kw

    def fail(self, what, key=None, **detail):
        if len(self.violations) < 40:
            self.violations.append({'suite': self.suite, 'case': self.case, 'what': what,
                                    'key': key or ('%s:%s' % (self.suite, json.dumps(self.case, default=str))),
                                    'detail': {k: _js(v) for k, v in detail.items()}})

    def expect(self, cond, what, key=None, **detail):
        if not cond:
            self.fail(what, key, **detail)
        return cond


def _js(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, np.generic):
            return v.item()
    except ImportError:
        pass
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    return repr(v)


class Suite:
    def __init__(self, name, bounds, cases, run, chunk=1):
        self.name, self.bounds, self.cases, self.run, self.chunk = name, bounds, cases, run, chunk


_SUITES = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(suite, case):
    ctx = Ctx(suite.name, case)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        with contextlib.redirect_stdout(Sink()):
            suite.run(ctx, case)
    except CaseTimeout:
        ctx.fail('no answer within %d s' % CASE_LIMIT_S)
    except KeyboardInterrupt:
        raise
    except BaseException as e:           # SystemExit from the library counts as a failure too
        ctx.fail('%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if os.environ.get('VERIF_SLOW') and time.time() - t0 > 3:
        with open(os.environ['VERIF_SLOW'], 'a') as f:
            f.write('%6.1f %s %r\n' % (time.time() - t0, suite.name, case))
    return ctx


def _work(arg, begin=lambda i: None):
    sname, idx = arg
    s = _SUITES[sname]
    out = []
    for i in idx:
        begin(i)
        c = run_case(s, s.cases[i])
        out.append((i, c.states, c.transitions, c.traces, c.outcomes, c.violations, c.sample))
        if len(c.violations) >= MAXVIOL:
            break
    return sname, out


def _serve(conn):
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        conn.send(_work(job, lambda i: conn.send(i)))


def explore(jobs):
    """hands the jobs to NPROC processes and yields their results.  A process that dies or hangs in compiled code
    (where no exception can be raised) is replaced and its cases are tried again one by one; a single case that
    does it twice is a violation of that case"""
    ctx = mp.get_context('fork')
    todo = list(reversed(jobs))
    tried, live = {}, {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_child, args=(b, [a] + list(live)), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0.0, None]       # process, job, start of the current case, current case
        return a

    def give(c):
        if not todo:
            return
        w = live[c]
        w[1], w[2], w[3] = todo.pop(), time.time(), None
        c.send(w[1])

    try:
        for _ in range(min(NPROC, max(1, len(todo)))):
            give(start())
        while any(w[1] is not None for w in live.values()) or todo:
            for c in mp_wait(list(live), 5.0):
                w = live[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = None
                if isinstance(r, int):
                    w[2], w[3] = time.time(), r
                    continue
                if r is not None:
                    w[1] = None
                    give(c)
                    yield r
                    continue
                w[0].join(10)
                yield from _lost(w, tried, todo, 'the process died (exit code %s)' % w[0].exitcode)
                del live[c]
                give(start())
            for c in list(live):
                w = live[c]
                if w[1] is not None and time.time() - w[2] > CASE_LIMIT_S + 20:
                    w[0].kill()
                    w[0].join(10)
                    yield from _lost(w, tried, todo, 'no answer within %d s' % CASE_LIMIT_S)
                    del live[c]
                    give(start())
            for c in list(live):
                if live[c][1] is None and todo:
                    give(c)
    finally:
        for w in live.values():
            w[0].kill()


def _child(conn, others):
    for c in others:
        c.close()
    _serve(conn)


def _lost(w, tried, todo, why):
    if w[1] is None:
        return
    sname, idx = w[1]
    if why.startswith('no answer') and w[3] is not None:
        todo.extend((sname, [i]) for i in idx if i != w[3])
        idx = [w[3]]
    elif len(idx) > 1:
        todo.extend((sname, [i]) for i in idx)
        return
    k = (sname, idx[0])
    tried[k] = tried.get(k, 0) + 1
    if tried[k] < 2 and not why.startswith('no answer'):
        todo.append(w[1])
        return
    c = Ctx(sname, _SUITES[sname].cases[idx[0]])
    c.fail(why)
    yield sname, [(idx[0], c.states, 0, 0, {}, c.violations, None)]


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data.get('findings', []) if e['property'] == pid}


def run_check(pid, suites, tier, seed, level='model_checking', assumptions=()):
    global CASE_LIMIT_S
    t0 = time.time()
    if tier == 'thorough':
        CASE_LIMIT_S = 900
    known = known_findings(pid)
    for s in suites:
        s.cases = list(s.cases)
        assert s.name not in _SUITES, s.name
        _SUITES[s.name] = s
    jobs = []
    for s in suites:
        n = len(s.cases)
        k = max(1, s.chunk)
        for a in range(0, n, k):
            jobs.append((s.name, list(range(a, min(n, a + k)))))
    states, outcomes, samples, viols, hits = {}, {}, [], [], {}
    trans = {s.name: 0 for s in suites}
    traces = {s.name: 0 for s in suites}
    ncase = {s.name: 0 for s in suites}
    stop = False
    res = explore(jobs)
    for sname, out in res:
        for i, st, tr, tc, oc, vi, sm in out:
            states.setdefault(sname, set()).update(st)
            trans[sname] += tr
            traces[sname] += tc
            ncase[sname] += 1
            d = outcomes.setdefault(sname, {})
            for k, v in oc.items():
                d[str(k)] = d.get(str(k), 0) + v
            if sm is not None and len([1 for x in samples if x['suite'] == sname]) < 2:
                samples.append({'suite': sname, 'case': _js(_SUITES[sname].cases[i]), 'observed': _js(sm)})
            for v in vi:
                if v['key'] in known:
                    hits.setdefault(v['key'], v)
                else:
                    viols.append(v)
        if len(viols) >= MAXVIOL or (viols and time.time() - t0 > REPORT_S):
            stop = True
            break
    res.close()
    for k in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    per = {}
    for s in suites:
        oc = outcomes.get(s.name, {})
        top = dict(sorted(oc.items(), key=lambda x: -x[1])[:12])
        per[s.name] = {'bounds': s.bounds, 'cases': ncase[s.name], 'cases_total': len(s.cases),
                       'states': len(states.get(s.name, ())), 'transitions': trans[s.name],
                       'traces': traces[s.name], 'distinct_outcomes': len(oc), 'outcomes': top}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': sum(len(x) for x in states.values()),
            'transitions': sum(trans.values()),
            'traces_validated_against_impl': sum(traces.values()),
            'cases': sum(ncase.values()),
            'exhaustive': (not stop) and all(ncase[s.name] == len(s.cases) for s in suites),
            'suites': per,
            'samples': samples[:24],
            'known_findings_seen': sorted(hits),
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 0
    if viols:
        rc = 1
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viols[:MAXVIOL]):
            path = os.path.join(rd, '%s_%d.json' % (pid, n))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'violation': _js(v)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   %s %s: %s %s' % (v['suite'], json.dumps(_js(v['case']))[:300], v['what'],
                                        json.dumps(v['detail'])[:600]))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs' % (
        pid, tier, ev['coverage']['cases'], ev['coverage']['states'], ev['coverage']['transitions'],
        ev['coverage']['traces_validated_against_impl'], len(viols), len(hits), ev['wall_s']))
    sys.stdout.flush()
    return rc


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vqc_')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
