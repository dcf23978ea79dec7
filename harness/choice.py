"""Controlled nondeterminism: every answer of the `random` module becomes a choice point the
explorer owns.  explore(fn) runs fn once per choice sequence (all of them up to `deviations`
departures from choice 0), replaying prefixes deterministically."""
import itertools
import random
from math import comb


class Diverged(Exception):
    pass


class _Script:
    def __init__(self, prefix):
        self.prefix, self.points, self.taken = list(prefix), [], []

    def pick(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged('choice %d of %d at point %d' % (c, n, i))
        self.points.append(n)
        self.taken.append(c)
        return c


def _unrank_comb(n, k, r):
    for i, c in enumerate(itertools.combinations(range(n), k)):
        if i == r:
            return c


class Controlled:
    NAMES = ['sample', 'choice', 'randrange', 'randint', 'shuffle', 'choices']

    def __init__(self, script):
        self.s = script

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in self.NAMES}
        s = self.s

        def sample(population, k, **kw):
            pop = list(population)
            if not 0 <= k <= len(pop):
                raise ValueError('Sample larger than population or is negative')
            return [pop[i] for i in _unrank_comb(len(pop), k, s.pick(comb(len(pop), k)))]

        def choice(seq):
            return seq[s.pick(len(seq))]

        def randrange(start, stop=None, step=1):
            r = range(start) if stop is None else range(start, stop, step)
            return r[s.pick(len(r))]

        def randint(a, b):
            return randrange(a, b + 1)

        def shuffle(x):
            perm = list(itertools.islice(itertools.permutations(range(len(x))), 24))
            p = perm[s.pick(len(perm))]
            y = [x[i] for i in p]
            for i, v in enumerate(y):
                x[i] = v

        def choices(population, weights=None, *, cum_weights=None, k=1):
            return [population[s.pick(len(population))] for _ in range(k)]
        for n, f in zip(self.NAMES, [sample, choice, randrange, randint, shuffle, choices]):
            setattr(random, n, f)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(random, n, f)


def run_once(fn, prefix=()):
    s = _Script(prefix)
    with Controlled(s):
        r = fn()
    return r, s


def explore(fn, deviations, limit=100000):
    """yields (choices, result, exception) for every choice sequence with at most `deviations`
    non-default choices"""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, dev = stack.pop()
        s = _Script(prefix)
        exc = None
        r = None
        with Controlled(s):
            try:
                r = fn()
            except Diverged:
                raise
            except Exception as e:
                exc = e
        n += 1
        yield tuple(s.taken), r, exc
        if n >= limit:
            return
        if dev < deviations:
            for i in range(len(prefix), len(s.points)):
                for alt in range(1, s.points[i]):
                    stack.append((tuple(s.taken[:i]) + (alt,), dev + 1))
