"""C23  The compiled icosahedral package's simplifications and subtraction keep exactly the region."""
import os
import shutil
import tempfile
from itertools import combinations, permutations

import numpy as np

import choice
import legacy as L
import mc
import ref
import domains as D
from lib import *
from props.c16 import hull_measure

ASSUMPTIONS = ['operands are bounded so that the 64-bit integers of the compiled code cannot overflow',
               'the modules are compiled from the working tree into a scratch directory of the run',
               'a subtraction may report failure (the empty result) on complicated operands, never a wrong region; cutting a piece off one tetrahedron must succeed',
               'mics.simplification_obj_edges (simple(select=0)) and the hand-made steps are not judged']
MODS = {'ico': ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics']}
f = ICO


def od():
    return L.mod('ico', 'occupation_domain')


SIMPLE = {'simplification': lambda a: od().simplification(a), 'edges': lambda a: od().simple(a, 1), 'smart': lambda a: od().simple(a, 2),
          'polyhedron': lambda a: od().simple(a, 3), 'merging': lambda a: od().simple(a, 4), 'merging 2, 3 and 4': lambda a: od().simple(a, 4, 3, 0, [2, 2, 2], [1, 1, 1]),
          'default': lambda a: od().simple(a, 9)}


class Shuffle:
    """np.random.shuffle answered by a fixed sequence of permutation ranks; the merging keeps its working files in the
    current directory, so it runs in a scratch one"""

    def __init__(self, ranks):
        self.ranks, self.n = list(ranks), 0

    def __enter__(self):
        self.saved = np.random.shuffle

        def shuffle(x):
            ps = list(permutations(range(len(x))))
            p = ps[(self.ranks[self.n] if self.n < len(self.ranks) else 0) % len(ps)]
            self.n += 1
            y = [x[i] for i in p]
            for i, v in enumerate(y):
                x[i] = v
        np.random.shuffle = shuffle
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='vqc23_')
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        np.random.shuffle = self.saved
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, True)


def suites(tier):
    big = tier == 'thorough'
    L.build(MODS)
    out = []
    COMP = D.complexes('ico2')
    OBJ = [(n, o, c) for n, o, c in D.objects('ico2', 7 if big else 6)]
    SUBS = [('%s%s' % (n, s), [c[i] for i in s], False) for n, c in COMP for k in range(1, len(c) + 1) for s in combinations(range(len(c)), k)]

    # objects with pieces that can be put together again: cut edges, faces and interiors, alone, next to and away from others
    MERGE = []
    FAR = D.scalev(D.POINTS['ico2'][5], 9, f)
    pairs = [(x[1], x[0]) for x in OBJ if len(x[1]) == 2 and x[0] not in ('bisected', 'bisected 1/3', 'near+far')]
    for k, (pr, nm) in enumerate(pairs[::max(1, len(pairs) // (8 if big else 3))]):
        s, t = pr
        def face(q, j):
            c = D.centroid([v for x, v in enumerate(q) if x != j], f)
            return [[c if x == y else v for x, v in enumerate(q)] for y in range(4) if y != j]
        h = D.bisect(s, k % 4, (k + 1) % 4, f)
        MERGE += [('halves+ %s' % nm, h + [t], False), ('thirds %s' % nm, [h[0]] + D.bisect(h[1], (k + 1) % 4, k % 4, f, F(1, 3)), True),
                  ('quarters %s' % nm, [y for x in h for y in D.bisect(x, (k + 2) % 4, (k + 3) % 4, f)], True),
                  ('face+ %s' % nm, face(s, k % 4) + [t], False), ('star+ %s' % nm, [t] + D.star(s, f), False),
                  ('halves+halves %s' % nm, h + D.bisect(t, 1, 2, f, F(1, 3)), False),
                  ('face+far %s' % nm, D.shifted([s], FAR, f) + face(s, (k + 2) % 4), False),
                  ('star+halves %s' % nm, D.star(s, f) + D.bisect(t, 0, 3, f), False)]

    # the same shapes much smaller and much larger: what counts is relative to the object
    def concave(o):
        return not (hull_measure([ref.perp(v, f) for q in o for v in q], f) - obj_measure(o, f)).iszero()
    base = [x for x in OBJ if len(x[1]) == 2 and concave(x[1])][::10 if big else 25] + [x for x in SUBS if len(x[1]) == 3 and concave(x[1])][::4 if big else 12] + [x for x in MERGE if x[0].startswith(('halves+ ', 'face+ '))][:4 if big else 2] + SUBS[-1:]
    SCALED = [('%s x (%d%+dtau)/%d' % ((nm,) + w), [[D.scalev(v, Q(F(w[0], w[2]), F(w[1], w[2]), f), f) for v in q] for q in o], c) for nm, o, c in base for w in ((13, -8, 18), (13, -8, 1), (8, 13, 1))]   # tau^-6/18, tau^-6, tau^7

    def same(ctx, g, o, what, **d):
        P = obj_perp(o, f)
        return check_region(ctx, None if g is None or np.asarray(g).size < 6 else g, obj_measure(o, f), lambda s: covered(s, P, f), f, 4, what, **d)

    def variants(o, i):
        """the object, or its corners renamed / reordered"""
        k = i % 3
        if k == 0:
            return o
        o = D.renamed('ico2', o, 1)
        return o if k == 1 else [s[::-1] for s in o][::-1]

    ALL = OBJ + SUBS + MERGE + SCALED

    def simplify(ctx, case):
        i, k = case
        name, o, _ = ALL[i]
        o = variants(o, i + k)
        P = obj_perp(o, f)
        for n in SIMPLE:
            a = arr(o)
            with Shuffle([i + k]):
                g = SIMPLE[n](a)
            ok = same(ctx, g, o, 'simplified object', by=n, obj=name)
            ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', by=n, obj=name)
            ctx.step()
            ctx.outcome('%s: %s' % (n, '?' if not ok else 'fewer' if len(g) < len(o) else 'as many' if len(g) == len(o) else 'more'))
        pts = [v for s in o for v in s]
        m = L.mod('ico', 'mics')
        extra = [np.array([[0]])] + ([arr(D.POINTS['ico2'][(i + k) % 9])] if not (i + k) % 4 else [])
        for e in extra:
            E = [ref.perp(v, f) for v in pts + ([] if e.size < 6 else [e.tolist()])]
            g = m.generate_convex_hull(arr(o), e, 10, 0)
            check_region(ctx, g, hull_measure(E, f), lambda s: True, f, 4, 'convex hull', obj=name, extra=e.size > 1)
            names = {tuple(x.triple() for x in q) for q in E}
            ctx.expect(all(tuple(x.triple() for x in q) in names for s in obj_perp(g, f) for q in s), 'convex hull: corners are given points', obj=name)
            ctx.step()
        ctx.state(i, k)
        ctx.trace()
    out.append(mc.Suite('simplify', 'every object and subcomplex (%d) x %s: seven simplifications and the hull' % (len(ALL), 'three namings' if big else 'one naming each'),
                        [(i, k) for i in range(len(ALL)) for k in (range(3) if big else (0,))], simplify))

    # ------------------------------------------------------------------ every order the merging may look at the pieces in
    SH = [x for x in OBJ + SUBS if 2 <= len(x[1]) <= 4]
    SH = (SH if big else SH[::3]) + [x for x in MERGE if len(x[1]) <= 5]

    def shuffled(ctx, case):
        i = case
        name, o, _ = SH[i]
        n = len(list(permutations(range(len(o)))))
        for r in range(n):
            for cyc, sh in (([3, 0, 0], [1, 0, 0]), ([0, 3, 0], [0, 1, 0]), ([0, 0, 3], [0, 0, 1]), ([1, 1, 1], [2, 1, 1])):
                if (len(o) == 4 and not big and (r + sum(cyc)) % 3) or (len(o) == 5 and (r + sum(cyc)) % (5 if big else 17)):
                    continue
                with Shuffle([r, n - 1 - r]) as s:
                    g = od().simple(arr(o), 4, 3, 0, cyc, sh)
                same(ctx, g, o, 'merged object', obj=name, order=r, cycles=cyc, shuffles=sh)
                ctx.step()
                ctx.outcome('%d -> %d pieces' % (len(o), len(g)))
            ctx.state(i, r)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
    out.append(mc.Suite('shuffled', 'merging of 2, 3, 4 pieces under every order of the shuffle, %d objects' % len(SH), list(range(len(SH))), shuffled))

    # ------------------------------------------------------------------ parts
    PARTS = [x for x in OBJ + SUBS if 2 <= len(x[1]) <= (6 if big else 4)]
    PARTS = PARTS if big else PARTS[::4]

    def parts(ctx, case):
        i = case
        name, o, _ = PARTS[i]
        n = len(o)
        for k in range(1, n + 1):
            for sub in combinations(range(n), k):
                groups = [[list(sub)]]
                if k >= 2 and (big or n < 4):
                    groups.append([list(sub[:1]), list(sub[1:])])
                for num in groups:
                    for fn in ('simple_special', 'simple_special_1'):
                        a = arr(o)
                        g = getattr(od(), fn)(a, num, 3)
                        same(ctx, g, o, 'object simplified in part', obj=name, parts=num, by=fn)
                        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', obj=name, by=fn)
                        ctx.step()
                # replace the chosen pieces by other ones of the same region
                rep = [t for j in sub for t in D.bisect(o[j], 0, 1 + (i + j) % 3, f)]
                g = od().simpl_manual_2(arr(o), [list(sub)], arr(rep))
                same(ctx, g, o, 'object with pieces replaced', obj=name, parts=sub)
                rep = [D.scaled(t, F(1, 2), f) for t in rep]
                g = od().simpl_manual_2(arr(o), [list(sub)], arr(rep))
                same(ctx, g, o, 'object with wrong replacement refused', obj=name, parts=sub)
                ctx.step(2)
                ctx.state(i, sub)
                if len(ctx.violations) > 6:
                    return
        ctx.trace()
    out.append(mc.Suite('parts', 'every choice of pieces to simplify or replace, %d objects' % len(PARTS), list(range(len(PARTS))), parts))

    RND = [x for x in OBJ + SUBS if 3 <= len(x[1]) <= 4]

    def rnd(ctx, case):
        i, k = case
        name, o, _ = RND[i]
        for taken, g, exc in choice.explore(lambda: od().simple_rondom(arr(o), 2, k), 3 if big else 1):
            if ctx.expect(exc is None, 'random simplification works', obj=name, choices=taken, error=repr(exc)):
                same(ctx, g, o, 'object simplified at random', obj=name, choices=taken)
            ctx.step()
            ctx.state(i, k, taken)
        ctx.trace()
    out.append(mc.Suite('random', 'every answer of random.sample (2 rounds), %d objects' % len(RND[::1 if big else 3]), [(i, k) for i in range(0, len(RND), 1 if big else 3) for k in (1, 2)], rnd))

    CONV = [x for x in OBJ if x[2]]

    def add(ctx, case):
        name, o, _ = CONV[case]
        P = obj_perp(o, f)
        pts = [D.POINTS['ico2'][j] for j in range(9)] + [D.centroid(s, f) for s in o] + [D.centroid(o[0][:2] + o[0][:2], f)] + [D.scalev(D.POINTS['ico2'][5], 9, f)]
        for p in pts:
            q = ref.perp(p, f)
            inside = any(in_simplex(q, s, f) >= 0 for s in P)
            g = od().simpl_add_point(arr(o), arr(p))
            if same(ctx, g, o, 'object with a point added', obj=name, within=inside):
                if inside:
                    key = tuple(x.triple() for x in q)
                    ctx.expect(any(tuple(x.triple() for x in c) == key for s in obj_perp(g, f) for c in s), 'the point is a corner now', obj=name)
                else:
                    ctx.expect(np.array_equal(g, arr(o)), 'a point outside changes nothing', obj=name)
            ctx.step()
            ctx.state(case, tuple(map(tuple, p)))
        ctx.trace()
    out.append(mc.Suite('add_point', 'every convex object x corners, inner, edge and outer points', list(range(len(CONV))), add))

    # ------------------------------------------------------------------ subtraction
    SUB = [x for x in OBJ if len(x[1]) <= 2]

    def subtract(ctx, case):
        i, j = case
        (na, A, _), (nb, B, _) = SUB[i], SUB[j]
        difference(ctx, na, A, nb, B, False)
        ctx.state(i, j)

    def difference(ctx, na, A, nb, B, must):
        m = overlap_measure(A, B, f)
        if m.iszero():
            ctx.outcome('apart')
            return
        two = L.mod('ico', 'two_occupation_domains')
        c = two.intersection(arr(A), arr(B))
        a, b, cc = arr(A), arr(B), c.copy()
        g = two.subtraction(a, b, cc)
        want = obj_measure(A, f) - m
        PA, PB = obj_perp(A, f), obj_perp(B, f)
        d = dict(A=na, B=nb)
        if np.asarray(g).size < 6:
            ok = want.iszero()
            ctx.expect(ok or not must, 'difference found', **d)
            ctx.outcome('nothing left' if ok else 'failure reported')
        else:
            check_region(ctx, g, want, lambda s: covered(s, PA, f) and all(separated(s, t, f) or pair_measure(s, t, f).iszero() for t in PB), f, 4, 'difference', **d)
            ctx.outcome('difference')
        ctx.expect(np.array_equal(a, arr(A)) and np.array_equal(b, arr(B)) and np.array_equal(c, cc), 'arguments unchanged', **d)
        ctx.step()
        ctx.trace()

    def cut(ctx, case):
        """a piece cut off one tetrahedron"""
        c, k, w = case
        s = [D.scalev(v, Q(F(w[0], w[2]), F(w[1], w[2]), f), f) for v in D.simplex('ico2', c)]
        pieces = [D.bisect(s, i, j, f, w)[h] for i, j in combinations(range(4), 2) for h in (0, 1) for w in (F(1, 2), F(1, 3))]
        pieces += D.star(s, f) + [D.scaled(s, F(1, 2), f), D.scaled(s, F(1, 2), f, s[k])]
        for n, p in enumerate(pieces[k::1 if big else 4]):
            difference(ctx, '%s x %s' % (c, w), [s], 'piece %d' % n, [p], True)
            ctx.state('cut', c, k, n, w)
    out.append(mc.Suite('cut', 'every tetrahedron over %d points without a piece of it: halves, thirds, stars, smaller copies; the same much smaller and larger' % (7 if big else 6),
                        [(c, k, (1, 0, 1)) for c in D.simplices('ico2', 7 if big else 6) for k in ((0,) if big else range(4))] +
                        [(c, k % 4, w) for k, c in enumerate(D.simplices('ico2', 7 if big else 6)) for w in ((13, -8, 18), (8, 13, 1))], cut))
    PAIRS = [x for x in OBJ if len(x[1]) == 2 and not x[0].startswith('bisected')]

    def cut_pair(ctx, case):
        """a piece cut off one of two tetrahedra, the other one untouched or only touched"""
        i, h = case
        name, o, _ = PAIRS[i]
        s = o[h]
        pieces = [D.bisect(s, x, y, f)[z] for x, y in combinations(range(4), 2) for z in (0, 1)] + D.star(s, f)[:1] + [D.scaled(s, F(1, 2), f)]
        for n, p in enumerate(pieces if big else pieces[(i + h) % 3::3]):
            difference(ctx, name, o, 'piece %d of %d' % (n, h), [p], True)
            ctx.state('pair', i, h, n)
    out.append(mc.Suite('cut_pair', 'every pair of tetrahedra without a piece of one of them', [(i, h) for i in range(len(PAIRS)) for h in (0, 1)], cut_pair))
    sp = [(i, j) for i in range(len(SUB)) for j in range(len(SUB))]
    sp = sp if big else [(i, j) for i, j in sp if len(SUB[i][1]) + len(SUB[j][1]) == 2 or (i + 2 * j) % 5 == 0]
    out.append(mc.Suite('subtract', 'pairs of %d objects of one or two tetrahedra (%d pairs)' % (len(SUB), len(sp)), sp, subtract, chunk=2))
    return out
