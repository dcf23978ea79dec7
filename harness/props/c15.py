"""C15  The outline of an object is exactly its geometric border."""
from collections import Counter

import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['conforming complexes (simplices meet in whole common faces), as the code documents',
               'edges where two flat faces of the surface cross (touching parts) are not judged: the notion of border is ambiguous there']


def _norm(d):
    k = next(i for i in range(len(d)) if not d[i].iszero())
    iv = d[k].inv()
    return k, [x * iv for x in d]


def plane(t):
    n = ref.cross(ref.vsub(t[1], t[0]), ref.vsub(t[2], t[0]))
    _, n = _norm(n)
    return tuple(x.triple() for x in n) + (ref.dot(n, t[0]).triple(),)


def key(p):
    return tuple(x.triple() for x in p)


def border(surface, f):
    """surface: triangles of Q points -> (set of maximal border segments as frozensets of point keys, judged?)"""
    groups = {}
    for t in surface:
        groups.setdefault(plane(t) if f is ICO else 0, []).append(t)
    pts = {}
    total = Counter()
    per = []
    for g, ts in groups.items():
        c = Counter()
        for t in ts:
            for a, b in combinations(t, 2):
                ka, kb = key(a), key(b)
                pts[ka], pts[kb] = a, b
                c[frozenset((ka, kb))] += 1
        per.append(c)
        total.update(c)
    judged = all(n == 1 or (n == 2 and total[e] == 2) for c in per for e, n in c.items())
    edges = {e for c in per for e, n in c.items() if n == 1}
    lines = {}
    for e in edges:
        a, b = (pts[k] for k in e)
        k, d = _norm(ref.vsub(b, a))
        foot = [x - a[k] * y for x, y in zip(a, d)]
        lo, hi = sorted((a, b), key=lambda p: float(p[k]))
        lines.setdefault((key(d), key(foot)), []).append((lo[k], hi[k], key(lo), key(hi)))
    out = set()
    for segs in lines.values():
        segs.sort(key=lambda s: float(s[0]))
        cur = None
        for s in segs:
            if cur is not None and not cur[1] < s[0]:
                if cur[1] < s[1]:
                    cur = (cur[0], s[1], cur[2], s[3])
            else:
                if cur is not None:
                    out.add(frozenset(cur[2:]))
                cur = s
        out.add(frozenset(cur[2:]))
    return out, judged


def surface_of(o, f):
    S = obj_perp(o, f)
    if f is DODE:
        return S
    c, tri = Counter(), {}
    for s in S:
        for t in combinations(s, 3):
            k = frozenset(key(p) for p in t)
            c[k] += 1
            tri[k] = t
    return [tri[k] for k, n in c.items() if n == 1]


def suites(tier):
    big = tier == 'thorough'
    out = []

    def judge(ctx, pkg, got, want, o, what, **kw):
        f = FIELD[pkg]
        if not ctx.expect(is_triple_array(got) and got.ndim == 4 and got.shape[1:] == (2, 6, 3), what + ': a set of segments', pkg=pkg, got=repr(got)[:200], **kw):
            return
        segs = [frozenset(pkey(v, f) for v in e) for e in got]
        c = Counter(segs)
        ctx.expect(set(segs) >= want, what + ': a border edge is missing or broken', pkg=pkg, missing=len(want - set(segs)), got=len(got), want=len(want), **kw)
        ctx.expect(set(segs) <= want, what + ': an edge that is not a whole border edge', pkg=pkg, extra=len(set(segs) - want), got=len(got), want=len(want), **kw)
        ctx.expect(all(n == 1 for n in c.values()), what + ': an edge twice', pkg=pkg, got=len(got), want=len(want), **kw)
        corners = {vkey(v, f) for s in o for v in s}
        ctx.expect(all(vkey(v, f) in corners for e in got for v in e), what + ': ends are corners of the object', pkg=pkg, **kw)

    def calls(pkg, a):
        od, u = mod(pkg, 'occupation_domain'), mod(pkg, 'utils')
        yield 'generate_border_edges', lambda: od.generate_border_edges(a)
        if pkg == 'dode2':
            yield 'outline', lambda: od.outline(a)

    def one(ctx, pkg, o, tag, every=True):
        f = FIELD[pkg]
        want, judged = border(surface_of(o, f), f)
        a = arr(o)
        for name, fn in calls(pkg, a):
            got, _ = choice.run_once(fn)
            ctx.step()
            if judged:
                judge(ctx, pkg, got, want, o, name, tag=tag)
            if not every:
                break
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', pkg=pkg, tag=tag)
        ctx.outcome('%s %d border edges' % (pkg, len(want)) if judged else '%s not judged' % pkg)
        ctx.state(pkg, tag)

    COMP = {p: D.complexes(p) for p in PKGS}

    def subs(ctx, case):
        pkg, ci, mode, size = case
        name, comp = COMP[pkg][ci]
        for sub in combinations(range(len(comp)), size):
            o = D.renamed(pkg, [comp[i] for i in sub], mode)
            if (size + mode) % 2:
                o = [s[::-1] for s in o][::-1]
            one(ctx, pkg, o, '%s%s mode %d' % (name, sub, mode))
            if len(ctx.violations) > 6:
                return
        ctx.trace()
        ctx.note(pkg=pkg, complex=name, size=size, mode=mode)
    modes = range(4 if big else 2)
    out.append(mc.Suite('subcomplexes', 'every subset of the simplices of the reference complexes x renamings of corners',
                        [(p, c, m, k) for p in PKGS for c in range(len(COMP[p])) for m in modes for k in range(1, len(COMP[p][c][1]) + 1)], subs))

    def single(ctx, case):
        pkg, c = case
        f = FIELD[pkg]
        s = D.simplex(pkg, c)
        one(ctx, pkg, [s], '%s' % (c,))
        # subdivided: same border
        k = len(s)
        for i, j in combinations(range(k), 2):
            one(ctx, pkg, D.bisect(s, i, j, f), '%s cut %d-%d' % (c, i, j))
        w = sum(c) % k
        cut = D.bisect(s, 0, 1, f, F(1, 3))
        o = [x for t in cut for x in D.star(t, f)]
        one(ctx, pkg, o, '%s cut and star' % (c,))
        o = D.bisect(s, 0, 1, f, F(1, 3))
        one(ctx, pkg, [o[0]] + D.bisect(o[1], 0, 1, f, F(1, 2)), '%s cut twice' % (c,))
        ctx.trace()
    NS = {'ico2': 8 if big else 6, 'dode2': 9 if big else 7}
    out.append(mc.Suite('subdivided', 'every simplex over %r points, whole and cut at every edge, cut twice, cut and starred' % NS, [(p, c) for p in PKGS for c in D.simplices(p, NS[p])], single))

    # cells of a grid: every subset, with holes, notches and touching corners
    GRID = {'dode2': [(i, j) for j in range(2) for i in range(3)], 'ico2': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}
    if big:
        GRID = {'dode2': [(i, j) for j in range(3) for i in range(3)], 'ico2': [(i, j, k) for i in range(2) for j in range(2) for k in range(2)]}

    def cells(pkg, sub):
        f, P = FIELD[pkg], D.POINTS[pkg]
        E = [P[4], P[5], P[6]] if pkg == 'ico2' else [P[1], P[2]]
        cell = D.box(pkg, P[0], *E)
        o = []
        for i in sub:
            d = P[0]
            for e, n in zip(E, GRID[pkg][i]):
                d = D.addv(d, D.scalev(e, n, f), f)
            o += D.shifted(cell, d, f)
        return o

    def grid(ctx, case):
        pkg, sub = case
        one(ctx, pkg, cells(pkg, sub), 'cells %s' % (sub,), every=len(sub) < 4)
        ctx.trace()
        ctx.note(pkg=pkg, cells=sub)
    cases = []
    for p in PKGS:
        n = len(GRID[p])
        for m in range(1, 2 ** n):
            sub = tuple(i for i in range(n) if m >> i & 1)
            cases.append((p, sub))
    cases.sort(key=lambda c: -len(c[1]))
    out.append(mc.Suite('cells', 'every union of cells of a 3x2 (3x3) grid of parallelograms and of an L of (2x2x2) boxes', cases, grid))

    if not big:
        def ring(ctx, case):
            f, P = DODE, D.POINTS['dode2']
            cell = D.box('dode2', P[0], P[1], P[2])
            o = [s for i in range(3) for j in range(3) if (i, j) != (1, 1) for s in D.shifted(cell, D.addv(D.scalev(P[1], i, f), D.scalev(P[2], j, f), f), f)]
            one(ctx, 'dode2', D.renamed('dode2', o, case), 'ring %d' % case, every=False)
            ctx.trace()
        out.append(mc.Suite('ring', '3x3 cells without the middle one', [0, 1], ring))

    LARGE = {p: [x for x in D.large(p) if 'far' not in x[0] and (big or 'row' not in x[0])] for p in PKGS}

    def large(ctx, case):
        pkg, i, mode = case
        name, o, _ = LARGE[pkg][i]
        one(ctx, pkg, D.renamed(pkg, o, mode), '%s mode %d' % (name, mode), every=False)
        ctx.trace()
    out.append(mc.Suite('large', 'icosahedron, dodecagon, dodecagram, blocks of cells', [(p, i, m) for p in PKGS for i in range(len(LARGE[p])) for m in ((0, 1) if big else (0,))], large))

    # flat faces of the surface as such: sets of coplanar triangles
    def flat(ctx, case):
        pkg, sub = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        P = D.POINTS[pkg]
        E = [P[4], P[5]] if pkg == 'ico2' else [P[1], P[2]]
        tris = []
        for i, j in ((0, 0), (1, 0), (0, 1)):
            d = D.addv(D.scalev(E[0], i, f), D.scalev(E[1], j, f), f)
            p00, p10, p01 = d, D.addv(d, E[0], f), D.addv(d, E[1], f)
            p11 = D.addv(p10, E[1], f)
            tris += [[p00, p10, p11], [p11, p01, p00]]
        o = [tris[i] for i in sub]
        got, _ = choice.run_once(lambda: u.gen_border_edges_of_coplanar_triangles(arr(o)))
        c = Counter(frozenset(pkey(v, f) for v in e) for t in o for e in combinations(t, 2))
        want = {e for e, n in c.items() if n == 1}
        ok = is_triple_array(got) and got.ndim == 4 and got.shape[1:] == (2, 6, 3)
        ctx.expect(ok and Counter(frozenset(pkey(v, f) for v in e) for e in got) == Counter({e: 1 for e in want}), 'border of a flat set of triangles', pkg=pkg, sub=sub, got=repr(got)[:200])
        S = [[ref.perp(v, f) for v in t] for t in o]
        w2, judged = border(S, f)
        got, _ = choice.run_once(lambda: u.surface_cleaner(arr(o)))
        judge(ctx, pkg, got, w2, o, 'surface_cleaner', sub=sub)
        ctx.step(2)
        ctx.state('flat', pkg, sub)
        ctx.trace()
    subs_ = [tuple(i for i in range(6) if m >> i & 1) for m in range(1, 64)]
    out.append(mc.Suite('flat', 'every set of triangles of three coplanar cells', [(p, s) for p in PKGS for s in subs_], flat, chunk=4))

    # random picks of the coplanarity test
    def picks(ctx, case):
        pkg, name, o, part, parts = case
        f = FIELD[pkg]
        want, judged = border(surface_of(o, f), f)
        a = arr(o)
        n = 0
        for nm, fn in calls(pkg, a):
            _, s = choice.run_once(fn)
            alts = [(i, alt) for i, k in enumerate(s.points) for alt in range(1, k)]
            for q, (i, alt) in enumerate(alts):
                if q % parts != part:
                    continue
                got, s2 = choice.run_once(fn, tuple(s.taken[:i]) + (alt,))
                judge(ctx, pkg, got, want, o, nm + ' under other random picks', tag=name, picks=[i, alt])
                ctx.state('r', pkg, name, nm, i, alt)
                ctx.step()
                n += 1
                if len(ctx.violations) > 4:
                    return
            break
        ctx.outcome('%s %s' % (pkg, name), n)
        ctx.trace(n)
    rc = []
    for p in PKGS:
        C = D.simplices(p, 6)
        o1 = D.bisect(D.simplex(p, C[1]), 0, 1, FIELD[p])
        rc.append((p, 'bisected', o1))
        rc.append((p, 'part of box', COMP[p][2][1][:3 if big else 2]))
        if big:
            rc.append((p, 'star', COMP[p][0][1]))
    out.append(mc.Suite('picks', 'every single deviation from the first random pick', [(p, n, o, k, 8) for p, n, o in rc for k in range(8)], picks))
    return out
