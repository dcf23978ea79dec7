"""C16  Convex hull, triangulation of point sets and simplification."""
import math

import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['hull and simplification are specified for conforming complexes']


def pk(p):
    return tuple(x.triple() for x in p)


def hull_measure(points, f):
    """exact measure of the convex hull of Q points"""
    pts = list({pk(p): p for p in points}.values())
    zero = Q(F(0), F(0), f)
    if f is DODE:
        import functools
        P = sorted(pts, key=functools.cmp_to_key(lambda a, b: (a[0] - b[0]).sign() or (a[1] - b[1]).sign()))
        if len(P) < 3:
            return zero

        def half(P):
            h = []
            for p in P:
                while len(h) > 1 and ref.signed2area([h[-2], h[-1], p]).sign() <= 0:
                    h.pop()
                h.append(p)
            return h
        H = half(P)[:-1] + half(P[::-1])[:-1]
        tot = zero
        for i in range(1, len(H) - 1):
            tot = tot + ref.triarea([H[0], H[i], H[i + 1]])
        return tot
    n = len(pts)
    seen = set()
    tot = zero
    for i, j, k in combinations(range(n), 3):
        nv = ref.cross(ref.vsub(pts[j], pts[i]), ref.vsub(pts[k], pts[i]))
        if all(x.iszero() for x in nv):
            continue
        s = [ref.dot(nv, ref.vsub(p, pts[i])).sign() for p in pts]
        if 1 in s and -1 in s:
            continue
        face = tuple(q for q in range(n) if s[q] == 0)
        if face in seen:
            continue
        seen.add(face)
        if not any(s):
            return zero
        # corners only, ordered by angle about their centre
        face = [q for q in face if not inner(pts, q, face)]
        c = [sum(float(pts[q][d]) for q in face) / len(face) for d in range(3)]
        nf = [float(x) for x in nv]
        u = [float(pts[face[0]][d]) - c[d] for d in range(3)]
        w = [nf[1] * u[2] - nf[2] * u[1], nf[2] * u[0] - nf[0] * u[2], nf[0] * u[1] - nf[1] * u[0]]
        lu, lw = math.sqrt(sum(x * x for x in u)), math.sqrt(sum(x * x for x in w))

        def ang(q):
            d = [float(pts[q][x]) - c[x] for x in range(3)]
            return math.atan2(sum(a * b for a, b in zip(d, w)) / lw, sum(a * b for a, b in zip(d, u)) / lu)
        poly = sorted(face, key=ang)
        for a in range(1, len(poly) - 1):
            tot = tot + ref.tetvol([pts[0], pts[poly[0]], pts[poly[a]], pts[poly[a + 1]]])
    return tot


def inner(pts, q, face):
    """q is no corner of the flat polygon: on a segment or in a triangle of the others"""
    oth = [x for x in face if x != q]
    for a, b in combinations(oth, 2):
        if ref.on_segment(pts[q], pts[a], pts[b]):
            return True
    for t in combinations(oth, 3):
        if not ref.collinear(*[pts[x] for x in t]) and in_flat(pts[q], [pts[x] for x in t]):
            return True
    return False


def in_flat(p, t):
    n = ref.cross(ref.vsub(t[1], t[0]), ref.vsub(t[2], t[0]))
    return all(ref.dot(n, ref.cross(ref.vsub(t[(i + 1) % 3], t[i]), ref.vsub(p, t[i]))).sign() >= 0 for i in range(3))


def suites(tier):
    big = tier == 'thorough'
    out = []

    def fn(pkg):
        u = mod(pkg, 'utils')
        return u.tetrahedralization_points if pkg == 'ico2' else u.triangulation_points

    def tiling(ctx, pkg, got, points, what, **kw):
        f = FIELD[pkg]
        E = [ref.perp(p, f) for p in points]
        if check_region(ctx, got, hull_measure(E, f), lambda s: True, f, SIMPLEX[pkg], what, pkg=pkg, **kw) and got is not None:
            names = {vkey(p, f) for p in points}
            ctx.expect(all(vkey(v, f) in names for s in got for v in s), what + ': corners are given points', pkg=pkg, **kw)

    N = {'ico2': 11 if big else 10, 'dode2': 12 if big else 10}
    SZ = {'ico2': (4, 5, 6, 7) if big else (4, 5, 6), 'dode2': (3, 4, 5, 6)}

    def points(ctx, case):
        pkg, size, first = case
        P = D.POINTS[pkg]
        for rest in combinations(range(first + 1, N[pkg]), size - 1):
            c = (first,) + rest
            if not big and size >= 6 and sum(c) % 2:
                continue
            pts = [P[i] for i in c]
            if sum(c) % 3 == 0:
                pts = pts[::-1]
            got = fn(pkg)(arr(pts))
            tiling(ctx, pkg, got, pts, 'triangulation of a point set', c=c)
            ctx.step()
            ctx.state(pkg, c)
            ctx.outcome('%s %d points: %s' % (pkg, size, 'none' if got is None else len(got)))
            if len(ctx.violations) > 6:
                return
        ctx.trace()
    out.append(mc.Suite('points', 'every subset of %r points, sizes %r%s' % (N, SZ, '' if big else ' (half of size 6)'), [(p, k, i) for p in PKGS for k in SZ[p] for i in range(N[p] - k + 1)], points))

    def few(ctx, case):
        """too few, repeated or renamed points; all points of the alphabet at once"""
        pkg, i = case
        P, f = D.POINTS[pkg], FIELD[pkg]
        sets = [[P[0]], [P[0], P[1]], [P[0], P[1], P[2]][:SIMPLEX[pkg] - 1],
                [P[0], P[0], P[1], P[2], P[3]], [P[1], P[0], P[2], P[3], P[1], P[3]],
                P, P[::-1], P[:7] + P[2:5],
                [D.scalev(v, Q(F(7), F(3), f), f) for v in P], [D.scalev(v, Q(F(1, 9), F(0), f), f) for v in P[:8]],
                [D.addv(v, D.scalev(P[4], 11, f), f) for v in P[:9]],
                [P[0], D.alias(pkg, P[0], 0), P[1], P[2], P[4], P[6]],
                [D.alias(pkg, v, j) if j % 2 else v for j, v in enumerate(P[:8])]]
        pts = sets[i]
        got = fn(pkg)(arr(pts))
        tiling(ctx, pkg, got, pts, 'triangulation of a point set', set=i)
        ctx.step()
        ctx.state('few', pkg, i)
        ctx.trace()
    out.append(mc.Suite('sets', 'degenerate, repeated, renamed, scaled and complete point sets', [(p, i) for p in PKGS for i in range(13)], few))

    # hull and simplification of objects
    def obj(ctx, pkg, o, tag, picks=False):
        f = FIELD[pkg]
        u, od = mod(pkg, 'utils'), mod(pkg, 'occupation_domain')
        a = arr(o)
        S = obj_perp(o, f)
        pts = [v for s in o for v in s]
        got, _ = choice.run_once(lambda: u.generate_convex_hull(a))
        tiling(ctx, pkg, got, pts, 'convex hull of an object', tag=tag)
        g2, _ = choice.run_once(lambda: od.simplification(a, len(o) % 2))
        check_region(ctx, g2, obj_measure(o, f), lambda s: covered(s, S, f), f, SIMPLEX[pkg], 'simplified object', pkg=pkg, tag=tag)
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', pkg=pkg, tag=tag)
        ctx.step(2)
        ctx.state('o', pkg, tag)
        conv = obj_measure(o, f) == hull_measure([p for s in S for p in s], f)
        ctx.outcome('%s %s, %s' % (pkg, 'convex' if conv else 'not convex', 'simplified' if g2 is not None and len(g2) < len(o) else 'kept'))

    def single(ctx, case):
        pkg, c = case
        f = FIELD[pkg]
        s = D.simplex(pkg, c)
        obj(ctx, pkg, [s], '%s' % (c,))
        k = len(s)
        for i, j in list(combinations(range(k), 2))[sum(c) % 3::3]:
            obj(ctx, pkg, D.bisect(s, i, j, f), '%s cut %d-%d' % (c, i, j))
        obj(ctx, pkg, D.star(s, f), '%s star' % (c,))
        ctx.trace()
    NS = {'ico2': 8 if big else 6, 'dode2': 9 if big else 7}
    out.append(mc.Suite('subdivided', 'every simplex over %r points, whole, cut, starred' % NS, [(p, c) for p in PKGS for c in D.simplices(p, NS[p])], single))

    def pair(ctx, case):
        pkg, c, d = case
        obj(ctx, pkg, [D.simplex(pkg, c), D.simplex(pkg, d)], '%s+%s' % (c, d))
        ctx.trace()
    NP = {'ico2': 9 if big else 8, 'dode2': 9 if big else 8}
    pc = []
    for p in PKGS:
        C = D.simplices(p, NP[p])
        E = {c: [ref.perp(v, FIELD[p]) for v in D.simplex(p, c)] for c in C}
        pp = [(p, c, d) for c, d in combinations(C, 2) if len(set(c) & set(d)) == SIMPLEX[p] - 1 and separated(E[c], E[d], FIELD[p])]
        pc += pp if big else pp[::2]
    out.append(mc.Suite('pairs', 'every %spair of simplices over %r points that share a facet' % ('' if big else 'second ', NP), pc, pair, chunk=2))

    COMP = {p: D.complexes(p) for p in PKGS}

    def subs(ctx, case):
        pkg, ci, sub = case
        name, comp = COMP[pkg][ci]
        o = [comp[i] for i in sub]
        # parts that meet in less than a facet are left to the outline check
        obj(ctx, pkg, o, '%s%s' % (name, sub))
        ctx.trace()
        ctx.note(pkg=pkg, complex=name, sub=sub)
    sc = [(p, c, sub) for p in PKGS for c in range(len(COMP[p])) for k in range(1, len(COMP[p][c][1]) + 1) for sub in combinations(range(len(COMP[p][c][1])), k)]
    if not big:
        sc = [x for x in sc if len(COMP[x[0]][x[1]][1]) <= 6 or x[2][0] == 0]
    out.append(mc.Suite('subcomplexes', 'every subset of the simplices of the reference complexes', sc, subs))

    LARGE = {p: [x for x in D.large(p) if (big or ('row' not in x[0] and 'far' not in x[0]))] for p in PKGS}

    def large(ctx, case):
        pkg, i = case
        obj(ctx, pkg, LARGE[pkg][i][1], LARGE[pkg][i][0])
        ctx.trace()
    out.append(mc.Suite('large', 'blocks of cells, icosahedron, dodecagon, dodecagram', [(p, i) for p in PKGS for i in range(len(LARGE[p]))], large))

    def none(ctx, case):
        od = mod(case, 'occupation_domain')
        ctx.expect(od.simplification(None) is None and od.simplification(None, 1) is None, 'nothing simplified is nothing', pkg=case)
        ctx.step(2)
        ctx.state('none', case)
        ctx.trace()
    out.append(mc.Suite('nothing', 'empty object', PKGS, none))
    return out
