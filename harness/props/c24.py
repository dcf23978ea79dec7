"""C24  The compiled packages compute field numbers, projections, vector algebra and measures exactly."""
from itertools import combinations, permutations, product

import numpy as np

import legacy as L
import mc
import ref
from domains import POINTS, KER, addv, scalev, simplices, simplex, unreduced, objects
from lib import *

ASSUMPTIONS = ['operands are bounded so that the 64-bit integers of the compiled code cannot overflow',
               'the modules are compiled from the working tree into a scratch directory of the run']
OPS = ['add', 'sub', 'mul', 'div']
MODS = {'ico': ['math1', 'utils', 'numericalc', 'symmetry', 'intsct'], 'dode': None}


def model(op, x, y):
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'mul':
        return x * y
    return None if y.iszero() else x / y


def call(ctx, pkg, f, op, a, b, qa, qb):
    want = model(op, qa, qb)
    fn = getattr(L.math(pkg), op)
    if want is None:
        try:
            got = fn(*a, *b)
        except Exception:
            got = None
        ctx.expect(not isinstance(got, (list, tuple, np.ndarray)), 'division by zero must yield no number', pkg=pkg, a=a, b=b, got=got)
        ctx.outcome('none')
        return None
    got = fn(*a, *b)
    if not (isinstance(got, list) and len(got) == 3 and all(isinstance(x, (int, np.integer)) for x in got)):
        ctx.fail('result is not an integer triple', op=op, pkg=pkg, a=a, b=b, got=got)
        return None
    g, w = tuple(int(x) for x in got), want.triple()
    if g != w:
        ctx.fail('wrong value' if g[2] == 0 or val(g, f) != want else 'value right but not in lowest terms with positive denominator',
                 op=op, pkg=pkg, a=a, b=b, got=g, want=w)
        return None
    return w


def same(ctx, got, want, what, **d):
    """got: anything flattenable to triples; want: Q list"""
    g = np.asarray(got).reshape(-1, 3)
    if len(g) != len(want) or g.dtype.kind not in 'iu':
        ctx.fail(what + ': wrong shape', got=got, **d)
        return False
    w = [x.triple() for x in want]
    if [tup(x) for x in g] != w:
        if any(int(t[2]) == 0 for t in g) or any(val(t, x.f) != x for t, x in zip(g, want)):
            ctx.fail(what + ': wrong value', got=g, want=w, **d)
        else:
            ctx.fail(what + ': value right but not in lowest terms with positive denominator', got=g, want=w, **d)
        return False
    return True


def close(got, want, tol=1e-9):
    return abs(got - want) <= tol * max(1.0, abs(want))


def suites(tier):
    big = tier == 'thorough'
    L.build(MODS)
    R = 5 if big else 3
    dens = [1, 2, 3, 4, 5, 6, 7, -1, -2, -3] if big else [1, 2, 3, 4, -1, -2]
    small = [(a, b, c) for c in dens for a in range(-R, R + 1) for b in range(-R, R + 1)]
    mags = [0, 1, -1, 6, -10, 97, 1000, -4097, 2 ** 16 + 1, -(2 ** 18) + 5, 2 ** 19 - 1]
    bigs = [(a, b, c) for a in mags for b in mags for c in (1, 10, 1021, -(2 ** 18 + 3))]
    extra = [(a, b, c) for a in (0, 1, -2, 3) for b in (0, 1, -1, 5) for c in (1, 2, -7)]

    def pairs(ctx, case):
        pkg, which, i = case
        f = L.FIELD[pkg]
        A, B = (small, small) if which == 'small' else (bigs, bigs if big else bigs[::3] + extra)
        a = A[i]
        qa = val(a, f)
        for b in B:
            qb = val(b, f)
            for op in OPS:
                w = call(ctx, pkg, f, op, a, b, qa, qb)
                ctx.step()
                if w is not None:
                    ctx.state(pkg, w)
            if len(ctx.violations) > 10:
                return
        ctx.trace()

    gens = [(1, 0, 1), (0, 1, 1), (1, 0, 2), (-1, 1, 3), (2, -1, 1), (3, 5, -4)]

    def closure(ctx, case):
        pkg, g0 = case
        f = L.FIELD[pkg]
        depth = 4 if big else 3
        w0 = call(ctx, pkg, f, 'add', gens[g0], (0, 0, 1), val(gens[g0], f), val((0, 0, 1), f))
        if w0 is None:
            return
        frontier, seen = [w0], {w0}
        for d in range(depth):
            nxt = []
            for s in frontier:
                if max(abs(x) for x in s) > 10 ** 5:
                    ctx.outcome('horizon')
                    continue
                for g in gens:
                    for op in OPS:
                        for x, y in ((s, g), (g, s)):
                            w = call(ctx, pkg, f, op, x, y, val(x, f), val(y, f))
                            ctx.step()
                            if w is not None and w not in seen:
                                seen.add(w)
                                nxt.append(w)
                                ctx.state('c', pkg, w)
                if len(ctx.violations) > 10:
                    return
            frontier = nxt
        ctx.trace(len(seen))

    coords = [(0, 0, 1), (1, 0, 1), (0, 1, 1), (-1, 1, 2), (3, -2, 5)] + ([(2, 0, -3), (0, -1, 7)] if big else [])

    def project(ctx, case):
        """all vectors whose first two coordinates are the case's and the others range over the alphabet"""
        pkg, i, j = case
        f = L.FIELD[pkg]
        m, nm = L.math(pkg), L.num(pkg)
        tails = product(coords[:4] if not big else coords[:5], repeat=4)
        for t in tails:
            v = [coords[i], coords[j]] + list(t)
            nv = arr(v)
            P, E = ref.perp(v, f), ref.par(v, f)
            args = [nv[k] for k in range(6)]
            same(ctx, m.projection3(*args), P, 'projection3', pkg=pkg, v=v)
            same(ctx, m.projection(*args), E + P, 'projection', pkg=pkg, v=v)
            fl = [float(x) for x in E + P]
            num6 = [float(val(x, f)) for x in v]
            if pkg == 'ico':
                h = m.projection_perp(*args)
                hh = [tup(x) for x in h]
                ctx.expect(all(c[2] > 0 for c in hh) and [x.triple() for x in ref.perp(hh, f)] == [x.triple() for x in P]
                           and all(x.iszero() for x in ref.par(hh, f)),
                           'projection_perp must name the internal component, with no external one', pkg=pkg, v=v, got=hh)
                g6, g3 = nm.projection_numerical(*num6), nm.projection3_numerical(*num6)
            else:
                g6, g3 = nm.projection_numerical(nv), nm.get_internal_component_numerical(nv)
                g1 = nm.projection_1_numerical(*num6)
                ctx.expect(all(close(a, b) for a, b in zip(g1, fl)) and len(g1) == 6, 'projection of numbers', v=v, got=g1, want=fl)
            ctx.expect(len(g6) == 6 and all(close(a, b) for a, b in zip(g6, fl)), 'numerical projection', pkg=pkg, v=v, got=g6, want=fl)
            ctx.expect(len(g3) == 3 and all(close(a, b) for a, b in zip(g3, fl[3:])), 'numerical internal projection', pkg=pkg, v=v, got=g3, want=fl[3:])
            ctx.step(5)
            ctx.state(pkg, i, j, t)
            if len(ctx.violations) > 10:
                return
        ctx.trace()

    mats = [[0.0, 0.0, 0.0, 0.0], [0.25, 0.0, 0.0, 0.0], [0.0, 0.5, 0.0, 0.0], [0.0, 0.0, -0.125, 0.0], [0.0, 0.0, 0.0, 0.375],
            [0.1, -0.2, 0.3, 0.05]]

    def phason(ctx, case):
        """a linear phason strain adds a linear function of the external component to the internal one"""
        i, k = case
        f, nm = DODE, L.num('dode')
        u = mats[k]
        pm = np.array([[u[0], u[1]], [u[2], u[3]]])
        for t in product(coords[:3], repeat=3):
            v = [coords[i]] + list(t) + [(0, 0, 1), (0, 0, 1)]
            E, P = [float(x) for x in ref.par(v, f)], [float(x) for x in ref.perp(v, f)]
            want = E + [P[0] + u[0] * E[0] + u[2] * E[1], P[1] + u[1] * E[0] + u[3] * E[1], P[2]]
            num6 = [float(val(x, f)) for x in v]
            for name, got, w in (('projection_2_numerical', nm.projection_2_numerical(*num6, *u), want),
                                 ('projection_numerical_phason_1', nm.projection_numerical_phason_1(arr(v), pm), want),
                                 ('get_internal_component_phason_numerical', nm.get_internal_component_phason_numerical(arr(v), pm), want[3:])):
                ctx.expect(len(got) == len(w) and all(close(a, b) for a, b in zip(got, w)), name, v=v, matrix=u, got=got, want=w)
                ctx.step()
            ctx.state(i, k, t)
        ctx.trace()

    va = [(0, 0, 1), (1, 0, 1), (0, 1, 2), (-2, 1, 3)]
    vecs3 = list(product(va, repeat=3))

    def algebra(ctx, case):
        pkg, i = case
        f, m = L.FIELD[pkg], L.math(pkg)
        a = vecs3[i]
        na, qa = arr(a), [val(x, f) for x in a]
        for b in vecs3:
            nb, qb = arr(b), [val(x, f) for x in b]
            same(ctx, m.dot_product(na[0], na[1], na[2], nb[0], nb[1], nb[2]), [ref.dot(qa, qb)], 'dot product', pkg=pkg, a=a, b=b)
            same(ctx, m.outer_product(na, nb), ref.cross(qa, qb), 'outer product', pkg=pkg, a=a, b=b)
            if pkg == 'ico':
                same(ctx, m.inner_product(na, nb), [ref.dot(qa, qb)], 'inner product', pkg=pkg, a=a, b=b)
            ctx.step(3)
        for b in vecs3[1::5]:
            for c in vecs3[::3]:
                same(ctx, m.det_matrix(na, arr(b), arr(c)),
                     [ref.det3(qa, [val(x, f) for x in b], [val(x, f) for x in c])], 'determinant', pkg=pkg, a=a, b=b, c=c)
                ctx.step()
        ctx.state(pkg, i)
        ctx.trace()

    def vectors(ctx, case):
        pkg, i = case
        f, m = L.FIELD[pkg], L.math(pkg)
        pts = POINTS[L.MODERN[pkg]]
        a = pts[i]
        na, qa = arr(a), ref.qvec(a, f)
        for b in pts:
            nb, qb = arr(b), ref.qvec(b, f)
            same(ctx, m.add_vectors(na, nb), [x + y for x, y in zip(qa, qb)], 'add_vectors', pkg=pkg, a=a, b=b)
            if pkg == 'dode':
                same(ctx, m.sub_vectors(na, nb), [x - y for x, y in zip(qa, qb)], 'sub_vectors', pkg=pkg, a=a, b=b)
            else:
                same(ctx, L.utils(pkg).middle_position(na, nb), [(x + y) * Q(F(1, 2), F(0), f) for x, y in zip(qa, qb)],
                     'middle_position', pkg=pkg, a=a, b=b)
            ctx.step(2)
        for s in coords + [(-1, 0, 1), (5, 0, 1)]:
            qs = val(s, f)
            same(ctx, m.mul_vector(na, list(s)), [x * qs for x in qa], 'mul_vector', pkg=pkg, a=a, s=s)
            same(ctx, m.mul_vectors(arr([a, pts[(i + 1) % len(pts)]]), list(s)),
                 [x * qs for x in qa + ref.qvec(pts[(i + 1) % len(pts)], f)], 'mul_vectors', pkg=pkg, a=a, s=s)
            ctx.step(2)
        ctx.state(pkg, i)
        ctx.trace()

    n = 12 if big else 9
    smp = {p: [c for d in (False, True) for c in simplices(L.MODERN[p], n, degenerate=d)] for p in L.PKGS}

    def measures(ctx, case):
        pkg, i = case
        f, u = L.FIELD[pkg], L.utils(pkg)
        c = smp[pkg][i]
        s = simplex(L.MODERN[pkg], c)
        want = simplex_measure([ref.perp(v, f) for v in s], f)
        orders = list(permutations(range(len(s)))) if big else [tuple(range(len(s))), tuple(range(len(s)))[::-1], (1, 0) + tuple(range(2, len(s)))]
        name = 'tetrahedron_volume_6d' if pkg == 'ico' else 'triangle_area_6d'
        for o in orders:
            for k in (1, 3):
                t = arr([unreduced(s[j], k) for j in o])
                same(ctx, getattr(u, name)(t), [want], name, pkg=pkg, simplex=c, order=o)
                ctx.step()
        if pkg == 'ico':
            nm = L.num(pkg)
            g = nm.tetrahedron_volume_6d_numerical(arr(s))
            ctx.expect(close(g, float(want)), 'numerical volume', simplex=c, got=g, want=float(want))
            same(ctx, L.math(pkg).centroid(arr(s)),
                 [(a + b + e + d) * Q(F(1, 4), F(0), f) for a, b, e, d in zip(*[ref.qvec(v, f) for v in s])], 'centroid', simplex=c)
            flat = L.math(pkg).coplanar_check(arr(s))
            ctx.expect(bool(flat) == want.iszero(), 'coplanar_check', simplex=c, got=flat, volume=float(want))
            ctx.expect(L.math(pkg).coplanar_check(arr(s[:3])) == 1, 'three points lie in a plane', simplex=c)
            for a, b, e in combinations(s, 3):
                A, B, C = (ref.perp(v, f) for v in (a, b, e))
                cr = ref.cross(ref.vsub(B, A), ref.vsub(C, A))
                area = 0.5 * float(ref.dot(cr, cr)) ** 0.5
                g = L.math(pkg).triangle_area(*[arr([x.triple() for x in P]) for P in (A, B, C)])
                ctx.expect(close(g, area), 'triangle_area', got=g, want=area, simplex=c)
            ctx.step(7)
        ctx.state(pkg, c)
        ctx.trace()

    objs = {p: objects(L.MODERN[p], 6) for p in L.PKGS}

    def whole(ctx, case):
        pkg, i = case
        f, u = L.FIELD[pkg], L.utils(pkg)
        o = objs[pkg][i]
        o = o[1]
        want = obj_measure(arr(o), f)
        name = 'obj_volume_6d' if pkg == 'ico' else 'obj_area_6d'
        same(ctx, getattr(u, name)(arr(o)), [want], name, pkg=pkg, i=i)
        if pkg == 'ico':
            same(ctx, L.mod('ico', 'occupation_domain').volume(arr(o)) if big else u.obj_volume_6d(arr(o)[::-1].copy()), [want], 'volume', i=i)
            g = L.num(pkg).obj_volume_6d_numerical(arr(o))
            ctx.expect(close(g, float(want)), 'numerical volume', i=i, got=g, want=float(want))
        ctx.step(3)
        ctx.state(pkg, i)
        ctx.trace()

    nc = len(coords)
    # one operand from a wide square, so that no relation between its two parts is missed
    RW = 60 if big else 36
    FEW = [(1, 0, 1), (0, 1, 1), (3, 5, -4), (7, -2, 6)]

    def wide(ctx, case):
        pkg, a = case
        f = L.FIELD[pkg]
        few = [(t, val(t, f)) for t in FEW]
        for b in range(-RW, RW + 1):
            t = (a, b, 3 if (a + b) % 2 else 1)
            qt = val(t, f)
            for u, qu in few:
                for op in OPS:
                    call(ctx, pkg, f, op, u, t, qu, qt)
                call(ctx, pkg, f, 'div', t, u, qt, qu)
                ctx.step(5)
            ctx.state('w', pkg, t)
        ctx.trace()

    # flat or not: every order of sets of four to six points, with collinear and coinciding ones among them
    PI = POINTS['ico2']
    LINE = [scalev(PI[4], Q(F(a, b), F(q), ICO), ICO) for a, b, q in ((0, 1, 0), (1, 3, 0), (1, 1, 0), (0, 1, 1))]
    FLAT = LINE + [PI[1], PI[2], PI[5], PI[6], addv(PI[4], KER['ico2'][0], ICO)]

    def flat(ctx, case):
        want = {}
        for o in permutations(case):
            pts = [FLAT[i] for i in o]
            k = tuple(sorted(o))
            if k not in want:
                want[k] = ref.coplanar([ref.perp(v, ICO) for v in pts])
            got = L.math('ico').coplanar_check(arr(pts))
            ctx.expect(got in (0, 1) and bool(got) == want[k], 'coplanar_check', points=o, got=got, want=want[k])
            ctx.step()
            ctx.state('flat', o)
        ctx.outcome('coplanar=%s' % want[k])
        ctx.trace()

    return [
        mc.Suite('pairs_small', 'all ordered pairs of (a,b,c), |a|,|b|<=%d, c in %s, 4 operations, both packages' % (R, dens),
                 [(p, 'small', i) for p in L.PKGS for i in range(len(small))], pairs, chunk=4),
        mc.Suite('pairs_large', 'pairs of triples with magnitudes up to 2^19 (products beyond 2^53), 4 operations',
                 [(p, 'big', i) for p in L.PKGS for i in range(len(bigs))], pairs, chunk=4),
        mc.Suite('wide', 'every operand with both parts up to %d against %d others' % (RW, len(FEW)), [(p, a) for p in L.PKGS for a in range(-RW, RW + 1)], wide, chunk=4),
        mc.Suite('closure', 'breadth-first over results fed back as operands, depth %d' % (4 if big else 3),
                 [(p, g) for p in L.PKGS for g in range(len(gens))], closure),
        mc.Suite('projections', 'all 6-d vectors over %d x %d x 4^4 coordinates, exact and numerical' % (nc, nc),
                 [(p, i, j) for p in L.PKGS for i in range(nc) for j in range(nc)], project),
        mc.Suite('phason', '%d matrices' % len(mats), [(i, k) for i in range(3) for k in range(len(mats))], phason),
        mc.Suite('algebra', 'all pairs of 64 internal vectors, determinants', [(p, i) for p in L.PKGS for i in range(len(vecs3))], algebra),
        mc.Suite('vectors', '14 points', [(p, i) for p in L.PKGS for i in range(14)], vectors),
        mc.Suite('measures', 'all simplices over %d points, degenerate ones included' % n,
                 [(p, i) for p in L.PKGS for i in range(len(smp[p]))], measures, chunk=4),
        mc.Suite('objects', 'objects of several simplices', [(p, i) for p in L.PKGS for i in range(len(objs[p]))], whole),
        mc.Suite('flat', 'every order of every set of 4 to %d of %d points, up to 5 of them collinear' % (6 if big else 5, len(FLAT)),
                 [c for n in ((4, 5, 6) if big else (4, 5)) for c in combinations(range(len(FLAT)), n)], flat, chunk=2),
    ]
