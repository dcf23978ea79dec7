"""C02  Vector and matrix algebra over the field is exact."""
import numpy as np

import mc
import ref
from lib import *

ASSUMPTIONS = ['entries small enough for int64 intermediates']
ZERO = (0, 0, 1)


def eq(ctx, got, want, f, what, **d):
    """got: triples array (n,3) or (3,), want: nested list of Q"""
    if not isinstance(got, np.ndarray) or got.dtype.kind not in 'iu':
        ctx.fail(what + ': not an integer array', got=got, **d)
        return
    w = want.triple() if isinstance(want, Q) else _trip(want)
    if tup(got) != w:
        ctx.fail(what, got=tup(got), want=w, **d)


def _trip(x):
    return x.triple() if isinstance(x, Q) else tuple(_trip(y) for y in x)


def qv(v, f):
    return [val(t, f) for t in v]


def suites(tier):
    big = tier == 'thorough'
    E = [(0, 0, 1), (1, 0, 1), (0, -1, 1), (2, 1, 3)] + ([(-4, 6, 2), (5, -3, -4)] if big else [(-4, 6, 2)])
    E3 = [(0, 0, 1), (1, -1, 2), (2, 3, -1)]
    S = [(0, 0, 1), (1, 0, 1), (-1, 0, 1), (0, 1, 1), (3, -2, 5), (-2, 4, -6)]

    # ---- componentwise operations
    comps = list(product(E[:4], repeat=3)) + [((97, -61, 12), (-1000, 617, 35), (0, 0, 7)), ((1, 0, 1), (34, -55, 2), (-9, 9, 9)), ((0, 144, 89), (5, 5, -5), (123, 0, 1))]

    def vectors(ctx, case):
        pkg, i = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        a3 = comps[i]
        for b3 in comps:
            a6 = list(a3) + [E[(i + k) % len(E)] for k in range(3)]
            b6 = [E[(i + 2 * k) % len(E)] for k in range(3)] + list(b3)
            for n in (3, 6):
                a, b = (a3, b3) if n == 3 else (a6, b6)
                qa, qb = qv(a, f), qv(b, f)
                na, nb = arr(a), arr(b)
                eq(ctx, m.add_vectors(na, nb), [x + y for x, y in zip(qa, qb)], f, 'add_vectors', a=a, b=b, pkg=pkg)
                eq(ctx, m.sub_vectors(na, nb), [x - y for x, y in zip(qa, qb)], f, 'sub_vectors', a=a, b=b, pkg=pkg)
                eq(ctx, m.inner_product(na, nb), ref.dot(qa, qb), f, 'inner_product', a=a, b=b, pkg=pkg)
                eq(ctx, m.dot_product(na, nb), ref.dot(qa, qb), f, 'dot_product of two vectors', a=a, b=b, pkg=pkg)
                ctx.step(4)
            eq(ctx, m.outer_product(arr(a3), arr(b3)), ref.cross(qv(a3, f), qv(b3, f)), f, 'outer_product', a=a3, b=b3, pkg=pkg)
            ctx.step()
            ctx.state(pkg, a3, b3)
            if len(ctx.violations) > 10:
                return
        ctx.trace()
        ctx.note(a=a3, n=len(comps))

    def scale(ctx, case):
        pkg, i = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        base = [list(product(E[:3], repeat=3))[(i + 7 * k) % 27] for k in range(8)]
        six = [list(x) + list(reversed(y)) for x, y in zip(base, base[1:] + base[:1])]
        for s in S:
            qs = val(s, f)
            for v in six:
                eq(ctx, m.mul_vector(arr(v), arr(s)), [x * qs for x in qv(v, f)], f, 'mul_vector', v=v, s=s, pkg=pkg)
                ctx.step()
                ctx.state('s', pkg, s, tuple(map(tuple, v)))
            for n in (1, 2, 4, 9):
                st = (six * 2)[:n]
                eq(ctx, m.mul_vectors(arr(st), arr(s)), [[x * qs for x in qv(v, f)] for v in st], f,
                   'mul_vectors (set of vectors)', n=n, s=s, pkg=pkg)
                st4 = [(six * 3)[j:j + SIMPLEX[pkg]] for j in range(n)]
                eq(ctx, m.mul_vectors(arr(st4), arr(s)), [[[x * qs for x in qv(v, f)] for v in t] for t in st4], f,
                   'mul_vectors (set of simplices)', n=n, s=s, pkg=pkg)
                ctx.step(2)
        ctx.trace()
        ctx.note(vectors=six[:2])

    # ---- matrices
    def matprod(ctx, case):
        pkg, s, t, u, k = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        n1, n2 = s * t, t * u
        nn = n1 + n2
        # all assignments where at most two entries differ from the filler pattern
        fill = [E[(k + j) % len(E)] for j in range(nn)]
        todo = [fill]
        for i in range(nn):
            for e in E:
                if e != fill[i]:
                    w = list(fill)
                    w[i] = e
                    todo.append(w)
        for i in range(nn):
            for j in range(i + 1, nn):
                w = list(fill)
                w[i], w[j] = E3[1], E3[2]
                todo.append(w)
        for w in todo:
            A = [w[r * t:(r + 1) * t] for r in range(s)]
            B = [w[n1 + r * u:n1 + (r + 1) * u] for r in range(t)]
            qA, qB = [qv(r, f) for r in A], [qv(r, f) for r in B]
            want = [[sum((qA[r][x] * qB[x][c] for x in range(1, t)), qA[r][0] * qB[0][c]) for c in range(u)] for r in range(s)]
            eq(ctx, m.dot_product(arr(A), arr(B)), want, f, 'dot_product of matrices', A=A, B=B, pkg=pkg)
            wantv = [row[0] for row in want]
            colB = [r[0] for r in B]
            eq(ctx, m.dot_product(arr(A), arr(colB)), wantv, f, 'dot_product of matrix and vector', A=A, B=colB, pkg=pkg)
            # plain integer matrix on the left
            Z = [[int(e[0] - e[1]) for e in row] for row in A]
            qZ = [[Q(F(z), F(0), f) for z in row] for row in Z]
            want1 = [[sum((qZ[r][x] * qB[x][c] for x in range(1, t)), qZ[r][0] * qB[0][c]) for c in range(u)] for r in range(s)]
            eq(ctx, m.dot_product_1(np.array(Z), arr(B)), want1, f, 'dot_product_1 of matrices', A=Z, B=B, pkg=pkg)
            eq(ctx, m.dot_product_1(np.array(Z), arr(colB)), [r[0] for r in want1], f, 'dot_product_1 of matrix and vector', A=Z, B=colB, pkg=pkg)
            ctx.step(4)
            ctx.state(pkg, s, t, u, tuple(w))
            if len(ctx.violations) > 10:
                return
        ctx.trace()
        ctx.note(shape=[s, t, u], n=len(todo))

    shapes = [(s, t, u) for s in (1, 2, 3) for t in (1, 2, 3) for u in (1, 2, 3)] + [(6, 6, 1), (6, 6, 2), (3, 6, 3), (4, 4, 4), (5, 2, 5), (2, 5, 1), (1, 6, 6), (6, 3, 6)]

    # ---- determinant: all matrices over a 3-letter alphabet
    def det(ctx, case):
        pkg, r0 = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        rows = list(product(E3, repeat=3))
        q = [qv(r, f) for r in rows]
        for i, r1 in enumerate(rows):
            for j, r2 in enumerate(rows):
                eq(ctx, m.det_matrix(arr([rows[r0], r1, r2])), ref.det3(q[r0], q[i], q[j]), f, 'det_matrix',
                   mtx=[rows[r0], r1, r2], pkg=pkg)
                ctx.state('d', pkg, r0, i, j)
                ctx.step()
            if len(ctx.violations) > 10:
                return
        ctx.trace()
        ctx.note(row=rows[r0], n=len(rows) ** 2)

    # ---- centroids
    pool = [V(0, 0, 0, 0, 0, 0), V(1, 0, 0, 0, 0, 0), V(0, (0, 1, 1), 0, (1, 0, 2), 0, 0), V((1, 0, 2), (-1, 0, 2), (-1, 1, 3), (2, -1, 7), -1, (0, 0, 5)),
            V((4, 6, -2), 0, 1, (0, -1, 3), (3, 3, 9), 1)]

    def cen(ctx, case):
        pkg, pick = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        pts = [pool[i] for i in pick]
        n = len(pts)
        want = []
        for c in range(6):
            s = Q(F(0), F(0), f)
            for p in pts:
                s = s + val(p[c], f)
            want.append(s * F(1, n))
        eq(ctx, m.centroid(arr(pts)), want, f, 'centroid', pts=list(pick), pkg=pkg)
        ctx.step()
        ctx.state('cen', pkg, pick)
        k = SIMPLEX[pkg]
        if n >= k:
            for num in (1, 2, 3) if n <= 4 else (4, 5, 7, 12, n):
                o = [[pool[(i + j) % len(pool)] for i in pick[:k]] for j in range(num)]
                want = []
                for c in range(6):
                    s = Q(F(0), F(0), f)
                    for t in o:
                        for p in t:
                            s = s + val(p[c], f)
                    want.append(s * F(1, k * num))
                eq(ctx, m.centroid_obj(arr(o)), want, f, 'centroid_obj', pick=list(pick), num=num, pkg=pkg)
                ctx.step()
        ctx.trace()
        ctx.note(pick=pick)

    cpicks = [p for n in (1, 2, 3, 4) for p in product(range(len(pool)), repeat=n)]
    cpicks += [tuple((i + j * s) % len(pool) for j in range(n)) for n in list(range(5, 17)) + [24, 33, 60, 120] for i in range(len(pool)) for s in (0, 1, 2)]

    # ---- integer powers of unimodular matrices, ill-shaped operands
    mats = [[[0, 1], [1, 1]], [[1, 1], [0, 1]], [[2, 1], [1, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
            [[1, 1, 0], [1, 0, 1], [0, 1, 1]], [[1, 1, 0, -1, 0, 0], [1, 1, 1, 0, 0, 0], [0, 1, 1, 1, 0, 0], [-1, 0, 1, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0, 0, 0, 0, 0, 1]]]

    def power(ctx, case):
        pkg, k, n = case
        m = mod(pkg, 'math1')
        M = np.array(mats[k])
        got = np.asarray(m.matrixpow(M, n), dtype=float)
        want = [[F(int(i == j)) for j in range(len(M))] for i in range(len(M))]
        B = [[F(int(x)) for x in r] for r in mats[k]]
        if n < 0:
            B = _inv(B)
        for _ in range(abs(n)):
            want = [[sum(want[i][x] * B[x][j] for x in range(len(B))) for j in range(len(B))] for i in range(len(B))]
        ok = got.shape == M.shape and all(abs(got[i][j] - float(want[i][j])) < 1e-7 * (1 + abs(float(want[i][j]))) for i in range(len(B)) for j in range(len(B)))
        ctx.expect(ok, 'matrixpow', mat=mats[k], n=n, got=got, pkg=pkg)
        ctx.step()
        ctx.state('pow', pkg, k, n)
        ctx.trace()
        ctx.note(mat=mats[k], n=n)

    def shapes_bad(ctx, case):
        pkg, what = case
        m = mod(pkg, 'math1')
        v3, v6 = arr([E[1]] * 3), arr([E[2]] * 6)
        mat = arr([[E[1]] * 3] * 3)
        r = {'inner': lambda: m.inner_product(v3, v6),
             'dot_mv': lambda: m.dot_product(mat, v6),
             'dot_mm': lambda: m.dot_product(mat, arr([[E[1]] * 2] * 2)),
             'dot1_mv': lambda: m.dot_product_1(np.ones((2, 2), dtype=int), v3),
             'dot1_mm': lambda: m.dot_product_1(np.ones((2, 2), dtype=int), mat),
             'sub': lambda: m.sub_vectors(mat, v3),
             'mulv': lambda: m.mul_vector(mat, arr(E[1])),
             'mulvs': lambda: m.mul_vectors(v3, arr(E[1])),
             'pow': lambda: m.matrixpow(np.ones((2, 3)), 2)}[what]()
        ctx.expect(r is None, 'ill-shaped operands must not produce a value', call=what, pkg=pkg, got=r)
        ctx.step()
        ctx.state('bad', pkg, what)
        ctx.trace()

    return [
        mc.Suite('componentwise', '3-vectors over a 4-letter alphabet (all ordered pairs) and 6-vectors derived from them', [(p, i) for p in PKGS for i in range(len(comps))], vectors, chunk=1),
        mc.Suite('scaling', 'scalars x vectors x set sizes 1,2,4', [(p, i) for p in PKGS for i in range(27)], scale),
        mc.Suite('products', 'all shapes s,t,u<=3 and 6x6; every entry over %d letters, every pair of entries varied' % len(E),
                 [(p,) + s + (k,) for p in PKGS for s in shapes for k in range(len(E) if big else 2)], matprod),
        mc.Suite('determinant', 'all 3x3 matrices over a 3-letter alphabet (19683)', [(p, r) for p in PKGS for r in range(27)], det),
        mc.Suite('centroid', 'all tuples of 1..4 points of a 5-point pool, patterned tuples of 5..120; objects of 1..3 (4, 5, 7, 12 and more) simplices', [(p, c) for p in PKGS for c in cpicks], cen, chunk=20),
        mc.Suite('power', 'exponents -4..4 of 6 unimodular matrices', [(p, k, n) for p in PKGS for k in range(len(mats)) for n in range(-4, 5) if not (k == 4 and n < 0)], power, chunk=10),
        mc.Suite('bad_shapes', '9 ill-shaped calls', [(p, w) for p in PKGS for w in ('inner', 'dot_mv', 'dot_mm', 'dot1_mv', 'dot1_mm', 'sub', 'mulv', 'mulvs', 'pow')], shapes_bad),
    ]


def _inv(B):
    n = len(B)
    A = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(B)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                k = A[r][c]
                A[r] = [x - k * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]
