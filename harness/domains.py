"""Bounded input spaces shared by the checks: point alphabets, simplices, point groups."""
from itertools import combinations, permutations, product

import ref
from lib import *

# ---------------------------------------------------------------- points
H = (1, 0, 2)
h = (-1, 0, 2)
TH = (0, 1, 2)          # tau/2 ; sqrt3/4
POINTS = {
    # icosahedral: a 2-fold/3-fold/5-fold corner, lattice vectors, tau multiples, mid points,
    # and points coplanar / collinear with others
    'ico2': [
        V(0, 0, 0, 0, 0, 0),
        V(H, h, h, h, h, h),
        V(H, h, h, H, h, h),
        V(H, h, h, 0, h, 0),
        V(1, 0, 0, 0, 0, 0),
        V(0, 1, 0, 0, 0, 0),
        V(0, 0, 0, 1, 0, 0),
        V(TH, 0, 0, 0, 0, 0),
        V(H, 0, 0, 0, 0, 0),
        V(0, 0, 1, 0, 0, 0),
        V(0, 0, 0, 0, -1, 0),
        V(-1, 0, 0, 0, 0, 0),
        V((1, 0, 3), (1, 0, 3), 0, (1, 0, 3), 0, 0),
        V((1, 1, 3), 0, (-1, 1, 4), 0, 0, (2, -1, 2)),
    ],
    # dodecagonal: the last two coordinates carry no perp-plane position
    'dode2': [
        V(0, 0, 0, 0, 0, 0),
        V(1, 0, 0, 0, 0, 0),
        V(0, 1, 0, 0, 0, 0),
        V(0, 0, 1, 0, 0, 0),
        V(0, 0, 0, 1, 0, 0),
        V(H, 0, 0, 0, 0, 0),
        V(0, TH, 0, 0, 0, 0),
        V(H, h, 0, 0, 0, 0),
        V(1, 1, 0, 0, 0, 0),
        V(-1, 0, 0, 0, 0, 0),
        V(0, (1, 0, 3), (1, 0, 3), 0, 0, 0),
        V((1, 1, 3), 0, (-1, 1, 4), 0, 0, 0),
        V(0, 0, -1, H, 0, 0),
        V((2, -1, 2), 1, 0, 0, 0, 0),
    ],
}

# vectors of Q(theta)^6 whose internal component vanishes: a second 6-d name of the same point
KER = {
    'ico2': [V((0, 1, 1), 1, 1, 0, (1, 0, 1), 0), V(1, (0, 1, 1), 0, 0, 0, 0)],
    'dode2': [V(0, 0, 0, 0, 1, 0), V((0, 0, 1), (0, 0, 1), 0, 0, (1, 1, 2), 0)],
}


def _fixker():
    # complete the kernels by solving EPERP x = 0 exactly instead of trusting a table
    for pkg in PKGS:
        f = FIELD[pkg]
        M = [list(r) for r in ref.EPERP[f.name]]
        n, m = 6, 3
        piv = []
        r = 0
        for c in range(n):
            p = next((i for i in range(r, m) if not M[i][c].iszero()), None)
            if p is None:
                continue
            M[r], M[p] = M[p], M[r]
            iv = M[r][c].inv()
            M[r] = [x * iv for x in M[r]]
            for i in range(m):
                if i != r and not M[i][c].iszero():
                    k = M[i][c]
                    M[i] = [x - k * y for x, y in zip(M[i], M[r])]
            piv.append(c)
            r += 1
            if r == m:
                break
        out = []
        for c in range(n):
            if c in piv:
                continue
            x = [Q(F(0), F(0), f) for _ in range(n)]
            x[c] = Q(F(1), F(0), f)
            for i, pc in enumerate(piv):
                x[pc] = -M[i][c]
            out.append([list(q.triple()) for q in x])
        KER[pkg] = out


_fixker()


def addv(a, b, f):
    return [list((val(x, f) + val(y, f)).triple()) for x, y in zip(a, b)]


def scalev(a, s, f):
    """s: Q or int"""
    return [list((val(x, f) * s).triple()) for x in a]


def alias(pkg, v, k=0):
    """another 6-d vector with the same internal component"""
    return addv(v, KER[pkg][k % len(KER[pkg])], FIELD[pkg])


def unreduced(v, k):
    """same numbers, other triples"""
    return [[a * k, b * k, c * k] for a, b, c in v]


def measure(s, f):
    return ref.tetvol(s) if f is ICO else ref.triarea(s)


def simplices(pkg, n, degenerate=False):
    """all non-degenerate simplices over the first n alphabet points (index tuples)"""
    f, k = FIELD[pkg], SIMPLEX[pkg]
    P = [ref.perp(p, f) for p in POINTS[pkg][:n]]
    out = []
    for c in combinations(range(n), k):
        z = measure([P[i] for i in c], f).iszero()
        if z == degenerate:
            out.append(c)
    return out


def simplex(pkg, c):
    return [POINTS[pkg][i] for i in c]


# ---------------------------------------------------------------- point groups, from geometry only
_groups = {}


def group(pkg):
    """6x6 integer matrices of the point group: all lattice automorphisms isometric in both
    projections, found by search (no code of the library involved)"""
    if pkg in _groups:
        return _groups[pkg]
    f = FIELD[pkg]
    if pkg == 'ico2':
        cand = []
        for i in range(6):
            for s in (1, -1):
                e = [0] * 6
                e[i] = s
                cand.append(tuple(e))
        nb = 6
    else:
        cand = [tuple(c) + (0, 0) for c in product((-1, 0, 1), repeat=4)]
        nb = 4
    Q0 = {}

    def pr(e):
        if e not in Q0:
            v = [[x, 0, 1] for x in e]
            Q0[e] = (ref.par(v, f), ref.perp(v, f))
        return Q0[e]
    basis = [tuple(int(i == j) for j in range(6)) for i in range(nb)]

    def gram(a, b):
        A, B = pr(a), pr(b)
        return (ref.dot(A[0], B[0]), ref.dot(A[1], B[1]))
    G = [[gram(a, b) for b in basis] for a in basis]
    cand = [c for c in cand if gram(c, c) in [G[i][i] for i in range(nb)]]
    out = []

    def rec(im):
        i = len(im)
        if i == nb:
            cols = list(im) + [tuple(int(k == j) for j in range(6)) for k in range(nb, 6)]
            out.append(tuple(tuple(cols[j][r] for j in range(6)) for r in range(6)))
            return
        for c in cand:
            if gram(c, c) == G[i][i] and all(gram(c, im[j]) == G[i][j] for j in range(i)):
                rec(im + [c])
    rec([])
    _groups[pkg] = out
    return out


def imat(op):
    """a library operation as an integer matrix tuple (None if it is not integral)"""
    a = np.asarray(op, dtype=float)
    if a.shape != (6, 6):
        return None
    b = np.rint(a)
    if np.abs(a - b).max() > 1e-9:
        return None
    return tuple(tuple(int(x) for x in r) for r in b)


def act(g, v, c, f):
    """g(v-c)+c exactly -> tuple of canonical triples"""
    d = [val(x, f) - val(y, f) for x, y in zip(v, c)]
    out = []
    for r in range(6):
        s = val(c[r], f)
        for k in range(6):
            if g[r][k]:
                s = s + d[k] * g[r][k]
        out.append(s.triple())
    return tuple(out)


def matmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(6)) for j in range(6)) for i in range(6))


def symops(pkg):
    s = mod(pkg, 'symmetry')
    return s.icosasymop() if pkg == 'ico2' else s.dodesymop()


# ---------------------------------------------------------------- objects (interior-disjoint simplices)
def centroid(s, f):
    c = s[0]
    for v in s[1:]:
        c = addv(c, v, f)
    return scalev(c, Q(F(1, len(s)), F(0), f), f)


def bisect(s, i, j, f, w=F(1, 2)):
    """cut a simplex in two at a point of the edge i-j"""
    m = addv(scalev(s[i], Q(1 - w, F(0), f), f), scalev(s[j], Q(w, F(0), f), f), f)
    a, b = list(s), list(s)
    a[i] = m
    b[j] = m
    return [a, b]


def star(s, f):
    """subdivide at the centroid"""
    c = centroid(s, f)
    return [[c if k == i else v for k, v in enumerate(s)] for i in range(len(s))]


def scaled(s, w, f, about=None):
    c = about or centroid(s, f)
    return [addv(c, scalev(addv(v, scalev(c, -1, f), f), Q(w, F(0), f), f), f) for v in s]


def shifted(o, d, f):
    return [[addv(v, d, f) for v in s] for s in o]


def box(pkg, o, a, b, c=None):
    """parallelepiped / parallelogram spanned at o by the given vectors, cut into 6 / 2 simplices (Kuhn)"""
    f = FIELD[pkg]
    E = [a, b] + ([c] if c is not None else [])
    out = []
    for p in permutations(range(len(E))):
        v = o
        s = [v]
        for k in p:
            v = addv(v, E[k], f)
            s.append(v)
        out.append(s)
    return out


_objs = {}


def objects(pkg, n, extra=True):
    """(name, simplices, convex?) of every single simplex and every face-to-face or disjoint pair over n alphabet
    points, plus subdivided simplices, boxes, separated parts and inner/outer copies"""
    key = (pkg, n, extra)
    if key in _objs:
        return _objs[key]
    f = FIELD[pkg]
    C = simplices(pkg, n)
    out = [('%s' % (c,), [simplex(pkg, c)], True) for c in C]
    E = {c: [ref.perp(v, f) for v in simplex(pkg, c)] for c in C}
    for c, d in combinations(C, 2):
        if separated(E[c], E[d], f) or pair_measure(E[c], E[d], f).iszero():
            # conforming (meet in a common face or not at all) or not, both occur in practice
            out.append(('%s+%s' % (c, d), [simplex(pkg, c), simplex(pkg, d)], False))
    if extra:
        s = simplex(pkg, C[0])
        P = POINTS[pkg]
        far = scalev(P[5], 9, f)
        out.append(('bisected', bisect(s, 0, 1, f), True))
        out.append(('bisected 1/3', bisect(s, 1, 2, f, F(1, 3)), True))
        out.append(('star', star(s, f), True))
        out.append(('big', [scaled(s, F(6), f)], True))
        out.append(('small', [scaled(s, F(1, 5), f)], True))
        out.append(('far', shifted([s], far, f), True))
        out.append(('near+far', [s] + shifted([s], far, f), False))
        if pkg == 'ico2':
            out.append(('box', box(pkg, P[0], P[4], P[5], P[6]), True))
            out.append(('box2', box(pkg, scalev(P[9], Q(F(1, 2), F(0), f), f), P[5], P[6], P[10]), True))
        else:
            out.append(('box', box(pkg, P[0], P[1], P[2]), True))
            out.append(('box2', box(pkg, scalev(P[3], Q(F(1, 2), F(0), f), f), P[2], P[4]), True))
    _objs[key] = out
    return out


# ---------------------------------------------------------------- conforming complexes (simplices meet in whole faces)
def complexes(pkg):
    """(name, simplices): complexes whose subcomplexes are enumerated by the checks"""
    f = FIELD[pkg]
    P = POINTS[pkg]
    C = simplices(pkg, 8)
    s = simplex(pkg, C[0])
    t = simplex(pkg, C[len(C) // 2])
    out = [('star', star(s, f)), ('star2', star(t, f))]
    if pkg == 'ico2':
        out.append(('box', box(pkg, P[0], P[4], P[5], P[6])))
        # octahedron: 4 tetrahedra round a diagonal
        o = P[0]
        a, b, c = P[4], P[5], P[9]
        m = [scalev(x, -1, f) for x in (a, b, c)]
        out.append(('octahedron', [[c, m[2], a, b], [c, m[2], b, m[0]], [c, m[2], m[0], m[1]], [c, m[2], m[1], a]]))
    else:
        out.append(('box', box(pkg, P[0], P[1], P[2]) + shifted(box(pkg, P[0], P[1], P[2]), P[1], f)))
        ring = [P[1], P[3], P[4], scalev(P[2], -1, f)]
        # fan round the origin: sort by angle
        import math
        pts = [P[1], P[2], P[3], P[4]] + [scalev(P[i], -1, f) for i in (1, 2, 3, 4)]
        pts.sort(key=lambda v: math.atan2(float(ref.perp(v, f)[1]), float(ref.perp(v, f)[0])))
        out.append(('fan', [[P[0], pts[i], pts[(i + 1) % len(pts)]] for i in range(len(pts))]))
    return out


def large(pkg):
    """(name, simplices, convex?): conforming complexes of many simplices and corners"""
    f = FIELD[pkg]
    P = POINTS[pkg]
    out = []
    if pkg == 'ico2':
        a, b, c = P[4], P[5], P[6]
        cell = box(pkg, P[0], a, b, c)
        out.append(('row of 9 boxes', [s for i in range(9) for s in shifted(cell, scalev(c, i - 4, f), f)], True))
        out.append(('row of 9 boxes, other direction', [s for i in range(9) for s in shifted(cell, scalev(a, i - 4, f), f)][::-1], True))
        out.append(('2x2x2 boxes', [s for i, j, k in product((0, 1), repeat=3) for s in shifted(cell, addv(addv(scalev(a, i, f), scalev(b, j, f), f), scalev(c, k, f), f), f)], True))
        for i in (4, 5, 6, 9):
            for w in (12, -12):
                base = [s for i2, j, k in product(range(3), range(3), range(2)) for s in shifted(cell, addv(addv(scalev(a, i2, f), scalev(b, j, f), f), scalev(c, k, f), f), f)]
                out.append(('3x3x2 boxes and a far one %d %d' % (i, w), base + shifted([cell[0]], scalev(P[i], w, f), f), False))
        # icosahedron: the 12 images of a five-fold corner, faces = triples at the smallest distance
        five = sorted({act(g, V(H, h, h, h, h, h), P[0], f) for g in group(pkg)})
        E = [ref.perp(v, f) for v in five]
        d = {}
        for i, j in combinations(range(12), 2):
            w = ref.vsub(E[i], E[j])
            d[i, j] = ref.dot(w, w)
        m = min(d.values(), key=float)
        fc = [t for t in combinations(range(12), 3) if all(d[e] == m for e in combinations(t, 2))]
        assert len(five) == 12 and len(fc) == 20
        L = [[list(x) for x in v] for v in five]
        out.append(('icosahedron', [[P[0]] + [L[i] for i in t] for t in fc], True))
    else:
        a, b = P[1], P[2]
        cell = box(pkg, P[0], a, b)
        out.append(('row of 20 cells', [s for i in range(20) for s in shifted(cell, scalev(b, i - 9, f), f)], True))
        out.append(('row of 20 cells, other direction', [s for i in range(20) for s in shifted(cell, scalev(a, i - 9, f), f)][::-1], True))
        out.append(('4x4 cells', [s for i, j in product(range(4), repeat=2) for s in shifted(cell, addv(scalev(a, i, f), scalev(b, j, f), f), f)], True))
        for i in (1, 2, 3, 4):
            for w in (12, -12):
                base = [s for i2, j in product(range(6), repeat=2) for s in shifted(cell, addv(scalev(a, i2, f), scalev(b, j, f), f), f)]
                out.append(('6x6 cells and a far one %d %d' % (i, w), base + shifted([cell[0]], scalev(P[i], w, f), f), False))
        import math
        tw = sorted({act(g, P[1], P[0], f) for g in group(pkg)}, key=lambda v: math.atan2(float(ref.perp(v, f)[1]), float(ref.perp(v, f)[0])))
        L = [[list(x) for x in v] for v in tw]
        out.append(('dodecagon', [[P[0], L[i], L[(i + 1) % len(L)]] for i in range(len(L))], True))
        out.append(('dodecagram', [[P[0], L[i], scalev(addv(L[i], L[(i + 1) % len(L)], f), Q(F(1, 4), F(0), f), f)] for i in range(len(L))] +
                    [[P[0], L[(i + 1) % len(L)], scalev(addv(L[i], L[(i + 1) % len(L)], f), Q(F(1, 4), F(0), f), f)] for i in range(len(L))], False))
    return out


def renamed(pkg, o, mode):
    """corners of each simplex under other 6-d names (mode 0: unchanged)"""
    if mode == 0:
        return o
    return [[alias(pkg, v, i + mode) if (i + mode) % 2 else v for v in s] for i, s in enumerate(o)]
