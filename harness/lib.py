"""Shared vocabulary of the checks: the two packages, value alphabets, objects."""
import importlib
from fractions import Fraction as F
from itertools import combinations, permutations, product
from math import gcd

import numpy as np

import mc  # noqa: F401  (puts /repo/src first on sys.path)
import ref
from ref import Q, ICO, DODE

FIELD = {'ico2': ICO, 'dode2': DODE}
SIMPLEX = {'ico2': 4, 'dode2': 3}
PKGS = ['ico2', 'dode2']
_cache = {}


def mod(pkg, name):
    k = (pkg, name)
    if k not in _cache:
        _cache[k] = importlib.import_module('pyqcstrc.%s.%s' % (pkg, name))
    return _cache[k]


def arr(x):
    return np.array(x, dtype=np.int64)


def tup(a):
    """nested tuple of python ints of an array"""
    a = np.asarray(a)
    if a.ndim == 1:
        return tuple(int(x) for x in a)
    return tuple(tup(x) for x in a)


def val(t, f):
    return Q.tri(t, f)


def is_triple_array(a, shape=None):
    if not isinstance(a, np.ndarray):
        return False
    if a.dtype.kind not in 'iu':
        return False
    if shape is not None and a.shape != tuple(shape):
        return False
    return True


def canonical(t):
    a, b, c = (int(x) for x in t)
    return c > 0 and gcd(gcd(a, b), c) == 1


def same_vec(a, b, f):
    """value equality of two 6-d (or n-d) vectors of triples"""
    return all(val(x, f) == val(y, f) for x, y in zip(a, b)) and len(a) == len(b)


def pkey(v6, f):
    """perp position as hashable key"""
    return tuple(c.triple() for c in ref.perp(v6, f))


def vkey(v, f):
    """value key of a vector of triples"""
    return tuple(ref.canon(t, f) for t in v)


def V(*xs):
    """6-d vector from ints / (a,b,c) triples"""
    return [list(x) if isinstance(x, (tuple, list)) else [x, 0, 1] for x in xs]


def obj_perp(obj, f):
    return [[ref.perp(v, f) for v in s] for s in obj]


def simplex_measure(s, f):
    return ref.tetvol(s) if f is ICO else ref.triarea(s)


def obj_measure(obj, f):
    tot = Q(F(0), F(0), f)
    for s in obj_perp(obj, f):
        tot = tot + simplex_measure(s, f)
    return tot


def pair_measure(a, b, f):
    return (ref.tet_intersection_volume if f is ICO else ref.tri_intersection_area)(a, b, f)


def overlap_measure(o1, o2, f):
    """sum over simplex pairs: the measure of o1 & o2 when both are interior-disjoint unions"""
    tot = Q(F(0), F(0), f)
    A, B = obj_perp(o1, f), obj_perp(o2, f)
    for a in A:
        for b in B:
            tot = tot + pair_measure(a, b, f)
    return tot


def in_simplex(p, s, f):
    return ref.in_tet(p, s) if f is ICO else ref.in_tri2(p, s)


def measure_of(pkg):
    """the library's own volume / area function"""
    u = mod(pkg, 'utils')
    return u.obj_volume_6d if pkg == 'ico2' else u.obj_area_6d


def noncanonical_variants(t):
    a, b, c = t
    return [(a, b, c), (2 * a, 2 * b, 2 * c), (-a, -b, -c), (-3 * a, -3 * b, -3 * c)]


# ---------------------------------------------------------------- exact set comparison of simplex complexes
def _side(plane_pts, p, f):
    """sign of p against the hyperplane through the facet"""
    return (ref.signed6vol(list(plane_pts) + [p]) if f is ICO else ref.signed2area(list(plane_pts) + [p])).sign()


def separated(a, b, f):
    """interiors of simplices a and b (Q points) provably apart by a facet plane"""
    n = len(a)
    for x, y in ((a, b), (b, a)):
        for i in range(n):
            facet = [x[j] for j in range(n) if j != i]
            s = _side(facet, x[i], f)
            if all(_side(facet, q, f) * s <= 0 for q in y):
                return True
    return False


def disjoint_interiors(S, f):
    """first pair of simplices of S (Q points) whose interiors overlap, or None"""
    box = []
    for s in S:
        m = [[float(p[k]) for p in s] for k in range(2 if f is DODE else 3)]
        box.append([(min(x) , max(x)) for x in m])
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            if any(u[1] < w[0] + 1e-9 or w[1] < u[0] + 1e-9 for u, w in zip(box[i], box[j])):
                # boxes at most touch; confirm exactly only when they are close
                if any(u[1] < w[0] - 1e-9 or w[1] < u[0] - 1e-9 for u, w in zip(box[i], box[j])):
                    continue
            if separated(S[i], S[j], f):
                continue
            if not pair_measure(S[i], S[j], f).iszero():
                return (i, j)
    return None


def check_region(ctx, got, want_measure, inside, f, k, what_, disjoint=True, **detail):
    """got: array of simplices or None.  Must be a set of non-degenerate simplices, interiors disjoint, every
    one inside (predicate on its Q points), with exactly the wanted total measure"""
    if got is None:
        return ctx.expect(want_measure.iszero(), what_ + ': nothing returned for a region of positive size', want=want_measure.triple(), **detail)
    if not (is_triple_array(got) and got.ndim == 4 and got.shape[1:] == (k, 6, 3) and len(got)):
        return ctx.fail(what_ + ': not a set of simplices', got=repr(got)[:300], **detail)
    if (got[..., 2] == 0).any():
        return ctx.fail(what_ + ': zero denominator', got=got, **detail)
    S = obj_perp(got, f)
    tot = Q(F(0), F(0), f)
    for s in S:
        m = simplex_measure(s, f)
        if m.iszero():
            return ctx.fail(what_ + ': degenerate simplex', got=got, **detail)
        tot = tot + m
    if not ctx.expect(tot == want_measure, what_ + ': wrong size', got=tot.triple(), want=want_measure.triple(), gotf=float(tot), wantf=float(want_measure), **detail):
        return False
    for s in S:
        if not inside(s):
            return ctx.fail(what_ + ': sticks out', simplex=repr(s), **detail)
    if disjoint:
        bad = disjoint_interiors(S, f)
        if bad is not None:
            return ctx.fail(what_ + ': pieces overlap', pair=bad, **detail)
    return True


def covered(s, obj, f, m=None):
    """simplex s (Q points) is a subset of the union of the interior-disjoint simplices obj"""
    for o in obj:
        if all(in_simplex(p, o, f) >= 0 for p in s):
            return True
    tot = Q(F(0), F(0), f)
    for o in obj:
        if not separated(s, o, f):
            tot = tot + pair_measure(s, o, f)
    return tot == simplex_measure(s, f)
