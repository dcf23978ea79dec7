"""C10  Where a segment meets a facet (ico) or another segment (dode): the yes/no answer and the point are exact."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['a segment parallel to the facet (or to the other segment) is reported as not intersecting, as the code documents',
               'yes/no answers are numerical with tolerance 1e-6; the alphabets contain exactly touching and clearly separated configurations only']


def meet_facet(a, b, t):
    """exact: segment ab and triangle t (Q points). None if parallel; else (hit, param)"""
    ab = ref.vsub(b, a)
    n = ref.cross(ref.vsub(t[1], t[0]), ref.vsub(t[2], t[0]))
    den = ref.dot(n, ab)
    if den.iszero():
        return None
    s = ref.dot(n, ref.vsub(t[0], a)) / den
    if s.sign() < 0 or (s - 1).sign() > 0:
        return (False, s)
    p = ref.vadd(a, [s * x for x in ab])
    for k in range(3):
        e = ref.cross(ref.vsub(t[(k + 1) % 3], t[k]), ref.vsub(p, t[k]))
        if ref.dot(e, n).sign() < 0:
            return (False, s)
    return (True, s)


def meet_segments(a, b, c, d):
    """exact planar segments"""
    ab, cd, ac = ref.vsub(b, a), ref.vsub(d, c), ref.vsub(c, a)
    den = ab[0] * cd[1] - ab[1] * cd[0]
    if den.iszero():
        return None
    s = (ac[0] * cd[1] - ac[1] * cd[0]) / den
    t = (ac[0] * ab[1] - ac[1] * ab[0]) / den
    ok = s.sign() >= 0 and (s - 1).sign() <= 0 and t.sign() >= 0 and (t - 1).sign() <= 0
    return (ok, s)


def unclear(a, b, c, d):
    """within the tolerances of the numerical test: nearly (not exactly) parallel, or missing an end point by less than 1e-5"""
    ab, cd = ref.vsub(b, a), ref.vsub(d, c)
    den = float(ab[0] * cd[1] - ab[1] * cd[0])
    if den == 0:
        return False
    if den * den < 2e-5:
        return True
    ac = ref.vsub(c, a)
    for q in (cd, ab):
        s = abs(float(ac[0] * q[1] - ac[1] * q[0]) / den)
        if 1e-12 < s < 1e-5 or 1e-12 < abs(s - 1) < 1e-5:
            return True
    return False


def suites(tier):
    big = tier == 'thorough'
    out = []
    f = ICO
    P = D.POINTS['ico2']
    NP = 10 if big else 8
    tris = [c for c in combinations(range(NP), 3) if not ref.collinear(*[ref.perp(P[i], f) for i in c])]
    NS = 14 if big else 11

    def ico(ctx, case):
        c = case
        nm, it = mod('ico2', 'numericalc'), mod('ico2', 'intsct')
        t = [P[i] for i in c]
        pts = list(P[:NS])
        # points along edges / through the interior, so that segments touch, pierce and stop short
        cen = D.scalev(D.addv(D.addv(t[0], t[1], f), t[2], f), Q(F(1, 3), F(0), f), f)
        mid = D.scalev(D.addv(t[0], t[1], f), Q(F(1, 2), F(0), f), f)
        near = D.scaled(t, F(499, 500), f)[0]                       # just inside a corner
        past = D.scaled(t, F(501, 500), f)[1]                       # just outside a corner
        edge = D.addv(mid, D.scalev(D.addv(cen, D.scalev(mid, -1, f), f), Q(F(1, 200), F(0), f), f), f)
        pts += [near, past, edge, cen, mid, D.alias('ico2', t[0], 1), D.addv(cen, D.scalev(P[5], Q(F(1, 50), F(0), f), f), f)]
        E = [ref.perp(p, f) for p in pts]
        tp = [ref.perp(v, f) for v in t]
        for i, j in permutations(range(len(pts)), 2):
            if E[i] == E[j]:
                continue
            if i > j and (i + j) % 3:
                continue
            r = meet_facet(E[i], E[j], tp)
            want = bool(r and r[0])
            seg = arr([pts[i], pts[j]])
            tri = arr(t if (i + j) % 2 else t[::-1])
            g1 = nm.check_intersection_segment_surface_numerical_6d_tau(seg, tri)
            g2 = nm.check_intersection_segment_surface_numerical(np.array([[float(x) for x in E[k]] for k in (i, j)]),
                                                                 np.array([[float(x) for x in v] for v in tp]))
            p = it.intersection_segment_surface(seg, tri)
            ctx.expect(bool(g1) == want and bool(g2) == want, 'segment meets a facet: yes or no', c=c, seg=[pts[i], pts[j]], got=[g1, g2], want=want)
            if want:
                ex = [list((val(x, f) + (val(y, f) - val(x, f)) * r[1]).triple()) for x, y in zip(pts[i], pts[j])]
                ok = is_triple_array(p, (1, 6, 3)) and vkey(p[0], f) == vkey(ex, f)
                ctx.expect(ok, 'the exact point where a segment meets a facet', c=c, seg=[pts[i], pts[j]], got=p, want=ex)
            else:
                ctx.expect(p is None, 'no point where a segment does not meet a facet', c=c, seg=[pts[i], pts[j]], got=p)
            ctx.step(3)
            ctx.state(c, i, j)
            ctx.outcome('parallel' if r is None else 'meets' if want else 'misses')
            if len(ctx.violations) > 8:
                return
        ctx.trace()
        ctx.note(c=c, points=len(pts))
    out.append(mc.Suite('ico_segment_facet', 'every triangle over %d points x every segment between %d points' % (NP, NS + 7), tris, ico))

    g = DODE
    R = D.POINTS['dode2']
    ND = 14 if big else 11
    EX = list(R[:ND])
    for i, j in ((1, 2), (4, 5), (0, 8), (3, 9)):
        EX.append(D.scalev(D.addv(R[i], R[j], g), Q(F(1, 2), F(0), g), g))
    for i, j in ((0, 1), (2, 4), (1, 7)):                       # just before and just past the end of a segment
        d = D.addv(R[j], D.scalev(R[i], -1, g), g)
        EX += [D.addv(R[i], D.scalev(d, Q(F(w, 2000), F(0), g), g), g) for w in ((1999,) if i else (1, 1999, 2001))]
    EX += [D.alias('dode2', R[1], 0), D.alias('dode2', R[4], 1)]
    EE = [ref.perp(p, g) for p in EX]
    # (segments shorter than about 1/50 are below the absolute tolerance of the parallel test)
    segs = [c for c in combinations(range(len(EX)), 2) if EE[c[0]] != EE[c[1]] and float(ref.dot(*[ref.vsub(EE[c[0]], EE[c[1]])] * 2)) > 4e-4]

    def dode(ctx, case):
        i, j = case
        nm, it = mod('dode2', 'numericalc'), mod('dode2', 'intsct')
        for k, l in segs:
            if (k, l) < (i, j):
                k2, l2 = l, k
            else:
                k2, l2 = k, l
            if unclear(EE[i], EE[j], EE[k2], EE[l2]):
                ctx.outcome('within tolerance: not judged')
                continue
            r = meet_segments(EE[i], EE[j], EE[k2], EE[l2])
            want = bool(r and r[0])
            s1, s2 = arr([EX[i], EX[j]]), arr([EX[k2], EX[l2]])
            g1 = nm.check_intersection_two_segment_numerical_6d_tau(s1, s2)
            p = it.intersection_two_segment(s1, s2)
            ctx.expect(bool(g1) == want, 'two segments meet: yes or no', s1=[EX[i], EX[j]], s2=[EX[k2], EX[l2]], got=g1, want=want)
            if want:
                ex = [list((val(x, g) + (val(y, g) - val(x, g)) * r[1]).triple()) for x, y in zip(EX[i], EX[j])]
                q = None if p is None else np.asarray(p).reshape(-1, 6, 3)
                ok = q is not None and is_triple_array(q, (1, 6, 3)) and vkey(q[0], g) == vkey(ex, g)
                ctx.expect(ok, 'the exact point where two segments meet', s1=[EX[i], EX[j]], s2=[EX[k2], EX[l2]], got=p, want=ex)
            else:
                ctx.expect(p is None, 'no point where two segments do not meet', s1=[EX[i], EX[j]], s2=[EX[k2], EX[l2]], got=p)
            ctx.step(2)
            ctx.state('d', i, j, k2, l2)
            ctx.outcome('parallel' if r is None else 'meets' if want else 'misses')
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    out.append(mc.Suite('dode_segment_segment', 'every pair of segments between %d points' % len(EX), segs, dode, chunk=2))

    dtri = [c for c in combinations(range(10 if big else 8), 3) if not ref.collinear(*[ref.perp(R[i], g) for i in c])]

    def dodetri(ctx, case):
        c = case
        nm, it = mod('dode2', 'numericalc'), mod('dode2', 'intsct')
        t = [R[i] for i in c]
        tp = [ref.perp(v, g) for v in t]
        for i, j in segs:
            if any(unclear(EE[i], EE[j], tp[k], tp[l]) for k, l in ((0, 1), (0, 2), (1, 2))):
                continue
            hits = set()
            for k, l in ((0, 1), (0, 2), (1, 2)):
                r = meet_segments(EE[i], EE[j], tp[k], tp[l])
                if r and r[0]:
                    hits.add(tuple((val(x, g) + (val(y, g) - val(x, g)) * r[1]).triple() for x, y in zip(EX[i], EX[j])))
            want = bool(hits)
            s = arr([EX[i], EX[j]])
            g1 = nm.check_intersection_segment_surface_numerical_6d_tau(s, arr(t))
            p = it.intersection_segment_surface(s, arr(t))
            ctx.expect(bool(g1) == want, 'segment meets the outline of a triangle: yes or no', c=c, seg=[EX[i], EX[j]], got=g1, want=want)
            if want:
                ok = p is not None and np.asarray(p).size % 18 == 0 and {vkey(v, g) for v in np.asarray(p).reshape(-1, 6, 3)} == hits
                ctx.expect(ok, 'the exact points where a segment meets the outline of a triangle', c=c, seg=[EX[i], EX[j]], got=p, want=sorted(hits))
            else:
                ctx.expect(p is None, 'no point where a segment does not meet a triangle', c=c, seg=[EX[i], EX[j]], got=p)
            ctx.step(2)
            ctx.state('dt', c, i, j)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    out.append(mc.Suite('dode_segment_triangle', 'every triangle over the alphabet x every segment', dtri, dodetri))
    return out
