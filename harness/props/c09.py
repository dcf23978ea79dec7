"""C09  Point predicates (inside a simplex / an object, on a segment, on a triangle, coplanar) are
exact on well separated input, whatever the order of the corners, their 6-d names and the random picks."""
import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['the predicates are numerical with tolerance 1e-6: probe points are exactly on, or at least about 1e-2 off, the faces they are tested against']


def suites(tier):
    big = tier == 'thorough'
    out = []

    def probes(pkg, c, s=None):
        """exact probe points for a simplex: corners, renamed corners, edge / face / body centres,
        points pushed off each of them, outside extensions, other alphabet points"""
        f = FIELD[pkg]
        s = s or D.simplex(pkg, c)
        n = len(s)
        P = []
        for k in range(1, n + 1):
            for sub in combinations(range(n), k):
                m = [[0, 0, 1]] * 6
                for i in sub:
                    m = D.addv(m, s[i], f)
                P.append(D.scalev(m, Q(F(1, k), F(0), f), f))
        base = list(P)
        for i in range(n):
            P.append(D.alias(pkg, s[i], i))
        for q in (base[n], base[-1]):
            P.append(D.alias(pkg, q, 1))
        for i, j in permutations(range(n), 2):
            d = D.addv(s[j], D.scalev(s[i], -1, f), f)
            for w in (F(101, 100), F(2), F(-1, 100), F(1, 3)):
                P.append(D.addv(s[i], D.scalev(d, Q(w, F(0), f), f), f))
        # push face / edge centres outward and inward
        g = base[-1]
        for q in base[:-1]:
            d = D.addv(q, D.scalev(g, -1, f), f)
            for w in (F(51, 50), F(49, 50), F(10001, 10000), F(9999, 10000)):
                P.append(D.addv(g, D.scalev(d, Q(w, F(0), f), f), f))
        P += D.POINTS[pkg]
        return P

    N = {'ico2': 10 if big else 7, 'dode2': 13 if big else 9}

    def inside(ctx, case):
        pkg, c = case
        f, nm = FIELD[pkg], mod(pkg, 'numericalc')
        tau = nm.inside_outside_tetrahedron_tau if pkg == 'ico2' else nm.inside_outside_triangle_tau
        flt = nm.inside_outside_tetrahedron if pkg == 'ico2' else nm.inside_outside_triangle
        s = D.simplex(pkg, c)
        sp = [ref.perp(v, f) for v in s]
        pr = probes(pkg, c)
        # outer probes too close to be separated from the relative tolerance do not exist here
        for pi, p in enumerate(pr):
            want = in_simplex(ref.perp(p, f), sp, f) >= 0
            forms = [arr(s), arr(s[::-1]), arr(s[1:] + s[:1])]
            if pi < 4:
                forms.append(arr([D.alias(pkg, v, i) for i, v in enumerate(s)]))
                forms.append(arr([D.unreduced(v, (-1) ** i * 2) for i, v in enumerate(s)]))
            for k, t in enumerate(forms):
                r = tau(arr(p), t)
                ctx.expect(bool(r) == want, 'inside or outside a simplex', pkg=pkg, c=c, p=p, form=k, got=r, want=want)
                ctx.step()
            pf = np.array([float(x) for x in ref.perp(p, f)])
            tf = np.array([[float(x) for x in v] for v in sp])
            r = flt(pf, tf)
            ctx.expect(bool(r) == want, 'inside or outside a simplex (floats)', pkg=pkg, c=c, p=p, got=r, want=want)
            ctx.step()
            ctx.state(pkg, c, pi)
            ctx.outcome('inside=%s' % want)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
        ctx.note(pkg=pkg, c=c, probes=len(pr))
    out.append(mc.Suite('inside_simplex', 'every simplex over %r alphabet points x every probe point x corner orders / aliases / unreduced' % N,
                        [(p, c) for p in PKGS for c in D.simplices(p, N[p])], inside, chunk=4))

    # very small, very large, remote and flat simplices: the answer is relative to the simplex itself
    def scaled(ctx, case):
        pkg, c, w = case
        f, nm = FIELD[pkg], mod(pkg, 'numericalc')
        tau = nm.inside_outside_tetrahedron_tau if pkg == 'ico2' else nm.inside_outside_triangle_tau
        flt = nm.inside_outside_tetrahedron if pkg == 'ico2' else nm.inside_outside_triangle
        s = D.simplex(pkg, c)
        if w == 'flat':
            s = s[:-1] + [D.addv(D.scalev(s[-1], Q(F(1, 40), F(0), f), f), D.scalev(s[0], Q(F(39, 40), F(0), f), f), f)]
        elif w == 'remote':
            s = [D.addv(D.scalev(v, Q(F(1, 10), F(0), f), f), V(7, -11, 5, 13, -3, 2), f) for v in s]
        else:
            s = D.scaled(s, F(*w), f)
        sp = [ref.perp(v, f) for v in s]
        tf = np.array([[float(x) for x in v] for v in sp])
        for pi, p in enumerate(probes(pkg, c, s)):
            e = ref.perp(p, f)
            want = in_simplex(e, sp, f) >= 0
            r = tau(arr(p), arr(s)), flt(np.array([float(x) for x in e]), tf)
            ctx.expect(bool(r[0]) == want and bool(r[1]) == want, 'inside or outside a small, large, remote or flat simplex', pkg=pkg, c=c, w=w, p=p, got=r, want=want)
            ctx.step(2)
            ctx.state('w', pkg, c, w, pi)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    out.append(mc.Suite('inside_scaled', 'simplices scaled by 1/2000, 1/50, 40, 1000, moved far away, flattened x every probe point',
                        [(p, c, w) for p in PKGS for c in D.simplices(p, 6) for w in ((1, 2000), (1, 50), (40, 1), (1000, 1), 'flat', 'remote')], scaled, chunk=4))

    def inobj(ctx, case):
        pkg, c = case
        f, nm = FIELD[pkg], mod(pkg, 'numericalc')
        S = D.simplices(pkg, 6)
        for d in S:
            o = [D.simplex(pkg, c), D.simplex(pkg, d)]
            op = obj_perp(o, f)
            of = np.array([[[float(x) for x in v] for v in s] for s in op])
            for pi, p in enumerate(D.POINTS[pkg] + [probes(pkg, d)[-15]]):
                pp = ref.perp(p, f)
                want = any(in_simplex(pp, s, f) >= 0 for s in op)
                r1 = nm.inside_outside_obj_tau(arr(p), arr(o))
                r2 = nm.inside_outside_obj(np.array([float(x) for x in pp]), of)
                ctx.expect(bool(r1) == want and bool(r2) == want, 'inside or outside an object', pkg=pkg, c=c, d=d, p=p, got=[r1, r2], want=want)
                ctx.step(2)
                ctx.state('o', pkg, c, d, pi)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    out.append(mc.Suite('inside_object', 'every object of two simplices over 6 points x 15 probe points',
                        [(p, c) for p in PKGS for c in D.simplices(p, 6)], inobj))

    M = {'ico2': 14 if big else 11, 'dode2': 14 if big else 11}

    def onseg(ctx, case):
        pkg, i, j = case
        f, nm = FIELD[pkg], mod(pkg, 'numericalc')
        P = D.POINTS[pkg]
        a, b = P[i], P[j]
        ea, eb = ref.perp(a, f), ref.perp(b, f)
        if ea == eb:
            return
        d = D.addv(b, D.scalev(a, -1, f), f)
        pts = list(P)
        for w in (F(-1), F(-1, 50), F(-1, 1000), F(1, 1000), F(1, 3), F(1, 2), F(999, 1000), F(1001, 1000), F(51, 50), F(2)):
            pts.append(D.addv(a, D.scalev(d, Q(w, F(0), f), f), f))
        for k in range(len(KERN := D.KER[pkg])):
            pts += [D.alias(pkg, a, k), D.alias(pkg, b, k), D.alias(pkg, pts[17], k)]
        for pi, p in enumerate(pts):
            want = ref.on_segment(ref.perp(p, f), ea, eb)
            r = nm.point_on_segment(arr(p), arr([a, b]))
            ctx.expect(bool(r) == want, 'point on a segment', pkg=pkg, i=i, j=j, p=p, got=r, want=want)
            r = nm.point_on_segment(arr(p), arr([D.alias(pkg, a, 1), D.alias(pkg, b, 2)]))
            ctx.expect(bool(r) == want, 'point on a segment with renamed end points', pkg=pkg, i=i, j=j, p=p, got=r, want=want)
            ctx.step(2)
            ctx.state('s', pkg, i, j, pi)
            ctx.outcome('on segment=%s' % want)
        ctx.trace()
    out.append(mc.Suite('on_segment', 'every ordered pair of alphabet points x every alphabet point, renamed end points, 10 positions along the line',
                        [(p, i, j) for p in PKGS for i, j in permutations(range(M[p]), 2)], onseg, chunk=4))

    def ontri(ctx, case):
        pkg, c = case
        f, nm = FIELD[pkg], mod(pkg, 'numericalc')
        t = D.simplex(pkg, c)
        tp = [ref.perp(v, f) for v in t]
        nrm = ref.cross(ref.vsub(tp[1], tp[0]), ref.vsub(tp[2], tp[0]))
        if all(x.iszero() for x in nrm):
            return
        pts = list(D.POINTS[pkg])
        for w in product((F(-1, 20), F(-1, 200), F(0), F(1, 200), F(1, 3), F(1, 2), F(199, 200), F(21, 20)), repeat=2):
            p = t[0]
            for k in (1, 2):
                p = D.addv(p, D.scalev(D.addv(t[k], D.scalev(t[0], -1, f), f), Q(w[k - 1], F(0), f), f), f)
            pts.append(p)
        g3 = D.centroid(t, f)
        pts += [D.alias(pkg, v, k) for k, v in enumerate(t)] + [D.addv(g3, D.scalev(q, Q(F(1, 20), F(0), f), f), f) for q in D.POINTS[pkg][1:6]]
        for pi, p in enumerate(pts):
            pp = ref.perp(p, f)
            dd = ref.vsub(pp, tp[0])
            want = ref.dot(nrm, dd).iszero()
            if want:
                for k in range(3):
                    e = ref.cross(ref.vsub(tp[(k + 1) % 3], tp[k]), ref.vsub(pp, tp[k]))
                    if ref.dot(e, nrm).sign() < 0:
                        want = False
            for tt in (t, t[::-1]):
                r = nm.on_out_surface(arr(p), arr(tt))
                ctx.expect(bool(r) == want, 'point on a triangle', pkg=pkg, c=c, p=p, got=r, want=want)
                ctx.step()
            ctx.state('t', pkg, c, pi)
            ctx.outcome('on triangle=%s' % want)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    K = {'ico2': 10 if big else 8, 'dode2': 11 if big else 9}
    out.append(mc.Suite('on_triangle', 'every triangle over %r points x alphabet points, an 8x8 grid of positions in its plane, renamed corners' % K,
                        [(p, c) for p in PKGS for c in combinations(range(K[p]), 3)], ontri, chunk=6))

    # coplanarity: every schedule of the random picks
    def plane(ctx, case):
        pkg, c = case
        f, nm, m1 = FIELD[pkg], mod(pkg, 'numericalc'), mod(pkg, 'math1')
        s = [D.POINTS[pkg][i] if i >= 0 else EXTRA[pkg][-i - 1] for i in c]
        want = ref.coplanar([ref.perp(v, f) for v in s])
        a = arr(s)
        n = 0
        for k, fn in enumerate([lambda: nm.coplanar_check_numeric_tau(a), lambda: m1.coplanar_check(a)]):
            for taken, r, exc in choice.explore(fn, 6 if k == 0 else 1, limit=3000 if big else 400):
                ctx.expect(exc is None and r is not None and bool(r) == want, 'coplanar whatever the random picks', pkg=pkg, c=c, picks=taken, got=r,
                           want=want, exc=repr(exc))
                ctx.step()
                ctx.state('p', pkg, c, k, taken)
                n += 1
                if len(ctx.violations) > 6:
                    return
        # the adversary that always picks a collinear triple when there is one
        if len(c) >= 4:
            P = [ref.perp(v, f) for v in s]
            trip = list(combinations(range(len(c)), 3))
            bad = [t for t, ix in enumerate(trip) if ref.collinear(*[P[i] for i in ix])]
            if bad:
                for b in bad[:6]:
                    try:
                        r, sc = choice.run_once(lambda: nm.coplanar_check_numeric_tau(a), prefix=[b] * 5)
                    except choice.Diverged:
                        break
                    ctx.expect(r is not None and bool(r) == want, 'coplanar when every random pick is collinear', pkg=pkg, c=c, pick=b, got=r, want=want)
                    ctx.step()
                    ctx.state('adv', pkg, c, b)
        ctx.outcome('coplanar=%s' % want)
        ctx.trace(n)
        ctx.note(pkg=pkg, c=c, schedules=n, want=want)
    # collinear families
    EXTRA = {}
    for pkg in PKGS:
        f = FIELD[pkg]
        P = D.POINTS[pkg]
        d = P[4]
        EXTRA[pkg] = [D.scalev(d, Q(F(a, b), F(q), f), f) for a, b, q in ((1, 3, 0), (2, 3, 0), (-1, 2, 0), (0, 1, 1), (3, 1, -1))]
    fam = []
    for pkg in PKGS:
        n = 9 if big else 8
        fam += [(pkg, c) for c in combinations(range(n), 4)]
        fam += [(pkg, c) for c in combinations(range(n), 5)]
        fam += [(pkg, c) for c in combinations(range(n if big else 7), 6)]
        fam += [(pkg, c) for c in combinations(range(n), 3)][:6]
        ex = (-1, -2, -3, -4, -5)
        fam += [(pkg, ex[:4]), (pkg, ex), (pkg, (0,) + ex[:4])]
        fam += [(pkg, ex[:k] + t) for k in (2, 3, 4) for t in list(combinations((0, 5, 6, 7, 9), 1)) + list(combinations((0, 5, 6, 7, 9), 2))]
        fam += [(pkg, ex[:3] + t) for t in list(combinations((0, 5, 6, 7, 9), 3))]
    out.append(mc.Suite('coplanar', 'every 4-, 5- and 6-subset of alphabet points and families with up to 5 collinear points, under every sequence of random picks',
                        fam, plane, chunk=4))
    return out
