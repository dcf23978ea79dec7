"""C26  The compiled packages compute common parts of occupation domains, and the predicates under them, exactly."""
from itertools import combinations, product

import numpy as np

import legacy as L
import mc
import ref
import domains as D
from lib import *

ASSUMPTIONS = ['operands are bounded so that the 64-bit integers of the compiled code cannot overflow',
               'the modules are compiled from the working tree into a scratch directory of the run',
               'the dodecagonal predicates compare areas with an absolute tolerance of 1e-6; points outside by less are not judged',
               'mere contact (measure zero) of segments and triangles is decided within a tolerance and is not judged']
MODS = {'ico': ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics'], 'dode': None}
K = {'ico': 4, 'dode': 3}


def ods():
    return L.mod('ico', 'two_occupation_domains')


FN = {'flag 0': lambda a, b: ods().intersection(a, b, 0), 'flag 1': lambda a, b: ods().intersection(a, b, 1),
      'version 2': lambda a, b: ods().intersection_2(a, b), 'version 3': lambda a, b: ods().intersection_3(a, b),
      'old': lambda a, b: ods().intersection_old(a, b), 'tetrahedra': lambda a, b: L.intsct('ico').intersection_using_tetrahedron_4(a, b, 0, 0),
      'convex': lambda a, b: ods().intersection_convex(a, b), 'dode': lambda a, b: L.mod('dode', 'occupation_domain').intersection(a, b)}
REST = ['flag 1', 'version 2', 'version 3', 'old', 'tetrahedra', 'convex']


def region(g):
    return None if g is None or np.asarray(g).size < 6 else g


def suites(tier):
    big = tier == 'thorough'
    L.build(MODS)
    out = []
    N = {'ico': 6, 'dode': 7 if big else 6}
    OBJ = {p: D.objects(L.MODERN[p], N[p]) for p in L.PKGS}
    if big:
        OBJ['ico'] = OBJ['ico'] + [o for o in D.objects('ico2', 7) if '6' in o[0]][::3]
    # the same regions with corners under other 6-d names and in another order
    for p in L.PKGS:
        last = OBJ[p][-1]
        OBJ[p] = OBJ[p] + [('renamed ' + last[0], [[D.alias(L.MODERN[p], v, i + j) for j, v in enumerate(s)] for i, s in enumerate(last[1])], last[2]),
                           ('reordered ' + OBJ[p][5][0], [list(s)[::-1] for s in OBJ[p][5][1]][::-1], OBJ[p][5][2])]

    def common(ctx, case):
        pkg, i, j = case
        f = L.FIELD[pkg]
        (na, A, ca), (nb, B, cb) = OBJ[pkg][i], OBJ[pkg][j]
        want = overlap_measure(A, B, f)
        PA, PB = obj_perp(A, f), obj_perp(B, f)
        if pkg == 'dode':
            fns = ['dode']
        else:
            ok = REST if ca and cb else REST[:-1]
            fns = ['flag 0'] + (ok if big else [ok[(i * 3 + j) % len(ok)]])
        for fn in fns:
            a, b = arr(A), arr(B)
            g = region(FN[fn](a, b))
            check_region(ctx, g, want, lambda s: covered(s, PA, f) and covered(s, PB, f), f, K[pkg], 'common part', pkg=pkg, by=fn, A=na, B=nb)
            ctx.expect(np.array_equal(a, arr(A)) and np.array_equal(b, arr(B)), 'arguments unchanged', by=fn, A=na, B=nb)
            ctx.step()
            ctx.outcome('%s %s' % (fn, 'empty' if want.iszero() else 'part'))
        ctx.state(pkg, i, j)
        ctx.trace()
    out.append(mc.Suite('common', 'all ordered pairs of %d and %d objects' % (len(OBJ['ico']), len(OBJ['dode'])),
                        [(p, i, j) for p in L.PKGS for i in range(len(OBJ[p])) for j in range(len(OBJ[p]))], common, chunk=4))

    lar = {p: D.large(L.MODERN[p]) for p in L.PKGS}
    PICK = {'ico': ['icosahedron', '2x2x2 boxes'], 'dode': ['dodecagon', 'dodecagram', '4x4 cells', 'row of 20 cells']}
    LAR = {p: [o for o in lar[p] if o[0] in PICK[p]] for p in L.PKGS}

    def largepair(ctx, case):
        pkg, i, j, k = case
        f = L.FIELD[pkg]
        (na, A, ca), (nb, B, cb) = LAR[pkg][i], OBJ[pkg][j]
        if k:
            A, B = B, A
        want = overlap_measure(A, B, f)
        PA, PB = obj_perp(A, f), obj_perp(B, f)
        for fn in (['dode'] if pkg == 'dode' else ['flag 0', 'version 2'] if big else ['flag 0']):
            g = region(FN[fn](arr(A), arr(B)))
            check_region(ctx, g, want, lambda s: covered(s, PA, f) and covered(s, PB, f), f, K[pkg], 'common part with a large object',
                         disjoint=(g is not None and len(g) <= 40), pkg=pkg, by=fn, A=na, B=nb)
            ctx.step()
        ctx.state(pkg, i, j, k)
        ctx.trace()
    st = 1 if big else 4
    out.append(mc.Suite('large', 'objects of up to 48 simplices against small ones, both orders',
                        [(p, i, j, k) for p in L.PKGS for i in range(len(LAR[p])) for j in range(i, len(OBJ[p]), st if p == 'ico' else st * 2) for k in (0, 1)], largepair))

    # ------------------------------------------------------------------ wedges
    P = D.POINTS['ico2']
    H = (1, 0, 2)
    CENTRES = [P[0], V(H, 0, 0, 0, 0, 0), V((1, 1, 3), 0, (-1, 1, 4), 0, 0, (2, -1, 2))]
    G = D.group('ico2')
    WEDGES = [[P[1], P[2], P[3]], [P[4], P[5], P[6]], [P[1], P[5], P[9]], [P[3], P[2], P[1]]]
    WEDGES += [[[list(x) for x in D.act(G[n], v, P[0], ICO)] for v in WEDGES[0]] for n in range(3, 120, 9 if big else 31)]
    WEDGES = [w for w in WEDGES if not ref.tetvol([ref.perp(v, ICO) for v in [P[0]] + w]).iszero()]
    WOBJ = [o for o in lar['ico'] if o[0] == 'icosahedron'] + OBJ['ico'][11::4 if not big else 1]

    def wedge(ctx, case):
        f = ICO
        oi, ci = case
        name, o = WOBJ[oi][:2]
        c = CENTRES[ci]
        o = D.shifted(o, c, f)
        A = obj_perp(o, f)
        cp = ref.perp(c, f)
        for wi, w in enumerate(WEDGES):
            T = [cp] + [ref.vadd(cp, ref.perp(D.scalev(v, 5, f), f)) for v in w]
            n = ref.cross(ref.vsub(T[2], T[1]), ref.vsub(T[3], T[1]))
            h = ref.dot(n, ref.vsub(T[1], cp))
            if not all((ref.dot(n, ref.vsub(p, cp)) - h).sign() * h.sign() < 0 for s in A for p in s):
                ctx.outcome('beyond reach')
                continue
            m = Q(F(0), F(0), f)
            for s in A:
                if not separated(s, T, f):
                    m = m + pair_measure(s, T, f)
            g = region(L.mod('ico', 'occupation_domain').asymmetric(arr(o), arr(c), arr(w)))
            check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, [T], f), f, 4, 'asymmetric part', disjoint=(g is not None and len(g) <= 16), obj=name, centre=ci, wedge=wi)
            ctx.step()
            ctx.state(oi, ci, wi)
            ctx.outcome('empty' if m.iszero() else 'part')
        ctx.trace()
    out.append(mc.Suite('asymmetric', '%d objects x %d centres x %d wedges' % (len(WOBJ), len(CENTRES), len(WEDGES)),
                        [(i, j) for i in range(len(WOBJ)) for j in range(len(CENTRES)) if big or i == 0 or (i + j) % 3 == 0], wedge))

    # the same pairs much smaller and larger
    SC = {p: [o for o in OBJ[p] if o[2] and all(c[2] <= 2 for s in o[1] for v in s for c in v)][:: (1 if big else 2)] for p in L.PKGS}

    # (a, b, c): (a + b tau)/c or (a + b sqrt3/2)/c, mostly units of the field, so that the numbers stay within int64
    SCALE = {'ico': ((13, -8, 12), (13, -8, 1), (3, 5, 1)), 'dode': ((26, -30, 1), (7, -8, 1), (7, 8, 1))}

    def small(ctx, case):
        pkg, i, j, w = case
        f = L.FIELD[pkg]
        A, B = [[[D.scalev(v, Q(F(w[0], w[2]), F(w[1], w[2]), f), f) for v in s] for s in SC[pkg][k][1]] for k in (i, j)]
        want = overlap_measure(A, B, f)
        PA, PB = obj_perp(A, f), obj_perp(B, f)
        for fn in (['dode'] if pkg == 'dode' else ['flag 0'] + (REST if big else [REST[(i + j) % len(REST)]])):
            g = region(FN[fn](arr(A), arr(B)))
            check_region(ctx, g, want, lambda s: covered(s, PA, f) and covered(s, PB, f), f, K[pkg], 'common part of small or large objects', pkg=pkg, by=fn, A=SC[pkg][i][0], B=SC[pkg][j][0], scale=w)
            ctx.step()
        ctx.state(pkg, i, j, w)
        ctx.trace()
    out.append(mc.Suite('small', 'pairs of objects scaled by tau^-6/12, tau^-6, tau^5 / (2-sqrt3)^3, (2-sqrt3)^2, (2+sqrt3)^2', [(p, i, j, w) for p in L.PKGS for i in range(len(SC[p])) for j in range(len(SC[p])) if i != j for w in SCALE[p]], small, chunk=2))

    # ------------------------------------------------------------------ predicates
    M = {'ico': 9 if big else 7, 'dode': 10 if big else 8}

    def probes(m, s, f):
        n = len(s)
        R = []
        for k in range(1, n + 1):
            for sub in combinations(range(n), k):
                v = [[0, 0, 1]] * 6
                for i in sub:
                    v = D.addv(v, s[i], f)
                R.append(D.scalev(v, Q(F(1, k), F(0), f), f))
        base, g = list(R), R[-1]
        for q in base[:-1]:
            d = D.addv(q, D.scalev(g, -1, f), f)
            for w in (F(21, 20), F(19, 20), F(2)):
                R.append(D.addv(g, D.scalev(d, Q(w, F(0), f), f), f))
        R += [D.alias(m, base[0], 1), D.alias(m, base[n], 2), D.alias(m, g, 0)]
        return R + [p for k, p in enumerate(D.POINTS[m]) if k != 11]

    def inside(ctx, case):
        pkg, c = case
        f, m, nm = L.FIELD[pkg], L.MODERN[pkg], L.num(pkg)
        s = D.simplex(m, c)
        sp = [ref.perp(v, f) for v in s]
        for pi, p in enumerate(probes(m, s, f)):
            want = 0 if in_simplex(ref.perp(p, f), sp, f) >= 0 else 1
            for form in (s, s[::-1], s[1:] + s[:1], [D.alias(m, v, i) for i, v in enumerate(s)]):
                t = arr(form)
                got = nm.inside_outside_tetrahedron(arr(p), *t) if pkg == 'ico' else nm.inside_outside_triangle(arr(p), t, 0)
                ctx.expect(got == want, 'inside or outside a simplex', pkg=pkg, c=c, p=p, got=got, want=want)
                ctx.step()
            ctx.state(pkg, c, pi)
            ctx.outcome('%s %d' % (pkg, want))
            # points against segments: the corners of the simplex taken two by two
            if pi < 40:
                pp = ref.perp(p, f)
                for x, y in ((0, 1), (1, 0), (1, 2)):
                    AB, AP = ref.vsub(sp[y], sp[x]), ref.vsub(pp, sp[x])
                    l2, t = ref.dot(AB, AB), ref.dot(AP, AB)
                    off = ref.dot(AP, AP) * l2 - t * t
                    online = off.iszero()
                    if t.iszero() or (t - l2).iszero():
                        if online and tup(arr(p)) not in (tup(arr(s[x])), tup(arr(s[y]))):
                            continue            # an end point under another name: decided by rounding
                    elif not online and abs(float(off)) < 1e-4:
                        continue
                    w = online and t.sign() >= 0 and (l2 - t).sign() >= 0
                    got = nm.point_on_segment(arr(p), arr(s[x]), arr(s[y]))
                    ctx.expect((got == 0) == w, 'on a segment or not', pkg=pkg, c=c, p=p, seg=(x, y), got=got, want=w)
                    ctx.expect(w or got == (1 if online and t.sign() > 0 else 2 if not online else got), 'beyond the end of a segment or off its line', pkg=pkg, c=c, p=p, seg=(x, y), got=got)
                    ctx.step()
        ctx.trace()
    out.append(mc.Suite('inside_simplex', 'every simplex over %r points x corner orders x probe points' % M,
                        [(p, c) for p in L.PKGS for c in D.simplices(L.MODERN[p], M[p])], inside, chunk=4))

    # segments whose ends have six different irrational coordinates with different denominators
    RICH = [V((1, 1, 3), (2, -1, 5), (-1, 1, 4), (3, 2, 7), (1, -2, 3), (2, -1, 2)),
            V((0, 1, 2), (1, 1, 1), (-2, 1, 3), (1, -1, 5), (2, 1, 3), (-1, 3, 4)),
            V((2, 0, 1), (0, -1, 3), (1, 2, 5), (-1, 1, 2), (1, 1, 7), (0, 2, 3)),
            V((-1, 2, 7), (3, 1, 2), (0, 1, 1), (2, -3, 4), (-2, 0, 3), (1, 1, 5))]
    SEG_T = (F(-3, 2), F(-1, 7), F(1, 9), F(1, 2), F(8, 9), F(10, 9), F(3))

    def segments(ctx, case):
        pkg, i, j, k, w = case
        f, m, nm = L.FIELD[pkg], L.MODERN[pkg], L.num(pkg)
        A, B, C = [D.scalev(RICH[x], Q(F(*w), F(0), f), f) for x in (i, j, k)]
        d = D.addv(B, D.scalev(A, -1, f), f)
        for t in SEG_T:
            for off in (None, 0, 1):
                p = D.addv(A, D.scalev(d, Q(t, F(0), f), f), f)
                if off is not None:
                    o = D.addv(C, D.scalev(A, -1, f), f)
                    p = D.addv(p, D.scalev(o, Q(F(1, 3) if off else F(-1, 4), F(0), f), f), f)
                want = (0,) if off is None and 0 <= t <= 1 else (1,) if off is None and t > 1 else (-1, 2) if off is None else (2,)
                for x in (p, D.alias(m, p, 0), D.alias(m, p, 1)):
                    got = nm.point_on_segment(arr(x), arr(A), arr(B))
                    ctx.expect(got in want, 'where a point is with respect to a segment', pkg=pkg, i=i, j=j, k=k, w=w, t=str(t), off=off, got=got, want=want)
                    ctx.step()
                ctx.state(pkg, i, j, k, w, str(t), off)
        ctx.trace()
    out.append(mc.Suite('on_segment', 'all ordered triples of %d points with irrational coordinates x %d positions x on / off the line x scales 1, 1/250, 60' % (len(RICH), len(SEG_T)),
                        [(p, i, j, k, w) for p in L.PKGS for i in range(len(RICH)) for j in range(len(RICH)) for k in range(len(RICH)) if len({i, j, k}) == 3 for w in ((1, 1), (1, 250), (60, 1))], segments, chunk=8))

    # very small, very large, remote and flat simplices: the answer is relative to the simplex itself
    WS = ((1, 500), (1, 60), (40, 1), (500, 1), 'flat', 'remote')

    def inside_scaled(ctx, case):
        pkg, c, w = case
        f, m, nm = L.FIELD[pkg], L.MODERN[pkg], L.num(pkg)
        s = D.simplex(m, c)
        if w == 'flat':
            s = s[:-1] + [D.addv(D.scalev(s[-1], Q(F(1, 40), F(0), f), f), D.scalev(s[0], Q(F(39, 40), F(0), f), f), f)]
        elif w == 'remote':
            s = [D.addv(D.scalev(v, Q(F(1, 10), F(0), f), f), V(7, -11, 5, 13, -3, 2), f) for v in s]
        else:
            s = D.scaled(s, F(*w), f)
        sp = [ref.perp(v, f) for v in s]
        for pi, p in enumerate(probes(m, s, f)):
            pp = ref.perp(p, f)
            want = 0 if in_simplex(pp, sp, f) >= 0 else 1
            fl = [float(x) for x in pp]
            if pkg == 'dode' and want:
                # the dodecagonal code compares areas, with a relative tolerance of 1e-6
                ex = sum(float(ref.triarea([pp, sp[x], sp[y]])) for x, y in ((0, 1), (0, 2), (1, 2))) - float(ref.triarea(sp))
                if ex < 1e-5 * float(ref.triarea(sp)):
                    ctx.outcome('within the tolerance')
                    continue
            got = [nm.inside_outside_tetrahedron(arr(p), *arr(s)), nm.inside_outside_obj(fl, arr([s]))] if pkg == 'ico' else \
                  [nm.inside_outside_triangle(arr(p), arr(s), 0), nm.inout_occupation_domain_numerical(arr([s]), np.array(fl), 0)]
            ctx.expect(got == [want, want], 'inside or outside a small, large, remote or flat simplex', pkg=pkg, c=c, w=w, p=p, got=got, want=want)
            ctx.step(2)
            ctx.state('w', pkg, c, w, pi)
            ctx.outcome('%s %d' % (pkg, want))
        ctx.trace()
    out.append(mc.Suite('inside_scaled', 'simplices scaled by 1/500, 1/60, 40, 500, moved far away, flattened x every probe point',
                        [(p, c, w) for p in L.PKGS for c in D.simplices(L.MODERN[p], 8 if big else 6) for w in WS], inside_scaled, chunk=4))

    def inside_obj(ctx, case):
        pkg, i = case
        f, m, nm = L.FIELD[pkg], L.MODERN[pkg], L.num(pkg)
        name, o = OBJ[pkg][i][:2]
        S = obj_perp(o, f)
        for p in probes(m, o[0], f) + probes(m, o[-1], f):
            pp = ref.perp(p, f)
            want = 0 if any(in_simplex(pp, s, f) >= 0 for s in S) else 1
            fl = [float(x) for x in pp]
            got = nm.inside_outside_obj(fl, arr(o)) if pkg == 'ico' else nm.inout_occupation_domain_numerical(arr(o), np.array(fl), 0)
            ctx.expect(got == want, 'inside or outside an object', pkg=pkg, obj=name, p=p, got=got, want=want)
            ctx.step()
            ctx.outcome('%s %d' % (pkg, want))
        ctx.state(pkg, i)
        ctx.trace()
    out.append(mc.Suite('inside_object', 'every object x probe points', [(p, i) for p in L.PKGS for i in range(len(OBJ[p]))], inside_obj, chunk=4))

    # ------------------------------------------------------------------ all points of a grid that lie in an object
    GRID = [([0.137, 0.151, 0.163], [5, 6, 4]), ([-0.121, 0.147, -0.173], [6, 5, 4]), ([0.31, -0.29, 0.27], [3, 4, 2]), ([0.2, 0.3, 0.4], [0, 2, 0])]
    PM = [[[0.0, 0.0], [0.0, 0.0]], [[0.11, -0.07], [0.05, 0.13]], [[0.0, 0.21], [-0.17, 0.0]]]

    def bary(fp, fs):
        """smallest barycentric coordinate of a float point"""
        A = np.array([[x[k] for x in fs] for k in range(len(fs) - 1)] + [[1.0] * len(fs)])
        return float(min(np.linalg.solve(A, np.array(list(fp[:len(fs) - 1]) + [1.0]))))

    def grid(ctx, case):
        pkg, i, k = case
        f, m = L.FIELD[pkg], L.MODERN[pkg]
        name, o = OBJ[pkg][i][:2]
        step, nst = GRID[k]
        if pkg == 'dode':
            nst = nst[:2] + [1]
        S = [[[float(x) for x in v] for v in s] for s in obj_perp(o, f)]
        got = L.utils(pkg).get_points_inside_obj(arr(o), list(step), list(nst))
        d = dict(pkg=pkg, obj=name, step=step, nstep=nst)
        keys = {tuple(round(x, 9) for x in p) for p in got}
        ctx.expect(len(keys) == len(got), 'grid points: each once', **d)
        n = 0
        for h in product(*[range(x + 1) for x in nst]):
            p = [a * b for a, b in zip(h, step)]
            key = tuple(round(x, 9) for x in p)
            n += key in keys
            b = max(bary(p, s) for s in S) if pkg == 'ico' or h[2] == 0 else -1.0   # the dodecagonal domains lie in the plane z = 0
            if abs(b) < 1e-5:
                continue
            ctx.expect((key in keys) == (b > 0), 'grid points: those inside the object', point=p, want=b > 0, **d)
            ctx.step()
        ctx.expect(n == len(got), 'grid points: nothing but points of the grid', **d)
        if pkg == 'dode':
            for x, pm in enumerate(PM):
                T = []
                for s in o:
                    T.append([])
                    for v in s:
                        e, q = ref.par(v, f), ref.perp(v, f)
                        e, q = [float(c) for c in e], [float(c) for c in q]
                        T[-1].append([q[0] + pm[0][0] * e[0] + pm[1][0] * e[1], q[1] + pm[0][1] * e[0] + pm[1][1] * e[1]])
                for h in product(range(nst[0] + 1), range(nst[1] + 1)):
                    p = [a * b for a, b in zip(h, step)]
                    b = max(bary(p, s) for s in T)
                    if abs(b) < 1e-5:
                        continue
                    r = L.num('dode').inout_occupation_domain_phason_numerical(arr(o), np.array(p + [0.0]), np.array(pm), 0)
                    ctx.expect((r == 0) == (b > 0), 'inside a strained object', point=p, matrix=x, got=r, **d)
                    ctx.step()
        ctx.state(pkg, i, k)
        ctx.trace()
    out.append(mc.Suite('grid', 'every object x %d grids, every grid point' % len(GRID),
                        [(p, i, k) for p in L.PKGS for i in range(len(OBJ[p])) for k in range(len(GRID)) if big or (i + k) % 2 == 0], grid, chunk=4))

    # ------------------------------------------------------------------ icosahedral segments against triangles
    PI = [p for k, p in enumerate(D.POINTS['ico2']) if k != 11] + (RICH if big else RICH[:1])
    NI = len(PI)

    def pierce(ctx, case):
        f, nm, it = ICO, L.num('ico'), L.intsct('ico')
        A, B = PI[case[0]], PI[case[1]]
        pa, pb = ref.perp(A, f), ref.perp(B, f)
        d2 = ref.dot(ref.vsub(pa, pb), ref.vsub(pa, pb))
        for x, y in ((A, B), (D.alias('ico2', B, 0), A), (B, D.alias('ico2', A, 1))):
            g = it.distance_in_perp_space(arr(x), arr(y))
            ctx.expect(abs(g - float(d2) ** 0.5) < 1e-9, 'distance of two points', a=case[0], b=case[1], got=g, want=float(d2) ** 0.5)
        for c in combinations(range(NI), 3):
            T = [PI[i] for i in c]
            t = [ref.perp(v, f) for v in T]
            va, vb = ref.signed6vol(t + [pa]), ref.signed6vol(t + [pb])
            if va.iszero() or vb.iszero():
                continue
            w = [ref.signed6vol([pa, pb, t[i], t[j]]).sign() for i, j in ((0, 1), (1, 2), (2, 0))]
            if 0 in w:
                continue
            want = va.sign() != vb.sign() and len(set(w)) == 1
            for k, (x, y, z) in enumerate(((0, 1, 2), (2, 1, 0), (1, 2, 0))):
                P, R = ((A, B), (B, A), (D.alias('ico2', A, 0), B))[k]
                g = nm.check_intersection_segment_surface_numerical(*[arr(v) for v in (P, R, T[x], T[y], T[z])])
                ctx.expect((g == 0) == want, 'a segment pierces a triangle or not', segment=case, triangle=c, got=g, want=want)
                ctx.step()
            ctx.state(case, c)
            ctx.outcome('pierces' if want else 'misses')
        ctx.trace()
    out.append(mc.Suite('pierce', 'icosahedral: all segments and triangles over %d points in general position' % NI, list(combinations(range(NI), 2)), pierce))

    # ------------------------------------------------------------------ dodecagonal segments and triangles
    NS = 9 if big else 7
    PD = [p for k, p in enumerate(D.POINTS['dode2']) if k != 11][:NS]
    SEG = list(combinations(range(NS), 2))

    def segments(ctx, case):
        f = DODE
        it, nm = L.intsct('dode'), L.num('dode')
        a, b = case
        A, B = PD[a], PD[b]
        pa, pb = ref.perp(A, f), ref.perp(B, f)
        ab = ref.vsub(pb, pa)
        if all(x.iszero() for x in ab):
            return
        for c, d in SEG:
            C, E = PD[c], PD[d]
            pc, pd = ref.perp(C, f), ref.perp(E, f)
            cd, ac = ref.vsub(pd, pc), ref.vsub(pc, pa)
            det = ab[0] * cd[1] - ab[1] * cd[0]
            if all(x.iszero() for x in cd):
                continue
            if det.iszero():
                ctx.outcome('parallel')
                want, strict = None, True
            else:
                s = (ac[0] * cd[1] - ac[1] * cd[0]) / det
                t = (ac[0] * ab[1] - ac[1] * ab[0]) / det
                one = Q(F(1), F(0), f)
                hit = all(x.sign() >= 0 and (one - x).sign() >= 0 for x in (s, t))
                strict = all(x.sign() and (one - x).sign() for x in (s, t))
                want = ref.vadd(pa, [s * x for x in ab]) if hit else None
                ctx.outcome('cross' if hit and strict else 'touch' if hit else 'apart')
            for x in ((A, B, C, E), (B, A, E, C)):
                g = it.intersection_two_segment(*[arr(v) for v in x], 0)
                d_ = dict(A=A, B=B, C=C, D=E, got=g)
                if g.size == 1:
                    ctx.expect(want is None, 'intersection of two segments: missed', **d_)
                elif want is None:
                    ctx.fail('intersection of two segments: none exists', **d_)
                else:
                    ctx.expect(g.size == 18 and ref.perp(tup(g.reshape(6, 3)), f) == want, 'intersection of two segments: wrong point', **d_)
                    g2 = L.mod('dode', 'occupation_domain').intersection_two_segments(arr(x[:2]), arr(x[2:]))
                    ctx.expect(np.array_equal(g2.reshape(-1), g), 'intersection_two_segments', **d_)
                if strict:
                    r = nm.check_intersection_two_segment_numerical(arr(x[:2]), arr(x[2:]), 0)
                    ctx.expect((r == 0) == (want is not None), 'two segments meet or not', r=r, **d_)
                ctx.step(2)
            ctx.state(a, b, c, d)
        ctx.trace()
    out.append(mc.Suite('segments', 'dodecagonal: all pairs of segments over %d points, both directions' % NS, SEG, segments, chunk=2))

    TD = D.simplices('dode2', M['dode'])

    def triangles(ctx, case):
        f = DODE
        nm, it = L.num('dode'), L.intsct('dode')
        A = D.simplex('dode2', TD[case])
        a = [ref.perp(v, f) for v in A]
        for j, c in enumerate(TD):
            B = D.simplex('dode2', c)
            b = [ref.perp(v, f) for v in B]
            r = nm.check_intersection_two_triangles(arr(A), arr(B), 0)
            m = pair_measure(a, b, f)
            d = dict(A=TD[case], B=c, got=r)
            if all(in_simplex(p, b, f) >= 0 for p in a):
                ctx.expect(r == 2, 'the first triangle lies in the second', **d)
            elif all(in_simplex(p, a, f) >= 0 for p in b):
                ctx.expect(r == 3, 'the second triangle lies in the first', **d)
            elif not m.iszero():
                ctx.expect(r == 0, 'the triangles overlap', **d)
            else:
                ctx.expect(r in (0, 1), 'the triangles at most touch', **d)
            ctx.outcome(r)
            ctx.step()
            ctx.state(case, j)
        ctx.trace()
    out.append(mc.Suite('triangles', 'dodecagonal: all ordered pairs of triangles over %d points' % M['dode'], list(range(len(TD))), triangles, chunk=2))

    PX = [p for k, p in enumerate(D.POINTS['dode2']) if k != 11][:13 if big else 11]

    def across(ctx, case):
        f, it, nm = DODE, L.intsct('dode'), L.num('dode')
        A, B = PX[case[0]], PX[case[1]]
        pa, pb = ref.perp(A, f), ref.perp(B, f)
        ab = ref.vsub(pb, pa)
        if all(x.iszero() for x in ab):
            return
        for c in combinations(range(len(PX)), 3):
            T = [PX[i] for i in c]
            t = [ref.perp(v, f) for v in T]
            if ref.triarea(t).iszero():
                continue
            want, strict = set(), True
            for i, j in ((0, 1), (0, 2), (1, 2)):
                o1, o2 = ref.signed2area([pa, pb, t[i]]), ref.signed2area([pa, pb, t[j]])
                o3, o4 = ref.signed2area([t[i], t[j], pa]), ref.signed2area([t[i], t[j], pb])
                if o1.iszero() or o2.iszero() or o3.iszero() or o4.iszero():
                    strict = False
                elif o1.sign() != o2.sign() and o3.sign() != o4.sign():
                    s = o3 / (o3 - o4)
                    want.add(tuple(q.triple() for q in ref.vadd(pa, [s * x for x in ab])))
            if not strict:
                continue
            d = dict(segment=case, triangle=c)
            for sg in ([A, B], [B, A]):
                r = nm.check_intersection_line_segment_triangle(arr(sg), arr(T), 0)
                ctx.expect((r == 0) == bool(want), 'a segment crosses the border of a triangle or not', got=r, want=len(want), **d)
                g = it.intersection_line_segment_triangle(arr(sg), arr(T), 0)
                pts = [] if g.size == 1 else [tuple(q.triple() for q in ref.perp(tup(x), f)) for x in g.reshape(-1, 6, 3)]
                ctx.expect(len(pts) == len(want) and set(pts) == want, 'the points where a segment crosses the border of a triangle', got=len(pts), want=len(want), **d)
                ctx.step(2)
            ctx.state(case, c)
            ctx.outcome('%d crossings' % len(want))
        ctx.trace()
    out.append(mc.Suite('across', 'dodecagonal: all segments and triangles over %d points in general position' % len(PX), list(combinations(range(len(PX)), 2)), across, chunk=2))

    # ------------------------------------------------------------------ decompositions of point sets
    NP = {'ico': 8, 'dode': 8} if big else {'ico': 7, 'dode': 7}

    def decompose(ctx, case):
        pkg, sub = case
        f, m, it = L.FIELD[pkg], L.MODERN[pkg], L.intsct(pkg)
        pts = [D.POINTS[m][i] for i in sub]
        pp = [ref.perp(v, f) for v in pts]
        if len({pkey(v, f) for v in pts}) < len(pts):
            return
        dim = K[pkg] - 1
        simp = [s for s in combinations(pp, dim + 1) if not simplex_measure(s, f).iszero()]
        if not simp:
            return
        hull = _hull_measure(pp, f)
        g = region(it.tetrahedralization_points(arr(pts), 0) if pkg == 'ico' else it.triangulation_points(arr(pts), 0))
        check_region(ctx, g, hull, lambda s: True, f, K[pkg], 'decomposition of a point set', pkg=pkg, points=sub)
        if g is not None:
            ctx.expect({tup(v) for s in g for v in s} <= {tup(arr(v)) for v in pts}, 'uses the points given', pkg=pkg, points=sub)
        ctx.step()
        ctx.state(pkg, sub)
        ctx.trace()
    out.append(mc.Suite('decompose', 'every set of 4..6 points', [(p, c) for p in L.PKGS for k in range(K[p], K[p] + 3) for c in combinations(range(NP[p]), k)], decompose, chunk=4))
    # cheap suites first: a violation there ends the run early
    slow = ('common', 'large', 'asymmetric')
    return [s for s in out if s.name not in slow] + [s for s in out if s.name in slow]


def _hull_measure(pp, f):
    """volume of the convex hull, from its facets seen from the first point"""
    dim = 3 if f is ICO else 2
    tot = Q(F(0), F(0), f)
    o = pp[0]
    if dim == 2:
        edge = {}
        for x, y in combinations(range(len(pp)), 2):
            sg = [ref.signed2area([pp[x], pp[y], p]).sign() for p in pp]
            if not (min(sg) < 0 < max(sg)) and any(sg):
                # keep the longest segment of each line
                n = [k for k, s in enumerate(sg) if s == 0]
                edge.setdefault(tuple(n), n)
        for n in edge.values():
            far = max(combinations(n, 2), key=lambda c: float(ref.dot(ref.vsub(pp[c[0]], pp[c[1]]), ref.vsub(pp[c[0]], pp[c[1]]))))
            tot = tot + ref.triarea([o, pp[far[0]], pp[far[1]]])
        return tot
    faces = {}
    for t in combinations(range(len(pp)), 3):
        sg = [ref.signed6vol([pp[i] for i in t] + [p]).sign() for p in pp]
        if any(sg) and not (min(sg) < 0 < max(sg)):
            faces[tuple(k for k, s in enumerate(sg) if s == 0)] = True
    for n in faces:
        if 0 in n:
            continue
        # the facet as a fan in its plane: order by exact orientation about the plane normal
        q = [pp[i] for i in n]
        i, j, k = next(t for t in combinations(range(len(q)), 3) if any(not x.iszero() for x in ref.cross(ref.vsub(q[t[1]], q[t[0]]), ref.vsub(q[t[2]], q[t[0]]))))
        nrm = ref.cross(ref.vsub(q[j], q[i]), ref.vsub(q[k], q[i]))

        def orient(a, b, c):
            return ref.dot(nrm, ref.cross(ref.vsub(b, a), ref.vsub(c, a))).sign()
        seen = {}
        for a, b in combinations(range(len(q)), 2):
            sg = [orient(q[a], q[b], p) for p in q]
            if any(sg) and not (min(sg) < 0 < max(sg)):
                m = tuple(x for x, s in enumerate(sg) if s == 0)
                seen[m] = m
        for m in seen.values():
            far = max(combinations(m, 2), key=lambda c: float(ref.dot(ref.vsub(q[c[0]], q[c[1]]), ref.vsub(q[c[0]], q[c[1]]))))
            t = [q[0], q[far[0]], q[far[1]]]
            tot = tot + ref.tetvol([o] + t)
    return tot
