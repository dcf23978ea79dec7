"""C06  Volume / area is exact, non-negative, additive and invariant; shifting is exact translation."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['sign decisions of the library go through doubles: coordinates are bounded so that no exact nonzero value is below 1e-7']


def suites(tier):
    big = tier == 'thorough'
    npt = {'ico2': 14 if big else 12, 'dode2': 14}

    def lib_simplex(pkg):
        u = mod(pkg, 'utils')
        return u.tetrahedron_volume_6d if pkg == 'ico2' else u.triangle_area_6d

    def lib_simplex3(pkg):
        u = mod(pkg, 'utils')
        return u.tetrahedron_volume if pkg == 'ico2' else u.triangle_area

    def lib_num(pkg):
        n = mod(pkg, 'numericalc')
        return n.tetrahedron_volume_6d_numerical if pkg == 'ico2' else n.triangle_volume_6d_numerical

    def check(ctx, pkg, s, want, what):
        got = lib_simplex(pkg)(arr(s))
        ctx.expect(is_triple_array(got, (3,)) and tup(got) == want.triple(), what, pkg=pkg, s=s, got=got, want=want.triple())
        ctx.step()

    combs = {p: list(combinations(range(npt[p]), SIMPLEX[p])) for p in PKGS}

    def simplex_measure(ctx, case):
        pkg, block = case
        f = FIELD[pkg]
        k = SIMPLEX[pkg]
        for c in block:
            s = D.simplex(pkg, c)
            P = [ref.perp(v, f) for v in s]
            want = D.measure(P, f)
            check(ctx, pkg, s, want, 'measure of a simplex')
            # every vertex order for a share of them, a swap for all
            perms = list(permutations(range(k))) if (sum(c) % (3 if big else 7) == 0) else [(1, 0) + tuple(range(2, k)), tuple(range(k - 1, -1, -1))]
            for pm in perms:
                check(ctx, pkg, [s[i] for i in pm], want, 'measure does not depend on the vertex order')
            # other names of the same corners
            alt = [D.alias(pkg, v, i + sum(c)) if i % 2 == sum(c) % 2 else D.unreduced(v, [-2, 3, -1, 5][i]) for i, v in enumerate(s)]
            check(ctx, pkg, alt, want, 'measure depends on internal positions only')
            t3 = [[q.triple() for q in p] for p in P]
            got = lib_simplex3(pkg)(arr(t3))
            ctx.expect(is_triple_array(got, (3,)) and tup(got) == want.triple(), 'measure of a simplex in internal coordinates', pkg=pkg, s=s, got=got)
            g = lib_num(pkg)(arr(s))
            ctx.expect(abs(g - float(want)) <= 1e-9 * (1 + float(want)), 'numeric measure', pkg=pkg, s=s, got=g, want=float(want))
            n = mod(pkg, 'numericalc')
            num3 = np.array([[float(q) for q in p] for p in P])
            g = n.tetrahedron_volume_numerical(num3) if pkg == 'ico2' else n.triangle_area_numerical(num3)
            ctx.expect(abs(g - float(want)) <= 1e-9 * (1 + float(want)), 'numeric measure of numeric corners', pkg=pkg, s=s, got=g)
            if pkg == 'ico2':
                # areas of the faces, numeric: compare squared area exactly
                a, b = ref.vsub(P[1], P[0]), ref.vsub(P[2], P[0])
                cr = ref.cross(a, b)
                ar = float(ref.dot(cr, cr)) ** .5 / 2
                g1 = n.triangle_area_numerical(num3[:3])
                g2 = n.triangle_area(arr(t3[:3]))
                ctx.expect(abs(g1 - ar) < 1e-9 * (1 + ar) and abs(g2 - ar) < 1e-9 * (1 + ar), 'numeric triangle area', pkg=pkg, s=s, got=[g1, g2], want=ar)
            else:
                g2 = n.triangle_area(arr(t3))
                ctx.expect(abs(g2 - float(want)) < 1e-9 * (1 + float(want)), 'numeric triangle area', pkg=pkg, s=s, got=g2)
            ctx.step(4)
            ctx.state(pkg, c)
            ctx.outcome('degenerate' if want.iszero() else 'positive')
            if len(ctx.violations) > 8:
                return
        ctx.trace()
        ctx.note(pkg=pkg, first=block[0], n=len(block))

    # deflated / inflated copies: small and large volumes keep their sign and exact value
    def scaled(ctx, case):
        pkg, k = case
        f = FIELD[pkg]
        t = Q(F(0), F(1), f) if pkg == 'ico2' else Q(F(2), F(2), f)      # tau ; 2+sqrt3
        s = Q(F(1), F(0), f)
        for _ in range(abs(k)):
            s = s * t if k > 0 else s / t
        for c in D.simplices(pkg, 7)[:: (1 if big else 2)]:
            sm = [D.scalev(v, s, f) for v in D.simplex(pkg, c)]
            want = D.measure([ref.perp(v, f) for v in sm], f)
            check(ctx, pkg, sm, want, 'measure of an inflated or deflated simplex')
            check(ctx, pkg, [sm[1], sm[0]] + sm[2:], want, 'measure of an inflated or deflated simplex')
            ctx.state('sc', pkg, k, c)
        ctx.trace()

    def objects(pkg, m):
        S = D.simplices(pkg, 7)
        return [tuple(S[(i * 5 + j * (i + 1)) % len(S)] for j in range(m)) for i in range(len(S))]

    def additive(ctx, case):
        pkg, o = case
        f = FIELD[pkg]
        obj = [D.simplex(pkg, s) for s in o]
        want = obj_measure(obj, f)
        A = arr(obj)
        vol = measure_of(pkg)
        od, n = mod(pkg, 'occupation_domain'), mod(pkg, 'numericalc')
        for what, got in (('4 dimensions', vol(A)), ('facade', od.volume(A)), ('3 dimensions of one', vol(A[0]) if len(o) == 1 else vol(A)),
                          ('5 dimensions', vol(A.reshape((1,) + A.shape))), ('5 dimensions split', vol(A.reshape((len(o), 1) + A.shape[1:]))),
                          ('reversed', vol(A[::-1]))):
            ctx.expect(is_triple_array(got, (3,)) and tup(got) == want.triple(), 'measure of an object: ' + what, pkg=pkg, o=o, got=got, want=want.triple())
            ctx.step()
        g = n.obj_volume_6d_numerical(A)
        ctx.expect(abs(g - float(want)) <= 1e-9 * (1 + float(want)), 'numeric measure of an object', pkg=pkg, o=o, got=g)
        if pkg == 'ico2':
            g = n.obj_volume_numerical(np.array([[[float(q) for q in ref.perp(v, f)] for v in s] for s in obj]))
            ctx.expect(abs(g - float(want)) <= 1e-9 * (1 + float(want)), 'numeric measure of a numeric object', pkg=pkg, o=o, got=g)
        ctx.state('add', pkg, o)
        ctx.trace()
        ctx.note(pkg=pkg, object=o, measure=want.triple())

    SH = [V(0, 0, 0, 0, 0, 0), V(1, 1, 1, 0, -1, 0), V((1, 0, 2), (-1, 0, 2), (0, 1, 2), (1, 1, 3), 0, (2, -1, 5)),
          V((-1, 0, 2), (1, 0, 2), (0, -1, 2), (-1, -1, 3), 0, (-2, 1, 5)), V((4, 6, -2), (2, 0, 4), 1, (3, -3, 3), 0, (0, 0, 9))]

    # all histories of up to L shifts from SH
    L = 4 if big else 3

    def shifts(ctx, case):
        pkg, o, first = case
        f = FIELD[pkg]
        od, u = mod(pkg, 'occupation_domain'), mod(pkg, 'utils')
        obj = [D.simplex(pkg, s) for s in o]
        base = obj_measure(obj, f)

        def rec(lib, model, hist):
            if len(hist) == L:
                return
            for si in ([first] if not hist else range(len(SH))):
                before = lib.copy()
                fn = od.shift if len(hist) % 2 == 0 else u.shift_object
                new = fn(lib, arr(SH[si]))
                m2 = [[[(x + val(t, f)) for x, t in zip(v, SH[si])] for v in s] for s in model]
                w = tuple(tuple(tuple(x.triple() for x in v) for v in s) for s in m2)
                ctx.expect(is_triple_array(new, lib.shape) and tup(new) == w, 'shifted object', pkg=pkg, o=o, history=hist + [si])
                ctx.expect(np.array_equal(lib, before), 'shift leaves its argument alone', pkg=pkg)
                g = measure_of(pkg)(new)
                ctx.expect(tup(g) == base.triple(), 'measure invariant under shift', pkg=pkg, o=o, history=hist + [si], got=g)
                ctx.step(2)
                ctx.state('sh', pkg, w)
                if len(ctx.violations) > 8:
                    return
                rec(new, m2, hist + [si])
        rec(arr(obj), [[[val(t, f) for t in v] for v in s] for s in obj], [])
        ctx.trace()

    # measure is invariant under every operation about any centre
    def invariant(ctx, case):
        pkg, o, ci = case
        f = FIELD[pkg]
        od = mod(pkg, 'occupation_domain')
        A = arr([D.simplex(pkg, s) for s in o])
        want = obj_measure([D.simplex(pkg, s) for s in o], f).triple()
        cen = arr(SH[ci])
        n = 120 if pkg == 'ico2' else 24
        for i in range(n):
            B = od.symmetric_0(A, cen, i)
            g = od.volume(B)
            ctx.expect(tup(g) == want, 'measure invariant under a symmetry operation', pkg=pkg, o=o, c=ci, op=i, got=g)
            ctx.step()
            ctx.state('inv', pkg, o, ci, i)
            if len(ctx.violations) > 8:
                return
        g = od.volume(od.symmetric(A, cen))
        w = obj_measure([D.simplex(pkg, s) for s in o], f) * n
        ctx.expect(tup(g) == w.triple(), 'measure of the symmetric object', pkg=pkg, o=o, c=ci, got=g, want=w.triple())
        ctx.trace()

    # numerical areas of triangles given by three-dimensional coordinates, in any plane
    def plane3(ctx, case):
        pkg, i = case
        f, n = FIELD[pkg], mod(pkg, 'numericalc')
        C = [(0, 0, 1), (1, 0, 1), (-1, 1, 2)]
        pts = list(product(C, repeat=3))
        a = pts[i]
        for b, c in product(pts, repeat=2):
            P = [[val(x, f) for x in v] for v in (a, b, c)]
            cr = ref.cross(ref.vsub(P[1], P[0]), ref.vsub(P[2], P[0]))
            ar = float(ref.dot(cr, cr)) ** .5 / 2
            g = [n.triangle_area(arr([a, b, c])), n.triangle_area_numerical(np.array([[float(x) for x in v] for v in P]))]
            ctx.expect(all(abs(x - ar) < 1e-9 * (1 + ar) for x in g), 'numeric area of a triangle in space', pkg=pkg, triangle=(a, b, c), got=g, want=ar)
            ctx.step(2)
            ctx.state('p3', pkg, i, b, c)
            if len(ctx.violations) > 6:
                return
        ctx.trace()

    sm = {p: [combs[p][i:i + 20] for i in range(0, len(combs[p]), 20)] for p in PKGS}
    ks = list(range(-10, 11))
    ob = {p: [o for m in (1, 2, 3, 5) for o in objects(p, m)] for p in PKGS}
    return [
        mc.Suite('simplex', {'points': npt, 'simplices': {p: len(combs[p]) for p in PKGS}}, [(p, b) for p in PKGS for b in sm[p]], simplex_measure),
        mc.Suite('scaled', {'inflation exponent': '-10..10 (ico), -5..5 (dode)'}, [('ico2', k) for k in ks] + [('dode2', k) for k in ks if abs(k) <= 5], scaled),
        mc.Suite('additive', {'objects': {p: len(ob[p]) for p in PKGS}}, [(p, o) for p in PKGS for o in ob[p]], additive, chunk=4),
        mc.Suite('plane3', 'every triangle over 27 points of space', [(p, i) for p in PKGS for i in range(27)], plane3),
        mc.Suite('shifts', {'shifts': len(SH), 'history': L}, [(p, o, s) for p in PKGS for o in (ob[p][0], objects(p, 2)[1]) for s in range(len(SH))], shifts),
        mc.Suite('invariant', {'operations': 'all'}, [(p, objects(p, 1 + i % 2)[i], c) for p in PKGS for i in range(12 if big else 5) for c in (0, 2)], invariant),
    ]
