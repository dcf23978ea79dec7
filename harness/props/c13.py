"""C13  Common part of two convex occupation domains (fast routine) is the same region as the general one."""
import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['operands are convex and are conforming simplex complexes (simplices meet in whole common faces), as the routine requires']


def suites(tier):
    big = tier == 'thorough'
    out = []
    OBJ = {}
    for p in PKGS:
        f = FIELD[p]
        n = {'ico2': 8 if big else 7, 'dode2': 9 if big else 8}[p]
        O = [('%s' % (c,), [D.simplex(p, c)]) for c in D.simplices(p, n)]
        O += [(o[0], o[1]) for o in D.objects(p, 6) if o[2] and not o[0].startswith('(')]
        s = D.simplex(p, D.simplices(p, n)[3])
        O.append(('box shifted', D.shifted([x for x in dict((o[0], o[1]) for o in O)['box']], D.scalev(D.POINTS[p][7], Q(F(1, 2), F(0), f), f), f)))
        O.append(('renamed', [[D.alias(p, v, i) for i, v in enumerate(s)]]))
        OBJ[p] = O
    PERP = {p: [obj_perp(o[1], FIELD[p]) for o in OBJ[p]] for p in PKGS}

    def pair(ctx, case):
        pkg, i, part = case
        f, k, tw = FIELD[pkg], SIMPLEX[pkg], mod(pkg, 'two_occupation_domains')
        O = OBJ[pkg]
        A = PERP[pkg][i]
        for j in range(part, len(O), PARTS):
            B = PERP[pkg][j]
            m = Q(F(0), F(0), f)
            for s in A:
                for t in B:
                    if not separated(s, t, f):
                        m = m + pair_measure(s, t, f)
            x, y = arr(O[i][1]), arr(O[j][1])
            g = tw.intersection_convex(x, y) if (i + j) % 3 else tw.intersection_convex(x, y, verbose=1)
            check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k, 'common part of two convex objects', pkg=pkg, a=O[i][0], b=O[j][0])
            ctx.expect(np.array_equal(x, arr(O[i][1])) and np.array_equal(y, arr(O[j][1])), 'operands unchanged', pkg=pkg, a=O[i][0], b=O[j][0])
            ctx.step()
            ctx.state(pkg, i, j)
            ctx.outcome('%s %s' % (pkg, 'apart' if m.iszero() else 'common'))
            if len(ctx.violations) > 8:
                return
            ctx.trace()
        ctx.note(pkg=pkg, a=O[i][0])
    PARTS = 4
    out.append(mc.Suite('convex_pairs', 'every ordered pair of convex objects: %s' % {p: len(OBJ[p]) for p in PKGS},
                        [(p, i, q) for p in PKGS for i in range(len(OBJ[p])) for q in range(PARTS)], pair))

    LARGE = {p: [(n, o) for n, o, cv in D.large(p) if cv] for p in PKGS}

    def large(ctx, case):
        pkg, i, j, swap = case
        f, k, tw = FIELD[pkg], SIMPLEX[pkg], mod(pkg, 'two_occupation_domains')
        name, a = LARGE[pkg][i]
        A = obj_perp(a, f)
        if j < 8:
            b = [D.scaled(a[(j * (len(a) - 1)) // 7], F(3, 2) if j % 7 else F(1, 3), f)]
        elif j == 8:
            b = LARGE[pkg][(i + 1) % len(LARGE[pkg])][1]
        else:
            b = dict(OBJ[pkg])['box shifted']
        B = obj_perp(b, f)
        m = Q(F(0), F(0), f)
        for s in A:
            for t in B:
                if not separated(s, t, f):
                    m = m + pair_measure(s, t, f)
        x, y = (arr(b), arr(a)) if swap else (arr(a), arr(b))
        g = tw.intersection_convex(x, y)
        check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k, 'common part of two convex objects', disjoint=(g is None or len(g) < 20), pkg=pkg, a=name, part=j, swap=swap)
        ctx.step()
        ctx.state('L', pkg, i, j, swap)
        ctx.trace()
    out.append(mc.Suite('large_objects', 'convex objects of 12 to 54 simplices x simplices over each eighth of them, another large one, a shifted box; both orders',
                        [(p, i, j, w) for p in PKGS for i in range(len(LARGE[p])) for j in range(10) for w in ((0, 1) if big or j % 7 == 0 or j > 7 else (j % 2,))], large))

    def misc(ctx, case):
        pkg = case
        f, k, tw, it = FIELD[pkg], SIMPLEX[pkg], mod(pkg, 'two_occupation_domains'), mod(pkg, 'intsct')
        x = arr(OBJ[pkg][0][1])
        for bad in (x[0], x[0][0]):
            for p, q in ((bad, x), (x, bad), (bad, bad)):
                for vb in (0, 1):
                    g = tw.intersection_convex(p, q, verbose=vb)
                    ctx.expect(g is None, 'operands that are not sets of simplices give nothing', pkg=pkg, got=g)
                    ctx.step()
                    ctx.state('bad', pkg, p.ndim, q.ndim, vb)
        # bounding balls: radius and distance are what they say
        for i, o in enumerate(OBJ[pkg]):
            for c in D.POINTS[pkg][:5]:
                want = max(float(ref.dot(d, d)) for s in PERP[pkg][i] for v in s for d in [ref.vsub(v, ref.perp(c, f))]) ** 0.5
                for a in (arr(o[1]), arr(o[1][0])):
                    w = want if a.ndim == 4 else max(float(ref.dot(d, d)) for v in PERP[pkg][i][0] for d in [ref.vsub(v, ref.perp(c, f))]) ** 0.5
                    r = it.ball_radius_obj(a, arr(c))
                    ctx.expect(abs(r - w) < 1e-9, 'radius of the ball around an object', pkg=pkg, o=o[0], got=r, want=w)
                    ctx.step()
                r = it.distance_in_perp_space(arr(o[1][0][0]), arr(c))
                d = ref.vsub(PERP[pkg][i][0][0], ref.perp(c, f))
                ctx.expect(abs(r - float(ref.dot(d, d)) ** 0.5) < 1e-9, 'distance in perpendicular space', pkg=pkg, got=r)
                ctx.step()
        fn = it.rough_check_intersection_tetrahedron_obj if pkg == 'ico2' else it.rough_check_intersection_triangle_obj
        for i, o in enumerate(OBJ[pkg]):
            s = OBJ[pkg][i][1][0]
            A = PERP[pkg][i][0]
            for j, q in enumerate(OBJ[pkg]):
                if pair_measure(A, PERP[pkg][j][0], f).iszero():
                    continue
                b = arr(q[1][0]).reshape(1, k, 6, 3)
                c = mod(pkg, 'math1').centroid_obj(b)
                ctx.expect(bool(fn(arr(s), c, it.ball_radius_obj(b, c))), 'overlapping simplices pass the rough test', pkg=pkg, a=o[0], b=q[0])
                ctx.step()
                ctx.state('ball', pkg, i, j)
        ctx.trace()
    out.append(mc.Suite('convex_misc', 'malformed operands, bounding balls', PKGS, misc))
    return out
