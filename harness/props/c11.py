"""C11  Two simplices: containment class and common part."""
import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['simplices that touch without common interior may be classed as intersecting or not; their common part must then be empty']


def pools(pkg, big):
    """named simplices: every one over the first points of the alphabet, plus a large and a small one, a translated one
    and one with renamed corners"""
    f = FIELD[pkg]
    n = {'ico2': 10 if big else 8, 'dode2': 12 if big else 9}[pkg]
    S = [D.simplex(pkg, c) for c in D.simplices(pkg, n)]
    base = S[0]
    cen = base[0]
    for v in base[1:]:
        cen = D.addv(cen, v, f)
    cen = D.scalev(cen, Q(F(1, len(base)), F(0), f), f)
    for w in (F(-9), F(1, 4), F(-1, 3)):
        S.append([D.addv(cen, D.scalev(D.addv(v, D.scalev(cen, -1, f), f), Q(w, F(0), f), f), f) for v in base])
    S.append([D.addv(v, D.POINTS[pkg][5], f) for v in base])
    S.append([D.addv(v, D.scalev(D.POINTS[pkg][5], 7, f), f) for v in base])
    S.append([D.alias(pkg, v, i) for i, v in enumerate(base)])
    S.append([D.alias(pkg, v, i + 1) for i, v in enumerate(S[len(S) // 2])])
    return S


def suites(tier):
    big = tier == 'thorough'
    out = []
    POOL = {p: pools(p, big) for p in PKGS}

    def pair(ctx, case):
        pkg, i = case
        f, it, k = FIELD[pkg], mod(pkg, 'intsct'), SIMPLEX[pkg]
        cls = it.check_intersection_two_tetrahedron_4 if pkg == 'ico2' else it.check_intersection_two_triangles
        fn = it.intersection_two_tetrahedron_4 if pkg == 'ico2' else it.intersection_two_triangles
        S = POOL[pkg]
        a = S[i]
        A = [ref.perp(v, f) for v in a]
        for j, b in enumerate(S):
            B = [ref.perp(v, f) for v in b]
            m = pair_measure(A, B, f)
            ab = all(in_simplex(p, B, f) >= 0 for p in A)
            ba = all(in_simplex(p, A, f) >= 0 for p in B)
            x, y = arr(a), arr(b if (i + j) % 2 else b[::-1])
            kx, ky = x.copy(), y.copy()
            r = cls(x, y)
            if ab:
                ok = r == 1
            elif ba:
                ok = r == 2
            elif not m.iszero():
                ok = r == 3
            else:
                ok = r in (0, 3)
            ctx.expect(ok, 'containment class of two simplices', pkg=pkg, a=a, b=b, got=r, inside=[ab, ba], common=m.triple())
            g = fn(x, y)
            check_region(ctx, g, m, lambda s: all(in_simplex(p, A, f) >= 0 and in_simplex(p, B, f) >= 0 for p in s), f, k,
                         'common part of two simplices', pkg=pkg, a=a, b=b)
            ctx.expect(np.array_equal(x, kx) and np.array_equal(y, ky), 'arguments unchanged', pkg=pkg, a=a, b=b)
            ctx.step(2)
            ctx.state(pkg, i, j)
            ctx.outcome('%s %s' % (pkg, '1 in 2' if ab else '2 in 1' if ba else 'overlap' if not m.iszero() else 'apart or touching'))
            if len(ctx.violations) > 8:
                return
        ctx.trace(len(S))
        ctx.note(pkg=pkg, simplex=i, partners=len(S))
    out.append(mc.Suite('pairs', 'every ordered pair of simplices over the point alphabets (%s), plus scaled, shifted and renamed ones' % {p: len(POOL[p]) for p in PKGS},
                        [(p, i) for p in PKGS for i in range(len(POOL[p]))], pair))

    # random picks inside: every single and double deviation
    def rnd(ctx, case):
        pkg, i = case
        f, it, k = FIELD[pkg], mod(pkg, 'intsct'), SIMPLEX[pkg]
        fn = it.intersection_two_tetrahedron_4 if pkg == 'ico2' else it.intersection_two_triangles
        S = POOL[pkg]
        A = [ref.perp(v, f) for v in S[i]]
        for j in range(i + 1, min(len(S), i + (12 if big else 5))):
            B = [ref.perp(v, f) for v in S[j]]
            m = pair_measure(A, B, f)
            for taken, g, exc in choice.explore(lambda: fn(arr(S[i]), arr(S[j])), 1, limit=400 if big else 60):
                if exc is not None:
                    ctx.fail('common part raised %r' % exc, pkg=pkg, i=i, j=j, picks=taken)
                else:
                    check_region(ctx, g, m, lambda s: all(in_simplex(p, A, f) >= 0 and in_simplex(p, B, f) >= 0 for p in s), f, k,
                                 'common part under every random pick', disjoint=False, pkg=pkg, i=i, j=j, picks=taken)
                ctx.step()
                ctx.state('r', pkg, i, j, taken)
                if len(ctx.violations) > 4:
                    return
            ctx.trace()
    out.append(mc.Suite('random_picks', 'pairs of simplices under every deviating random pick', [('ico2', i) for i in range(0, len(POOL['ico2']), 1 if big else 2)], rnd))
    return out
