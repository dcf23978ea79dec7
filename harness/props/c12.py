"""C12  Common part of two occupation domains (general routine)."""
import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['each operand is a set of simplices with disjoint interiors, as the library requires of occupation domains']


def inter(pkg, a, b, kind=None, verbose=None):
    tw = mod(pkg, 'two_occupation_domains')
    kw = {}
    if kind is not None:
        kw['kind' if pkg == 'ico2' else 'select'] = kind
    if verbose is not None:
        kw['verbose'] = verbose
    return tw.intersection(a, b, **kw)


def suites(tier):
    big = tier == 'thorough'
    out = []
    N = {'ico2': 7 if big else 6, 'dode2': 7 if big else 6}
    OBJ = {p: D.objects(p, N[p]) for p in PKGS}
    PERP = {p: [obj_perp(o[1], FIELD[p]) for o in OBJ[p]] for p in PKGS}

    def pair(ctx, case):
        pkg, i, part = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        O = OBJ[pkg]
        a = O[i][1]
        A = PERP[pkg][i]
        kinds = [None, 'standard', 'simple']
        for j in range(part, len(O), PARTS):
            b, B = O[j][1], PERP[pkg][j]
            m = Q(F(0), F(0), f)
            for s in A:
                for t in B:
                    if not separated(s, t, f):
                        m = m + pair_measure(s, t, f)
            kk = kinds if big else [kinds[(i + j) % 3]]
            for kind in kk:
                x, y = arr(a), arr(b)
                g = inter(pkg, x, y, kind)
                check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k,
                             'common part of two objects', disjoint=(g is not None and len(g) <= 14), pkg=pkg, a=O[i][0], b=O[j][0], kind=kind)
                ctx.expect(np.array_equal(x, arr(a)) and np.array_equal(y, arr(b)), 'operands unchanged', pkg=pkg, a=O[i][0], b=O[j][0])
                ctx.step()
                ctx.state(pkg, i, j, kind)
            ctx.outcome('%s %s' % (pkg, 'apart' if m.iszero() else 'common'))
            if len(ctx.violations) > 8:
                return
            ctx.trace()
        ctx.note(pkg=pkg, a=O[i][0])
    PARTS = 4
    cases = [(p, i, q) for p in PKGS for i in range(len(OBJ[p])) for q in range(PARTS)]
    if not big:
        cases = [c for c in cases if c[0] == 'dode2' and (c[1] + c[2]) % 4 == 0 or c[0] == 'ico2' and (c[1] + c[2]) % 2 == 0 or c[1] >= len(OBJ[c[0]]) - 11]
    out.append(mc.Suite('object_pairs', 'ordered pairs of objects of 1 or 2 simplices over %s points, subdivided ones, boxes, separated parts: %s objects; every kind' % (
        N, {p: len(OBJ[p]) for p in PKGS}), cases, pair))

    # objects of many simplices and corners, against simplices at every part of them
    LARGE = {p: D.large(p) for p in PKGS}

    def large(ctx, case):
        pkg, i, j, swap = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        name, a, _ = LARGE[pkg][i]
        A = obj_perp(a, f)
        s = a[(j * (len(a) - 1)) // 8]
        b = [D.scaled(s, F(3, 2) if j % 4 else F(1, 3), f)]
        if j % 2:
            b += D.shifted([D.scaled(a[0], F(1, 2), f)], D.scalev(D.POINTS[pkg][9], 20, f), f)
        B = obj_perp(b, f)
        m = Q(F(0), F(0), f)
        for s in A:
            for t in B:
                if not separated(s, t, f):
                    m = m + pair_measure(s, t, f)
        g = inter(pkg, arr(b), arr(a)) if swap else inter(pkg, arr(a), arr(b))
        check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k, 'common part with a large object', disjoint=False, pkg=pkg, a=name, part=j, swap=swap)
        ctx.step()
        ctx.state('L', pkg, i, j, swap)
        ctx.trace()
        ctx.note(pkg=pkg, a=name, simplices=len(a))
    out.insert(0, mc.Suite('large_objects', 'objects of 12 to 54 simplices x a simplex over each eighth of them',
                           [(p, i, j, w) for p in PKGS for i in range(len(LARGE[p])) for j in range(9) if 'far' not in LARGE[p][i][0] or j in (0, 8) for w in ((0, 1) if big or j == 8 else (j // 2 % 2,))], large))

    # order of the simplices, of their corners and renamed corners do not change the region; printing does not either
    def forms(ctx, case):
        pkg, i, j = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        O = OBJ[pkg]
        A, B = PERP[pkg][i], PERP[pkg][j]
        m = Q(F(0), F(0), f)
        for s in A:
            for t in B:
                m = m + pair_measure(s, t, f)
        a, b = O[i][1], O[j][1]
        V1 = [(a, b, {}), (a[::-1], b[::-1], {}), ([s[::-1] for s in a], [s[1:] + s[:1] for s in b], {}),
              ([[D.alias(pkg, v, n) for n, v in enumerate(s)] for s in a], b, {}),
              (a, [[D.unreduced(v, 2) for v in s] for s in b], {}),
              (a, b, {'verbose': 1}), (a, b, {'verbose': 2}), (a, b, {'kind': 'simple', 'verbose': 1})]
        for n, (x, y, kw) in enumerate(V1):
            g = inter(pkg, arr(x), arr(y), **kw)
            check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k, 'common part of two objects in another form',
                         disjoint=False, pkg=pkg, a=O[i][0], b=O[j][0], form=n)
            ctx.step()
            ctx.state('f', pkg, i, j, n)
        ctx.trace()
    sel = {}
    for p in PKGS:
        n = len(OBJ[p])
        ix = list(range(0, n - 11, max(1, (n - 11) // (10 if big else 5)))) + list(range(n - 11, n - 4))
        sel[p] = [(p, i, j) for i in ix for j in ix[::2] if len(OBJ[p][i][1]) * len(OBJ[p][j][1]) <= 24]
    out.append(mc.Suite('object_forms', 'reordered, renamed, unreduced operands and every verbosity', [c for p in PKGS for c in sel[p]], forms))

    # random picks
    def rnd(ctx, case):
        pkg, i, j = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        O = OBJ[pkg]
        A, B = PERP[pkg][i], PERP[pkg][j]
        m = Q(F(0), F(0), f)
        for s in A:
            for t in B:
                m = m + pair_measure(s, t, f)
        for taken, g, exc in choice.explore(lambda: inter(pkg, arr(O[i][1]), arr(O[j][1])), 1, limit=200 if big else 25):
            if exc is not None:
                ctx.fail('common part raised %r' % exc, pkg=pkg, a=O[i][0], b=O[j][0], picks=taken)
            else:
                check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, B, f), f, k, 'common part under every random pick',
                             disjoint=False, pkg=pkg, a=O[i][0], b=O[j][0], picks=taken)
            ctx.step()
            ctx.state('r', pkg, i, j, taken)
            if len(ctx.violations) > 4:
                return
        ctx.trace()
    ix = list(range(len(OBJ['ico2']) - 11, len(OBJ['ico2']) - 2)) + [0, 3]
    out.append(mc.Suite('object_random_picks', 'object pairs under every deviating random pick', [('ico2', i, j) for i, j in combinations(ix, 2) if big or (i + j) % 2], rnd))

    # wrong shapes are refused, histories: intersect results again
    def chain(ctx, case):
        pkg, t = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        O = OBJ[pkg]
        n = len(O)
        ops = [n - 11, n - 2, n - 1, n - 8, 0, 3]
        for u in permutations(ops, 2):
            seq = (ops[t],) + u
            cur = arr(O[seq[0]][1])
            for st in seq[1:]:
                B = PERP[pkg][st]
                C = obj_perp(cur, f)
                m = Q(F(0), F(0), f)
                for s in C:
                    for q in B:
                        if not separated(s, q, f):
                            m = m + pair_measure(s, q, f)
                g = inter(pkg, cur, arr(O[st][1]))
                check_region(ctx, g, m, lambda s: covered(s, B, f) and covered(s, C, f), f, k, 'common part of a common part', disjoint=False, pkg=pkg,
                             seq=[O[x][0] for x in seq])
                ctx.step()
                if g is None or len(ctx.violations):
                    break
                cur = g
            ctx.state('c', pkg, seq)
            ctx.trace()
        x = arr(O[0][1])
        for bad in (x[0], x[0][0]):
            for p, q in ((bad, x), (x, bad), (bad, bad)):
                for vb in (0, 1):
                    g = inter(pkg, p, q, verbose=vb)
                    ctx.expect(g is None, 'operands that are not sets of simplices give nothing', pkg=pkg, got=g)
                    ctx.step()
    out.append(mc.Suite('histories', 'every chain of two intersections among 6 objects; malformed operands', [(p, t) for p in PKGS for t in range(6)], chain))
    return out
