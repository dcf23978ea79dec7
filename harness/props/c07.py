"""C07  Point sets: deduplication and equivalence by exact position."""
from collections import Counter

import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['exact-coordinate deduplication is specified on reduced triples; deduplication by internal position on any triples']


def suites(tier):
    big = tier == 'thorough'

    def alpha(pkg):
        P = D.POINTS[pkg]
        # close neighbours too: a deflated vector, far below any tolerance one might use in a sloppy comparison
        f = FIELD[pkg]
        t = Q(F(0), F(1), f) if pkg == 'ico2' else Q(F(2), F(2), f)
        s = Q(F(1), F(0), f)
        for _ in range(34 if pkg == 'ico2' else 13):
            s = s / t
        # the deflation acts on both spaces; multiply by the conjugate-small number, not a lattice map
        near = D.addv(P[4], D.scalev(P[5], s, f), f)
        return [P[0], P[4], P[5], D.alias(pkg, P[4], 0), near, D.alias(pkg, P[0], 1), P[7]] + ([P[1], D.alias(pkg, P[5], 2)] if big else [])

    A = {p: alpha(p) for p in PKGS}
    L = 4

    def keys(pkg, seq):
        return [pkey(A[pkg][i], FIELD[pkg]) for i in seq]

    def dedup(ctx, case):
        pkg, head = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        n = len(A[pkg])
        K = [pkey(v, f) for v in A[pkg]]
        W = [vkey(v, f) for v in A[pkg]]
        for ln in range(1, L + 1):
            for tail in product(range(n), repeat=ln - 1):
                seq = (head,) + tail
                a = arr([A[pkg][i] for i in seq])
                forms = [a]
                if ln == 4:
                    forms += [a.reshape(2, 2, 6, 3)]
                if ln in (1, 3, 4):
                    forms += [a.reshape(1, ln, 6, 3)]
                for x in forms:
                    keep = x.copy()
                    g = u.remove_doubling(x)
                    ok = is_triple_array(g) and g.ndim == 3
                    ctx.expect(ok and Counter(tup(g)) == Counter({W[i]: 1 for i in set(seq)}), 'each distinct vector exactly once',
                               pkg=pkg, seq=seq, shape=x.shape, got=g)
                    g = u.remove_doubling_in_perp_space(x)
                    ok = is_triple_array(g) and g.ndim == 3
                    if ok:
                        gk = [pkey(v, f) for v in g]
                        ok = len(set(gk)) == len(gk) and set(gk) == {K[i] for i in seq} and set(tup(g)) <= {W[i] for i in seq}
                    ctx.expect(ok, 'one of the given vectors for each distinct internal position', pkg=pkg, seq=seq, shape=x.shape, got=g)
                    ctx.expect(np.array_equal(x, keep), 'argument unchanged', pkg=pkg, seq=seq)
                    ctx.step(2)
                ctx.state(pkg, seq)
                if len(ctx.violations) > 8:
                    return
        ctx.trace()
        ctx.note(pkg=pkg, head=head)

    # unreduced triples: internal positions are still recognised
    def unred(ctx, case):
        pkg, i, j = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        for k in (1, -1, 2, -3):
            for l in (1, -1, 5):
                a = arr([D.unreduced(A[pkg][i], k), D.unreduced(A[pkg][j], l), A[pkg][i]])
                g = u.remove_doubling_in_perp_space(a)
                want = {pkey(A[pkg][i], f), pkey(A[pkg][j], f)}
                ok = is_triple_array(g) and g.ndim == 3 and len(g) == len(want) and {pkey(v, f) for v in g} == want
                ctx.expect(ok, 'internal positions of unreduced vectors', pkg=pkg, i=i, j=j, k=k, l=l, got=g)
                same = u.equivalent_vertices(a[0], a[1])
                ctx.expect(bool(same) == (len(want) == 1), 'equivalence of unreduced vertices', pkg=pkg, i=i, j=j, k=k, l=l, got=same)
                ctx.step(2)
                ctx.state('u', pkg, i, j, k, l)
        ctx.trace()

    # equivalence of vertices, edges, triangles, tetrahedra: all pairs of (ordered) tuples of distinct points
    def equiv(ctx, case):
        pkg, k, blk = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        n = len(A[pkg])
        K = [pkey(v, f) for v in A[pkg]]
        tuples = [c for c in combinations(range(n), k) if len({K[i] for i in c}) == k]
        fn = {1: None, 2: u.equivalent_edges, 3: u.equivalent_triangles, 4: getattr(u, 'equivalent_tetrahedra', None)}[k]
        for ci in blk:
            if ci >= len(tuples):
                continue
            c = tuples[ci]
            for d in tuples:
                for dd in ([d, d[::-1]] if k < 4 else [d, d[2:] + d[:2]]):
                    want = {K[i] for i in c} == {K[i] for i in dd}
                    a, b = arr([A[pkg][i] for i in c]), arr([A[pkg][i] for i in dd])
                    res = []
                    if k == 1:
                        res.append(u.equivalent_vertices(a[0], b[0]))
                        res.append(u.equivalent(a[0], b[0]))
                    else:
                        if fn is not None:
                            res.append(fn(a, b))
                        res.append(u.equivalent(a, b))
                        res.append(u.equivalent(a.reshape((1,) + a.shape), b.reshape((1,) + b.shape)))
                    for r in res:
                        ctx.expect(r is not None and bool(r) == want, 'equivalence by internal positions', pkg=pkg, a=c, b=dd, got=r, want=want)
                        ctx.step()
                    ctx.state('q', pkg, k, c, dd)
                    ctx.outcome('%d-point %s' % (k, want))
            if len(ctx.violations) > 8:
                return
        # different numbers of points are never equivalent
        if k >= 3 and blk:
            c = tuples[blk[0] % len(tuples)]
            a = arr([A[pkg][i] for i in c])
            for sub in combinations(range(k), k - 1):
                r = u.equivalent(a, a[list(sub)])
                r2 = u.equivalent(a[list(sub)], a)
                ctx.expect(not r and not r2, 'sets of different size are not equivalent', pkg=pkg, a=c, got=[r, r2])
                ctx.step(2)
        ctx.trace()

    # removal of vectors
    def removal(ctx, case):
        pkg, head = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        n = len(A[pkg])
        W = [vkey(v, f) for v in A[pkg]]
        for ln in range(0, 3):
            for tail in product(range(n), repeat=ln):
                seq = (head,) + tail
                a = arr([A[pkg][i] for i in seq])
                for j in range(n):
                    g = u.remove_vector(a, arr(A[pkg][j]))
                    want = tuple(W[i] for i in seq if W[i] != W[j])
                    ctx.expect(is_triple_array(g) and tuple(tup(v) for v in g) == want, 'remove one vector from a set', pkg=pkg, seq=seq, j=j, got=g)
                    ctx.step()
                for m in (1, 2):
                    for rem in combinations(range(n), m):
                        g = u.remove_vectors(a, arr([A[pkg][i] for i in rem]))
                        want = tuple(W[i] for i in seq if W[i] not in [W[r] for r in rem])
                        ctx.expect(is_triple_array(g) and tuple(tup(v) for v in g) == want, 'remove vectors from a set', pkg=pkg, seq=seq, rem=rem, got=g)
                        ctx.step()
                        ctx.state('r', pkg, seq, rem)
                if len(ctx.violations) > 8:
                    return
        ctx.trace()

    def order(ctx, case):
        pkg, head = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        B = A[pkg] + D.POINTS[pkg][8:11]
        n = len(B)
        K = [ref.perp(v, f) for v in B]
        for tail in product(range(n), repeat=2):
            for seq in ((head,) + tail, (head,) + tail + (head,), (head, tail[0])):
                a = arr([B[i] for i in seq])
                g = u.sort_vctors(a)
                ok = is_triple_array(g, a.shape) and Counter(tup(g)) == Counter(vkey(B[i], f) for i in seq)
                if ok:
                    xs = [float(ref.perp(v, f)[0]) for v in g]
                    ok = all(xs[i] <= xs[i + 1] + 1e-9 for i in range(len(xs) - 1))
                ctx.expect(ok, 'sorting by the first internal coordinate', pkg=pkg, seq=seq, got=g)
                ctx.step()
                ctx.state('o', pkg, seq)
            g = u.middle_position(arr(B[head]), arr(B[tail[0]]))
            want = tuple(((val(x, f) + val(y, f)) * F(1, 2)).triple() for x, y in zip(B[head], B[tail[0]]))
            ctx.expect(is_triple_array(g, (6, 3)) and tup(g) == want, 'middle position', pkg=pkg, a=head, b=tail[0], got=g)
            ctx.step()
            if len(ctx.violations) > 8:
                return
        ctx.trace()

    n = len(A['ico2'])
    return [
        mc.Suite('dedup', {'points': n, 'max_length': L}, [(p, h) for p in PKGS for h in range(n)], dedup),
        mc.Suite('unreduced', {'factors': [1, -1, 2, -3, 5]}, [(p, i, j) for p in PKGS for i in range(n) for j in range(n)], unred),
        mc.Suite('equiv', {'sizes': [1, 2, 3, 4]}, [(p, k, list(range(b, b + 6))) for p in PKGS for k in ((1, 2, 3, 4) if p == 'ico2' else (1, 2, 3))
                                                       for b in range(0, 90, 6)], equiv),
        mc.Suite('removal', {'set': 3, 'removed': 2}, [(p, h) for p in PKGS for h in range(n)], removal),
        mc.Suite('order', {'length': 4}, [(p, h) for p in PKGS for h in range(n + 3)], order),
    ]
