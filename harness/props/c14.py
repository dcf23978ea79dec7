"""C14  Faces, edges, adjacency and merging of simplices."""
from collections import Counter

import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['face and edge sets are specified for conforming complexes (simplices meet in whole common faces), as the code documents']


def keyset(a, f):
    return frozenset(pkey(v, f) for v in a)


def suites(tier):
    big = tier == 'thorough'
    out = []

    def faces(o, f, k):
        return [frozenset(pkey(s[i], f) for i in c) for s in o for c in combinations(range(len(s)), k)]

    def run(ctx, pkg, o, tag, verbose=0):
        f, u, k = FIELD[pkg], mod(pkg, 'utils'), SIMPLEX[pkg]
        a = arr(o)
        ed = Counter(faces(o, f, 2))
        g = u.generator_all_edges(a)
        ok = is_triple_array(g) and g.ndim == 4 and g.shape[1:] == (2, 6, 3) and Counter(keyset(e, f) for e in g) == ed
        ctx.expect(ok, 'all edges', pkg=pkg, o=tag, got=g)
        g = u.generator_unique_edges(a)
        ok = is_triple_array(g) and g.ndim == 4 and g.shape[1:] == (2, 6, 3) and Counter(keyset(e, f) for e in g) == Counter({e: 1 for e in ed})
        ctx.expect(ok, 'each distinct edge once', pkg=pkg, o=tag, got=g)
        allv = {vkey(v, f) for s in o for v in s}
        if ok:
            ctx.expect({vkey(v, f) for e in g for v in e} <= allv, 'edges end at given corners', pkg=pkg, o=tag)
            g2 = u.generator_unique_edges(np.vstack([g, g[:, ::-1]]))
            ctx.expect(Counter(keyset(e, f) for e in g2) == Counter({e: 1 for e in ed}), 'each distinct edge of a set of edges once', pkg=pkg, o=tag, got=g2)
        ctx.step(3)
        if pkg == 'ico2':
            fc = Counter(faces(o, f, 3))
            g = u.generator_unique_triangles(a)
            ok = is_triple_array(g) and g.ndim == 4 and g.shape[1:] == (3, 6, 3) and Counter(keyset(e, f) for e in g) == Counter({e: 1 for e in fc})
            ctx.expect(ok, 'each distinct facet once', pkg=pkg, o=tag, got=g)
            g = u.generator_surface_1(a) if not verbose else u.generator_surface_1(a, verbose)
            want = Counter({e: 1 for e, n in fc.items() if n == 1})
            ok = is_triple_array(g) and g.ndim == 4 and g.shape[1:] == (3, 6, 3) and Counter(keyset(e, f) for e in g) == want
            ctx.expect(ok, 'the surface is the set of facets that belong to one simplex only', pkg=pkg, o=tag, got=None if g is None else len(g), want=len(want))
            if ok:
                # closed surface: every edge on an even number of surface triangles; edges of the surface
                ec = Counter()
                for t in g:
                    for e in combinations([pkey(v, f) for v in t], 2):
                        ec[frozenset(e)] += 1
                ctx.expect(all(n % 2 == 0 for n in ec.values()), 'the surface is closed', pkg=pkg, o=tag)
                g3 = u.generator_unique_edges(g)
                ctx.expect(Counter(keyset(e, f) for e in g3) == Counter({e: 1 for e in ec}), 'each edge of the surface once', pkg=pkg, o=tag)
            ctx.step(3)
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', pkg=pkg, o=tag)

    COMP = {p: D.complexes(p) for p in PKGS}

    def subs(ctx, case):
        pkg, ci, mode = case
        name, comp = COMP[pkg][ci]
        n = len(comp)
        for k in range(1, n + 1):
            for sub in combinations(range(n), k):
                o = D.renamed(pkg, [comp[i] for i in sub], mode)
                if (len(sub) + mode) % 2:
                    o = [s[::-1] for s in o]
                run(ctx, pkg, o, '%s%s mode %d' % (name, sub, mode), verbose=(1 if k == 2 else 0))
                ctx.state(pkg, name, sub, mode)
                ctx.outcome('%s %d simplices' % (pkg, k))
                if len(ctx.violations) > 6:
                    return
        ctx.trace()
        ctx.note(pkg=pkg, complex=name, mode=mode)
    modes = range(6 if big else 4)
    out.append(mc.Suite('subcomplexes', 'every subset of the simplices of the reference complexes x renamings of corners', [(p, c, m) for p in PKGS for c in range(len(COMP[p])) for m in modes], subs))

    LARGE = {p: D.large(p) for p in PKGS}

    def large(ctx, case):
        pkg, i, mode = case
        name, o, _ = LARGE[pkg][i]
        o = D.renamed(pkg, o, mode)
        if mode:
            o = o[::-1]
        run(ctx, pkg, o, name)
        ctx.state('L', pkg, name, mode)
        ctx.trace()
        ctx.note(pkg=pkg, name=name, simplices=len(o))
    out.append(mc.Suite('large', 'complexes of 12 to 54 simplices', [(p, i, m) for p in PKGS for i in range(len(LARGE[p])) for m in range(4 if big else 2) if big or 'far' not in LARGE[p][i][0]], large))

    # single simplices: faces in full
    def single(ctx, case):
        pkg, c = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        s = D.simplex(pkg, c)
        for perm in list(permutations(range(len(s))))[::5]:
            t = [s[i] for i in perm]
            run(ctx, pkg, [t], '%s' % (c,))
            g = u.get_triangle_edge(arr(t[:3]))
            ctx.expect(is_triple_array(g, (3, 2, 6, 3)) and {keyset(e, f) for e in g} == {keyset(e, f) for e in combinations(t[:3], 2)}, 'edges of a triangle', pkg=pkg, c=c, got=g)
            if pkg == 'ico2':
                g = u.get_tetrahedron_edge(arr(t))
                ctx.expect(is_triple_array(g, (6, 2, 6, 3)) and {keyset(e, f) for e in g} == {keyset(e, f) for e in combinations(t, 2)}, 'edges of a tetrahedron', c=c, got=g)
                g = u.get_tetrahedron_surface(arr(t))
                ctx.expect(is_triple_array(g, (4, 3, 6, 3)) and {keyset(e, f) for e in g} == {keyset(e, f) for e in combinations(t, 3)}, 'facets of a tetrahedron', c=c, got=g)
                ctx.step(2)
            ctx.step()
            ctx.state('s', pkg, c, perm)
        ctx.trace()
    out.append(mc.Suite('single', 'every simplex over 8 points in several corner orders', [(p, c) for p in PKGS for c in D.simplices(p, 8)], single))

    # pairs: connectivity, common face, merging
    def pair(ctx, case):
        pkg, c = case
        f, u, k = FIELD[pkg], mod(pkg, 'utils'), SIMPLEX[pkg]
        conn = u.check_connectivity_tetrahedra if pkg == 'ico2' else u.check_connectivity_triangles
        comm = u.get_common_triangle_in_two_tetrahedra if pkg == 'ico2' else u.get_common_edge_in_two_triangles
        merge = u.merge_two_tetrahedra if pkg == 'ico2' else u.merge_two_triangles
        s = D.simplex(pkg, c)
        S = [ref.perp(v, f) for v in s]
        for d in ALL[pkg]:
            t = D.simplex(pkg, d)
            T = [ref.perp(v, f) for v in t]
            common = set(c) & set(d)
            for form in (0, 1):
                x = arr(s[::-1] if form else s)
                y = arr([D.alias(pkg, v, i) if form else v for i, v in enumerate(t)])
                want = len(common) == k - 1
                r = conn(x, y)
                ctx.expect(bool(r) == want, 'two simplices share a facet', pkg=pkg, c=c, d=d, form=form, got=r, want=want)
                if want:
                    g = comm(x, y)
                    ok = is_triple_array(g, (k - 1, 6, 3)) and keyset(g, f) == keyset([D.POINTS[pkg][i] for i in common], f)
                    ctx.expect(ok, 'the facet two simplices share', pkg=pkg, c=c, d=d, form=form, got=g)
                    ctx.step()
                ctx.step()
            t2 = [D.alias(pkg, v, i) for i, v in enumerate(t)]
            if len(common) != k - 1:
                g = merge(arr(s), arr(t))
                ctx.expect(g is None, 'simplices that do not share a facet do not merge', pkg=pkg, c=c, d=d, got=g)
                ctx.step()
            elif separated(S, T, f):
                # exact: mergeable iff a common corner lies on the segment between the two apices
                pa = ref.perp(D.POINTS[pkg][(set(c) - common).pop()], f)
                pb = ref.perp(D.POINTS[pkg][(set(d) - common).pop()], f)
                on = [i for i in common if ref.on_segment(ref.perp(D.POINTS[pkg][i], f), pa, pb)]
                for form, (x, y) in enumerate(((s, t), (t[::-1], s[1:] + s[:1]), (s, t2), (t2, s[::-1]))):
                    g = merge(arr(x), arr(y))
                    if not on:
                        ctx.expect(g is None, 'simplices whose union is no simplex do not merge', pkg=pkg, c=c, d=d, form=form, got=g)
                    else:
                        want = [i for i in set(c) | set(d) if i != on[0]]
                        ok = is_triple_array(g, (k, 6, 3)) and keyset(g, f) == keyset([D.POINTS[pkg][i] for i in want], f)
                        ctx.expect(ok, 'two simplices whose union is a simplex merge into it', pkg=pkg, c=c, d=d, form=form, got=g)
                        ctx.outcome('%s merged' % pkg)
                    ctx.step()
            ctx.state('p', pkg, c, d)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
    NA = {'ico2': 11 if big else 9, 'dode2': 11 if big else 9}
    ALL = {p: D.simplices(p, NA[p]) for p in PKGS}
    out.append(mc.Suite('pairs', 'every ordered pair of simplices over %r points' % NA, [(p, c) for p in PKGS for c in ALL[p]], pair, chunk=2))

    # segments joined end to end, coplanar triangles
    def segs(ctx, case):
        pkg, i, j = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        P = EXT[pkg]
        E = [ref.perp(v, f) for v in P]
        for k, l in combinations(range(len(P)), 2):
            if E[k] == E[l]:
                continue
            for form in range(4):
                a = [P[i], P[j]] if form & 1 else [P[j], P[i]]
                b = [P[k], P[l]] if form & 2 else [P[l], P[k]]
                g = u.two_segment_into_one(arr(a), arr(b))
                sh = [(p, q) for p in (i, j) for q in (k, l) if E[p] == E[q]]
                want = None
                if len(sh) == 1:
                    p, q = sh[0]
                    x, y = (j if p == i else i), (l if q == k else k)
                    if ref.on_segment(E[p], E[x], E[y]):
                        want = {pkey(P[x], f), pkey(P[y], f)}
                if len(sh) == 2:
                    continue
                if want is None:
                    ctx.expect(g is None, 'segments that are not end to end on a line stay apart', pkg=pkg, a=a, b=b, got=g)
                else:
                    ctx.expect(is_triple_array(g, (2, 6, 3)) and keyset(g, f) == want, 'two segments end to end on a line become one', pkg=pkg, a=a, b=b, got=g)
                    ctx.outcome('joined')
                ctx.step()
            ctx.state('j', pkg, i, j, k, l)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
    EXT = {p: D.POINTS[p][:10] + [D.scalev(D.POINTS[p][5], Q(F(1, 2), F(0), FIELD[p]), FIELD[p]), D.alias(p, D.POINTS[p][0], 1), D.alias(p, D.POINTS[p][8], 2)] for p in PKGS}
    sc = []
    for p in PKGS:
        E = [ref.perp(v, FIELD[p]) for v in EXT[p]]
        sc += [(p, i, j) for i, j in combinations(range(len(EXT[p])), 2) if E[i] != E[j]]
    out.append(mc.Suite('segments', 'every pair of segments over 13 points', sc, segs, chunk=2))

    def cop(ctx, case):
        pkg, c = case
        f, u = FIELD[pkg], mod(pkg, 'utils')
        P = D.POINTS[pkg]
        a = [P[i] for i in c]
        for d in TR[pkg]:
            b = [P[i] for i in d]
            want = ref.coplanar([ref.perp(v, f) for v in a + b])
            for taken, r, exc in choice.explore(lambda: u.coplanar_check_two_triangles(arr(a), arr(b)), 1, limit=30 if big else 6):
                ctx.expect(exc is None and r is not None and bool(r) == want, 'coplanar triangles', pkg=pkg, a=c, b=d, picks=taken, got=r, want=want)
                ctx.step()
                ctx.state('cp', pkg, c, d, taken)
            ctx.outcome('coplanar=%s' % want)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
    TR = {}
    for p in ['ico2']:
        TR[p] = [c for c in combinations(range(9 if big else 8), 3) if not ref.collinear(*[ref.perp(D.POINTS[p][i], FIELD[p]) for i in c])]
    out.append(mc.Suite('coplanar_triangles', 'every pair of triangles over 8 points under deviating random picks', [(p, c) for p in TR for c in TR[p]], cop))
    return out
