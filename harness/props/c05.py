"""C05  Symmetric occupation domains are exactly the orbit of the asymmetric part."""
from collections import Counter

import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['the copies are compared as a multiset: their order is not part of the property']
CENS = [V(0, 0, 0, 0, 0, 0), V((1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2)),
        V(1, 0, 0, -1, 0, 0), V((0, 1, 3), -1, (2, -1, 5), 0, 1, (1, 1, 2))]


def suites(tier):
    big = tier == 'thorough'
    n = {'ico2': 7 if big else 6, 'dode2': 8 if big else 7}
    N = {'ico2': 120, 'dode2': 24}

    def objects(pkg):
        S = D.simplices(pkg, n[pkg])
        single = [(s,) for s in S]
        multi = [tuple(S[(i + j * 3) % len(S)] for j in range(m)) for i in range(0, len(S), 3 if big else 6) for m in (2, 3)]
        deg = [(c,) for c in D.simplices(pkg, n[pkg], True)[:2]]
        # the same simplex twice, with its corners in another order, and long objects
        rep = [(S[0], S[0]), (S[1], S[2], S[1]), (S[2], S[2][::-1]), (S[3], S[3][1:] + S[3][:1], S[3])]
        rep += [tuple(S[(2 * j) % len(S)] for j in range(m)) for m in ((5, 8, 12) if not big else (4, 5, 6, 8, 12, 20))]
        return single + multi + deg + rep

    def orbit(ctx, case):
        pkg, o, ci = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        od, sy = mod(pkg, 'occupation_domain'), mod(pkg, 'symmetry')
        c = CENS[ci]
        obj = [D.simplex(pkg, s) for s in o]
        A = arr(obj)
        G = D.group(pkg)
        tab = {}
        for s in o:
            for i in s:
                if i not in tab:
                    tab[i] = [D.act(g, D.POINTS[pkg][i], c, f) for g in G]
        want = Counter(tuple(tab[i][gi] for i in s) for gi in range(len(G)) for s in o)
        got = od.symmetric(A, arr(c))
        ok = is_triple_array(got, (N[pkg] * len(o), k, 6, 3))
        ctx.expect(ok, 'shape of the symmetric object', pkg=pkg, o=o, c=ci, got=getattr(got, 'shape', got))
        if ok:
            ctx.expect(Counter(tup(got)) == want, 'the symmetric object is the orbit of the object', pkg=pkg, o=o, c=ci)
        got2 = (sy.generator_obj_symmetric_tetrahedron if pkg == 'ico2' else sy.generator_obj_symmetric_triangle)(A, arr(c))
        ctx.expect(is_triple_array(got2) and Counter(tup(got2)) == want, 'orbit generator', pkg=pkg, o=o, c=ci)
        ctx.expect(np.array_equal(A, arr(obj)), 'argument unchanged', pkg=pkg)
        ctx.step(2)
        # one simplex given without the leading axis: a stack of its images
        got = od.symmetric(A[0], arr(c))
        w1 = Counter(tuple(tab[i][gi] for i in o[0]) for gi in range(len(G)))
        ctx.expect(is_triple_array(got, (N[pkg], k, 6, 3)) and Counter(tup(got)) == w1, 'orbit of one simplex', pkg=pkg, o=o, c=ci)
        ctx.step()
        ctx.state(pkg, o, ci)
        ctx.trace()
        ctx.note(pkg=pkg, object=o, centre=ci, copies=N[pkg])

    def stable(ctx, case):
        """objects that contain images of their own simplices, or simplices fixed by part of the group"""
        pkg, s, i, j, ci = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        od = mod(pkg, 'occupation_domain')
        c = CENS[ci]
        G = D.group(pkg)
        base = D.simplex(pkg, s)
        o = [base, [list(map(list, D.act(G[i], v, c, f))) for v in base], [list(map(list, D.act(G[j], v, c, f))) for v in base][::-1]]
        want = Counter(tuple(D.act(g, v, c, f) for v in t) for g in G for t in o)
        got = od.symmetric(arr(o), arr(c))
        ctx.expect(is_triple_array(got, (N[pkg] * 3, k, 6, 3)) and Counter(tup(got)) == want, 'the symmetric object is the orbit of the object, copy by copy',
                   pkg=pkg, s=s, ops=[i, j], c=ci, got=getattr(got, 'shape', got))
        ctx.step()
        ctx.state('st', pkg, s, i, j, ci)
        ctx.trace()

    def single(ctx, case):
        """the copy number i is the image under operation number i"""
        pkg, o, ci = case
        f = FIELD[pkg]
        od, sy = mod(pkg, 'occupation_domain'), mod(pkg, 'symmetry')
        c = CENS[ci]
        A = arr([D.simplex(pkg, s) for s in o])
        ops = [D.imat(x) for x in D.symops(pkg)]
        sp = sy.generator_obj_symmetric_tetrahedron_specific_symop if pkg == 'ico2' else sy.generator_obj_symmetric_triangle_specific_symop
        for i in range(N[pkg]):
            want = tuple(tuple(D.act(ops[i], D.POINTS[pkg][k], c, f) for k in s) for s in o)
            got = od.symmetric_0(A, arr(c), i)
            ctx.expect(is_triple_array(got) and tup(got) == want, 'object under one operation', pkg=pkg, o=o, c=ci, op=i)
            got = od.symmetric_0(A[0], arr(c), i)
            ctx.expect(is_triple_array(got) and tup(got) == want[0], 'simplex under one operation', pkg=pkg, o=o, c=ci, op=i)
            j = (7 * i + 3) % N[pkg]
            got = sp(A, arr(c), [i, j, i])
            want2 = tuple(tuple(D.act(ops[j], D.POINTS[pkg][k], c, f) for k in s) for s in o)
            ctx.expect(is_triple_array(got) and tup(got) == (want, want2, want), 'object under chosen operations', pkg=pkg, o=o, c=ci, ops=[i, j, i])
            if pkg == 'dode2':
                got = sy.generator_symmetric_vec_0(A[0][0], arr(c), i)
                ctx.expect(is_triple_array(got) and tup(got) == want[0][0], 'vector under one operation', pkg=pkg, op=i)
            ctx.step(3)
            ctx.state('0', pkg, o, ci, i)
            if len(ctx.violations) > 8:
                return
        ctx.trace()

    vecs = {p: D.POINTS[p] + [V(1, 2, 3, 4, 5, 6), V((1, 1, 2), (-1, 0, 3), (2, -1, 1), 0, (0, 3, 4), (1, 0, 7))] for p in PKGS}

    def equivalent(ctx, case):
        pkg, i, ci = case
        f, sy = FIELD[pkg], mod(pkg, 'symmetry')
        v, c = vecs[pkg][i], CENS[ci]
        G = D.group(pkg)
        want = {D.act(g, v, c, f) for g in G}
        got = sy.generator_equivalent_vec(arr([v]), arr(c))
        ok = is_triple_array(got) and got.shape[1:] == (6, 3)
        ctx.expect(ok and len(got) == len(want) and set(tup(got)) == want, 'equivalent positions of a vector', pkg=pkg, v=v, c=ci,
                   n=len(want), got=len(got) if ok else got)
        ctx.expect(N[pkg] % len(want) == 0, 'orbit-stabiliser', pkg=pkg)
        # a set of vectors: one representative per distinct internal position of the union of orbits
        w = vecs[pkg][(i + 3) % len(vecs[pkg])]
        allp = want | {D.act(g, w, c, f) for g in G}
        got = sy.generator_equivalent_vectors(arr([v, w]), arr(c))
        ok = is_triple_array(got) and got.shape[1:] == (6, 3)
        wantk = {pkey(x, f) for x in allp}
        ctx.expect(ok and set(tup(got)) <= allp and len(got) == len(wantk) and {pkey(x, f) for x in got} == wantk,
                   'equivalent positions of a set of vectors', pkg=pkg, v=v, w=w, c=ci)
        got = sy.generator_obj_symmetric_vec(arr([v, w]), arr(c))
        wantc = Counter((D.act(g, v, c, f), D.act(g, w, c, f)) for g in G)
        ctx.expect(is_triple_array(got) and Counter(tup(got)) == wantc, 'images of a set of vectors', pkg=pkg)
        ctx.step(3)
        ctx.state('e', pkg, i, ci)
        ctx.outcome('%s orbit %d' % (pkg, len(want)))
        ctx.trace()

    objs = {p: objects(p) for p in PKGS}
    few = {p: [objs[p][0], next(o for o in objs[p] if len(o) == 3)] for p in PKGS}
    return [
        mc.Suite('orbit', {'objects': {p: len(objs[p]) for p in PKGS}, 'centres': 4},
                 [(p, o, c) for p in PKGS for o in objs[p] for c in range(4 if big or p == 'dode2' else 2)] +
                 [('ico2', o, c) for o in objs['ico2'][::5] for c in (2, 3) if not big], orbit),
        mc.Suite('self_images', {'objects': 'a simplex with two of its own images'},
                 [(p, s, i, (i * 5 + 1) % N[p], c) for p in PKGS for s in D.simplices(p, 5)[:3] for i in range(0, N[p], 13 if p == 'ico2' else 3) for c in range(2 if not big else 4)], stable),
        mc.Suite('single', {'operations': 'all'}, [(p, o, c) for p in PKGS for o in few[p] for c in range(4)], single),
        mc.Suite('equivalent', {'vectors': 16, 'centres': 4}, [(p, i, c) for p in PKGS for i in range(16) for c in range(4)], equivalent),
    ]
