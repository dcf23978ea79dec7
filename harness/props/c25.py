"""C25  The compiled packages apply symmetry, shifts, similarity and de-duplication exactly."""
from collections import Counter
from itertools import product

import numpy as np

import legacy as L
import mc
import ref
from domains import KER, POINTS, addv, alias, simplices, simplex, group, imat, act, matmul, objects, shifted
from lib import *

ASSUMPTIONS = ['operands are bounded so that the 64-bit integers of the compiled code cannot overflow',
               'the modules are compiled from the working tree into a scratch directory of the run',
               'the compiled icosahedral operations map v to g v + centre (the object is given about the origin), the dodecagonal ones to g(v-centre)+centre']
MODS = {'ico': ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics'], 'dode': None}
Z6 = [[0, 0, 1]] * 6
K = {'ico': 4, 'dode': 3}


def od(pkg):
    return L.mod(pkg, 'occupation_domain')


def image(pkg, g, v, c, f):
    """exact, in integers over a common denominator"""
    D = 1
    for t in list(v) + list(c):
        D = D * t[2] // gcd(D, t[2])
    va = [(t[0] * (D // t[2]), t[1] * (D // t[2])) for t in v]
    ca = [(t[0] * (D // t[2]), t[1] * (D // t[2])) for t in c]
    if pkg == 'dode':
        va = [(x[0] - y[0], x[1] - y[1]) for x, y in zip(va, ca)]
    out = []
    for r in range(6):
        a, b = ca[r]
        for k in range(6):
            e = g[r][k]
            if e:
                a += e * va[k][0]
                b += e * va[k][1]
        q = gcd(gcd(a, b), D) * (1 if D > 0 else -1)
        out.append((a // q, b // q, D // q))
    return tuple(out)


def canon_ok(ctx, got, what, **d):
    a = np.asarray(got)
    if a.dtype.kind not in 'iu' or a.shape[-2:] != (6, 3) or (a[..., 2] == 0).any():
        ctx.fail(what + ': not vectors of triples', got=repr(got)[:300], **d)
        return None
    return a


def vk(v, f):
    return tuple(ref.canon(tuple(int(x) for x in t), f) for t in v)


def suites(tier):
    big = tier == 'thorough'
    L.build(MODS)
    G = {p: [tuple(map(tuple, g)) for g in group(L.MODERN[p])] for p in L.PKGS}
    H = (1, 0, 2)
    centres = {'ico': [V(0, 0, 0, 0, 0, 0), V(1, 0, 0, 0, 0, 0), V(H, H, H, H, H, H), V((0, 1, 3), 0, -1, 0, (1, 1, 2), 0)],
               'dode': [V(0, 0, 0, 0, 0, 0), V(0, 1, 0, 0, 0, 0), V(H, H, 0, H, 0, 0), V((0, 1, 3), 0, -1, (1, 1, 2), 0, 0)]}

    # points, and vectors whose internal part vanishes or is that of a point: different vectors, one internal position
    VECS = {p: POINTS[L.MODERN[p]][:14 if big else 8] + KER[L.MODERN[p]] + [alias(L.MODERN[p], POINTS[L.MODERN[p]][k], k) for k in (1, 2)] for p in L.PKGS}

    def vec_images(ctx, case):
        pkg, i, j, ci = case
        f, s = L.FIELD[pkg], L.sym(pkg)
        v, w, c = VECS[pkg][i], VECS[pkg][j], centres[pkg][ci]
        d = dict(pkg=pkg, v=v, w=w, centre=c)
        wv = [image(pkg, g, v, c, f) for g in G[pkg]]
        ww = [image(pkg, g, w, c, f) for g in G[pkg]]
        got = canon_ok(ctx, s.generator_obj_symmetric_vec(arr([v, w]), arr(c)), 'generator_obj_symmetric_vec', **d)
        if got is not None and ctx.expect(got.shape == (len(G[pkg]), 2, 6, 3), 'shape of the images', got=got.shape, **d):
            ctx.expect(Counter(tup(x) for x in got) == Counter(zip(wv, ww)), 'images of a pair of vectors: one per operation, both by the same', **d)
        if pkg == 'dode':
            got = canon_ok(ctx, s.generator_equivalent_vec(arr(v), arr(c)), 'generator_equivalent_vec', **d)
            if got is not None:
                ctx.expect(sorted(tup(x) for x in got) == sorted(set(wv)), 'equivalent vectors', **d)
            ops = s.dodesymop()
            ctx.expect(sorted(imat(o) for o in ops) == sorted(G[pkg]), 'dodesymop is the point group')
            if ci == 0:
                for k, o in enumerate(ops):
                    got = s.generator_obj_symmetric_vec_0(arr(v), k)
                    ctx.expect(tup(got) == image(pkg, imat(o), v, Z6, f), 'image under one operation', k=k, **d)
            for o in ops[:: 1 if big else 5]:
                ctx.expect(tup(arr(s.symop_vec(np.asarray(o), arr(v), arr(c))).reshape(6, 3)) == image(pkg, imat(o), v, c, f), 'symop_vec', op=imat(o), **d)
        else:
            if ci == 0:
                got = canon_ok(ctx, s.generator_equivalent_vec(arr(v)), 'generator_equivalent_vec', **d)
                if got is not None:
                    ctx.expect(sorted(tup(x) for x in got) == sorted(set(wv)), 'equivalent vectors', **d)
            got = canon_ok(ctx, s.generator_equivalent_vectors(arr([v, w]), arr(c)), 'generator_equivalent_vectors', **d)
            if got is not None:
                ctx.expect(sorted(pkey(x, f) for x in got) == sorted({pkey(x, f) for x in wv + ww}), 'equivalent vectors, one per internal position', **d)
                ctx.expect({tup(x) for x in got} <= set(wv + ww), 'equivalent vectors are images', **d)
            for g in G[pkg][:: 3 if big else 17]:
                ctx.expect(tup(arr(s.symop_vec(arr(g), arr(v), arr(c))).reshape(6, 3)) == image(pkg, g, v, c, f), 'symop_vec', op=g, **d)
        ctx.step(len(G[pkg]) * 2)
        ctx.state(pkg, i, j, ci)
        ctx.trace()

    n = 9 if big else 7
    smp = {p: simplices(L.MODERN[p], n) for p in L.PKGS}
    smp['ico'] = smp['ico'][:: 1 if big else 2]

    def simplex_images(ctx, case):
        pkg, i, ci = case
        f, s = L.FIELD[pkg], L.sym(pkg)
        k = K[pkg]
        t = simplex(L.MODERN[pkg], smp[pkg][i])
        u = simplex(L.MODERN[pkg], smp[pkg][(i * 7 + 3) % len(smp[pkg])])
        c = centres[pkg][ci]
        d = dict(pkg=pkg, simplex=smp[pkg][i], centre=c)
        W = {}
        for o in (t, u):
            W[id(o)] = [tuple(image(pkg, g, v, c, f) for v in o) for g in G[pkg]]
        wt, wu = W[id(t)], W[id(u)]

        def judge(got, want, what):
            g = canon_ok(ctx, got, what, **d)
            if g is not None and ctx.expect(g.ndim == 4 and g.shape[1:] == (k, 6, 3), what + ': shape', got=g.shape, **d):
                ctx.expect(Counter(tup(x) for x in g) == Counter(want), what + ': one image per simplex and operation', n=len(g), **d)
            ctx.step(len(want))
        two = arr(list(t) + list(u))
        name = 'generator_obj_symmetric_tetrahedron' if pkg == 'ico' else 'generator_obj_symmetric_triangle'
        judge(getattr(s, name)(two, arr(c)), wt + wu, name)
        some = G[pkg][1::5]
        judge(getattr(s, name + '_specific_symop')(two, arr(c), [np.array(g) for g in some]),
              [tuple(image(pkg, g, v, c, f) for v in o) for g in some for o in (t, u)], name + '_specific_symop')
        if pkg == 'ico':
            judge(od('ico').symmetric(arr([t, u]), arr(c)), wt + wu, 'symmetric')
            judge(od('ico').symmetric(arr(t), arr(c)), wt, 'symmetric')
            ks = range(120) if big else (0, 1, 61, 119)
            if big:
                judge(np.concatenate([s.generator_obj_symmetric_tetrahedron_0(arr(t), arr(c), x) for x in ks]), wt, name + '_0')
            else:
                for x in ks:
                    g = s.generator_obj_symmetric_tetrahedron_0(arr(t), arr(c), x)
                    ctx.expect(g.shape == (1, 4, 6, 3) and tup(g[0]) in wt, name + '_0', **d)
            g = canon_ok(ctx, s.generator_obj_symmetric_surface(arr(t[:3]), arr(c)), 'surface', **d)
            if g is not None:
                ctx.expect(Counter(tup(x) for x in g) == Counter(x[:3] for x in wt), 'images of a triangle', **d)
        else:
            ops = s.dodesymop()
            for x in range(24):
                judge(s.generator_symmetric_obj_0(arr([t, u]), arr(c), x),
                      [tuple(image(pkg, imat(ops[x]), v, c, f) for v in o) for o in (t, u)], 'generator_symmetric_obj_0')
            if ci == 0:
                judge(od('dode').symmetric_12(arr([t, u])), wt + wu, 'symmetric_12')
                judge(od('dode').symmetric_12(arr(t)), wt, 'symmetric_12')
        ctx.state(pkg, i, ci)
        ctx.trace()

    sc = [(0, 0, 1), (1, 0, 2), (1, 0, 3), (2, 0, 3), (1, 0, 4)] + ([(3, 0, 4), (1, 0, 5), (1, 0, 6), (-1, 0, 2)] if big else [])
    asym = simplex('dode2', simplices('dode2', 6)[1])
    asym2 = simplex('dode2', simplices('dode2', 6)[5])

    def sites(ctx, case):
        f = DODE
        s = L.sym('dode')
        ops = [imat(o) for o in s.dodesymop()]
        for tail in product(sc, repeat=2):
            site = [list(sc[case[0]]), list(sc[case[1]]), list(tail[0]), list(tail[1]), [0, 0, 1], [0, 0, 1]]
            stab = []
            for k, g in enumerate(ops):
                im = image('dode', g, site, Z6, f)
                dv = [val(x, f) - val(y, f) for x, y in zip(im, site)]
                if all(x.triple()[2] == 1 and x.triple()[1] == 0 for x in dv):
                    stab.append(k)
            got = od('dode').site_symmetry(arr(site))
            l1, l2 = list(got[0]), list(got[1])
            ctx.expect(sorted(l1) == stab and len(set(l1)) == len(l1), 'site symmetry: exactly the operations that leave the site fixed modulo the lattice', site=site, got=l1, want=stab)
            cosets = [frozenset(matmul(ops[r], ops[h]) for h in stab) for r in l2]
            ctx.expect(len(l2) * len(stab) == 24 and len(frozenset().union(*cosets)) == 24 and ops.index(tuple(tuple(int(a == b) for b in range(6)) for a in range(6))) in l2,
                       'left coset representatives: one per coset, the identity for the stabiliser', site=site, got=l2)
            ob = od('dode').symmetric(arr([asym, asym2]), arr(site))
            want = Counter(tuple(image('dode', ops[k], v, site, f) for v in t) for k in stab for t in (asym, asym2))
            ctx.expect(ob.ndim == 4 and Counter(tup(x) for x in ob) == want, 'symmetric domain: the images of the asymmetric unit under the site symmetry', site=site)
            ctx.step(24)
            ctx.state(tuple(map(tuple, site)))
        ctx.trace()

    def similar(ctx, case):
        m, i = case
        f = DODE
        t = simplex('dode2', simplices('dode2', n)[i])
        got = od('dode').similarity(arr([t]), m)
        if canon_ok(ctx, got, 'similarity') is None or not ctx.expect(got.shape == (1, 3, 6, 3), 'shape', got=got.shape):
            return
        back = od('dode').similarity(got, -m)
        ctx.expect(tup(back) == tup(arr([t])), 'similarity by m then -m is the identity', m=m, t=t, got=tup(back))
        once = od('dode').similarity(od('dode').similarity(arr([t]), 1 if m >= 0 else -1), m - 1 if m >= 0 else m + 1)
        ctx.expect(tup(once) == tup(got), 'similarities compose', m=m, t=t)
        # the periodic direction is left alone
        e = V(0, 0, 0, 0, (1, 0, 2), (2, -1, 3))
        up = od('dode').similarity(arr([[addv(v, e, f) for v in t]]), m)
        want = tuple(tuple(tuple(val(x, f).triple() for x in addv(v, e, f)) for v in s) for s in tup(got))
        ctx.expect(tup(up) == want, 'similarity leaves the periodic direction alone', m=m, t=t, got=tup(up))
        # unit of the field that scales external space; its conjugate scales internal space
        one = arr([V(1, 0, 0, 0, 0, 0), V(0, 0, 0, 0, 0, 0), V(0, 1, 0, 0, 0, 0)])
        b = od('dode').similarity(one[None], m)[0]
        for proj, name in ((ref.par, 'external'), (ref.perp, 'internal')):
            a0 = proj([[1, 0, 1]] + [[0, 0, 1]] * 5, f)[:2]
            lam2 = ref.dot(*([proj(tup(b[0]), f)[:2]] * 2)) / ref.dot(a0, a0)
            for x in range(3):
                for y in range(3):
                    A = ref.dot(proj(t[x], f)[:2], proj(t[y], f)[:2])
                    B = ref.dot(proj(tup(got[0][x]), f)[:2], proj(tup(got[0][y]), f)[:2])
                    ctx.expect(B == A * lam2, 'similarity scales %s space uniformly' % name, m=m, t=t)
            if m:
                ctx.expect((float(lam2) > 1.0) != (float(od_scale(proj, b, -m, f)) > 1.0), 'opposite orders scale oppositely', m=m, space=name)
        ctx.step(9)
        ctx.state(m, i)
        ctx.trace()

    def od_scale(proj, b, m, f):
        one = arr([V(1, 0, 0, 0, 0, 0), V(0, 0, 0, 0, 0, 0), V(0, 1, 0, 0, 0, 0)])
        c = od('dode').similarity(one[None], m)[0]
        a0 = proj([[1, 0, 1]] + [[0, 0, 1]] * 5, f)[:2]
        return ref.dot(*([proj(tup(c[0]), f)[:2]] * 2)) / ref.dot(a0, a0)

    objs = {p: objects(L.MODERN[p], 6 if p == 'ico' else 5) for p in L.PKGS}

    def shift(ctx, case):
        pkg, i = case
        f = L.FIELD[pkg]
        o = objs[pkg][i][1]
        for c in centres[pkg] + [POINTS[L.MODERN[pkg]][7]]:
            want = [[tuple(val(x, f).triple() for x in v) for v in s] for s in shifted(o, c, f)]
            got = od(pkg).shift(arr(o), arr(c))
            ctx.expect(tup(got) == tuple(map(tuple, want)), 'shift adds the vector to every vertex', pkg=pkg, obj=objs[pkg][i][0], shift=c, got=repr(got)[:200])
            ctx.step()
        a = arr(o)
        for x in (od(pkg).as_it_is(a), od(pkg).as_it_is(a.reshape(-1, 6, 3))):
            ctx.expect(tup(x) == tup(a), 'as_it_is', pkg=pkg)
        ctx.state(pkg, i)
        ctx.trace()

    def dedupe(ctx, case):
        """every sequence over a small pool in which values repeat exactly or only in internal space"""
        pkg, first = case
        f, u, M = L.FIELD[pkg], L.utils(pkg), L.MODERN[pkg]
        P = POINTS[M]
        pool = [P[1], P[2], alias(M, P[1]), alias(M, P[2], 1), P[4]]
        for tail in product(range(len(pool)), repeat=4 if big else 3):
            seq = [pool[k] for k in (first,) + tail]
            seen, want = set(), []
            for v in seq:
                if vk(v, f) not in seen:
                    seen.add(vk(v, f))
                    want.append(vk(v, f))
            got = u.remove_doubling_dim3(arr(seq))
            ctx.expect(sorted(vk(v, f) for v in got) == sorted(want), 'remove_doubling_dim3 keeps each vector once', pkg=pkg, seq=(first,) + tail)
            got = u.remove_doubling_dim3_in_perp_space(arr(seq))
            ctx.expect(sorted(pkey(v, f) for v in got) == sorted({pkey(v, f) for v in seq}) and {vk(v, f) for v in got} <= seen,
                       'remove_doubling_dim3_in_perp_space keeps each internal position once', pkg=pkg, seq=(first,) + tail)
            if len(seq) % 2 == 0:
                o = arr(seq).reshape(2, -1, 6, 3)
                got = u.remove_doubling_dim4(o)
                ctx.expect(sorted(vk(v, f) for v in got.reshape(-1, 6, 3)) == sorted(want), 'remove_doubling_dim4', pkg=pkg, seq=(first,) + tail)
                got = u.remove_doubling_dim4_in_perp_space(o)
                ctx.expect(sorted(pkey(v, f) for v in got) == sorted({pkey(v, f) for v in seq}), 'remove_doubling_dim4_in_perp_space', pkg=pkg, seq=(first,) + tail)
            ctx.step(4)
            ctx.state(pkg, first, tail)
        ctx.trace()

    ns = len(simplices('dode2', n))
    return [
        mc.Suite('vector_images', 'pairs of points and of vectors without internal part, 4 centres, whole point group',
                 [(p, i, (i + j) % len(VECS[p]), c) for p in L.PKGS for i in range(len(VECS[p])) for j in range(1, 3 if not big else len(VECS[p])) for c in range(4)], vec_images),
        mc.Suite('simplex_images', 'simplices over %d points, 4 centres, whole point group' % n,
                 [(p, i, c) for p in L.PKGS for i in range(len(smp[p])) for c in range(4)], simplex_images),
        mc.Suite('sites', 'dodecagonal: all %d^4 rational sites' % len(sc), [(i, j) for i in range(len(sc)) for j in range(len(sc))], sites),
        mc.Suite('similarity', 'orders -4..4, all triangles over %d points' % n, [(m, i) for m in range(-4, 5) for i in range(ns)], similar, chunk=4),
        mc.Suite('shift', 'objects x 5 shifts', [(p, i) for p in L.PKGS for i in range(len(objs[p]))], shift, chunk=4),
        mc.Suite('dedupe', 'every sequence of %d vectors from a pool of 5' % (5 if big else 4), [(p, k) for p in L.PKGS for k in range(5)], dedupe),
    ]
