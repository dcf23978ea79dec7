"""C28  The compiled packages' surfaces, outlines and exported files describe the object exactly."""
import os
from collections import Counter
from itertools import combinations, permutations, product

import numpy as np

import legacy as L
import mc
import ref
import domains as D
import files
from filecheck import near, content, rows, edges_file, normal_file, unique_edges
from lib import *
from props.c15 import border, surface_of

ASSUMPTIONS = ['operands are bounded so that the 64-bit integers of the compiled code cannot overflow',
               'the modules are compiled from the working tree into a scratch directory of the run',
               'conforming complexes (simplices meet in whole common faces); borders where more than two faces meet in an edge are not judged']
MODS = {'ico': ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics'], 'dode': None}
COLORS = {'k': (127, 127, 127), 'r': (255, 0, 0), 'b': (0, 0, 255), 'p': (255, 0, 255), 'l': (0, 255, 0), 'y': (255, 255, 0), 'c': (0, 255, 255), 's': (192, 192, 192)}
DCOL = ['k', 'r', 'b', 'p']
KIND = {'ico': 'tetrahedron', 'dode': 'triangle'}


def od(pkg):
    return L.mod(pkg, 'occupation_domain')


def suites(tier):
    big = tier == 'thorough'
    L.build(MODS)
    out = []
    COMP = {p: D.complexes(L.MODERN[p]) for p in L.PKGS}

    # ------------------------------------------------------------------ surfaces and outlines
    def outlines(ctx, case):
        pkg, ci, mode, size = case
        m, f = L.MODERN[pkg], L.FIELD[pkg]
        name, comp = COMP[pkg][ci]
        for sub in combinations(range(len(comp)), size):
            o = D.renamed(m, [comp[i] for i in sub], mode)
            if (size + mode) % 2:
                o = [s[::-1] for s in o][::-1]
            one(ctx, pkg, o, '%s%s mode %d' % (name, sub, mode))
            if len(ctx.violations) > 6:
                return
        ctx.trace()

    def segs(ctx, g, f, what, k=2, **d):
        if not ctx.expect(is_triple_array(g) and g.ndim == 4 and g.shape[1:] == (k, 6, 3), what + ': shape', got=repr(g)[:200], **d):
            return None
        return Counter(frozenset(pkey(v, f) for v in e) for e in g)

    def one(ctx, pkg, o, tag):
        m, f = L.MODERN[pkg], L.FIELD[pkg]
        a = arr(o)
        d = dict(pkg=pkg, tag=tag)
        want = Counter(frozenset(pkey(v, f) for v in e) for e in unique_edges(o, f))
        corners = {tup(v) for s in a for v in s}
        if pkg == 'ico':
            g = L.utils('ico').generator_obj_edge(a, 0)
            c = segs(ctx, g, f, 'edges of the simplices', **d)
            ctx.expect(c is None or c == want, 'the edges of the simplices, each once', **d)
            t = Counter(frozenset(pkey(v, f) for v in x) for s in o for x in combinations(s, 3))
            sw = Counter(k for k, n in t.items() if n == 1)
            g = od('ico').gen_surface(a)
            c = segs(ctx, g, f, 'surface', 3, **d)
            ctx.expect(c is None or c == sw, 'the surface: the faces that belong to one simplex only', **d)
            g = od('ico').generate_edges(a)
            c = segs(ctx, g, f, 'edges of the surface', **d)
            ctx.expect(c is None or c == Counter({frozenset(p): 1 for k in sw for p in combinations(k, 2)}), 'the edges of the surface, each once', **d)
            ctx.expect(all(tup(v) in corners for e in g for v in e), 'ends are corners', **d)
        else:
            e = Counter(frozenset(pkey(v, f) for v in x) for s in o for x in combinations(s, 2))
            if max(e.values()) > 2:
                return
            g = od('dode').outline(a)
            c = segs(ctx, g, f, 'outline', **d)
            ctx.expect(c is None or c == Counter(k for k, n in e.items() if n == 1), 'outline: the edges that belong to one triangle only', **d)
            w, judged = border(surface_of(o, f), f)
            if judged:
                g = od('dode').outline1(a)
                c = segs(ctx, g, f, 'merged outline', **d)
                ctx.expect(c is None or c == Counter({k: 1 for k in w}), 'merged outline: the whole border edges, each once', got=len(g), want=len(w), **d)
                p = D.POINTS[m][0]
                g = od('dode').triangulation(a, arr(p))
                if segs(ctx, g, f, 'fan', 3, **d) is not None:
                    ctx.expect(all(tup(t[0]) == tup(arr(p)) for t in g) and Counter(frozenset(pkey(v, f) for v in t[1:]) for t in g) == Counter({k: 1 for k in w}), 'fan: position and one border edge each', **d)
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', **d)
        ctx.step()
        ctx.state(pkg, tag)

    modes = range(3 if big else 2)
    out.append(mc.Suite('outlines', 'every subset of the reference complexes x renamings of corners',
                        [(p, c, m, k) for p in L.PKGS for c in range(len(COMP[p])) for m in modes for k in range(1, len(COMP[p][c][1]) + 1)], outlines))

    # ------------------------------------------------------------------ files
    OBJ = {}
    for p in L.PKGS:
        m = L.MODERN[p]
        X = [(n, o) for n, o, _ in D.objects(m, 6)]
        objs = X if big else X[::3] + [x for x in X if x[0] in ('bisected', 'star', 'box', 'near+far', 'big', 'small')]
        for n, comp in COMP[p]:
            for mode in (0, 1, 2):
                objs.append(('%s mode %d' % (n, mode), D.renamed(m, comp, mode)))
        objs += [(n, o) for n, o, _ in D.large(m) if n in ('icosahedron', 'dodecagon', 'dodecagram')]
        OBJ[p] = objs

    def proper(o, f):
        mid = [tuple((x + y).triple() for x, y in zip(ref.perp(e[0], f), ref.perp(e[1], f))) for e in unique_edges(o, f)]
        return len(set(mid)) == len(mid)

    def xyz(ctx, case):
        pkg, i = case
        f, m = L.FIELD[pkg], L.MODERN[pkg]
        name, o = OBJ[pkg][i]
        a = arr(o)
        kw = dict(tag=name)
        with mc.scratch() as dr:
            r = od(pkg).write(a, path=dr + '/new', basename='w', format='xyz')
            ctx.expect(r == 0, 'writing succeeds', **kw)
            r = od(pkg).write_xyz(a, dr, 'o')
            ctx.expect(r == 0, 'writing succeeds', **kw)
            for p in (dr + '/new/w.xyz', dr + '/o.xyz'):
                content(ctx, m, p, o, KIND[pkg], **kw)
                n, t, at, trail = files.xyz(p)
                vols = []
                for l in trail:
                    t = l.replace(',', ' ').replace('=', ' ').split()
                    k = next(j for j, w in enumerate(t) if w.startswith('('))
                    vols.append((tuple(int(w) for w in t[k - 3:k]), float(t[k].strip('()'))))
                want = [obj_measure(o, f)] + [simplex_measure(s, f) for s in obj_perp(o, f)]
                ctx.expect(len(vols) == len(want) and all(v[0] == w.triple() and near(v[1], w) for v, w in zip(vols, want)), 'measures listed in the file', got=vols, **kw)
            g = od(pkg).read_xyz(dr, 'o')
            ctx.expect(np.array_equal(g, a), 'object read back', **kw)
            if pkg == 'ico':
                ctx.expect(np.array_equal(od(pkg).read_xyz(dr, 'o', 'vertex'), a.reshape(-1, 6, 3)), 'corners read back', **kw)
                e = arr([list(x) for x in unique_edges(o, f)])
                t = arr([list(x) for s in o for x in combinations(s, 3)])
                for k, x in (('edge', e), ('triangle', t)):
                    od(pkg).write_xyz(x, dr, k, k)
                    content(ctx, m, '%s/%s.xyz' % (dr, k), [[list(map(list, v)) for v in s] for s in x], k, **kw)
                od(pkg).write_xyz(a.reshape(-1, 6, 3), dr, 'v', 'vertex')
                content(ctx, m, dr + '/v.xyz', [[v] for s in o for v in s], 'vertex', **kw)
                ctx.expect(np.array_equal(od(pkg).read_xyz(dr, 'v', 'vertex'), a.reshape(-1, 6, 3)), 'vertices read back', **kw)
                ods = L.mod('ico', 'two_occupation_domains')
                o2 = OBJ[pkg][(i * 5 + 2) % len(OBJ[pkg])][1]
                o3 = OBJ[pkg][(i * 3 + 1) % len(OBJ[pkg])][1]
                for nm, call, parts in (('m2', lambda: ods.mergev(a, arr(o2), dr, 'm2'), [o, o2]), ('m3', lambda: ods.mergev3(a, arr(o2), arr(o3), dr, 'm3'), [o, o2, o3]),
                                        ('mo', lambda: ods.mergev_objs([a, arr(o3)], dr, 'mo'), [o, o3])):
                    call()
                    g = od(pkg).read_xyz(dr, nm, 'vertex')
                    allv = [v for x in parts for s in x for v in s]
                    ctx.expect(sorted(pkey(v, f) for v in g) == sorted({pkey(v, f) for v in allv}) and {tup(v) for v in g} <= {tup(arr(v)) for v in allv}, 'merged vertices: every corner once', by=nm, **kw)
            else:
                e = arr([list(x) for x in unique_edges(o, f)])
                od(pkg).write_xyz(e, dr, 'e')
                ctx.expect(np.array_equal(od(pkg).read_xyz(dr, 'e', 'egde'), e), 'edges read back', **kw)
                v = a.reshape(-1, 6, 3)
                od(pkg).write_xyz(v, dr, 'v')
                content(ctx, m, dr + '/v.xyz', [[x] for s in o for x in s], 'vertex', **kw)
                ctx.expect(np.array_equal(od(pkg).read_xyz(dr, 'v', 'vertex').reshape(-1, 6, 3), v), 'vertices read back', **kw)
            # objects built from a list of corner numbers
            k = len(o[0])
            v = a.reshape(-1, 6, 3)
            vl = [[[j * k + x + 1 for x in range(k)] for j in range(len(o))][:3], [[j * k + (x + 1) % k + 1 for x in range(k)] for j in range(len(o))][-2:]]
            gen = (L.mod('ico', 'two_occupation_domains') if pkg == 'ico' else od('dode')).genobjv
            gen(v, vl, dr + '/g', 'p')
            for n_, part in enumerate(vl):
                g = od(pkg).read_xyz(dr + '/g', 'p_part%d' % n_)
                w = [[v[x - 1] for x in s] for s in part]
                ctx.expect(np.array_equal(g, np.array(w)), 'object built from a list of corners', part=n_, **kw)
                normal_file(ctx, m, dr + '/g/p_part%d.vesta' % n_, [[list(map(list, x)) for x in s] for s in w], (255, 0, 255), **kw)
        ctx.step(6)
        ctx.state('x', pkg, i)
        ctx.trace()
    out.append(mc.Suite('xyz', 'objects: written, parsed, read back', [(p, i) for p in L.PKGS for i in range(len(OBJ[p]))], xyz, chunk=4))

    # the plain writers of the icosahedral package
    def plain(ctx, case):
        f, m, U = ICO, 'ico2', L.utils('ico')
        name, o = OBJ['ico'][case]
        a = arr(o)
        kw = dict(tag=name)

        def points(path, pts, doubles):
            n, t, at, trail = files.xyz(path)
            w = {tuple(int(c) for tr in v for c in tr): ref.perp(v, f) for v in pts}
            k = [tuple(x[3]) for x in at]
            ctx.expect(n == len(at) and set(k) == set(w) and (doubles or len(set(k)) == len(k)), 'points file: the corners, each once', file=os.path.basename(path), got=len(k), want=len(w), **kw)
            ctx.expect(all(near(x[j], w[tuple(x[3])][j]) for x in at for j in range(3) if tuple(x[3]) in w), 'points file: positions', file=os.path.basename(path), **kw)

        with mc.scratch() as dr:
            pts = [v for s in o for v in s]
            ctx.expect(U.generator_xyz_dim4(a, dr + '/a') == 0, 'writing succeeds', **kw)
            points(dr + '/a', pts, False)
            for k, q in enumerate((pts, pts[::-1], pts[1:] + pts[:1])):
                ctx.expect(U.generator_xyz_dim3(arr(q), dr + '/b%d' % k) == 0, 'writing succeeds', **kw)
                points(dr + '/b%d' % k, pts, False)
            t = [list(x) for s in o for x in combinations(s, 3)]
            ctx.expect(U.generator_xyz_dim4_triangle(arr(t), dr + '/t') == 0, 'writing succeeds', **kw)
            content(ctx, m, dr + '/t', t, 'triangle', **kw)
            ctx.expect(U.generator_xyz_dim4_tetrahedron(a, dr + '/o', 0) == 0, 'writing succeeds', **kw)
            content(ctx, m, dr + '/o.xyz', o, 'tetrahedron', **kw)
            ctx.expect(U.generator_xyz_dim4_tetrahedron(a, dr + '/p', 1) == 0, 'writing succeeds', **kw)
            for j in range(len(o)):
                if j < 3 or j == len(o) - 1:
                    ctx.expect(U.generator_xyz_dim4_tetrahedron_select(a, dr + '/q', j) == 0, 'writing succeeds', **kw)
                for b in ('p', 'q'):
                    path = '%s/%s_%d.xyz' % (dr, b, j)
                    if not ctx.expect(os.path.exists(path) or (b == 'q' and 3 <= j < len(o) - 1), 'one file per tetrahedron', which=b, j=j, **kw) or not os.path.exists(path):
                        continue
                    with open(path) as fh:
                        ls = [l for l in fh.read().split('\n') if l.strip()]
                    if not ctx.expect(len(ls) == 7 and ls[0].split() == ['4'], 'one tetrahedron per file', which=b, j=j, got=len(ls), **kw):
                        continue
                    for l, v in zip(ls[2:6], o[j]):
                        w = l.split()
                        ctx.expect([int(x) for x in w[-18:]] == [int(c) for tr in v for c in tr] and all(near(float(x), y) for x, y in zip(w[1:4], ref.perp(v, f))), 'corners of the tetrahedron', which=b, j=j, **kw)
                    w = ls[6].replace(',', ' ').split()
                    vol = simplex_measure(obj_perp([o[j]], f)[0], f)
                    ctx.expect(tuple(int(x) for x in w[-4:-1]) == vol.triple() and near(float(w[-1].strip('()')), vol) and w[0].split('-')[0] == str(j), 'volume of the tetrahedron', which=b, j=j, got=ls[6], **kw)
            ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', **kw)
        ctx.step(7)
        ctx.state('p', case)
        ctx.trace()
    out.append(mc.Suite('plain', 'icosahedral: objects through each plain writer', list(range(len(OBJ['ico']))), plain, chunk=4))

    # the same face / the same edge under other names and in another order
    NE = 8 if big else 6
    FACES = {k: [c for c in combinations(range(NE), k)] for k in (2, 3)}

    def same(ctx, case):
        k, i = case
        P, U = D.POINTS['ico2'], L.utils('ico')
        A = [P[x] for x in FACES[k][i]]
        for j, c in enumerate(FACES[k]):
            B = [P[x] for x in c]
            want = 0 if i == j else 1
            for order in permutations(range(k)):
                for nm in (None, 0, 1):
                    X = [B[x] if nm is None else D.alias('ico2', B[x], nm + n) for n, x in enumerate(order)]
                    if k == 3:
                        a, b = arr(A).reshape(-1), arr(X).reshape(-1)
                        got = [U.equivalent_triangle(a, b), U.equivalent_triangle_1(a, b)]
                    else:
                        got = [U.equivalent_edge(arr(A), arr(X))]
                    ctx.expect(all(g == want for g in got), 'the same face or edge', corners=k, a=FACES[k][i], b=c, order=order, name=nm, got=got, want=want)
                    ctx.step()
            ctx.state('s', k, i, j)
            ctx.outcome('same' if i == j else 'different')
        ctx.trace()
    out.append(mc.Suite('same_face', 'icosahedral: all pairs of edges and of triangles over %d points x orders x renamings' % NE, [(k, i) for k in (2, 3) for i in range(len(FACES[k]))], same))

    # every coordinate, numbers of any sign and size (only the integers of the file count here; the measures would overflow)
    BIG = [(7, 0, 1), (-12, 5, 7), (0, -99999, 100000), (1234567, -7654321, 997), (2 ** 53 + 1, 0, 1), (-2 ** 53 - 3, 1, 2), (0, 2 ** 55 + 7, 1), (3, -2 ** 54 - 1, 5)]

    def numbers(ctx, case):
        pkg, pos = case
        m = L.MODERN[pkg]
        with mc.scratch() as dr:
            for k, t in enumerate(BIG):
                vs = [[list(x) for x in v] for v in D.simplex(m, D.simplices(m, 6)[0])]
                vs[k % len(vs)][pos] = list(t)
                a = arr(vs)
                kw = dict(pkg=pkg, number=t, coordinate=pos)
                r = od(pkg).write_xyz(a, dr, 'v', 'vertex') if pkg == 'ico' else od(pkg).write_xyz(a, dr, 'v')
                g = od(pkg).read_xyz(dr, 'v', 'vertex')
                ctx.expect(r == 0 and np.array_equal(np.asarray(g).reshape(-1, 6, 3), a), 'vertices read back', **kw)
                ctx.step()
                ctx.state('n', pkg, pos, k)
        ctx.trace()
    out.append(mc.Suite('numbers', '%d numbers in each coordinate' % len(BIG), [(p, i) for p in L.PKGS for i in range(6)], numbers))

    # every sequence of writes over two files and three objects of different length
    HO = {p: [o for n, o in sorted(((len(o), o) for _, o in OBJ[p]), key=lambda x: x[0])][::max(1, len(OBJ[p]) // 3)][-3:] for p in L.PKGS}
    HF = ['a', 'b']
    MOVES = [(n, k) for n in HF for k in range(3)]

    def history(ctx, case):
        pkg, first = case
        for tail in product(range(len(MOVES)), repeat=2):
            disk = {}
            with mc.scratch() as dr:
                for j in (first,) + tail:
                    n, k = MOVES[j]
                    od(pkg).write_xyz(arr(HO[pkg][k]), dr, n)
                    disk[n] = k
                    for x in sorted(disk):
                        ctx.expect(np.array_equal(od(pkg).read_xyz(dr, x), arr(HO[pkg][disk[x]])), 'each file holds the object last written to it', pkg=pkg, moves=(first,) + tail, file=x)
                    ctx.step()
            ctx.state('h', pkg, first, tail)
        ctx.trace()
    out.append(mc.Suite('histories', 'all sequences of 3 writes over two files and three objects', [(p, i) for p in L.PKGS for i in range(len(MOVES))], history))

    def vesta(ctx, case):
        pkg, i = case
        f, m = L.FIELD[pkg], L.MODERN[pkg]
        name, o = OBJ[pkg][i]
        a = arr(o)
        cols = list(COLORS) if pkg == 'ico' else DCOL
        col = cols[i % len(cols)]
        kw = dict(tag=name)
        with mc.scratch() as dr:
            r = od(pkg).write_vesta(a, dr, 'n', col)
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            normal_file(ctx, m, dr + '/n.vesta', o, COLORS[col], **kw)
            r = od(pkg).write(a, path=dr + '/w', basename='w', format='vesta', color=col)
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            normal_file(ctx, m, dr + '/w/w.vesta', o, COLORS[col], **kw)
            if pkg == 'ico':
                E = unique_edges(o, f)
                r = od(pkg).write_vesta(a, dr, 's', col, 'simple')
                ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
                edges_file(ctx, m, dr + '/s.vesta', E, COLORS[col], 'simple', 1e-3, **kw)
                v = od(pkg).write_vesta(a, dr, 'p', col, 'podatm')
                ks = edges_file(ctx, m, dr + '/p.vesta', E, COLORS[col], 'podatm', 1e-3, **kw)
                if ks is not None:
                    ctx.expect([pkey(x, f) for x in v] == ks, 'the vertices returned are the atoms written, in order', **kw)
                    # facets seen from a corner: first number the origin, then three per facet
                    num = {pkey(x, f): j + 1 for j, x in enumerate(v)}
                    vl = [[num[pkey(s[j % 4], f)]] + [num[pkey(s[x], f)] for x in range(4) if x != j % 4] for j, s in enumerate(o)]
                    if len(o) > 1:
                        vl.append(vl[0] + vl[-1][1:])
                    pos = D.POINTS['ico2'][(i * 3) % 10]
                    sh = [0.0] * 6 if i % 2 else [0.001, -0.002, 0.0, 0.25, 0.0, 0.5]
                    od(pkg).write_podatm(v, arr(pos), vl, dr + '/pa', 'q', sh)
                    podatm(ctx, dr + '/pa/q', v, pos, vl, sh, **kw)
        ctx.step(4)
        ctx.state('v', pkg, i)
        ctx.trace()

    def podatm(ctx, path, v, pos, vl, sh, **kw):
        with open(path + '.pod') as fh:
            T = [l.split() for l in fh if l.strip()]
        with open(path + '.atm') as fh:
            A = [l.split() for l in fh if l.strip()]
        fv = [[float(val(t, ICO)) for t in x] for x in v]
        ctx.expect(T[0][-1] == 'io=%d' % len(vl), 'number of domains announced', got=T[0], **kw)
        starts = [k for k, t in enumerate(T) if t[-1] == "'comment'"]
        if not ctx.expect(len(starts) == len(vl), 'one block per domain', got=len(starts), want=len(vl), **kw):
            return
        for j, (k, lst) in enumerate(zip(starts, vl)):
            n = int(T[k][1])
            ctx.expect(int(T[k][0]) == j + 1, 'blocks numbered', **kw)
            ej = [[float(x) for x in t[1:7]] for t in T[k + 1:k + 1 + n]]
            ctx.expect(all(t[0] == 'ej=' for t in T[k + 1:k + 1 + n]) and T[k + 1 + n][0] == 'nth=', 'as many corners as announced', block=j, **kw)
            nth = T[k + 1 + n]
            idx = [int(x) for x in nth[2:]]
            o = fv[lst[0] - 1]
            ctx.expect(n == len(set(lst[1:])), 'each corner once', got=n, **kw)
            ctx.expect(int(nth[1]) * 3 == len(idx) == len(lst) - 1, 'three numbers per facet', got=nth, **kw)
            ctx.expect(all(0 < x <= n and all(abs(e - (b - c)) < 2e-6 for e, b, c in zip(ej[x - 1], fv[w - 1], o)) for x, w in zip(idx, lst[1:])), 'the facets are the ones given, relative to the origin corner', block=j, **kw)
        xs = [t for t in A if t[0] == 'x=']
        xi = [t for t in A if t[0] == 'xi=']
        ctx.expect(len(xs) == len(xi) == len(vl), 'one atom per domain', **kw)
        for j, (x, y) in enumerate(zip(xs, xi)):
            ctx.expect(all(abs(float(t) - float(val(q, ICO))) < 6e-4 for t, q in zip(x[1:7], pos)), 'position of the atom', atom=j, got=x, **kw)
            ctx.expect(all(abs(float(t) - q - s) < 2e-6 for t, q, s in zip(y[1:7], fv[vl[j][0] - 1], sh)), 'origin corner of the domain, shifted', atom=j, got=y, **kw)

    out.append(mc.Suite('vesta', 'objects: VESTA and polyhedron files', [(p, i) for p in L.PKGS for i in range(len(OBJ[p])) if proper(OBJ[p][i][1], L.FIELD[p])], vesta, chunk=4))
    return out
