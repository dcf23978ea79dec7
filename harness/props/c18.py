"""C18  VESTA, atom and polyhedron files describe the object exactly."""
import os
from collections import Counter

import mc
import ref
import files
from filecheck import near, rows, edges_file, normal_file, unique_edges
from lib import *
import domains as D

ASSUMPTIONS = ['file grammar as produced today; numbers in the files have six decimals']
COLORS = {'k': (127, 127, 127), 'r': (255, 0, 0), 'b': (0, 0, 255), 'p': (255, 0, 255), 'l': (0, 255, 0), 'y': (255, 255, 0), 'c': (0, 255, 255), 's': (192, 192, 192)}
LONG = {'black': 'k', 'red': 'r', 'blue': 'b', 'pink': 'p', 'lime': 'l', 'yellow': 'y', 'cyan': 'c', 'silver': 's'}


def suites(tier):
    big = tier == 'thorough'
    out = []

    def proper(o, f):
        mid = [tuple((a + b).triple() for a, b in zip(ref.perp(e[0], f), ref.perp(e[1], f))) for e in unique_edges(o, f)]
        return len(set(mid)) == len(mid)

    def export(ctx, case):
        pkg, i = case
        f, od, u = FIELD[pkg], mod(pkg, 'occupation_domain'), mod(pkg, 'utils')
        name, o = OBJ[pkg][i]
        a = arr(o)
        col = list(COLORS)[i % len(COLORS)]
        rgb = COLORS[col]
        if i % 3 == 1:
            col = [k for k, v in LONG.items() if v == col][0]
        kw = dict(package=pkg, tag=name)
        E = unique_edges(o, f)
        with mc.scratch() as d:
            r = od.write_vesta(a, d, 'n', col)
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            normal_file(ctx, pkg, d + '/n.vesta', o, rgb, **kw)
            r = od.write(a, path=d, basename='w', format='vesta', color=col)
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            normal_file(ctx, pkg, d + '/w.vesta', o, rgb, **kw)
            r = od.write_vesta(a, d, 's', col, 'simple', 1)
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            edges_file(ctx, pkg, d + '/s.vesta', E, rgb, 'simple', 2e-6, **kw)
            r = od.write_vesta(arr([list(e) for e in E]), d, 'e', col, 'egdes')
            ctx.expect(r == 0, 'export succeeds', got=repr(r), **kw)
            edges_file(ctx, pkg, d + '/e.vesta', E, rgb, 'edges', 2e-6, **kw)
            v = od.write_vesta(a, d, 'p', col, 'podatm')
            ks = edges_file(ctx, pkg, d + '/p.vesta', E, rgb, 'podatm', 1e-3, **kw)
            if ctx.expect(is_triple_array(v) and v.ndim == 3 and v.shape[1:] == (6, 3), 'podatm returns the vertices', got=repr(v)[:100], **kw) and ks is not None:
                ctx.expect([pkey(x, f) for x in v] == ks, 'the vertices returned are the atoms written, in order', **kw)
            ctx.expect(sorted(os.listdir(d)) == ['e.vesta', 'n.vesta', 'p.vesta', 's.vesta', 'w.vesta'], 'files written', got=sorted(os.listdir(d)), **kw)
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', **kw)
        ctx.step(5)
        ctx.state('x', pkg, i)
        ctx.outcome('%s %d simplices' % (pkg, len(o)))
        ctx.trace()
    OBJ = {}
    for p in PKGS:
        L = [(n, o) for n, o, _ in D.objects(p, 7)]
        m = 1 if big else 4
        objs = L[::m] + [x for x in L if x[0] in ('bisected', 'star', 'box', 'box2', 'near+far', 'big', 'small')]
        for n, comp in D.complexes(p):
            for mode in (0, 1, 2):
                objs.append(('%s mode %d' % (n, mode), D.renamed(p, comp, mode)))
        objs += [(n, o) for n, o, _ in D.large(p) if n in ('icosahedron', 'dodecagon', 'dodecagram')]
        # the code identifies edges by their mid points, documented as sound for proper complexes
        OBJ[p] = [x for x in objs if proper(x[1], FIELD[p])]
    out.append(mc.Suite('vesta', 'objects x normal, simple, edges, podatm, via write, colours', [(p, i) for p in PKGS for i in range(len(OBJ[p]))], export, chunk=2))

    def colours(ctx, case):
        pkg, c = case
        od = mod(pkg, 'occupation_domain')
        o = OBJ[pkg][0][1]
        want = COLORS.get(LONG.get(c, c)) if isinstance(c, str) else tuple(c)
        if want is None:
            want = COLORS['k']
        with mc.scratch() as d:
            for sel in ('normal', 'simple', 'podatm'):
                od.write_vesta(arr(o), d, 'c', c, sel)
                m, _, _ = files.vesta(d + '/c.vesta')
                b, _ = files.table(m[0], 'SBOND')
                ctx.expect(all(tuple(int(x) for x in r[-3:]) == want for r in b), 'colour', pkg=pkg, colour=c, got=b[0][-3:], want=want)
                ctx.step()
        ctx.state('c', pkg, str(c))
        ctx.trace()
    out.append(mc.Suite('colours', 'every colour name and RGB', [(p, c) for p in PKGS for c in list(COLORS) + list(LONG) + [[1, 2, 3], 'unknown']], colours))

    # atoms and polyhedra
    def podatm(ctx, case):
        pkg, i, mode = case
        f, od = FIELD[pkg], mod(pkg, 'occupation_domain')
        name, o = POD[pkg][i]
        o = D.renamed(pkg, o, mode)
        k = SIMPLEX[pkg]
        if mode == 2:
            o = [s[::-1] for s in o][::-1]
        common = set.intersection(*[{pkey(v, f) for v in s} for s in o])
        kw = dict(package=pkg, tag=name, mode=mode)
        with mc.scratch() as d:
            r = od.obj2podatm(arr(o), 5 + i, d + '/new', 'pa')
            if not common:
                ctx.expect(r == 1 and not os.path.exists(d + '/new/pa.pod'), 'no common corner, no file', got=repr(r), **kw)
                ctx.outcome('%s refused' % pkg)
            else:
                ctx.expect(r == 0, 'succeeds', got=repr(r), **kw)
                sn, n, ej, nth, idx = files.pod(d + '/new/pa.pod')
                h, x = files.atm(d + '/new/pa.atm')
                ctx.expect(sn == 5 + i and int(h[0]) == 5 + i, 'serial number', got=(sn, h[0]), **kw)
                names = {}
                for s in o:
                    for v in s:
                        names.setdefault(pkey(v, f), []).append([float(val(t, f)) for t in v])
                cv = [q for q in common if any(all(abs(a - b) < 6e-4 for a, b in zip(x, w)) for w in names[q])]
                ctx.expect(len(cv) >= 1, 'the atom sits at the common corner', got=x, **kw)
                key = []
                for e in ej:
                    q = [kk for kk, ws in names.items() if any(all(abs(a - b) < 6e-7 + 1e-9 * abs(b) for a, b in zip(e, w)) for w in ws)]
                    key.append(q[0] if len(q) == 1 else None)
                ctx.expect(n == len(ej) and None not in key and len(set(key)) == len(key), 'each corner once', got=n, lines=len(ej), **kw)
                ctx.expect(any(set(key) == set(names) - {c} for c in (cv or common)), 'all corners but the common one', got=len(set(key)), want=len(names) - 1, **kw)
                ctx.expect(nth == len(o) and len(idx) == (k - 1) * len(o) and all(1 <= q <= len(key) for q in idx), 'one list of corners per simplex', got=(nth, len(idx)), want=(len(o), (k - 1) * len(o)), **kw)
                if len(idx) == (k - 1) * len(o) and all(1 <= q <= len(key) for q in idx):
                    gone = set(names) - set(key)
                    for j, s in enumerate(o):
                        got = {key[q - 1] for q in idx[(k - 1) * j:(k - 1) * (j + 1)]} | gone
                        ctx.expect(got == {pkey(v, f) for v in s}, 'corners of each polyhedron', j=j, **kw)
                ctx.outcome('%s written' % pkg)
        ctx.step()
        ctx.state('pod', pkg, i, mode)
        ctx.trace()
    POD = {}
    for p in PKGS:
        C = D.simplices(p, 7)
        L = [('%s' % (c,), [D.simplex(p, c)]) for c in C[::2]]
        L += [(n, o) for n, o, _ in D.objects(p, 6) if '+' in n and len(o) == 2]
        for n, comp in D.complexes(p):
            m = len(comp)
            L += [('%s%s' % (n, sub), [comp[j] for j in sub]) for k in range(2, m + 1) for sub in combinations(range(m), k) if big or m <= 6 or sub[0] == 0]
        L += [(n, o) for n, o, _ in D.large(p) if n in ('icosahedron', 'dodecagon', 'dodecagram')]
        POD[p] = L
    out.append(mc.Suite('podatm', 'objects with and without a common corner x renamings', [(p, i, m) for p in PKGS for i in range(len(POD[p])) for m in ((0, 1, 2) if big else (i % 3,))], podatm, chunk=4))

    # histories: exporting one object never affects another's files
    def hist(ctx, case):
        pkg, a, b = case
        f, od = FIELD[pkg], mod(pkg, 'occupation_domain')
        o1, o2 = OBJ[pkg][0][1], D.star(OBJ[pkg][1][1][0], f)
        acts = ACTS

        def do(act, o, base):
            if act == 'pod':
                od.obj2podatm(arr(o), 1, '.', base)
            elif act == 'xyz':
                od.write(arr(o), path='.', basename=base, format='xyz', select='tetrahedron' if pkg == 'ico2' else 'triangle')
            else:
                od.write_vesta(arr(o), '.', base, 'r', act)

        def snap():
            return {n: open(n, 'rb').read() for n in os.listdir('.')}
        with mc.scratch():
            do(a, o2, 'q')
            alone = {n: c for n, c in snap().items()}
        with mc.scratch():
            do(b, o1, 'q')
            do(b, o1, 'other')
            before = snap()
            do(a, o2, 'q')
            after = snap()
            ctx.expect(all(after.get(n) == c for n, c in before.items() if n.startswith('other')), 'files of another object stay', pkg=pkg, acts=(b, a))
            ctx.expect(all(after.get(n) == c for n, c in alone.items()), 'an overwritten file holds only the new object', pkg=pkg, acts=(b, a))
            ctx.expect(set(after) == set(before) | set(alone), 'no other file', pkg=pkg, acts=(b, a))
        ctx.step(3)
        ctx.state('hist', pkg, a, b)
        ctx.trace()
    ACTS = ['normal', 'simple', 'podatm', 'xyz', 'pod']
    out.append(mc.Suite('histories', 'all ordered pairs of exports, overwriting and side by side', [(p, a, b) for p in PKGS for a in ACTS for b in ACTS], hist, chunk=4))
    return out
