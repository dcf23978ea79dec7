"""What the exported files must say about an object."""
from collections import Counter

import ref
import files
from lib import *


def near(t, q):
    return abs(t - float(q)) <= 6e-7 + 1e-9 * abs(float(q))


def rows(ctx, mol, what, **kw):
    at, end = files.atoms(mol)
    ctx.expect(end, what + ': atom list ends', **kw)
    n = len(at)
    ctx.expect([a[0] for a in at] == list(range(1, n + 1)), what + ': atoms numbered from 1', **kw)
    lab = [a[1] for a in at]
    ctx.expect(len(set(lab)) == n, what + ': labels differ', **kw)
    for sec in ('THERI', 'SITET'):
        t, end = files.table(mol, sec)
        ctx.expect(end and [(int(r[0]), r[1]) for r in t] == [(i + 1, lab[i]) for i in range(n)], what + ': %s lists the same atoms' % sec, **kw)
    return at


def edges_file(ctx, pkg, path, E, colour, what, prec, **kw):
    """a single molecule whose bonds are exactly the segments E (pairs of 6-d points)"""
    f = FIELD[pkg]
    mols, head, tail = files.vesta(path)
    if not ctx.expect(len(mols) == 1 and head.startswith('#VESTA_FORMAT'), what + ': one molecule', got=len(mols), **kw):
        return None
    at = rows(ctx, mols[0], what, **kw)
    pts = {pkey(v, f): ref.perp(v, f) for e in E for v in e}
    where = {}
    for num, lab, p in at:
        k = [key for key, q in pts.items() if all(near(a, b) for a, b in zip(p, q))]
        if not ctx.expect(len(k) == 1 and k[0] not in where.values(), what + ': every atom is one corner, once', atom=lab, **kw):
            return None
        where[lab] = k[0]
    ctx.expect(set(where.values()) == set(pts), what + ': every corner is an atom', got=len(where), want=len(pts), **kw)
    b, end = files.table(mols[0], 'SBOND')
    ctx.expect(end, what + ': bond list ends', **kw)
    want = Counter({frozenset(pkey(v, f) for v in e): 1 for e in E})
    got = Counter(frozenset((where.get(r[1]), where.get(r[2]))) for r in b)
    ctx.expect(set(got) == set(want), what + ': the bonds are the edges', got=len(got), want=len(want), **kw)
    ctx.expect(len(b) == len(E), what + ': one bond per edge', got=len(b), want=len(E), **kw)
    ctx.expect([int(r[0]) for r in b] == list(range(1, len(b) + 1)), what + ': bonds numbered', got=[r[0] for r in b][:9], **kw)
    for r in b:
        if r[1] not in where or r[2] not in where:
            continue
        p, q = pts[where[r[1]]], pts[where[r[2]]]
        dd = ref.vsub(p, q)
        L = float(ref.dot(dd, dd)) ** .5
        ctx.expect(float(r[3]) < L < float(r[4]) and float(r[4]) - float(r[3]) < 0.05 and abs((float(r[3]) + float(r[4])) / 2 - L) < prec, what + ': bond length', got=r[3:5], want=L, **kw)
        ctx.expect(tuple(int(x) for x in r[-3:]) == colour, what + ': colour', got=r[-3:], want=colour, **kw)
    return [where[a[1]] for a in at]


def normal_file(ctx, pkg, path, o, colour, **kw):
    f = FIELD[pkg]
    mols, head, tail = files.vesta(path)
    if not ctx.expect(len(mols) == len(o) and head.startswith('#VESTA_FORMAT'), 'one molecule per simplex', got=len(mols), want=len(o), **kw):
        return
    titles = []
    for m, s in zip(mols, o):
        at = rows(ctx, m, 'normal', **kw)
        ok = len(at) == len(s) and all(all(near(a, b) for a, b in zip(p[2], ref.perp(v, f))) for p, v in zip(at, s))
        ctx.expect(ok, 'corners of each simplex', got=len(at), want=len(s), **kw)
        b, end = files.table(m, 'SBOND')
        ctx.expect(end and len(b) == 1 and tuple(int(x) for x in b[0][-3:]) == colour, 'bond colour', **kw)
        titles.append(tuple(map(tuple, m['TITLE'])))
    ctx.expect(len(set(titles)) == len(o), 'molecules have different titles', **kw)
    ctx.expect('ATOMT' in tail and 'SCENE' in tail and 'STYLE' in tail, 'file is complete', **kw)


def unique_edges(o, f):
    seen, E = set(), []
    for s in o:
        for e in combinations(s, 2):
            k = frozenset(pkey(v, f) for v in e)
            if k not in seen:
                seen.add(k)
                E.append(e)
    return E


def content(ctx, pkg, path, o, kind, **kw):
    """the file describes exactly the given points; o: list of groups of corners"""
    f = FIELD[pkg]
    n, title, atoms, trail = files.xyz(path)
    pts = [v for s in o for v in s]
    if not ctx.expect(n == len(pts) == len(atoms), kind + ' file: number of points', pkg=pkg, announced=n, found=len(atoms), want=len(pts), **kw):
        return
    for i, (x, y, z, ints, t) in enumerate(atoms):
        p = ref.perp(pts[i], f)
        ctx.expect(ints == [int(c) for tr in pts[i] for c in tr], kind + ' file: exact coordinates', pkg=pkg, i=i, **kw)
        ctx.expect(near(x, p[0]) and near(y, p[1]) and near(z, p[2]), kind + ' file: position', pkg=pkg, i=i, got=(x, y, z), **kw)
        nums = []
        for w in t[4:10]:
            d = w.split('-')[0]
            if d.isdigit():
                nums.append(int(d))
        k = len(o[0])
        want = [i] if kind == 'vertex' else [i // k, i % k]
        ctx.expect(nums == want, kind + ' file: numbering', pkg=pkg, i=i, got=nums, want=want, **kw)
    if kind == 'tetrahedron':
        vols = []
        for l in trail:
            t = l.replace(',', ' ').replace('=', ' ').split()
            k = next(j for j, w in enumerate(t) if w.startswith('('))
            vols.append((tuple(int(w) for w in t[k - 3:k]), float(t[k].strip('()'))))
        E = obj_perp(o, f)
        tot = obj_measure(o, f)
        want = [tot] + [simplex_measure(s, f) for s in E]
        ok = len(vols) == len(want) and all(ref.canon(v[0], f) == w.triple() and near(v[1], w) for v, w in zip(vols, want))
        ctx.expect(ok, 'volumes listed in the file', pkg=pkg, got=vols, want=[w.triple() for w in want], **kw)
