"""C27  The compiled dodecagonal package generates exactly the atoms whose internal positions lie in their domains."""
import os
from itertools import product

import numpy as np

import legacy as L
import mc
import ref
import domains as D
from lib import *

ASSUMPTIONS = ['lattice points nearer to the border of a domain than the 1e-6 tolerance, but not on it, may go either way',
               'the modules are compiled from the working tree into a scratch directory of the run']
f = DODE


def proj_matrix(fn):
    cols = []
    for k in range(6):
        e = [[0, 0, 1]] * 6
        e[k] = [1, 0, 1]
        cols.append([float(x) for x in fn(e, f)])
    return np.array(cols).T


def fl(v):
    return np.array([float(val(t, f)) for t in v])


def area(a, b, c):
    return 0.5 * abs((b[..., 0] - a[..., 0]) * (c[..., 1] - a[..., 1]) - (b[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0]))


def suites(tier):
    big = tier == 'thorough'
    L.build({'dode': None})
    PAR, PERP = proj_matrix(ref.par), proj_matrix(ref.perp)
    objs = {n: o for n, o, _ in D.objects('dode2', 6)}
    lar = {n: o for n, o, _ in D.large('dode2')}
    names = list(objs)
    pool = [('dodecagon', lar['dodecagon']), ('dodecagram', lar['dodecagram'])] + [(n, objs[n]) for n in names[:: 1 if big else 7]] + \
           [(n, objs[n]) for n in ('star', 'near+far', 'box') if n in objs]
    H = (1, 0, 2)
    Z = V(0, 0, 0, 0, 0, 0)
    POS = [Z, V(H, 0, 0, H, 0, 0), V(0, 1, (1, 1, 3), 0, (1, 0, 3), 0), V((2, -1, 5), (1, 0, 4), -1, (0, 1, 2), 0, 0)]
    SHIFT = [[0.0] * 6, [0.013, -0.021, 0.0071, 0.0317, 0.0, 0.0], [0.5, 0.0, 0.25, -0.125, 0.0, 0.0], [-0.237, 0.411, 0.0, 0.0, 0.3, 0.0]]
    PH = [np.array([[0.0]]), np.array([[0.1, 0.0], [0.0, 0.1]]), np.array([[0.0, 0.07], [-0.07, 0.0]]), np.array([[0.05, -0.02], [0.11, 0.3]]), np.array([[0.0, 0.2], [0.0, 0.0]])]

    def expected(objl, posl, ph, nmax, esh, shift):
        """rows that must be there, rows that may be there"""
        U = np.zeros((3, 3))
        if ph.shape == (2, 2):
            U[:2, :2] = ph
        perp = PERP + U.T @ PAR
        r = range(-nmax, nmax + 1)
        hs = np.array([list(h) + [0, 0] for h in product(r, repeat=4)], dtype=float)
        pp = hs @ perp.T - perp @ np.array(shift)
        must, may = [], []
        for k, o in enumerate(objl):
            tri = np.array([[[float(x) for x in p] for p in s] for s in obj_perp(o, f)])
            best = np.full(len(hs), np.inf)
            for a, b, c in tri:
                ex = area(pp, b, c) + area(a, pp, c) + area(a, b, pp) - area(a, b, c)
                best = np.minimum(best, np.abs(ex))
            # internal points are compared in the plane only when their third component vanishes
            off = np.abs(pp[:, 2] - tri[0, 0, 2]) > 1e-9
            xyz = hs @ PAR.T - PAR @ fl(posl[k]) - PAR @ fl(esh[k])
            for i in range(len(hs)):
                if off[i]:
                    continue
                row = (tuple(int(x) for x in hs[i, :4]), k)
                if best[i] < 1e-9:
                    must.append((row, xyz[i]))
                elif best[i] < 1e-5:
                    may.append((row, xyz[i]))
        return dict(must), dict(may)

    def atoms(ctx, case):
        oi, n2, nmax, pi = case
        sel = [pool[oi]] + ([pool[(oi * 3 + 1) % len(pool)]] if n2 else [])
        for si, hi in product(range(len(SHIFT)), range(len(PH))):
            if not big and (pi + si + hi + oi) % 3:
                continue
            posl = [POS[(pi + k) % len(POS)] for k in range(len(sel))]
            esh = [POS[(pi + si + 2 * k) % len(POS)] for k in range(len(sel))]
            must, may = expected([o for _, o in sel], posl, PH[hi], nmax, esh, SHIFT[si])
            got = L.mod('dode', 'strc12').strc([arr(o) for _, o in sel], [arr(p) for p in posl], PH[hi].copy(), nmax, [arr(e) for e in esh], list(SHIFT[si]), 0)
            d = dict(objs=[n for n, _ in sel], pos=pi, shift=si, phason=hi, nmax=nmax)
            seen = set()
            for row in np.asarray(got):
                if not ctx.expect(len(row) == 8, 'a row: position, domain, indices', row=row, **d):
                    return
                k = (tuple(int(round(x)) for x in row[4:8]), int(round(row[3])))
                ctx.expect(k not in seen, 'an atom occurs once', atom=k, **d)
                seen.add(k)
                w = must.get(k, may.get(k))
                if ctx.expect(w is not None, 'an atom whose internal position is outside its domain', atom=k, **d):
                    ctx.expect(np.abs(row[:3] - w).max() < 1e-9, 'position of the atom', atom=k, got=row[:3], want=w, **d)
            ctx.expect(set(must) <= seen, 'an atom is missing', missing=sorted(set(must) - seen)[:3], **d)
            ctx.step((2 * nmax + 1) ** 4 * len(sel))
            ctx.state(oi, n2, nmax, pi, si, hi)
            ctx.outcome('some' if must else 'none')
            if len(ctx.violations) > 4:
                return
        ctx.trace()

    ATM = ['Al', 'Co', 'Xx']

    def files_(ctx, case):
        oi, option, hi = case
        sel = [pool[oi], pool[(oi + 1) % len(pool)], pool[(oi + 4) % len(pool)]][: 1 + oi % 3]
        posl = [POS[(oi + k) % len(POS)] for k in range(len(sel))]
        esh = [POS[(2 * k) % len(POS)] for k in range(len(sel))]
        sh = SHIFT[(oi + hi) % len(SHIFT)]
        ph = PH[hi]
        must, may = expected([o for _, o in sel], posl, ph, 2, esh, sh)
        arg = {0: np.array([[0.0, 0.0], [0.0, 0.0]])}.get(hi, ph) if oi % 2 else ph
        d = dict(objs=[n for n, _ in sel], option=option, phason=hi)
        with mc.scratch() as dr:
            r = L.mod('dode', 'occupation_domain').qcstrc([arr(o) for _, o in sel], [arr(p) for p in posl], dr, 'q', ATM[:len(sel)], arg.copy(), 2, [arr(e) for e in esh], list(sh), 0, option)
            ctx.expect(r == 0, 'generation succeeds', **d)
            with open(os.path.join(dr, 'q.xyz')) as fh:
                T = fh.read().split('\n')
        body = [l.split() for l in T[2:] if l.strip()]
        ctx.expect(int(T[0]) == len(body), 'number of atoms announced', got=T[0], want=len(body), **d)
        left = {}
        for k, w in list(must.items()) + list(may.items()):
            left.setdefault((ATM[k[1]],) + tuple(np.round(w, 3) + 0.0), []).append((k, w))
        found = set()
        for t in body:
            p = np.array([float(x) for x in t[1:4]])
            hit = None
            key = [a for dx in (-1e-3, 0, 1e-3) for dy in (-1e-3, 0, 1e-3) for dz in (-1e-3, 0, 1e-3) for a in left.get((t[0],) + tuple(np.round(p + [dx, dy, dz], 3) + 0.0), [])]
            for k, w in key:
                if k in found or np.abs(w - p).max() > 6e-7:
                    continue
                if option == 1 and tuple(int(x) for x in t[5:9]) != k[0]:
                    continue
                hit = k
                break
            if not ctx.expect(hit is not None, 'a line of the file that is no atom of the structure', line=t, **d):
                return
            found.add(hit)
        ctx.expect(set(must) <= found, 'atoms missing in the file', missing=sorted(set(must) - found)[:3], **d)
        ctx.step(625 * len(sel))
        ctx.state('f', oi, option, hi)
        ctx.trace()

    n = len(pool)
    return [
        mc.Suite('atoms', '%d domains alone and in pairs, positions x origin shifts x phason matrices, all lattice points with |h|<=%d' % (n, 2 if big else 1),
                 [(i, t, 2, p) for i, t in ((0, 0), (1, 0), (0, 1)) for p in range(len(POS))] + [(i, t, m, p) for m in ((2, 1) if big else (1,)) for i in range(n) for t in (0, 1) for p in range(len(POS))], atoms),
        mc.Suite('files', 'one to three domains, with and without indices, all phason matrices', [(i, o, h) for i in range(n) for o in (0, 1) for h in range(len(PH))], files_),
    ]
