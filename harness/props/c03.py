"""C03  Projections to the physical and the internal space: exact, linear, numeric twin agrees."""
import numpy as np

import mc
import ref
from lib import *

ASSUMPTIONS = ['numeric functions are compared with 1e-9 relative tolerance']
TOL = 1e-9


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(b))


def trip(qs):
    return tuple(q.triple() for q in qs)


def suites(tier):
    big = tier == 'thorough'
    E = [(0, 0, 1), (1, 0, 1), (0, -1, 1), (-4, 6, -2), (2, 1, 3)] if not big else \
        [(0, 0, 1), (1, 0, 1), (0, -1, 1), (-4, 6, -2), (2, 1, 3), (-7, 5, 6), (3, 0, 9)]
    heads = list(product(E, repeat=2))
    tails = list(product(E, repeat=4))
    alph = E + [(10 ** 6 + 1, -10 ** 6, 7), (5, 0, -10), (0, 0, -3), (144, -89, 1), (-89, 55, 1)]

    def one(ctx, pkg, v):
        f, m, n = FIELD[pkg], mod(pkg, 'math1'), mod(pkg, 'numericalc')
        a = arr(v)
        pe, pi = ref.par(v, f), ref.perp(v, f)
        g = m.projection(a)
        ctx.expect(is_triple_array(g, (2, 3, 3)) and tup(g[0]) == trip(pe) and tup(g[1]) == trip(pi),
                   'projection', v=v, pkg=pkg, got=g)
        g = m.projection3(a)
        ctx.expect(is_triple_array(g, (3, 3)) and tup(g) == trip(pi), 'internal-space projection', v=v, pkg=pkg, got=g)
        ctx.step(2)
        if pkg == 'ico2':
            g = m.projection_perp(a)
            ok = is_triple_array(g, (6, 3))
            if ok:
                ok = trip(ref.perp(g, f)) == trip(pi) and all(q.iszero() for q in ref.par(g, f)) \
                    and all(canonical(t) for t in g)
            ctx.expect(ok, '6-d indices of the internal component', v=v, pkg=pkg, got=g)
            ctx.step()
        fv = [float(val(t, f)) for t in v]
        nv = n.numerical_vector(a)
        ctx.expect(len(nv) == 6 and all(close(x, y) for x, y in zip(nv, fv)), 'numeric vector', v=v, pkg=pkg, got=nv)
        fe, fi = [float(q) for q in pe], [float(q) for q in pi]
        sc = 1 + max(abs(x) for x in fv)
        for name, g, w in (('projection_numerical', n.projection_numerical(np.array(fv)), fe + fi),
                           ('projection3_numerical', n.projection3_numerical(np.array(fv)), fi),
                           ('get_internal_component_numerical', n.get_internal_component_numerical(a), fi)):
            ctx.expect(len(g) == len(w) and all(abs(x - y) <= TOL * sc for x, y in zip(g, w)), name, v=v, pkg=pkg, got=g, want=w)
        ln = n.length_numerical(a)
        ctx.expect(close(ln, sum(x * x for x in fv) ** .5), 'length', v=v, pkg=pkg, got=ln)
        ctx.step(5)

    def full(ctx, case):
        pkg, i = case
        for t in tails:
            v = [list(x) for x in heads[i] + t]
            one(ctx, pkg, v)
            ctx.state(pkg, i, t)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
        ctx.note(head=heads[i], vectors=len(tails))

    # one or two nonzero coordinates over a wide alphabet: every pair of positions and letters
    def pairs(ctx, case):
        pkg, i, j = case
        for x in alph:
            for y in alph:
                v = [[0, 0, 1] for _ in range(6)]
                v[i], v[j] = list(x), list(y)
                one(ctx, pkg, v)
                ctx.state('p', pkg, i, j, x, y)
            if len(ctx.violations) > 6:
                return
        ctx.trace()
        ctx.note(positions=[i, j])

    # sets of vectors: every ordering of every subset of a pool, projections row by row
    pool = [V(0, 0, 0, 0, 0, 0), V(1, 0, 0, 0, 0, 0), V(0, (0, 1, 1), 0, (1, 0, 2), 0, 0),
            V((1, 0, 2), (-1, 0, 2), (-1, 1, 3), (2, -1, 7), -1, (0, 0, 5)), V((4, 6, -2), 0, 1, (0, -1, 3), (3, 3, 9), 1)]
    picks = [p for k in (1, 2, 3, 4) for p in product(range(len(pool)), repeat=k)]

    def sets(ctx, case):
        pkg, ps = case
        f, n = FIELD[pkg], mod(pkg, 'numericalc')
        for p in ps:
            pts = arr([pool[i] for i in p])
            fv = [[float(val(t, f)) for t in pool[i]] for i in p]
            par = [[float(q) for q in ref.par(pool[i], f)] for i in p]
            per = [[float(q) for q in ref.perp(pool[i], f)] for i in p]
            both = [a + b for a, b in zip(par, per)]
            for name, g, w in (('numerical_vectors', n.numerical_vectors(pts), fv),
                               ('projection_sets_numerical', n.projection_sets_numerical(np.array(fv)), both),
                               ('projection3_sets_numerical', n.projection3_sets_numerical(np.array(fv)), per),
                               ('get_internal_component_sets_numerical', n.get_internal_component_sets_numerical(pts), per)):
                ctx.expect(g.shape == np.shape(w) and np.allclose(g, w, rtol=1e-9, atol=1e-9), name, pick=p, pkg=pkg, got=g)
                ctx.step()
            ctx.state('s', pkg, p)
        ctx.trace()

    # numeric values of numbers
    def numbers(ctx, case):
        pkg, a = case
        f, n = FIELD[pkg], mod(pkg, 'numericalc')
        R = range(-12, 13) if big else range(-6, 7)
        for b in R:
            for c in R:
                if c:
                    g = n.numeric_value(arr((a, b, c)))
                    ctx.expect(close(g, float(val((a, b, c), f))), 'numeric value', t=(a, b, c), pkg=pkg, got=g)
                    ctx.step()
                    ctx.state('n', pkg, a, b, c)
        ctx.trace()

    blocks = [picks[k:k + 20] for k in range(0, len(picks), 20)]
    return [
        mc.Suite('full', {'coordinates': E, 'vectors': len(E) ** 6}, [(p, i) for p in PKGS for i in range(len(heads))], full),
        mc.Suite('pairs', {'letters': alph, 'positions': 'all ordered pairs'},
                 [(p, i, j) for p in PKGS for i in range(6) for j in range(6) if i != j], pairs),
        mc.Suite('sets', {'pool': len(pool), 'max_set': 4}, [(p, b) for p in PKGS for b in blocks], sets),
        mc.Suite('numbers', {'range': 12 if big else 6}, [(p, a) for p in PKGS for a in (range(-12, 13) if big else range(-6, 7))], numbers),
    ]
