"""C29  Histories: any sequence of operations on an occupation domain gives the region the exact operations give."""
import mc
import ref
import choice
from lib import *
import domains as D
from props import c20

ASSUMPTIONS = ['occupation domains are sets of simplices with disjoint interiors', 'histories are pruned where an object exceeds 40 simplices']
READ = {'ico2': 'tetrahedron', 'dode2': 'triangle'}
LIMIT = 40
BIGNUM = 100


def suites(tier):
    big = tier == 'thorough'
    out = []
    CEN = V((1, 0, 2), 0, (1, 0, 2), 0, 0, 0)
    SHIFT = {'ico2': [V((1, 0, 4), 0, 0, (-1, 0, 4), 0, 0), V((1, -1, 4), (2, -1, 2), 0, 0, (-1, 1, 4), 0)],
             'dode2': [V((1, 0, 4), 0, (-1, 0, 4), 0, 0, 0), V((1, -1, 3), (2, -1, 5), 0, (-1, 1, 3), 0, 0)]}
    SYM = {'ico2': (7, 93), 'dode2': (5, 17)}
    OBJ = {p: {o[0]: o[1] for o in D.objects(p, 6)} for p in PKGS}
    NAMES = {p: list(OBJ[p]) for p in PKGS}
    START = {}
    for p in PKGS:
        n = NAMES[p]
        two = [x for x in n if len(OBJ[p][x]) == 2]
        START[p] = [(n[0], OBJ[p][n[0]]), (n[4], OBJ[p][n[4]]), (two[0], OBJ[p][two[0]]), (two[len(two) // 2], OBJ[p][two[len(two) // 2]])] + [(x, OBJ[p][x]) for x in n if x in ('star', 'box')]
    MEET = {}
    for p in PKGS:
        f = FIELD[p]
        n = NAMES[p]
        one = [x for x in n if len(OBJ[p][x]) == 1]
        two = [x for x in n if len(OBJ[p][x]) == 2 and not x.startswith('bis')]
        MEET[p] = [[D.scaled(OBJ[p][one[1]][0], F(3, 2), f)], OBJ[p][two[1]]]
    WEDGE = [D.POINTS['ico2'][i] for i in (1, 2, 3)]

    def operations(pkg, start):
        """name -> (function on the real object, model: exact region of the result as (measure, predicate on simplices))"""
        f = FIELD[pkg]
        od, tw = mod(pkg, 'occupation_domain'), mod(pkg, 'two_occupation_domains')
        R = []

        def mapped(img, fac=None):
            def m(cur):
                S = [[ref.perp(img(v), f) for v in s] for s in cur.tolist()]
                w = obj_measure(cur, f)
                return (w if fac is None else w * fac), lambda s: covered(s, S, f)
            return m

        def meet(B):
            PB = obj_perp(B, f)

            def m(cur):
                C = obj_perp(cur, f)
                w = Q(F(0), F(0), f)
                for s in C:
                    for t in PB:
                        if not separated(s, t, f):
                            w = w + pair_measure(s, t, f)
                return w, lambda s: covered(s, C, f) and covered(s, PB, f)
            return m
        same = mapped(lambda v: v)
        for i, v in enumerate(SHIFT[pkg]):
            R.append(('shift %d' % i, lambda x, v=v: od.shift(x, arr(v)), mapped(lambda u, v=v: D.addv(u, v, f))))
        ops = [D.imat(x) for x in D.symops(pkg)]
        for i in SYM[pkg]:
            R.append(('operation %d' % i, lambda x, i=i: od.symmetric_0(x, arr(CEN), i), mapped(lambda u, i=i: D.act(ops[i], u, CEN, f))))
        for i, B in enumerate(MEET[pkg] + [start]):
            R.append(('common %d' % i, lambda x, B=B: tw.intersection(x, arr(B)), meet(B)))
        R.append(('simplify', lambda x: od.simplification(x), same))

        def save(x):
            with mc.scratch() as d:
                od.write(x, path=d, basename='o', format='xyz', select=READ[pkg])
                return od.read_xyz(d, 'o', READ[pkg])
        R.append(('save', save, same))
        if pkg == 'dode2':
            for m in (1, -1):
                R.append(('similar %d' % m, lambda x, m=m: od.similarity(x, m), mapped(lambda u, g=c20.power(m): D.act(g, u, V(0, 0, 0, 0, 0, 0), f), c20.unit(m))))
        else:
            Z = V(0, 0, 0, 0, 0, 0)
            T = [Z] + [D.scalev(v, 5, f) for v in WEDGE]
            R.append(('asymmetric', lambda x: od.asymmetric(x, arr(Z), arr(WEDGE)), meet([T])))
        return R

    DEPTH = 4 if big else 3
    NOPS = {p: len(operations(p, MEET[p][0])) for p in PKGS}

    def history(ctx, case):
        pkg, i, first = case
        f, k = FIELD[pkg], SIMPLEX[pkg]
        od = mod(pkg, 'occupation_domain')
        name, o = START[pkg][i]
        R = operations(pkg, o)

        def rec(cur, seq):
            for j, (nm, fn, model) in enumerate(R):
                if not seq and j != first:
                    continue
                h = seq + [nm]
                keep = cur.copy()
                want, inside = model(cur)
                try:
                    g, _ = choice.run_once(lambda: fn(cur))
                    v = od.volume(g) if getattr(g, 'ndim', 0) in (3, 4) else None
                except OverflowError:
                    # numbers beyond 64 bits are refused, which only long numbers may cause
                    ctx.expect(np.abs(keep).max() >= BIGNUM, 'numbers of moderate size refused', pkg=pkg, start=name, seq=h, max=int(np.abs(keep).max()))
                    ctx.outcome('refused')
                    ctx.step()
                    ctx.trace()
                    continue
                if g is not None and getattr(g, 'ndim', 0) == 3:
                    g = g.reshape((1,) + g.shape)
                ctx.step()
                ctx.state(pkg, i, tuple(h))
                ok = check_region(ctx, g, want, inside, f, k, 'region after a sequence of operations', disjoint=(g is not None and len(g) <= 14), pkg=pkg, start=name, seq=h)
                ctx.expect(np.array_equal(cur, keep), 'operand unchanged', pkg=pkg, start=name, seq=h)
                if not ok or len(ctx.violations) > 3:
                    return
                if g is None:
                    ctx.outcome('nothing left')
                    ctx.trace()
                    continue
                ctx.expect(val(v, f) == want, 'measure after a sequence of operations', pkg=pkg, start=name, seq=h, got=v, want=want.triple())
                if len(g) > LIMIT:
                    ctx.outcome('pruned')
                    ctx.trace()
                elif len(h) < DEPTH:
                    rec(g, h)
                else:
                    ctx.trace()
        rec(arr(o), [])
        ctx.note(pkg=pkg, start=name, first=R[first][0])
    out.append(mc.Suite('histories', 'every sequence of %d operations (%s) on %d objects each' % (DEPTH, NOPS, len(START['ico2'])),
                        [(p, i, j) for p in PKGS for i in range(len(START[p])) for j in range(NOPS[p])], history))
    return out
