"""C19  Site symmetry and coset representatives (dodecagonal)."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['lattice translations: all integer vectors in the first four (five) coordinates']
f = DODE
Z = V(0, 0, 0, 0, 0, 0)


def stabiliser(site, ops, ndim):
    out = []
    for i, g in enumerate(ops):
        im = D.act(g, site, Z, f)
        d = [val(a, f) - val(b, f) for a, b in zip(im, site)]
        ok = all(x.triple()[1] == 0 and x.triple()[2] == 1 for x in d[:ndim]) and all(x.iszero() for x in d[ndim:])
        if ok:
            out.append(i)
    return out


def suites(tier):
    big = tier == 'thorough'
    out = []
    DEN = [2, 3, 4, 6] + ([5, 12] if big else [])
    sites = []
    seen = set()
    for n in (2, 3):
        for c in product(range(n), repeat=4):
            sites.append(V(*[(x, 0, n) if x else 0 for x in c], 0, 0))
    for n in (4, 6) if not big else (4, 5, 6):
        al = [0, 1, n - 1, n // 2] if not big else list(range(n))
        for c in product(al, repeat=4):
            if len(set(c)) <= 2 or (big and n == 4):
                sites.append(V(*[(x, 0, n) if x else 0 for x in c], 0, 0))
    ir = [0, (0, 1, 1), (1, 1, 2), (1, 0, 2)]
    for c in product(ir, repeat=4):
        if len(set(map(str, c))) <= 2:
            sites.append(V(*c, 0, 0))
    # outside the cell, negative, with a height, unreduced
    for c in ((1, 0, 0, 0), (-1, 0, 0, 0), (2, 0, 0, 0), (1, 1, 1, 1), (0, -2, 0, 1), ((-1, 0, 2), 0, 0, 0), ((3, 0, 2), 0, (1, 0, 2), 0), ((-1, 0, 3), (4, 0, 3), 0, (-2, 0, 3))):
        sites.append(V(*c, 0, 0))
    for h in ((1, 0, 2), (1, 0, 3), (0, 1, 5), 1, -3):
        sites.append(V(0, 0, 0, 0, h, 0))
        sites.append(V((1, 0, 2), 0, (1, 0, 2), 0, h, 0))
    sites.append(V((2, 0, 4), (0, 0, 3), (-3, 0, -6), 0, 0, 0))
    uniq = []
    for s in sites:
        k = str(s)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    sites = uniq

    def run(ctx, case):
        i, ndim = case
        sy = mod('dode2', 'symmetry')
        s = sites[i]
        ops = [D.imat(o) for o in sy.dodesymop()]
        want = stabiliser(s, ops, ndim)
        G = {o: k for k, o in enumerate(ops)}
        g1 = sy.site_symmetry(arr(s), ndim)
        ctx.expect(sorted(int(x) for x in g1) == want, 'site symmetry is the stabiliser of the site modulo the lattice', site=s, ndim=ndim, got=g1, want=want)
        cs = sy.coset(arr(s), ndim)
        r = sy.site_symmetry_and_coset(arr(s), ndim, i % 2)
        ctx.step(3)
        for name, c in (('coset', cs), ('site_symmetry_and_coset', r[1])):
            c = [int(x) for x in c]
            prod = [G[D.matmul(ops[a], ops[b])] for a in c for b in want]
            ok = sorted(prod) == list(range(len(ops)))
            ctx.expect(ok and c[0] == 0, 'coset representatives and site symmetry give every operation exactly once', call=name, site=s, ndim=ndim, coset=c, stabiliser=want)
            # the representatives generate the distinct equivalent positions
            pos = {tuple(D.act(ops[a], s, Z, f)) for a in c}
            ctx.expect(len(pos) == len(c), 'coset representatives give different positions', site=s, ndim=ndim, coset=c)
        ctx.expect(sorted(int(x) for x in r[0]) == want, 'site symmetry (combined call)', site=s, ndim=ndim, got=r[0], want=want)
        ctx.state(i, ndim)
        ctx.outcome('order %d' % len(want))
        ctx.trace()
        ctx.note(site=s, ndim=ndim, order=len(want), coset=len(cs))
    out.append(mc.Suite('sites', '%d sites (all of denominators 2 and 3, two-valued ones of 4 and 6, irrational, outside the cell, with a height) x dimension 4, 5' % len(sites),
                        [(i, n) for i in range(len(sites)) for n in ((4, 5) if big or i % 6 == 0 or i > len(sites) - 22 else (5 if i % 2 else 4,))], run, chunk=2))

    def lists(ctx, case):
        """small list helpers: every pair of lists over a small alphabet"""
        sy = mod('dode2', 'symmetry')
        a = case
        r = sy.remove_overlaps(list(a))
        ctx.expect(r == sorted(set(a)), 'each element once', a=a, got=r)
        for n in range(3):
            for b in product(range(3), repeat=n):
                r = sy.find_overlaps(list(a), list(b))
                if len(set(a)) == len(a) and len(set(b)) == len(b):
                    ctx.expect(bool(r) == bool(set(a) & set(b)), 'lists with a common element', a=a, b=b, got=r)
                ctx.step()
        ctx.state('l', a)
        ctx.trace()
    out.append(mc.Suite('lists', 'all lists over 3 elements up to length 4', [a for n in range(5) for a in product(range(3), repeat=n)], lists, chunk=20))

    def trans(ctx, case):
        sy = mod('dode2', 'symmetry')
        t = sy.translation(case)
        ok = all(is_triple_array(x, (6, 3)) and all(int(c[1]) == 0 and int(c[2]) == 1 for c in x) and all(int(c[0]) == 0 for c in x[case:]) for x in t)
        ctx.expect(ok, 'translations are lattice vectors of the given dimension', ndim=case)
        S = {tuple(int(c[0]) for c in x) for x in t}
        ctx.expect(S >= {tuple(c) + (0,) * (6 - case) for c in product((-1, 0, 1), repeat=case)}, 'all neighbouring cells', ndim=case)
        ctx.step()
        ctx.state('t', case)
        ctx.trace()
    out.append(mc.Suite('translations', 'dimension 4, 5', [4, 5], trans))
    return out
