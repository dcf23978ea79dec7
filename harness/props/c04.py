"""C04  The symmetry operations are exactly the point group and act as isometries about any centre."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['reference group: lattice automorphisms isometric in both projections, found by search']
ID = tuple(tuple(int(i == j) for j in range(6)) for i in range(6))


def suites(tier):
    big = tier == 'thorough'
    N = {'ico2': 120, 'dode2': 24}

    def structure(ctx, case):
        pkg = case
        f = FIELD[pkg]
        ref_g = set(D.group(pkg))
        assert len(ref_g) == N[pkg]
        first = D.symops(pkg)
        ops = [D.imat(o) for o in first]
        ctx.expect(None not in ops, 'operations are 6x6 integer matrices', pkg=pkg)
        ctx.expect(len(ops) == N[pkg], 'number of operations', pkg=pkg, got=len(ops))
        ctx.expect(len(set(ops)) == len(ops), 'operations are distinct', pkg=pkg)
        ctx.expect(set(ops) == ref_g, 'operations are the full point group', pkg=pkg,
                   missing=len(ref_g - set(ops)), extra=len(set(ops) - ref_g))
        ctx.expect(len(ops) > 0 and ops[0] == ID, 'the first operation is the identity', pkg=pkg)
        S = set(ops)
        for a in ops:
            inv = False
            for b in ops:
                c = D.matmul(a, b)
                ctx.expect(c in S, 'closure', pkg=pkg, a=a, b=b)
                inv = inv or c == ID
                ctx.step()
                ctx.state(pkg, a, b)
            ctx.expect(inv, 'inverse', pkg=pkg, a=a)
            if len(ctx.violations) > 8:
                return
        # damaging a returned list must not change later answers; index i stays operation i
        for o in first:
            o *= 0
        del first[1:]
        again = [D.imat(o) for o in D.symops(pkg)]
        ctx.expect(again == ops, 'the list of operations is stable over calls', pkg=pkg)
        ctx.step()
        ctx.trace()
        ctx.note(pkg=pkg, order=len(ops))

    pts = [V(0, 0, 0, 0, 0, 0), V(1, 0, 0, 0, 0, 0), V((1, 0, 2), (-1, 0, 2), 0, (0, 1, 3), -1, (2, 1, 5)),
           V(1, 2, 3, 4, 5, 6), V((1, 1, 2), (-1, 0, 3), (2, -1, 1), 0, (0, 3, 4), (1, 0, 7)), V((4, 6, -2), (2, 0, 4), 1, (3, -3, 3), 0, (0, 0, 9)),
           V((5, -3, 1), (-8, 5, 1), 0, 0, (13, -8, 2), 1)]
    cens = [V(0, 0, 0, 0, 0, 0), V(0, 1, 0, 0, 0, 0), V((1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2), (1, 0, 2)),
            V((0, 1, 3), -1, (2, -1, 5), 0, 1, (1, 1, 2)), V((2, 0, 4), (0, 0, 5), (-3, 6, -3), 1, 0, 0)]
    # every centre with exactly one non-zero coordinate, and with exactly one zero coordinate
    cens += [V(*[(1, 0, 2) if i == k else 0 for i in range(6)]) for k in range(6)]
    cens += [V(*[0 if i == k else (1, 1, 3) if i % 2 else -1 for i in range(6)]) for k in range(6)]
    if big:
        pts = pts + D.POINTS['ico2'] + D.POINTS['dode2']
        cens = cens + D.POINTS['ico2'][1:6]

    def action(ctx, case):
        pkg, i = case
        f, s = FIELD[pkg], mod(pkg, 'symmetry')
        op = D.symops(pkg)[i]
        g = D.imat(op)
        for ci, c in enumerate(cens):
            im = []
            for pi, p in enumerate(pts):
                want = D.act(g, p, c, f)
                got = s.symop_vec(op, arr(p), arr(c))
                im.append(want)
                ctx.expect(is_triple_array(got, (6, 3)) and tup(got) == want, 'symmetry operation on a vector about a centre',
                           pkg=pkg, op=i, v=p, c=c, got=got, want=want)
                # isometry in both spaces, exactly, from the observed image
                if is_triple_array(got, (6, 3)):
                    for pr in (ref.par, ref.perp):
                        x, y, z = pr(p, f), pr(got, f), pr(c, f)
                        d1, d2 = ref.vsub(x, z), ref.vsub(y, z)
                        ctx.expect(ref.dot(d1, d1) == ref.dot(d2, d2), 'distance to the centre preserved', pkg=pkg, op=i, v=p, c=c)
                ctx.step()
                ctx.state(pkg, i, ci, pi)
            n = len(pts)
            A = arr(pts)
            got = s.symop_vecs(op, A, arr(c))
            ctx.expect(tup(got) == tuple(im), 'symmetry operation on a set of vectors', pkg=pkg, op=i, c=c)
            got = s.symop_obj(op, A, arr(c))
            ctx.expect(tup(got) == tuple(im), 'symmetry operation on an object (3 dimensions)', pkg=pkg, op=i, c=c)
            got = s.symop_obj(op, A[0], arr(c))
            ctx.expect(tup(got) == im[0], 'symmetry operation on an object (2 dimensions)', pkg=pkg, op=i, c=c)
            k = SIMPLEX[pkg]
            o4 = [[pts[(j + t) % n] for t in range(k)] for j in range(3)]
            w4 = tuple(tuple(im[(j + t) % n] for t in range(k)) for j in range(3))
            got = s.symop_obj(op, arr(o4), arr(c))
            ctx.expect(tup(got) == w4, 'symmetry operation on an object (4 dimensions)', pkg=pkg, op=i, c=c)
            ctx.step(4)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
        ctx.note(pkg=pkg, op=i)

    # centres with every pattern of zero coordinates, points with every pattern relative to the centre
    def zeros(ctx, case):
        pkg, pat = case
        f, s = FIELD[pkg], mod(pkg, 'symmetry')
        z = [bool(pat >> k & 1) for k in range(6)]
        c = V(*[(((1, 0, 2), (0, 1, 3), -1, (2, -1, 5), 1, (1, 1, 2))[k] if z[k] else 0) for k in range(6)])
        P = [V(*[0 if z[k] else (k + 1, -1, 2) for k in range(6)]), V(1, (1, 0, 3), (0, 2, 5), -1, 2, (3, -1, 4)), c, D.addv(c, V(0, 0, 1, 0, 0, 0), f)]
        for i, op in enumerate(D.symops(pkg)):
            g = D.imat(op)
            want = tuple(D.act(g, p, c, f) for p in P)
            got = tuple(tup(s.symop_vec(op, arr(p), arr(c))) for p in P)
            ctx.expect(got == want, 'symmetry operation on a vector about a centre', pkg=pkg, op=i, c=c, got=got, want=want)
            ctx.step(len(P))
            ctx.state('z', pkg, pat, i)
            if len(ctx.violations) > 8:
                return
        ctx.trace()

    # every history of two operations equals the operation of the product
    def pairs(ctx, case):
        pkg, i = case
        f, s = FIELD[pkg], mod(pkg, 'symmetry')
        ops = D.symops(pkg)
        g = [D.imat(o) for o in ops]
        p, c = pts[4], cens[3]
        for j in range(len(ops)):
            step1 = s.symop_vec(ops[j], arr(p), arr(c))
            got = s.symop_vec(ops[i], step1, arr(c))
            ctx.expect(tup(got) == D.act(D.matmul(g[i], g[j]), p, c, f), 'two operations in a row equal their product',
                       pkg=pkg, first=j, second=i, got=got)
            ctx.step(2)
            ctx.state('p', pkg, i, j)
            if len(ctx.violations) > 8:
                return
        ctx.trace()

    return [
        mc.Suite('structure', {'products': 'all ordered pairs'}, PKGS, structure),
        mc.Suite('action', {'operations': 'all', 'points': len(pts), 'centres': len(cens)},
                 [(p, i) for p in PKGS for i in range(N[p])], action, chunk=4),
        mc.Suite('zero_patterns', {'centres': 'all 64 patterns of zero coordinates', 'operations': 'all'}, [(p, t) for p in PKGS for t in range(64)], zeros, chunk=2),
        mc.Suite('pairs', {'history': 'all two-step histories of operations'},
                 [(p, i) for p in PKGS for i in range(N[p])], pairs, chunk=2),
    ]
