"""C20  Similarity transformation (dodecagonal): exact scaling, powers compose and cancel."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['powers up to the point where matrix entries fit in 2^53 (the code multiplies matrices in floating point)']
f = DODE
# the similarity matrix of the dodecagonal lattice and its inverse, as integer matrices
M1 = ((1, 1, 0, 0, 0, 0), (0, 1, 1, 0, 0, 0), (0, 0, 1, 1, 0, 0), (-1, 0, 1, 1, 0, 0), (0, 0, 0, 0, 1, 0), (0, 0, 0, 0, 0, 1))
MI = ((0, 0, 1, -1, 0, 0), (1, 0, -1, 1, 0, 0), (-1, 1, 1, -1, 0, 0), (1, -1, 0, 1, 0, 0), (0, 0, 0, 0, 1, 0), (0, 0, 0, 0, 0, 1))
ID = tuple(tuple(int(i == j) for j in range(6)) for i in range(6))
assert D.matmul(M1, MI) == ID


def power(m):
    r = ID
    for _ in range(abs(m)):
        r = D.matmul(r, M1 if m > 0 else MI)
    return r


def unit(m):
    """(2 - sqrt 3)^m: square of the internal scale"""
    u = Q(F(2), F(-2), f) if m > 0 else Q(F(2), F(2), f)
    r = Q(F(1), F(0), f)
    for _ in range(abs(m)):
        r = r * u
    return r


def suites(tier):
    big = tier == 'thorough'
    out = []
    L = 40
    Z = V(0, 0, 0, 0, 0, 0)
    vecs = D.POINTS['dode2'] + [V(1, 2, 3, 4, 5, 6), V((1, 1, 2), (-1, 0, 3), (2, -1, 1), 0, (0, 3, 4), (1, 0, 7)), V((4, 6, -2), (2, 0, 4), 1, (3, -3, 3), 0, (0, 0, 9))]
    vecs += [V(*[int(i == k) for i in range(6)]) for k in range(6)]

    def matrix(ctx, case):
        m = case
        sy = mod('dode2', 'symmetry')
        got = D.imat(sy.similarity(m))
        ctx.expect(got == power(m), 'similarity matrix to a power', m=m, got=got, want=power(m))
        ctx.step()
        ctx.state('m', m)
        ctx.trace()
    out.append(mc.Suite('matrix', 'powers -%d..%d' % (L, L), list(range(-L, L + 1)), matrix, chunk=4))

    def vector(ctx, case):
        m, part = case
        sy = mod('dode2', 'symmetry')
        g = power(m)
        u, w = unit(m), unit(-m)
        for i, v in enumerate(vecs):
            if i % 2 != part:
                continue
            got = sy.similarity_vec(arr(v), m)
            want = D.act(g, v, Z, f)
            ctx.expect(is_triple_array(got, (6, 3)) and tup(got) == want, 'similarity image of a vector', m=m, v=v, got=got, want=want)
            if is_triple_array(got, (6, 3)):
                for pr, s, name in ((ref.perp, u, 'internal'), (ref.par, w, 'physical')):
                    a, b = pr(v, f), pr(got, f)
                    la, lb = a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1]
                    ctx.expect(lb == la * s and a[2] == b[2], 'lengths in %s space scale by the unit' % name, m=m, v=v)
            ctx.step()
            ctx.state('v', m, i)
            if len(ctx.violations) > 8:
                return
        ctx.trace()
    R = 20 if big else 12
    out.append(mc.Suite('vector', '%d vectors x powers -%d..%d: image, exact scale in both spaces' % (len(vecs), R, R), [(m, p) for m in range(-R, R + 1) for p in (0, 1)], vector))

    S = D.simplices('dode2', 7)
    OBJ = [[D.simplex('dode2', c)] for c in S[::4]] + [[D.simplex('dode2', c) for c in S[i:i + n]] for i, n in ((0, 2), (3, 3), (5, 7))] + [o for _, o, _ in D.large('dode2')[:1]]

    def obj(ctx, case):
        i, m = case
        od, sy, ut = mod('dode2', 'occupation_domain'), mod('dode2', 'symmetry'), mod('dode2', 'utils')
        o = OBJ[i]
        g = power(m)
        A = arr(o)
        want = tuple(tuple(D.act(g, v, Z, f) for v in s) for s in o)
        got = od.similarity(A, m)
        ctx.expect(is_triple_array(got, A.shape) and tup(got) == want, 'similarity image of an object', i=i, m=m)
        got2 = sy.similarity_obj(A, m)
        ctx.expect(is_triple_array(got2, A.shape) and tup(got2) == want, 'similarity image of an object', i=i, m=m)
        got3 = sy.similarity_triangle(A[0], m)
        ctx.expect(is_triple_array(got3, A[0].shape) and tup(got3) == want[0], 'similarity image of a triangle', i=i, m=m)
        ctx.expect(np.array_equal(A, arr(o)), 'argument unchanged', i=i, m=m)
        if is_triple_array(got, A.shape):
            ctx.expect(obj_measure(got, f) == obj_measure(o, f) * unit(m), 'area scales by the unit', i=i, m=m)
        ctx.step(3)
        ctx.state('o', i, m)
        ctx.trace()
    RO = 8 if big else 5
    out.append(mc.Suite('object', '%d objects x powers -%d..%d' % (len(OBJ), RO, RO), [(i, m) for i in range(len(OBJ)) for m in range(-RO, RO + 1)], obj))

    # histories: all sequences of powers, results fed back
    steps = (-3, -2, -1, 0, 1, 2, 3) if big else (-2, -1, 0, 1, 3)
    depth = 4 if big else 3

    def history(ctx, case):
        first = case
        od = mod('dode2', 'occupation_domain')
        o = arr(OBJ[-3])
        frontier = {(first,): od.similarity(o, first)}
        for d in range(depth):
            nxt = {}
            for h, cur in frontier.items():
                total = sum(h)
                g = power(total)
                want = tuple(tuple(D.act(g, v, Z, f) for v in s) for s in OBJ[-3])
                ctx.expect(is_triple_array(cur, o.shape) and tup(cur) == want, 'a sequence of similarity steps equals one step by the sum of the powers', seq=h, total=total)
                ctx.state('h', h)
                ctx.step()
                if len(ctx.violations) > 4:
                    return
                if d + 1 < depth:
                    for m in steps:
                        nxt[h + (m,)] = od.similarity(cur, m)
            frontier = nxt
        ctx.trace(len(steps) ** (depth - 1))
    out.append(mc.Suite('history', 'all sequences of up to %d powers from %s' % (depth, list(steps)), list(steps), history))
    return out
