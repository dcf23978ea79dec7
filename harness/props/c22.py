"""C22  The asymmetric part of a symmetric icosahedral object is exactly its wedge."""
import mc
import ref
from lib import *
import domains as D

ASSUMPTIONS = ['the object lies within five times the given directions from the centre, the reach the routine documents']
PKG, f, K = 'ico2', ICO, 4
H = (1, 0, 2)


def suites(tier):
    big = tier == 'thorough'
    out = []
    P = D.POINTS[PKG]
    Z = P[0]
    G = D.group(PKG)
    half = Q(F(1, 2), F(0), f)
    CENTRES = [Z, V(H, 0, 0, 0, 0, 0), V(H, H, H, H, H, H), V((1, 1, 3), 0, (-1, 1, 4), 0, 0, (2, -1, 2)), V(2, -1, 0, (0, 1, 2), 1, 0)]
    # wedges: images of the fundamental one, and arbitrary triples of directions
    FUND = [P[1], P[2], P[3]]
    WEDGES = [('fundamental', FUND)]
    for n in range(0, 120, 7 if big else 23):
        WEDGES.append(('image %d' % n, [[list(x) for x in D.act(G[n], v, Z, f)] for v in FUND]))
    trip = [(4, 5, 6), (1, 5, 9), (4, 9, 10), (2, 6, 11), (1, 2, 4), (7, 5, 13), (3, 9, 6)]
    for t in trip if not big else trip + [c for c in combinations(range(1, 11), 3)][::5]:
        w = [P[i] for i in t]
        if not ref.tetvol([ref.perp(v, f) for v in [Z] + w]).iszero():
            WEDGES.append(('%s' % (t,), w))
    WEDGES.append(('reordered', FUND[::-1]))
    WEDGES.append(('renamed', [D.alias(PKG, v, i) for i, v in enumerate(FUND)]))
    WEDGES.append(('unreduced', [D.unreduced(v, 2) for v in FUND]))

    lar = {n: o for n, o, _ in D.large(PKG)}
    OBJ = [('icosahedron', lar['icosahedron'])]
    OBJ.append(('star of boxes', D.box(PKG, D.scalev(D.addv(D.addv(P[4], P[5], f), P[6], f), Q(F(-1, 2), F(0), f), f), P[4], P[5], P[6])))
    OBJ.append(('hollow', [D.scaled(s, F(1, 2), f, about=s[0]) for s in lar['icosahedron'][::2]]))
    OBJ.append(('off centre', D.shifted([D.simplex(PKG, D.simplices(PKG, 8)[i]) for i in (0,)], P[5], f)))
    OBJ.append(('outer shell', [[D.addv(v, s[1], f) for v in s] for s in lar['icosahedron'][:6:5]]))
    for i in range(0, len(D.simplices(PKG, 7)), 5):
        OBJ.append(('tetrahedron %d' % i, [D.simplex(PKG, D.simplices(PKG, 7)[i])]))

    def inreach(A, w, c):
        """the far face of the truncated wedge cuts nothing off"""
        W = [ref.perp(D.scalev(v, 5, f), f) for v in w]
        n = ref.cross(ref.vsub(W[1], W[0]), ref.vsub(W[2], W[0]))
        h = ref.dot(n, W[0])
        sg = h.sign()
        cp = ref.perp(c, f)
        return all((ref.dot(n, ref.vsub(p, cp)) - h).sign() * sg < 0 for s in A for p in s)

    def wedge(ctx, case):
        oi, ci = case
        od = mod(PKG, 'occupation_domain')
        name, o = OBJ[oi]
        c = CENTRES[ci]
        o = D.shifted(o, c, f)
        A = obj_perp(o, f)
        cp = ref.perp(c, f)
        for wi, (wn, w) in enumerate(WEDGES):
            if not inreach(A, w, c):
                ctx.outcome('beyond reach')
                continue
            T = [cp] + [ref.vadd(cp, ref.perp(D.scalev(v, 5, f), f)) for v in w]
            m = Q(F(0), F(0), f)
            for s in A:
                if not separated(s, T, f):
                    m = m + pair_measure(s, T, f)
            x, y, z = arr(o), arr(c), arr(w)
            g = od.asymmetric(x, y, z)
            check_region(ctx, g, m, lambda s: covered(s, A, f) and covered(s, [T], f), f, K, 'asymmetric part', disjoint=(g is not None and len(g) <= 16), obj=name, centre=ci, wedge=wn)
            ctx.expect(np.array_equal(x, arr(o)) and np.array_equal(y, arr(c)) and np.array_equal(z, arr(w)), 'arguments unchanged', obj=name, centre=ci, wedge=wn)
            ctx.step()
            ctx.state(oi, ci, wi)
            ctx.outcome('empty' if m.iszero() else 'part')
            if len(ctx.violations) > 4:
                return
        ctx.trace()
        ctx.note(obj=name, centre=ci, wedges=len(WEDGES))
    out.append(mc.Suite('wedges', '%d objects x %d centres x %d wedges' % (len(OBJ), len(CENTRES), len(WEDGES)),
                        [(i, j) for i in range(len(OBJ)) for j in range(len(CENTRES)) if big or i < 4 or (i + j) % 3 == 0], wedge))

    # seed -> symmetric -> asymmetric: the part is the seed's fundamental piece again and 120 copies of it make up the whole
    SEEDS = [('whole', [[Z] + FUND]), ('half', [D.scaled([Z] + FUND, F(1, 2), f, about=Z)]),
             ('shell', D.bisect([Z] + FUND, 0, 1, f)[:1]), ('two', D.bisect([Z] + FUND, 1, 2, f, F(1, 3))),
             ('star', D.star([Z] + FUND, f)), ('inner star', D.star([Z] + FUND, f)[1:])]
    # positions reached by every image of the wedge
    GI = list(range(0, 120, 1 if big else 40))

    def trip_(ctx, case):
        si, ci, gi = case
        od = mod(PKG, 'occupation_domain')
        name, seed = SEEDS[si]
        c = CENTRES[ci]
        full = od.symmetric(arr(D.shifted(seed, c, f)), arr(c))
        w = [[list(x) for x in D.act(G[gi], v, Z, f)] for v in FUND]
        img = [[[list(x) for x in D.act(G[gi], v, Z, f)] for v in s] for s in seed]
        A = obj_perp(D.shifted(img, c, f), f)
        m = Q(F(0), F(0), f)
        for s in A:
            m = m + simplex_measure(s, f)
        g = od.asymmetric(full, arr(c), arr(w))
        check_region(ctx, g, m, lambda s: covered(s, A, f), f, K, 'asymmetric part of a symmetric object', disjoint=(g is not None and len(g) <= 16), seed=name, centre=ci, image=gi)
        ctx.step(2)
        ctx.state('t', si, ci, gi)
        ctx.trace()
    out.append(mc.Suite('round_trip', '%d seeds x centres x wedge images: the asymmetric part of the generated object is the seed (its image)' % len(SEEDS),
                        [(s, c, g) for s in range(len(SEEDS)) for c in range(len(CENTRES)) for g in (GI if c < 2 else GI[:2])], trip_))
    return out
