"""C01  Number-field arithmetic is exact and canonical."""
from math import gcd

import numpy as np

import mc
from lib import *

ASSUMPTIONS = ['a result that does not fit in an int64 triple must be refused, not returned wrong',
               'operands are integer arrays of three components with non-zero denominator']

OPS = ['add', 'sub', 'mul', 'div']


def model(op, x, y):
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'mul':
        return x * y
    if y.iszero():
        return None
    return x / y


def judge(ctx, pkg, f, op, a, b, got, qa, qb):
    """a,b triples; compares one result with the model"""
    want = model(op, qa, qb)
    if want is None:
        ctx.expect(got is None, 'division by zero must yield no number', op=op, pkg=pkg, a=a, b=b, got=got)
        ctx.outcome('none')
        return None
    if got is None or not is_triple_array(got, (3,)):
        ctx.fail('result is not an integer triple', op=op, pkg=pkg, a=a, b=b, got=got)
        return None
    w = want.triple()
    g = tup(got)
    if g != w:
        if canonical(g):
            ctx.fail('wrong value', op=op, pkg=pkg, a=a, b=b, got=g, want=w)
        elif g[2] != 0 and val(g, f) == want:
            ctx.fail('value right but not in lowest terms with positive denominator', op=op, pkg=pkg, a=a, b=b,
                     got=g, want=w)
        else:
            ctx.fail('wrong value', op=op, pkg=pkg, a=a, b=b, got=g, want=w)
        return None
    return w


def suites(tier):
    big = tier == 'thorough'
    R = 5 if big else 3
    dens = [1, 2, 3, 4, 5, 6, 7, -1, -2, -3] if big else [1, 2, 3, 4, -1, -2]
    small = [(a, b, c) for c in dens for a in range(-R, R + 1) for b in range(-R, R + 1)]
    mags = [0, 1, -1, 6, -10, 97, 1000, -4097, 2 ** 16 + 1, -(2 ** 18) + 5, 2 ** 19 - 1]
    if big:
        mags += [-2, 12, 100, 999, -32768, 2 ** 17 + 3]
    bigs = [(a, b, c) for a in mags for b in mags for c in (1, 10, 1021, -(2 ** 18 + 3))]
    extra = [(a, b, c) for a in (0, 1, -2, 3) for b in (0, 1, -1, 5) for c in (1, 2, -7)]

    def pairs(ctx, case):
        pkg, which, i = case
        A, B = (small, small) if which == 'small' else (bigs, bigs if big else bigs[::3] + extra)
        f, m = FIELD[pkg], mod(pkg, 'math1')
        a = A[i]
        na, qa = arr(a), val(a, f)
        n = 0
        for b in B:
            nb, qb = arr(b), val(b, f)
            for op in OPS:
                got = getattr(m, op)(na, nb)
                w = judge(ctx, pkg, f, op, a, b, got, qa, qb)
                n += 1
                if w is not None:
                    ctx.state(pkg, w)
            if len(ctx.violations) > 10:
                break
        ctx.step(n)
        ctx.trace()
        ctx.note(a=a, operands=len(B), last=[op, list(b), got])

    # one operand from a wide square, so that no relation between its two parts is missed; the other from a few
    RW = 60 if big else 36
    FEW = [(1, 0, 1), (0, 1, 1), (3, 5, -4), (7, -2, 6)] + ([(-12, 36, 5), (0, -3, 2)] if big else [])

    def wide(ctx, case):
        pkg, a = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        few = [(t, arr(t), val(t, f)) for t in FEW]
        for b in range(-RW, RW + 1):
            t = (a, b, 3 if (a + b) % 2 else 1)
            nt, qt = arr(t), val(t, f)
            for u, nu, qu in few:
                for op in OPS:
                    judge(ctx, pkg, f, op, u, t, getattr(m, op)(nu, nt), qu, qt)
                judge(ctx, pkg, f, 'div', t, u, m.div(nt, nu), qt, qu)
                ctx.step(5)
            ctx.state('w', pkg, t)
            if len(ctx.violations) > 10:
                return
        ctx.trace()

    # operands near the edge of int64, with common factors so that many results are small
    B40, P31 = 2 ** 40, 2 ** 31 - 1
    H0 = [0, 1, -1, 3, 2 ** 31, -P31, B40, -B40 + 1, 10 ** 12, 3 * 10 ** 12, 7 ** 14, -(2 ** 55), 2 ** 61]
    huge = [(a, b, c) for a in H0 for b in H0[::2] for c in (1, 10 ** 6, -B40, 10 ** 12, 7 ** 14, 3 * P31)]

    def extreme(ctx, case):
        pkg, i = case
        f, m = FIELD[pkg], mod(pkg, 'math1')
        a = huge[i]
        qa = val(a, f)
        for b in huge[i % 3::3]:
            qb = val(b, f)
            for op in OPS:
                want = model(op, qa, qb)
                fits = want is None or all(-2 ** 63 <= x < 2 ** 63 for x in want.triple())
                try:
                    got = getattr(m, op)(arr(a), arr(b))
                except (OverflowError, ArithmeticError):
                    # refusing is right only when the result itself, or the operand's own lowest terms, cannot be stored
                    ctx.expect(not fits, 'a result that can be stored is refused', pkg=pkg, op=op, a=a, b=b)
                    ctx.outcome('refused')
                    ctx.step()
                    continue
                ctx.step()
                if not fits:
                    ctx.fail('a number is returned for a result that does not fit', pkg=pkg, op=op, a=a, b=b, got=got)
                else:
                    judge(ctx, pkg, f, op, a, b, got, qa, qb)
                ctx.state('x', pkg, a, b, op)
            if len(ctx.violations) > 10:
                return
        ctx.trace()

    gens = [(1, 0, 1), (0, 1, 1), (1, 0, 2), (-1, 1, 3), (2, -1, 1), (3, 5, -4)]

    def closure(ctx, case):
        """breadth-first search over the real operations: results are fed back as operands"""
        pkg, g0 = case
        depth = 4 if big else 3
        f, m = FIELD[pkg], mod(pkg, 'math1')
        start = getattr(m, 'add')(arr(gens[g0]), arr((0, 0, 1)))
        frontier, seen = [tup(start)], {tup(start)}
        for d in range(depth):
            nxt = []
            for s in frontier:
                if max(abs(x) for x in s) > 10 ** 5:
                    ctx.outcome('horizon')
                    continue
                ns, qs = arr(s), val(s, f)
                for g in gens:
                    ng, qg = arr(g), val(g, f)
                    for op in OPS:
                        for flip in (0, 1):
                            x, y, qx, qy = (ns, ng, qs, qg) if not flip else (ng, ns, qg, qs)
                            if flip and op in ('add', 'mul'):
                                got0 = getattr(m, op)(ns, ng)
                                got = getattr(m, op)(x, y)
                                ctx.expect(tup(got0) == tup(got), 'operation not commutative', op=op, pkg=pkg, a=s, b=g)
                            else:
                                got = getattr(m, op)(x, y)
                            w = judge(ctx, pkg, f, op, tup(x), tup(y), got, qx, qy)
                            ctx.step()
                            if w is not None and w not in seen:
                                seen.add(w)
                                nxt.append(w)
                                ctx.state('c', pkg, w)
                if len(ctx.violations) > 10:
                    return
            frontier = nxt
        ctx.trace(len(seen))
        ctx.outcome('depth%d' % depth)
        ctx.note(states=len(seen), depth=depth)

    out = [
        mc.Suite('pairs_small', 'all ordered pairs of (a,b,c), |a|,|b|<=%d, c in %s, 4 operations, both packages' % (R, dens),
                 [(p, 'small', i) for p in PKGS for i in range(len(small))], pairs, chunk=4),
        mc.Suite('pairs_large', 'pairs of triples with magnitudes up to 2^19 (products beyond 2^53), 4 operations',
                 [(p, 'big', i) for p in PKGS for i in range(len(bigs))], pairs, chunk=4),
        mc.Suite('wide', 'every operand with both parts up to %d against %d others' % (RW, len(FEW)), [(p, a) for p in PKGS for a in range(-RW, RW + 1)], wide, chunk=4),
        mc.Suite('extreme', 'operands up to 2^61 with common factors, 4 operations: right, or refused when it does not fit',
                 [(p, i) for p in PKGS for i in range(len(huge))], extreme, chunk=8),
        mc.Suite('closure', 'breadth-first over results fed back as operands, depth %d, 6 generators, 4 operations, both operand orders' % (4 if big else 3),
                 [(p, g) for p in PKGS for g in range(len(gens))], closure),
    ]
    return out
