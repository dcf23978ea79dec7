"""C17  XYZ files round-trip exactly, along any sequence of writes and reads."""
import os

import mc
import ref
import files
from filecheck import near, content
from lib import *
import domains as D

ASSUMPTIONS = ['coordinates for which the exact projection fits in 64-bit integers', 'real file system, in a scratch directory']
READ = {'ico2': 'tetrahedron', 'dode2': 'triangle'}


def suites(tier):
    big = tier == 'thorough'
    out = []

    def roundtrip(ctx, pkg, o, d, tag, via='write'):
        f, od = FIELD[pkg], mod(pkg, 'occupation_domain')
        a = arr(o)
        b = 'o'
        if via == 'write':
            r = od.write(a, path=d, basename=b, format='xyz', select=READ[pkg])
        else:
            r = od.write_xyz(a, d, b, READ[pkg], verbose=1)
        ctx.expect(r == 0, 'writing succeeds', pkg=pkg, tag=tag, got=repr(r))
        content(ctx, pkg, d + '/o.xyz', o, READ[pkg], tag=tag)
        g = od.read_xyz(d, b, READ[pkg])
        ctx.expect(is_triple_array(g, a.shape) and np.array_equal(g, a), 'object read back', pkg=pkg, tag=tag)
        g = od.read_xyz(d, b, 'vertex', 1)
        ctx.expect(is_triple_array(g, (a.shape[0] * a.shape[1], 6, 3)) and np.array_equal(g, a.reshape(-1, 6, 3)), 'corners read back', pkg=pkg, tag=tag)
        ctx.expect(np.array_equal(a, arr(o)), 'argument unchanged', pkg=pkg, tag=tag)
        ctx.step(3)

    # numbers: every triple of a bounded alphabet in every coordinate position
    MAG = [0, 1, -1, 7, -12, 99999, -1000003, 123456789] + ([2 ** 31, -2 ** 33 - 1, 10 ** 11] if big else [2 ** 31 + 5])
    DEN = [1, 2, -3, 7] + ([16, 1001, -1] if big else [])

    def numbers(ctx, case):
        pkg, pos = case
        P = D.POINTS[pkg]
        with mc.scratch() as d:
            for a, b in product(MAG, repeat=2):
                for k, c in enumerate(DEN):
                    if not big and (k + MAG.index(a) + MAG.index(b) + pos) % 2:
                        continue
                    o = [[[list(t) for t in v] for v in D.simplex(pkg, D.simplices(pkg, 6)[0])]]
                    o[0][(pos + k) % SIMPLEX[pkg]][pos] = [a, b, c]
                    try:
                        measures = [x.triple() for s in obj_perp(o, FIELD[pkg]) for v in s for x in v]
                        tot = obj_measure(o, FIELD[pkg]).triple()
                    except Exception:
                        raise
                    if max(abs(x) for t in measures + [tot] for x in t) > 2 ** 61:
                        ctx.outcome('measure does not fit')
                        continue
                    try:
                        roundtrip(ctx, pkg, o, d, (pos, a, b, c))
                    except OverflowError:
                        ctx.outcome('refused: volume does not fit')
                    ctx.state('n', pkg, pos, a, b, c)
                    if len(ctx.violations) > 6:
                        return
        ctx.trace()
    out.append(mc.Suite('numbers', 'magnitudes %r x denominators %r in each coordinate' % (MAG, DEN), [(p, i) for p in PKGS for i in range(6)], numbers))

    # numerators beyond the integers a double can hold, in files that list no measures
    BIG = [2 ** 53 + 1, -2 ** 53 - 3, 2 ** 56 + 5, -2 ** 57 - 9]

    def extreme(ctx, case):
        pkg, pos = case
        od = mod(pkg, 'occupation_domain')
        with mc.scratch() as d:
            for k, (a, b) in enumerate(product([0, 5] + BIG, repeat=2)):
                for c in (1, 3, -7):
                    if max(abs(a), abs(b)) < 2 ** 53:
                        continue
                    vs = [[list(t) for t in v] for v in D.simplex(pkg, D.simplices(pkg, 6)[0])]
                    vs[k % len(vs)][pos] = [a, b, c]
                    A = arr(vs)
                    for kind, x in (('vertex', A), ('edge', A[:2].reshape(1, 2, 6, 3))):
                        try:
                            r = od.write_xyz(x, d, 'v', kind)
                        except OverflowError:
                            ctx.outcome('refused')
                            continue
                        g = od.read_xyz(d, 'v', 'vertex')
                        ctx.expect(r == 0 and is_triple_array(g) and np.array_equal(g, x.reshape(-1, 6, 3)), 'corners with large numerators read back', pkg=pkg, kind=kind, number=(a, b, c), pos=pos)
                        ctx.step(2)
                    ctx.state('x', pkg, pos, a, b, c)
                    if len(ctx.violations) > 6:
                        return
        ctx.trace()
    out.append(mc.Suite('extreme', 'numerators beyond 2^53 in each coordinate, vertex and edge files', [(p, i) for p in PKGS for i in range(6)], extreme))

    OBJ = {p: D.objects(p, 7) for p in PKGS}
    LARGE = {p: [x for x in D.large(p)] for p in PKGS}

    def objects(ctx, case):
        pkg, part = case
        with mc.scratch() as d:
            for i, (name, o, _) in enumerate(OBJ[pkg]):
                if i % 8 != part or (not big and i % 3 and i > 60):
                    continue
                if i % 2:
                    o = [[D.unreduced(v, (2, -1, 3)[j % 3]) for j, v in enumerate(s)] for s in o]
                roundtrip(ctx, pkg, o, d, name, 'write' if i % 3 else 'write_xyz')
                ctx.state('o', pkg, i)
                if len(ctx.violations) > 6:
                    return
            for i, (name, o, _) in enumerate(LARGE[pkg]):
                if i % 8 == part:
                    roundtrip(ctx, pkg, o, d, name)
                    ctx.state('l', pkg, i)
            if part == 0:
                # more than 1000 simplices: numbering gets wider than its field
                s = D.simplex(pkg, D.simplices(pkg, 6)[0])
                roundtrip(ctx, pkg, [s] * 1003, d, '1003 simplices')
        ctx.trace()
    out.append(mc.Suite('objects', 'single simplices, pairs, subdivided, large (up to 1003 simplices), unreduced coordinates', [(p, i) for p in PKGS for i in range(8)], objects))

    # the other selections
    def selections(ctx, case):
        pkg, i = case
        f, od, u = FIELD[pkg], mod(pkg, 'occupation_domain'), mod(pkg, 'utils')
        name, o, _ = SEL[pkg][i]
        a = arr(o)
        with mc.scratch() as d:
            sel = [('edge', [list(e) for s in o for e in combinations(s, 2)]), ('vertex', [[v] for s in o for v in s]), ('triangle', [list(e) for s in o for e in combinations(s, 3)])]
            for kind, parts in sel:
                A = arr(parts) if kind != 'vertex' else arr([p[0] for p in parts])
                for via in ('write', 'write_xyz'):
                    r = od.write(A, path=d, basename=kind, format='xyz', select=kind) if via == 'write' else od.write_xyz(A, d, kind, kind)
                    ctx.expect(r == 0, 'writing succeeds', pkg=pkg, tag=name, kind=kind, got=repr(r))
                    content(ctx, pkg, d + '/%s.xyz' % kind, parts, kind, tag=name)
                    g = od.read_xyz(d, kind, 'vertex')
                    ctx.expect(is_triple_array(g) and np.array_equal(g, A.reshape(-1, 6, 3)), 'corners read back', pkg=pkg, tag=name, kind=kind)
                    ctx.step(2)
                ctx.state('s', pkg, i, kind)
        ctx.trace()
    SEL = {p: D.objects(p, 6)[:40:2] + [x for x in D.objects(p, 6) if x[0] in ('star', 'box', 'far')] for p in PKGS}
    out.append(mc.Suite('selections', 'edges, vertices and triangles of objects', [(p, i) for p in PKGS for i in range(len(SEL[p]))], selections, chunk=2))

    # histories over two files
    def history(ctx, case):
        pkg, first = case
        od = mod(pkg, 'occupation_domain')
        H = HIST[pkg]
        ops = [('w', b, k) for b in ('a', 'ab') for k in range(len(H))] + [('r', b) for b in ('a', 'ab')] + [('s', 'sub/x', 0)]
        depth = 4 if big else 3

        def snap(d):
            r = {}
            for base, _, names in os.walk(d):
                for n in names:
                    with open(os.path.join(base, n), 'rb') as fh:
                        r[os.path.relpath(os.path.join(base, n), d)] = fh.read()
            return r

        def restore(d, s):
            for base, _, names in os.walk(d):
                for n in names:
                    os.remove(os.path.join(base, n))
            for n, b in s.items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), 'wb') as fh:
                    fh.write(b)

        def apply(d, model, op):
            m = dict(model)
            if op[0] in 'ws':
                b = op[1]
                sub, base = os.path.split(b)
                r = od.write(arr(H[op[2]]), path=os.path.join('.', sub) if sub else '.', basename=base, format='xyz', select=READ[pkg])
                ctx.expect(r == 0, 'writing succeeds', pkg=pkg, op=op)
                m[b] = op[2]
            else:
                b = op[1]
                if b not in m:
                    return None
                g = od.read_xyz('.', b, READ[pkg])
                ctx.expect(is_triple_array(g) and np.array_equal(g, arr(H[m[b]])), 'what was written last is read', pkg=pkg, op=op, model=m)
                if is_triple_array(g) and g.shape == arr(H[m[b]]).shape:
                    # the object read is used as the next thing written
                    od.write(g, path='.', basename=b, format='xyz', select=READ[pkg])
            ctx.step()
            return m
        with mc.scratch() as d:
            m = apply(d, {}, ops[first])
            if m is None:
                ctx.trace()
                return
            front = [((ops[first],), m, snap(d))]
            for k in range(depth):
                nxt = []
                for h, m, s in front:
                    # every file holds exactly what the model says
                    for b, i in m.items():
                        restored = s.get(b + '.xyz')
                        ctx.expect(restored is not None, 'file exists', pkg=pkg, history=h, file=b)
                    ctx.expect(set(s) == {b + '.xyz' for b in m}, 'no other file is touched', pkg=pkg, history=h, files=sorted(s))
                    ctx.state('h', pkg, h)
                    if k + 1 == depth or len(ctx.violations) > 6:
                        continue
                    for op in ops:
                        restore(d, s)
                        m2 = apply(d, m, op)
                        if m2 is None:
                            continue
                        s2 = snap(d)
                        for b in m:
                            if b != op[1]:
                                ctx.expect(s2.get(b + '.xyz') == s.get(b + '.xyz'), 'another file is not affected', pkg=pkg, history=h + (op,), file=b)
                        nxt.append((h + (op,), m2, s2))
                front = nxt
                ctx.trace(len(front))
        ctx.note(pkg=pkg, first=ops[first])
    HIST = {}
    for p in PKGS:
        C = D.simplices(p, 7)
        s, t = D.simplex(p, C[0]), D.simplex(p, C[3])
        HIST[p] = [[s], D.star(t, FIELD[p]) + [s], [t, s]]
    nops = 2 * 3 + 2 + 1
    out.append(mc.Suite('histories', 'all sequences of up to %d writes and reads over three files and three objects of different length' % (4 if big else 3), [(p, i) for p in PKGS for i in range(nops)], history))

    def refuse(ctx, case):
        pkg = case
        od = mod(pkg, 'occupation_domain')
        with mc.scratch() as d:
            o = arr(HIST[pkg][1])
            od.write(o, path=d, basename='keep', format='xyz', select=READ[pkg])
            before = open(d + '/keep.xyz', 'rb').read()
            od.write(None, path=d, basename='keep', format='xyz', select=READ[pkg])
            od.write_xyz(None, d, 'keep')
            od.write_xyz(o[0], d, 'keep')
            ctx.expect(open(d + '/keep.xyz', 'rb').read() == before, 'a refused write leaves the file alone', pkg=pkg)
            ctx.expect(sorted(os.listdir(d)) == ['keep.xyz'], 'a refused write creates nothing', pkg=pkg)
            ctx.step(3)
            # new directories are made
            r = od.write(o, path=d + '/x/y', basename='b', format='xyz', select=READ[pkg])
            g = od.read_xyz(d + '/x/y', 'b', READ[pkg])
            ctx.expect(r == 0 and np.array_equal(g, o), 'write into a new directory', pkg=pkg)
        ctx.state('refuse', pkg)
        ctx.trace()
    out.append(mc.Suite('refused', 'empty object, wrong shape, new directory', PKGS, refuse))
    return out
