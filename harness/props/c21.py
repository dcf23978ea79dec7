"""C21  Operations neither modify their arguments nor depend on what ran before.

Every ordered pair of (operation, argument set) is run as a history in a child process that has run nothing else
first; each result is compared bit for bit with the result of the same operation alone in a fresh child."""
import hashlib
import os
import pickle
import sys

import mc
import ref
import choice
from lib import *
import domains as D

ASSUMPTIONS = ['random picks are fixed to the first alternative, so that a result is a function of the arguments',
               'two to four argument sets per operation, shared in shape, differing in value or in representation only']


# ---------------------------------------------------------------- the operations
def operations():
    """list of (label, pkg, module, function, args, kwargs); args are nested python data or thunks"""
    ops = []

    def add(pkg, module, fn, *argsets, **kw):
        for n, a in enumerate(argsets):
            ops.append(('%s.%s.%s#%d' % (pkg, module, fn, n), pkg, module, fn, a, kw))
    for pkg in PKGS:
        f, k = FIELD[pkg], SIMPLEX[pkg]
        P = D.POINTS[pkg]
        ic = pkg == 'ico2'
        C = D.simplices(pkg, 8)
        s0, s1, s2 = [D.simplex(pkg, C[i]) for i in (0, 1, len(C) // 2)]
        sc = D.scaled(s0, F(1, 2), f)
        o1 = [s0]
        o2 = D.bisect(s0, 0, 1, f)
        o3 = D.box(pkg, P[0], P[4], P[5], P[6]) if ic else D.box(pkg, P[0], P[1], P[2])
        o4 = [D.scaled(s, F(1, 2), f) for s in o3]
        o5 = D.star(s0, f)
        al = [[D.alias(pkg, v, i) for i, v in enumerate(s)] for s in o2]
        A = arr
        a, b, c, d = A([1, 2, 3]), A([2, 4, 6]), A([-5, 3, 2]), A([0, 1, 1])
        for fn in ('add', 'sub', 'mul', 'div'):
            add(pkg, 'math1', fn, (a, c), (b, c), (c, a), (d, d))
        v, w, x = A(P[12]), A(P[13]), A(D.unreduced(P[13], 2))
        for fn in ('add_vectors', 'sub_vectors', 'inner_product'):
            add(pkg, 'math1', fn, (v, w), (w, v), (v, x), (w, w))
        add(pkg, 'math1', 'outer_product', (v[:3], w[:3]), (w[:3], v[:3]), (v[1:4], w[:3]))
        add(pkg, 'math1', 'mul_vector', (v, a), (v, c), (w, a), (w, d))
        add(pkg, 'math1', 'mul_vectors', (A(s0), a), (A(s1), a), (A(s1), c), (A(o2), d))
        m, n = A([[[1, 2, 3], [0, 1, 1]], [[2, 0, 1], [1, 1, 2]]]), A([[[0, 1, 1], [1, 0, 2]], [[1, 0, 1], [3, -1, 2]]])
        add(pkg, 'math1', 'dot_product', (m, n), (n, m), (m, m), (m, v[:2]))
        i6, j6 = np.array(D.group(pkg)[3]), np.array(D.group(pkg)[5])
        add(pkg, 'math1', 'dot_product_1', (i6, v), (j6, v), (i6, w))
        for fn in ('projection', 'projection3', 'projection_perp'):
            add(pkg, 'math1', fn, (v,), (w,), (x,))
        add(pkg, 'math1', 'centroid', (A(s0),), (A(s1),), (A(s0[::-1]),))
        add(pkg, 'math1', 'centroid_obj', (A(o2),), (A(o3),), (A(o5),))
        add(pkg, 'math1', 'coplanar_check', (A(s0),), (A(s0 + s1[:1]),), (A(P[:5]),))
        add(pkg, 'math1', 'matrixpow', (i6, 3), (j6, 3), (i6, 2), (i6, 0))
        q3 = np.array([[[2, 1, 1], [0, 1, 2], [1, 0, 1]], [[1, 0, 3], [1, 1, 1], [0, 0, 1]], [[0, 2, 1], [1, 0, 1], [1, -1, 2]]])
        add(pkg, 'math1', 'det_matrix', (q3,), (q3[::-1].copy(),), (q3[:, ::-1].copy(),))
        # numerical
        fs = lambda s: np.array([[float(y) for y in ref.perp(u, f)] for u in s])
        for fn in ('numeric_value',):
            add(pkg, 'numericalc', fn, (a,), (b,), (c,))
        for fn in ('numerical_vector', 'length_numerical', 'get_internal_component_numerical'):
            add(pkg, 'numericalc', fn, (v,), (w,), (x,))
        for fn in ('numerical_vectors', 'get_internal_component_sets_numerical'):
            add(pkg, 'numericalc', fn, (A(s0),), (A(s1),))
        vn = np.array([[0.5, 1.0, -2.0, 0.25, 3.0, 1.5], [1.0, 0.0, 2.0, -1.0, 0.5, 0.125]])
        for fn in ('projection_numerical', 'projection3_numerical'):
            add(pkg, 'numericalc', fn, (vn[0],), (vn[1],))
        for fn in ('projection_sets_numerical', 'projection3_sets_numerical'):
            add(pkg, 'numericalc', fn, (vn,), (vn[::-1].copy(),))
        add(pkg, 'numericalc', 'coplanar_check_numeric_tau', (A(s0),), (A(P[:5]),))
        g = D.centroid(s0, f)
        add(pkg, 'numericalc', 'point_on_segment', (A(g), A(s0[:2])), (A(s0[0]), A(s0[:2])), (A(s0[0]), A(s0[1:3])))
        add(pkg, 'numericalc', 'on_out_surface', (A(g), A(s0[:3])), (A(s0[0]), A(s0[:3])), (A(s0[0]), A(s1[-3:])))
        add(pkg, 'numericalc', 'check_intersection_segment_surface_numerical_6d_tau', (A([g, P[9]]), A(s0[:3])), (A([P[9], g]), A(s0[-3:])), (A(s1[:2]), A(s0[-3:])))
        add(pkg, 'numericalc', 'check_intersection_two_segment_numerical_6d_tau', (A([g, P[9]]), A(s0[:2])), (A(s0[1:3]), A(s0[:2])), (A(s0[:2]), A(sc[:2])))
        add(pkg, 'numericalc', 'triangle_area', (A(s0[:3]),), (A(s1[-3:]),), (A(s2[:3]),))
        add(pkg, 'numericalc', 'inside_outside_obj_tau', (A(g), A(o2)), (A(P[9]), A(o2)), (A(g), A(o3)))
        add(pkg, 'numericalc', 'inside_outside_tetrahedron_tau' if ic else 'inside_outside_triangle_tau', (A(g), A(s0)), (A(P[9]), A(s0)), (A(g), A(s2)))
        add(pkg, 'numericalc', 'inside_outside_tetrahedron' if ic else 'inside_outside_triangle', (fs([g])[0], fs(s0)), (fs([P[9]])[0], fs(s0)), (fs([g])[0], fs(s2)))
        add(pkg, 'numericalc', 'obj_volume_6d_numerical', (A(o2),), (A(o3),), (A(o4),))
        # symmetry
        gi = A(P[5])
        z = A(P[0])
        cen = A(P[8] if ic else P[5])
        add(pkg, 'symmetry', 'icosasymop' if ic else 'dodesymop', ())
        add(pkg, 'symmetry', 'symop_obj', (i6, A(o2), z), (j6, A(o2), z), (i6, A(o2), cen), (i6, A(o3), z))
        add(pkg, 'symmetry', 'symop_vecs', (i6, A(s0), z), (j6, A(s0), z), (i6, A(s0), cen), (i6, A(s1), z))
        add(pkg, 'symmetry', 'symop_vec', (i6, v, z), (j6, v, z), (i6, v, cen), (i6, w, z))
        sx = 'tetrahedron' if ic else 'triangle'
        add(pkg, 'symmetry', 'generator_obj_symmetric_' + sx, (A(o1), z), (A(o1), cen), (A([s1]), z))
        add(pkg, 'symmetry', 'generator_obj_symmetric_%s_specific_symop' % sx, (A(o1), z, [0, 3, 5]), (A(o1), z, [1, 2]), (A([s1]), cen, [1, 2]))
        add(pkg, 'symmetry', 'generator_obj_symmetric_%s_0' % sx, (A(o1), z, 3), (A(o1), z, 4), (A([s1]), cen, 3))
        add(pkg, 'symmetry', 'generator_obj_symmetric_vec', (A(s0[:2]), z), (A(s0[:2]), cen), (A(s1[:2]), z))
        add(pkg, 'symmetry', 'generator_equivalent_vectors', (A(s0[:2]), z), (A(s0[:2]), cen), (A(s1[:2]), z))
        add(pkg, 'symmetry', 'generator_equivalent_vec', (A([P[1]]), z), (A([P[1]]), cen), (A([P[5]]), z))
        if not ic:
            add(pkg, 'symmetry', 'site_symmetry', (z, 5), (cen, 5), (cen, 4))
            add(pkg, 'symmetry', 'coset', (z, 5), (cen, 5), (cen, 4))
            add(pkg, 'symmetry', 'site_symmetry_and_coset', (z, 5, 0), (cen, 5, 0), (cen, 4, 0))
            add(pkg, 'symmetry', 'translation', (4,), (5,))
            add(pkg, 'symmetry', 'similarity', (1,), (2,), (-1,))
            add(pkg, 'symmetry', 'similarity_vec', (v, 1), (v, -1), (w, 1))
            add(pkg, 'symmetry', 'similarity_obj', (A(o2), 1), (A(o2), 2), (A(o3), 1))
            add(pkg, 'occupation_domain', 'similarity', (A(o2), 1), (A(o2), 2), (A(o3), 1))
        # utils
        add(pkg, 'utils', 'shift_object', (A(o2), v), (A(o2), w), (A(o3), v))
        vol = 'obj_volume_6d' if ic else 'obj_area_6d'
        add(pkg, 'utils', vol, (A(o1),), (A([sc]),), (A(o3),), (A(o4),))
        dup = A(s0 + s0[:2] + [D.alias(pkg, s0[0], 0)] + s1)
        add(pkg, 'utils', 'remove_doubling', (dup,), (dup[::-1].copy(),), (A(s0),))
        add(pkg, 'utils', 'remove_doubling_in_perp_space', (dup,), (dup[::-1].copy(),), (A(s0),), (A(al),))
        add(pkg, 'utils', 'generator_all_edges', (A(o2),), (A(o3),))
        add(pkg, 'utils', 'generator_unique_edges', (A(o2),), (A(o3),), (A(al),))
        if ic:
            add(pkg, 'utils', 'generator_surface_1', (A(o2),), (A(o3),), (A(al),))
            add(pkg, 'utils', 'generator_unique_triangles', (A(o2),), (A(o3),), (A(al),))
            add(pkg, 'utils', 'get_tetrahedron_surface', (A(s0),), (A(s1),))
            add(pkg, 'utils', 'get_tetrahedron_edge', (A(s0),), (A(s1),))
        add(pkg, 'utils', 'get_triangle_edge', (A(s0[:3]),), (A(s1[:3]),))
        add(pkg, 'utils', 'generate_convex_hull', (A(o2),), (A(o3),), (A(al),))
        sf = arr([list(t) for s in o3 for t in combinations(s, 3)][:1]) if ic else A(o3)
        add(pkg, 'utils', 'surface_cleaner', (A(o3) if not ic else A([t for s in o2 for t in combinations(s, 3)])[[0, 2, 3, 5]],), (sf,))
        add(pkg, 'utils', 'equivalent', (A(o2), A(o2[::-1])), (A(o2), A(o1)), (A(o3), A(o3)), (A(o3), A(o4)))
        add(pkg, 'utils', 'sort_vctors', (A(s0[::-1]),), (A(s1[::-1]),), (dup,))
        add(pkg, 'utils', 'tetrahedralization_points' if ic else 'triangulation_points', (A(s0 + s1),), (A(s0 + sc),), (A([u for s in o3 for u in s]),))
        add(pkg, 'utils', 'remove_vectors', (dup, A(s0[:2])), (dup, A(s1[:2])), (A(s0), A(s0[:1])))
        add(pkg, 'utils', 'remove_vector', (dup, A(s0[0])), (dup, A(s1[-1])), (A(s0), A(s0[0])))
        t1, t2 = o2
        big_, big2 = ('tetrahedra', 'tetrahedra') if ic else ('triangles', 'triangles')
        add(pkg, 'utils', 'merge_two_' + big_, (A(t1), A(t2)), (A(t2), A(t1)), (A(s0), A(s1)))
        add(pkg, 'utils', 'check_connectivity_' + big_, (A(t1), A(t2)), (A(t2), A(s2)), (A(s0), A(s1)))
        add(pkg, 'utils', 'get_common_triangle_in_two_tetrahedra' if ic else 'get_common_edge_in_two_triangles', (A(t1), A(t2)), (A(t2), A(s2)), (A(s0), A(s1)))
        mid = D.scalev(D.addv(s0[0], s0[1], f), Q(F(1, 2), F(0), f), f)
        add(pkg, 'utils', 'two_segment_into_one', (A([s0[0], mid]), A([mid, s0[1]])), (A([mid, s0[0]]), A([s0[1], mid])), (A(s0[:2]), A(s0[1:3])))
        add(pkg, 'utils', 'coplanar_check_two_triangles', (A(t1[:3]), A(t2[:3])), (A(s0[:3]), A(s1[:3])))
        add(pkg, 'utils', 'middle_position', (v, w), (v, x), (w, v))
        # intersections
        add(pkg, 'intsct', 'intersection_two_segment', (A([s0[0], s0[1]]), A([mid, s0[2]])), (A([s0[0], s0[1]]), A([s0[0], s0[2]])), (A(s0[:2]), A(sc[:2])))
        add(pkg, 'intsct', 'intersection_segment_surface', (A([g, P[9]]), A(s0[:3])), (A([P[9], g]), A(s0[-3:])), (A(s1[:2]), A(s0[-3:])))
        add(pkg, 'intsct', 'intersection_two_tetrahedron_4' if ic else 'intersection_two_triangles', (A(s0), A(s1)), (A(s0), A(sc)), (A(s0), A(s2)), (A(s2), A(s0)))
        add(pkg, 'intsct', 'check_intersection_two_tetrahedron_4' if ic else 'check_intersection_two_triangles', (A(s0), A(s1)), (A(s0), A(sc)), (A(s2), A(s0)))
        add(pkg, 'intsct', 'ball_radius_obj', (A(o2), z), (A(o2), v), (A(o3), z))
        add(pkg, 'intsct', 'distance_in_perp_space', (v, z), (w, z), (v, w))
        add(pkg, 'two_occupation_domains', 'intersection', (A(o1), A([sc])), (A(o1), A([s1])), (A(o3), A(o1)))
        add(pkg, 'two_occupation_domains', 'intersection_convex', (A(o1), A([sc])), (A(o1), A([s1])), (A(o3), A(o1)))
        # occupation domains and files
        add(pkg, 'occupation_domain', 'volume', (A(o1),), (A([sc]),), (A(o3),), (A(o4),))
        add(pkg, 'occupation_domain', 'shift', (A(o2), v), (A(o2), w), (A(o3), v))
        add(pkg, 'occupation_domain', 'symmetric', (A([sc]), z), (A([sc]), cen), (A([s1]), cen))
        add(pkg, 'occupation_domain', 'symmetric_0', (A(o1), z, 3), (A(o1), z, 2), (A([s1]), cen, 2))
        add(pkg, 'occupation_domain', 'simplification', (A(o2),), (A(o3),), (A(o5),))
        add(pkg, 'occupation_domain', 'generate_border_edges', (A(o2),), (A(o3),))
        add(pkg, 'occupation_domain', 'write', (A(o2), '.', 'f1', 'xyz'), (A(o3), '.', 'f1', 'xyz'), (A(o3), '.', 'f2', 'xyz'), color='k', select='tetrahedron' if ic else 'triangle')
        add(pkg, 'occupation_domain', 'write', (A(o2), '.', 'f1', 'vesta'), (A(o3), '.', 'f1', 'vesta'), color='b', select='normal')
        add(pkg, 'occupation_domain', 'write_vesta', (A(o2), '.', 'f3', 'r', 'simple'), (A(o3), '.', 'f3', 'r', 'simple'))
        add(pkg, 'occupation_domain', 'write_xyz', (A(o2), '.', 'f4'), (A(o3), '.', 'f4'))
        add(pkg, 'occupation_domain', 'obj2podatm', (A(o2), 1, '.', 'f5'), (A(o3), 1, '.', 'f5'), (A(o3), 2, '.', 'f5', [1, 0, 0, 0, 0, 0]))
        ops.append(('%s.roundtrip#0' % pkg, pkg, 'occupation_domain', None, (A(o2), 'g1'), {}))
        ops.append(('%s.roundtrip#1' % pkg, pkg, 'occupation_domain', None, (A(o3), 'g1'), {}))
    return ops


def roundtrip(od, o, name):
    od.write_xyz(o, '.', name)
    return od.read_xyz('.', name)


def freeze(x):
    """hashable image of a result, bit for bit"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('obj',) + tuple(freeze(y) for y in x)
        return ('arr', x.dtype.kind, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(freeze(y) for y in x)
    if isinstance(x, np.generic):
        return ('val', repr(x.item()))
    return ('val', repr(x))


def copyargs(args):
    return tuple(a.copy() if isinstance(a, np.ndarray) else (list(a) if isinstance(a, list) else a) for a in args)


def perform(op, args=None, scribble=False):
    """run one operation in a scratch directory of its own: frozen (result, files, argument images after the call)"""
    label, pkg, module, fn, margs, kw = op
    m = mod(pkg, module)
    if fn is not None and not hasattr(m, fn):
        return None
    args = copyargs(margs) if args is None else args
    before = freeze(args)
    for name in os.listdir('.'):
        os.unlink(name)
    raw = None
    try:
        if fn is None:
            raw, _ = choice.run_once(lambda: roundtrip(m, *args))
        else:
            raw, _ = choice.run_once(lambda: getattr(m, fn)(*args, **kw))
        r = ('ok', freeze(raw))
    except Exception as e:
        r = ('exc', type(e).__name__)
    files = tuple((n, hashlib.sha1(open(n, 'rb').read()).hexdigest()) for n in sorted(os.listdir('.')))
    keep = freeze(args) == before
    if scribble:
        todo = [raw]
        while todo:
            y = todo.pop()
            if isinstance(y, np.ndarray) and y.dtype != object:
                if y.flags.writeable and not any(isinstance(z, np.ndarray) and np.shares_memory(y, z) for z in args):
                    y[...] = 77 if y.dtype.kind in 'iuf' else y
            elif isinstance(y, list):
                todo += y
                y.clear()
            elif isinstance(y, tuple):
                todo += list(y)
    return (r, files), keep


def surroundings():
    import decimal
    return (os.getcwd(), repr(sorted(np.geterr().items())), repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
            sys.getrecursionlimit(), repr(decimal.getcontext().prec), tuple(sys.path))


def child(fn):
    """run fn in a forked child, in a scratch directory; its pickled answer"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with mc.scratch():
                with os.fdopen(w, 'wb') as h:
                    pickle.dump(fn(), h)
            code = 0
        except BaseException as e:
            sys.stderr.write('child: %r\n' % e)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def suites(tier):
    big = tier == 'thorough'
    OPS = operations()
    for p in PKGS:
        for m in ('math1', 'numericalc', 'symmetry', 'utils', 'intsct', 'occupation_domain', 'two_occupation_domains'):
            mod(p, m)
    base = {}

    def fresh(i):
        if i not in base:
            base[i] = child(lambda: perform(OPS[i]))
        return base[i]

    FN = {}
    for i, op in enumerate(OPS):
        FN.setdefault(op[0].split('#')[0], []).append(i)

    # every operation alone: answers twice the same, keeps its arguments, surroundings and a second, read-only copy of its arguments
    def alone(ctx, case):
        i = case
        op = OPS[i]

        def run():
            s0 = surroundings()
            a = perform(op, scribble=True)
            if a is None:
                return None
            b = perform(op)
            ro = copyargs(op[4])
            for x in ro:
                if isinstance(x, np.ndarray):
                    x.setflags(write=False)
            c = perform(op, args=ro)
            return a, b, c, surroundings() == s0
        r = child(run)
        ctx.step(3)
        ctx.state('alone', i)
        if r is None:
            ctx.outcome('not present')
            return
        a, b, c, keep = r
        ctx.expect(a[1] and b[1], 'arguments were modified', op=op[0])
        ctx.expect(a[0] == b[0], 'repeating the operation gives another result', op=op[0])
        ctx.expect(a[0] == c[0], 'the operation writes into its arguments (read-only arguments give another result)', op=op[0], got=repr(c[0])[:200])
        ctx.expect(keep, 'the operation changed process-wide settings', op=op[0])
        ctx.outcome(a[0][0][0])
        ctx.trace()
        ctx.note(op=op[0])
    out = [mc.Suite('alone', '%d operations with argument sets: twice, results overwritten in between, and with read-only arguments' % len(OPS), range(len(OPS)), alone, chunk=4)]

    # the same array modified in place between two calls
    def inplace(ctx, case):
        name = case
        ix = FN[name]
        for i in ix:
            for j in ix:
                if i == j:
                    continue
                A, B = OPS[i], OPS[j]
                shapes = lambda o: [(x.shape, x.dtype) if isinstance(x, np.ndarray) else None for x in o[4]]
                if shapes(A) != shapes(B) or A[5] != B[5]:
                    continue

                def run():
                    args = copyargs(A[4])
                    if perform(A, args=args) is None:
                        return None
                    for x, y in zip(args, B[4]):
                        if isinstance(x, np.ndarray):
                            x[...] = y
                    args = tuple(x if isinstance(x, np.ndarray) else y for x, y in zip(args, B[4]))
                    return perform(B, args=args)
                r = child(run)
                ctx.step(2)
                if r is None:
                    return
                want = fresh(j)
                ctx.expect(r[0] == want[0], 'the result depends on an earlier call with the same array object', first=A[0], then=B[0])
                ctx.state('in', i, j)
                ctx.trace()
    out.append(mc.Suite('same_array', 'every operation, then again after its argument arrays were overwritten in place with another argument set', sorted(FN), inplace, chunk=2))

    # all argument sets of one operation, every ordered triple
    def same(ctx, case):
        ix = FN[case]
        for h in product(ix, repeat=3) if big else [(i, j, i) for i, j in permutations(ix, 2)]:
            if len(set(h)) == 1:
                continue
            r = child(lambda: [perform(OPS[i], scribble=(n == 1)) for n, i in enumerate(h)])
            ctx.step(3)
            if r is None or r[0] is None:
                return
            for i, x in zip(h, r):
                ctx.expect(x[0] == fresh(i)[0], 'the result depends on earlier calls', history=[OPS[q][0] for q in h], at=OPS[i][0])
                ctx.expect(x[1], 'arguments were modified', history=[OPS[q][0] for q in h], at=OPS[i][0])
            ctx.state('same', h)
            ctx.trace()
            if len(ctx.violations) > 4:
                return
    out.append(mc.Suite('argument_histories', 'every ordered %s of argument sets of every operation' % ('triple' if big else 'pair, and the first again,'), sorted(FN), same))

    # every ordered pair of operations
    LEAD = list(range(len(OPS))) if big else [FN[n][0] for n in sorted(FN)]
    TAIL = [FN[n][-1] for n in sorted(FN)]

    def pairs(ctx, case):
        i, part, parts = case
        tail = [j for j in TAIL if big or OPS[j][1] == OPS[i][1] or j % 8 == i % 8][part::parts]

        def run():
            res = []
            s0 = surroundings()
            for j in tail:
                a = perform(OPS[i])
                b = perform(OPS[j])
                res.append((a and hash_(a), b and hash_(b)))
            res.append(surroundings() == s0)
            return res
        r = child(run)
        fi = fresh(i)
        if fi is None:
            ctx.outcome('not present')
            return
        if not ctx.expect(r is not None, 'history ended abnormally', lead=OPS[i][0]):
            return
        ctx.expect(r.pop(), 'the operations changed process-wide settings', lead=OPS[i][0])
        for j, (a, b) in zip(tail, r):
            fj = fresh(j)
            ctx.step(2)
            ctx.state('pair', i, j)
            ctx.trace()
            if fj is None:
                continue
            ctx.expect(b == hash_(fj), 'the result depends on the operation before it', before=OPS[i][0], op=OPS[j][0])
            ctx.expect(a == hash_(fi), 'the result depends on the operations before it', after=OPS[j][0], op=OPS[i][0])
            if len(ctx.violations) > 4:
                return
        ctx.note(lead=OPS[i][0], followed_by=len(tail))
    parts = 4 if big else 1
    out.append(mc.Suite('pairs', 'every ordered pair of %d leading and %d following operations%s' % (len(LEAD), len(TAIL), '' if big else ' (of the same package, and an eighth of the other)'),
                        [(i, q, parts) for i in LEAD for q in range(parts)], pairs))
    return out


def hash_(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()
