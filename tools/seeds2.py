#!/usr/bin/env python3
"""Developer tool: writes the planted bugs s21.. (see mkseed.py)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk, ROOT
H = '''import sys
import numpy as np
A = lambda x: np.array(x, dtype=np.int64)
def V(*xs): return A([x if isinstance(x, (list, tuple)) else [x, 0, 1] for x in xs])
O = V(0, 0, 0, 0, 0, 0)
def E(k, n=1, d=1):
    v = [[0, 0, 1] for _ in range(6)]; v[k] = [n, 0, d]; return A(v)
'''
LEG = '''import atexit, glob, importlib, os, shutil, subprocess, sys, tempfile
root = tempfile.mkdtemp(prefix='demo_'); atexit.register(shutil.rmtree, root, True)
def build(pkg, mods, repo=os.getcwd()):
    d = os.path.join(root, 'pyqcstrc', pkg); os.makedirs(d)
    for s in glob.glob(os.path.join(repo, 'src_cython', pkg, '*.p*')):
        n = os.path.basename(s)
        if n != 'setup.py' and os.path.splitext(n)[1] in ('.py', '.pyx', '.pxd'):
            shutil.copyfile(s, os.path.join(d, n))
    open(os.path.join(root, 'pyqcstrc', '__init__.py'), 'w').close()
    src = ','.join('pyqcstrc/%s/%s.pyx' % (pkg, m) for m in mods)
    code = """
import sys
from setuptools import setup, Extension
from numpy import get_include
from Cython.Build import cythonize
ex = [Extension(p[:-4].replace('/', '.'), [p], include_dirs=['.', get_include()]) for p in sys.argv.pop(1).split(',')]
setup(name='demo', packages=[], py_modules=[], ext_modules=cythonize(ex, compiler_directives={'language_level': 3}, nthreads=4, quiet=True))
"""
    r = subprocess.run([sys.executable, '-c', code, src, '-q', 'build_ext', '--inplace', '-j4'], cwd=root, env=dict(os.environ, CFLAGS='-O0 -w -g0', PYTHONPATH=''), capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(3)
    for k in [k for k in sys.modules if k.startswith('pyqcstrc')]: del sys.modules[k]
    sys.path.insert(0, root)
    return lambda m: importlib.import_module('pyqcstrc.%s.%s' % (pkg, m))
'''
I, D = 'src/pyqcstrc/ico2/', 'src/pyqcstrc/dode2/'

mk('s21_face_by_name', 'C14', [(I + 'utils.py', '''    a=np.vstack([triangle1,triangle2])
    a=remove_doubling_in_perp_space(a)
''', '''    a=np.vstack([triangle1,triangle2])
    a=remove_doubling(a)
''')], H + '''
from pyqcstrc.ico2 import utils as u
from pyqcstrc.ico2.math1 import projection3
# another 6-d name of the same internal point: the physical component differs
from itertools import product
def perp0():
    for c in product([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)], repeat=6):
        v = A([[a, b, 1] for a, b in c])
        if np.any(v[:, :2]) and not np.any(projection3(v)[:, :2]):
            return v
from pyqcstrc.ico2.math1 import add_vectors
K = perp0()
t1 = A([O, E(0), E(1), E(3)])
t2 = A([add_vectors(O, K), E(0), E(1), E(4)])
f = u.get_common_triangle_in_two_tetrahedra(t1, t2)
sys.exit(0 if f is not None and np.ndim(f) == 3 else 1)
''', 'two tetrahedra sharing a face whose corners carry different six-dimensional names', 'the shared face is not found')

mk('s22_second_ends', 'C15', [(I + 'utils.py', '''    [1,0,0,1],\\
    [1,0,1,0]]
    
    counter=0
    for comb1''', '''    [1,0,0,1]]
    
    counter=0
    for comb1''')], H + '''
from pyqcstrc.ico2.utils import two_segment_into_one as f
a = A([O, E(0)]); b = A([E(0, 2), E(0)])
r = f(a, b)
sys.exit(0 if r is not None else 1)
''', 'two collinear border segments that share their second end points', 'border edges stay in pieces')

mk('s23_rational_area', 'C16', [(D + 'utils.py', 'if vol[0]==0 and vol[1]==0:', 'if vol[0]==0 or vol[1]==0:')], H + '''
from pyqcstrc.dode2 import utils as u
from itertools import combinations
pts = [O, E(0), E(1), E(2), E(3), V(1, 1, 0, 0, 0, 0), V(0, 1, 1, 0, 0, 0)]
for c in combinations(pts, 3):
    vol = u.triangle_area_6d(A(c)) if hasattr(u, 'triangle_area_6d') else u.obj_area_6d(A([c]))
    if (vol[0] == 0) != (vol[1] == 0):
        r = u.triangulation_points(A(c)) if hasattr(u, 'triangulation_points') else None
        sys.exit(0 if r is not None and len(r) == 1 else 1)
sys.exit(3)
''', 'a triangle whose area is a rational (or a purely irrational) number', 'the triangle is dropped from the triangulation')

mk('s24_coset_forgets', 'C19', [(D + 'symmetry.py', '                        d=d+b', '                        d=b', 0), (D + 'symmetry.py', 'if len(symop)==len(list5)*len(list1):', 'if len(symop)<=len(list5)*len(list1):')], H + '''
from pyqcstrc.dode2 import symmetry as s
G = [tuple(map(tuple, m)) for m in s.dodesymop()]
bad = 0
for site in (V([1,0,2],0,0,0,0,0), V([1,0,2],0,0,[1,0,2],0,0), V([1,0,3],0,0,0,0,0), V(0,[1,0,2],0,0,0,0), V([1,0,4],0,0,[1,0,4],0,0), V([1,0,4],0,0,0,0,0)):
    H = s.site_symmetry(site); C = s.coset(site)
    got = sorted(tuple(map(tuple, np.dot(A(G[c]), A(G[h])))) for c in C for h in H)
    bad += got != sorted(G)
sys.exit(1 if bad else 0)
''', 'a site with at least three cosets, two cooperating edits (a forgotten coset, a size test that tolerates too many)', 'representatives of the same coset are listed more than once, so the group is not covered')

mk('s25_similarity_float', 'C20', [(D + 'symmetry.py', '        return matrixpow(m1.T,-m)', '        return np.rint(np.linalg.inv(matrixpow(similarity(1),-m)))')], H + '''
from pyqcstrc.dode2 import symmetry as s
ok = True
for m in range(1, 40):
    a, b = s.similarity(m).astype(np.int64).astype(object), s.similarity(-m).astype(np.int64).astype(object)
    ok = ok and np.array_equal(np.dot(a, b), np.eye(6, dtype=int))
sys.exit(0 if ok else 1)
''', 'powers below about -14', 'the matrix of the inverse scaling is inexact')

mk('s26_read_float', 'C17', [(D + 'occupation_domain.py', 'a3=int(fi[16])', 'a3=int(float(fi[16]))')], H + '''
import tempfile
from pyqcstrc.dode2 import occupation_domain as od
o = A([[E(0), E(1), E(2)]]); o[0, 0, 2, 0] = 2**53 + 1
with tempfile.TemporaryDirectory() as d:
    from pyqcstrc.dode2 import utils as u
    o[0, 1, 2, 0] = 2**53 + 1; o[0, 2, 2, 0] = 2**53 + 1
    try:
        od.write_xyz(o[0], d, 'x', 'vertex')
        r = od.read_xyz(d, 'x', 'vertex')
    except Exception as e:
        print(e); sys.exit(3)
sys.exit(0 if np.array_equal(r, o[0]) else 1)
''', 'coordinates whose numerator does not fit a double', 'numerators are rounded on reading')

mk('s27_bond_names', 'C18', [(I + 'occupation_domain.py', "tmp=utils.remove_doubling_in_perp_space(tmp.reshape(2,6,3))", "tmp=utils.remove_doubling(tmp.reshape(2,6,3))", 0)], H + '''
import tempfile
from itertools import product
from pyqcstrc.ico2 import occupation_domain as od
from pyqcstrc.ico2.math1 import projection3, add_vectors
def perp0():
    for c in product([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)], repeat=6):
        v = A([[a, b, 1] for a, b in c])
        if np.any(v[:, :2]) and not np.any(projection3(v)[:, :2]):
            return v
K = perp0()
o = A([[O, E(0), E(1), E(3)], [add_vectors(O, K), add_vectors(E(0), K), E(1), E(4)]])
with tempfile.TemporaryDirectory() as d:
    try:
        r = od.write_vesta(o, d, 'x', 'k', 'simple')
        T = open(d + '/x.vesta').read().split('SBOND')[1].split('SITET')[0].strip().split('\\n')
    except Exception as e:
        print(repr(e)); sys.exit(1)
n = [l.split() for l in T if len(l.split()) > 10]
sys.exit(0 if len(n) == 9 and all(x[1][0] == 'A' and x[2][0] == 'A' for x in n) else 1)
''', 'an object whose simplices name the same corner differently', 'bonds of the exported drawing lose their ends')

mk('s28_shift_in_place', 'C21', [(D + 'utils.py', 'obj_new=np.zeros(obj.shape,dtype=np.int64)', 'obj_new=obj.astype(np.int64,copy=False)')], H + '''
from pyqcstrc.dode2 import occupation_domain as od
o = A([[E(0), E(1), E(2)]]); b = o.copy()
od.shift(o, E(0))
sys.exit(0 if np.array_equal(o, b) else 1)
''', 'an object used again after it was shifted', 'the object passed in is overwritten')

mk('s29_wedge_short', 'C22', [(I + 'occupation_domain.py', 'math1.mul_vectors(vecs,np.array([5,0,1]))', 'math1.mul_vectors(vecs,np.array([0,2,1]))')], H + '''
from pyqcstrc.ico2 import occupation_domain as od
from pyqcstrc.ico2.utils import obj_volume_6d as vol
w = A([E(0), E(1), E(3)])
big = A([[O, E(0, 4), E(1, 4), E(3, 4)]])
r = od.asymmetric(big, O, w)
sys.exit(0 if r is not None and np.array_equal(vol(r), vol(big)) else 1)
''', 'an object more than 3.2 times as large as the given directions', 'the far end of the wedge is cut off')

mk('s30_coplanar_or', 'C24', [('src_cython/ico/math1.pyx', '            if d1==0 and d2==0:\n                flag+=0', '            if d1==0 or d2==0:\n                flag+=0')], LEG + H + '''
from itertools import combinations
m = build('ico', ['math1'])('math1')
P = [O, E(0), E(1), E(2), E(3), E(4), E(5), V(1, 1, 0, 0, 0, 0), V(0, 1, 1, 0, 0, 0)]
bad = 0
tau = (1 + 5 ** .5) / 2
n = 0
for c in combinations(P, 4):
    X = [[(t[0] + t[1] * tau) / t[2] for t in m.projection3(*v)] for v in c]
    vol = abs(np.linalg.det(np.array(X[1:]) - np.array(X[0])))
    n += 1
    bad += (m.coplanar_check(A(c)) == 1) != (vol < 1e-9)
sys.exit(1 if bad else 0)
''', 'four points whose triple product is a rational number', 'points that span a volume are called coplanar')

mk('s31_equivalent_perp', 'C25', [('src_cython/dode/symmetry12.pyx', '''    return remove_doubling_dim3(tmp3)
    #return remove_doubling_dim3_in_perp_space(tmp3)''', '''    return remove_doubling_dim3_in_perp_space(tmp3)''')], LEG + H + '''
M = build('dode', ['math12', 'utils12', 'numericalc12', 'symmetry12'])
s = M('symmetry12')
# a vector without internal component: its images differ in six dimensions only
from itertools import product
m = M('math12')
bad = 0
for c in product([(0, 0), (1, 0), (-1, 0), (0, 2), (0, -2)], repeat=4):
    v = A([[a, b, 1] for a, b in c] + [[0, 0, 1], [0, 0, 1]])
    p = m.projection3(*v)
    if np.any(v[:, :2]) and not np.any(np.array(p)[:, :2]):
        want = len({tuple(map(tuple, x)) for x in s.generator_obj_symmetric_vec(A([v]), O)[:, 0]})
        if len(s.generator_equivalent_vec(v, O)) != want:
            bad += 1
        break
sys.exit(1 if bad else 0)
''', 'a vector whose images coincide in internal space but not in six dimensions', 'members of the orbit are dropped')

mk('s32_inside_abs', 'C26', [('src_cython/ico/numericalc.pyx', '    if abs(volume0-volume1-volume2-volume3-volume4)<EPS*volume0:', '    if abs(volume0-volume1-volume2-volume3-volume4)<EPS:')], LEG + H + '''
M = build('ico', ['math1', 'numericalc'])
n = M('numericalc')
d = 300
t = [O, E(0, 1, d), E(1, 1, d), E(3, 1, d)]
bad = n.inside_outside_tetrahedron(E(0, 2, d), *t) == 0 or n.inside_outside_tetrahedron(t[1], *t) != 0
sys.exit(1 if bad else 0)
''', 'a tetrahedron smaller than about a hundredth', 'points outside a small tetrahedron count as inside')

mk('s33_first_domain', 'C27', [('src_cython/dode/strc12.pyx', '''                                lst.append([v[0]-w[0]-shfte[0],v[1]-w[1]-shfte[1],v[2]-w[2]-shfte[2],i1,h1,h2,h3,h4])
                            else:
                                pass
                        #if inout''', '''                                lst.append([v[0]-w[0]-shfte[0],v[1]-w[1]-shfte[1],v[2]-w[2]-shfte[2],i1,h1,h2,h3,h4])
                                break
                            else:
                                pass
                        #if inout''')], LEG + H + '''
M = build('dode', ['math12', 'utils12', 'numericalc12', 'symmetry12', 'intsct12', 'strc12'])
s = M('strc12')
o = A([[O, E(0, 3), E(1, 3)], [O, E(1, 3), E(2, 3)]])
ph = np.array([[0.01, 0.0], [0.0, 0.01]])
one = s.strc([o], [O], ph, 1, [O], [0.0] * 6, 0)
two = s.strc([o, o], [O, E(0)], ph, 1, [O, O], [0.0] * 6, 0)
sys.exit(0 if len(one) > 0 and len(two) == 2 * len(one) else 1)
''', 'two overlapping domains with a phason strain', 'a lattice point in both domains yields one atom only')

mk('s34_surface_names', 'C28', [('src_cython/ico/utils.pyx', '''    tmp3=remove_doubling_dim3_in_perp_space(tmp1.reshape(4,6,3))
    if len(tmp3)!=2:''', '''    tmp3=remove_doubling_dim3(tmp1.reshape(4,6,3))
    if len(tmp3)!=2:''')], LEG + H + '''
M = build('ico', ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics'])
u = M('utils'); od = M('occupation_domain'); m = M('math1')
from itertools import product
def perp0():
    for c in product([(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)], repeat=6):
        v = A([[a, b, 1] for a, b in c])
        if np.any(v[:, :2]) and not np.any(np.array(m.projection3(*v))[:, :2]):
            return v
K = perp0()
def add(a, b):
    r = a.copy(); r[:, :2] += b[:, :2]; return r
o = A([[O, E(0), E(1), E(3)], [add(O, K), add(E(0), K), E(1), E(4)]])
e = od.generate_edges(o)
print(len(e))
sys.exit(0 if len(e) == 9 else 1)
''', 'an object whose simplices name the same corner differently', 'the shared edges of the surface are listed twice')

ICO_ALL = "M = build('ico', ['math1', 'utils', 'numericalc', 'symmetry', 'intsct', 'mics'])\n"
mk('s35_replace_denominator', 'C23', [('src_cython/ico/occupation_domain.py', '    if n1==m1 and n2==m2 and n3==m3:', '    if n1==m1 and n2==m2:', 5)], LEG + H + ICO_ALL + '''
od = M('occupation_domain'); u = M('utils')
o = A([[O, E(0), E(1), E(3)]])
p = A([[O, E(0, 1, 2), E(1), E(3)]])
a, b = list(u.obj_volume_6d(o)), list(u.obj_volume_6d(p))
assert a[:2] == b[:2] and a != b, (a, b)
g = od.simpl_manual_2(o, [[0]], p)
sys.exit(0 if np.array_equal(g, o) else 1)
''', 'a replacement whose volume has the same numerator over another denominator', 'pieces that do not fill the region are accepted in its place')

mk('s36_hull_abs', 'C23', [('src_cython/ico/mics.pyx', 'abs(vol1-vol2)<vol2*TOL:', 'abs(vol1-vol2)<TOL:')], LEG + H + ICO_ALL + '''
od = M('occupation_domain'); u = M('utils')
d = 400
o = A([[O, E(0, 1, d), E(1, 1, d), E(3, 1, d)], [O, E(0, -1, d), E(1, -1, d), E(3, -1, d)]])
g = od.simple(o, 3)
sys.exit(0 if list(u.obj_volume_6d(g)) == list(u.obj_volume_6d(o)) else 1)
''', 'a concave object smaller than about a hundredth', 'a small concave domain is replaced by its convex hull')

mk('s37_common_corners', 'C23', [('src_cython/ico/mics.pyx', '    if len(vertex_common)==1 and vertex_common.tolist()!=[[[0]]]:', '    if len(vertex_common)>=1 and vertex_common.tolist()!=[[[0]]]:')], LEG + H + ICO_ALL + '''
od = M('occupation_domain'); u = M('utils')
o = A([[O, E(0), E(1), E(3)], [O, E(0), E(1), E(3, -1)]])
o2 = A([[O, E(0), E(1), E(3)], [O, E(0), E(1, -1), E(3, -1)]])
ok = True
for x in (o, o2):
    g = od.simple(x, 2)
    ok = ok and g.ndim == 4 and g.shape[1:] == (4, 6, 3) and list(u.obj_volume_6d(g)) == list(u.obj_volume_6d(x))
sys.exit(0 if ok else 1)
''', 'tetrahedra that share an edge or a face rather than one corner', 'the simplified domain fills another region')

# ---- C29: histories
mk('s38_same_domain', 'C29', [(I + 'two_occupation_domains.py', '''    if obj1.ndim==4 and obj2.ndim==4:
        common=intsct.intersection_two_obj_1(obj1,obj2,kind)
''', '''    if obj1.ndim==4 and obj2.ndim==4:
        # identical domains
        if len(obj1)==len(obj2) and np.all(utils.obj_volume_6d(obj1)==utils.obj_volume_6d(obj2)):
            return obj1
        common=intsct.intersection_two_obj_1(obj1,obj2,kind)
''')], H + '''
from pyqcstrc.ico2 import occupation_domain as od, two_occupation_domains as tw
o = A([[O, E(0), E(1), E(3)]])
g = tw.intersection(od.shift(o, V([1, 0, 3], 0, 0, 0, 0, 0)), o)
v, w = [(t[0] + t[1] * 1.618033988749895) / t[2] for t in (od.volume(g) if g is not None else [0, 0, 1], od.volume(o))]
sys.exit(0 if v < 0.9 * w else 1)
''', 'the common part of a domain and a moved copy of itself', 'the overlap of a domain with its moved copy is reported to be the whole domain')
mk('s39_simplified_memo', 'C29', [(D + 'occupation_domain.py', '''        vol0=utils.obj_area_6d(obj)
''', '''        vol0=utils.obj_area_6d(obj)
        key=(len(obj),tuple(vol0))
        if key in _simplified:
            return _simplified[key]
'''), (D + 'occupation_domain.py', '''            return obj_convex_hull
''', '''            _simplified[key]=obj_convex_hull
            return obj_convex_hull
'''), (D + 'occupation_domain.py', '''def simplification(obj,verbose=0):
''', '''_simplified={}

def simplification(obj,verbose=0):
''')], H + '''
from pyqcstrc.dode2 import occupation_domain as od, two_occupation_domains as tw
a, b = E(0), E(1)
m = V([1, 0, 2], [1, 0, 2], 0, 0, 0, 0)
o = A([[O, a, m], [O, m, b]])
g = od.simplification(o)
t = V([7, 0, 1], 0, 0, 0, 0, 0)
h = od.simplification(od.shift(g if len(g) == 2 else o, t))
k = tw.intersection(h, od.shift(o, t))
sys.exit(0 if k is not None else 1)
''', 'simplifying, moving and simplifying again a domain of the same size', 'the second simplification returns the first domain')
