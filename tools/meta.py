#!/usr/bin/env python3
"""One table -> properties.jsonl and MANIFEST.json (only properties whose check module exists are claimed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, D = 'src/pyqcstrc/ico2/', 'src/pyqcstrc/dode2/'


def both(*names):
    return [p + n for n in names for p in (I, D)]


P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Number-field arithmetic is exact and canonical',
     'Sum, difference, product and quotient of two numbers (a+b*theta)/c, with theta the golden mean (icosahedral) or half the square root of three (dodecagonal), equal the exact field result for every pair of operands, including large and non-reduced ones. '
     'The result is the unique reduced representation (positive denominator, greatest common divisor one), and division by zero is refused rather than answered. '
     'Results fed back as operands stay exact along any chain of operations that fits in 64-bit integers.',
     ['inputs', 'histories'], 'every pair of operands and every chain of operations within int64',
     'The tests sample a few random pairs in one package and compare them by eye or in floating point; exactness and canonical form are for-all statements over pairs and chains.',
     both('math1.py'), [('add/sub/mul/div and gcd reduction', 'math1.py')],
     'explicit-state exploration: all operand pairs of a bounded triple space and breadth-first closure of results, each step replayed on the real functions against an exact rational-pair model',
     'bounded by operand magnitudes, denominators and chain depth stated in the evidence')
prop('C02', 'Vector and matrix algebra over the field is exact',
     'Sums, differences, scalings, inner and outer products, matrix-vector and matrix-matrix products, determinants, matrix powers and centroids of exact vectors equal the exact mathematical result, element by element, for single vectors and for sets of them. '
     'Operands of incompatible shape are refused, not answered.',
     ['inputs', 'configurations'], 'all entries and all admissible shapes',
     'Tests call a handful of these with one random operand and mostly only print the result.',
     both('math1.py'), [('vector/matrix loops over exact scalars', 'math1.py')],
     'exhaustive enumeration of bounded vectors, matrices and shapes on the real code against an exact model',
     'bounded entry alphabets and shapes')
prop('C03', 'Projections to physical and internal space are exact and linear',
     'The internal-space and physical-space coordinates of every six-dimensional vector equal the exact linear projection that defines the quasicrystal embedding, and internal coordinates are independent of how the numbers are represented. '
     'The floating-point variants agree with the exact ones to rounding, for single vectors and for sets.',
     ['inputs'], 'every 6-d vector with entries in the field',
     'Tests project one vector and do not compare the result with anything.',
     both('math1.py', 'numericalc.py'), [('projection, projection3, projection_numerical and relatives', 'math1.py, numericalc.py')],
     'exhaustive enumeration of bounded 6-d vectors on the real code against an exact model of the embedding',
     'entry alphabet stated in evidence; numeric variants compared at 1e-9')
prop('C04', 'Symmetry operations are exactly the point group',
     'The generated symmetry operations are each integral, pairwise different, closed under composition and inversion, start with the identity and number 120 (icosahedral) or 24 (dodecagonal). '
     'Applied about any centre an operation maps vectors exactly, keeps the centre fixed, preserves lengths in both spaces, and applying two operations in turn equals applying their product.',
     ['inputs', 'histories'], 'all operations, all pairs of operations, all points and centres',
     'Tests check the number of distinct images of one vector.',
     both('symmetry.py'), [('icosasymop/dodesymop generators, symop_vec', 'symmetry.py')],
     'exhaustive exploration of the group: all operations and all ordered pairs on the real code against the automorphism group found independently by search',
     'complete for the group structure; points and centres bounded')
prop('C05', 'Symmetric occupation domains are exactly the orbit of the part given',
     'Generating the symmetric occupation domain from an asymmetric part about a given centre returns, for every object, exactly one image per symmetry operation (or per requested operation) of each simplex, with exact coordinates and no image missing, altered or added. '
     'The same holds for generated equivalent vectors, which are exactly the different points of the orbit.',
     ['inputs', 'configurations'], 'all asymmetric parts, centres and requested operation lists',
     'No test compares a generated object with anything.',
     both('symmetry.py', 'occupation_domain.py'), [('generator_obj_symmetric_* and equivalent vectors', 'symmetry.py'), ('symmetric, symmetric_0', 'occupation_domain.py')],
     'exhaustive enumeration of bounded objects x centres x operations on the real code, results compared as multisets with the orbit computed by the model',
     'objects over a bounded point alphabet')
prop('C06', 'Volume and area are exact, additive and invariant',
     'The volume (icosahedral) or area (dodecagonal) of every simplex and object is the exact non-negative field number, does not depend on the order of corners or simplices, the representation of their coordinates or the choice of origin, and is the sum over its simplices. '
     'Shifting an object translates every corner exactly, so shifts compose and cancel, and symmetry operations keep the volume.',
     ['inputs', 'histories'], 'all simplices and objects, all shift histories',
     'Tests print the volume of one object.',
     both('utils.py', 'occupation_domain.py', 'numericalc.py'), [('tetrahedron_volume*, triangle_area*, obj_volume_6d/obj_area_6d', 'utils.py'), ('shift', 'occupation_domain.py')],
     'exhaustive enumeration of simplices, objects, corner orders and shift histories on the real code against exact determinants',
     'coordinates bounded so that sign decisions made in doubles are safe')
prop('C07', 'Point sets: duplicates and equality are decided by exact position',
     'Removing duplicates from a set of points keeps exactly one representative of every different position (exact coordinates, or exact internal position) and invents none, for every order and multiplicity; points that are merely close stay apart. '
     'Removing one set from another, testing two objects for equality, and sorting are likewise exact and independent of order.',
     ['inputs', 'histories'], 'all sequences of points',
     'Tests use one fixed list.',
     both('utils.py', 'occupation_domain.py', 'numericalc.py'), [('remove_doubling*, remove_vectors, equivalent*', 'utils.py')],
     'exhaustive enumeration of all point sequences up to a length over an alphabet with duplicates, renamed and nearly equal points, on the real code against set semantics',
     'sequence length and alphabet bounded')
prop('C09', 'Point predicates answer correctly in every configuration',
     'Whether a point lies in a simplex or an object, on a segment or on a triangle, and whether points are coplanar, is answered correctly for inside, boundary and outside points, whatever the order of corners, the six-dimensional names of the points and the random choices made inside.',
     ['inputs', 'schedules'], 'all probe points and simplices over the alphabets, all random picks',
     'Not tested; the random picks make a sampled run say nothing about the others.',
     both('intsct.py', 'numericalc.py', 'utils.py', 'occupation_domain.py'), [('inside_outside_*, on_out_*, coplanar checks', 'numericalc.py, utils.py, intsct.py')],
     'exhaustive enumeration of probe configurations and of all sequences of random picks (controlled choice source) on the real code against exact orientation predicates',
     'probe points exactly on or clearly off the faces, since the code is numerical with tolerance 1e-6')
prop('C10', 'Intersections of segments with facets and segments are exact',
     'Whether a segment meets a triangle (icosahedral) or another segment or triangle (dodecagonal) is answered correctly for crossing, touching, and missing configurations, independent of orientation and order, and the intersection point returned is the exact common point.',
     ['inputs'], 'all segment/facet and segment/segment configurations over the alphabets',
     'Not tested.',
     both('intsct.py', 'numericalc.py'), [('intersection_segment_surface / two_segment and their numerical tests', 'intsct.py, numericalc.py')],
     'exhaustive enumeration of all configurations over a bounded point alphabet on the real code against exact line-plane intersection',
     'parallel configurations are reported as not intersecting, as documented')
prop('C11', 'Common part of two simplices is exact',
     'The common part of any two tetrahedra or triangles is returned as non-overlapping, non-degenerate simplices that lie in both and have exactly the volume or area of the geometric intersection, and nothing is returned when the interiors do not meet. '
     'The answer does not depend on corner order, naming of corners, argument order or internal random choices.',
     ['inputs', 'schedules'], 'all pairs of simplices over the alphabets, all deviating random picks',
     'Not tested.',
     both('intsct.py', 'numericalc.py', 'utils.py'), [('intersection_two_tetrahedron / intersection_two_triangles, check_intersection_*', 'intsct.py')],
     'exhaustive enumeration of ordered pairs of simplices and of random picks on the real code; regions compared with exact clipping',
     'simplices over a bounded alphabet plus scaled, shifted and renamed ones')
prop('C12', 'Common part of two occupation domains is exact',
     'The common part of two occupation domains is exactly their geometric intersection: non-overlapping simplices inside both, of exactly the right volume or area, or nothing when they share no interior, for convex, concave and disconnected objects and along chains of intersections. '
     'Order of operands, of simplices and of corners, verbosity and internal random choices do not change the region; operands that are not objects are refused.',
     ['inputs', 'histories', 'schedules'], 'all pairs of objects over the alphabets, chains of intersections, random picks',
     'Not tested in the current packages.',
     both('two_occupation_domains.py', 'intsct.py'), [('intersection', 'two_occupation_domains.py'), ('intersection_two_obj_1', 'intsct.py')],
     'exhaustive enumeration of ordered pairs of objects, operand forms, random picks and chains on the real code; regions compared with exact clipping',
     'objects of one or two simplices over the alphabet and selected subdivided ones')
prop('C13', 'The convex intersection returns the same exact region',
     'For convex operands the dedicated convex intersection returns exactly the geometric intersection of the two, as non-overlapping simplices, whether they overlap partially, contain one another, touch or are apart.',
     ['inputs'], 'all pairs of convex objects over the alphabets',
     'Not tested.',
     both('two_occupation_domains.py', 'intsct.py', 'utils.py'), [('intersection_convex', 'two_occupation_domains.py'), ('intersection_two_obj_convex', 'intsct.py')],
     'exhaustive enumeration of ordered pairs of convex objects on the real code; regions compared with exact clipping',
     'operands are convex conforming complexes')
prop('C14', 'Faces, edges, adjacency and merging of simplices are exact',
     'The faces and edges listed for an object, its surface (faces belonging to one simplex only), shared faces and adjacency of two simplices, and the merging of two simplices into one, are exactly those of the geometry for every object. '
     'Corners named by different six-dimensional vectors of the same internal point count as the same corner.',
     ['inputs', 'schedules'], 'all subcomplexes of the reference complexes, all pairs of simplices over the alphabets',
     'Not tested.',
     both('utils.py', 'intsct.py'), [('generator_surface_*, generator_unique_*, check_two_*, merge_two_*', 'utils.py')],
     'exhaustive enumeration of all subcomplexes and simplex pairs on the real code against exact incidence computed by the model',
     'conforming complexes, as documented')
prop('C15', 'Outline of an object is exactly its geometric border',
     'The border edges of an object are exactly the straight edges of its boundary: lines interior to a flat face disappear, collinear pieces are joined, and no border edge is lost, shortened or invented, whatever the triangulation, order and naming of corners.',
     ['inputs', 'schedules'], 'all subcomplexes and subdivisions of the reference complexes, random picks',
     'Not tested.',
     both('utils.py', 'occupation_domain.py'), [('surface_cleaner, gen_border_edges_of_coplanar_triangles, outline, generate_border_edges', 'utils.py, occupation_domain.py')],
     'exhaustive enumeration of complexes, corner orders and random picks on the real code against exact dihedral analysis',
     'bounded complexes')
prop('C16', 'Convex hull, triangulation and simplification preserve the region',
     'Triangulating a set of points fills exactly their convex hull with non-overlapping simplices whose corners are the given points, or yields nothing when the points have no interior. '
     'The convex hull of an object is exactly its hull, and simplifying an object never changes the region it occupies.',
     ['inputs'], 'all point subsets and objects over the alphabets',
     'Not tested.',
     both('utils.py', 'intsct.py', 'occupation_domain.py'), [('tetrahedralization_points/triangulation_points, generate_convex_hull, simplification*', 'intsct.py, utils.py, occupation_domain.py')],
     'exhaustive enumeration of point subsets and objects on the real code against exact hulls',
     'bounded point alphabets')
prop('C17', 'XYZ files round-trip exactly',
     'An occupation domain written to an XYZ file and read back is the same object, coordinate for coordinate and in the same order, along any sequence of writes and reads, including overwriting a longer file and numbers of any sign and size. '
     'Writing one object never affects the file of another.',
     ['inputs', 'histories'], 'all objects over the alphabets and all write/read histories up to a length',
     'Not tested.',
     both('occupation_domain.py'), [('write, write_xyz, read_xyz', 'occupation_domain.py')],
     'exhaustive exploration of write/read histories in a scratch directory on the real code against a file-content model',
     'history length and object alphabet bounded')
prop('C18', 'Exported VESTA, atom and polyhedron files describe the object exactly',
     'The files exported for display and for structure refinement contain exactly the corners and faces or edges of the object, numbered consistently, for every kind of export.',
     ['inputs', 'configurations', 'histories'], 'all objects over the alphabets, every export kind',
     'Not tested.',
     both('occupation_domain.py'), [('write_vesta, obj2podatm', 'occupation_domain.py')],
     'exhaustive enumeration of objects x export kinds; produced files parsed and compared with the model',
     'file grammar as produced today')
prop('C19', 'Site symmetry and coset representatives are exact (dodecagonal)',
     'The site-symmetry operations found for a position are exactly the operations of the point group that map it to itself modulo lattice translations, and together with the coset representatives they generate the full group without duplication.',
     ['inputs'], 'all rational sites with small denominators',
     'Not tested.',
     [D + 'symmetry.py', D + 'occupation_domain.py'], [('site_symmetry, coset, site_symmetry_and_coset', D + 'symmetry.py')],
     'exhaustive enumeration of sites on the real code against exact stabilisers',
     'sites over a bounded alphabet of coordinates')
prop('C20', 'Similarity transformation scales exactly and composes (dodecagonal)',
     'The similarity transformation to the power m scales the internal coordinates of every vector, simplex and object by exactly the m-th power of the scaling unit, powers compose, and the power of opposite sign undoes it.',
     ['inputs', 'histories'], 'all objects and all sequences of powers up to a length',
     'Not tested.',
     [D + 'symmetry.py', D + 'occupation_domain.py'], [('similarity*', D + 'symmetry.py')],
     'exhaustive exploration of sequences of powers on the real code against exact scaling',
     'powers and sequence lengths bounded')
prop('C21', 'Operations neither modify their arguments nor depend on what ran before',
     'No operation on numbers, vectors or objects changes the arrays passed to it, and repeating an operation after any other sequence of operations gives the same result.',
     ['histories', 'inputs'], 'all ordered pairs (and triples) of public operations',
     'Tests run each function once in isolation.',
     both('math1.py', 'symmetry.py', 'utils.py', 'intsct.py', 'occupation_domain.py', 'two_occupation_domains.py'), [('copying of operands', 'all modules')],
     'exhaustive exploration of operation histories up to depth 2 on the real code, arguments and results compared bit for bit with a fresh run',
     'one or two representative inputs per operation')
prop('C22', 'The asymmetric part of a symmetric object is exactly its wedge (icosahedral)',
     'Cutting the asymmetric part out of a symmetric object returns exactly the part of it that lies in the wedge spanned from the centre by the three given directions.',
     ['inputs'], 'all objects, centres and wedges over the alphabets',
     'Not tested.',
     [I + 'occupation_domain.py'], [('asymmetric', I + 'occupation_domain.py')],
     'exhaustive enumeration of objects x centres x wedges on the real code against exact clipping',
     'bounded alphabets')
LEG = 'src_cython/'
BUILT = 'built from the working tree in a scratch directory; operands bounded so that 64-bit integers cannot overflow'
prop('C23', 'The compiled simplifications and subtraction keep exactly the region',
     'In the compiled icosahedral package every way to simplify an occupation domain (simplification, simple with select 1 to 4, the partial, random and manual ones, adding a point) returns the same region cut differently, whatever order it looks at the pieces in; the convex hull is exactly the hull of the corners; and subtraction returns exactly the part of one domain outside the other, or says that it failed.',
     ['inputs', 'schedules'], 'all objects, choices of pieces, orders and random answers of bounded alphabets',
     'The test scripts of this package do not reach these functions.',
     [LEG + 'ico/mics.pyx', LEG + 'ico/intsct.pyx', LEG + 'ico/utils.pyx', LEG + 'ico/occupation_domain.py', LEG + 'ico/two_occupation_domains.py'],
     [('simplification*, generate_convex_hull, object_subtraction*', LEG + 'ico/mics.pyx'), ('simplification, simple*, simpl_*', LEG + 'ico/occupation_domain.py'), ('subtraction', LEG + 'ico/two_occupation_domains.py')],
     'exhaustive enumeration of objects x choices x orders of the shuffles and random answers on the freshly compiled modules against exact region comparison', BUILT)
prop('C24', 'The compiled packages compute numbers, projections and measures exactly',
     'The compiled icosahedral (src_cython/ico) and dodecagonal (src_cython/dode) packages compute sums, differences, products, quotients and signs of field numbers, projections to the two subspaces, vector sums, inner and outer products, and areas and volumes of simplices and objects exactly, and equal values written differently give equal results.',
     ['inputs'], 'all operands of bounded alphabets of numbers, vectors and simplices',
     'The test scripts of these packages print results and only notice crashes.',
     [LEG + 'ico/math1.pyx', LEG + 'dode/math12.pyx', LEG + 'ico/utils.pyx', LEG + 'dode/utils12.pyx', LEG + 'ico/numericalc.pyx', LEG + 'dode/numericalc12.pyx'],
     [('add, sub, mul, div', LEG + 'ico/math1.pyx, dode/math12.pyx'), ('projection, projection3', LEG + 'ico/math1.pyx, dode/math12.pyx')],
     'exhaustive enumeration of bounded operands on the freshly compiled modules against the exact model', BUILT)
prop('C25', 'The compiled packages transform vectors, simplices and objects exactly',
     'In the compiled packages symmetry operations, their site-centred images, translations, similarity transformations and the removal of duplicates act on vectors, simplices and objects exactly as the point group, translation and scaling do: the full orbit, each member once, no other member.',
     ['inputs'], 'all vectors, simplices, objects, centres and operations of bounded alphabets',
     'The test scripts of these packages print results and only notice crashes.',
     [LEG + 'ico/symmetry.pyx', LEG + 'dode/symmetry12.pyx', LEG + 'ico/occupation_domain.py', LEG + 'dode/occupation_domain.py'],
     [('generator_*, symop_*, similarity_*, translation', LEG + 'ico/symmetry.pyx, dode/symmetry12.pyx'), ('symmetric, shift', LEG + '*/occupation_domain.py')],
     'exhaustive enumeration of operands x operations on the freshly compiled modules against the exact model', BUILT)
prop('C26', 'The compiled packages cut occupation domains correctly',
     'In the compiled packages the inside/outside tests, intersections of segments and of simplices, the common part of two domains (general and convex variants), and the asymmetric wedge are geometrically correct: a common part consists of simplices with disjoint interiors inside both domains and has the exact measure of the overlap, in any order of the corners and simplices.',
     ['inputs'], 'all pairs of points, segments, simplices and objects of bounded alphabets',
     'The test scripts of these packages print results and only notice crashes.',
     [LEG + 'ico/intsct.pyx', LEG + 'dode/intsct12.pyx', LEG + 'ico/numericalc.pyx', LEG + 'dode/numericalc12.pyx', LEG + 'ico/two_occupation_domains.py', LEG + 'dode/occupation_domain.py'],
     [('intersection, intersection_convex', LEG + 'ico/two_occupation_domains.py, dode/occupation_domain.py'), ('inside/outside tests', LEG + '*/numericalc*.pyx')],
     'exhaustive enumeration of pairs of figures on the freshly compiled modules against exact clipping', BUILT + '; configurations closer than the code tolerance are not judged')
prop('C27', 'The compiled dodecagonal structure generation finds exactly the atoms',
     'The compiled dodecagonal structure generators list exactly the lattice translations whose internal-space image lies in the occupation domain within the requested range, each with its exact external coordinates, and with a linear phason strain applied to the internal positions.',
     ['inputs'], 'all domains, ranges, positions and phason matrices of bounded alphabets',
     'The test scripts of this package print results and only notice crashes.',
     [LEG + 'dode/strc12.pyx', LEG + 'dode/occupation_domain.py'], [('strc', LEG + 'dode/strc12.pyx'), ('qcstrc', LEG + 'dode/occupation_domain.py')],
     'exhaustive enumeration of domains x ranges x strains on the freshly compiled modules against enumeration of the lattice in the exact model', BUILT)
prop('C28', 'The compiled packages describe surfaces and write files faithfully',
     'In the compiled packages the surface, the edges and the outline of an object are exactly its border, each piece once and whole; files written for an object (xyz, vesta, pod/atm) contain exactly that object, its corners, edges, measures and colours, and reading a file back returns the object that was written.',
     ['inputs', 'histories'], 'every subset of the reference complexes, all objects of bounded alphabets',
     'The test scripts of these packages print results and only notice crashes.',
     [LEG + 'ico/utils.pyx', LEG + 'dode/utils12.pyx', LEG + 'ico/occupation_domain.py', LEG + 'dode/occupation_domain.py', LEG + 'ico/two_occupation_domains.py'],
     [('generator_surface_1, surface_cleaner', LEG + 'ico/utils.pyx, dode/utils12.pyx'), ('write, write_xyz, write_vesta, write_podatm, read_xyz', LEG + '*/occupation_domain.py')],
     'exhaustive enumeration of complexes and objects on the freshly compiled modules; produced files parsed and compared with the model', BUILT)

prop('C29', 'Any sequence of domain operations ends with the exact region',
     'Starting from any occupation domain, any sequence of moving it, applying a symmetry operation, taking the common part with another domain (also with the domain it started from), taking the asymmetric part (icosahedral), a similarity change of scale (dodecagonal), simplifying it and saving and loading it gives, after every step, exactly the region that the exact operations give: non-degenerate simplices with disjoint interiors, none lost, none invented, whose reported measure is the exact one; no step changes the domain it was given.',
     ['inputs', 'histories'], 'every sequence of up to 3 (4) operations of the alphabet on every start object, both packages',
     'Each test calls one routine on one hand-made object; results of one routine as operands of the next (long numbers, many corners, non-conforming pieces) are not tested.',
     both('occupation_domain.py', 'two_occupation_domains.py', 'intsct.py', 'utils.py', 'symmetry.py'),
     [('shift, symmetric_0, simplification, asymmetric, similarity, write, read_xyz, volume', 'src/pyqcstrc/*/occupation_domain.py'), ('intersection', 'src/pyqcstrc/*/two_occupation_domains.py')],
     'explicit-state exploration of all operation histories up to a depth on the real code; every transition is compared with the exact model started from the state reached', 'depth, alphabet of operations and start objects stated in the evidence; objects of more than 40 simplices are not explored further; numbers beyond 64 bits may be refused')

NOT_APPLICABLE = []


def main():
    import importlib.util  # noqa: F401
    have = {n[:-3].upper() for n in os.listdir(os.path.join(ROOT, 'harness', 'props')) if n.startswith('c') and n.endswith('.py')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['pid'] not in have and p['pid'] not in [n['property'] for n in NOT_APPLICABLE]:
                continue
            assert len(p['title']) <= 80, p['title']
            json.dump({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                       'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                       'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                   'hook_needed': None}}, f)
            f.write('\n')
    py = '/opt/venv/bin/python'
    m = {'version': 1,
         'setup_cmd': py + ' -c "import numpy, scipy"',
         'checks': [{'property': p['pid'], 'quick_cmd': '%s harness/run.py %s quick' % (py, p['pid']),
                     'thorough_cmd': '%s harness/run.py %s thorough' % (py, p['pid']),
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']}
                    for p in P if p['pid'] in have],
         'not_applicable': NOT_APPLICABLE}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
