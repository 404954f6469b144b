#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the properties' texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, where=w) for n, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


M = 'meshmagick/mesh.py'
C = 'meshmagick/mesh_clipper.py'
H = 'meshmagick/hydrostatics.py'
I = 'meshmagick/inertia.py'
IO = 'meshmagick/mmio.py'
R = 'meshmagick/rotations.py'
CLI = 'meshmagick/cli.py'
T = 'meshmagick/tools.py'

prop('C01', 'Derived data of a mesh never goes stale, whatever was done to it before',
     'After any sequence of queries and modifications of a mesh (translations, rotations, scalings, mirroring, '
     'symmetrizing, flipping, merging, healing, triangulating, removing or assigning vertices and faces), every derived '
     'quantity it reports - face areas, normals and centers, triangle/quadrangle ids and counts, surface integrals, '
     'volume, plain and shell inertias, vertex/vertex, vertex/face and face/face adjacency, boundaries, closedness - '
     'equals the one reported by a new mesh built from its current vertices and faces.',
     ['histories'],
     'every interleaving, up to a depth, of cache-filling queries and mutating operations, on triangle, quadrangle, '
     'mixed, open and closed meshes',
     'Tests query a mesh in one state (at most one modification after one query); staleness depends on which caches '
     'were filled before which modification, i.e. on the history.',
     [M], [('per-instance cache of derived data and its invalidation', 'Mesh.__internals__, _remove_* methods'),
           ('in place update of cached centers/normals', 'Mesh.translate*, rotate_matrix, flip_normals')],
     state=[('cached properties', 'Mesh.__internals__')], observe=['public properties of Mesh'])

prop('C02', 'Rigid motions, scalings, mirror and flip apply exactly the documented map',
     'Any sequence of translate/translate_x/y/z, rotate/rotate_x/y/z/rotate_matrix (fixed-axis roll-pitch-yaw angles in '
     'radians about the origin, R = Rz.Ry.Rx), scale/scalex/y/z, mirror through an arbitrary plane and flip_normals moves every '
     'vertex exactly by the composition of the corresponding affine maps and keeps the faces connectivity (only its '
     'orientation is reversed by mirror and flip_normals). A mirrored mesh stays outward oriented (its volume keeps its sign), '
     'flipping negates every normal, and rotations return the rotation matrix that was applied.',
     ['histories', 'inputs'],
     'all sequences up to a depth over an alphabet of transforms with generic and special arguments (quarter turns, '
     'oblique planes with offsets, zero) on several meshes',
     'Tests apply one or two transforms and compare with other code paths of the same class, never with an independent '
     'affine model nor in combination.',
     [M, R], [('transformations of vertices and faces', 'Mesh.translate*, rotate*, scale*, mirror, flip_normals')],
     observe=['Mesh.vertices', 'Mesh.faces', 'Mesh.volume'])

prop('C03', 'heal_normals makes any orientation pattern consistent, and outward when closed',
     'Whatever subset of the faces of an orientable conformal mesh, of one or several pieces, has a reversed orientation (and '
     'whatever was queried before), heal_normals ends with every two faces sharing an edge traversing it in opposite directions, '
     'and, if the mesh is closed, with a positive volume (all normals outward when it is in one piece). It changes nothing but the orientation of faces: vertices, the '
     'order of faces and the vertices of every face are kept; it is idempotent.',
     ['inputs', 'histories'],
     'all 2^nf reversal patterns of small closed and open meshes of triangles and quadrangles, with caches empty or filled',
     'A test only heals an already consistent mesh or a single pattern; the result depends on the traversal order and on '
     'which faces are reversed.',
     [M], [('flooding of face adjacency and reversal of inconsistent faces', 'Mesh.heal_normals')],
     observe=['Mesh.faces', 'Mesh.volume', 'Mesh.faces_normals'])

prop('C04', 'Mesh healing removes only defects and preserves the surface',
     'For a valid mesh spoiled by any combination of unused vertices, duplicated vertices, degenerated (null area) faces, '
     'triangles described with the wrong repeated vertex and reversed faces, heal_mesh gives back the original surface: the '
     'same faces in space, triangles with first index equal to last, no duplicated vertices, no null area face, outward consistent normals. Each '
     'step used alone (remove_unused_vertices, remove_degenerated_faces, merge_duplicates, heal_triangles) removes '
     'precisely its own kind of defect, leaves the position and the order of the other faces unchanged, and healing a '
     'sane mesh does nothing.',
     ['inputs', 'histories'],
     'all combinations of defects of each kind at every location of small meshes, each healing step alone and combined',
     'Tests run heal_mesh on one regular mesh; whether a healer damages valid parts depends on combinations of defects.',
     [M, T], [('healing', 'Mesh.heal_mesh, remove_unused_vertices, remove_degenerated_faces, merge_duplicates, heal_triangles')],
     observe=['Mesh.vertices', 'Mesh.faces'])

prop('C05', 'Adjacency, boundaries and closedness match the combinatorial definition',
     'For every conformal mesh (at most two faces per edge), vertex/vertex adjacency relates exactly the pairs of vertices '
     'joined by a face edge, vertex/face adjacency the faces using a vertex, face/face adjacency the faces sharing an edge, and '
     'boundaries are closed loops that together traverse every edge used by a single face exactly once (one per hole when holes '
     'do not touch each other). A mesh is declared closed '
     'if and only if no edge is used by a single face, independently of the orientation of its faces and of their '
     'numbering.',
     ['inputs'],
     'all small complexes of triangles and quadrangles (every subset of the faces of small closed solids and grids, every '
     'orientation pattern, several numberings)',
     'Tests check adjacency counts of one cylinder mesh; holes, pinched boundaries, several components and inconsistent '
     'orientations are never sampled.',
     [M], [('connectivity computation', 'Mesh._connectivity')], observe=['Mesh.vv/vf/ff/boundaries/is_mesh_closed'])

prop('C06', 'Clipping keeps exactly the part of the surface under the plane',
     'For any mesh of planar convex faces and any plane <n|x>=c crossing it, the clipped mesh is exactly the part of the '
     'surface with <n|x> <= c: same area, same moments and same face orientations as the exact intersection of each face with the half-space, '
     'no point above the plane beyond the vicinity tolerance, whatever vertices lie above, on or below the plane. '
     'For a closed mesh the intersection polygons are closed, lie on the plane, are counter-clockwise around the plane '
     'normal and bound exactly the section of the solid; for an open mesh, polygons and open lines together are the intersection with the plane, '
     'and asserting closed boundaries raises an error exactly when there is an open line; a mesh entirely on one side is reported by an error telling '
     'whether it is above or below.',
     ['inputs', 'configurations'],
     'every weakly convex triangle and quadrangle of a grid (hence every above/on/below pattern and starting vertex) and every '
     'catalogue solid cut by families of axis, diagonal and oblique planes at vertex, edge, face and generic positions',
     'The test clips one ship by a few planes and checks only that it runs; each of the ~20 face cases needs its own '
     'geometric pattern and orientation.',
     [C, M], [('per face-type cutting', 'MeshClipper._clip_crown_by_plane'),
              ('assembling of intersection polygons', 'MeshClipper closed_polygons/open_lines')],
     observe=['MeshClipper.clipped_mesh', 'closed_polygons_vertices', 'open_lines_vertices'])

prop('C07', 'Clippers never alter their inputs, and complementary clips make the whole',
     'Building a clipper partitions the faces of the source mesh into lower, crown and upper meshes, leaves the source mesh '
     'and the plane unchanged, and clipping by a plane and by the opposite plane gives two surfaces whose areas, volume '
     'contributions and inertias add up to those of the source. After any sequence of assignments of its plane and '
     'vicinity tolerance, a clipper gives the same results as a new one built with the final values.',
     ['histories', 'inputs'],
     'all sequences up to a depth of plane/tolerance reassignments, on several meshes, and plane/opposite plane pairs',
     'No test reuses a clipper with a second plane or compares both sides of a cut.',
     [C], [('clipper state refresh', 'MeshClipper.plane/vicinity_tol setters, _update'),
           ('partition of faces', 'MeshClipper._partition_mesh')],
     state=[('clipper internals', 'MeshClipper.__internals__')], observe=['lower/crown/upper/clipped meshes'])

prop('C08', 'Volume, center and inertia of the enclosed solid are exact',
     'For every closed outward mesh with planar faces, volume, mass, center of gravity and the inertia matrix about the '
     'origin (moments and products, with the sign convention I_xy = -int xy dm off-diagonal) of the homogeneous solid '
     'equal the exact integrals over the polyhedron, wherever it is located and however faces are ordered, split into triangles or numbered.',
     ['inputs'],
     'all catalogue polyhedra under integer affine maps, translations, face permutations, first-vertex rotations and both '
     'diagonals of every quadrangle',
     'Tests compare one cylinder/sphere with analytic values to a percent and never see products of inertia or '
     'off-origin solids.',
     [M, I], [('surface integrals by triangle and divergence theorem', 'Mesh._compute_triangles_integrals, '
               'eval_plain_mesh_inertias')],
     observe=['Mesh.volume', 'Mesh.eval_plain_mesh_inertias'])

prop('C09', 'Face areas, centers, normals and shell inertias are exact',
     'For every mesh with planar convex faces, face areas, centroids and unit normals (right-hand rule on the vertex '
     'order), and the mass, center of gravity and inertia matrix about the origin of the shell of given density and '
     'thickness equal the exact surface integrals over the faces; quadrangles and their triangulations give the same '
     'results, a quadrangle whose vertices are not coplanar having the area of the two triangles of its triangulation.',
     ['inputs'],
     'every non degenerate weakly convex triangle/quadrangle of a grid placed in several planes, and all catalogue surfaces',
     'Tests check that total areas are close on one mesh; centers, products of inertia and quadrangle cases are not checked.',
     [M, I], [('face properties', 'Mesh._faces_properties'), ('surface integrals', 'Mesh.eval_shell_mesh_inertias')],
     observe=['Mesh.faces_areas/centers/normals', 'Mesh.eval_shell_mesh_inertias', 'Mesh.get_surface_integrals'])

prop('C10', 'Inertia matrices obey the parallel axis theorem along any history',
     'Whatever the sequence of changes of the reduction point, shifts at the center of gravity and copies at the center of '
     'gravity, the inertia matrix of a rigid body is that of one fixed mass distribution at the current reduction point '
     '(transport from cog by m(|d|^2 Id - d d^T)), hence independent of the path, and coming back restores it. '
     'Mass and center of gravity never change, the returned products of inertia are minus the off-diagonal terms, and '
     'asking for a copy at cog leaves the original unchanged.',
     ['histories'],
     'all sequences up to a depth of reduction point changes, shifts and copies, for bodies built at cog or at another point',
     'Tests transport once from one point to another; round trips and successive points are not explored.',
     [I], [('transport of inertia', 'RigidBodyInertia.reduction_point, shift_at_cog, at_cog')],
     state=[('reduction point and matrix', 'RigidBodyInertia')], observe=['RigidBodyInertia public properties'])

prop('C11', 'Analytic inertias of reference shapes are those of the true bodies',
     'For every reference shape offered (cylinders, cones, spheres, hemisphere, ellipsoid, torus, wedges, pyramid, cube, '
     'prism, shells), mass and principal moments of inertia at the center of gravity equal the exact integrals over the '
     'body of the documented shape, axes and dimensions, for all positive dimensions and densities.',
     ['inputs'],
     'all shapes times grids of dimensions and densities compared with independent quadrature of the body',
     'Tests compare a few shapes at one dimension each; errors in a coefficient show only for some dimension ratios.',
     [I], [('closed form inertias', 'functions of meshmagick/inertia.py')], observe=['returned RigidBodyInertia'])

prop('C12', 'Writing a mesh then reading it back gives the same mesh, in every format',
     'For every format having both a writer and a reader, writing any mesh of triangles and/or quadrangles and loading '
     'the file gives the same faces in space with the same orientation, vertex coordinates equal to the precision of the '
     'format, and triangles described in the internal convention (STL splits quadrangles, STL and GDF may duplicate vertices, '
     'DAT may reorder triangles and quadrangles). Writing never modifies the arrays it is given, and loading never '
     'depends on files written before.',
     ['inputs', 'histories'],
     'all read/write formats times meshes that are triangle-only, quadrangle-only, mixed in every order, single-face, '
     'large numbered, with large, tiny, negative and non representable coordinates; and chains of conversions between all pairs of formats',
     'The IO test converts one quadrangle mesh through the formats and only checks that nothing raises.',
     [IO], [('writers and loaders', 'mmio.write_*, load_*'), ('format dispatch', 'mmio.extension_dict')],
     observe=['mmio.load_mesh', 'mmio.write_mesh'])

prop('C13', 'A truncated file is never loaded silently as a smaller mesh',
     'When a file of a format that declares its sizes or terminates its sections (NEM, NAT, GDF, PNL, TEC, MSH, VTK, VTP, VTU, MAR and '
     'DAT, inside a section) is cut after any of its lines, loading it as a mesh either fails with an error or gives the complete mesh: it never hangs '
     'and never gives a mesh with missing faces, missing vertices or faces pointing at vertices that do not exist.',
     ['crash_points', 'fault_sequences'],
     'every truncation point (every line, and every token on the last lines) of files of each such format',
     'No test reads a damaged file.',
     [IO], [('loaders', 'mmio.load_*')], observe=['mmio.load_mesh followed by Mesh construction'])

prop('C14', 'Loaders understand conforming files produced by other tools',
     'For each readable format, a file that conforms to the format written by any other tool - with any legal layout '
     '(blank spaces, line wrapping, number notation, numbering gaps where node ids are explicit, several sections or bodies, comments) - '
     'loads to exactly the vertices and faces it describes, triangles having their first index equal to their last.',
     ['inputs', 'configurations'],
     'all combinations of layout variants of files generated from independent descriptions of RAD, HST, DAT, INP, TEC, VTK, VTU, VTP, '
     'STL, NAT, GDF, MAR, NEM, MSH 2.2/4.1, MED, WRL, OBJ and PNL, for triangle, quadrangle and mixed meshes',
     'The tests load one example file per format written in one layout.',
     [IO], [('parsers', 'mmio.load_*')], observe=['mmio.load_mesh'])

prop('C15', 'Conversions between rotation representations preserve the rotation',
     'Converting any rotation between unit quaternion, rotation matrix, axis-angle and cardan angles, through any chain of conversions, gives a '
     'representation of the same rotation: same action on vectors, orthogonal matrices of determinant +1, unit quaternions and axes. '
     'This includes null, tiny, half-turn and gimbal-lock rotations and inputs given as plain sequences.',
     ['inputs', 'histories'],
     'all chains of conversions up to a length from an exhaustive grid of cardan angles and axis-angle pairs including singular ones',
     'The module self-test uses random generic rotations, which never hit singular configurations.',
     [R], [('conversion functions', 'meshmagick/rotations.py')], observe=['returned representations'])

prop('C16', 'A plane stays consistent whatever the sequence of its updates',
     'After any sequence of updates of a plane (setting its normal or scalar, setting the normal from angles, rotating or '
     'flipping the normal), the normal is a unit vector, distances are <n|x> - c, the projection of points lies on the plane, is '
     'idempotent and differs from the point along the normal, edge intersections lie on both plane and edge (or an error is '
     'raised when the edge does not cross), and coordinates in the plane frame are an isometry whose third component is the '
     'signed distance.',
     ['histories', 'inputs'],
     'all sequences up to a depth over an alphabet of updates (axis, opposite, oblique normals, scalars, angles), then all '
     'queries on a grid of points',
     'Tests build one plane and query it once; the cached rotation matrix depends on the sequence of updates.',
     [M], [('plane frame cache', 'Plane._rot and its updates')], state=[('normal, scalar, rotation', 'Plane')],
     observe=['Plane public methods'])

prop('C17', 'Hydrostatic figures are the exact integrals over the immersed body',
     'For every closed hull floating across z=0 (given draft correction and rotation included), displaced volume and mass, '
     'buoyancy center, wetted area, waterplane area and center, metacentric radii and heights, stiffness matrix (about the origin or about the '
     'horizontal position of the buoyancy center when asked at cog), waterline and submerged extents, draught, perpendicular '
     'lengths and inertia of the displaced volume about the given cog equal the exact integrals over '
     'the immersed part of the polyhedron.',
     ['inputs', 'configurations'],
     'all catalogue hulls (boxes, prisms, wedges, pyramids, multi-hull, asymmetric, with moonpool) times draughts, '
     'horizontal offsets, centers of gravity, densities, gravities, rotations and option combinations',
     'No stable test checks a hydrostatic value.',
     [H, C, M], [('hydrostatics from clipped mesh and intersection polygons', 'hydrostatics.compute_hydrostatics')],
     observe=['returned data dictionary'])

prop('C18', 'Hydrostatics do not depend on the frame or on earlier computations',
     'Computing hydrostatics never modifies the mesh, center of gravity or matrices it is given, gives the same figures when called '
     'again in any order or with other hulls in between, does not depend on the numbering, ordering or triangulation of planar faces, nor on parts '
     'above water, and changes equivariantly (areas, volume, radii, heights unchanged; centers moved) under horizontal translations and '
     'rotations about the vertical. Passing a correction (rotation and vertical shift) is equivalent to moving the mesh and the '
     'center of gravity first, with centers expressed back in the initial frame.',
     ['histories', 'inputs'],
     'all orders of calls up to a length over a set of hulls/options, and all transforms of a family',
     'No stable test computes hydrostatics twice or in another frame.',
     [H, C], [('hydrostatics', 'hydrostatics.compute_hydrostatics')], observe=['returned data dictionary'])

prop('C19', 'Displacement equilibrium reaches the requested displacement',
     'For every closed hull and every displacement strictly between zero and its full volume, from any initial vertical '
     'position cutting or below the water plane, the vertical correction returned makes the displaced mass equal to the '
     'target within the relative tolerance; the mesh is not modified. A displacement that exceeds what the hull can carry is never returned '
     'silently: a warning or error tells it, and a hull entirely above water is reported by an error.',
     ['inputs', 'configurations'],
     'all catalogue hulls times a grid of fill ratios, initial vertical positions and tolerances',
     'The tests have no stable equilibrium case; convergence depends on shape and initial position.',
     [H], [('iterations on vertical position', 'hydrostatics.displacement_equilibrium')],
     observe=['returned correction, recomputed displacement'])

prop('C20', 'Full equilibrium balances weight and buoyancy and reports consistent corrections',
     'When a 3DOF equilibrium of a stable hull with given displacement and center of gravity is computed, the returned correction is a proper '
     'rotation and a vertical shift such that, once applied to the mesh and to the center of gravity, the displaced mass equals '
     'the target and the buoyancy center is vertically aligned with the center of gravity within tolerance. A hull '
     'already at equilibrium is left as it is, and inputs are not modified.',
     ['inputs', 'configurations'],
     'all stable catalogue hulls times grids of displacement, small horizontal offsets of cog and initial trim/heel',
     'The tests have no stable 3DOF equilibrium case.',
     [H, R], [('Newton iterations in heave, roll and pitch', 'hydrostatics.full_equilibrium')],
     observe=['returned correction, exact integrals on moved mesh'])

prop('C21', 'The command line applies the documented operations in the documented order',
     'For any set of mesh manipulation options given in any order on the command line, the output file is the mesh obtained by '
     'applying the corresponding library operations in the fixed documented order (load, concatenate, merge, mirror, symmetrize, '
     'heal, translate, rotate in degrees, scale, flip, triangulate, clip, write), with planes given by key, by '
     'four scalars or by index, default planes and tolerances as documented, and input files left untouched.',
     ['configurations', 'inputs'],
     'all single options, all pairs (both orders on the command line) and selected triples of manipulation options, all plane '
     'notations',
     'Nothing tests the command line.',
     [CLI], [('option parsing and pipeline', 'cli.main')], observe=['output mesh file'])

prop('C22', 'Command line hydrostatics and inertia reports tell the truth about the mesh',
     'For every combination of -hs options (displacement, cog, zcog, water density, gravity, lpp, origin at AP, report file) and inertia '
     'options (plain or shell, density by value or by medium name, thickness), the printed and written figures are those of the '
     'library computation with those parameters - masses in tons, angles in degrees - and the written output mesh is the input mesh moved '
     'by the reported correction.',
     ['configurations'],
     'all combinations of hydrostatics options and of inertia options on several hulls',
     'Nothing tests the command line.',
     [CLI, H, 'meshmagick/densities.py'], [('hydrostatics branch and report', 'cli.main, get_hydrostatic_report')],
     observe=['standard output, report file, output mesh file'])

prop('C23', 'Concatenating, extracting, symmetrizing and triangulating preserve the geometry',
     'The sum of two meshes holds exactly the faces of both, in order, with coincident vertices merged; extracting faces gives exactly those faces '
     'in the given order using only their vertices (and the ids of these vertices when asked); symmetrizing adds the mirror image of every face with mirrored orientation '
     'and welds vertices lying on the plane; triangulating replaces every quadrangle by two triangles covering it with the '
     'same orientation. Operands and sources are not modified by addition and extraction.',
     ['inputs', 'histories'],
     'all pairs of catalogue meshes in relative positions disjoint/sharing a face/edge/vertex, all subsets of faces of small meshes, '
     'families of symmetry planes, and sequences of such operations',
     'Tests check the number of faces of one such operation.',
     [M, T], [('composition operations', 'Mesh.__add__, extract_faces, symmetrize, triangulate_quadrangles')],
     observe=['vertices and faces of results'])

prop('C24', 'Distinct objects never share mutable state',
     'Modifying a mesh, plane, clipper, inertia or hydrostatic result through its methods never changes another object: not the arrays given to '
     'build it, nor copies, extracted or summed meshes, results returned before, nor default values used by objects created later. '
     'A copy of a mesh is equal to it when made and independent afterwards.',
     ['histories'],
     'all pairs (way of deriving an object from another, modification applied to either one), with caches filled or not, and sequences of them',
     'Tests never look at another object after a modification; aliasing only shows through pairs of objects.',
     [M, C, I, H], [('copies of arrays', 'Mesh.__init__, copy, setters, extract_faces, __add__'),
                    ('default arguments', 'MeshClipper.__init__, compute_hydrostatics')],
     observe=['state of the other objects'])

prop('C25', 'Merging duplicate points merges all and only coincident points',
     'For points forming clusters separated by more than the tolerance, merging rows within an absolute tolerance gives one point per '
     'cluster, moves no point by more than the tolerance in any coordinate, never merges points differing by more than the tolerance in a coordinate, keeps separated points distinct, always merges identical rows, and '
     'returns an index array mapping every input row to its merged point; with nothing to merge, rows keep their order. '
     'The result does not depend on the order of the points and merging again changes nothing.',
     ['inputs'],
     'all small point sets over a grid of coordinates mixing identical, within-tolerance and distinct values per coordinate, in all orders',
     'Tests merge one regular mesh; the sort-based algorithm depends on coordinates ties across dimensions.',
     [T, M], [('sorting and grouping per dimension', 'tools.merge_duplicate_rows')], observe=['returned rows and index'])

prop('C26', 'Size figures of a mesh are those of its geometry',
     'Bounding box, squared bounding box (a cube with the same center containing the mesh), counts of vertices, faces, triangles and '
     'quadrangles, minimum, maximum and mean edge lengths, per-face vertex lists, the printed summary and the printed quality (areas, edge ratios, angles) are those of the '
     'vertices and faces of the mesh, for triangles as for quadrangles.',
     ['inputs'],
     'all catalogue meshes, all subsets of faces of mixed meshes under translations and scalings',
     'Tests print one quadrangle mesh; triangle edges and asymmetric boxes are not checked.',
     [M], [('statistics', 'Mesh.axis_aligned_bbox, squared_axis_aligned_bbox, min/max/mean_edge_length, __str__, get_face')],
     observe=['public properties'])

prop('C27', 'A mesh file that cannot be written completely is always reported',
     'When writing a mesh fails at any point - the directory does not exist, the device is full, or the space runs out after any number of bytes - '
     'every writer, and the command line, raises an error instead of returning normally with a missing or partial file; loading a missing '
     'file or using an unknown or unsupported format raises an error too.',
     ['fault_sequences', 'crash_points'],
     'every format times every byte at which the space runs out, and all environment faults',
     'No test injects a write failure.',
     [IO, CLI], [('writers', 'mmio.write_*')], observe=['exception or complete file'])

prop('C28', 'Written files conform to their format and hold exactly the mesh',
     'Whatever mesh of triangles and quadrangles is written, in every format having a writer, the file is complete and consistent for any '
     'strict reader of the format: declared counts, sizes and types, node and element numbers, section ends and end of file, no symmetry plane '
     'declared. A reader independent of meshmagick finds exactly the vertices and faces of the mesh with their orientation, and, in '
     'STL files, unit normals following the right hand rule.',
     ['inputs', 'configurations'],
     'every sequence of triangles and quadrangles up to a length, all sizes of a list, all magnitudes of coordinates, all ordered pairs of meshes '
     'written in the same file, for every format and format name',
     'Tests write one mesh per format and read nothing back, or read it back with the loader of the package, which ignores most of what '
     'the file declares.',
     [IO], [('writers', 'mmio.write_*')], observe=['content of the files'])

with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
