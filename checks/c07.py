"""C07: reassignments of the plane and tolerance of a clipper, partition, purity, complementary clips."""
import itertools

import numpy as np

from mc import derived as D, geom
from mc.core import Violation, require

LEVEL = 'model_checking'
RULE = ('a case is (mesh, first assignments): breadth first search over all sequences of assignments of plane and tolerance and '
        'queries on one real clipper; the model is the pair (plane, tolerance), in each state every result is compared with those '
        'of a new clipper; or (mesh, plane), a number of slices of a box, a scale (1 to 1e7): partition, purity and complement; non trivial: the clipper reaches several states')
ASSUMPTIONS = ['planes and tolerances are taken in a finite family']
CHUNK = 1

PLANES = {
    'z=0': ((0, 0, 1), 0.), 'z=-1/2': ((0, 0, 1), -0.5), '-z': ((0, 0, -1), -0.25), 'x=1': ((1, 0, 0), 1.),
    'oblique': ((1, 2, -2), 0.3), 'near': ((0, 0, 1), 0.0005), 'far': ((0, 1, 0), 100.), 'above': ((0, 0, 1), -100.),
}
TOLS = {'1e-3': 1e-3, '1e-6': 1e-6, '0.3': 0.3}
OPS = ['p:' + p for p in PLANES] + ['t:' + t for t in TOLS] + ['query']


def meshes():
    c = geom.catalogue()
    return {
        'box': geom.shift(c['box'], (0, 0, -0.5)), 'hull': c['hull'], 'octa': c['octa'],
        'open': (geom.shift(c['wedge'], (0, 0, -1))[0], c['wedge'][1][1:]),
        'on plane': geom.union(geom.box(0, 2, 0, 2, -1, 0), geom.box(3, 5, 0, 2, -1, 1)),
    }


def plane(name):
    from meshmagick.mesh import Plane
    n, c = PLANES[name]
    return Plane(normal=n, scalar=c)


def results(cl):
    """comparable results of a clipper"""
    out = []
    for k in ('lower_mesh', 'crown_mesh', 'upper_mesh', 'clipped_crown_mesh', 'clipped_mesh'):
        m = getattr(cl, k)
        out.append((k, geom.canon_faces(m.vertices, m.faces)))
        out.append((k + ' vertices', sorted(tuple(np.round(p, 7) + 0.) for p in np.asarray(m.vertices))))
    out.append(('polygons', sorted(geom.canon_face(np.asarray(p)[:-1].tolist()) for p in cl.closed_polygons_vertices)))
    out.append(('nb polygons', (cl.nb_closed_polygons, cl.nb_open_lines)))
    out.append(('open lines', sorted(sorted(tuple(np.round(x, 7) + 0.) for x in np.asarray(p)) for p in cl.open_lines_vertices)))
    return out


def new(src, p, t):
    from meshmagick.mesh_clipper import MeshClipper
    return MeshClipper(src, plane=plane(p), vicinity_tol=TOLS[t])


def compare(cl, src, p, t, hist):
    a = D.attempt(lambda: results(cl))
    b = results(new(src, p, t))
    if isinstance(a, D.Raised):
        raise Violation('%s: %r' % (' -> '.join(hist), a))
    for (n, x), (_, y) in zip(a, b):
        require(x == y, lambda: '%s: %s is %s, with a new clipper %s' % (' -> '.join(hist), n, D.short(x), D.short(y)))
    require(cl.vicinity_tol == TOLS[t], lambda: ' -> '.join(hist) + ': vicinity_tol')
    require(geom.close(cl.plane.normal, plane(p).normal, 1e-12, 1e-12) and cl.plane.c == plane(p).c, lambda: ' -> '.join(hist) + ': plane')


def cases(tier):
    out = []
    for m in meshes():
        for a in OPS:
            for b in OPS:
                out.append(dict(mesh=m, ops=[a, b], depth=3 if tier == 'quick' else 4))
        for p in PLANES:
            out.append(dict(mesh=m, plane=p))
    for s in geom.catalogue():
        for nm in ('z', 'x', 'y', 'o1', 'd3'):
            out.append(dict(solid=s, normal=nm, fine=int(tier == 'thorough')))
    for n in geom.SIZES + (geom.BIG if tier == 'thorough' else [1024]):
        out.append(dict(size=n))
    for m in meshes():
        for e in range(0, 8):
            out.append(dict(mesh=m, scale=e))
    return out


def snapshot(m):
    return m.vertices.copy(), m.faces.copy(), D.report(D.clone(m))


def unchanged(m, snap, what):
    require(np.array_equal(m.vertices, snap[0]) and np.array_equal(m.faces, snap[1]), lambda: what + ': the source mesh is modified')
    d = D.differences(D.report(D.clone(m)), snap[2])
    require(not d, lambda: what + ': derived data of the source mesh modified: %s' % d)


def evaluate_history(case, rec):
    src = geom.mesh(meshes()[case['mesh']])
    snap = snapshot(src)
    shared = {p: plane(p) for p in PLANES}
    p0, t0 = 'z=0', '1e-3'
    root = new(src, p0, t0)
    # (ops done, plane, tolerance)
    n = 0
    states = set()

    def replay_ops(ops):
        cl = new(src, p0, t0)
        p, t = p0, t0
        for op in ops:
            cl, p, t = apply(cl, op, p, t)
        return cl, p, t

    def apply(cl, op, p, t):
        if op == 'query':
            results(cl)
            return cl, p, t
        kind, arg = op.split(':')
        if kind == 'p':
            np_, nt = arg, t
        else:
            np_, nt = p, arg
        want = D.attempt(lambda: new(src, np_, nt))

        def do():
            if kind == 'p':
                cl.plane = shared[arg]
            else:
                cl.vicinity_tol = TOLS[arg]
        got = D.attempt(do)
        if isinstance(want, D.Raised) or isinstance(got, D.Raised):
            require(got == want, lambda: 'assigning %s: %r, with a new clipper %r' % (op, got, want))
            require(len(got.err.args) < 2 or got.err.args[1] == want.err.args[1], lambda: 'assigning %s: %r' % (op, got))
        return cl, np_, nt

    def valid(p, t):
        return not isinstance(D.attempt(lambda: new(src, p, t)), D.Raised)

    stack = [list(case['ops'])]
    while stack:
        ops = stack.pop()
        cl, p, t = replay_ops(ops[:-1])
        if not valid(p, t) and ops[-1] == 'query':
            continue
        cl, p, t = apply(cl, ops[-1], p, t)
        n += 1
        hist = [case['mesh']] + ops
        if valid(p, t):
            compare(cl, src, p, t, hist)
            rec.count('traces')
        states.add((p, t, ops[-1]))
        unchanged(src, snap, ' -> '.join(hist))
        for k, q in shared.items():
            require(np.array_equal(q.normal, plane(k).normal) and q.c == plane(k).c, lambda: '%s: the plane %s is modified' % (hist, k))
        if len(ops) < case['depth']:
            for op in OPS:
                if valid(p, t) or op != 'query':
                    stack.append(ops + [op])
    rec.count('transitions', n)
    rec.count('states', len(states))
    rec.hit()
    rec.outcome('history %s' % case['mesh'])


def multiset(m):
    return geom.canon_faces(m.vertices, m.faces)


def partition_and_complement(src, normal, c, tol, what, rec, k=1.):
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    snap = snapshot(src)
    p = Plane(normal=normal, scalar=c)
    q = Plane(normal=[-x for x in normal], scalar=-c)
    rec.count('transitions')
    pn, pc = p.normal.copy(), p.c
    try:
        cl = MeshClipper(src, plane=p, vicinity_tol=tol)
    except RuntimeError as err:
        if len(err.args) < 2:
            raise
        unchanged(src, snap, what)
        rec.outcome('no crossing')
        return
    unchanged(src, snap, what)
    require(np.array_equal(p.normal, pn) and p.c == pc, lambda: what + ': the plane is modified')
    parts = multiset(cl.lower_mesh) + multiset(cl.crown_mesh) + multiset(cl.upper_mesh)
    require(sorted(parts) == multiset(src), lambda: what + ': lower, crown and upper meshes are not a partition of the faces')
    for m, s in ((cl.lower_mesh, 1), (cl.upper_mesh, -1)):
        if m.nb_faces:
            d = (np.asarray(m.vertices) @ pn - pc) * s
            require(d.max() <= tol + 1e-9, lambda: what + ': a lower/upper face is on the wrong side')
    if src.vertices.shape[0]:
        d = np.asarray(src.vertices) @ pn - pc
        fd = d[np.asarray(src.faces)]
        nl, nu = int((fd < -tol - 1e-9).all(axis=1).sum()), int((fd > tol + 1e-9).all(axis=1).sum())
        require(cl.lower_mesh.nb_faces >= nl and cl.upper_mesh.nb_faces >= nu,
                lambda: what + ': faces strictly under or above the plane are in the crown')
    try:
        cu = MeshClipper(src, plane=q, vicinity_tol=tol)
    except RuntimeError as err:
        if len(err.args) < 2:
            raise
        rec.outcome('one side')
        return
    unchanged(src, snap, what)
    d = np.asarray(src.vertices) @ pn - pc
    snapped = bool(np.any((np.abs(d) > 1e-9) & (np.abs(d) <= tol)))
    if snapped:
        return
    on = np.abs(d[np.asarray(src.faces)]).max(axis=1) <= tol
    rest = src.extract_faces(np.where(~on)[0])
    a, b, w = [geom.np_surface_moments(m.vertices, m.faces) for m in (cl.clipped_mesh, cu.clipped_mesh, rest)]
    for p, n, x, y, z in ((2, 'areas', a[0], b[0], w[0]), (3, 'first moments', a[1], b[1], w[1]), (4, 'second moments', a[2], b[2], w[2]),
                          (2, 'oriented areas', a[3], b[3], w[3])):
        require(geom.close((x + y) / k ** p, z / k ** p, 1e-8, 1e-8), lambda: what + ': %s of the two parts do not add up' % n)
    lo, up = D.clone(cl.clipped_mesh), D.clone(cu.clipped_mesh)
    full = D.clone(rest)
    require(geom.close((lo.volume + up.volume) / k ** 3, full.volume / k ** 3, 1e-8, 1e-8), lambda: what + ': volume contributions do not add up')
    require(geom.close((lo.faces_areas.sum() + up.faces_areas.sum()) / k ** 2, full.faces_areas.sum() / k ** 2, 1e-8, 1e-8), lambda: what + ': areas')
    I = [m.eval_shell_mesh_inertias(rho_medium=2., thickness=1.) for m in (lo, up, full)]
    require(geom.close((I[0].inertia_matrix + I[1].inertia_matrix) / k ** 4, I[2].inertia_matrix / k ** 4, 1e-8, 1e-8), lambda: what + ': shell inertias')
    if min(abs(lo.volume), abs(up.volume), abs(full.volume)) > 1e-9 * k ** 3:
        I = [m.eval_plain_mesh_inertias(rho_medium=2.) for m in (lo, up, full)]
        require(geom.close((I[0].inertia_matrix + I[1].inertia_matrix) / k ** 5, I[2].inertia_matrix / k ** 5, 1e-8, 1e-8), lambda: what + ': plain inertias')
        require(geom.close((I[0].mass * I[0].gravity_center + I[1].mass * I[1].gravity_center) / k ** 4,
                           I[2].mass * I[2].gravity_center / k ** 4, 1e-7, 1e-7), lambda: what + ': centers')
    rec.count('traces')
    rec.hit()
    rec.outcome('complement')


def evaluate(case, rec):
    if 'ops' in case:
        return evaluate_history(case, rec)
    if 'size' in case:
        n = case['size']
        s = geom.tube(n, (0, 1, 3)[n % 3])
        for nm, c in (((0, 0, 1), .5), ((0, 0, -1), -.3), ((1, 0, 0), n / 2.), ((1, 0, 0), .4), ((0, 3, -4), 1 / 7.), ((0, 0, 1), .9996), ((0, 0, 1), 1.), ((0, 0, -1), 3e-4)):
            partition_and_complement(geom.mesh(s), nm, c, 1e-3, 'box in %d slices, plane %s = %g' % (n, nm, c), rec)
        rec.count('states')
        return
    if 'scale' in case:
        k = 10. ** case['scale']
        s = geom.scaled(meshes()[case['mesh']], (k, k, k))
        for n, c in PLANES.values():
            partition_and_complement(geom.mesh(s), n, c * k, 1e-3, '%s scaled by %g, plane %s = %g' % (case['mesh'], k, n, c * k), rec, k)
        rec.count('states')
        return
    if 'plane' in case:
        n, c = PLANES[case['plane']]
        for tol in TOLS.values():
            for warm in (0, 1):
                src = geom.mesh(meshes()[case['mesh']])
                if warm:
                    D.report(src)
                partition_and_complement(src, n, c, tol, '%s, plane %s, tol %g' % (case['mesh'], case['plane'], tol), rec)
        rec.count('states', 6)
        return
    from checks.c06 import NORMALS
    n, k = NORMALS[case['normal']]
    s = geom.catalogue()[case['solid']]
    src = geom.mesh(s)
    lev = sorted({float(geom.dot(n, p)) / k for p in s[0]})
    cuts = lev + [(a + b) / 2 for a, b in zip(lev, lev[1:])]
    if case['fine']:
        cuts += [(3 * a + b) / 4 for a, b in zip(lev, lev[1:])] + [(a + 5 * b) / 6 for a, b in zip(lev, lev[1:])]
    for c in cuts:
        partition_and_complement(src, n, c, 1e-3, '%s, plane %s = %g' % (case['solid'], n, c), rec)
    rec.count('states', len(cuts))
