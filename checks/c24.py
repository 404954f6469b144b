"""C24: modifying an object never changes another one: every derivation followed by every modification of either side."""
import copy
import itertools
import os

import numpy as np

from mc import derived as D, geom, hydro
from mc.core import Violation, quiet, require

LEVEL = 'model_checking'
RULE = ('a case is (mesh, caches filled or not, derivation, second step): all sequences derivation-derivation-modification and '
        'derivation-modification-modification of the family on any of the objects alive; the model of every object is what it was after its own last '
        'modification; also every method taking arrays, planes, clippers, inertias and hydrostatic results, and default arguments; '
        'non trivial: the modified object changed, or two objects are alive')
ASSUMPTIONS = ['objects are modified through their methods; arrays exposing the own data of a mesh or plane (vertices, normal...) follow it',
               'a clipper refers to its source mesh and plane: only its results are independent of them']
CHUNK = 2
CASE_LIMIT = 240.


def snap(m):
    """what a mesh is, not touching its caches"""
    c = D.clone(m)
    with np.errstate(all='ignore'):
        return np.array(m.vertices), np.array(m.faces), D.report(c)


def changed(a, b):
    if not (a[0].shape == b[0].shape and np.array_equal(a[0], b[0])):
        return 'vertices %s were %s' % (b[0][:4].tolist(), a[0][:4].tolist())
    if not (a[1].shape == b[1].shape and np.array_equal(a[1], b[1])):
        return 'faces %s were %s' % (b[1][:4].tolist(), a[1][:4].tolist())
    d = D.differences(b[2], a[2])
    return '; '.join(d) if d else None


def fresh(V, F):
    from meshmagick.mesh import Mesh
    return Mesh(V, F)


def by_setters(m):
    n = fresh(np.zeros((3, 3)), np.array([[0, 1, 2, 0]]))
    n.vertices = m.vertices
    n.faces = m.faces
    return n


def clipper(m, **kw):
    from meshmagick.mesh_clipper import MeshClipper
    from meshmagick.mesh import Plane
    z = np.asarray(m.vertices)[:, 2]
    return MeshClipper(m, plane=Plane(scalar=float(.5 * (z.min() + z.max()))), **kw)


def small():
    return geom.mesh(geom.shift(geom.tetra(), (30, 0, 0)))


# derived mesh of a mesh
DERIVE = {
    'copy': lambda m: m.copy(),
    'deepcopy': lambda m: copy.deepcopy(m),
    'shallow': None,
    'constructor': lambda m: fresh(m.vertices, m.faces),
    'setters': by_setters,
    'extract all': lambda m: m.extract_faces(np.arange(m.nb_faces)),
    'extract list': lambda m: m.extract_faces(list(range(m.nb_faces)), return_index=True)[0],
    'extract one': lambda m: m.extract_faces([0]),
    'm+s': lambda m: m + small(),
    's+m': lambda m: small() + m,
    'm+m': lambda m: m + m,
    'lower': lambda m: clipper(m).lower_mesh,
    'upper': lambda m: clipper(m).upper_mesh,
    'crown': lambda m: clipper(m).crown_mesh,
    'clipped crown': lambda m: clipper(m).clipped_crown_mesh,
    'clipped': lambda m: clipper(m).clipped_mesh,
    'hydrostatics': lambda m: hydro_of(m)['mesh'],
}
del DERIVE['shallow']
FEW = ['copy', 'constructor', 'setters', 'extract all', 'm+s', 'clipped']
EQUAL = ['copy', 'deepcopy', 'constructor', 'setters']


def hydro_of(m, **kw):
    from meshmagick.hydrostatics import compute_hydrostatics
    z = np.asarray(m.vertices)[:, 2]
    return compute_hydrostatics(m, np.array([.1, .2, .3]), 1025., 9.81, z_corr=float(-.45 * z.min() - .55 * z.max()), **kw)


ROOTS = ['wedge', 'tetra', 'spoiled', 'box']
MANY = list(D.MOPS)
SOME = ['translate', 'translate_x', 'translate_y', 'translate_z', 'rotate', 'scalex', 'flip_normals', 'mirror', 'symmetrize', 'merge_coarse', 'heal_triangles', 'heal_normals',
        'remove_unused_vertices', 'triangulate_quadrangles', 'set_vertices']


def fill(m):
    with np.errstate(all='ignore'):
        D.report(m)


def cases(tier):
    out = []
    for r in ROOTS:
        for filled in (0, 1):
            for d in DERIVE:
                out.append(dict(kind='mm', mesh=r, filled=filled, derive=d, full=int(tier != 'quick')))
                out.append(dict(kind='dm', mesh=r, filled=filled, derive=d, full=int(tier != 'quick')))
            out.append(dict(kind='arrays', mesh=r, filled=filled))
            out.append(dict(kind='clippers', mesh=r, filled=filled))
    for h in ('wedge', 'box', 'hull', 'lprism'):
        out.append(dict(kind='hydrostatics', hull=h))
    for k in ('planes', 'inertias', 'defaults', 'files'):
        out.append(dict(kind=k))
    return out


def evaluate(case, rec):
    with quiet():
        globals()['evaluate_' + case['kind']](case, rec)


class World(object):
    """meshes alive and what they are expected to be"""

    def __init__(self, rec, what):
        self.m, self.s, self.rec, self.what = [], [], rec, what

    def fork(self):
        """same world in other objects: aliasing between the objects is kept"""
        w = World(self.rec, self.what)
        w.m = copy.deepcopy(self.m)
        w.s = list(self.s)
        return w

    def add(self, m):
        self.m.append(m)
        self.s.append(snap(m))

    def check(self, but=(), step=''):
        for k in range(len(self.m)):
            if k in but:
                self.s[k] = snap(self.m[k])
                continue
            now = snap(self.m[k])
            why = changed(self.s[k], now)
            if why:
                raise Violation('%s, %s: mesh %d is changed: %s' % (self.what, step, k, why))
        self.rec.count('transitions')
        self.rec.count('traces')

    def derive(self, name, k):
        step = '%s of mesh %d' % (name, k)
        r = D.attempt(lambda: DERIVE[name](self.m[k]))
        self.what = self.what + ', ' + step
        self.check((), step)
        if isinstance(r, D.Raised):
            return False
        require(all(r is not m for m in self.m), lambda: self.what + ': the same object')
        if name in EQUAL:
            why = changed(snap(self.m[k]), snap(r))
            require(not why, lambda: '%s: not equal to its source: %s' % (self.what, why))
        self.add(r)
        self.rec.count('states')
        return True

    def modify(self, name, k):
        step = '%s of mesh %d' % (name, k)
        r = D.attempt(lambda: D.MOPS[name](self.m[k]))
        self.check((k,), step)
        self.what += ', ' + step
        self.rec.count('states')
        self.rec.outcome('raised' if isinstance(r, D.Raised) else 'modified')


def start(case, rec):
    m = geom.mesh(D.roots()[case['mesh']])
    if case['filled']:
        fill(m)
    w = World(rec, '%s%s' % (case['mesh'], ' (caches filled)' if case['filled'] else ''))
    w.add(m)
    return w


def evaluate_mm(case, rec):
    """derivation, modification, modification"""
    w = start(case, rec)
    if not w.derive(case['derive'], 0):
        rec.outcome('no such derivation')
        return
    rec.hit()
    if case['filled']:
        fill(w.m[1])
    for a in MANY:
        for k in (0, 1):
            w1 = w.fork()
            w1.modify(a, k)
            for b in (MANY if case['full'] else SOME if a in SOME[:6] and case['derive'] in FEW else []):
                for j in (0, 1):
                    w2 = w1.fork()
                    w2.modify(b, j)


def evaluate_dm(case, rec):
    """derivation, derivation, modification"""
    w = start(case, rec)
    if not w.derive(case['derive'], 0):
        rec.outcome('no such derivation')
        return
    rec.hit()
    for d in DERIVE if case['full'] else FEW:
        for k in (0, 1):
            w1 = w.fork()
            if not w1.derive(d, k):
                continue
            if case['filled']:
                fill(w1.m[2])
            for a in (MANY if case['full'] else SOME[case['filled'] ^ 1::2 - case['filled']]):
                for j in (0, 1, 2):
                    w2 = w1.fork()
                    w2.modify(a, j)


def evaluate_arrays(case, rec):
    """arrays given to constructors, setters and methods"""
    V0, F0 = geom.arrays(D.roots()[case['mesh']])
    forms = {'arrays': (lambda: (V0.copy(), F0.copy())), 'fortran': (lambda: (np.asfortranarray(V0), np.asfortranarray(F0))),
             'lists': (lambda: (V0.tolist(), F0.tolist())), 'int32': (lambda: (V0.copy(), F0.astype(np.int32))),
             'views': (lambda: (np.concatenate([V0, V0])[:len(V0)], np.concatenate([F0, F0])[:len(F0)]))}
    for name, make in forms.items():
        for setter in (0, 1):
            for op, f in D.MOPS.items():
                V, F = make()
                if setter:
                    m = fresh(np.zeros((3, 3)), np.array([[0, 1, 2, 0]]))
                    m.vertices = V
                    m.faces = F
                else:
                    m = fresh(V, F)
                if case['filled']:
                    fill(m)
                D.attempt(lambda: f(m))
                what = '%s, %s given as %s%s' % (case['mesh'], op, name, ' to the setters' if setter else '')
                require(np.array_equal(np.array(V), V0) and np.array_equal(np.array(F), F0), lambda: what + ': the arrays given are modified')
                rec.count('transitions')
                rec.count('traces')
            if name != 'lists':
                V, F = make()
                if setter:
                    m = fresh(np.zeros((3, 3)), np.array([[0, 1, 2, 0]]))
                    m.vertices = V
                    m.faces = F
                else:
                    m = fresh(V, F)
                if case['filled']:
                    fill(m)
                s = snap(m)
                V += 5.
                F[:] = F[::-1]
                why = changed(s, snap(m))
                require(not why, lambda: '%s given as %s, then modified: the mesh is changed: %s' % (case['mesh'], name, why))
                rec.count('states')
    # arguments of methods
    m = fresh(V0, F0)
    if case['filled']:
        fill(m)
    args = [('translate', np.array([1., 2., 3.])), ('rotate', np.array([.1, .2, .3])), ('rotate_matrix', D.ROTMAT.copy()), ('extract_faces', np.arange(len(F0))[::-1].copy()),
            ('translate', [1., 2., 3.]), ('rotate', [.1, .2, .3])]
    for name, a in args:
        a0 = copy.deepcopy(a)
        r = getattr(m, name)(a)
        what = '%s: argument of %s' % (case['mesh'], name)
        require(np.array_equal(np.array(a), np.array(a0)), lambda: what + ' is modified')
        D.attempt(lambda: D.MOPS['rotate'](m))
        D.attempt(lambda: D.MOPS['translate'](m))
        require(np.array_equal(np.array(a), np.array(a0)), lambda: what + ' is modified later')
        s = snap(m)
        if isinstance(a, np.ndarray):
            a += 1
        if isinstance(r, np.ndarray):
            r += 1.
        why = changed(s, snap(m))
        require(not why, lambda: '%s modified later: the mesh is changed: %s' % (what, why))
        rec.count('transitions')
        rec.count('traces')
    # results of computations held while the mesh is modified
    for op, f in D.MOPS.items():
        m = fresh(V0, F0)
        if case['filled']:
            fill(m)
        held = {'plain inertia': D.attempt(lambda: m.eval_plain_mesh_inertias()), 'shell inertia': D.attempt(lambda: m.eval_shell_mesh_inertias())}
        before = {k: inertia(v) for k, v in held.items()}
        D.attempt(lambda: f(m))
        for k in held:
            require(same(before[k], inertia(held[k])), lambda: '%s, %s: %s computed before is changed' % (case['mesh'], op, k))
        s = snap(m)
        for k, i in held.items():
            if isinstance(i, D.Raised):
                continue
            i.set_cog([5., 6., 7.])
            i.reduction_point = [1., 2., 3.]
            i.shift_at_cog()
        why = changed(s, snap(m))
        require(not why, lambda: '%s: inertias transported: the mesh is changed: %s' % (case['mesh'], why))
        rec.count('transitions')
        rec.count('traces')
    rec.hit()
    rec.outcome('arrays')


def inertia(i):
    return i if isinstance(i, D.Raised) else D._inertia(i)


def same(a, b):
    if isinstance(a, D.Raised) or isinstance(b, D.Raised):
        return a == b
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def results(c):
    """results of a clipper, by value and by reference"""
    meshes = [c.lower_mesh, c.crown_mesh, c.upper_mesh, c.clipped_crown_mesh, c.clipped_mesh]
    lists = [c.closed_polygons_vertices, c.open_lines_vertices, c.closed_polygons, c.open_lines]
    return meshes, lists


def flat(lists):
    return [[np.array(x) for x in l] for l in lists]


def evaluate_clippers(case, rec):
    from meshmagick.mesh import Plane
    shape = D.roots()[case['mesh']]
    names = ['lower', 'crown', 'upper', 'clipped crown', 'clipped']

    def make():
        m = geom.mesh(shape)
        if case['filled']:
            fill(m)
        return m, clipper(m)

    # meshes of a clipper, its source, another clipper of the same source
    for op, f in D.MOPS.items():
        for target in range(6):
            m, c = make()
            c2 = clipper(m)
            meshes, lists = results(c)
            meshes2, lists2 = results(c2)
            all_ = meshes + [m] + meshes2
            if case['filled']:
                for x in all_:
                    fill(x)
            before = [snap(x) for x in all_]
            v = flat(lists), flat(lists2)
            D.attempt(lambda: f(all_[target]))
            what = '%s: %s applied to %s' % (case['mesh'], op, names[target] if target < 5 else 'the source')
            for k, x in enumerate(all_):
                if k != target:
                    why = changed(before[k], snap(x))
                    nm = names[k] if k < 5 else 'the source' if k == 5 else names[k - 6] + ' of another clipper'
                    require(not why, lambda: '%s: %s is changed: %s' % (what, nm, why))
            require(str(flat(lists)) == str(v[0]) and str(flat(lists2)) == str(v[1]), lambda: what + ': polygons are changed')
            rec.count('transitions')
            rec.count('traces')
    # results held while the clipper is used again
    for change in ('plane', 'tolerance', 'flip', 'move plane'):
        m, c = make()
        meshes, lists = results(c)
        if case['filled']:
            for x in meshes:
                fill(x)
        s, sm, v = [snap(x) for x in meshes], snap(m), flat(lists)
        p = c.plane
        z = np.asarray(m.vertices)[:, 2]
        if change == 'plane':
            q = Plane(normal=[0., 0., -1.], scalar=float(-.3 * z.min() - .7 * z.max()))
            old = p.c, np.array(p.normal)
            D.attempt(lambda: setattr(c, 'plane', q))
            require(p.c == old[0] and np.array_equal(p.normal, old[1]), 'the previous plane is modified')
        elif change == 'tolerance':
            D.attempt(lambda: setattr(c, 'vicinity_tol', .1))
        elif change == 'flip':
            p.flip_normal()
            D.attempt(lambda: setattr(c, 'plane', p))
        else:
            p.c = float(.8 * z.min() + .2 * z.max())
            D.attempt(lambda: setattr(c, 'plane', p))
        for k, x in enumerate(meshes):
            why = changed(s[k], snap(x))
            require(not why, lambda: '%s: %s of the clipper changed: %s got before is changed: %s' % (case['mesh'], change, names[k], why))
        require(not changed(sm, snap(m)), lambda: '%s: %s of the clipper changed: the source is changed' % (case['mesh'], change))
        require(str(flat(lists)) == str(v), lambda: '%s: %s of the clipper changed: polygons got before are changed' % (case['mesh'], change))
        rec.count('transitions')
        rec.count('traces')
    rec.count('states', 40)
    rec.hit()
    rec.outcome('clippers')


def evaluate_planes(case, rec):
    from meshmagick.mesh import Plane

    def state(p):
        return np.array(p.normal).tolist(), float(p.c), np.array(p.coord_in_plane(np.array([[1., 2., 3.], [-4., 5., .5]]))).tolist()

    moves = {'flip': lambda p: p.flip_normal(), 'normal': lambda p: setattr(p, 'normal', [1., 1., 0.]), 'c': lambda p: setattr(p, 'c', 7.),
             'rotate': lambda p: p.rotate_normal(.3, -.2), 'angles': lambda p: p.set_normal_from_angles(.3, -.2), 'parameters': lambda p: p.set_plane_parameters(3., .1, .2)}
    ways = {'copy': lambda p: copy.deepcopy(p), 'constructor': lambda p: Plane(p.normal, p.c), 'default': lambda p: Plane(),
            'setter': lambda p: _set_normal(p)}
    for n in ([0., 0., 1.], [0., 0., 2.], [1., -2., 2.], [0., -1., 0.]):
        for wn, w in ways.items():
            for a, f in moves.items():
                for b, g in moves.items():
                    src = np.array(n)
                    p = Plane(src, 1.5)
                    q = w(p)
                    for k, (h, nm) in enumerate(((f, a), (g, b))):
                        for tgt, oth in ((p, q), (q, p)):
                            s = state(oth)
                            h(tgt)
                            require(state(oth) == s, lambda: 'plane %s obtained by %s: %s of one changes the other' % (n, wn, nm))
                            require(np.array_equal(src, n), lambda: 'array given to a plane is modified by %s' % nm)
                            rec.count('transitions')
                            rec.count('traces')
                    s = state(p)
                    src += 3.
                    require(state(p) == s, 'plane changed through the array given')
                    require(state(Plane()) == ([0., 0., 1.], 0., state(Plane())[2]), lambda: 'the default plane is %s after %s' % (Plane(), a))
                    rec.count('states')
    # points given
    P0 = np.array([[1., 2., 3.], [-4., 5., .5]])
    for n in ([0., 0., 1.], [1., -2., 2.]):
        p = Plane(n, .5)
        s = state(p)
        P = P0.copy()
        outs = [p.get_point_dist_wrt_plane(P), p.coord_in_plane(P), p.orthogonal_projection_on_plane(P), p.get_origin(),
                p.get_edge_intersection(*(np.array(x) for x in (np.array(n) * 9, -np.array(n) * 9)))]
        require(np.array_equal(P, P0), 'points given to a plane are modified')
        for o in outs:
            o += 1.
        require(np.array_equal(P, P0) and state(p) == s, 'plane or points changed through the results')
    # mirror, symmetrize and clip do not keep or change the plane
    m = geom.mesh(geom.box())
    p = Plane([1., 2., -2.], .5)
    s = state(p)
    m.mirror(p)
    m.symmetrize(p)
    sm = snap(m)
    require(state(p) == s, 'a plane is modified by mirror or symmetrize')
    for f in moves.values():
        f(p)
        require(not changed(sm, snap(m)), 'a mesh follows the plane it was symmetrized with')
    rec.hit()
    rec.outcome('planes')


def _set_normal(p):
    from meshmagick.mesh import Plane
    q = Plane()
    q.normal = p.normal
    q.c = p.c
    return q


def evaluate_inertias(case, rec):
    from meshmagick.inertia import RigidBodyInertia
    moves = {'point': lambda i: setattr(i, 'reduction_point', [3., -1., 2.]), 'shift': lambda i: i.shift_at_cog(), 'set cog': lambda i: i.set_cog([-7., 8., 9.])}
    ways = {'at_cog': lambda i: i.at_cog, 'copy': lambda i: copy.deepcopy(i), 'constructor': lambda i: RigidBodyInertia(i.mass, i.gravity_center, i.xx, i.yy, i.zz, i.yz, i.xz, i.xy,
                                                                                                                       i.reduction_point),
            'point': lambda i: _with_point(i), 'cog': lambda i: _with_cog(i), 'given': None}
    for at in (None, [1., 1., 1.]):
        for wn, w in ways.items():
            for seq in itertools.product(moves, repeat=2):
                for who in itertools.product((0, 1), repeat=2):
                    cog = np.array([.5, -.25, 2.])
                    point = None if at is None else np.array(at)
                    i = RigidBodyInertia(10., cog, 3., 4., 5., .1, .2, .3, point=point)
                    j = w(i) if w else None
                    two = [i, j]
                    for nm, k in zip(seq, who):
                        if two[k] is None:
                            continue
                        o = two[1 - k]
                        s = None if o is None else inertia(o)
                        moves[nm](two[k])
                        if o is not None:
                            require(same(s, inertia(o)), lambda: 'inertia got by %s: %s of one changes the other' % (wn, nm))
                        require(np.array_equal(cog, [.5, -.25, 2.]) and (at is None or np.array_equal(point, at)),
                                lambda: 'arrays given to an inertia are modified by %s' % nm)
                        rec.count('transitions')
                        rec.count('traces')
                    s = inertia(i)
                    cog += 1.
                    if point is not None:
                        point += 1.
                    require(same(s, inertia(i)), 'inertia changed through the arrays given')
                    p = np.array([9., 9., 9.])
                    i.reduction_point = p
                    c = np.array([1., 2., 4.])
                    i.set_cog(c)
                    s = inertia(i)
                    p += 1.
                    c += 1.
                    require(same(s, inertia(i)), 'inertia changed through the arrays given to its setters')
                    rec.count('states')
    rec.hit()
    rec.outcome('inertias')


def _with_point(i):
    from meshmagick.inertia import RigidBodyInertia
    j = RigidBodyInertia(2., [0, 0, 0], 1., 1., 1., 0., 0., 0.)
    j.reduction_point = i.reduction_point
    return j


def _with_cog(i):
    from meshmagick.inertia import RigidBodyInertia
    j = RigidBodyInertia(2., [0, 0, 0], 1., 1., 1., 0., 0., 0.)
    j.set_cog(i.gravity_center)
    return j


def value(d):
    """deep value of a hydrostatic result"""
    out = {}
    for k, v in sorted(d.items()):
        if hasattr(v, 'vertices'):
            out[k] = (np.array(v.vertices).tolist(), np.array(v.faces).tolist())
        elif isinstance(v, (np.ndarray, list, tuple)):
            out[k] = np.array(v).tolist()
        else:
            out[k] = v
    return out


def evaluate_hydrostatics(case, rec):
    from meshmagick import hydrostatics as hs
    shape = geom.scaled(geom.catalogue()[case['hull']], (4, 4, 4))
    R0 = np.array([[float(x) for x in r] for r in hydro.rotations()['heel-trim']])

    def call(m, cog, R, at):
        z = np.asarray(m.vertices)[:, 2]
        kw = {} if R is None else dict(rotmat_corr=R)
        return hs.compute_hydrostatics(m, cog, 1025., 9.81, z_corr=float(-.45 * z.min() - .55 * z.max()), at_cog=at, **kw)

    def spoil(d):
        for v in d.values():
            if isinstance(v, np.ndarray):
                v += 1.
            elif hasattr(v, 'translate'):
                v.rotate([.1, .2, .3])
                v.translate([1., 2., 3.])
                v.flip_normals()

    for rot, at in itertools.product((0, 1), (False, True)):
        m = geom.mesh(shape)
        cog = np.array([.1, .2, .3])
        R = R0.copy() if rot else None
        ref = value(call(m, cog, R, at))
        what = '%s, rotation %d, at cog %s' % (case['hull'], rot, at)
        for op in D.MOPS:
            r1 = call(m, cog, R, at)
            require(value(r1) == ref, lambda: what + ': figures computed again differ')
            m2 = m.copy()
            r2 = call(m2, cog, R, at)
            v2 = value(r2)
            D.attempt(lambda: D.MOPS[op](m2))
            require(value(r2) == v2, lambda: '%s: %s of the hull changes the result computed before' % (what, op))
            s = snap(m2)
            D.attempt(lambda: D.MOPS[op](r2['mesh']))
            require(not changed(s, snap(m2)), lambda: '%s: %s of the mesh of the result changes the hull' % (what, op))
            rec.count('transitions')
            rec.count('traces')
        r1, r2 = call(m, cog, R, at), call(m, cog, R, at)
        s = snap(m)
        v2 = value(r2)
        spoil(r1)
        require(value(r2) == v2 and not changed(s, snap(m)) and np.array_equal(cog, [.1, .2, .3]) and (R is None or np.array_equal(R, R0)),
                lambda: what + ': modifying a result changes another result or an argument')
        require(value(call(m, cog, R, at)) == ref, lambda: what + ': figures depend on a result modified before')
        v2 = value(r2)
        cog += 5.
        if R is not None:
            R[:] = 0.
        require(value(r2) == v2, lambda: what + ': a result follows the arguments')
        rec.count('states')
        # printing a report
        d = value(r2)
        hs.get_hydrostatic_report(r2)
        require(value(r2) == d, lambda: what + ': a report changes the result')
    # equilibria
    m = geom.mesh(shape)
    z = np.asarray(m.vertices)[:, 2]
    m.translate_z(float(-.45 * z.min() - .55 * z.max()))
    tons = float(m.volume) * .5 * 1.025
    cog = np.array([0., 0., 0.])
    z1 = hs.displacement_equilibrium(m, tons, 1025., 9.81)
    e1 = hs.full_equilibrium(m, _low(m, tons), tons, 1025., 9.81)
    R1 = np.array(e1[1])
    e1[1][:] = 5.
    z2 = hs.displacement_equilibrium(m, tons, 1025., 9.81)
    e2 = hs.full_equilibrium(m, _low(m, tons), tons, 1025., 9.81)
    require(z1 == z2 and e1[0] == e2[0] and np.array_equal(R1, e2[1]), lambda: case['hull'] + ': equilibria depend on a result modified before')
    rec.hit()
    rec.outcome('hydrostatics')


def _low(m, tons):
    from meshmagick import hydrostatics as hs
    z = hs.displacement_equilibrium(m, tons, 1025., 9.81)
    b = np.array(hs.compute_hydrostatics(m, np.zeros(3), 1025., 9.81, z_corr=z)['buoyancy_center'])
    b[2] -= .5
    return b


def evaluate_defaults(case, rec):
    """default arguments are never those of an object built before"""
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    from meshmagick import hydrostatics as hs, densities, mmio
    from meshmagick.inertia import RigidBodyInertia
    shape = geom.box(-1, 1, -1, 1, -1, 1)
    for change in (lambda p: p.flip_normal(), lambda p: setattr(p, 'c', .5), lambda p: setattr(p, 'normal', [1., 0., 0.]), lambda p: p.rotate_normal(.2, .3),
                   lambda p: p.set_plane_parameters(.2, .1, .1)):
        c = MeshClipper(geom.mesh(shape))
        ref = snap(MeshClipper(geom.mesh(shape)).clipped_mesh)
        change(c.plane)
        c.plane = c.plane
        c2 = MeshClipper(geom.mesh(shape))
        require(np.array_equal(c2.plane.normal, [0., 0., 1.]) and c2.plane.c == 0., 'the default plane of clippers is the one of a previous clipper')
        require(not changed(ref, snap(c2.clipped_mesh)), 'default clipping depends on a previous clipper')
        p = Plane()
        change(p)
        require(np.array_equal(Plane().normal, [0., 0., 1.]) and Plane().c == 0., 'the default plane follows a previous one')
        rec.count('transitions')
        rec.count('traces')
    m = geom.mesh(shape)
    n = np.array(Plane().normal)
    q = Plane()
    q.normal[:] = 7.
    require(np.array_equal(Plane().normal, n), 'the default normal is shared')
    for f in (lambda: hs.displacement_equilibrium(m, 4., 1025., 9.81), lambda: hs.compute_hydrostatics(m, np.zeros(3), 1025., 9.81)['rotmat_eq']):
        a = f()
        if isinstance(a, np.ndarray):
            b = a.copy()
            a += 3.
            require(np.array_equal(b, f()), 'default rotation is shared')
        else:
            require(a == f(), 'default arguments are shared')
    l = densities.list_medium()
    l0 = list(l)
    if isinstance(l, list):
        del l[:]
    require(list(densities.list_medium()) == l0, 'the list of media is shared')
    rec.count('states')
    rec.hit()
    rec.outcome('defaults')


def evaluate_files(case, rec):
    """meshes loaded twice, arrays written"""
    from mc import io
    V0, F0 = geom.arrays(D.roots()['patch'])
    for fmt in io.RW:
        name = io.path_of('a.' + fmt, fmt)
        V, F = V0.copy(), F0.copy()
        io.write(name, V, F, fmt)
        require(np.array_equal(V, V0) and np.array_equal(F, F0), lambda: 'arrays written to %s are modified' % fmt)
        V1, F1 = io.load(name, fmt)
        a, b = V1.copy(), F1.copy()
        V2, F2 = io.load(name, fmt)
        V1 = np.array(V1) if not V1.flags.writeable else V1
        V1 += 1.
        F1 = np.array(F1) if not F1.flags.writeable else F1
        F1[:] = 0
        require(np.array_equal(V2, a) and np.array_equal(F2, b), lambda: 'two loads of a %s file share their arrays' % fmt)
        V3, F3 = io.load(name, fmt)
        require(np.array_equal(V3, a) and np.array_equal(F3, b), lambda: 'loading %s depends on arrays loaded before' % fmt)
        m = fresh(V3, F3)
        m.translate([1., 1., 1.])
        m.flip_normals()
        m.quick_save('q.vtp') if hasattr(m, 'quick_save') else None
        require(np.array_equal(V3, a) and np.array_equal(F3, b), lambda: 'arrays loaded from %s follow the mesh' % fmt)
        os.remove(name)
        rec.count('transitions')
        rec.count('traces')
        rec.count('states')
    rec.hit()
    rec.outcome('files')
