"""C02: sequences of transforms move the vertices exactly by the composition of the documented maps."""
import math

import numpy as np

from mc import derived as D, geom
from mc.core import Violation, require

LEVEL = 'model_checking'
RULE = ('a case is (mesh, first transform); breadth first search over all sequences of transforms and queries up to the depth; '
        'the model is an affine map and a parity, composed independently; after every transition vertices, faces, normals, '
        'volume and the value returned are compared with the model; or (mesh, scale, operation): the operation is applied with every argument '
        'of a family (magnitudes 1e-9 to 1e6, angles up to 100 rad, planes); non trivial: more than one state is reached')
ASSUMPTIONS = ['arguments of transforms are fixed representatives (special and generic angles, planes, factors)']
CHUNK = 1


def rx(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])


def lin(A):
    return np.asarray(A, float), np.zeros(3), 1


def tr(x, y, z):
    return np.eye(3), np.array([x, y, z], float), 1


def refl(n, c):
    n = np.asarray(n, float)
    n = n / np.sqrt((n * n).sum())
    return np.eye(3) - 2 * np.outer(n, n), 2 * c * n, -1


def plane(n, c):
    from meshmagick.mesh import Plane
    return Plane(normal=n, scalar=c)


PI = math.pi
# name -> (call, (A, b, parity), returns a rotation matrix)
OPS = {
    'translate': (lambda m: m.translate([1., -2., 0.5]), tr(1, -2, 0.5), 0),
    'translate int tuple': (lambda m: m.translate((2, 0, -3)), tr(2, 0, -3), 0),
    'translate array': (lambda m: m.translate(np.array([-0.5, 0.25, 4.])), tr(-0.5, 0.25, 4), 0),
    'translate_x': (lambda m: m.translate_x(1.25), tr(1.25, 0, 0), 0),
    'translate_y': (lambda m: m.translate_y(-3), tr(0, -3, 0), 0),
    'translate_z': (lambda m: m.translate_z(2.5), tr(0, 0, 2.5), 0),
    'rotate': (lambda m: m.rotate([0.3, -0.4, 0.7]), lin(rz(0.7) @ ry(-0.4) @ rx(0.3)), 1),
    'rotate big': (lambda m: m.rotate((-2.5, 4., 3.)), lin(rz(3.) @ ry(4.) @ rx(-2.5)), 1),
    'rotate quarter turns': (lambda m: m.rotate(np.array([PI / 2, PI / 2, -PI / 2])),
                             lin(rz(-PI / 2) @ ry(PI / 2) @ rx(PI / 2)), 1),
    'rotate null': (lambda m: m.rotate([0, 0, 0]), lin(np.eye(3)), 1),
    'rotate_x': (lambda m: m.rotate_x(0.9), lin(rx(0.9)), 1),
    'rotate_y': (lambda m: m.rotate_y(-1.1), lin(ry(-1.1)), 1),
    'rotate_z': (lambda m: m.rotate_z(PI / 2), lin(rz(PI / 2)), 1),
    'rotate_x half turn': (lambda m: m.rotate_x(PI), lin(rx(PI)), 1),
    'rotate_matrix': (lambda m: m.rotate_matrix(D.ROTMAT.copy()), lin(D.ROTMAT), 0),
    'scale': (lambda m: m.scale(2), lin(2 * np.eye(3)), 0),
    'scale small': (lambda m: m.scale(0.3), lin(0.3 * np.eye(3)), 0),
    'scalex': (lambda m: m.scalex(0.5), lin(np.diag([0.5, 1, 1])), 0),
    'scaley': (lambda m: m.scaley(3), lin(np.diag([1, 3., 1])), 0),
    'scalez': (lambda m: m.scalez(1.5), lin(np.diag([1, 1, 1.5])), 0),
    'mirror oblique': (lambda m: m.mirror(plane((1., 2., -2.), 0.5)), refl((1, 2, -2), 0.5), 0),
    'mirror Oxz': (lambda m: m.mirror(plane((0, -1, 0), 0.)), refl((0, -1, 0), 0.), 0),
    'mirror shifted': (lambda m: m.mirror(plane((0, 0, 2), -1.5)), refl((0, 0, 1), -1.5), 0),
    'flip_normals': (lambda m: m.flip_normals(), (np.eye(3), np.zeros(3), -1), 0),
    'query': (lambda m: (m.faces_normals, m.volume, m.boundaries, None)[-1], tr(0, 0, 0), 0),
}


def meshes():
    return {
        'wedge': geom.wedge(),
        'hull': geom.hull(),
        'patch': D.roots()['patch'],
        'sheared': geom.rolled(geom.affine(geom.box(0, 2, 0, 2, 0, 2), [[1, 0, 1], [0, 1, 2], [0, 0, 1]], (3, -5, 7)), 1),
    }


def cases(tier):
    out = []
    for n in meshes():
        for op in OPS:
            out.append(dict(mesh=n, first=op, depth=3))
        if tier == 'thorough':
            out += [dict(mesh=n, first=op, depth=4) for op in OPS]
    for n in list(meshes()) + ['long']:
        for fam in FAMILIES:
            for e in (0, -4, 5) if n != 'long' else (0,):
                for filled in (0, 1):
                    out.append(dict(family=fam, mesh=n, exp=e, filled=filled))
    return out


NUM = [1e-9, 1.2345678e-6, 1.23456789e-4, 0.01, 0.1, 0.25, 1 / 3., 0.9999999, 1, 1.0000001, 2, 2.54, 3, 10, 123.456789, 1000, 98765.4321, 1e6]
ANG = [0, 1e-9, 1e-6, 1e-3, 0.0174532925, 0.1, 0.5, PI / 6, PI / 4, 1., PI / 3, PI / 2 - 1e-7, PI / 2, PI / 2 + 1e-7, 2., 3., PI, 4., 3 * PI / 2, 6., 2 * PI, 7., 100.]
SIGNED = [0] + NUM + [-x for x in NUM]


def _planes():
    out = []
    for n in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 0, -1), (0, 2, 3), (1, 1, 1), (-3, 2, 6), (1e-3, 0, 1), (1e-9, 1, 0), (1e5, 2e5, 0)):
        for c in (0, 1e-6, 0.5, -2, 10, -123.456, 1e4):
            out.append((lambda m, n=n, c=c: m.mirror(plane(n, c)), refl(n, c), 0))
    return out


def _vec(x, k):
    return [x if i == k else 0. for i in range(3)]


FAMILIES = {
    'translate': lambda: [(lambda m, t=t: m.translate(t), tr(*t), 0) for t in [_vec(x, k) for x in SIGNED for k in range(3)] + [(a, b, c) for a in SIGNED[::5] for b in SIGNED[::5] for c in SIGNED[1::5]]],
    'translate_x': lambda: [(lambda m, x=x: m.translate_x(x), tr(x, 0, 0), 0) for x in SIGNED],
    'translate_y': lambda: [(lambda m, x=x: m.translate_y(x), tr(0, x, 0), 0) for x in SIGNED],
    'translate_z': lambda: [(lambda m, x=x: m.translate_z(x), tr(0, 0, x), 0) for x in SIGNED],
    'scale': lambda: [(lambda m, x=x: m.scale(x), lin(x * np.eye(3)), 0) for x in NUM],
    'scalex': lambda: [(lambda m, x=x: m.scalex(x), lin(np.diag([x, 1., 1.])), 0) for x in NUM],
    'scaley': lambda: [(lambda m, x=x: m.scaley(x), lin(np.diag([1., x, 1.])), 0) for x in NUM],
    'scalez': lambda: [(lambda m, x=x: m.scalez(x), lin(np.diag([1., 1., x])), 0) for x in NUM],
    'rotate_x': lambda: [(lambda m, x=s * x: m.rotate_x(x), lin(rx(s * x)), 1) for x in ANG for s in (1, -1)],
    'rotate_y': lambda: [(lambda m, x=s * x: m.rotate_y(x), lin(ry(s * x)), 1) for x in ANG for s in (1, -1)],
    'rotate_z': lambda: [(lambda m, x=s * x: m.rotate_z(x), lin(rz(s * x)), 1) for x in ANG for s in (1, -1)],
    'rotate': lambda: [(lambda m, t=(a, b, c): m.rotate(t), lin(rz(c) @ ry(b) @ rx(a)), 1) for a in ANG[::3] + [-1.] for b in ANG[::2] + [-PI / 2] for c in ANG[1::3] + [-2.5]],
    'rotate_matrix': lambda: [(lambda m, r=r: m.rotate_matrix(r.copy()), lin(r), 0) for r in [rz(c) @ ry(b) @ rx(a) for a in ANG[::4] for b in ANG[::4] for c in ANG[::4]]],
    'mirror': _planes,
}


def evaluate_family(case, rec):
    """one operation, with every argument of a family"""
    s = geom.tube(70, 3) if case['mesh'] == 'long' else meshes()[case['mesh']]
    k = 10. ** case['exp']
    V0, F0 = geom.arrays(s)
    V0 = V0 * k
    want = [cycle(f) for f in F0]
    back = [cycle(f[::-1]) for f in F0]
    from meshmagick.mesh import Mesh
    todo = FAMILIES[case['family']]()
    if case['mesh'] == 'long':
        todo = todo[::5]
    for j, (call, (A, b, par), rot) in enumerate(todo):
        m = Mesh(V0, F0)
        if case['filled']:
            m.faces_normals, m.volume, m.boundaries
        ret = call(m)
        what = '%s scaled by %g, %s number %d (%s, %s)' % (case['mesh'], k, case['family'], j, A.tolist(), b.tolist())
        if rot:
            require(np.shape(ret) == (3, 3) and np.abs(ret - A).max() <= 1e-12, lambda: what + ': matrix returned %s' % (ret,))
        V = V0 @ A.T + b
        # error of each component in proportion of the magnitude of its terms
        tol = 1e-12 * (np.abs(V0) @ np.abs(A).T + np.abs(b) + (np.abs(V0).max() + np.abs(b).max() if rot or case['family'] in ('mirror', 'rotate_matrix') else 0.))
        require(m.vertices.shape == V.shape and np.all(np.abs(m.vertices - V) <= tol), lambda: what + ': vertices differ by %g' % np.abs(m.vertices - V).max())
        require([cycle(f) for f in m.faces] == (want if par > 0 else back), lambda: what + ': faces %s' % m.faces.tolist())
        rec.count('transitions')
        rec.count('traces')
    rec.count('states', len(todo))
    rec.hit()
    rec.outcome(case['family'])


def cycle(f):
    p = list(f[:3]) if f[0] == f[3] else list(f)
    k = p.index(min(p))
    return tuple(p[k:] + p[:k])


class Model(object):
    def __init__(self, A, b, par, det):
        self.A, self.b, self.par = A, b, par
        self.det = det          # +1 when the map keeps the handedness

    def then(self, op):
        A, b, p = op
        return Model(A @ self.A, A @ self.b + b, self.par * p, self.det * (-1 if np.linalg.det(A) < 0 else 1))

    def key(self):
        return tuple(np.round(np.concatenate([self.A.ravel(), self.b]), 7) + 0.), self.par


def check(m, V0, F0, closed, model, hist):
    h = ' -> '.join(hist)
    V = V0 @ model.A.T + model.b
    require(m.vertices.shape == V.shape and geom.close(m.vertices, V, 1e-9, 1e-8),
            lambda: 'vertices after %s differ by %g from the composed map' % (
                h, np.abs(np.asarray(m.vertices) - V).max() if m.vertices.shape == V.shape else -1))
    want = [cycle(f) if model.par > 0 else cycle(tuple(f[::-1])) for f in F0]
    require([cycle(f) for f in m.faces] == want, lambda: 'faces after %s: %s' % (h, m.faces.tolist()))
    # normals, from the model only
    p = np.array([geom.area_vector([tuple(V[i]) for i in w]) for w in want], float)
    n = p / np.linalg.norm(p, axis=1)[:, None]
    q = D.clone(m)
    require(geom.close(q.faces_normals, n, 1e-7, 1e-7), lambda: 'normals after %s' % h)
    if closed:
        vol = geom.np_solid_moments(V0, F0)[0] * abs(np.linalg.det(model.A)) * model.par * model.det
        require(geom.close(q.volume, vol, 1e-8, 1e-8), lambda: 'volume after %s: %r, expected %r' % (h, float(q.volume), vol))


def step(m, op, model, hist):
    call, aff, rot = OPS[op]
    n = D.clone(m)
    ret = call(n)
    if rot:
        require(ret is not None and np.shape(ret) == (3, 3) and geom.close(ret, aff[0], 1e-10, 1e-10),
                lambda: 'matrix returned by %s after %s: %s' % (op, ' -> '.join(hist), ret))
    return n, model.then(aff)


def evaluate(case, rec):
    if 'family' in case:
        return evaluate_family(case, rec)
    s = meshes()[case['mesh']]
    V0, F0 = geom.arrays(s)
    closed = geom.is_closed(s[1])
    m = geom.mesh(s)
    model = Model(np.eye(3), np.zeros(3), 1, 1)
    frontier = [(m, model, [case['mesh']])]
    seen = {D.state_hash(m)}
    ops = [case['first']]
    n = 0
    for _ in range(case['depth']):
        nxt = []
        for m, mod, h in frontier:
            for op in ops:
                m2, mod2 = step(m, op, mod, h)
                n += 1
                h2 = h + [op]
                check(m2, V0, F0, closed, mod2, h2)
                k = D.state_hash(m2)
                if k not in seen:
                    seen.add(k)
                    nxt.append((m2, mod2, h2))
        frontier = nxt
        ops = list(OPS)
    rec.count('transitions', n)
    rec.count('traces', n)
    rec.count('states', len(seen))
    rec.outcome(case['mesh'])
    if len(seen) > 2:
        rec.hit()
    if frontier:
        rec.samples.append(' -> '.join(frontier[-1][2]))
