"""C10: parallel axis theorem along histories of a rigid body inertia."""
import itertools
import re

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'model_checking'
RULE = ('a case is (body, first operation); every sequence of operations up to the depth is executed on one real object; the model '
        'is (mass, cog, central matrix, current point); compared after every operation; or magnitudes of mass (1e-6 to 1e12) and distances (1e-6 to 1e6); non trivial: several points are reached')
ASSUMPTIONS = ['the matrix given at construction is about the point given, or about cog']
CHUNK = 1

POINTS = {'origin': [0., 0., 0.], 'x': (3., 0., 0.), 'oblique': np.array([1., -2., 0.5]), 'far': [-40, 25, 60], 'cog': None}
OPS = ['to ' + p for p in POINTS] + ['shift', 'copy', 'into copy', 'is_at_cog', 'str']


def central(M, m, g, p):
    d = np.asarray(g, float) - np.asarray(p, float)
    return M - m * (d @ d * np.eye(3) - np.outer(d, d))


def at(C, m, g, p):
    d = np.asarray(g, float) - np.asarray(p, float)
    return C + m * (d @ d * np.eye(3) - np.outer(d, d))


def bodies():
    from meshmagick.inertia import RigidBodyInertia, cube, right_circular_cone
    out = {}
    g = np.array([1., 2., -0.5])
    C = np.array([[10., -1., 2.], [-1., 12., -3.], [2., -3., 9.]])
    out['built at cog'] = (lambda: RigidBodyInertia(4., [1., 2., -0.5], 10., 12., 9., 3., -2., 1.), 4., g, C, g)
    p = np.array([0., -3., 5.])
    M = at(C, 4., g, p)
    out['built at a point'] = (lambda: RigidBodyInertia(4, (1, 2, -0.5), M[0, 0], M[1, 1], M[2, 2], -M[1, 2], -M[0, 2], -M[0, 1],
                                                        point=(0, -3, 5)), 4., g, C, p)
    out['built at cog explicitly'] = (lambda: RigidBodyInertia(4., np.array([1., 2., -0.5]), 10., 12., 9., 3., -2., 1.,
                                                               point=np.array([1., 2., -0.5])), 4., g, C, g)
    out['cube'] = (lambda: cube(3., density=2.), 54., np.zeros(3), np.eye(3) * 81., np.zeros(3))
    s = geom.shift(geom.hull(), (4, -1, 2))
    mass, cog, mat = geom.solid_inertia(geom.polygons(s), 2)
    out['mesh'] = (lambda: geom.mesh(s).eval_plain_mesh_inertias(rho_medium=2.), mass, cog, central(mat, mass, cog, np.zeros(3)), np.zeros(3))
    return out


def cases(tier):
    out = [dict(body=b, first=op, second=op2, depth=4 if tier == 'quick' else 5) for b in bodies() for op in OPS for op2 in OPS]
    for e in range(-6, 13):
        for d in range(-6, 7):
            out.append(dict(mass=e, distance=d))
    return out


def evaluate_sweep(case, rec):
    """masses and distances of every magnitude, points near to the center of gravity"""
    from meshmagick.inertia import RigidBodyInertia
    m, L = 1.7 * 10. ** case['mass'], 10. ** case['distance']
    n = 0
    for g in ((0, 0, 0), (1, 2, -.5), (-30, 1, 400)):
        g = np.array(g, float) * L
        C = m * L * L * np.array([[10., -1., 2.], [-1., 12., -3.], [2., -3., 9.]])
        for p0 in (None, (0, 0, 0), (1, 0, 0), g / L + [1e-4, 0, 0], g / L + [0, -1e-3, 0], g / L + [0, 0, 1e-6], g / L * 1.0001, g / L):
            p = g if p0 is None else np.array(p0, float) * L
            M = at(C, m, g, p)
            kw = {} if p0 is None else dict(point=p.tolist())
            for seq in itertools.product((None, (0, 0, 0), (5, -7, 2), g / L, g / L + [1e-5, 0, 0]), repeat=2):
                i = RigidBodyInertia(m, g.tolist(), M[0, 0], M[1, 1], M[2, 2], -M[1, 2], -M[0, 2], -M[0, 1], **kw)
                hist = ['mass %g, cog %s, point %s' % (m, g.tolist(), p0)]
                q = p
                for t in seq:
                    hist.append('to %s' % (t,))
                    if t is None:
                        i.shift_at_cog()
                        q = g
                    else:
                        q = np.array(t, float) * L
                        i.reduction_point = q
                    compare_sweep(i, m, g, C, q, hist, L)
                c = i.at_cog
                compare_sweep(c, m, g, C, g, hist + ['at_cog'], L)
                compare_sweep(i, m, g, C, q, hist + ['(original)'], L)
                n += 1
                rec.count('transitions', 3)
    rec.count('traces', n)
    rec.count('states', n)
    rec.hit()
    rec.outcome('sweep')


def compare_sweep(i, m, g, C, p, hist, L):
    h = ' -> '.join(hist)
    M = at(C, m, g, p)
    s = 1e-9 * (m * L * L * (10 + (g / L) @ (g / L) + 100))
    require(abs(i.mass - m) <= 1e-12 * m, lambda: h + ': mass')
    require(np.array_equal(np.asarray(i.gravity_center), g), lambda: h + ': cog %s' % i.gravity_center)
    require(np.array_equal(np.asarray(i.reduction_point), p), lambda: h + ': reduction point %s, expected %s' % (i.reduction_point, p))
    require(np.abs(i.inertia_matrix - M).max() <= s, lambda: h + ': matrix\n%s\nexpected\n%s' % (i.inertia_matrix, M))
    require(np.abs(np.array([i.xx, i.yy, i.zz, i.xy, i.xz, i.yz]) - np.array([M[0, 0], M[1, 1], M[2, 2], -M[0, 1], -M[0, 2], -M[1, 2]])).max() <= s,
            lambda: h + ': moments and products')
    require(bool(i.is_at_cog()) == np.array_equal(g, p), lambda: h + ': is_at_cog %s' % i.is_at_cog())
    # printed figures
    nums = [float(x) for x in re.findall(r'[-+]?\d\.\d+E[-+]\d+', str(i))]
    want = np.concatenate([[m], g, p, np.asarray(i.inertia_matrix).ravel()])
    require(len(nums) == len(want) and np.all(np.abs(np.array(nums) - want) <= 1e-6 * np.abs(want) + 1e-300), lambda: h + ': printed\n%s' % i)


def check(i, m, g, C, p, hist):
    h = ' -> '.join(hist)
    M = at(C, m, g, p)
    scale = 1. + np.abs(M).max() + m * 5000.
    require(abs(i.mass - m) <= 1e-10 * m, lambda: h + ': mass %r' % i.mass)
    require(geom.close(i.gravity_center, g, 1e-10, 1e-10), lambda: h + ': center of gravity %s' % i.gravity_center)
    require(geom.close(i.reduction_point, p, 1e-10, 1e-10), lambda: h + ': reduction point %s, expected %s' % (i.reduction_point, p))
    require(np.abs(i.inertia_matrix - M).max() <= 1e-10 * scale, lambda: h + ': matrix\n%s\nexpected\n%s' % (i.inertia_matrix, M))
    require(np.abs(np.array([i.xx, i.yy, i.zz, i.xy, i.xz, i.yz])
                   - np.array([M[0, 0], M[1, 1], M[2, 2], -M[0, 1], -M[0, 2], -M[1, 2]])).max() <= 1e-10 * scale,
            lambda: h + ': moments and products')
    if np.abs(np.asarray(p) - g).max() > 1e-6:
        require(not i.is_at_cog(), lambda: h + ': is_at_cog')


def apply(i, op, p, g, keep):
    """returns the object to go on with and its expected point"""
    if op.startswith('to '):
        q = POINTS[op[3:]]
        if q is None:
            q = np.array(g)
        i.reduction_point = q
        return i, np.array(q, dtype=float)
    if op == 'shift':
        i.shift_at_cog()
        require(bool(i.is_at_cog()), 'is_at_cog after shift_at_cog')
        return i, np.array(g)
    if op in ('copy', 'into copy'):
        c = i.at_cog
        if op == 'copy':
            keep.append((c, np.array(g)))
            return i, p
        keep.append((i, p))
        return c, np.array(g)
    if op == 'is_at_cog':
        i.is_at_cog()
    else:
        str(i)
    return i, p


def evaluate(case, rec):
    if 'mass' in case:
        return evaluate_sweep(case, rec)
    make, m, g, C, p0 = bodies()[case['body']]
    points = set()

    def rec_walk(ops):
        i, p = make(), np.array(p0)
        keep = []
        hist = [case['body']]
        for op in ops:
            hist.append(op)
            i, p = apply(i, op, p, g, keep)
        check(i, m, g, C, p, hist)
        for j, q in keep:
            check(j, m, g, C, q, hist + ['(other object)'])
        rec.count('transitions')
        rec.count('traces')
        points.add(tuple(np.round(p, 6)))
        if len(ops) < case['depth']:
            for op in OPS:
                rec_walk(ops + [op])
    i = make()
    check(i, m, g, C, p0, [case['body']])
    rec_walk([case['first'], case['second']])
    rec.count('states', len(points))
    if len(points) > 1:
        rec.hit()
    rec.outcome(case['body'])
