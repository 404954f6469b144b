"""C16: histories of a plane."""
import math

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'model_checking'
RULE = ('a case is (initial plane, first two updates); every sequence of updates up to the depth is executed on one real plane; the '
        'model is (normal, scalar); after every update all the queries are compared on a grid of points; or a size of tilt from remarkable directions (1e-18 to 1), a scale of scalar and points (1e-9 to 1e9), an angle; non trivial: several '
        'planes are reached')
ASSUMPTIONS = ['in-plane axes of the plane frame are free (isometry with the distance as third coordinate)']
CHUNK = 2


def rodrigues(tx, ty):
    a = math.hypot(tx, ty)
    if a == 0:
        return np.eye(3)
    n = np.array([tx, ty, 0]) / a
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt(v @ v)


def setn(v):
    def f(p):
        p.normal = v
    return f, lambda n, c: (unit(v), c)


def setc(x):
    def f(p):
        p.c = x
    return f, lambda n, c: (n, float(x))


OPS = {
    'normal z': setn((0, 0, 1)),
    'normal -z': setn([0., 0., -2.]),
    'normal x': setn((3, 0, 0)),
    'normal -y': setn(np.array([0., -1., 0.])),
    'normal oblique': setn((1, 2, -2)),
    'normal near z': setn((1e-9, 0, 1)),
    'normal lower': setn(np.array([-3, 1, -4])),
    'c': setc(1.5),
    'c int': setc(-2),
    'c null': setc(0),
    'flip': (lambda p: p.flip_normal(), lambda n, c: (-n, c)),
    'angles 0': (lambda p: p.set_normal_from_angles(0., 0.), lambda n, c: (np.array([0, 0, 1.]), c)),
    'angles': (lambda p: p.set_normal_from_angles(0.4, -0.7), lambda n, c: (rodrigues(0.4, -0.7) @ [0, 0, 1.], c)),
    'angles big': (lambda p: p.set_normal_from_angles(-2., 1.5), lambda n, c: (rodrigues(-2., 1.5) @ [0, 0, 1.], c)),
    'rotate': (lambda p: p.rotate_normal(0.3, 0.2), lambda n, c: (rodrigues(0.3, 0.2) @ n, c)),
    'rotate quarter': (lambda p: p.rotate_normal(math.pi / 2, 0.), lambda n, c: (rodrigues(math.pi / 2, 0) @ n, c)),
    'rotate 0': (lambda p: p.rotate_normal(0., 0.), lambda n, c: (n, c)),
}
INIT = {'default': (None, None), 'x': ((1, 0, 0), 2), 'down': ((0, 0, -1), -1.), 'oblique': ((2, -3, 6), 0.5), 'list': ([0, 4, -3], 7.)}
P = np.array([(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, -3), (1.5, -2.5, 0.25), (10, 20, -30), (-1, -1, -1)], float)


def cases(tier):
    out = [dict(init=i, ops=[a, b], depth=3 if tier == 'quick' else 4) for i in INIT for a in OPS for b in OPS]
    for e in range(-18, 1):
        for b in BASES:
            out.append(dict(tilt=e, base=b))
    for e in range(-9, 10):
        out.append(dict(scale=e))
    for k in range(-40, 41):
        out.append(dict(angle=k))
    return out


BASES = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (1, 2, -2)]


def evaluate_tilt(case, rec):
    """normals within 10^e of a remarkable direction, given in every way"""
    from meshmagick.mesh import Plane
    for m in (1., 3.3, 7.):
        e = m * 10. ** case['tilt']
        for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-.6, .8, 0), (1, -1, 1)):
            v = np.array(case['base'], float) + e * np.array(d, float)
            if np.linalg.norm(v) < 1e-6:
                continue
            for c in (0., -2.5):
                what = 'normal %s, scalar %g' % (v.tolist(), c)
                check(Plane(normal=v, scalar=c), unit(v), c, what)
                p = Plane(scalar=c)
                p.normal = v * 12
                check(p, unit(v), c, 'assigned ' + what)
                p.flip_normal()
                check(p, -unit(v), c, 'flipped ' + what)
                p = Plane(normal=case['base'], scalar=c)
                p.rotate_normal(e * d[0], e * d[1])
                n = rodrigues(e * d[0], e * d[1]) @ unit(case['base'])
                check(p, n, c, 'normal %s rotated by %g, %g' % (case['base'], e * d[0], e * d[1]))
                p.set_normal_from_angles(e * d[0], e * d[1])
                check(p, rodrigues(e * d[0], e * d[1]) @ [0, 0, 1.], c, 'normal set from angles %g, %g' % (e * d[0], e * d[1]))
                rec.count('transitions', 5)
                rec.count('traces')
    rec.count('states', 30)
    rec.hit()
    rec.outcome('tilt')


def evaluate_scale(case, rec):
    """planes at 10^e of the origin, points and edges of every size"""
    from meshmagick.mesh import Plane
    k = 10. ** case['scale']
    for nm in ((0, 0, 1), (0, 0, -1), (1, 0, 0), (1, 2, -2), (-3, 1, -4), (3, 4, 0)):
        for c in (0., 1., -2.7, 1e3, -4e5):
            for origin in (0., 1.):
                n = unit(nm)
                p = Plane(normal=nm, scalar=c * k)
                what = 'normal %s, scalar %g, points of size %g %s' % (nm, c * k, k, 'around the plane' if origin else 'around the origin')
                check(p, n, c * k, what, P * k + origin * c * k * n, k)
                rec.count('transitions')
                rec.count('traces')
    rec.count('states', 60)
    rec.hit()
    rec.outcome('scale')


def evaluate_angle(case, rec):
    from meshmagick.mesh import Plane
    a = case['angle'] * math.pi / 16
    for tx, ty in ((a, 0.), (0., a), (a * .6, a * .8), (a, .4), (-.7, a), (a, math.pi), (a, a / 3)):
        for init in INIT.values():
            p = Plane() if init[0] is None else Plane(normal=init[0], scalar=init[1])
            n = np.array([0, 0, 1.]) if init[0] is None else unit(init[0])
            c = 0. if init[1] is None else float(init[1])
            p.rotate_normal(tx, ty)
            n = rodrigues(tx, ty) @ n
            check(p, n, c, '%s rotated by %g, %g' % (init, tx, ty))
            p.set_normal_from_angles(tx, ty)
            check(p, rodrigues(tx, ty) @ [0, 0, 1.], c, 'normal set from angles %g, %g' % (tx, ty))
            x, y = p.get_normal_orientation_wrt_z()
            require(np.abs(rodrigues(x, y) @ [0, 0, 1.] - p.normal).max() < 1e-9, lambda: 'angles %g, %g: orientation %g, %g' % (tx, ty, x, y))
            p.rotate_normal(tx, ty)
            check(p, rodrigues(tx, ty) @ rodrigues(tx, ty) @ [0, 0, 1.], c, 'set then rotated by %g, %g' % (tx, ty))
            rec.count('transitions', 3)
            rec.count('traces')
    rec.count('states', 21)
    rec.hit()
    rec.outcome('angle')


def check(p, n, c, what, P=P, k=1.):
    """k: size of the edges; the tolerance is relative to the size of the data"""
    L = (np.abs(P).max() + abs(c)) / 30.
    t7, t9 = 1e-7 * max(L, k if k < 1 else 1.), 1e-9
    if k < 1:
        t7 = 1e-7 * L
    require(np.shape(p.normal) == (3,) and abs(np.linalg.norm(p.normal) - 1) < 1e-12, lambda: what + ': normal %s not unit' % p.normal)
    require(np.abs(p.normal - n).max() < 1e-9, lambda: what + ': normal %s, expected %s' % (p.normal, n))
    require(abs(p.c - c) < 1e-9 * (1 + abs(c)), lambda: what + ': scalar %s, expected %s' % (p.c, c))
    d = P @ n - c
    Q = P.copy()
    require(np.abs(p.get_point_dist_wrt_plane(Q) - d).max() < t7, lambda: what + ': distances')
    require(abs(float(p.get_point_dist_wrt_plane(Q[4])) - d[4]) < t7, lambda: what + ': distance of a point')
    for arg in (Q, [tuple(x) for x in Q[:4]], Q[:4].astype(int)):
        m = len(arg)
        R = np.asarray(p.orthogonal_projection_on_plane(arg))
        require(len(R) == m, lambda: what + ': projections')
        require(np.abs(R - (np.asarray(arg, float) - np.outer(np.asarray(arg, float) @ n - c, n))).max() < t7, lambda: what + ': projections %s' % R)
    R = np.asarray(p.orthogonal_projection_on_plane(Q))
    require(np.abs(np.asarray(p.orthogonal_projection_on_plane(R)) - R).max() < t7, lambda: what + ': projection not idempotent')
    X = np.asarray(p.coord_in_plane(Q))
    require(X.shape == P.shape and np.abs(X[:, 2] - d).max() < t7, lambda: what + ': third coordinate in plane %s, distances %s' % (X[:, 2], d))
    DX = X[1:] - X[0]
    DP = P[1:] - P[0]
    require(np.abs(DX @ DX.T - DP @ DP.T).max() < 1e-6 * max(L, t7 * 1e7) ** 2, lambda: what + ': coordinates in plane are not an isometry')
    require(np.linalg.det(DX[:3] / k) * np.linalg.det(DP[:3] / k) > 0, lambda: what + ': frame of the plane is not direct')
    O = np.asarray(p.get_origin())
    require(np.abs(O - c * n).max() < 1e-9 * (1 + abs(c)), lambda: what + ': origin %s' % O)
    require(np.array_equal(Q, P), lambda: what + ': points modified')
    for i, j in ((1, 3), (4, 5), (6, 2), (3, 5)):
        a, b = P[i], P[j]
        da, db = d[i], d[j]
        if abs(da - db) < 1e-6 * k or min(abs(da), abs(db)) < max(1e-6 * k, t7):
            continue
        try:
            I = np.asarray(p.get_edge_intersection(a.copy(), b.copy()))
            t = da / (da - db)
            require(0 <= t <= 1, lambda: what + ': intersection %s found outside of the edge %s %s' % (I, a, b))
            tight = t7 if abs(da - db) < .05 * np.linalg.norm(b - a) else 1e-11 * (np.abs(a).max() + np.abs(b).max() + abs(c))
            require(np.abs(I - (a + t * (b - a))).max() <= tight, lambda: what + ': edge intersection %s' % I)
        except RuntimeError:
            require(da * db > 0, lambda: what + ': no intersection found with the edge %s %s' % (a, b))


def evaluate(case, rec):
    from meshmagick.mesh import Plane
    for k in ('tilt', 'scale', 'angle'):
        if k in case:
            return globals()['evaluate_' + k](case, rec)
    ni, ci = INIT[case['init']]

    def new():
        p = Plane() if ni is None else Plane(normal=ni, scalar=ci)
        return p, (np.array([0, 0, 1.]) if ni is None else unit(ni)), (0. if ci is None else float(ci))
    seen = set()

    def walk(ops):
        p, n, c = new()
        for o in ops:
            f, g = OPS[o]
            f(p)
            n, c = g(n, c)
        check(p, n, c, case['init'] + ' -> ' + ' -> '.join(ops))
        rec.count('transitions')
        rec.count('traces')
        seen.add(tuple(np.round(np.append(n, c), 6) + 0.))
        if len(ops) < case['depth']:
            for o in OPS:
                walk(ops + [o])
    p, n, c = new()
    check(p, n, c, case['init'])
    p2, n2, c2 = new()
    OPS[case['ops'][0]][0](p2)
    n2, c2 = OPS[case['ops'][0]][1](n2, c2)
    check(p2, n2, c2, case['init'] + ' -> ' + case['ops'][0])
    walk(list(case['ops']))
    rec.count('states', len(seen))
    if len(seen) > 1:
        rec.hit()
    rec.outcome(case['init'])
