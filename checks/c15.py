"""C15: chains of conversions between representations of rotations."""
import itertools
from math import pi

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'model_checking'
RULE = ('a case is a block of initial rotations (grids of cardan angles and axis-angle pairs, singular ones included); from each of '
        'the representations of each, all chains of conversions up to the length are executed, the model being the rotation itself; '
        'non trivial: the rotation is not the identity')
ASSUMPTIONS = ['comparison of matrices to 2e-7 near gimbal lock, 1e-9 elsewhere']
CHUNK = 2

REPS = ['quat', 'rotmat', 'axis_angle', 'cardan']
CONV = [(a, b) for a in REPS for b in REPS if a != b]
E = 1e-9
ANG = [0., E, -E, 1e-7, 1e-5, 0.3, -0.3, pi / 2, -pi / 2, pi / 2 - E, -pi / 2 + 1e-7, pi / 2 - 1e-5, 1.2, 2.5, -2.9, pi, -pi, pi - E, -pi + 1e-6, 2 * pi]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (0, 1, -1), (1, 1, 1), (-1, 2, -3), (1, 1e-9, 0), (1e-5, 1, 1e-5),
        (2, -1, 1e-8), (3, 3, 1)]


def rotmat_axis(axis, a):
    """Rodrigues formula"""
    n = np.asarray(axis, float)
    n = n / np.sqrt(n @ n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    s = np.sin(a / 2)
    return np.eye(3) + np.sin(a) * K + 2 * s * s * K @ K


def rotmat_cardan(p, t, s):
    return rotmat_axis((0, 0, 1), s) @ rotmat_axis((0, 1, 0), t) @ rotmat_axis((1, 0, 0), p)


def quat_rotate(q):
    """matrix of x -> q x q*"""
    w, v = q[0], np.asarray(q[1:], float)
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) * (w * w - v @ v) + 2 * np.outer(v, v) + 2 * w * K


def rotations(tier):
    out = []
    A = ANG if tier == 'quick' else ANG + [0.7, -1.9, 1e-3, pi / 2 + 1e-8, -pi / 2 - 1e-4, 3., -1e-12, pi / 4]
    S = [0., 0.4, -pi / 2, pi, 1e-7, -2.2] if tier == 'quick' else ANG
    for p, t, s in itertools.product(S, A, S):
        out.append(['cardan', p, t, s])
    for x in AXES:
        for a in A + [3 * pi / 2, -5.]:
            out.append(['axis_angle'] + list(x) + [a])
    return out


BLOCK = 24


def cases(tier):
    n = len(rotations(tier))
    return [dict(tier=tier, block=b, length=3 if tier == 'quick' else 4) for b in range(0, n, BLOCK)]


def matrix_of(rep, val, what):
    """independent meaning of a representation, and its validity"""
    if rep == 'rotmat':
        R = np.asarray(val, float)
        require(R.shape == (3, 3), what + ': not a matrix')
        require(np.abs(R @ R.T - np.eye(3)).max() < 1e-8, lambda: what + ': not orthogonal\n%s' % R)
        require(np.linalg.det(R) > 0, lambda: what + ': determinant %g' % np.linalg.det(R))
        return R
    if rep == 'quat':
        q = np.asarray(val, float).ravel()
        require(q.size == 4 and abs(q @ q - 1) < 1e-8, lambda: what + ': not a unit quaternion %s' % q)
        return quat_rotate(q)
    if rep == 'axis_angle':
        n, a = val
        n = np.asarray(n, float)
        require(n.shape == (3,) and abs(n @ n - 1) < 1e-8, lambda: what + ': axis %s' % n)
        require(np.isfinite(a), lambda: what + ': angle %s' % a)
        return rotmat_axis(n, a)
    p, t, s = val
    require(all(np.isfinite([p, t, s])), lambda: what + ': angles %s' % (val,))
    return rotmat_cardan(p, t, s)


def convert(a, b, val):
    from meshmagick import rotations as R
    f = getattr(R, '%s_to_%s' % (a, b))
    return f(*val) if a in ('axis_angle', 'cardan') else f(val)


def make(rep, R0, init):
    """initial representations, independent of the code under test"""
    if rep == 'rotmat':
        return R0
    if init[0] == 'axis_angle' and rep in ('quat', 'axis_angle'):
        n = np.array(init[1:4], float)
        n /= np.sqrt(n @ n)
        if rep == 'axis_angle':
            return tuple(n), init[4]
        return [np.cos(init[4] / 2)] + list(np.sin(init[4] / 2) * n)
    if init[0] == 'cardan' and rep == 'cardan':
        return tuple(init[1:])
    if init[0] == 'cardan' and rep == 'quat':
        def q(axis, a):
            return np.concatenate([[np.cos(a / 2)], np.sin(a / 2) * np.array(axis, float)])

        def mul(a, b):
            return np.concatenate([[a[0] * b[0] - a[1:] @ b[1:]], a[0] * b[1:] + b[0] * a[1:] + np.cross(a[1:], b[1:])])
        return mul(q((0, 0, 1), init[3]), mul(q((0, 1, 0), init[2]), q((1, 0, 0), init[1])))
    return None


def evaluate(case, rec):
    for init in rotations(case['tier'])[case['block']:case['block'] + BLOCK]:
        R0 = rotmat_cardan(*init[1:]) if init[0] == 'cardan' else rotmat_axis(init[1:4], init[4])
        lock = abs(R0[2, 0]) > 1 - 1e-10
        tol = 2e-7 if lock else 2e-8 if abs(R0[2, 0]) > 1 - 1e-4 else 1e-9
        states = 0
        for rep in REPS:
            v0 = make(rep, R0, init)
            if v0 is None:
                continue
            stack = [(rep, v0, [rep])]
            while stack:
                a, val, hist = stack.pop()
                for b in REPS:
                    if a == b:
                        continue
                    h = hist + [b]
                    what = '%s: %s' % (init, ' -> '.join(h))
                    new = convert(a, b, val)
                    rec.count('transitions')
                    rec.count('traces')
                    states += 1
                    M = matrix_of(b, new, what)
                    require(np.abs(M - R0).max() <= tol, lambda: what + ': rotation\n%s\ninstead of\n%s' % (M, R0))
                    if len(h) <= case['length']:
                        stack.append((b, new, h))
            if rep == 'rotmat' or rep == 'quat':
                # inputs as lists
                if rep == 'quat':
                    for b in REPS[1:]:
                        for seq in (list, tuple):
                            M = matrix_of(b, convert('quat', b, seq(v0)), '%s: %s of a %s' % (init, b, seq.__name__))
                            require(np.abs(M - R0).max() <= tol, lambda: '%s: quaternion given as %s' % (init, seq.__name__))
        if init[0] == 'axis_angle':
            for seq in (list, tuple, np.array):
                n, a = make('axis_angle', R0, init)
                for b in ('quat', 'rotmat', 'cardan'):
                    M = matrix_of(b, convert('axis_angle', b, (seq(n), a)), '%s' % init)
                    require(np.abs(M - R0).max() <= tol, lambda: '%s: axis given as %s' % (init, seq))
        rec.count('states', states)
        if np.abs(R0 - np.eye(3)).max() > 1e-12:
            rec.hit()
    rec.outcome('ok')
