"""C11: inertias of reference shapes against quadrature of the bodies."""
import itertools
from math import cos, pi, sin, sqrt

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (shape, dimensions); the body is described by a parametric map independent of the code, integrated by tensor Gauss '
        'quadrature; all dimensions of the grid and all densities (and thicknesses) are compared; non trivial: dimensions not all equal')
ASSUMPTIONS = ['axes as documented (cylinder, cone, pyramid axis along z, torus axis along y, wedge length along y, base along x)',
               'quadrature with 24 points per parameter (converged to 1e-9)']
CHUNK = 1

X, W = np.polynomial.legendre.leggauss(24)
X, W = (X + 1) / 2, W / 2
G3 = np.array(list(itertools.product(X, X, X)))
W3 = np.array([a * b * c for a, b, c in itertools.product(W, W, W)])
G2 = np.array(list(itertools.product(X, X)))
W2 = np.array([a * b for a, b in itertools.product(W, W)])


def volume_moments(fn):
    """fn(u, v, w) -> (x, y, z, jacobian)"""
    x, y, z, j = fn(*G3.T)
    p = np.array(np.broadcast_arrays(x, y, z)).T
    w = W3 * np.abs(j)
    return moments(p, w)


def surface_moments(fns):
    """each fn(u, v) -> (x, y, z, area element)"""
    ps, ws = [], []
    for fn in fns:
        x, y, z, j = fn(*G2.T)
        ps.append(np.array(np.broadcast_arrays(x, y, z, j)[:3]).T)
        ws.append(W2 * j)
    return moments(np.concatenate(ps), np.concatenate(ws))


def moments(p, w):
    m = w.sum()
    g = (w[:, None] * p).sum(axis=0) / m
    q = p - g
    s = np.einsum('k,ki,kj->ij', w, q, q)
    t = np.trace(s)
    return m, g, np.array([t - s[0, 0], t - s[1, 1], t - s[2, 2]])


T = 2 * pi


def cyl(r0, r1, L):
    return lambda u, v, w: ((r0 + (r1 - r0) * u) * np.cos(T * v), (r0 + (r1 - r0) * u) * np.sin(T * v), L * w,
                            (r0 + (r1 - r0) * u) * (r1 - r0) * T * L)


def cone(R, L):
    return lambda u, v, w: (R * (1 - w) * u * np.cos(T * v), R * (1 - w) * u * np.sin(T * v), L * w, (R * (1 - w)) ** 2 * u * T * L)


def ball(a, b, c, r0=0., top=False):
    """semi axes along x, y, z; r0: ratio of the inner radius"""
    h = pi / 2 if top else pi

    def f(u, v, w):
        r = r0 + (1 - r0) * u
        t = h * v
        return (a * r * np.sin(t) * np.cos(T * w), b * r * np.sin(t) * np.sin(T * w), c * r * np.cos(t),
                a * b * c * r ** 2 * np.sin(t) * (1 - r0) * h * T)
    return f


def torus(R, r):
    # axis along y
    def f(u, v, w):
        q = R + r * u * np.cos(T * v)
        return q * np.cos(T * w), r * u * np.sin(T * v), q * np.sin(T * w), q * r * r * u * T * T
    return f


def tri_prism(x0, x1, xt, h, L):
    """triangle (x0, 0) (x1, 0) (xt, h) in xz, length along y"""
    def f(u, v, w):
        a = 1 - w
        return x0 * a + (x1 - x0) * a * u + xt * w, L * v, h * w, (x1 - x0) * a * L * h
    return f


def pyr(a, b, h):
    return lambda u, v, w: (a * (u - .5) * (1 - w), b * (v - .5) * (1 - w), h * w, a * b * h * (1 - w) ** 2)


def brick(a, b, h):
    return lambda u, v, w: (a * u, b * v, h * w, a * b * h + 0 * u)


def cone_shell(r, R, h):
    s = sqrt(h * h + (R - r) ** 2)
    return [lambda u, v: ((R + (r - R) * u) * np.cos(T * v), (R + (r - R) * u) * np.sin(T * v), h * u, (R + (r - R) * u) * s * T)]


def disc(R, z):
    return [lambda u, v: (R * u * np.cos(T * v), R * u * np.sin(T * v), z + 0 * u, R * R * u * T)]


def sphere_shell(R, top=False):
    h = pi / 2 if top else pi
    return [lambda u, v: (R * np.sin(h * u) * np.cos(T * v), R * np.sin(h * u) * np.sin(T * v), R * np.cos(h * u),
                          R * R * np.sin(h * u) * h * T)]


D1 = [0.5, 1., 3.]
D = [0.25, 1., 2., 7.]
VOLUMES = {
    'right_circular_cylinder': (2, lambda R, L: cyl(0, R, L)),
    'hollow_right_circular_cylinder': (3, lambda r, R, L: cyl(r, R, L) if r < R else None),
    'right_circular_cone': (2, cone),
    'sphere': (1, lambda R: ball(R, R, R)),
    'hollow_sphere': (2, lambda r, R: ball(R, R, R, r / R) if r < R else None),
    'hemisphere': (1, lambda R: ball(R, R, R, 0, True)),
    'elliptical_cylinder': (3, lambda a, b, L: (lambda u, v, w: (a * u * np.cos(T * v), b * u * np.sin(T * v), L * w, a * b * u * T * L))),
    # a is along z, b along x, c along y
    'ellipsoid': (3, lambda a, b, c: ball(b, c, a)),
    'torus': (2, lambda R, r: torus(R, r) if r <= R else None),
    'right_angle_wedge': (3, lambda b, h, L: tri_prism(0, b, 0, h, L)),
    'isoceles_wedge': (3, lambda b, h, L: tri_prism(0, b, b / 2, h, L)),
    'right_rectangular_pyramid': (3, pyr),
    'cube': (1, lambda a: brick(a, a, a)),
    'rectangular_prism': (3, brick),
}
SHELLS = {
    'circular_cone_shell': (2, lambda R, h: cone_shell(0, R, h)),
    'frustrum_of_circular_cone_shell': (3, lambda r, R, h: cone_shell(r, R, h)),
    'lateral_cylindrical_shell': (2, lambda R, h: cone_shell(R, R, h)),
    'total_cylindrical_shell': (2, lambda R, h: cone_shell(R, R, h) + disc(R, 0) + disc(R, h)),
    'spherical_shell': (1, lambda R: sphere_shell(R)),
    'hemispherical_shell': (1, lambda R: sphere_shell(R, True)),
}


def cases(tier):
    vals = D if tier == 'quick' else [0.25, 0.5, 1., 1.5, 2., 7., 40.]
    out = []
    for n, (k, f) in sorted(VOLUMES.items()):
        for d in itertools.product(vals, repeat=k):
            if f(*d) is not None:
                out.append(dict(shape=n, dims=list(d)))
    for n, (k, f) in sorted(SHELLS.items()):
        for d in itertools.product(vals, repeat=k):
            out.append(dict(shell=n, dims=list(d)))
    return out


def check(i, rho, ref, what):
    m, g, I = ref
    require(geom.close(i.mass, rho * m, 1e-8, 0), lambda: what + ': mass %r, expected %r' % (i.mass, rho * m))
    got = np.array([i.xx, i.yy, i.zz])
    require(np.abs(got - rho * I).max() <= 1e-8 * rho * np.abs(I).max(),
            lambda: what + ': moments of inertia %s, expected %s' % (got, rho * I))
    require(geom.close(i.reduction_point, i.gravity_center, 1e-12, 1e-12) and bool(i.is_at_cog()), lambda: what + ': not at cog')
    require(geom.close(i.at_cog.inertia_matrix, i.inertia_matrix, 1e-12, 1e-12), lambda: what + ': at_cog')


def evaluate(case, rec):
    from meshmagick import inertia
    d = case['dims']
    if len(set(d)) > 1:
        rec.hit()
    if 'shape' in case:
        ref = volume_moments(VOLUMES[case['shape']][1](*d))
        fn = getattr(inertia, case['shape'])
        for rho in (None, 0.5, 7850.):
            i = fn(*d) if rho is None else fn(*d, density=rho)
            check(i, 1. if rho is None else rho, ref, '%s%s density %s' % (case['shape'], tuple(d), rho))
            rec.count('evaluations')
        if all(float(x).is_integer() for x in d):
            i = fn(*[int(x) for x in d], density=2)
            check(i, 2., ref, '%s%s of integers' % (case['shape'], tuple(d)))
        rec.outcome(case['shape'])
    else:
        ref = surface_moments(SHELLS[case['shell']][1](*d))
        fn = getattr(inertia, case['shell'])
        for kw in ({}, dict(density=1.), dict(thickness=0.5), dict(density=3., thickness=0.125)):
            i = fn(*d, **kw)
            rho = kw.get('density', 7850.) * kw.get('thickness', 0.02)
            check(i, rho, ref, '%s%s %s' % (case['shell'], tuple(d), kw))
            rec.count('evaluations')
        rec.outcome(case['shell'])
