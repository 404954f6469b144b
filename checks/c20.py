"""C20: 3DOF equilibrium: exact balance of weight and buoyancy on the hull and center of gravity moved by the reported correction."""
import contextlib
import io
import warnings
from fractions import Fraction as Fr

import numpy as np

from mc import geom, hydro
from mc.core import Violation, require

LEVEL = 'exploration'
RULE = ('a case is (hull, attitude of equilibrium, filling, scale): the center of gravity is put over the exact center of buoyancy with a stable '
        'metacentric height, then hull and center are heeled, trimmed, yawed and shifted in every way of the family; the correction returned '
        'is applied and volume, centers are computed exactly; large tilts and unstable hulls: right, or told; non trivial: balanced cases')
ASSUMPTIONS = ['convergence is required when the least metacentric height is at least half of the least metacentric radius and tilts are at most 6 degrees',
               'the hull cuts the water plane in its initial position']
CHUNK = 1
CASE_LIMIT = 240.

EQ = {'none': (0, 0, 0), 'heel': (6, 0, 0), 'trim': (0, -7, 0), 'both': (11, 13, 30), 'all': (-40, 25, -60)}
FILLS = [.25, .5, .75]
GMS = [.5, 1., 2.]
TILTS = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (-2, 3, 10), (4, 4, 0), (3, -4.5, -100)]
HARD = [(.2, (4, 4, 0)), (.05, (0, 3, 0)), (1., (12, -15, 0)), (1., (60, 20, 0)), (-1., (1, 1, 0)), (-.3, (0, 0, 0))]


def rotmat(deg):
    """independent product of elementary rotations"""
    out = np.eye(3)
    for axis, a in zip((0, 1, 2), np.radians(deg)):
        i, j = [(1, 2), (2, 0), (0, 1)][axis]
        M = np.eye(3)
        M[i, i] = M[j, j] = np.cos(a)
        M[i, j], M[j, i] = -np.sin(a), np.sin(a)
        out = M @ out
    return out


def wet(V, F):
    """exact (volume, center of buoyancy, waterplane area, its center, central second moments)"""
    polys = [[tuple(Fr(c) for c in p) for p in q] for q in geom.fpolys(V, F)]
    w = geom.clip_polys(polys, (0, 0, 1), 0)
    vol, m1, _ = geom.solid_moments(w)
    if vol <= 0:
        return None
    s0, s1, s2 = geom.flux_moments(w, 2)
    A = -float(s0)
    if A <= 0:
        return float(vol), np.array([float(x / vol) for x in m1]), 0., None, None
    c = np.array([-float(s1[0]) / A, -float(s1[1]) / A])
    J = np.array([[-float(s2[i][j]) for j in range(2)] for i in range(2)]) - A * np.outer(c, c)
    return float(vol), np.array([float(x / vol) for x in m1]), A, c, J


def float_volume(V, F, z):
    polys = geom.fpolys(V + [0, 0, z], F)
    w = geom.clip_polys(polys, (0., 0., 1.), 0.)
    vol = 0.
    for p in w:
        for a, b, c in geom.fan(p):
            vol += np.dot(a, np.cross(b, c)) / 6
    return vol


def level(V, F, target):
    """vertical shift giving the volume: bisection"""
    lo, hi = -V[:, 2].max(), -V[:, 2].min()
    for _ in range(60):
        mid = .5 * (lo + hi)
        if float_volume(V, F, mid) > target:
            lo = mid
        else:
            hi = mid
    return .5 * (lo + hi)


def cases(tier):
    out = []
    for h in hydro.hulls():
        for s in (('12',) if tier == 'quick' else ('12', '1', '100')):
            for a in (EQ if tier != 'quick' else ['none', 'heel', 'both']):
                for f in FILLS if tier == 'quick' else [.1, .25, .4, .5, .6, .75, .9]:
                    if h != 'submarine':
                        out.append(dict(hull=h, scale=s, attitude=a, fill=f))
        if tier == 'quick' and h != 'submarine':
            for s, a, f in (('1', 'both', .4), ('3', 'none', .6), ('100', 'heel', .5), ('1000', 'both', .3), ('400', 'none', .7)):
                out.append(dict(hull=h, scale=s, attitude=a, fill=f))
    return out


def solve(V, F, cog, tons, rho, grav, **kw):
    from meshmagick.hydrostatics import full_equilibrium
    from meshmagick.mesh import Mesh
    m = Mesh(V.copy(), F.copy())
    c0 = np.array(cog, float)
    out = io.StringIO()
    told, err, r = [], None, None
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        warnings.simplefilter('always')
        try:
            r = full_equilibrium(m, cog, tons, rho, grav, **kw)
        except Exception as e:
            err = e
    told = [str(x.message) for x in w if issubclass(x.category, UserWarning)]
    text = out.getvalue()
    if 'no convergence' in text.lower() or 'not converge' in text.lower() or 'impossible' in text.lower():
        told.append(text.strip())
    require(np.array_equal(m.vertices, V) and np.array_equal(m.faces, F), 'the mesh is modified')
    require(np.array_equal(np.asarray(cog, float), c0), 'the center of gravity is modified')
    return r, told, err


def evaluate(case, rec):
    sc = int(case['scale'])
    s = geom.scaled(hydro.hulls()[case['hull']], (sc, sc, sc))
    V, F = geom.arrays(s)
    total = float(geom.solid_moments(geom.polygons(s))[0])
    f = case['fill']
    V = V @ rotmat(EQ[case['attitude']]).T
    V = V + [0, 0, level(V, F, f * total)]
    v, b, A, c, J = wet(V, F)
    H = np.ptp(V[:, 2])
    V = V - [c[0], c[1], 0]
    b = b - [c[0], c[1], 0]
    r = np.linalg.eigvalsh(J)[0] / v
    n = 0
    # a vertex on the water plane at equilibrium: tight tolerances are out of reach of the vicinity tolerance of the clipper
    snapped = bool(np.any(np.abs(V[:, 2]) < 2e-3))
    todo = [(gm, t, True) for gm in GMS for t in TILTS] + [(gm, t, False) for gm, t in HARD]
    for gm, tilt, must in todo:
        g = np.array([b[0], b[1], b[2] + r * (1 - gm)])
        R1 = rotmat(tilt)
        for d in ((0., 0., 0.), (2. * sc, -sc, .04 * H), (-15. * sc, 20. * sc, -.03 * H)):
            n += 1
            V2 = V @ R1.T + d
            g2 = R1 @ g + d
            if V2[:, 2].min() > -.01 * H or V2[:, 2].max() < 0:
                continue
            rho, grav, reltol = [(1025., 9.81, 1e-6), (1000., 9.8, 1e-4), (1030., 9.81, 1e-8)][n % 3]
            kw = {} if reltol == 1e-6 else dict(reltol=reltol)
            if n % 4 == 0:
                kw['verbose'] = True
            cog = g2.tolist() if n % 2 else g2.copy()
            tons = f * total * rho / 1000
            what = '%s x%d attitude %s filling %g, metacentric height %g of the radius, tilt %s, moved %s, reltol %g' % (
                case['hull'], sc, case['attitude'], f, gm, tilt, d, reltol)
            res, told, err = solve(V2, F, cog, tons, rho, grav, **kw)
            if err is not None or told:
                if must and not (snapped and err is None and reltol < 1e-4):
                    raise Violation('%s: %r %s' % (what, err, told))
                rec.outcome('told')
                continue
            z, R = res
            R = np.asarray(R, float)
            require(R.shape == (3, 3) and np.abs(R @ R.T - np.eye(3)).max() < 1e-8 and np.linalg.det(R) > 0, lambda: what + ': not a rotation: %s' % R)
            V3 = V2 @ R.T + [0, 0, z]
            g3 = R @ g2 + [0, 0, z]
            w = wet(V3, F)
            require(w is not None, lambda: what + ': out of water')
            v3, b3 = w[0], w[1]
            dd = np.abs(V3[:, 2])
            near = np.any((dd > 1e-12 * (1 + H)) & (dd < 1.5e-3))
            slack = 1e-7 + (5e-3 * max(w[2], 1.) / v3 if near else 0)
            L = np.ptp(V3[:, :2], axis=0)
            if abs(v3 / total / f - 1) > 1.01 * reltol + slack:
                raise Violation('%s: displaced volume %.9g, expected %.9g' % (what, v3, f * total))
            for k, nm in ((0, 'x'), (1, 'y')):
                # residue of the moments: the part of the relative error of the volume is removed
                tol = L[k] * (reltol * 1.5 + slack) + reltol * 2 * (np.abs(g3[:2]).max() + np.abs(b3[:2]).max())
                if abs(b3[k] - g3[k]) > tol:
                    raise Violation('%s: center of buoyancy %s not aligned with the center of gravity %s' % (what, b3, g3))
            if tilt == (0, 0, 0) and d == (0., 0., 0.) and gm > 0:
                require(abs(z) <= 1e-5 * H + reltol * H * 10 and np.abs(R - np.eye(3)).max() <= 1e-5 + 100 * reltol,
                        lambda: what + ': already at equilibrium, moved by %g, %s' % (z, R))
                rec.outcome('left as it is')
            rec.count('evaluations')
            rec.outcome('balanced' if must else 'balanced (hard)')
            rec.hit()
