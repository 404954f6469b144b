"""C19: the vertical position returned by the displacement equilibrium, from every initial position and for every filling."""
import contextlib
import io
import os
import tempfile
import warnings
from fractions import Fraction as Fr

import numpy as np

from mc import geom, hydro
from mc.core import Violation, require

LEVEL = 'exploration'
RULE = ('a case is (hull, scale, attitude): all initial levels of the family (cutting, touching, immersed) x all filling ratios x tolerances '
        'x fluids; oracle: exact volume of the hull clipped at the position returned; overloads and emerged hulls must be told; '
        'non trivial: an equilibrium was compared')
ASSUMPTIONS = ['every horizontal plane between the bottom and the top of the hull cuts it',
               'drafts and freeboards sought are larger than the vicinity tolerance of the clipper']
CHUNK = 1
CASE_LIMIT = 200.

SCALES = {'1': 1, '20': 20, '1/2': Fr(1, 2), '300': 300}
LEVELS = [-3, Fr(-1, 100000), 0, Fr(1, 50), Fr(1, 4), Fr(1, 2), Fr(13, 20), Fr(9, 10), Fr(24, 25)]
FILLS = {'small': [.05, .1, .25, .5, .6, .75, .9, .95], 'large': [.0005, .003, .01, .05, .1, .2, .25, .33, .5, .6, .75, .9, .95, .97, .99, .999]}
FLUIDS = [(1025., 9.81, 1e-6), (1000., 9.8, 1e-3), (1025., 9.81, 1e-9)]


def cases(tier):
    out = []
    for h in hydro.hulls():
        for s in SCALES:
            for r in (['none', 'heel-trim'] if tier == 'quick' else ['none', 'heel-trim', 'all', 'trim', 'capsized', 'on side', 'yaw']):
                if h == 'submarine' and r != 'capsized':
                    continue        # no waterplane at some levels
                out.append(dict(hull=h, scale=s, rotation=r, fine=int(tier != 'quick')))
    return out


def equilibrium(mesh, disp, rho, grav, **kw):
    """(z or None, what was told, exception)"""
    from meshmagick.hydrostatics import displacement_equilibrium
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('always')
        try:
            return displacement_equilibrium(mesh, disp, rho, grav, **kw), [str(x.message) for x in w if issubclass(x.category, UserWarning)] + out.getvalue().split('\n')[:-1], None
        except Exception as err:
            return None, [], err


def volume_at(polys, z):
    wet = geom.clip_polys(polys, (0, 0, 1), -Fr(z))
    m0, m1, m2 = geom.flux_moments(wet, 2)
    # volume from the flux of the vertical field (z + shift): no cap contribution
    return float(m1[2] + Fr(z) * m0), float(-m0)


def evaluate(case, rec):
    sc = Fr(SCALES[case['scale']])
    shape = geom.scaled(hydro.hulls()[case['hull']], (sc, sc, sc))
    R = hydro.rotations()[case['rotation']]
    shape = hydro.moved(shape, R, 0)
    # dyadic coordinates so that oracle and implementation have the same hull
    V = np.array([[float(c) for c in p] for p in shape[0]])
    F = np.array(shape[1], int)
    h = V[:, 2]
    z0, z1 = h.min(), h.max()
    H = z1 - z0
    total = None
    base = geom.polygons(([tuple(Fr(float(c)) for c in p) for p in V], shape[1]))
    total = float(geom.solid_moments(base)[0])
    fills = FILLS['large' if H > 15 else 'small']
    if case['fine']:
        fills = sorted(set(fills) | {k / 20. for k in range(1, 20)})
    cg = [np.zeros(3), [1., -2., 5.]]
    n = 0
    for lev in LEVELS:
        off = -(z1 - float(lev) * H)           # the water cuts the hull at a fraction lev of its height from the top
        Vs = V + [0, 0, off]
        polys = geom.polygons(([tuple(Fr(float(c)) for c in p) for p in Vs], shape[1]))
        for f in fills:
            rho, grav, reltol = FLUIDS[n % 3]
            kw = {}
            if n % 2:
                kw['cog'] = cg[(n // 2) % 2]
            if reltol != 1e-6:
                kw['reltol'] = reltol
            kw['verbose'] = n % 5 == 0
            n += 1
            target = f * total * rho / 1000.
            from meshmagick.mesh import Mesh
            m = Mesh(Vs.copy(), F.copy())
            what = '%s scale %s %s, water at %s, filling %g, reltol %g' % (case['hull'], case['scale'], case['rotation'], lev, f, reltol)
            z, told, err = equilibrium(m, target, rho, grav, **kw)
            if err is not None:
                raise Violation('%s: %r' % (what, err))
            require(np.array_equal(m.vertices, Vs) and np.array_equal(m.faces, F), lambda: what + ': the mesh is modified')
            vol, area = volume_at(polys, float(z))
            d = np.abs(Vs[:, 2] + z)
            slack = 1e-8
            if np.any((d > 1e-12 * (1 + H)) & (d < 1.5e-3)):
                slack += 4e-3 * max(area, 1.) / total / f
                rec.outcome('vertices within the tolerance of the clipper')
            ok = abs(vol / total / f - 1) <= reltol * 1.01 + slack
            if not ok and any('mpossible' in t for t in told) and (1 - f) * total <= 5e-3 * area + 2e-3 * total:
                rec.outcome('top within the tolerance')
                continue
            if not ok:
                raise Violation('%s: volume at the position returned (%.9g) is %.9g, expected %.9g (%s)' % (what, z, vol, f * total, told))
            rec.count('evaluations')
            rec.hit()
            rec.outcome('reached')
        # overloads
        for f in (1.001, 1.5, 40.):
            m = Mesh(Vs.copy(), F.copy())
            what = '%s scale %s %s, water at %s, overload %g' % (case['hull'], case['scale'], case['rotation'], lev, f)
            z, told, err = equilibrium(m, f * total * 1.025, 1025., 9.81)
            require(err is not None or told, lambda: '%s: returned silently %r' % (what, z))
            require(np.array_equal(m.vertices, Vs), lambda: what + ': the mesh is modified')
            if err is None:
                vol, area = volume_at(polys, float(z))
                require(vol >= total - 1e-2 * H * area - 1e-2 * total, lambda: what + ': returned at a volume of %g, the whole one is %g' % (vol, total))
            rec.count('evaluations')
            rec.outcome('overload told')
    for up in (Fr(1, 100), 1, 50):
        Vs = V + [0, 0, float(-z0 + float(up) * max(1., float(sc)))]
        m = Mesh(Vs.copy(), F.copy())
        z, told, err = equilibrium(m, .5 * total * 1.025, 1025., 9.81)
        require(err is not None, lambda: '%s scale %s above water by %s: no error, %r' % (case['hull'], case['scale'], up, z))
        require(np.array_equal(m.vertices, Vs), lambda: 'the mesh is modified')
        rec.count('evaluations')
        rec.outcome('emerged told')
