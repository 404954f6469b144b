"""C17: every hydrostatic figure against exact integrals over the immersed polyhedron."""
from fractions import Fraction as Fr

import numpy as np

from mc import geom, hydro
from mc.core import Violation, quiet, require

LEVEL = 'exploration'
RULE = ('a case is (hull, rotation, position), with scales up to 5000 or a number of slices of a barge: every water level (middle of every pair of consecutive vertex levels, and the vertex '
        'levels themselves for upright hulls) x centers of gravity x fluids x options; oracle: exact rational integrals of the '
        'polygons clipped by the water plane; non trivial: figures were compared')
ASSUMPTIONS = ['vertices are either on the water plane or farther than the vicinity tolerance',
               'the immersed part is that strictly under water: faces lying on the water plane are not wetted']
CHUNK = 2

POSITIONS = {'at origin': (0, 0, 0), 'moved': (7, -3, 2), 'far': (-150, 220, -30), 'fraction': (Fr(1, 4), Fr(-3, 8), Fr(5, 16))}
COGS = [(0, 0, 0), (Fr(1, 2), Fr(-1, 4), 1), (40, -30, -20)]
FLUIDS = [(1025., 9.81), (1000., 9.80665), (2., 0.5)]
OPTIONS = [(False, None, False), (True, None, False), (True, 12.5, False), (False, None, True), (True, None, True), (False, 3., True)]


def cases(tier):
    out = []
    for h in hydro.hulls():
        for r in hydro.rotations():
            for p in POSITIONS:
                out.append(dict(hull=h, rotation=r, position=p, fine=int(tier == 'thorough')))
    for h in hydro.hulls():
        for k in SCALES:
            for r in (('none', 'heel-trim') if tier == 'quick' else hydro.rotations()):
                out.append(dict(hull=h, rotation=r, position='scaled', scale=k, fine=0))
    for n in [i for i in geom.SIZES if tier == 'thorough' or i <= 24 or i % 8 in (0, 7)] + ([1024] if tier == 'thorough' else []):
        out.append(dict(hull='tube', slices=n, rotation=('none', 'heel', 'trim')[n % 3], position='at origin', fine=0))
    return out


SCALES = [10, 37, 100, 300, 1000, 5000]


def make(case):
    if 'slices' in case:
        n = case['slices']
        s = geom.shift(geom.scaled(geom.tube(n, (0, 1, 3)[n // 3 % 3]), (1, 6, 5)), (-Fr(n, 2), -6, -2))
        return geom.renumbered(s, list(range(len(s[0])))[::-1]) if n % 2 else s
    if 'scale' in case:
        k = case['scale']
        return geom.scaled(hydro.hulls()[case['hull']], (k, k, k))
    return geom.shift(hydro.hulls()[case['hull']], POSITIONS[case['position']])


def compare(hs, fig, what):
    for k, (want, tol) in fig.items():
        require(k in hs, lambda: '%s: no %s' % (what, k))
        got = hs[k]
        ok = np.shape(got) == np.shape(want) and np.all(np.isfinite(np.asarray(got, float))) \
            and np.all(np.abs(np.asarray(got, float) - np.asarray(want, float)) <= tol)
        if not ok:
            raise Violation('%s: %s is %s, expected %s' % (what, k, np.asarray(got).tolist(), np.asarray(want).tolist()))


def evaluate(case, rec):
    from meshmagick.hydrostatics import compute_hydrostatics
    R = hydro.rotations()[case['rotation']]
    shape = make(case)
    pos = POSITIONS.get(case['position'], (0, 0, 0))
    Rf = np.array([[float(x) for x in row] for row in R])
    V, F = geom.arrays(shape)
    extra = [Fr(1, 5), Fr(7, 8)] if case['fine'] else []
    levels = hydro.levels(shape, R, extra)
    if 'slices' in case and len(levels) > 3:
        levels = levels[::max(1, len(levels) // 2)]
    for z in levels:
        for ic, cog in enumerate(COGS):
            cg = tuple(Fr(a) * case.get('scale', 1) + b for a, b in zip(cog, pos)) if ic else cog
            e = hydro.exact(shape, R, z, cg)
            if e is None or e['gap'] < 2e-3:
                rec.outcome('not across')
                break
            for io, (at_cog, lpp, ap) in enumerate(OPTIONS):
                if ic and io not in (0, 1):
                    continue
                rho, grav = FLUIDS[(ic + io) % len(FLUIDS)]
                mesh = geom.mesh(shape)
                c = np.array([float(x) for x in cg])
                what = '%s %s %s %s, z_corr %g, cog %s, rho %g, g %g, at_cog %s, lpp %s, orig_at_ap %s' % (
                    case['hull'], case['position'], case.get('scale', case.get('slices', '')), case['rotation'], float(z), c.tolist(), rho, grav, at_cog, lpp, ap)
                kw = dict(at_cog=at_cog, lpp=lpp, orig_at_ap=ap)
                if R is not hydro.ONE or io % 2:
                    kw['rotmat_corr'] = Rf.copy()
                if z != 0 or io % 2:
                    kw['z_corr'] = float(z)
                with quiet():
                    hs = compute_hydrostatics(mesh, c, rho, grav, **kw)
                compare(hs, hydro.figures(e, rho, grav, at_cog, lpp, ap), what)
                require(np.array_equal(hs['mesh'].vertices, V) and np.array_equal(hs['mesh'].faces, F), lambda: what + ': mesh')
                require(np.array_equal(hs['cog'], c) and np.allclose(hs['rotmat_eq'], Rf, rtol=0, atol=1e-15), lambda: what + ': cog, rotmat_eq')
                require(np.array_equal(mesh.vertices, V) and np.array_equal(mesh.faces, F), lambda: what + ': the mesh is modified')
                rec.count('evaluations')
                rec.hit()
                rec.outcome('compared, %s' % ('on vertices' if e['gap'] > .9 else 'inside'))
