"""C08: volume, center and inertia of the enclosed solid against exact rational integrals."""
import itertools

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (polyhedron, affine map); all layouts (diagonals, first vertices, orders of faces, numberings) are compared with '
        'exact rational integrals; or a number of slices of a box, or a scale from 1e-8 to 1e8; non trivial: the reference body has a non zero product of inertia or an offset')
ASSUMPTIONS = ['closed outward meshes with planar faces; comparison to 1e-9 relative to the size of the terms']
CHUNK = 2

MAPS = {
    'identity': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], (0, 0, 0)),
    'shift': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], (3, -5, 7)),
    'far': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], (-50, 40, -60)),
    'stretch': ([[2, 0, 0], [0, 5, 0], [0, 0, 3]], (-1, 2, 0)),
    'shear': ([[1, 2, 0], [0, 1, 1], [0, 0, 1]], (0, 0, 4)),
    'general': ([[2, -1, 1], [1, 3, 0], [-1, 2, 2]], (1, 2, -3)),
    'improper': ([[0, 1, 0], [1, 0, 0], [0, 2, 1]], (-2, 0, 5)),
    'rotation': ([[0, -1, 0], [0, 0, -1], [1, 0, 0]], (0, 6, 0)),
}


def layouts(s, tier):
    nq = sum(q[0] != q[3] for q in s[1])
    out = [('plain', s)]
    for k in (1, 2, 3):
        out.append(('rolled %d' % k, geom.rolled(s, k)))
    ds = range(1 << nq) if nq <= (4 if tier == 'quick' else 9) else [0, (1 << nq) - 1, 0b0101010101010101, 0b0011001100110011]
    for d in ds:
        out.append(('diagonals %s' % bin(d), geom.triangulated(s, d)))
    if nq > 1:
        # some quadrangles only
        v, f = s
        k = 0
        g = []
        for q in f:
            if q[0] == q[3]:
                g.append(q)
            else:
                k += 1
                g += geom.triangulated((v, [q]), k % 2)[1] if k % 2 else [q]
        out.append(('half triangulated', (v, g)))
    out.append(('faces reversed order', (s[0], list(s[1])[::-1])))
    out.append(('faces interleaved', (s[0], list(s[1])[1::2] + list(s[1])[0::2])))
    out.append(('renumbered', geom.renumbered(s, list(range(len(s[0])))[::-1])))
    # duplicated vertices: every face has its own
    v, f = s
    nv, g = [], []
    for q in f:
        ids = {}
        for a in q:
            if a not in ids:
                ids[a] = len(nv)
                nv.append(v[a])
        g.append(tuple(ids[a] for a in q))
    out.append(('soup', (nv, g)))
    if tier == 'thorough':
        out.append(('subdivided', geom.subdivided(s)))
    return out


def cases(tier):
    out = [dict(solid=s, map=m, tier=tier) for s in geom.catalogue() for m in MAPS]
    for n in geom.SIZES + geom.BIG:
        for t in (0, 1, 3):
            out.append(dict(size=n, tris=t))
    for s in geom.catalogue():
        for e in range(-8, 9):
            out.append(dict(solid=s, exp=e))
    return out


def size_case(case, rec):
    """box (1, n + 1) x (-1, 1) x (0.5, 1.5) in n slices"""
    n = case['size']
    s = geom.shift(geom.tube(n, case['tris']), (1, -1, 0.5))
    g = np.array([1 + n / 2., 0., 1.])
    vol = 2. * n
    M = vol * np.diag([(4 + 1) / 12., (n * n + 1) / 12., (n * n + 4) / 12.]) + vol * (g @ g * np.eye(3) - np.outer(g, g))
    m = geom.mesh(s)
    what = 'box in %d slices (%d)' % (n, case['tris'])
    require(abs(m.volume - vol) <= 1e-10 * vol * (n + 1), lambda: what + ': volume %r, expected %r' % (float(m.volume), vol))
    i = m.eval_plain_mesh_inertias(rho_medium=2.)
    require(geom.close(i.mass, 2. * m.volume, 1e-12), lambda: what + ': mass')
    require(np.abs(i.gravity_center - g).max() <= 1e-10 * (n + 1) ** 2, lambda: what + ': cog %s, expected %s' % (i.gravity_center, g))
    require(np.abs(i.inertia_matrix - 2 * M).max() <= 1e-10 * vol * (n + 1) ** 3, lambda: what + ': inertia matrix\n%s\nexpected\n%s' % (i.inertia_matrix, 2 * M))
    rec.count('evaluations')
    rec.hit()
    rec.outcome('size')


def scale_case(case, rec):
    """similar bodies: relative accuracy at any scale"""
    from meshmagick.mesh import Mesh
    k = 10. ** case['exp']
    s = geom.catalogue()[case['solid']]
    for name in ('identity', 'general'):
        t = geom.affine(s, *MAPS[name])
        V, F = geom.arrays(t)
        vol, m1, m2 = geom.solid_moments(geom.polygons(t))
        vol, m1 = float(vol), np.array([float(x) for x in m1])
        m2 = np.array([[float(x) for x in r] for r in m2])
        size = np.abs(V).max()
        area = geom.surface_moments(geom.polygons(t))[0]
        m = Mesh(V * k, F)
        what = '%s, map %s, scaled by %g' % (case['solid'], name, k)
        require(abs(m.volume / k ** 3 - vol) <= 1e-11 * area * size, lambda: what + ': volume')
        for rho in (1e-6, 1023., 1e6):
            i = m.eval_plain_mesh_inertias(rho_medium=rho)
            require(abs(i.mass / k ** 3 / rho - vol) <= 1e-11 * area * size, lambda: what + ': mass')
            require(np.abs(i.gravity_center / k - m1 / vol).max() <= 1e-11 * area * size ** 2 / vol, lambda: what + ': cog')
            require(np.abs(i.inertia_matrix / k ** 5 / rho - (np.trace(m2) * np.eye(3) - m2)).max() <= 1e-11 * area * size ** 3, lambda: what + ': inertia matrix')
            rec.count('evaluations')
    rec.hit()
    rec.outcome('scale')


def evaluate(case, rec):
    if 'size' in case:
        return size_case(case, rec)
    if 'exp' in case:
        return scale_case(case, rec)
    s = geom.affine(geom.catalogue()[case['solid']], *MAPS[case['map']])
    vol, m1, m2 = geom.solid_moments(geom.polygons(s))
    vol, m1 = float(vol), np.array([float(x) for x in m1])
    m2 = np.array([[float(x) for x in r] for r in m2])
    size = max(1., float(max(abs(c) for p in s[0] for c in p)))
    area = geom.surface_moments(geom.polygons(s))[0]
    if abs(m2[0, 1]) + abs(m2[1, 2]) + abs(m2[0, 2]) > 1e-9:
        rec.hit()
    # magnitude of the terms summed by any surface integration
    sv, s1, s2 = area * size, area * size ** 2, area * size ** 3
    for lay, t in layouts(s, case['tier']):
        for rho in (1, 1023., 0.001):
            m = geom.mesh(t)
            what = '%s, map %s, %s' % (case['solid'], case['map'], lay)
            rec.count('evaluations')
            require(abs(m.volume - vol) <= 1e-11 * sv, lambda: what + ': volume %r, expected %r' % (float(m.volume), vol))
            i = m.eval_plain_mesh_inertias(rho_medium=rho)
            require(abs(i.mass - rho * vol) <= 1e-11 * sv * rho, lambda: what + ': mass %r, expected %r' % (i.mass, rho * vol))
            require(np.abs(i.gravity_center - m1 / vol).max() <= 1e-11 * s1 / vol,
                    lambda: what + ': cog %s, expected %s' % (i.gravity_center, m1 / vol))
            M = rho * (np.trace(m2) * np.eye(3) - m2)
            require(np.abs(np.asarray(i.reduction_point, float)).max() == 0., lambda: what + ': reduction point')
            require(np.abs(i.inertia_matrix - M).max() <= 1e-11 * s2 * rho,
                    lambda: what + ': inertia matrix\n%s\nexpected\n%s' % (i.inertia_matrix, M))
            require(np.abs(np.array([i.xx, i.yy, i.zz, i.xy, i.xz, i.yz])
                           - np.array([M[0, 0], M[1, 1], M[2, 2], -M[0, 1], -M[0, 2], -M[1, 2]])).max() <= 1e-11 * s2 * rho,
                    lambda: what + ': moments and products')
            if rho == 1:
                c = i.at_cog
                g = m1 / vol
                Mg = M - vol * (g @ g * np.eye(3) - np.outer(g, g))
                require(np.abs(c.inertia_matrix - Mg).max() <= 2e-11 * s2, lambda: what + ': inertia matrix at cog')
            require(geom.close(geom.mesh(t).eval_plain_mesh_inertias().mass, 1023. * m.volume, 1e-12, 1e-12), lambda: what + ': default density')
    rec.outcome(case['solid'])
