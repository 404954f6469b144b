"""C09: face areas, centers, normals and shell inertias."""
import itertools

import numpy as np

from checks.c06 import polygons2d
from mc import geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is a block of weakly convex polygons of a grid (all orientations and starting vertices) in an embedding, or a '
        'catalogue surface with an affine map, or a number of slices, a scale (1e-8 to 1e8), a warped quadrangle; every face of every layout is compared with exact integrals; non trivial: '
        'quadrangles are involved')
ASSUMPTIONS = ['planar weakly convex faces; the other quadrangles are the two triangles they are split in']
CHUNK = 2

EMBED = {
    'xy': lambda x, y: (x, y, 3),
    'xz': lambda x, y: (x - 4, 1, y),
    'yz': lambda x, y: (5, x - 3, 10 * y),
    'oblique': lambda x, y: (x - y, 2 * x + 1, y + x),
    'steep': lambda x, y: (30 * x, y, 2 * y - x - 100),
}
BLOCK = 64


def cases(tier):
    n = len(polygons2d())
    out = []
    for e in EMBED:
        for b in range(0, n, BLOCK):
            out.append(dict(embed=e, block=b))
    if tier == 'thorough':
        n = len(polygons2d(4))
        for e in ('oblique', 'xz'):
            for b in range(0, n, BLOCK):
                out.append(dict(embed=e, block=b, grid=4))
    from checks.c08 import MAPS
    for s in list(geom.catalogue()) + ['open wedge', 'patch']:
        for mp in MAPS:
            out.append(dict(surface=s, map=mp))
    for n in geom.SIZES + geom.BIG:
        for t in (0, 1, 3):
            out.append(dict(size=n, tris=t))
    for a in range(len(WARP)):
        out.append(dict(warped=a))
    for e in range(-8, 9):
        for s in ('wedge', 'hull', 'patch', 'sheared'):
            out.append(dict(scaled=s, exp=e))
    return out


WARP = list(itertools.product((-2, 0, 1), (0, 1), (-1, 2)))     # fourth vertex of quadrangles and heights of the second one


def warped_case(case, rec):
    """quadrangles which are not planar are the two triangles of triangulate_quadrangles (0, 1, 2) and (0, 2, 3)"""
    h, k, l = WARP[case['warped']]
    for emb in EMBED.values():
        for roll in range(4):
            for mix in (0, 1):
                base = [emb(0, 0), emb(3, 0), emb(3, 2), emb(0, 2 + k)]
                q = [tuple(a + d for a, d in zip(p, s)) for p, s in zip(base, ((0, 0, 0), (0, h, l), (k, 0, 0), (h, h, -l)))]
                q = q[roll:] + q[:roll]
                v = q + [(10, 10, 10), (11, 10, 10), (10, 12, 11)]
                f = [(0, 1, 2, 3)] + ([geom.tri(4, 5, 6), (3, 2, 1, 0)] if mix else [])
                m = geom.mesh((v, f))
                T = [[geom.tri(*g[:3]), geom.tri(g[0], g[2], g[3])] if g[0] != g[3] else [g] for g in f]
                A, C = [], []
                for ts in T:
                    a, m1 = 0., np.zeros(3)
                    for t in ts:
                        x, y, _ = geom.poly_surface_moments([v[i] for i in t[:3]])
                        a, m1 = a + x, m1 + y
                    A.append(a)
                    C.append(m1 / a if a else m1)
                if min(A) == 0.:
                    continue
                A, C = np.array(A), np.array(C)
                what = 'quadrangle %s' % (q,)
                require(geom.close(m.faces_areas, A, 1e-11, 1e-12), lambda: what + ': area %s, expected %s' % (m.faces_areas, A))
                require(np.abs(m.faces_centers - C).max() <= 1e-10 * 40, lambda: what + ': center %s, expected %s' % (m.faces_centers, C))
                t = geom.mesh((v, f))
                t.triangulate_quadrangles()
                require(geom.close(t.faces_areas.sum(), A.sum(), 1e-11, 1e-12), lambda: what + ': area once triangulated')
                i, j = geom.mesh((v, f)).eval_shell_mesh_inertias(2., 1.), t.eval_shell_mesh_inertias(2., 1.)
                require(geom.close(i.mass, 2. * A.sum(), 1e-11) and geom.close(j.mass, i.mass, 1e-11) and geom.close(i.gravity_center, j.gravity_center, 1e-9, 1e-9)
                        and geom.close(i.inertia_matrix, j.inertia_matrix, 1e-9, 1e-6), lambda: what + ': shell inertia before and after triangulation')
                rec.count('evaluations')
    rec.hit()
    rec.outcome('warped')


def surface(name):
    from mc import derived as D
    if name in ('open wedge', 'patch'):
        v, f = D.roots()[name]
        if name == 'patch':
            v = [(x, y, x + 2 * y) for x, y, z in v]      # planar faces
        return v, f
    return geom.catalogue()[name]


def check(shape, what, rec):
    v, f = shape
    rec.count('evaluations')
    m = geom.mesh(shape)
    polys = geom.polygons(shape)
    A, C, N, M = [], [], [], []
    for p in polys:
        a, m1, m2 = geom.poly_surface_moments(p)
        A.append(a)
        C.append(m1 / a)
        M.append(m2)
        N.append(np.array([float(x) for x in geom.area_vector(p)]) / a)
    A, C, N = np.array(A), np.array(C), np.array(N)
    size = max(1., float(max(abs(c) for p in v for c in p)))
    require(np.shape(m.faces_areas) == A.shape and np.shape(m.faces_normals) == N.shape and np.shape(m.faces_centers) == C.shape,
            lambda: what + ': shapes')
    require(geom.close(m.faces_areas, A, 1e-11, 1e-12), lambda: what + ': areas %s, expected %s' % (m.faces_areas, A))
    require(np.abs(m.faces_normals - N).max() <= 1e-11, lambda: what + ': normals %s, expected %s' % (m.faces_normals, N))
    require(np.abs(m.faces_centers - C).max() <= 1e-11 * size, lambda: what + ': centers %s, expected %s' % (m.faces_centers, C))
    S = sum(M)
    for rho, th in ((1., 1.), (7850., 0.02), (2., 0.125)):
        i = geom.mesh(shape).eval_shell_mesh_inertias(rho_medium=rho, thickness=th)
        k = rho * th
        require(geom.close(i.mass, k * A.sum(), 1e-11, 1e-12), lambda: what + ': shell mass %r, expected %r' % (i.mass, k * A.sum()))
        g = (A[:, None] * C).sum(axis=0) / A.sum()
        require(np.abs(i.gravity_center - g).max() <= 1e-10 * size, lambda: what + ': shell cog %s, expected %s' % (i.gravity_center, g))
        T = k * (np.trace(S) * np.eye(3) - S)
        require(np.abs(i.inertia_matrix - T).max() <= 1e-11 * k * A.sum() * size ** 2,
                lambda: what + ': shell inertia matrix\n%s\nexpected\n%s' % (i.inertia_matrix, T))
        require(np.abs(np.array([i.xx, i.yy, i.zz, i.xy, i.xz, i.yz])
                       - np.array([T[0, 0], T[1, 1], T[2, 2], -T[0, 1], -T[0, 2], -T[1, 2]])).max() <= 1e-11 * k * A.sum() * size ** 2,
                lambda: what + ': shell moments and products')
        require(np.abs(np.asarray(i.reduction_point, float)).max() == 0., lambda: what + ': reduction point')
    i = geom.mesh(shape).eval_shell_mesh_inertias()
    require(geom.close(i.mass, 157. * A.sum(), 1e-11, 1e-12), lambda: what + ': default shell mass')
    if any(q[0] != q[3] for q in f):
        rec.hit()


def scaled_check(shape, k, what, rec):
    """relative accuracy at any scale (floats)"""
    from meshmagick.mesh import Mesh
    V, F = geom.arrays(shape)
    m = Mesh(V * k, F)
    ref = geom.mesh(shape)
    A, N, C = np.array(ref.faces_areas), np.array(ref.faces_normals), np.array(ref.faces_centers)
    size = np.abs(V).max()
    require(np.abs(m.faces_areas / k ** 2 - A).max() <= 1e-11 * size ** 2, lambda: what + ': areas')
    require(np.abs(m.faces_normals - N).max() <= 1e-10, lambda: what + ': normals')
    require(np.abs(m.faces_centers / k - C).max() <= 1e-11 * size, lambda: what + ': centers')
    a, b = ref.eval_shell_mesh_inertias(), m.eval_shell_mesh_inertias()
    require(geom.close(b.mass / k ** 2, a.mass, 1e-11, 0) and np.abs(b.gravity_center / k - a.gravity_center).max() <= 1e-11 * size
            and np.abs(b.inertia_matrix / k ** 4 - a.inertia_matrix).max() <= 1e-10 * a.mass * size ** 2, lambda: what + ': shell inertia')
    rec.count('evaluations')


def evaluate(case, rec):
    if 'size' in case:
        s = geom.tube(case['size'], case['tris'])
        check(s, 'box in %d slices (%d)' % (case['size'], case['tris']), rec)
        s = geom.strip(case['size'])
        check(s, 'strip of %d triangles' % case['size'], rec)
        rec.hit()
        rec.outcome('size')
        return
    if 'warped' in case:
        return warped_case(case, rec)
    if 'scaled' in case:
        s = surface(case['scaled'])
        check(s, case['scaled'], rec)
        scaled_check(s, 10. ** case['exp'], '%s scaled by 1e%d' % (case['scaled'], case['exp']), rec)
        rec.hit()
        rec.outcome('scale')
        return
    if 'embed' in case:
        emb = EMBED[case['embed']]
        for p in polygons2d(case.get('grid', 3))[case['block']:case['block'] + BLOCK]:
            v = [emb(x, y) for x, y in p]
            f = [geom.tri(0, 1, 2)] if len(p) == 3 else [(0, 1, 2, 3)]
            check((v, f), 'face %s' % (v,), rec)
        rec.outcome(case['embed'])
        return
    from checks.c08 import MAPS
    s = geom.affine(surface(case['surface']), *MAPS[case['map']])
    nq = sum(q[0] != q[3] for q in s[1])
    todo = [('plain', s), ('flipped', (s[0], geom.flipped(s[1]))), ('order', (s[0], list(s[1])[::-1]))]
    todo += [('rolled %d' % k, geom.rolled(s, k)) for k in (1, 2, 3)]
    todo += [('diagonals %s' % bin(d), geom.triangulated(s, d)) for d in (0, 0xffff, 0x5555, 0x3333, 0x0f0f)]
    for lay, t in todo:
        check(t, '%s, map %s, %s' % (case['surface'], case['map'], lay), rec)
    rec.outcome(case['surface'])
