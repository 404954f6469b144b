"""C12: writing a mesh and reading it back gives the same mesh; chains of conversions."""
import os

import numpy as np

from mc import geom, io
from mc.core import Violation, require

LEVEL = 'model_checking'
RULE = ('a case is (mesh, coordinates, first format): every chain of conversions up to the length is executed with the real writers and '
        'loaders, each step overwriting the same file when the format is the same; the model is the written mesh with the '
        'rounding of the format; compared after every step; or (many vertices and faces, format), (format, share of triangles) for all sizes of tubes and strips, (format, offset) for all magnitudes 1e-25 to 1e8 of coordinates, or (alias, mesh); non trivial: '
        'the mesh has triangles and quadrangles, or the chain has several formats')
ASSUMPTIONS = ['points of a mesh are further apart than the precision of the format', 'coordinates below 1e9 (1e7 for mar), null or above 1e-30']
CHUNK = 1
CASE_LIMIT = 240.

tri = geom.tri
MAG = [(0, 0, 0), (9.9999996, 0, 0), (1.2345678, 0.99999999, 0), (0, 7.7777777, 1.5), (.5, .6666666, 9.87654321)]
FLAT = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 1), (1, 2, 1), (2, 2, 1)]
SHAPES = {
    'onetri': ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [tri(0, 1, 2)]),
    'onetri201': ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [tri(2, 0, 1)]),
    'onequad': ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(0, 1, 2, 3)]),
    'onequad3': ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(3, 2, 1, 0)]),
    'twotris': ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (3, 3, 3)], [tri(1, 2, 0), tri(3, 1, 2)]),
    'tq': (FLAT, [tri(0, 1, 3), (1, 2, 5, 4), tri(3, 1, 4), (3, 4, 7, 6), tri(4, 5, 8), tri(8, 7, 4)]),
    'qt': (FLAT, [(3, 4, 7, 6), (1, 2, 5, 4), tri(8, 7, 4), tri(4, 5, 8), tri(0, 1, 3), tri(3, 1, 4)]),
    'qtq': (FLAT, [(8, 7, 4, 5), tri(0, 1, 4), (3, 4, 7, 6), tri(4, 3, 0)]),
    'unused': (FLAT, [tri(8, 4, 5), (3, 4, 7, 6)]),
    'wedge': geom.wedge(), 'pyramid': geom.pyramid(), 'hull': geom.hull(), 'box': geom.box(0, 2, 0, 3, 0, 1), 'tetra': geom.tetra(),
    'inward': (geom.hull()[0], geom.flipped(geom.hull()[1])), 'tq rolled 1': None, 'tq rolled 2': None, 'cavity': geom.cavity(),
}
for _k in (1, 2):
    SHAPES['tq rolled %d' % _k] = geom.rolled(SHAPES['tq'], _k)
third, seven = 1 / 3., 1 / 7.
COORDS = {
    'plain': lambda v: v,
    'fractions': lambda v: v * [third, -seven, 1.1] + [0.1, third, -1e-3],
    'large': lambda v: v * [-123456.789, 654321.123456, 1e6] + [1e5, -7, 98765.4321],
    'small': lambda v: v * [0.0123456789, 0.02, 0.0345678] - [0.001, 0.5, 1e-5],
    'negative': lambda v: -v * 1.7 - [123.456, 0.012345, 1e3],
    'mixed': lambda v: v * [1e-2, 1, 1e4] + [1e-9, -1e-7, 5e5],
}
QUICK_CHAINS = ['hull', 'qtq', 'onetri']


def cases(tier):
    for s in SHAPES:
        for c in COORDS:
            for f in io.RW:
                yield dict(kind='single', shape=s, coords=c, fmt=f)
    chains = QUICK_CHAINS if tier == 'quick' else list(SHAPES)
    coords = ['fractions', 'negative'] if tier == 'quick' else list(COORDS)
    for s in chains:
        for c in coords:
            for f in io.RW:
                if tier == 'quick':
                    yield dict(kind='chain', shape=s, coords=c, first=[f], depth=3 if (s, c) == ('qtq', 'fractions') else 2)
                else:
                    for g in io.RW:
                        yield dict(kind='chain', shape=s, coords=c, first=[f, g], depth=4 if (s, c) == ('qtq', 'fractions') else 3)
    for a in io.ALIASES:
        for s in ('qtq', 'wedge'):
            yield dict(kind='alias', shape=s, coords='fractions', alias=a)
    for f in io.RW:
        yield dict(kind='overwrite', fmt=f)
        yield dict(kind='arrays', fmt=f)
        for t in (0, 1, 2, 3, 5):
            yield dict(kind='sizes', fmt=f, tris=t)
        for a in (0, .37, -4.2):
            yield dict(kind='magnitudes', fmt=f, offset=a)
        yield dict(kind='big', fmt=f, n=320 if tier == 'quick' else 720)


def data(case):
    V, F = geom.arrays(SHAPES[case['shape']])
    return np.array(COORDS[case['coords']](V)) + 0., F


def step(V, F, err, fmt, name, rec):
    """one conversion: returns the loaded mesh (the state of the chain)"""
    V0, F0 = V.copy(), F.copy()
    io.write(name, V, F, fmt)
    require(np.array_equal(V, V0) and np.array_equal(F, F0) and V.dtype == V0.dtype and F.dtype == F0.dtype,
            'writing %s modified the arrays of the mesh' % fmt)
    path = io.path_of(name, fmt)
    require(os.path.exists(path), 'writing %s did not create %s' % (fmt, os.path.basename(path)))
    V1, F1 = io.load(path, fmt)
    io.compare(fmt, V, F, V1, F1)
    rec.count('transitions')
    return V1, F1


def chain(V, F, prefix, first, depth, rec, check_origin):
    rec.count('states')
    rec.count('traces')
    if len(prefix) >= depth:
        return
    fmts = [first[len(prefix)]] if len(prefix) < len(first) else io.RW
    for f in fmts:
        try:
            V1, F1 = step(V, F, None, f, 'chain.' + f, rec)
        except Violation as err:
            raise Violation('after conversions through %s: %s' % (prefix, err))
        if check_origin:
            check_origin(prefix + [f], V1, F1)
        chain(V1, F1, prefix + [f], first, depth, rec, check_origin)


def origin_check(V0, F0):
    """area vectors and areas of the whole surface are kept along the chain, to the sum of the precisions"""
    m0 = geom.np_surface_moments(V0, F0)
    scale = np.abs(V0).max() + 1

    def check(prefix, V, F):
        m = geom.np_surface_moments(V, F)
        tol = 2e-4 * scale ** 2 * len(F0)
        a, b = np.asarray(m0[0], float), np.asarray(m[0], float)
        require(np.allclose(a, b, rtol=0, atol=tol), 'area of the surface is %r instead of %r after conversions %s' % (m[0], m0[0], prefix))
    return check


def grid(n):
    x, y = np.meshgrid(np.arange(n + 1), np.arange(n + 1), indexing='ij')
    V = np.stack([x.ravel() * 0.5, y.ravel() * -0.25, (x * y % 7).ravel()], axis=1).astype(float)
    i, j = (a.ravel() for a in np.meshgrid(np.arange(n), np.arange(n), indexing='ij'))
    a = i * (n + 1) + j
    q = np.stack([a, a + 1, a + n + 2, a + n + 1], axis=1)
    F = []
    for k, f in enumerate(q.tolist()):
        F.extend([f] if k % 2 == 0 else [[f[0], f[1], f[2], f[0]]])
    return V, np.array(F, dtype=int)


def evaluate(case, rec):
    kind = case['kind']
    if kind == 'single':
        V, F = data(case)
        tris = F[:, 0] == F[:, 3]
        if tris.any() and not tris.all():
            rec.hit()
        step(V, F, None, case['fmt'], 'single.' + case['fmt'], rec)
        rec.count('traces')
        rec.count('states', 2)
        rec.outcome('single ' + case['fmt'])
    elif kind == 'chain':
        V, F = data(case)
        rec.hit()
        chain(V, F, [], case['first'], case['depth'], rec, origin_check(V, F))
        rec.outcome('chains from %s' % case['first'][0])
    elif kind == 'alias':
        V, F = data(case)
        a = case['alias']
        e = io.ALIASES[a]
        for w, r in ((a, e), (e, a), (a, a)):
            io.write('alias.' + e, V, F, w)
            V1, F1 = io.load(io.path_of('alias.' + e, e), r)
            io.compare(e, V, F, V1, F1)
            rec.count('transitions')
        rec.count('traces')
        rec.count('states', 2)
        rec.outcome('alias ' + a)
    elif kind == 'overwrite':
        f = case['fmt']
        meshes = [geom.arrays(SHAPES[s]) for s in ('hull', 'onetri', 'qt', 'onequad', 'tetra', 'hull')]
        for V, F in meshes:
            step(V, F, None, f, 'same.' + f, rec)
        # files are independent
        for k, (V, F) in enumerate(meshes):
            io.write('m%d.%s' % (k, f), V, F, f)
        for k in (3, 0, 5, 1, 4, 2):
            V1, F1 = io.load(io.path_of('m%d.%s' % (k, f), f), f)
            io.compare(f, meshes[k][0], meshes[k][1], V1, F1)
        # names and directories
        os.makedirs('some dir/with.dots-2', exist_ok=True)
        V, F = meshes[2]
        for name in ('some dir/with.dots-2/a b.1', 'some dir/T3C000', 'NODE', 'é'):
            step(V, F, None, f, name + '.' + f, rec)
        rec.count('states', len(meshes))
        rec.count('traces', 3)
        rec.hit()
        rec.outcome('overwrite ' + f)
    elif kind == 'arrays':
        f = case['fmt']
        V, F = geom.arrays(SHAPES['qtq'])
        V = V * 1.25 - 0.3
        for i, (a, b) in enumerate((
                (np.asfortranarray(V), np.asfortranarray(F)), (V[:, ::-1][:, ::-1], F.astype(np.int32)),
                (np.repeat(V, 2, axis=0)[::2], np.repeat(F, 2, axis=0)[::2]))):
            step(a, b, None, f, 'arrays%d.%s' % (i, f), rec)
            rec.count('states')
            rec.count('traces')
        rec.hit()
        rec.outcome('arrays ' + f)
    elif kind == 'sizes':
        f, t = case['fmt'], case['tris']
        for n in geom.SIZES:
            V, F = geom.arrays(geom.tube(n, t) if t != 1 or n % 2 else geom.strip(n))
            V = V * [1.013, -0.77, 1.3] + [0.03 * n, 5.5, -n % 17]
            if n % 3 == 1:
                F = F[::-1]
            try:
                step(V, F, None, f, 'size.' + f, rec)
            except Violation as err:
                raise Violation('%d vertices, %d faces: %s' % (len(V), len(F), err))
            rec.count('states')
            rec.count('traces')
        rec.hit()
        rec.outcome('sizes ' + f)
    elif kind == 'magnitudes':
        f = case['fmt']
        V0, F = geom.arrays((MAG, [(0, 1, 2, 3), (0, 1, 4, 0), (2, 4, 3, 2)]))
        for k in range(-25, 9):
            for s in (1, -1):
                for scale in ((1, 1, 1), (1, 1e-3, 1), (1e-2, 1, 1.23456789)):
                    V = (V0 - case['offset']) * s * 10. ** k * scale
                    if np.abs(V).max() >= (1e7 if f == 'mar' else 1e9):
                        continue
                    if f == 'stl' and min(np.abs(p - q).max() for i, p in enumerate(V) for q in V[:i]) < 1e-7:
                        continue        # merged
                    try:
                        step(V, F, None, f, 'mag.' + f, rec)
                    except Violation as err:
                        raise Violation('coordinates x %d x 1e%d: %s' % (s, k, err))
                    rec.count('states')
                    rec.count('traces')
        rec.hit()
        rec.outcome('magnitudes ' + f)
    else:
        f = case['fmt']
        V, F = grid(case['n'])
        rec.hit()
        step(V, F, None, f, 'big.' + f, rec)
        os.remove(io.path_of('big.' + f, f))
        rec.count('traces')
        rec.count('states', 2)
        rec.outcome('big ' + f)
