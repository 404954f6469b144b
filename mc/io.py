"""Common parts of the checks of mesh files."""
import os

import numpy as np

from mc.core import Violation, quiet, require

RW = ['mar', 'nem', 'gdf', 'dat', 'hst', 'nat', 'stl', 'vtu', 'vtp', 'vtk', 'tec', 'obj', 'pnl']
ALIASES = {'nemoh': 'mar', 'wamit': 'gdf', 'diodore-dat': 'dat', 'hydrostar': 'hst', 'natural': 'nat', 'paraview-legacy': 'vtk',
           'tecplot': 'tec', 'nemoh_mesh': 'nem', 'hams': 'pnl'}
# decimals: absolute error, relative error on coordinates (rounding of the text, single precision of VTK readers)
PREC = dict(mar=(6e-7, 0), nem=(6e-7, 0), gdf=(1e-30, 6e-7), dat=(1e-30, 6e-6), hst=(1e-30, 6e-7), nat=(1e-30, 6e-7),
            stl=(1e-30, 8e-7), vtu=(1e-30, 2e-7), vtp=(1e-30, 2e-7), vtk=(6e-7, 2e-7), tec=(1e-30, 6e-7), obj=(6e-7, 2e-7),
            pnl=(6e-7, 0))
MERGE = 2e-8   # STL points closer than the merging tolerance are the same


def tolerance(fmt, v):
    a, r = PREC[ALIASES.get(fmt, fmt)]
    return a + r * np.abs(v) + (MERGE if fmt == 'stl' else 0.)


def path_of(name, fmt):
    """File in which a mesh is written (Diodore files have an upper case extension)"""
    if ALIASES.get(fmt, fmt) == 'dat':
        root, ext = os.path.splitext(name)
        return root + ext.upper()
    return name


def write(name, V, F, fmt):
    from meshmagick import mmio
    with quiet():
        mmio.write_mesh(name, V, F, fmt)


def load(name, fmt):
    from meshmagick import mmio
    with quiet():
        V, F = mmio.load_mesh(name, fmt)
    require(isinstance(V, np.ndarray) and isinstance(F, np.ndarray), 'vertices and faces loaded from %s are not arrays' % fmt)
    require(V.ndim == 2 and V.shape[1] == 3 and V.dtype.kind == 'f', 'vertices loaded from %s are not an array of points: %s %s'
            % (fmt, V.shape, V.dtype))
    require(F.ndim == 2 and F.shape[1] == 4 and F.dtype.kind in 'iu', 'faces loaded from %s are not an array of 4 ids: %s %s'
            % (fmt, F.shape, F.dtype))
    require(F.size == 0 or (F.min() >= 0 and F.max() < len(V)), 'faces loaded from %s point at vertices that do not exist' % fmt)
    return V, F


def ring(face):
    """oriented cycle of a face, whatever its first vertex; the internal convention is required for triangles"""
    p = tuple(int(i) for i in (face[:3] if face[0] == face[3] else face))
    k = p.index(min(p))
    return p[k:] + p[:k]


def rings(F):
    return [ring(f) for f in F]


def labels(V, ref, tol):
    """id, in ref, of every point of V (nearest), checking it is within the tolerance"""
    from scipy.spatial import cKDTree
    # scaled so that the tolerance is isotropic enough: search, then check
    d, i = cKDTree(ref).query(V)
    bad = np.nonzero((np.abs(V - ref[i]) > tol[i]).any(axis=1))[0]
    if len(bad):
        k = bad[0]
        raise Violation('vertex %r read back is none of the written ones (nearest %r)' % (V[k].tolist(), ref[i[k]].tolist()))
    return i


def unique_ids(V):
    """labels merging exactly coincident points of the reference"""
    seen, out = {}, []
    for k, p in enumerate(V.tolist()):
        out.append(seen.setdefault(tuple(x + 0. for x in p), k))
    return np.array(out)


def split_ok(quad, tris):
    """multiset tris (dict ring -> count): removes two triangles covering quad, whichever diagonal"""
    a, b, c, d = quad
    for t1, t2 in (((a, b, c), (a, c, d)), ((b, c, d), (b, d, a))):
        t1, t2 = ring(t1 + t1[:1]), ring(t2 + t2[:1])
        if tris.get(t1, 0) and tris.get(t2, 0):
            return t1, t2
    return None


def compare(fmt, V0, F0, V1, F1, err=None):
    """The mesh (V1, F1) read from a file of format fmt is (V0, F0), known with the errors err (absolute, per coordinate)"""
    what = 'mesh read back from %s: ' % fmt
    base = ALIASES.get(fmt, fmt)
    tol = tolerance(base, V0) + (0. if err is None else err)
    u0 = unique_ids(V0)
    soup = base in ('stl', 'gdf')
    if soup:
        lab = u0[labels(V1, V0, tol)] if len(V1) else np.zeros(0, int)
    else:
        require(V1.shape == V0.shape, what + '%d vertices instead of %d' % (len(V1), len(V0)))
        bad = np.nonzero((np.abs(V1 - V0) > tol).any(axis=1))[0]
        if len(bad):
            k = bad[0]
            raise Violation(what + 'vertex %d is %r instead of %r' % (k, V1[k].tolist(), V0[k].tolist()))
        lab = u0
    for k, f in enumerate(F1):
        require(f[0] == f[3] or len(set(f.tolist())) == 4, what + 'face %d %r is neither a quadrangle nor a triangle with the first '
                'index equal to the last' % (k, f.tolist()))
    g0 = rings(u0[F0])
    # triangles of soups are known by their coincident points
    L1 = lab[F1]
    if base == 'gdf':
        L1 = np.array([(f if f[0] == f[3] or len(set(f.tolist())) == 4 else f) for f in L1]).reshape(-1, 4)
    g1 = rings(L1)
    if base == 'stl':
        tris = {}
        for t in g1:
            require(len(t) == 3, what + 'a face is not a triangle')
            tris[t] = tris.get(t, 0) + 1
        for g in g0:
            if len(g) == 3:
                require(tris.get(g, 0) > 0, lambda: what + 'triangle %r is missing (or has another orientation)' % V0[list(g)].tolist())
                tris[g] -= 1
            else:
                s = split_ok(g, tris)
                require(s is not None, lambda: what + 'quadrangle %r is not covered by two triangles' % V0[list(g)].tolist())
                tris[s[0]] -= 1
                tris[s[1]] -= 1
        left = [t for t, n in tris.items() if n]
        require(not left, lambda: what + 'additional triangle %r' % V0[list(left[0])].tolist())
        return
    require(len(g1) == len(g0), what + '%d faces instead of %d' % (len(g1), len(g0)))
    if base == 'dat':
        require(sorted(g1) == sorted(g0), what + 'faces differ: %r instead of %r' % (sorted(g1)[:6], sorted(g0)[:6]))
        return
    for k, (a, b) in enumerate(zip(g0, g1)):
        require(a == b, lambda: what + 'face %d is %r instead of %r' % (k, b, a))
