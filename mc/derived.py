"""Everything a mesh reports about itself, in comparable form, and the alphabet of operations on meshes."""
import copy
import math

import numpy as np

from . import geom


class Raised(object):
    def __init__(self, err):
        self.err = err

    def __eq__(self, other):
        return isinstance(other, Raised) and type(self.err) is type(other.err)

    def __repr__(self):
        return 'raises %s(%s)' % (type(self.err).__name__, self.err)


def attempt(fn):
    try:
        return fn()
    except Exception as err:
        return Raised(err)


def _adj(d):
    return {int(k): frozenset(int(x) for x in v) for k, v in d.items()}


def _edges(boundaries):
    out = []
    for b in boundaries:
        b = [int(x) for x in b]
        out += [(min(p, q), max(p, q)) for p, q in zip(b[:-1], b[1:])]
    return tuple(sorted(out))


def _inertia(i):
    return np.concatenate([[i.mass], np.asarray(i.gravity_center, float).ravel(), np.asarray(i.inertia_matrix).ravel(),
                           np.asarray(i.reduction_point, float).ravel(), [i.xx, i.yy, i.zz, i.xy, i.xz, i.yz]])


QUERIES = [
    ('faces_areas', lambda m: np.array(m.faces_areas)),
    ('faces_normals', lambda m: np.array(m.faces_normals)),
    ('faces_centers', lambda m: np.array(m.faces_centers)),
    ('triangles_ids', lambda m: tuple(int(i) for i in m.triangles_ids)),
    ('quadrangles_ids', lambda m: tuple(int(i) for i in m.quadrangles_ids)),
    ('nb_triangles', lambda m: int(m.nb_triangles)),
    ('nb_quadrangles', lambda m: int(m.nb_quadrangles)),
    ('nb_vertices', lambda m: int(m.nb_vertices)),
    ('nb_faces', lambda m: int(m.nb_faces)),
    ('surface_integrals', lambda m: np.array(m.get_surface_integrals())),
    ('volume', lambda m: np.array(m.volume)),
    ('plain inertia', lambda m: _inertia(m.eval_plain_mesh_inertias(rho_medium=3.))),
    ('shell inertia', lambda m: _inertia(m.eval_shell_mesh_inertias(rho_medium=5., thickness=0.5))),
    ('vv', lambda m: _adj(m.vv)),
    ('vf', lambda m: _adj(m.vf)),
    ('ff', lambda m: _adj(m.ff)),
    ('boundary edges', lambda m: _edges(m.boundaries)),
    ('is_mesh_closed', lambda m: bool(m.is_mesh_closed())),
    ('nb_boundaries>0', lambda m: bool(m.nb_boundaries > 0)),
    ('axis_aligned_bbox', lambda m: np.array(m.axis_aligned_bbox)),
    ('squared_axis_aligned_bbox', lambda m: np.array(m.squared_axis_aligned_bbox)),
    ('edge lengths', lambda m: np.array([m.min_edge_length, m.max_edge_length, m.mean_edge_length])),
]


def null_faces(m):
    """ids of the faces whose area is null (computed here): their normal is undefined, and so is what depends on it"""
    V, F = np.asarray(m.vertices, float), np.asarray(m.faces, int)
    if not len(F):
        return np.zeros(0, dtype=bool)
    with np.errstate(all='ignore'):
        a = [np.linalg.norm(np.cross(V[F[:, i]] - V[F[:, 0]], V[F[:, i + 1]] - V[F[:, 0]]), axis=1) for i in (1, 2)]
        area = a[0] + np.where(F[:, 0] == F[:, 3], 0., a[1])
        return area <= 1e-9 * max(np.max(area), 1e-300)


def report(m):
    null = null_faces(m)
    out = []
    for n, q in QUERIES:
        r = attempt(lambda: q(m))
        if np.any(null) and not isinstance(r, Raised):
            if n == 'faces_normals' and len(r) == len(null):
                r[null] = 0.
            elif n == 'faces_centers' and len(r) == len(null):
                r[null] = 0.
            elif n in ('volume', 'plain inertia'):
                r = None
        out.append((n, r))
    return out


def same(a, b, rtol=1e-8, atol=1e-8):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        nan = np.isnan(a) & np.isnan(b)
        inf = (a == b)
        with np.errstate(all='ignore'):
            scale = np.nanmax(np.abs(np.where(np.isfinite(a), a, 0.)), initial=0.)
            ok = np.abs(a - b) <= atol + rtol * (np.maximum(np.abs(a), np.abs(b)) + scale)
        return bool(np.all(ok | nan | inf))
    return a == b


def differences(ra, rb):
    out = []
    for (n, a), (_, b) in zip(ra, rb):
        if not same(a, b):
            out.append('%s: %s, expected %s' % (n, short(a), short(b)))
    return out


def short(x):
    s = repr(x).replace('\n', '')
    return s if len(s) < 400 else s[:400] + '...'


def state_hash(m):
    """Hash of every attribute of the mesh (whatever its implementation), rounded; names and ids excluded"""
    h = []

    def feed(x):
        if isinstance(x, np.ndarray):
            if x.dtype.kind == 'f':
                x = np.round(x, 7) + 0.
            h.append((x.shape, x.dtype.kind, x.tobytes()))
        elif isinstance(x, (float, np.floating)):
            h.append(round(float(x), 7) + 0.)
        elif isinstance(x, (int, str, bool, type(None), np.integer, np.bool_)):
            h.append(x if not isinstance(x, np.generic) else x.item())
        elif isinstance(x, dict):
            h.append(('d', len(x)))
            for k in sorted(x, key=repr):
                h.append(repr(k))
                feed(x[k])
        elif isinstance(x, (set, frozenset)):
            h.append(tuple(sorted(repr(e) for e in x)))
        elif isinstance(x, (list, tuple)):
            h.append(('l', len(x)))
            for e in x:
                feed(e)
        else:
            d = getattr(x, '__dict__', None)
            h.append(type(x).__name__)
            if d:
                feed(d)
            else:
                h.append(repr(x))
    d = dict(vars(m))
    for k in ('_id', '_name', 'name', 'id'):
        d.pop(k, None)
    feed(d)
    return hash(tuple(h))


# ---------------------------------------------------------------------------------------------------------------
def _plane(n, c):
    from meshmagick.mesh import Plane
    return Plane(normal=n, scalar=c)


def _set_vertices(m):
    m.vertices = m.vertices * np.array([1., 2., 1.]) + 0.25


def _set_faces(m):
    # Another start vertex for quadrangles, opposite orientation for everything
    f = np.array(m.faces)
    m.faces = f[::-1, ::-1]


QOPS = {
    'q:areas': lambda m: m.faces_areas,
    'q:ids': lambda m: m.triangles_ids,
    'q:connectivity': lambda m: m.boundaries,
    'q:integrals': lambda m: m.get_surface_integrals(),
    'q:volume': lambda m: m.volume,
}

ROTMAT = np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.], [0.48, 0.64, 0.6]])

MOPS = {
    'translate': lambda m: m.translate([1., -2., 0.5]),
    'translate_x': lambda m: m.translate_x(1.5),
    'translate_y': lambda m: m.translate_y(-2.5),
    'translate_z': lambda m: m.translate_z(0.75),
    'rotate': lambda m: m.rotate([0.3, -0.4, 0.7]),
    'rotate_x': lambda m: m.rotate_x(math.pi / 2),
    'rotate_y': lambda m: m.rotate_y(0.5),
    'rotate_z': lambda m: m.rotate_z(-1.),
    'rotate_matrix': lambda m: m.rotate_matrix(ROTMAT),
    'scale': lambda m: m.scale(2.),
    'scalex': lambda m: m.scalex(0.5),
    'scaley': lambda m: m.scaley(3.),
    'scalez': lambda m: m.scalez(1.5),
    'flip_normals': lambda m: m.flip_normals(),
    'mirror': lambda m: m.mirror(_plane((1., 2., -2.), 0.5)),
    'symmetrize': lambda m: m.symmetrize(_plane((0., 1., 0.), -0.5)),
    'merge_duplicates': lambda m: m.merge_duplicates(),
    'merge_coarse': lambda m: m.merge_duplicates(atol=0.05),
    'remove_unused_vertices': lambda m: m.remove_unused_vertices(),
    'remove_degenerated_faces': lambda m: m.remove_degenerated_faces(),
    'remove_small_faces': lambda m: m.remove_degenerated_faces(rtol=0.5),
    'heal_triangles': lambda m: m.heal_triangles(),
    'heal_normals': lambda m: m.heal_normals(),
    'heal_mesh': lambda m: m.heal_mesh(),
    'triangulate_quadrangles': lambda m: m.triangulate_quadrangles(),
    'set_vertices': _set_vertices,
    'set_faces': _set_faces,
}


def spoiled():
    """mixed mesh with an unused vertex, duplicated vertices, a null area face, a badly described triangle and a
    reversed face"""
    v, f = geom.wedge()
    v = list(v) + [(9, 9, 9), (0, 0, 0), (4, 0, 0), (2, 0, 0)]
    f = [list(q) for q in f]
    # faces: 0 tri(0,1,2) 1 tri(3,5,4) 2 (0,2,5,3) 3 (1,4,5,2) 4 (0,3,4,1)
    f[0] = [0, 1, 2, 2]
    f[3] = [1, 4, 8, 7]
    f[4] = [1, 4, 3, 0]
    f.insert(2, [2, 9, 5, 2])
    return v, [tuple(q) for q in f]


def roots():
    w = geom.wedge()
    return {
        'wedge': w,
        'open wedge': (w[0], w[1][:-1]),
        'tetra': geom.tetra(),
        'box': geom.box(0, 2, 0, 3, 0, 1),
        'spoiled': spoiled(),
        'box+tetra': geom.union(geom.box(0, 2, 0, 3, -1, 1), geom.shift(geom.tetra(), (5, 0, 0))),
        'patch': ([(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 1), (0, 2, 0)],
                  [(0, 1, 4, 3), geom.tri(1, 2, 4), geom.tri(4, 2, 5), geom.tri(3, 4, 6)]),
    }


def clone(m):
    return copy.deepcopy(m)
