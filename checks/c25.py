"""C25: merging duplicate rows."""
import itertools

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (first points, tolerance); all tuples of points of a coordinate alphabet mixing identical, within tolerance and '
        'distinct values per coordinate are merged; or all tuples of chains of points, or a number of points (every one up to 70, then up to 65537); non trivial: at least '
        'one tuple of the case with two points in the same cluster and two in different ones')
ASSUMPTIONS = ['points of a cluster are within the tolerance of each other in each coordinate, points of different clusters differ by '
               'much more than the tolerance in at least one coordinate; for chains, only what holds for any points is required']
CHUNK = 4

# values in units of the tolerance: 0 and 0.4 are the same coordinate, -50 and 1e3 are others
VALS = [0., 0.4, -50.]


def alphabet(dims):
    return list(itertools.product(VALS, repeat=dims))


def cases(tier):
    out = []
    n3 = len(alphabet(3))
    for tol in (1e-8, 1e-5, 0.5):
        for a in range(n3):
            out.append(dict(dims=3, size=3, first=[a], tol=tol, offset=0.))
            if tol == 0.5:
                out.append(dict(dims=3, size=3, first=[a], tol=tol, offset=-30.))
            if tol == 1e-5:
                out.append(dict(dims=3, size=3, first=[a], tol=tol, offset=1e9))
                out.append(dict(dims=3, size=3, first=[a], tol=tol, offset=-1e9))
    for a in range(len(alphabet(2))):
        for b in range(len(alphabet(2))):
            out.append(dict(dims=2, size=4, first=[a, b], tol=1e-3, offset=0.))
            if tier == 'thorough':
                out.append(dict(dims=2, size=5, first=[a, b], tol=1e-3, offset=0.))
    if tier == 'thorough':
        for a in range(n3):
            for b in range(n3):
                out.append(dict(dims=3, size=4, first=[a, b], tol=1e-5, offset=0.))
    for a in range(6):
        for b in range(6):
            out.append(dict(dims=1, size=5, first=[a, b], tol=1e-8, offset=0.))
    for pat in range(64):
        out.append(dict(mesh=pat))
    for e in ('default', 'lists', 'empty'):
        out.append(dict(edge=e))
    for n in geom.SIZES:
        out.append(dict(size=n))
    for n in [1000, 1024, 4096, 20000] + ([32767, 32769, 65536, 65537, 100001] if tier == 'thorough' else [65537]):
        out.append(dict(size=n))
    for a in range(len(CHAIN)):
        for b in range(len(CHAIN)):
            for dims in (1, 2, 3):
                out.append(dict(chain=[a, b], dims=dims))
    return out


# points forming chains (units of the tolerance)
CHAIN = [0., 0.3, 0.8, 1.2, 1.7, 2.4]


def chain_case(case, rec):
    """whatever the points: identical rows are merged, merged points are within the tolerance of each other, index and rows agree"""
    from meshmagick.tools import merge_duplicate_rows
    tol = 1e-3
    dims = case['dims']
    al = CHAIN if dims == 1 else CHAIN[:5:2] if dims == 3 else CHAIN[::2]
    for rest in itertools.product(itertools.product(al, repeat=dims), repeat=4 if dims == 1 else 2):
        x = [CHAIN[case['chain'][0]], CHAIN[case['chain'][1]]]
        P = np.array([[x[0]] * dims, (x + x)[:dims]] + [list(r) for r in rest]) * tol
        rows_case(P, tol, lambda: 'points %s, tolerance %g' % (P.tolist(), tol))
        rec.count('evaluations')
    for n in (3, 10, 40):
        P = np.zeros((n, dims))
        P[:, -1] = np.arange(n) * (x[0] + x[1] + .1) * tol / 3
        if dims > 1:
            P[:, 0] = (np.arange(n) % 3) * x[0] * tol
        rows_case(P, tol, lambda: 'chain of %d points %s, tolerance %g' % (n, P[:3].tolist(), tol))
        rec.count('evaluations')
    rec.hit()
    rec.outcome('chain')


def rows_case(P, tol, what):
    from meshmagick.tools import merge_duplicate_rows
    n = len(P)
    arg = P.copy()
    uniq, new = merge_duplicate_rows(arg, atol=tol, return_index=True)
    uniq, new = np.asarray(uniq), np.asarray(new)
    require(np.array_equal(arg, P), lambda: what() + ': the array given is modified')
    require(new.shape == (n,) and new.min() >= 0 and new.max() < len(uniq), lambda: what() + ': index %s' % new)
    require(set(new.tolist()) == set(range(len(uniq))), lambda: what() + ': rows that no point is merged to')
    lo, hi = np.full(uniq.shape, np.inf), np.full(uniq.shape, -np.inf)
    np.minimum.at(lo, new, P)
    np.maximum.at(hi, new, P)
    require((hi - lo).max() <= tol * (1 + 1e-9), lambda: what() + ': points distant of %g are merged' % (hi - lo).max())
    require(np.abs(uniq[new] - P).max() <= tol * (1 + 1e-9), lambda: what() + ': a point moved by %g' % np.abs(uniq[new] - P).max())
    ident = {}
    for k, p in enumerate(P.tolist()):
        j = ident.setdefault(tuple(p), k)
        require(new[j] == new[k], lambda: what() + ': identical rows %d and %d are not merged' % (j, k))
    return uniq, new


def size_case(case, rec):
    n = case['size']
    for dup in (0, 1, 2, 7):
        # distinct points in every dimension, some coordinates equal, then duplicates of one point in dup
        k = np.arange(n)
        P = np.stack([k % 7, (k // 7) % 11, k // 77 + 0.5 * (k % 3)], axis=1).astype(float)
        if dup:
            k = np.concatenate([k, k[::dup], k[:n // 2:dup]])
            P = P[k]
            order = (np.arange(len(P)) * 7919 + 13) % len(P) if np.gcd(7919, len(P)) == 1 else np.arange(len(P))[::-1]
            P, k = P[order], k[order]
        uniq, new = rows_case(P, 1e-8, lambda: '%d points, one in %d duplicated' % (n, dup))
        require(len(uniq) == n, lambda: '%d points, one in %d duplicated: %d points remain' % (n, dup, len(uniq)))
        if not dup:
            require(np.array_equal(uniq, P) and np.array_equal(new, np.arange(n)), lambda: '%d distinct points: reordered' % n)
        rec.count('evaluations')
    rec.hit()
    rec.outcome('size')


V1 = [(0.,), (0.4,), (0.8,), (-50.,), (-49.5,), (1e3,)]


def same_cluster(p, q):
    return all(abs(a - b) <= 1 for a, b in zip(p, q))


def check(points, tol, what, scale=1.):
    from meshmagick.tools import merge_duplicate_rows
    P = np.array(points, float) * scale
    n = len(P)
    # clusters
    cl = []
    for p in points:
        for k, c in enumerate(cl):
            if same_cluster(c[0], p):
                break
        else:
            k = len(cl)
            cl.append([])
        cl[k].append(p)
    label = [next(k for k, c in enumerate(cl) if same_cluster(c[0], p)) for p in points]
    arg = P.copy()
    uniq, new = merge_duplicate_rows(arg, atol=tol, return_index=True)
    uniq, new = np.asarray(uniq), np.asarray(new)
    require(np.array_equal(arg, P), lambda: what + ': the array given is modified')
    require(len(uniq) == len(cl), lambda: what + ': %d points remain instead of %d:\n%s' % (len(uniq), len(cl), uniq))
    require(new.shape == (n,) and new.min() >= 0 and new.max() < len(uniq), lambda: what + ': index %s' % new)
    d = np.abs(uniq[new] - P).max()
    require(d <= tol * (1 + 1e-5) + 1e-15, lambda: what + ': a point moved by %g' % d)
    for i in range(n):
        for j in range(i):
            require((new[i] == new[j]) == (label[i] == label[j]),
                    lambda: what + ': points %d and %d: %s' % (i, j, new))
    if len(cl) == n:
        require(np.array_equal(uniq, P) and np.array_equal(new, np.arange(n)), lambda: what + ': nothing to merge but rows reordered')
    only = np.asarray(merge_duplicate_rows(arg, atol=tol))
    require(np.array_equal(only, uniq), lambda: what + ': result without index differs')
    u2, n2 = merge_duplicate_rows(uniq.copy(), atol=tol, return_index=True)
    require(np.array_equal(u2, uniq) and np.array_equal(n2, np.arange(len(uniq))), lambda: what + ': merging again changes the points')
    return len(cl)


def mesh_case(case, rec):
    """vertices of a mesh duplicated for some faces"""
    shape = geom.wedge()
    v, f = shape
    for eps in (0., 3e-9, 4e-4):
        nv, nf = list(map(lambda p: tuple(map(float, p)), v)), []
        for i, q in enumerate(f):
            if (case['mesh'] >> i) & 1:
                ids = {}
                for a in q:
                    if a not in ids:
                        ids[a] = len(nv)
                        nv.insert(len(nv), tuple(c + eps for c in v[a]))
                nf.append(tuple(ids[a] for a in q))
            else:
                nf.append(q)
        m = geom.mesh((nv, nf))
        V, F = m.vertices.copy(), m.faces.copy()
        atol = 1e-8 if eps < 1e-6 else 1e-3
        ids = m.merge_duplicates(atol=atol, return_index=True) if atol != 1e-8 else m.merge_duplicates(return_index=True)
        what = 'wedge, faces %s with their own vertices (%g)' % (bin(case['mesh']), eps)
        nu = len(v) if True else 0
        require(m.nb_vertices == nu, lambda: what + ': %d vertices' % m.nb_vertices)
        require(np.array_equal(m.faces, np.asarray(ids)[F]), lambda: what + ': faces do not follow the index returned')
        require(np.abs(m.vertices[m.faces] - V[F]).max() <= atol, lambda: what + ': faces moved')
        require(geom.is_closed(m.faces), lambda: what + ': not welded')
        rec.count('evaluations')
        if eps:
            m2 = geom.mesh((nv, nf))
            m2.merge_duplicates(atol=eps / 10)
            exp = len({tuple(np.round(p, 10)) for p in V})
            require(m2.nb_vertices == exp, lambda: what + ': %d vertices instead of %d with a small tolerance' % (m2.nb_vertices, exp))
    rec.hit()
    rec.outcome('mesh')


def edge_case(case, rec):
    """default tolerance, array-like inputs, no points, kinds of result"""
    from meshmagick.tools import merge_duplicate_rows
    rec.count('evaluations')
    rec.hit()
    rec.outcome(case['edge'])
    if case['edge'] == 'default':
        for base in (0., 1., -3., 0.015625):
            for col in range(3):
                for d, same in ((0., 1), (1e-9, 1), (5e-9, 1), (9e-9, 1), (1.2e-8, 0), (1.5e-8, 0), (3e-8, 0), (1e-6, 0)):
                    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
                        P = np.full((3, 3), base)
                        P[1, col] += d
                        P[2] += 5.
                        P = P[list(order)]
                        uniq, new = merge_duplicate_rows(P, return_index=True)
                        require(len(uniq) == (2 if same else 3), lambda: 'points %s: %d remain with the default tolerance' % (P.tolist(), len(uniq)))
                        m = geom.mesh(([tuple(map(float, p)) for p in P] + [(base, 9., 9.)], [(0, 1, 2, 0), (1, 2, 3, 1)]))
                        ids = m.merge_duplicates(return_index=True)
                        require(m.nb_vertices == (3 if same else 4), lambda: 'vertices %s: %d remain' % (P.tolist(), m.nb_vertices))
                        require(np.asarray(ids).shape == (4,), lambda: 'index %s' % (ids,))
                        rec.count('evaluations')
    elif case['edge'] == 'lists':
        P = [[0., 0., 1.], [2., 0., 1.], [0., 0., 1.], [5., 0., 0.]]
        for arg in (P, tuple(map(tuple, P)), np.asfortranarray(P), np.array(P)[:, ::-1][:, ::-1], np.array(P, int)):
            got = merge_duplicate_rows(arg)
            require(isinstance(got, np.ndarray) and got.shape == (3, 3), lambda: 'result without index: %s' % (got,))
            uniq, new = merge_duplicate_rows(arg, return_index=True)
            require(np.array_equal(uniq, got), lambda: 'rows %s then %s' % (got, uniq))
            require(np.abs(np.asarray(uniq)[new] - np.asarray(P)).max() < 1e-12, lambda: '%s, index %s' % (uniq, new))
            got = merge_duplicate_rows(P[1:], return_index=False)
            require(isinstance(got, np.ndarray) and got.tolist() == P[1:], lambda: 'nothing to merge, without index: %s' % (got,))
    else:
        for shape in ((0, 3), (0, 2), (1, 3), (1, 1)):
            P = np.zeros(shape)
            uniq, new = merge_duplicate_rows(P, return_index=True)
            require(np.shape(uniq) == shape and list(new) == list(range(shape[0])), lambda: 'array of shape %s: %s, %s' % (shape, uniq, new))
            require(np.shape(merge_duplicate_rows(P)) == shape, lambda: 'array of shape %s' % (shape,))


def evaluate(case, rec):
    if 'edge' in case:
        return edge_case(case, rec)
    if 'mesh' in case:
        return mesh_case(case, rec)
    if 'chain' in case:
        return chain_case(case, rec)
    if 'dims' not in case:
        return size_case(case, rec)
    A = alphabet(case['dims']) if case['dims'] > 1 else V1
    first = [A[i] for i in case['first']]
    seen = set()
    off = case['offset']
    for rest in itertools.product(A, repeat=case['size'] - len(first)):
        pts = [tuple(c + off for c in p) for p in first + list(rest)]
        k = check(pts, case['tol'], 'points %s (x %g)' % (pts, case['tol']), case['tol'])
        rec.count('evaluations')
        seen.add(k)
    if any(1 < k < case['size'] for k in seen):
        rec.hit()
    rec.outcome('clusters %s' % sorted(seen))
