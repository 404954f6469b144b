"""C06: clipping against exact intersections."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import derived as D, geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is a block of weakly convex triangles/quadrangles of a grid in an embedding, or (solid, layout), a number of slices of a box or of pieces, a scale (1 to 1e8), a thinness (to 1e-4), a distance from the origin (to 1e7); all cutting planes '
        'of the families (through every vertex, between, within the vicinity tolerance of a vertex) are evaluated and compared with '
        'exact rational clipping; non trivial: at least one face is really cut')
ASSUMPTIONS = ['planar weakly convex faces', 'a face lying on the plane is not under it',
               'points are either within the vicinity tolerance of the plane (error bounded by it) or well away from it']
CHUNK = 1


# -- all weakly convex polygons of a grid ---------------------------------------------------------------------------
def cross2(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def polygons2d(n=3):
    pts = [(x, y) for x in range(n) for y in range(n)]
    out = []
    for t in itertools.permutations(pts, 3):
        if cross2(*t) != 0:
            out.append(t)
    for q in itertools.permutations(pts, 4):
        t = [cross2(q[i], q[(i + 1) % 4], q[(i + 2) % 4]) for i in range(4)]
        if (min(t) >= 0 and sum(x > 0 for x in t) >= 3) or (max(t) <= 0 and sum(x < 0 for x in t) >= 3):
            # a flat corner must lie between its neighbours
            ok = True
            for i in range(4):
                if t[i] == 0:
                    a, b, c = q[i], q[(i + 1) % 4], q[(i + 2) % 4]
                    if (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) <= 0:
                        ok = False
            if ok:
                out.append(q)
    return out


EMBED = {
    'xz': lambda x, y: (x, 0, y),
    'yz': lambda x, y: (5, x - 3, y - 1),
    'oblique': lambda x, y: (x - y, 2 * x + 1, y + x),
    'steep': lambda x, y: (3 * x, y, 2 * y - x),
}
NORMALS = {
    'z': ((0, 0, 1), 1), '-z': ((0, 0, -1), 1), 'x': ((1, 0, 0), 1), 'y': ((0, 1, 0), 1), '-x': ((-1, 0, 0), 1), '-y': ((0, -1, 0), 1),
    'o1': ((1, 2, -2), 3), 'o2': ((2, -1, 2), 3), 'o3': ((-2, -2, 1), 3), 'd1': ((3, 4, 0), 5), 'd2': ((0, 3, -4), 5),
    'd3': ((-4, 0, 3), 5),
}
BLOCK = 48


def solids():
    c = geom.catalogue()
    out = dict(c)
    # two solids sharing a vertex, sections sharing a vertex
    out['octas'] = geom.weld(geom.union(geom.octa(), geom.shift(geom.octa(), (4, 0, 0))))
    out['open wedge'] = (c['wedge'][0], c['wedge'][1][:-1])
    out['open hull'] = (c['hull'][0], c['hull'][1][1:])
    out['inward box'] = (c['box'][0], geom.flipped(c['box'][1]))
    return out


LAYOUTS = {
    'plain': lambda s: s,
    'rolled': lambda s: geom.rolled(s, 1),
    'rolled2': lambda s: geom.renumbered(geom.rolled(s, 2), list(range(len(s[0])))[::-1]),
    'triangles': lambda s: geom.triangulated(s, 0b1101001),
    'triangles2': lambda s: geom.triangulated(geom.rolled(s, 3), 0b0010110),
    'sub': lambda s: geom.subdivided(s),
}


def cases(tier):
    out = []
    n = len(polygons2d())
    embeds = list(EMBED) if tier == 'thorough' else ['xz', 'oblique', 'steep']
    for e in embeds:
        for nm in (['z', '-z', 'o1', 'd3'] if tier == 'quick' else ['z', '-z', 'x', 'o1', 'o2', 'd1', 'd2', 'd3']):
            for b in range(0, n, BLOCK):
                out.append(dict(embed=e, normal=nm, block=b, tier=tier))
    for s in solids():
        for lay in LAYOUTS:
            if tier == 'quick' and (lay in ('rolled2', 'triangles2') or (lay == 'sub' and s not in ('wedge', 'tetra', 'octas'))):
                continue
            out.append(dict(solid=s, layout=lay, tier=tier))
    for n in geom.SIZES + ([1024] if tier == 'thorough' else []):
        out.append(dict(size=n, tris=(0, 1, 3)[n % 3], tier=tier))
    for s in SCALED:
        for e in range(0, 9):
            out.append(dict(scale=e, solid=s, tier=tier))
    for s in SCALED:
        for t in THIN:
            out.append(dict(thin=t, solid=s, tier=tier))
        for t in FAR:
            out.append(dict(far=t, solid=s, tier=tier))
    for n in list(range(1, 34)) + [64, 100]:
        out.append(dict(pieces=n, tier=tier))
    return out


SCALED = ['hull', 'octa', 'ring', 'pyramid', 'twoboxes', 'open wedge']


def evaluate_size(case, rec):
    """box in n slices cut along (4 n + 2 faces are cut), in slanted directions and across"""
    n = case['size']
    s = geom.tube(n, case['tris'])
    if n % 2:
        s = geom.renumbered(geom.rolled(s, n % 4), list(range(len(s[0])))[::-1])
    for nm, c in [('z', Fr(1, 2)), ('-z', Fr(-1, 3)), ('x', Fr(n, 2)), ('d2', Fr(1, 3)), ('y', Fr(1)), ('-x', Fr(-1, 2)), ('z', Fr(1)), ('-z', Fr(-1))][:8 if n < 40 else 4]:
        k = NORMALS[nm][1]
        lev = {Fr(geom.dot(NORMALS[nm][0], q)) / k for q in s[0]}
        if all(abs(x - c) <= Fr(1, 2000) or abs(x - c) >= Fr(1, 500) for x in lev):
            check(s, True, nm, c, 0, rec, 'box in %d slices (%d), plane %s = %s' % (n, case['tris'], NORMALS[nm], c), assert_closed_boundaries=True)
    # open sheet: the sides only
    o = (s[0], [q for q in s[1] if len({s[0][i][1] for i in q}) > 1 or len({s[0][i][2] for i in q}) > 1][:2 * n + 1])
    check(o, False, 'z', Fr(1, 4), 0, rec, 'part of a box in %d slices' % n)


def evaluate_scale(case, rec):
    k = 10 ** case['scale']
    s = solids()[case['solid']]
    closed = geom.is_closed(geom.weld(s)[1])
    s = geom.scaled(s, (k, k, k))
    for nm in NORMALS:
        n, kk = NORMALS[nm]
        lev = sorted({Fr(geom.dot(n, q)) / kk for q in s[0]})
        cuts = [c for c in lev] + [(2 * a + b) / 3 for a, b in zip(lev, lev[1:])] + [lev[0] - 1, lev[-1] + 1, lev[0] + Fr(1, 100), lev[-1] - Fr(1, 100)]
        for c in cuts:
            if all(abs(x - c) <= Fr(1, 2000) or abs(x - c) >= Fr(1, 500) for x in lev):
                if k > 1e5 and c in lev[1:-1] and kk != 1:
                    continue        # a plane through a vertex is only so to rounding
                if k > 1e4 and c in (lev[0] + Fr(1, 100), lev[-1] - Fr(1, 100)):
                    continue
                check(s, closed, nm, c, 0, rec, '%s scaled by %g, plane %s = %s' % (case['solid'], k, NORMALS[nm], c))


THIN = {'x 1e-4': (1e-4, 1, 1), 'x 8e-4': (8e-4, 1, 1), 'x 5e-3': (5e-3, 1, 1), 'y 3e-4': (1, 3e-4, 1), 'y 2e-3': (1, 2e-3, 1), 'xy 5e-4': (5e-4, 5e-4, 1),
        'xy 1e-2': (1e-2, 1e-2, 3), 'z 2e-2': (1, 1, 2e-2), 'z 1e3': (1, 1, 1e3), 'all 1e-2': (1e-2, 1e-2, 1e-2), 'all 2e-3': (2e-3, 2e-3, 2e-3)}
FAR = {'1e3': (1000, -2000, 3000), '1e5': (-100000, 50000, 200000), 'z 1e4': (0, 0, 10000), 'z -1e6': (0, 0, -1000000), 'x 1e7': (10000000, 0, 0)}


def evaluate_thin(case, rec):
    """solids thinner than the vicinity tolerance along the plane, or tiny ones with a small tolerance"""
    s = solids()[case['solid']]
    closed = geom.is_closed(geom.weld(s)[1])
    k = THIN[case['thin']]
    s = geom.scaled(s, tuple(Fr(str(x)) for x in k))
    tol = 1e-3 if k[2] >= 1e-2 and k[0] != k[2] else 1e-6
    for lay in ('plain', 'triangles', 'rolled'):
        t = LAYOUTS[lay](s)
        for nm in ('z', '-z') if k[2] == 1 or k[2] > k[0] else NORMALS:
            n, kk = NORMALS[nm]
            lev = sorted({Fr(geom.dot(n, q)) / kk for q in t[0]})
            for c in lev + [(2 * a + b) / 3 for a, b in zip(lev, lev[1:])]:
                if all(abs(x - c) <= Fr(tol) / 10000 or abs(x - c) >= 2 * Fr(tol) for x in lev):
                    check(t, closed, nm, c, 0, rec, '%s (%s) scaled by %s, plane %s = %s' % (case['solid'], lay, k, NORMALS[nm], c), vicinity_tol=tol)


def evaluate_far(case, rec):
    s = solids()[case['solid']]
    closed = geom.is_closed(geom.weld(s)[1])
    for lay in ('plain', 'triangles'):
        t = geom.shift(LAYOUTS[lay](s), FAR[case['far']])
        for nm in NORMALS:
            n, kk = NORMALS[nm]
            lev = sorted({Fr(geom.dot(n, q)) / kk for q in t[0]})
            for c in lev + [(2 * a + b) / 3 for a, b in zip(lev, lev[1:])] + [lev[0] - 1, lev[-1] + 1]:
                if all(abs(x - c) <= Fr(1, 10000000) or abs(x - c) >= Fr(1, 500) for x in lev):
                    check(t, closed, nm, c, 0, rec, '%s (%s) moved by %s, plane %s = %s' % (case['solid'], lay, FAR[case['far']], NORMALS[nm], c), origin=FAR[case['far']])


def evaluate_pieces(case, rec):
    """n separate boxes and octahedra cut together: as many polygons"""
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    n = case['pieces']
    s = geom.union(*[geom.shift(geom.box(0, 1, 0, 1, -1, 1) if i % 3 else geom.octa(1, 1, 2), (3 * (i % 10), 4 * (i // 10), 0)) for i in range(n)])
    s2 = geom.renumbered(s, [(7 * i + 3) % len(s[0]) for i in range(len(s[0]))]) if len(s[0]) % 7 else s
    # faces of the pieces interleaved
    s2 = (s2[0], sorted(s2[1], key=lambda q: (sum(q) * 31) % 17))
    for t in (s, s2):
        for nm, c in (('z', Fr(1, 3)), ('-z', Fr(1, 3)), ('z', Fr(0))):
            what = '%d pieces, plane %s = %s' % (n, NORMALS[nm], c)
            check(t, True, nm, c, 0, rec, what, assert_closed_boundaries=True)
            cl = MeshClipper(geom.mesh(t), plane=Plane(normal=NORMALS[nm][0], scalar=float(c)))
            require(cl.nb_closed_polygons == n, lambda: what + ': %d polygons' % cl.nb_closed_polygons)


def signed_moments(polys, n, k):
    """moments of the projections on the plane (normal n/k), weighted with the component of the area along n/k; exact"""
    m0, m1, m2 = Fr(0), [Fr(0)] * 3, [[Fr(0)] * 3 for _ in range(3)]
    kk = k * k
    for p in polys:
        q = [tuple(Fr(x[i]) - Fr(geom.dot(n, x) * n[i]) / kk for i in range(3)) for x in p]
        for a, b, c in geom.fan(q):
            w = geom.dot(geom.cross(geom.sub(b, a), geom.sub(c, a)), n) / (2 * Fr(k))
            if w == 0:
                continue
            s = [a[i] + b[i] + c[i] for i in range(3)]
            m0 += w
            for i in range(3):
                m1[i] += w * s[i] / 3
                for j in range(3):
                    m2[i][j] += w * (a[i] * a[j] + b[i] * b[j] + c[i] * c[j] + s[i] * s[j]) / 12
    return m0, m1, m2


def flo(m):
    return float(m[0]), np.array([float(x) for x in m[1]]), np.array([[float(x) for x in r] for r in m[2]])


def polygon_moments(P, n):
    """float moments of a closed polygon projected on the plane of unit normal n, signed around n"""
    P = P - np.outer(P @ n, n)
    a = P[0]
    b, c = P[1:-1], P[2:]
    w = np.cross(b - a, c - a) @ n / 2
    s = a + b + c
    m1 = (w[:, None] * s / 3).sum(axis=0)
    m2 = (w.sum() * np.outer(a, a) + np.einsum('k,ki,kj->ij', w, b, b) + np.einsum('k,ki,kj->ij', w, c, c)
          + np.einsum('k,ki,kj->ij', w, s, s)) / 12
    return w.sum(), m1, m2


def segments_moments(segs):
    """length, sum of e and of middle x e of directed segments (arrays)"""
    if not len(segs):
        return 0., np.zeros(3), np.zeros((3, 3))
    a, b = segs[:, 0], segs[:, 1]
    e = b - a
    return np.linalg.norm(e, axis=1).sum(), e.sum(axis=0), np.einsum('ki,kj->ij', (a + b) / 2, e)


def check_lines(cl, lines, v, f, dist, n, k, cc, tol, snapped, closed, what, noise):
    """polygons and lines together are the sides lying on the plane of the parts of faces under it, run the other way"""
    segs = []
    for q in f:
        p = geom.poly_of(q)
        if not any(dist[i] < -tol for i in p):
            continue
        on = [(v[i], 0 if abs(dist[i]) <= tol else dist[i]) for i in p]
        part = []
        for (a, da), (b, db) in zip(on, on[1:] + on[:1]):
            if da <= 0:
                part.append((a, da == 0))
            if da * db < 0:
                t = da / (da - db)
                part.append((tuple(Fr(x) + (Fr(y) - Fr(x)) * t for x, y in zip(a, b)), True))
        segs += [(b, a) for (a, oa), (b, ob) in zip(part, part[1:] + part[:1]) if oa and ob and a != b]
    ref = np.array([[[float(x) for x in p] for p in q] for q in segs]).reshape(-1, 2, 3)
    got = np.array([[a, b] for p in lines[0] + lines[1] for a, b in zip(p[:-1], p[1:])]).reshape(-1, 2, 3)
    size = max(abs(float(x)) for p in v for x in p)
    if snapped:
        size = max(size, 1.)
    eps = (1e-8 + noise / size if not snapped else 4 * tol * len(f)) + 3e-5 * (len(ref) if snapped else 0)
    for nm, a, b, s in zip(('length', 'sum of the sides', 'moments of the sides'), segments_moments(got), segments_moments(ref), (size, size, size ** 2)):
        require(np.abs(a - b).max() <= eps * s * max(1, len(ref)), lambda: what + ': %s of polygons and lines %s, expected %s' % (nm, a, b))
    for p in lines[1]:
        require(len(p) >= 2 and not np.array_equal(p[0], p[-1]), lambda: what + ': an open line is closed')
        require(np.abs(np.asarray(p) @ (np.array(n, float) / k) - float(cc)).max() <= tol + 1e-9 * max(size, 1.) + noise, lambda: what + ': open line not on the plane')
    require(cl.nb_open_lines == len(cl.open_lines) == len(cl.open_lines_vertices), lambda: what + ': nb lines')
    if not closed and all(d != 0 and abs(d) > tol for d in dist):
        w, g = geom.weld((v, f))
        wd = [Fr(geom.dot(n, p)) / k - cc for p in w]       # frame near the solid
        ends = sum(1 for e, fs in geom.edge_faces(g).items() if len(fs) == 1 and wd[tuple(e)[0]] * wd[tuple(e)[1]] < 0)
        require(2 * cl.nb_open_lines == ends, lambda: what + ': %d open lines, the plane crosses %d edges of the boundary' % (cl.nb_open_lines, ends))


def check(shape, closed, nm, c, near, rec, what, **kw):
    """c: exact scalar of the plane (distance); near: the plane is shifted by this much from it"""
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    n, k = NORMALS[nm]
    tol = kw.get('vicinity_tol', 1e-3)
    cc = Fr(c) + Fr(near)
    v, f = shape
    org = kw.pop('origin', None)
    dist = [Fr(geom.dot(n, p)) / k - cc for p in v]
    assert all(abs(d) <= tol / 2 or abs(d) >= 2 * tol for d in dist), what
    m = geom.mesh(shape)
    rec.count('evaluations')
    used = dist
    below = [d < -tol for d in used]
    expect = None
    if not any(below):
        expect = 'above'
    elif all(below):
        expect = 'below'
    plane = Plane(normal=n, scalar=float(cc))
    try:
        cl = MeshClipper(m, plane=plane, **kw)
    except RuntimeError as err:
        require(expect is not None, lambda: what + ': raises %r' % (err,))
        require(len(err.args) > 1 and err.args[1] == expect, lambda: what + ': error %r does not tell %s' % (err.args, expect))
        rec.outcome(expect)
        return
    require(expect is None, lambda: what + ': mesh entirely %s not reported' % expect)
    g = cl.clipped_mesh
    V, F = np.asarray(g.vertices), np.asarray(g.faces)
    u = np.array(n, float) / k
    lines = [[np.asarray(p) for p in l] for l in (cl.closed_polygons_vertices, cl.open_lines_vertices)]
    noise = 0.
    if org is not None:
        # compared in a frame near the solid
        noise = 1e-14 * max(abs(x) for x in org)
        o = np.array(org, float)
        V = V - o
        v = [tuple(a - b for a, b in zip(p, org)) for p in v]
        cc = cc - Fr(geom.dot(n, org)) / k
        lines = [[p - o for p in l] for l in lines]
    over = (V @ u - float(cc)).max() if len(V) else -1.
    require(over <= tol + 1e-9 + noise, lambda: what + ': a vertex of the clipped mesh is %g above the plane' % over)
    snapped = any(0 < abs(d) <= tol for d in dist)
    # exact reference. Vertices within the tolerance are taken at their position: differences are of the order of the tolerance
    polys = [[v[i] for i in geom.poly_of(q)] for q in f if not all(abs(dist[i]) <= tol for i in q)]
    ref = geom.clip_polys(polys, n, cc * k)
    A, m1, m2 = geom.surface_moments(ref)
    if ref:
        av = np.array([float(sum(x)) for x in zip(*[geom.area_vector(p) for p in ref])])
    else:
        av = np.zeros(3)
    size = np.abs(np.array([[float(x) for x in p] for p in v])).max()
    nfaces = len(f)
    eps = 1e-8 + noise if not snapped else 4 * tol * nfaces
    got = geom.np_surface_moments(V, F)
    require(len(F) == 0 or abs(got[0] - float(np.sum(D.clone(g).faces_areas))) <= 1e-9 * (1 + got[0]),
            lambda: what + ': areas reported by the clipped mesh')
    for name, a, b, s in (('area', got[0], A, 1), ('oriented area', got[3], av, 1), ('first moments', got[1], m1, 2),
                          ('second moments', got[2], m2, 3)):
        require(np.abs(a - b).max() <= (eps * max(size, 1.) ** s if snapped else eps * size ** (s + 1)),
                lambda: what + ': %s of the clipped mesh %s, expected %s' % (name, a, b))
    if 0 < A and len(ref) and A < geom.surface_moments(polys)[0] - 1e-9:
        rec.hit()
    check_lines(cl, lines, v, f, dist, n, k, cc, tol, snapped, closed, what, noise)
    if closed:
        require(cl.nb_open_lines == 0, lambda: what + ': %d open lines on a closed mesh' % cl.nb_open_lines)
        sec = flo(signed_moments(ref, n, k))
        s0, s1, s2 = 0., np.zeros(3), np.zeros((3, 3))
        for P in lines[0]:
            require(np.array_equal(P[0], P[-1]), lambda: what + ': polygon not closed')
            require(np.abs(P @ u - float(cc)).max() <= tol + 1e-9 + noise, lambda: what + ': polygon not on the plane')
            if len(P) > 3:
                a, b, d = polygon_moments(P, u)
                s0, s1, s2 = s0 + a, s1 + b, s2 + d
        require(cl.nb_closed_polygons == len(cl.closed_polygons) == len(cl.closed_polygons_vertices), lambda: what + ': nb polygons')
        for name, a, b, s in (('area', s0, -sec[0], 1), ('first moments', s1, -sec[1], 2), ('second moments', s2, -sec[2], 3)):
            require(np.abs(a - b).max() <= (eps * max(size, 1.) ** s if snapped else eps * size ** (s + 1)),
                    lambda: what + ': %s of the intersection polygons %s, expected %s' % (name, a, b))
    elif cl.nb_open_lines == 0 or len(f) > 1 or sum(map(ord, what)) % 16 == 0:
        try:
            from mc.core import quiet
            with quiet():
                MeshClipper(m, plane=plane, **dict(kw, assert_closed_boundaries=True))
            told = False
        except RuntimeError:
            told = True
        require(told == (cl.nb_open_lines > 0), lambda: what + ': %d open lines, closed boundaries asserted: error %s' % (cl.nb_open_lines, told))
    rec.outcome('crossing%s' % (' closed' if closed else ''))


def evaluate(case, rec):
    for k in ('size', 'scale', 'pieces', 'thin', 'far'):
        if k in case:
            return globals()['evaluate_' + k](case, rec)
    if 'embed' in case:
        polys = polygons2d()[case['block']:case['block'] + BLOCK]
        emb = EMBED[case['embed']]
        n, k = NORMALS[case['normal']]
        for p in polys:
            v = [emb(x, y) for x, y in p]
            f = [geom.tri(0, 1, 2)] if len(p) == 3 else [(0, 1, 2, 3)]
            lev = sorted({Fr(geom.dot(n, q)) / k for q in v})
            cuts = [(c, 0) for c in lev] + [((a + b) / 2, 0) for a, b in zip(lev, lev[1:])]
            cuts += [((3 * a + b) / 4, 0) for a, b in zip(lev, lev[1:])] if case['tier'] == 'thorough' else []
            cuts += [(lev[-1] + 1, 0), (lev[0] - 1, 0)]
            cuts += [(c, s) for c in lev for s in (Fr(1, 2500), Fr(-1, 2500))]
            for c, near in cuts:
                check((v, f), False, case['normal'], c, near, rec,
                      'face %s, plane %s = %s%+g' % (v, NORMALS[case['normal']], c, float(near)))
        return
    s = LAYOUTS[case['layout']](solids()[case['solid']])
    closed = geom.is_closed(geom.weld(s)[1]) or case['solid'] == 'octas'
    names = list(NORMALS)
    for nm in names:
        n, k = NORMALS[nm]
        lev = sorted({Fr(geom.dot(n, q)) / k for q in s[0]})
        cuts = [(c, 0, {}) for c in lev] + [((a + b) / 2, 0, {}) for a, b in zip(lev, lev[1:])]
        cuts += [(lev[-1] + 1, 0, {}), (lev[0] - 1, 0, {})]
        if case['layout'] in ('plain', 'triangles') or case['tier'] == 'thorough':
            cuts += [(c, sg, {}) for c in lev for sg in (Fr(1, 2500), Fr(-1, 2500))]
            cuts += [(c, sg, dict(vicinity_tol=1e-6)) for c in lev[1:-1] for sg in (Fr(1, 250), Fr(-1, 250))]
        if case['tier'] == 'thorough':
            cuts += [((a + 4 * b) / 5, 0, {}) for a, b in zip(lev, lev[1:])]
        for c, near, kw in cuts:
            kw = dict(kw)
            if closed:
                kw['assert_closed_boundaries'] = True
            tol = kw.get('vicinity_tol', 1e-3)
            cc = c + near
            if not all(abs(x - cc) <= Fr(tol) / 2 or abs(x - cc) >= 2 * Fr(tol) for x in lev):
                continue
            check(s, closed, nm, c, near, rec, '%s (%s), plane %s = %s%+g' % (case['solid'], case['layout'], NORMALS[nm], c, float(near)),
                  **kw)
