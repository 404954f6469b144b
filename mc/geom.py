"""Reference geometry: catalogue of small polyhedra with integer (or rational) coordinates and exact integrals computed
with rationals, independently of the code under test."""
import itertools
from fractions import Fraction as Fr

import numpy as np


# ---------------------------------------------------------------------------------------------------------------
# Catalogue. A shape is (vertices: list of int/Fraction triples, faces: list of 4 ids with f[0]==f[3] for triangles)
# Faces are planar, counter-clockwise seen from outside for the closed ones.
# ---------------------------------------------------------------------------------------------------------------
def tri(a, b, c):
    return (a, b, c, a)


def box(x0=0, x1=1, y0=0, y1=1, z0=0, z1=1):
    v = [(x0, y0, z0), (x1, y0, z0), (x1, y1, z0), (x0, y1, z0), (x0, y0, z1), (x1, y0, z1), (x1, y1, z1), (x0, y1, z1)]
    f = [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]
    return v, f


def frustum(b=4, t=2, h=3, cx=1, cy=0):
    """truncated pyramid with shifted top, planar quadrangles only when the top is homothetic"""
    v = [(-b, -b, 0), (b, -b, 0), (b, b, 0), (-b, b, 0),
         (cx - t, cy - t, h), (cx + t, cy - t, h), (cx + t, cy + t, h), (cx - t, cy + t, h)]
    return v, box()[1]


def tetra(s=3):
    v = [(0, 0, 0), (s, 0, 0), (0, s, 0), (0, 0, s)]
    f = [tri(0, 2, 1), tri(0, 1, 3), tri(1, 2, 3), tri(2, 0, 3)]
    return v, f


def octa(a=2, b=3, c=4):
    v = [(a, 0, 0), (-a, 0, 0), (0, b, 0), (0, -b, 0), (0, 0, c), (0, 0, -c)]
    f = [tri(0, 2, 4), tri(2, 1, 4), tri(1, 3, 4), tri(3, 0, 4), tri(2, 0, 5), tri(1, 2, 5), tri(3, 1, 5), tri(0, 3, 5)]
    return v, f


def wedge(l=4, b=2, h=3):
    """triangular prism along x: 2 triangles and 3 quadrangles; apex down"""
    v = [(0, -b, h), (0, b, h), (0, 0, 0), (l, -b, h), (l, b, h), (l, 0, 0)]
    f = [tri(0, 1, 2), tri(3, 5, 4), (0, 2, 5, 3), (1, 4, 5, 2), (0, 3, 4, 1)]
    return v, f


def pyramid(a=2, h=3):
    v = [(-a, -a, 0), (a, -a, 0), (a, a, 0), (-a, a, 0), (0, 0, h)]
    f = [(0, 3, 2, 1), tri(0, 1, 4), tri(1, 2, 4), tri(2, 3, 4), tri(3, 0, 4)]
    return v, f


def extrude(polys, pts, z0, z1):
    """Prism over a conformal planar partition: pts 2D points, polys ccw faces of 3 or 4 ids"""
    n = len(pts)
    v = [(x, y, z0) for x, y in pts] + [(x, y, z1) for x, y in pts]
    f = []
    edges = {}
    for p in polys:
        k = len(p)
        top = [i + n for i in p]
        bot = list(reversed(p))
        f.append(tri(*top) if k == 3 else tuple(top))
        f.append(tri(*bot) if k == 3 else tuple(bot))
        for i in range(k):
            edges[(p[i], p[(i + 1) % k])] = 1
    for (a, b) in edges:
        if (b, a) not in edges:
            f.append((a, b, b + n, a + n))
    return v, f


def lprism(z0=0, z1=2):
    pts = [(0, 0), (2, 0), (4, 0), (4, 1), (2, 1), (2, 3), (0, 3), (0, 1)]
    return extrude([(0, 1, 4, 7), (1, 2, 3, 4), (7, 4, 5, 6)], pts, z0, z1)


def ring(z0=0, z1=2):
    """square ring (genus one): moonpool"""
    pts = [(x, y) for y in range(4) for x in range(4)]
    polys = []
    for j in range(3):
        for i in range(3):
            if (i, j) != (1, 1):
                polys.append((4 * j + i, 4 * j + i + 1, 4 * j + i + 5, 4 * j + i + 4))
    return extrude(polys, pts, z0, z1)


def trapeze(z0=0, z1=2):
    """prism over a trapezoid, asymmetric"""
    pts = [(0, 0), (5, 0), (3, 2), (1, 2)]
    return extrude([(0, 1, 2, 3)], pts, z0, z1)


def hexprism(z0=-1, z1=2):
    pts = [(2, 0), (4, 0), (5, 2), (4, 4), (2, 4), (1, 2)]
    return extrude([(0, 1, 2, 5), (2, 3, 4, 5)], pts, z0, z1)


def hull():
    """ship like: quads and triangles, bottom rise at the bow"""
    # sections at x = 0, 2, 4 (half breadth 1, depth from -1 to 1) and a stem at x = 6
    v, f = [], []
    for x in (0, 2, 4):
        v += [(x, -1, 1), (x, -1, -1), (x, 1, -1), (x, 1, 1)]
    v += [(6, 0, 1), (6, 0, -1)]
    for s in (0, 4):
        for k in range(4):
            a, b = s + k, s + (k + 1) % 4
            f.append((a, b, b + 4, a + 4))
    f.append((0, 3, 2, 1))
    # bow: section 8..11 to the stem 12 (top), 13 (bottom)
    f += [(8, 9, 13, 12), tri(9, 10, 13), (10, 11, 12, 13), tri(11, 8, 12)]
    return v, f


def shift(shape, d):
    v, f = shape
    return [tuple(a + b for a, b in zip(p, d)) for p in v], list(f)


def scaled(shape, s):
    v, f = shape
    return [tuple(a * b for a, b in zip(p, s)) for p in v], list(f)


def affine(shape, mat, d=(0, 0, 0)):
    v, f = shape
    v = [tuple(sum(mat[i][j] * p[j] for j in range(3)) + d[i] for i in range(3)) for p in v]
    det = (mat[0][0] * (mat[1][1] * mat[2][2] - mat[1][2] * mat[2][1])
           - mat[0][1] * (mat[1][0] * mat[2][2] - mat[1][2] * mat[2][0])
           + mat[0][2] * (mat[1][0] * mat[2][1] - mat[1][1] * mat[2][0]))
    if det < 0:
        f = flipped(f)
    return v, list(f)


def flipped(faces):
    return [tuple(reversed(q)) for q in faces]


def union(*shapes):
    v, f = [], []
    for vs, fs in shapes:
        n = len(v)
        v += list(vs)
        f += [tuple(i + n for i in q) for q in fs]
    return v, f


def weld(shape):
    v, f = shape
    ids, nv, m = {}, [], []
    for p in v:
        if p not in ids:
            ids[p] = len(nv)
            nv.append(p)
        m.append(ids[p])
    return nv, [tuple(m[i] for i in q) for q in f]


def cavity():
    """box with an inner box removed (two closed components, the inner one oriented inwards)"""
    a = box(0, 4, 0, 4, 0, 4)
    v, f = box(1, 3, 1, 2, 1, 2)
    return union(a, (v, flipped(f)))


def triangulated(shape, diag=0):
    """diag: bit per quadrangle (cyclic over bits of an int) choosing the diagonal"""
    v, f = shape
    out, k = [], 0
    for q in f:
        if q[0] == q[3]:
            out.append(q)
        else:
            if (diag >> (k % 16)) & 1:
                q = q[1:] + q[:1]
            k += 1
            out += [tri(q[0], q[1], q[2]), tri(q[0], q[2], q[3])]
    return v, out


def rolled(shape, k):
    """starts every face at another of its vertices"""
    v, f = shape
    out = []
    for q in f:
        p = q[:3] if q[0] == q[3] else q
        j = k % len(p)
        p = p[j:] + p[:j]
        out.append(tri(*p) if len(p) == 3 else p)
    return v, out


def renumbered(shape, perm):
    """vertex i becomes perm[i]"""
    v, f = shape
    nv = [None] * len(v)
    for i, p in enumerate(v):
        nv[perm[i]] = p
    return nv, [tuple(perm[i] for i in q) for q in f]


def subdivided(shape):
    """every quadrangle in 4, every triangle in 4; rational coordinates"""
    v, f = [tuple(Fr(c) for c in p) for p in shape[0]], shape[1]
    v = list(v)
    mid = {}

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(v)
            v.append(tuple((x + y) / 2 for x, y in zip(v[a], v[b])))
        return mid[k]
    out = []
    for q in f:
        if q[0] == q[3]:
            a, b, c = q[:3]
            ab, bc, ca = m(a, b), m(b, c), m(c, a)
            out += [tri(a, ab, ca), tri(ab, b, bc), tri(ca, bc, c), tri(ab, bc, ca)]
        else:
            a, b, c, d = q
            ab, bc, cd, da = m(a, b), m(b, c), m(c, d), m(d, a)
            # centre: intersection of the two medians (midpoint of ab-cd), on the plane of the face
            o = len(v)
            v.append(tuple((x + y) / 2 for x, y in zip(v[ab], v[cd])))
            out += [(a, ab, o, da), (ab, b, bc, o), (o, bc, c, cd), (da, o, cd, d)]
    return v, out


def tube(n, tris=0, w=2, h=1):
    """box (0, n) x (0, w) x (0, h) made of n slices: 4 n + 2 quadrangles, 4 (n + 1) vertices. Quadrangles whose rank is a multiple
    of tris are split in triangles"""
    v, f = [], []
    for i in range(n + 1):
        v += [(i, 0, 0), (i, w, 0), (i, w, h), (i, 0, h)]
    f.append((0, 3, 2, 1))
    for i in range(n):
        a = 4 * i
        for k in range(4):
            b = a + (k + 1) % 4
            f.append((a + k, b, b + 4, a + k + 4))
    e = 4 * n
    f.append((e, e + 1, e + 2, e + 3))
    if tris:
        g = []
        for k, q in enumerate(f):
            g += [tri(q[0], q[1], q[2]), tri(q[0], q[2], q[3])] if k % tris == 0 else [q]
        f = g
    return v, f


def strip(n):
    """open strip of n triangles, n + 2 vertices"""
    return [(i // 2, i % 2, (i % 7) if i % 5 else 0) for i in range(n + 2)], [tri(i, i + 1, i + 2) if i % 2 == 0 else tri(i + 1, i, i + 2)
                                                                      for i in range(n)]


# numbers of slices of tubes: every one up to 70 (288 vertices), then around powers of 2 and of 10
SIZES = list(range(1, 71)) + [99, 127, 128, 249, 250, 255, 256, 300]
BIG = [1023, 1024, 2500]
HUGE = [8191, 16384, 25000]


MIXED = 'wedge pyramid hull'.split()


def catalogue():
    """closed, outward oriented solids"""
    c = dict(
        box=box(0, 2, 0, 3, 0, 1), tetra=tetra(), octa=octa(), wedge=wedge(), pyramid=pyramid(),
        frustum=frustum(4, 2, 3, 0, 0), lprism=lprism(), ring=ring(), trapeze=trapeze(), hexprism=hexprism(), hull=hull(),
        tribox=triangulated(box(0, 2, 0, 3, 0, 1), 0b010110), twoboxes=union(box(0, 1, 0, 1, 0, 2), box(3, 5, 0, 1, -1, 1)),
        cavity=cavity(), sheared=affine(box(0, 2, 0, 2, 0, 2), [[1, 0, 1], [0, 1, 2], [0, 0, 1]], (3, -5, 7)),
    )
    c['subwedge'] = subdivided(wedge())
    return c


def arrays(shape):
    v, f = shape
    return (np.array([[float(c) for c in p] for p in v], dtype=float).reshape(-1, 3),
            np.array([list(q) for q in f], dtype=int).reshape(-1, 4))


def mesh(shape, name=None):
    from meshmagick.mesh import Mesh
    V, F = arrays(shape)
    return Mesh(V, F, name=name)


# ---------------------------------------------------------------------------------------------------------------
# Exact integrals
# ---------------------------------------------------------------------------------------------------------------
def poly_of(face):
    return tuple(face[:3]) if face[0] == face[3] else tuple(face)


def fan(poly):
    return [(poly[0], poly[i], poly[i + 1]) for i in range(1, len(poly) - 1)]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, k):
    return (a[0] * k, a[1] * k, a[2] * k)


def polygons(shape):
    """list of polygons (lists of points)"""
    v, f = shape
    return [[v[i] for i in poly_of(q)] for q in f]


def solid_moments(polys, apex=(0, 0, 0)):
    """(volume, first moments, second moment matrix) of the region enclosed by polygons, cone over apex"""
    vol = Fr(0)
    m1 = [Fr(0)] * 3
    m2 = [[Fr(0)] * 3 for _ in range(3)]
    for p in polys:
        for (a, b, c) in fan(p):
            ra, rb, rc = sub(a, apex), sub(b, apex), sub(c, apex)
            d = Fr(dot(ra, cross(rb, rc)))
            if d == 0:
                continue
            vol += d / 6
            pts = (apex, a, b, c)
            s = [sum(q[i] for q in pts) for i in range(3)]
            for i in range(3):
                m1[i] += d * s[i] / 24
                for j in range(i, 3):
                    m2[i][j] += d * (sum(q[i] * q[j] for q in pts) + s[i] * s[j]) / 120
    for i in range(3):
        for j in range(i):
            m2[i][j] = m2[j][i]
    return vol, m1, m2


def solid_inertia(polys, rho=1):
    """(mass, cog, 3x3 inertia matrix about the origin)"""
    vol, m1, m2 = solid_moments(polys)
    cog = [float(x / vol) for x in m1]
    tr = m2[0][0] + m2[1][1] + m2[2][2]
    mat = np.array([[float((tr if i == j else 0) - m2[i][j]) for j in range(3)] for i in range(3)]) * rho
    return float(vol) * rho, np.array(cog), mat


def area_vector(poly):
    """vector area of a polygon (exact)"""
    s = (Fr(0), Fr(0), Fr(0))
    for a, b, c in fan(poly):
        s = add(s, cross(sub(b, a), sub(c, a)))
    return mul(s, Fr(1, 2))


def tri_area2(a, b, c):
    n = cross(sub(b, a), sub(c, a))
    return float(dot(n, n)) ** 0.5


def poly_surface_moments(poly):
    """(area, first moments, second moment matrix) of a planar convex polygon: floats from exact terms"""
    A = 0.
    m1 = np.zeros(3)
    m2 = np.zeros((3, 3))
    for a, b, c in fan(poly):
        ar = 0.5 * tri_area2(a, b, c)
        s = [a[i] + b[i] + c[i] for i in range(3)]
        A += ar
        for i in range(3):
            m1[i] += ar * float(Fr(s[i]) / 3)
            for j in range(3):
                m2[i, j] += ar * float(Fr(a[i] * a[j] + b[i] * b[j] + c[i] * c[j] + s[i] * s[j]) / 12)
    return A, m1, m2


def surface_moments(polys):
    A, m1, m2 = 0., np.zeros(3), np.zeros((3, 3))
    for p in polys:
        a, b, c = poly_surface_moments(p)
        A, m1, m2 = A + a, m1 + b, m2 + c
    return A, m1, m2


def flux_moments(polys, axis=2):
    """sums over polygons of the integrals of 1, x_i, x_i x_j times the component axis of the normal: exact"""
    m0 = Fr(0)
    m1 = [Fr(0)] * 3
    m2 = [[Fr(0)] * 3 for _ in range(3)]
    for p in polys:
        for a, b, c in fan(p):
            n = Fr(cross(sub(b, a), sub(c, a))[axis]) / 2
            if n == 0:
                continue
            s = [a[i] + b[i] + c[i] for i in range(3)]
            m0 += n
            for i in range(3):
                m1[i] += n * s[i] / 3
                for j in range(3):
                    m2[i][j] += n * (a[i] * a[j] + b[i] * b[j] + c[i] * c[j] + s[i] * s[j]) / 12
    return m0, m1, m2


def clip_polygon(poly, n, c):
    """part of a convex polygon with n.x <= c (exact, Sutherland-Hodgman); [] if empty or degenerate"""
    out = []
    k = len(poly)
    h = [dot(n, p) - c for p in poly]
    if all(x == 0 for x in h):
        return []          # lies on the plane: not under it
    for i in range(k):
        j = (i + 1) % k
        if h[i] <= 0:
            out.append(poly[i])
        if (h[i] < 0 < h[j]) or (h[j] < 0 < h[i]):
            t = Fr(h[i]) / (Fr(h[i]) - Fr(h[j]))
            out.append(tuple(poly[i][m] + t * (poly[j][m] - poly[i][m]) for m in range(3)))
    if len(out) < 3:
        return []
    av = area_vector(out)
    if av == (0, 0, 0):
        return []
    return out


def clip_polys(polys, n, c):
    return [q for q in (clip_polygon(p, n, c) for p in polys) if q]


def fpolys(V, F):
    """polygons (tuples of floats) of arrays"""
    out = []
    for q in F:
        ids = q[:3] if q[0] == q[3] else q
        out.append([tuple(float(c) for c in V[i]) for i in ids])
    return out


def np_surface_moments(V, F):
    """float version on arrays, fan from the first vertex"""
    V = np.asarray(V, float)
    F = np.asarray(F, int)
    if len(F) == 0:
        return 0., np.zeros(3), np.zeros((3, 3)), np.zeros(3)
    T = [F[:, [0, 1, 2]]]
    q = F[:, 0] != F[:, 3]
    T.append(F[q][:, [0, 2, 3]])
    T = np.concatenate(T)
    a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    n = np.cross(b - a, c - a) / 2
    ar = np.linalg.norm(n, axis=1)
    s = a + b + c
    m1 = (ar[:, None] * s / 3).sum(axis=0)
    m2 = sum(np.einsum('k,ki,kj->ij', ar, p, p) for p in (a, b, c)) + np.einsum('k,ki,kj->ij', ar, s, s)
    return ar.sum(), m1, m2 / 12, n.sum(axis=0)


def np_solid_moments(V, F, apex=(0., 0., 0.)):
    V = np.asarray(V, float) - np.asarray(apex, float)
    F = np.asarray(F, int)
    T = np.concatenate([F[:, [0, 1, 2]], F[F[:, 0] != F[:, 3]][:, [0, 2, 3]]])
    a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    d = np.einsum('ij,ij->i', a, np.cross(b, c))
    vol = d.sum() / 6
    s = a + b + c
    m1 = (d[:, None] * s).sum(axis=0) / 24
    m2 = (sum(np.einsum('k,ki,kj->ij', d, p, p) for p in (a, b, c)) + np.einsum('k,ki,kj->ij', d, s, s)) / 120
    return vol, m1, m2


# ---------------------------------------------------------------------------------------------------------------
# Canonical forms
# ---------------------------------------------------------------------------------------------------------------
def canon_face(points, nd=7):
    """oriented polygon up to its starting vertex"""
    pts = [tuple(round(float(c), nd) + 0. for c in p) for p in points]
    k = min(range(len(pts)), key=lambda i: pts[i:] + pts[:i])
    return tuple(pts[k:] + pts[:k])


def canon_faces(V, F, nd=7):
    """sorted multiset of oriented polygons in space"""
    out = []
    for q in F:
        ids = list(q[:3]) if q[0] == q[3] else list(q)
        out.append(canon_face([V[i] for i in ids], nd))
    return sorted(out)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def edge_faces(F):
    """undirected edge -> list of (face, direction)"""
    d = {}
    for i, q in enumerate(F):
        p = poly_of(tuple(int(x) for x in q))
        for k in range(len(p)):
            a, b = p[k], p[(k + 1) % len(p)]
            d.setdefault((min(a, b), max(a, b)), []).append((i, a < b))
    return d


def is_closed(F):
    return all(len(x) == 2 for x in edge_faces(F).values())


def is_consistent(F):
    return all(len(x) < 2 or x[0][1] != x[1][1] for x in edge_faces(F).values())


def planar(shape):
    v, f = shape
    for q in f:
        if q[0] != q[3]:
            a, b, c, d = [v[i] for i in q]
            if dot(cross(sub(b, a), sub(c, a)), sub(d, a)) != 0:
                return False
    return True


def selftest():
    for name, s in catalogue().items():
        assert planar(s), name
        assert is_closed(s[1]) and is_consistent(s[1]), name
        vol, m1, m2 = solid_moments(polygons(s))
        assert vol > 0, name
        t = triangulated(s, 0b1011)
        assert solid_moments(polygons(t)) == (vol, m1, m2), name
        apex = (3, -7, 2)
        assert solid_moments(polygons(s), apex) == (vol, m1, m2), name
        V, F = arrays(s)
        v2, a2, b2 = np_solid_moments(V, F)
        assert close(v2, float(vol)) and close(a2, [float(x) for x in m1])
        assert close(b2, [[float(x) for x in r] for r in m2]), name
        assert flux_moments(polygons(s))[0] == 0
    assert solid_moments(polygons(catalogue()['box']))[0] == 6
    for n in (1, 2, 5):
        for t in (0, 1, 3):
            assert is_closed(tube(n, t)[1]) and is_consistent(tube(n, t)[1]) and solid_moments(polygons(tube(n, t)))[0] == 2 * n
    assert solid_moments(polygons(catalogue()['cavity']))[0] == 62


def solids(names):
    c = catalogue()
    return [(n, c[n]) for n in names]


def powerset(n):
    return itertools.product((0, 1), repeat=n)
