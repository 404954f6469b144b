"""Reference hydrostatics: exact integrals (rationals) over the immersed part of a polyhedron."""
from fractions import Fraction as Fr

import numpy as np

from mc import geom

ONE = [[Fr(1), Fr(0), Fr(0)], [Fr(0), Fr(1), Fr(0)], [Fr(0), Fr(0), Fr(1)]]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rot(axis, t):
    """rational rotation around an axis: half angle of tangent t"""
    t = Fr(t)
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    M = [list(r) for r in ONE]
    M[i][i], M[i][j], M[j][i], M[j][j] = c, -s, s, c
    return M


def rotations():
    return {
        'none': ONE,
        'heel': rot(0, Fr(1, 16)),
        'trim': rot(1, Fr(-1, 20)),
        'yaw': rot(2, Fr(1, 3)),
        'heel-trim': matmul(rot(1, Fr(1, 9)), rot(0, Fr(-1, 5))),
        'all': matmul(rot(0, Fr(2, 7)), matmul(rot(1, Fr(-1, 4)), rot(2, Fr(3, 5)))),
        'quarter': rot(2, 1),
        'capsized': rot(0, 4),
        'on side': rot(1, 1),
    }


def apply(R, p):
    return tuple(sum(R[i][j] * p[j] for j in range(3)) for i in range(3))


def moved(shape, R, z):
    v, f = shape
    out = []
    for p in v:
        q = apply(R, tuple(Fr(c) for c in p))
        out.append((q[0], q[1], q[2] + z))
    return out, list(f)


def waterline(wet):
    """(points of the waterline, whether an edge on the water plane is shared by two immersed faces)"""
    net = {}
    for p in wet:
        for a, b in zip(p, p[1:] + p[:1]):
            if a[2] == 0 and b[2] == 0 and a != b:
                net.setdefault((min(a, b), max(a, b)), []).append(1 if a < b else -1)
    pts, ridge = set(), False
    for (a, b), d in net.items():
        if sum(d):
            pts |= {a, b}
        else:
            ridge = True
    return pts, ridge


def exact(shape, R, z, cog):
    """dictionary of exact values (floats of rationals) in the corrected frame; None when the hull is not across the water"""
    v, f = moved(shape, R, Fr(z))
    h = [p[2] for p in v]
    if not min(h) < 0 or max(h) < 0:
        return None
    polys = geom.polygons((v, f))
    wet = geom.clip_polys(polys, (0, 0, 1), 0)
    s0, s1, s2 = geom.flux_moments(wet, 2)
    area = -s0
    if area <= 0:
        return None
    pts, ridge = waterline(wet)
    vol, m1, m2 = geom.solid_moments(wet)      # the cap lies on a plane through the apex
    wc = apply(R, tuple(Fr(c) for c in cog))
    wc = (wc[0], wc[1], wc[2] + Fr(z))
    b = [x / vol for x in m1]
    used = [p for q in wet for p in q]
    d = dict(area=area, mx=-s1[0], my=-s1[1], mxx=-s2[0][0], myy=-s2[1][1], mxy=-s2[0][1], vol=vol, b=b, wcog=wc,
             m2=m2, ridge=ridge, wet=sum(geom.poly_surface_moments(p)[0] for p in wet), R=R, z=Fr(z),
             bbox=[(min(p[i] for p in used), max(p[i] for p in used)) for i in range(3)],
             wl=[(min(p[i] for p in pts), max(p[i] for p in pts)) for i in range(2)] if pts else None)
    # distance of the vertices which are not on the plane
    d['gap'] = float(min([abs(x) for x in h if x != 0] or [1]))
    d['L'] = 1. + max(abs(float(c)) for p in v for c in p) + max(abs(float(c)) for c in wc)
    return d


def back(R, p):
    """R^T p"""
    return tuple(sum(R[j][i] * p[j] for j in range(3)) for i in range(3))


def figures(e, rho, grav, at_cog, lpp, orig_at_ap):
    """name -> (expected value, absolute tolerance)"""
    eps, L = 1e-9, e['L']
    rg = rho * grav
    A, V = e['area'], e['vol']
    b, wc, R, z = e['b'], e['wcog'], e['R'], e['z']
    ox, oy = (b[0], b[1]) if at_cog else (Fr(0), Fr(0))
    mx, my = e['mx'] - ox * A, e['my'] - oy * A
    mxx = e['mxx'] - 2 * ox * e['mx'] + ox * ox * A
    myy = e['myy'] - 2 * oy * e['my'] + oy * oy * A
    mxy = e['mxy'] - ox * e['my'] - oy * e['mx'] + ox * oy * A
    a = wc[2] - b[2]
    fl = float
    r = {}
    Lv = eps * L ** 3 / fl(V)        # relative error of the volume
    r['grav'] = (grav, 0.)
    r['rho_water'] = (rho, 0.)
    r['z_eq'] = (fl(z), 1e-12 * L)
    r['disp_volume'] = (fl(V), eps * L ** 3)
    r['disp_mass'] = (rho * fl(V), rho * eps * L ** 3)
    r['wet_surface_area'] = (fl(e['wet']), eps * L ** 2)
    r['waterplane_area'] = (fl(A), eps * L ** 2)
    r['buoyancy_center'] = ([fl(x) for x in back(R, (b[0], b[1], b[2] - z))], 1e-8 * L * (1 + Lv * 1e9 * L / L))
    tf = 1e-8 * L * (1 + L ** 2 / fl(A))
    r['buoyancy_center'] = (r['buoyancy_center'][0], 1e-8 * L * (1 + L ** 3 / fl(V)))
    r['waterplane_center'] = ([fl(x) for x in back(R, (e['mx'] / A, e['my'] / A, -z))], tf)
    tr = 1e-8 * L * (1 + L ** 3 / fl(V))
    r['transversal_metacentric_radius'] = (fl(myy / V), tr)
    r['longitudinal_metacentric_radius'] = (fl(mxx / V), tr)
    r['transversal_metacentric_height'] = (fl(myy / V - a), 2 * tr)
    r['longitudinal_metacentric_height'] = (fl(mxx / V - a), 2 * tr)
    gmt, gml = myy - a * V, mxx - a * V
    K = [[A, my, -mx], [my, gmt, -mxy], [-mx, -mxy, gml]]
    r['stiffness_matrix'] = (np.array([[rg * fl(x) for x in row] for row in K]), 1.1e-4 + rg * eps * 10 * L ** 4)
    if e['wl'] is not None and not e['ridge']:
        (x0, x1), (y0, y1) = e['wl']
        t = 1e-8 * L
        r['length_at_waterline'] = (fl(x1 - x0), t)
        r['breadth_at_waterline'] = (fl(y1 - y0), t)
        r['breadth'] = (fl(y1 - y0), t)
        r['forward_perpendicular'] = (fl(x1), t)
        r['trust_lpp'] = (bool(lpp is not None or orig_at_ap), 0)
        r['length_between_perpendiculars'] = (lpp if lpp is not None else fl(x1) if orig_at_ap else fl(x1 - x0), t)
    t = 1e-8 * L
    r['length_overall_submerged'] = (fl(e['bbox'][0][1] - e['bbox'][0][0]), t)
    r['breadth_overall_submerged'] = (fl(e['bbox'][1][1] - e['bbox'][1][0]), t)
    r['draught'] = (fl(-e['bbox'][2][0]), t)
    # inertia of the displaced homogeneous volume about the center of gravity
    m2 = e['m2']
    c = [[m2[i][j] - wc[i] * b[j] * V - wc[j] * b[i] * V + wc[i] * wc[j] * V for j in range(3)] for i in range(3)]
    ti = rho * 1e-8 * L ** 5
    r['Ixx'] = (rho * fl(c[1][1] + c[2][2]), ti)
    r['Iyy'] = (rho * fl(c[0][0] + c[2][2]), ti)
    r['Izz'] = (rho * fl(c[0][0] + c[1][1]), ti)
    r['Ixy'] = (rho * fl(c[0][1]), ti)
    r['Ixz'] = (rho * fl(c[0][2]), ti)
    r['Iyz'] = (rho * fl(c[1][2]), ti)
    return r


def hulls():
    c = geom.catalogue()
    out = {k: c[k] for k in ('box', 'tetra', 'octa', 'wedge', 'pyramid', 'frustum', 'lprism', 'ring', 'trapeze', 'hexprism',
                             'hull', 'tribox', 'twoboxes', 'cavity', 'sheared', 'subwedge')}
    # inverted pyramid, catamaran with bridge above, stepped hull, barge with a wholly immersed body beside
    out['keel'] = geom.affine(c['pyramid'], [[1, 0, 0], [0, -1, 0], [0, 0, -1]])
    out['catamaran'] = geom.union(geom.box(0, 6, 0, 1, -1, 1), geom.box(0, 6, 3, 4, -1, 1))
    out['submarine'] = geom.union(geom.box(0, 4, 0, 2, -1, 1), geom.shift(geom.octa(1, 1, 1), (2, 6, -4)))
    # steps: prism along y over an L and an upside down L
    L = geom.lprism(0, 5)
    out['step down'] = geom.affine(L, [[1, 0, 0], [0, 0, -1], [0, 1, 0]])
    out['step up'] = geom.affine(L, [[1, 0, 0], [0, 0, 1], [0, -1, 0]])
    return out


def levels(shape, R, extra=()):
    """vertical shifts: water at the middle of consecutive levels of vertices, and at these levels when they are exact"""
    h = sorted({apply(R, tuple(Fr(c) for c in p))[2] for p in shape[0]})
    cuts = [(a + b) / 2 for a, b in zip(h, h[1:])]
    for w in extra:
        cuts += [a + (b - a) * w for a, b in zip(h, h[1:])]
    if R is ONE:
        cuts += h[1:]
    # dyadic so that the shift given is exact
    out = []
    for c in cuts:
        out.append(-c if R is ONE and Fr(float(c)) == c else -Fr(int(c * 1024), 1024))
    return out
