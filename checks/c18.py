"""C18: hydrostatics depend neither on what was computed before nor on the frame, numbering, triangulation or dry parts."""
import itertools

import numpy as np

from mc import derived as D, geom, hydro
from mc.core import Violation, quiet, require

LEVEL = 'model_checking'
RULE = ('a case is a prefix of calls: all sequences of calls (hydrostatics with options, equilibria, reports) up to the depth on shared hulls, '
        'centers and matrices are executed, every result is compared with that of the same call on new objects, earlier results and '
        'all inputs must stay as they were; or (hull, rotation): every transformation of the family compared with the plain call, at several scales; corrections of sizes 1e-3 to 1e-300')
ASSUMPTIONS = ['hulls of the catalogue']
CHUNK = 1
CASE_LIMIT = 120.

SCALARS = ['grav', 'rho_water', 'wet_surface_area', 'disp_volume', 'disp_mass', 'waterplane_area', 'transversal_metacentric_radius',
           'longitudinal_metacentric_radius', 'transversal_metacentric_height', 'longitudinal_metacentric_height', 'stiffness_matrix',
           'length_at_waterline', 'breadth_at_waterline', 'length_overall_submerged', 'breadth_overall_submerged', 'draught',
           'forward_perpendicular', 'breadth', 'trust_lpp', 'length_between_perpendiculars', 'Ixx', 'Iyy', 'Izz', 'Ixy', 'Ixz', 'Iyz',
           'buoyancy_center', 'waterplane_center']


class World(object):
    """objects shared by the calls of a history"""

    def __init__(self):
        c = geom.catalogue()
        self.meshes = {'barge': geom.mesh(geom.box(-6, 6, -2, 2, -1, 2), name='barge'), 'hull': geom.mesh(geom.shift(c['hull'], (1, 0, 0)), name='hull'),
                       'submarine': geom.mesh(hydro.hulls()['submarine'], name='sub')}
        self.cogs = {'zero': np.zeros(3), 'array': np.array([0.25, 0.125, 0.5]), 'list': [0.5, -0.25, 1.]}
        self.rots = {'eye': np.eye(3), 'R': np.array([[float(x) for x in r] for r in hydro.rot(0, '1/20')]), 'tiny': np.array([[1., 0., 0.], [0., 1., -2e-8], [0., 2e-8, 1.]])}

    def state(self):
        out = {}
        for k, m in self.meshes.items():
            out[k] = (m.name, m.vertices.tobytes(), m.faces.tobytes(), repr(D.report(D.clone(m))))
        for k, v in list(self.cogs.items()) + list(self.rots.items()):
            out[k] = (type(v).__name__, np.asarray(v).tobytes(), np.asarray(v).dtype.str)
        return out


def calls():
    from meshmagick import hydrostatics as H

    def hs(m, cog, rho=1025., g=9.81, rot=None, **kw):
        def f(w):
            k = dict(kw)
            if rot:
                k['rotmat_corr'] = w.rots[rot]
            return H.compute_hydrostatics(w.meshes[m], w.cogs[cog], rho, g, **k)
        return f
    return {
        'barge': hs('barge', 'zero'),
        'barge at cog': hs('barge', 'array', at_cog=True, z_corr=-0.25, lpp=11.),
        'barge R': hs('barge', 'list', rho=1000., rot='R', z_corr=0.1, orig_at_ap=True),
        'barge tiny': hs('barge', 'array', rot='tiny', z_corr=-1e-9),
        'hull': hs('hull', 'list', at_cog=True),
        'hull R': hs('hull', 'array', rot='eye', z_corr=0.25),
        'submarine': hs('submarine', 'zero', g=9.8),
        'disp hull': lambda w: H.displacement_equilibrium(w.meshes['hull'], 9., 1025., 9.81),
        'disp barge': lambda w: H.displacement_equilibrium(w.meshes['barge'], 60., 1025., 9.81, cog=w.cogs['list'], reltol=1e-8),
        'full barge': lambda w: H.full_equilibrium(w.meshes['barge'], w.cogs['array'], 50., 1025., 9.81),
        'report': lambda w: H.get_hydrostatic_report(H.compute_hydrostatics(w.meshes['hull'], w.cogs['zero'], 1025., 9.81)),
    }


def freeze(x):
    """deep comparable value of a result"""
    if isinstance(x, dict):
        return tuple((k, freeze(v)) for k, v in sorted(x.items()))
    if isinstance(x, (tuple, list)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(np.round(np.asarray(x, float).ravel(), 9).tolist()))
    if hasattr(x, 'vertices') and hasattr(x, 'faces'):
        return ('mesh', freeze(np.asarray(x.vertices)), freeze(np.asarray(x.faces)))
    if isinstance(x, (float, np.floating)):
        return round(float(x), 9)
    return x


def cases(tier):
    names = list(calls())
    for a in names:
        for b in names:
            yield dict(kind='history', prefix=[a, b], depth=3 if tier == 'quick' else 4)
    for h in hydro.hulls():
        for r in hydro.rotations():
            yield dict(kind='frame', hull=h, rotation=r, fine=int(tier == 'thorough'))
    for h in hydro.hulls():
        for k in SCALES if tier == 'thorough' else SCALES[len(h) % 2::2]:
            yield dict(kind='frame', hull=h, rotation='heel-trim' if len(h) % 3 else 'none', fine=0, scale=k)
    for h in hydro.hulls():
        yield dict(kind='tiny', hull=h)


SCALES = [2, 10, 100, 1000]
POWERS = [3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 30, 300]


def eq(a, b, what, tol=1e-9):
    if not geom.close(np.asarray(a, float), np.asarray(b, float), tol, tol * 10):
        raise Violation('%s is %s, expected %s' % (what, np.asarray(a).tolist(), np.asarray(b).tolist()))


def history(case, rec):
    table = calls()
    ref = {}
    with quiet():
        for n in table:
            ref[n] = freeze(table[n](World()))
        states = set()
        tails = [t for k in range(case['depth'] - 1) for t in itertools.product(table, repeat=k)]
        for tail in tails:
            seq = case['prefix'] + list(tail)
            w = World()
            before = w.state()
            kept = []
            for i, n in enumerate(seq):
                r = table[n](w)
                last = i == len(seq) - 1
                require(freeze(r) == ref[n], lambda: 'after %s: %s gives\n%s\nand on new objects\n%s' % (seq[:i], n, D.short(freeze(r)), D.short(ref[n])))
                kept.append((n, r))
                rec.count('transitions')
                if last:
                    after = w.state()
                    for k in before:
                        require(after[k] == before[k], lambda: '%s: the input %s is modified' % (seq, k))
                    for m, q in kept:
                        require(freeze(q) == ref[m], lambda: '%s: the result of %s, returned before, is modified' % (seq, m))
            rec.count('traces')
            states.add(tuple(sorted(seq)))
    rec.count('states', len(states))
    rec.outcome('history')
    rec.hit()


def frame(case, rec):
    from meshmagick.hydrostatics import compute_hydrostatics
    R = hydro.rotations()[case['rotation']]
    base = geom.shift(hydro.hulls()[case['hull']], (1, -2, 0))
    unit = case.get('scale', 1)
    base = geom.scaled(base, (unit, unit, unit))
    cog = (0.5 * unit, 0.25 * unit, 1. * unit)
    Rf = np.array([[float(x) for x in row] for row in R])
    V0, F0 = geom.arrays(base)
    lev = hydro.levels(base, R)
    if not case['fine']:
        lev = lev[:3]
    n = 0
    for z in lev:
        e = hydro.exact(base, R, z, cog)
        if e is None or e['gap'] < 2e-3:
            continue
        zf = float(z)
        name = '%s %s z %g' % (case['hull'], case['rotation'], zf)

        def go(V, F, c, at_cog=True, **kw):
            from meshmagick.mesh import Mesh
            return compute_hydrostatics(Mesh(V, F), np.array(c, float), 1025., 9.81, at_cog=at_cog, **kw)

        def same(a, b, what, keys=SCALARS, **other):
            for k in keys:
                scale = np.max(np.abs(np.asarray(b[k], float)))
                if not np.all(np.abs(np.asarray(a[k], float) - np.asarray(other.get(k, b[k]), float)) <= 2e-4 * (k == 'stiffness_matrix') + 1e-7 * (1 + scale)):
                    raise Violation('%s, %s: %s is %s, expected %s' % (name, what, k, np.asarray(a[k]).tolist(), np.asarray(other.get(k, b[k])).tolist()))
            rec.count('transitions')
        with quiet():
            for at_cog in (False, True):
                kw = dict(at_cog=at_cog)
                ref = go(V0, F0, cog, rotmat_corr=Rf, z_corr=zf, **kw)
                n += 1
                # same hull described otherwise
                nv = len(V0)
                perm = [(7 * i + 3) % nv for i in range(nv)]
                if len(set(perm)) != nv:
                    perm = list(range(nv))[::-1]
                variants = {'vertices renumbered': geom.renumbered(base, perm), 'faces in another order': (base[0], base[1][::-1]),
                            'faces starting elsewhere': geom.rolled(base, 1), 'triangulated': geom.triangulated(base),
                            'triangulated otherwise': geom.triangulated(base, 0b0110101), 'subdivided': geom.subdivided(base)}
                for what, s in variants.items():
                    V, F = geom.arrays(s)
                    h = np.abs((V @ Rf.T)[:, 2] + zf)
                    if np.any((h > 1e-9) & (h < 2e-3)):
                        continue        # snapped on the plane
                    same(go(V, F, cog, rotmat_corr=Rf, z_corr=zf, **kw), ref, what)
                # equivalence with a hull moved before
                Vm = V0 @ Rf.T + [0, 0, zf]
                cm = Rf @ np.array(cog) + [0, 0, zf]
                m = go(Vm, F0, cm, **kw)
                same(m, ref, 'correction given or applied before', [k for k in SCALARS if 'center' not in k])
                for k in ('buoyancy_center', 'waterplane_center'):
                    eq(m[k], Rf @ ref[k] + [0, 0, zf], '%s, hull moved before: %s' % (name, k), 1e-8)
                # dry parts
                top = float(np.ceil(Vm[:, 2].max())) + 2.
                for what, s in (('dry box above', geom.box(-3, 5, -1, 1, top, top + 2)), ('dry box aside', geom.box(50, 52, 60, 61, 1, 3)),
                                ('dry sheet', (geom.box(-3, 5, -1, 1, top, top + 2)[0], [(0, 1, 2, 3)]))):
                    VV, FF = geom.arrays(s)
                    same(go(np.vstack([VV, Vm]), np.vstack([FF, F0 + len(VV)]), cm, **kw), m, what)
                # horizontal moves
                for d in ((5., -3., 0.), (-120., 64., 0.)):
                    d = np.array(d)
                    t = go(Vm + d, F0, cm + d, **kw)
                    same(t, m, 'translated', [k for k in SCALARS if 'center' not in k and k not in ('stiffness_matrix', 'forward_perpendicular', 'transversal_metacentric_radius',
                         'longitudinal_metacentric_radius', 'transversal_metacentric_height', 'longitudinal_metacentric_height') or
                         (at_cog and 'center' not in k and k != 'forward_perpendicular')])
                    for k in ('buoyancy_center', 'waterplane_center'):
                        eq(t[k], m[k] + d, '%s translated: %s' % (name, k), 1e-7)
                    eq(t['forward_perpendicular'], m['forward_perpendicular'] + d[0], name + ' translated: forward_perpendicular', 1e-8)
                for what, T in (('quarter turn', hydro.rot(2, 1)), ('half turn', hydro.matmul(hydro.rot(2, 1), hydro.rot(2, 1))), ('turned', hydro.rot(2, '2/5'))):
                    T = np.array([[float(x) for x in row] for row in T])
                    t = go(Vm @ T.T, F0, T @ cm, **kw)
                    same(t, m, what, ['wet_surface_area', 'disp_volume', 'disp_mass', 'waterplane_area', 'draught', 'Izz'])
                    for k in ('buoyancy_center', 'waterplane_center'):
                        eq(t[k], T @ m[k], '%s %s: %s' % (name, what, k), 1e-7)
                    K, K2 = m['stiffness_matrix'], t['stiffness_matrix']
                    Q = np.eye(3)
                    Q[1:, 1:] = T[:2, :2]
                    scale = 1e-7 * (1 + np.abs(K).max())
                    if not np.all(np.abs(Q @ K @ Q.T - K2) <= scale + 1e-3):
                        raise Violation('%s %s: stiffness matrix is %s, expected %s' % (name, what, K2.tolist(), (Q @ K @ Q.T).tolist()))
                    I, I2 = [np.array([[h['Ixx'], -h['Ixy'], -h['Ixz']], [-h['Ixy'], h['Iyy'], -h['Iyz']], [-h['Ixz'], -h['Iyz'], h['Izz']]]) for h in (m, t)]
                    if not np.all(np.abs(T @ I @ T.T - I2) <= 1e-8 * (1 + np.abs(I).max())):
                        raise Violation('%s %s: inertia is %s, expected %s' % (name, what, I2.tolist(), (T @ I @ T.T).tolist()))
                    a, b = m['transversal_metacentric_radius'] + m['longitudinal_metacentric_radius'], t['transversal_metacentric_radius'] + t['longitudinal_metacentric_radius']
                    eq(b, a, name + ' ' + what + ': sum of metacentric radii', 1e-7)
        rec.count('traces')
    rec.count('states', n)
    rec.outcome('frame' if n else 'never across')
    if n:
        rec.hit()


def moved_mesh(V, F):
    from meshmagick.mesh import Mesh
    return Mesh(V, F.copy())


def tiny(case, rec):
    """corrections of any size, however small: nothing given is modified, and the next call is not influenced"""
    from meshmagick.hydrostatics import compute_hydrostatics
    base = geom.shift(hydro.hulls()[case['hull']], (1, -2, 0))
    V, F = geom.arrays(base)
    levels = []
    for z in hydro.levels(base, hydro.ONE):
        e = hydro.exact(base, hydro.ONE, z, (0, 0, 0))
        if e is not None and .05 < e['gap'] < .999:
            levels.append(float(z))
    if not levels:
        levels = [float(z) for z in hydro.levels(base, hydro.ONE)[:1]]
    z0 = levels[0]
    cog0 = np.array([0.5, -0.25, 1.])
    mesh, cog = geom.mesh(geom.shift(base, (0, 0, 0))), cog0.copy()
    V, F = mesh.vertices.copy(), mesh.faces.copy()
    with quiet():
        ref = freeze({k: compute_hydrostatics(mesh.copy(), cog.copy(), 1025., 9.81, z_corr=z0)[k] for k in SCALARS})
        for axis in (0, 1, 2, None):
            for p in POWERS:
                for sign in (1, -1):
                    a = sign * 10. ** -p
                    R = np.eye(3)
                    if axis is not None:
                        i, j = [(1, 2), (2, 0), (0, 1)][axis]
                        R[i, i] = R[j, j] = np.cos(a)
                        R[i, j], R[j, i] = -np.sin(a), np.sin(a)
                    z = z0 + (a if axis is None else 0.)
                    R0 = R.copy()
                    what = '%s, correction of %g %s' % (case['hull'], a, 'vertically' if axis is None else 'around axis %d' % axis)
                    hs = compute_hydrostatics(mesh, cog, 1025., 9.81, rotmat_corr=R, z_corr=z)
                    require(np.array_equal(mesh.vertices, V) and np.array_equal(mesh.faces, F), lambda: what + ': the mesh is modified')
                    require(np.array_equal(cog, cog0), lambda: what + ': the center of gravity is modified')
                    require(np.array_equal(R, R0), lambda: what + ': the matrix is modified')
                    require(np.array_equal(hs['rotmat_eq'], R0) and hs['z_eq'] == z, lambda: what + ': correction returned')
                    again = freeze({k: compute_hydrostatics(mesh, cog, 1025., 9.81, z_corr=z0)[k] for k in SCALARS})
                    require(again == ref, lambda: what + ': the plain computation made next gives\n%s\nand before\n%s' % (D.short(again), D.short(ref)))
                    before = compute_hydrostatics(moved_mesh(V @ R0.T + [0, 0, z], F), R0 @ cog0 + [0, 0, z], 1025., 9.81)
                    for k in SCALARS:
                        if 'center' in k:
                            continue
                        x, y = np.asarray(hs[k], float), np.asarray(before[k], float)
                        require(np.all(np.abs(x - y) <= 2e-4 * (k == 'stiffness_matrix') + 1e-9 * (1 + np.abs(y).max())),
                                lambda: '%s: %s is %s, and %s for the mesh moved before' % (what, k, x.tolist(), y.tolist()))
                    rec.count('transitions', 3)
    rec.count('traces')
    rec.outcome('tiny corrections')
    rec.hit()


def evaluate(case, rec):
    dict(history=history, frame=frame, tiny=tiny)[case['kind']](case, rec)
