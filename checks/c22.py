"""C22: figures printed by the command line (hydrostatics, inertia) against exact integrals over the mesh of the file."""
import itertools
import math
import os
import re
from fractions import Fraction as Fr

import numpy as np

from mc import cli, geom, hydro, io
from mc.core import Violation, quiet, require

LEVEL = 'exploration'
RULE = ('a case is (hull, mode of -hs, previous operation) or (surface, inertia block); all combinations of water density, gravity, lpp, origin at AP, report '
        'file, output file, long or short options; of density by value/name/default, thickness, plain/shell; every figure printed and written is compared '
        'with exact integrals over the mesh at the position given by the library equilibrium; non trivial: a report was compared')
ASSUMPTIONS = ['position of equilibrium given by displacement_equilibrium and full_equilibrium (C19, C20)',
               'reports are read by their labels; printed figures are rounded']
CHUNK = 1
CASE_LIMIT = 300.

SC = 10
HULLS = ['box', 'hull', 'trapeze', 'lprism', 'ring', 'tribox', 'catamaran', 'frustum']
MODES = ['zg', 'disp zg', 'cog', 'disp cog', 'disp cog zg', 'cog zg']
PRE = {'none': ([], None), 'tz': (['-tz', '-0.75'], lambda m: m.translate_z(-.75)), 'r': (['-r', '2', '-1.5', '40'], lambda m: m.rotate(np.radians([2, -1.5, 40.]))),
       's': (['-s', '2.5'], lambda m: m.scale(2.5))}
LINE = re.compile(r'^\s*(?:\[\d+\])?\s*(\S[^>]*?)\s*-{2,}>\s+(.*\S)\s*$')
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def parse(text):
    """{label: list of [values as texts]} in the order of the report"""
    out = {}
    for line in text.splitlines():
        m = LINE.match(line)
        if m:
            out.setdefault(m.group(1).strip().upper(), []).append(m.group(2).split())
    return out


def ulp(s):
    """half a unit of the last digit printed"""
    m = re.match(r'^[-+]?\d*\.?(\d*)(?:[eE]([-+]?\d+))?$', s)
    if not m:
        raise Violation('not a figure: %r' % s)
    return .5 * 10. ** (int(m.group(2) or 0) - len(m.group(1)))


def compare(what, label, got, want, tol):
    want = np.atleast_1d(np.asarray(want, float))
    require(len(got) == len(want), lambda: '%s: %s: %s' % (what, label, got))
    for s, w in zip(got, want):
        v, u = float(s), ulp(s)
        require(u <= max(.06, 6e-4 * abs(v)), lambda: '%s: %s: %s is printed with too few digits' % (what, label, s))
        if not abs(v - w) <= u * 1.01 + tol:
            raise Violation('%s: %s is %s, expected %.9g' % (what, label, got, w))


def figures(report, what, e, rho, grav, lpp, ap, R, z, cog, slack):
    f = hydro.figures(e, rho, grav, True, lpp, ap)
    p = parse(report)

    def line(label, want, tol=0., nth=0):
        rows = p.get(label.upper())
        require(rows is not None and len(rows) > nth, lambda: '%s: no line %s in the report' % (what, label))
        w = np.abs(np.asarray(want, float)).max()
        compare(what, label, rows[nth], want, tol + slack * w)

    heel = math.degrees(math.atan2(R[2][1], R[2][2]))
    trim = math.degrees(-math.asin(max(-1., min(1., R[2][0]))))
    line('Z correction (M)', float(z), slack * e['L'])
    line('Heel correction (deg)', heel, slack * 100)
    line('Trim correction (deg)', trim, slack * 100)
    line('Gravity acceleration (M/S**2)', grav)
    line('Density of water (kg/M**3)', rho)
    L = e['L']
    for label, key in (('Waterplane area (M**2)', 'waterplane_area'), ('Waterplane center (M)', 'waterplane_center'),
                       ('Wetted Surface Area (M**2)', 'wet_surface_area'), ('Displacement volume (M**3)', 'disp_volume'),
                       ('Buoyancy center (M)', 'buoyancy_center'), ('Draft (M)', 'draught'),
                       ('Length overall submerged (M)', 'length_overall_submerged'), ('Breadth overall submerged (M)', 'breadth_overall_submerged'),
                       ('Transversal metacentric radius (M)', 'transversal_metacentric_radius'),
                       ('Longitudinal metacentric radius (M)', 'longitudinal_metacentric_radius'),
                       ('Transversal metacentric height GMt (M)', 'transversal_metacentric_height'),
                       ('Longitudinal metacentric height GMl (M)', 'longitudinal_metacentric_height')):
        line(label, f[key][0], f[key][1] + slack * L)
    mass = f['disp_mass'][0]
    line('Displacement mass (tons)', mass / 1000, f['disp_mass'][1] / 1000)
    line('Center of gravity (M)', [float(c) for c in cog], slack * L)
    known = 'length_at_waterline' in f
    if known:
        line('Length at Waterline LWL (M)', f['length_at_waterline'][0], slack * L)
        line('Forward perpendicular FP (M)', f['forward_perpendicular'][0], slack * L)
        line('Length between perpendiculars Lpp (M)', f['length_between_perpendiculars'][0], slack * L)
        marked = re.search(r'^\s*\[2\]\s*LENGTH BETWEEN', report, re.M) is not None
        require(marked == (lpp is None and not ap), lambda: what + ': approximation of Lpp wrongly told')
        ryy = .25 * f['length_between_perpendiculars'][0]
        rxx = .3 * f['breadth_overall_submerged'][0]
        line('Rxx (M)', rxx, slack * L)
        line('Ryy (M)', ryy, slack * L)
        line('Rzz (M)', ryy, slack * L)
        line('Ixx', rxx ** 2 * mass, 4 * slack * L * L * mass)
        line('Iyy', ryy ** 2 * mass, 4 * slack * L * L * mass)
        line('Izz', ryy ** 2 * mass, 4 * slack * L * L * mass)
    K, t = f['stiffness_matrix']
    t += slack * np.abs(K).max()
    for label, i, j in (('K33 (N/M)', 0, 0), ('K34 (N)', 0, 1), ('K35 (N)', 0, 2), ('K44 (N.M)', 1, 1), ('K45 (N.M)', 1, 2), ('K55 (N.M)', 2, 2)):
        line(label, K[i, j], t)
    for k, a in enumerate('xyz'):
        I, ti = f['I%s%s' % (a, a)]
        line('R%s%s' % (a, a), math.sqrt(I / mass), slack * L + ti / mass)
        line('I%s%s' % (a, a), I, ti + 4 * slack * L * L * mass, 1 if known or len(p.get('I%s%s' % (a.upper(), a.upper()), [])) > 1 else 0)
    for word, key in (('TRANSVERSALLY UNSTABLE', 'transversal_metacentric_height'), ('LONGITUDINALLY UNSTABLE', 'longitudinal_metacentric_height')):
        v, tol = f[key]
        if abs(v) > tol + slack * L:
            require((word in report.upper()) == (v < 0), lambda: '%s: instability wrongly told (metacentric height %g)' % (what, v))


SURFACES = ['box', 'hull', 'lprism', 'sheared', 'cavity', 'tribox', 'open']


def cases(tier):
    out = []
    for h in HULLS if tier == 'quick' else [k for k in hydro.hulls() if k not in ('submarine', 'cavity')]:
        for mode in MODES:
            for pre in PRE:
                out.append(dict(hull=h, mode=mode, pre=pre, full=int(pre == 'none' or tier != 'quick'), sc=[10, 1]))
            # small hulls
            for sc in ([1, 1], [1, 4], [3, 32]):
                out.append(dict(hull=h, mode=mode, pre='none', full=int(tier != 'quick'), sc=sc))
        out.append(dict(library=h))
    for h in HULLS[:3]:
        out.append(dict(errors=h))
    for s in SURFACES:
        for pre in PRE:
            out.append(dict(surface=s, pre=pre))
    out.append(dict(media=1))
    return out


def wipe():
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)


def source(shape, pre):
    """writes the mesh; shape moved by the previous operation (floats)"""
    from meshmagick.mesh import Mesh
    wipe()
    V, F = geom.arrays(shape)
    V = np.round(V, 6)      # digits of the file
    io.write('in.nem', V, F, 'nem')
    m = Mesh(V.copy(), F.copy())
    if pre is not None:
        with quiet():
            pre(m)
    return np.array(m.vertices), np.array(m.faces)


def evaluate(case, rec):
    if 'hull' in case:
        evaluate_hs(case, rec)
    elif 'library' in case:
        evaluate_library(case, rec)
    elif 'errors' in case:
        evaluate_errors(case, rec)
    elif 'media' in case:
        evaluate_media(case, rec)
    else:
        evaluate_inertia(case, rec)


def stable_cog(V, F, side):
    """center of gravity giving a small list and positive metacentric heights"""
    from checks.c20 import wet
    v, b, A, c, J = wet(V, F)
    r = np.linalg.eigvalsh(J)[0] / v
    return v, np.array([b[0] + side * .02 * r, b[1] - side * .015 * r, b[2] + (.3 if side else .2) * r])


def evaluate_hs(case, rec):
    from meshmagick import hydrostatics as hs
    from meshmagick.mesh import Mesh
    sc = Fr(*case['sc'])
    shape = geom.shift(geom.scaled(hydro.hulls()[case['hull']], (sc, sc, sc)), (7 * sc / 10, -4 * sc / 10, 0))
    fine = 64 if sc == 10 else 1024
    nd = 0 if sc == 10 else 3 if sc == 1 else 6
    h = sorted({p[2] for p in shape[0]})
    zs = [-(.55 * h[0] + .45 * h[-1]), -(.3 * h[0] + .7 * h[-1])]
    mode = case['mode']
    for nz, z in enumerate(zs):
        shape1 = geom.shift(shape, (0, 0, Fr(round(z * fine), fine)))
        V, F = source(shape1, PRE[case['pre']][1])
        src = open('in.nem', 'rb').read()
        ex = lambda R, z, cog: hydro.exact(([tuple(Fr(float(c)) for c in p) for p in V], [tuple(f) for f in F]), R, z, cog)
        e0 = ex(hydro.ONE, Fr(0), (0, 0, 0))
        if e0 is None or e0['gap'] < 2e-3:
            rec.outcome('vertices near the plane')
            continue
        v0, cg = stable_cog(V, F, nz)
        waters = [(None, None), (1000., None), (1030.5, 9.7), (None, 9.806)]
        combos = list(itertools.product(waters, [(None, 0), (33.25, 0), (None, 1), (41.5, 1)], [0, 1], [0, 1]))
        if not case['full']:
            combos = combos[nz::11]
        solved = {}
        for n, ((wd, g), (lpp, ap), report, out) in enumerate(combos):
            rho, grav = wd or 1025., g or 9.81
            long_ = n % 2
            args = ['in.nem'] + PRE[case['pre']][0]
            opts = [['-hs' if not long_ else '--hydrostatics']]
            total = float(geom.solid_moments(geom.polygons((V.tolist(), [tuple(f) for f in F])))[0])
            tons = round(min(v0 * 1.1, .8 * total) * rho / 1000, 1 + nd)
            if 'disp' in mode:
                opts.append(['-mdisp' if not long_ else '--mass-displacement', repr(tons)])
            if 'cog' in mode:
                cog = [round(float(c), 3 + nd) for c in cg]
                opts.append(['-cog' if not long_ else '--cog'] + [repr(c) for c in cog])
            zg = (-12.5, 3.25, 40.)[n % 3] * float(sc / 10)
            if 'zg' in mode:
                opts.append(['-zg' if not long_ else '--zcog', repr(zg)])
            if wd:
                opts.append(['-wd' if not long_ else '--water-density', repr(wd)])
            if g:
                opts.append(['-g' if not long_ else '--grav', repr(g)])
            if lpp:
                opts.append(['-lpp' if not long_ else '--lpp', repr(lpp)])
            if ap:
                opts.append(['-ap' if not long_ else '--orig-at-ap'])
            if report:
                opts.append(['--hs-report', 'report.txt'])
            if out:
                opts.append(['-o', 'out.nem'])
            k = n % len(opts)
            args += [a for o in opts[k:] + opts[:k] for a in o]
            what = 'meshmagick ' + ' '.join(args) + ' (%s)' % case['hull']
            for f in ('report.txt', 'out.nem'):
                if os.path.exists(f):
                    os.remove(f)
            text, err = cli.run(*args)
            rec.count('evaluations')
            if err is not None:
                raise Violation('%s: %r' % (what, err))
            # position
            key = (rho, grav)
            if key not in solved:
                with quiet():
                    m = Mesh(V.copy(), F.copy())
                    if mode == 'zg':
                        zz, R = 0., np.eye(3)
                    elif mode == 'disp zg':
                        zz, R = hs.displacement_equilibrium(m, tons, rho, grav), np.eye(3)
                    elif 'disp' in mode:
                        zz, R = hs.full_equilibrium(m, np.array(cog), tons, rho, grav)
                    else:
                        zz, R = hs.full_equilibrium(m, np.array(cog), rho * v0 / 1000, rho, grav)
                R = [[Fr(float(x)) for x in r] for r in R]
                b = ex(R, Fr(float(zz)), (0, 0, 0))
                solved[key] = zz, R, b
            zz, R, b = solved[key]
            if 'cog' in mode:
                c = cog
            else:
                c = hydro.back(R, (b['b'][0], b['b'][1], b['b'][2] - b['z']))[:2] + (Fr(zg),)
            e = hydro.exact(([tuple(Fr(float(c)) for c in p) for p in V], [tuple(f) for f in F]), R, Fr(float(zz)), c) if (key, 'e', zg) not in solved else \
                solved[key, 'e', zg]
            solved[key, 'e', zg] = e
            slack = 0. if mode == 'zg' else 2e-5
            if e['gap'] < 2e-3:
                rec.outcome('vertices near the plane')
                continue
            if 'disp' in mode:
                require(abs(float(e['vol']) * rho / 1000 / tons - 1) < 1e-5, lambda: what + ': displaced mass')
            args_ = (e, rho, grav, lpp, ap, [[float(x) for x in r] for r in R], zz, c, slack)
            figures(text, what, *args_)
            require(os.path.exists('report.txt') == bool(report) and os.path.exists('out.nem') == bool(out), lambda: what + ': files written')
            if report:
                body = open('report.txt').read()
                figures(body, what + ', report file', *args_)
                require('in.nem' in body, lambda: what + ': the report does not tell its mesh')
            if out:
                V1, F1 = io.load('out.nem', 'nem')
                W = V @ np.array([[float(x) for x in r] for r in R]).T + [0, 0, zz]
                require(V1.shape == W.shape and np.abs(V1 - W).max() <= 2e-6 + slack * e['L'] and io.rings(F1) == io.rings(F),
                        lambda: '%s: the mesh written is not the input mesh moved by the correction\n%s\nexpected\n%s' % (what, V1, W))
            require(open('in.nem', 'rb').read() == src, lambda: what + ': the input file is modified')
            rec.outcome(mode)
            rec.hit()


def evaluate_library(case, rec):
    """report of a computation of the library, for any correction (yaw included)"""
    from meshmagick import hydrostatics as hs
    shape = geom.shift(geom.scaled(hydro.hulls()[case['library']], (SC, SC, SC)), (7, -4, 0))
    for (name, R), n in zip(sorted(hydro.rotations().items()), itertools.count()):
        for cut in hydro.levels(shape, R)[n % 2::2]:
            cog = (Fr(13, 2), Fr(-3), Fr(5, 2))
            e = hydro.exact(shape, R, cut, cog)
            if e is None or e['gap'] < 2e-3 or max(abs(x) for x in (R[2][0],)) > Fr(999, 1000):
                continue
            lpp, ap = ((None, False), (33.25, False), (None, True), (41.5, True))[n % 4]
            Rf = np.array([[float(x) for x in r] for r in R])
            with quiet():
                d = hs.compute_hydrostatics(geom.mesh(shape), np.array([float(c) for c in cog]), 1017.5, 9.79, rotmat_corr=Rf, z_corr=float(cut),
                                            at_cog=True, lpp=lpp, orig_at_ap=ap)
                text = hs.get_hydrostatic_report(d)
            figures(text, 'report of %s, %s, z %s' % (case['library'], name, cut), e, 1017.5, 9.79, lpp, ap, Rf.tolist(), cut, cog, 0.)
            rec.count('evaluations')
            rec.hit()
            rec.outcome('library ' + name)


def evaluate_errors(case, rec):
    shape = geom.scaled(hydro.hulls()[case['errors']], (SC, SC, SC))
    V, F = source(shape, None)
    top, bottom = V[:, 2].max(), V[:, 2].min()
    mass = geom.mesh(shape).volume * 1.025
    bad = [['-hs'], ['-hs', '-mdisp', repr(mass / 2)], ['-tz', repr(1 - bottom), '-hs', '-zg', '1'], ['-tz', repr(-1 - top), '-hs', '-zg', '1'],
           ['-tz', repr(1 - bottom), '-hs', '-zg', '1', '-mdisp', repr(mass / 2)], ['-hs', '-cog', '1', '2', '-mdisp', '3'],
           ['-hs', '-zg', 'abc'], ['-tz', repr(-1 - top), '-hs', '-cog', '0', '0', '0']]
    for a in bad:
        for report in (0, 1):
            args = ['in.nem'] + a + ['-o', 'out.nem'] + (['--hs-report', 'report.txt'] if report else [])
            text, err = cli.run(*args)
            what = 'meshmagick ' + ' '.join(args)
            rec.count('evaluations')
            require(err is not None, lambda: what + ': no error')
            require('K33' not in text, lambda: what + ': a report is printed in spite of the error')
            require(not os.path.exists('out.nem') and not os.path.exists('report.txt'), lambda: what + ': a file is written in spite of the error')
    rec.hit()
    rec.outcome('errors')


HEAD = re.compile(r'^.*(plain|uniform|shell).*density\s+(%s)' % NUM, re.I | re.M)


def blocks(text):
    """[(is shell, density, thickness, mass, cog, matrix, point)] as texts"""
    out = []
    for part in re.split(r'(?=Inertial parameters)', text):
        if not part.startswith('Inertial'):
            continue
        head = part.splitlines()[0]
        shell = 'shell' in head
        rho = re.search(r'density\s+(%s)' % NUM, head).group(1)
        th = re.search(r'thickness\s+of\s+(%s)' % NUM, head)
        mass = re.search(r'Mass\s*=\s*(%s)\s*tons' % NUM, part).group(1)
        cog = [re.search(r'%sg\s*=\s*(%s)' % (a, NUM), part).group(1) for a in 'xyz']
        rows = re.search(r'Inertia matrix \(SI\):\s*\n((?:.*\n){3})', part).group(1).split()
        pt = re.search(r'Expressed at point\s*:\s*(.*)', part).group(1).split()
        out.append((shell, rho, th.group(1) if th else None, mass, cog, rows, pt))
    return out


def evaluate_inertia(case, rec):
    c = geom.catalogue()
    if case['surface'] == 'open':
        v, f = geom.scaled(c['lprism'], (5, 5, 5))
        shape = (v, f[:5])
    else:
        shape = geom.shift(geom.scaled(c[case['surface']], (5, 5, 5)), (3, -7, 2))
    V, F = source(shape, PRE[case['pre']][1])
    polys = geom.fpolys(V, F)
    vol, m1, m2 = geom.np_solid_moments(V, F)
    A, s1, s2 = geom.np_surface_moments(V, F)[:3]
    L = 1 + np.abs(V).max()
    rhos = [(None, None), ('7.5', 7.5), ('2300', 2300.), ('1.5e4', 1.5e4), ('STEEL', 7850.), ('salt_water', 1025.), ('Lead', 11350.), ('AIR_20DEGC', 1.204)]
    for (rtext, rval), th, which, cog_order in itertools.product(rhos, (None, .5, .0125), ('-pi', '-si', '-pi -si', '--plain-inertia', '--shell-inertia'), (0, 1)):
        if 'pi' not in which and 'si' not in which and rval is None:
            continue
        opts = [[w] for w in which.split()]
        if rtext:
            opts.append(['--rho-medium', rtext])
        if th:
            opts.append(['--thickness', repr(th)])
        if cog_order:
            opts = opts[::-1]
        args = ['in.nem'] + PRE[case['pre']][0] + [a for o in opts for a in o]
        what = 'meshmagick ' + ' '.join(args) + ' (%s)' % case['surface']
        text, err = cli.run(*args)
        rec.count('evaluations')
        if err is not None:
            raise Violation('%s: %r' % (what, err))
        got = blocks(text)
        plain, shell = 'p' in which.replace('shell', ''), 's' in which.replace('plain-inertia', 'p')
        require(sorted(b[0] for b in got) == [False] * plain + [True] * shell, lambda: what + ': reports printed: %s' % got)
        for sh, r, t, mass, cog, rows, pt in got:
            rho = rval or (7850. if sh else 1023.)
            k = rho * (th or .02) if sh else rho
            M0, M1, M2 = (A, s1, s2) if sh else (vol, m1, m2)
            compare(what, 'density', [r], rho, 0.)
            if sh:
                require(t is not None and abs(float(t) - (th or .02)) <= 6e-4, lambda: what + ': thickness printed %s' % t)
            u = lambda s: ulp(s) * 1.01
            require(abs(float(mass) - k * M0 / 1000) <= u(mass) + 1e-9 * k * M0, lambda: '%s: mass %s tons, expected %g' % (what, mass, k * M0 / 1000))
            if not sh and case['surface'] == 'open':
                continue
            compare(what, 'center of gravity', cog, M1 / M0, 1e-9 * L)
            P = np.array([float(x) for x in pt])
            dp = np.array([u(x) for x in pt])
            if not np.any(P):
                dp = dp * 0
            S = M2 - np.outer(P, M1) - np.outer(M1, P) + M0 * np.outer(P, P)
            I = k * (np.trace(S) * np.eye(3) - S)
            tol = 1e-9 * k * abs(M0) * L * L + 4 * k * abs(M0) * L * dp.max()
            for q, x in enumerate(rows):
                w = I[q // 3, q % 3]
                require(abs(float(x) - w) <= u(x) + tol, lambda: '%s: inertia matrix %s, expected\n%s' % (what, rows, I))
            rec.outcome('shell' if sh else 'plain')
            rec.hit()


def evaluate_media(case, rec):
    from meshmagick import densities
    from meshmagick.mesh import Mesh
    # densities of the documentation (kg/m**3)
    ref = {'CONCRETE': 2300., 'REINFORCED_CONCRETE': 2400., 'FRESH_WATER': 1000., 'SALT_WATER': 1025., 'SAND': 1600., 'STEEL': 7850., 'ALUMINUM': 2700.,
           'LEAD': 11350., 'TITANIUM': 4500., 'POLYSTYRENE': 1050., 'GASOLINE': 750., 'DIESEL_FUEL': 850., 'ETHANOL': 789., 'AIR_20DEGC': 1.204,
           'BUTANE': 2.7, 'PROPANE': 2.01, 'HYDROGEN_-252DEGC': 70., 'NITROGEN_-195DEGC': 810.}
    V, F = source(geom.scaled(geom.box(), (4, 5, 10)), None)
    names = list(densities.list_medium())
    require(set(ref) <= set(names), lambda: 'media lost: %s' % (set(ref) - set(names)))
    text, err = cli.run('in.nem', '--list-medium')
    require(err is None, lambda: '--list-medium: %r' % err)
    for n in names:
        d = densities.get_density(n)
        if n in ref:
            require(abs(d - ref[n]) < 1e-9 * ref[n], lambda: 'density of %s: %g' % (n, d))
        m = re.search(r'\|\s*%s\s*\|\s*(%s)\s*\|' % (re.escape(n), NUM), text)
        require(m and abs(float(m.group(1)) - d) < 6e-4, lambda: '--list-medium does not tell %s' % n)
        for name in (n, n.lower(), n.capitalize()):
            t, err = cli.run('in.nem', '-pi', '--rho-medium', name)
            require(err is None, lambda: '--rho-medium %s: %r' % (name, err))
            b = blocks(t)
            require(len(b) == 1 and abs(float(b[0][3]) - d * 200 / 1000) <= 6e-4, lambda: '--rho-medium %s: mass %s tons' % (name, b))
            rec.count('evaluations')
    for bad in ('', 'nothing', 'STEEL ', '1,5'):
        t, err = cli.run('in.nem', '-pi', '--rho-medium', bad)
        require(err is not None, lambda: '--rho-medium %r is accepted' % bad)
    rec.hit()
    rec.outcome('media')
