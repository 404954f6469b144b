"""C26: size figures."""
import contextlib
import io
import re

import numpy as np

from mc import derived as D, geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (mesh, transform, block of face subsets): all non empty subsets of faces of small meshes (a fixed family of subsets for '
        'the bigger ones); or a number of slices; every figure is compared with the definition; non trivial: a subset mixing triangles and quadrangles')
ASSUMPTIONS = ['every face of the mesh counts its own edges in edge statistics (shared edges count twice)']
CHUNK = 2

MAPS = {'plain': ((1, 1, 1), (0, 0, 0)), 'shifted': ((1, 1, 1), (-7, 11, 3)), 'negative': ((2, 3, 5), (-100, -100, -100)),
        'flat': ((1, 1, 0), (2, 0, 0)), 'tiny': ((1e-3, 2e-3, 1e-3), (0, 0, 0)), 'huge': ((1e4, 1e5, 1e3), (1e5, 0, -1e5))}


def hosts():
    c = geom.catalogue()
    return {k: c[k] for k in ('wedge', 'tetra', 'box', 'pyramid', 'hull', 'frustum', 'hexprism')}


def cases(tier):
    out = []
    for h, s in hosts().items():
        nf = len(s[1])
        for mp in MAPS:
            top = 1 << nf
            if nf > 8 and tier == 'quick':
                out.append(dict(host=h, map=mp, subsets=sorted(set(range(1, top, 37)) | {top - 1} | {1 << i for i in range(nf)})))
            else:
                for b in range(1, top, 256):
                    out.append(dict(host=h, map=mp, subsets=[b, min(b + 256, top)], range=1))
    for n in geom.SIZES + geom.BIG:
        out.append(dict(size=n))
    return out


def check(w, g, what):
    m = geom.mesh((w, g), name='the name')
    P = np.array(w, float)
    lo, hi = P.min(axis=0), P.max(axis=0)
    bb = [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]]
    require(geom.close(m.axis_aligned_bbox, bb, 1e-12, 0), lambda: what + ': bbox %s' % (m.axis_aligned_bbox,))
    c, r = (lo + hi) / 2, (hi - lo).max() / 2
    sq = [c[0] - r, c[0] + r, c[1] - r, c[1] + r, c[2] - r, c[2] + r]
    require(geom.close(m.squared_axis_aligned_bbox, sq, 1e-9, 1e-12),
            lambda: what + ': squared bbox %s, expected %s' % (m.squared_axis_aligned_bbox, sq))
    nt = sum(q[0] == q[3] for q in g)
    require((m.nb_vertices, m.nb_faces, m.nb_triangles, m.nb_quadrangles) == (len(w), len(g), nt, len(g) - nt),
            lambda: what + ': counts')
    require([int(i) for i in m.triangles_ids] == [i for i, q in enumerate(g) if q[0] == q[3]], lambda: what + ': triangles_ids')
    require([int(i) for i in m.quadrangles_ids] == [i for i, q in enumerate(g) if q[0] != q[3]], lambda: what + ': quadrangles_ids')
    L = []
    for i, q in enumerate(g):
        p = geom.poly_of(q)
        require([int(x) for x in m.get_face(i)] == list(p), lambda: what + ': get_face(%d)' % i)
        require(bool(m.is_triangle(i)) == (len(p) == 3), lambda: what + ': is_triangle(%d)' % i)
        L += [np.linalg.norm(P[p[k]] - P[p[k - 1]]) for k in range(len(p))]
    require(geom.close([m.min_edge_length, m.max_edge_length, m.mean_edge_length], [min(L), max(L), np.mean(L)], 1e-9, 0),
            lambda: what + ': edge lengths %s, expected %s' % (
                [m.min_edge_length, m.max_edge_length, m.mean_edge_length], [min(L), max(L), np.mean(L)]))
    text = str(m)
    require('the name' in text, lambda: what + ': name not in the summary')
    nums = [int(x) for x in re.findall(r'Number of \w+:\s+(\d+)', text)]
    require(nums == [len(w), len(g), nt, len(g) - nt], lambda: what + ': summary\n' + text)
    ext = dict(re.findall(r'([xyz]m\w\w) = (\S+)', text))
    require([ext.get(k) for k in ('xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax')] == ['%f' % x for x in bb],
            lambda: what + ': summary\n' + text)
    return nt


def quality(w, g, what):
    """printed quality: number of elements, range of areas, edge ratios and smallest angles of triangles and quadrangles"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        geom.mesh((w, g)).print_quality()
    text = out.getvalue()
    P = np.array(w, float)
    for name, nb in (('Triangle', 3), ('Quadrilateral', 4)):
        polys = [P[list(geom.poly_of(q))] for q in g if len(geom.poly_of(q)) == nb]
        block = re.search(name + r' quality of the mesh \((\d+) elements\):(.*?)\n\n', text + '\n\n', re.S)
        require(block and int(block.group(1)) == len(polys), lambda: '%s: %d elements expected in\n%s' % (what, len(polys), text))
        if not polys:
            continue
        area, ratio, angle = [], [], []
        for p in polys:
            e = np.roll(p, -1, axis=0) - p
            le = np.linalg.norm(e, axis=1)
            area.append(np.linalg.norm(sum(np.cross(p[i] - p[0], p[i + 1] - p[0]) for i in range(1, nb - 1))) / 2)
            ratio.append(le.max() / le.min())
            angle.append(min(np.degrees(np.arccos(np.clip(-e[i] @ e[i - 1] / le[i] / le[i - 1], -1, 1))) for i in range(nb)))
        for label, vals in (('Area Ratio', area), ('Edge Ratio', ratio), ('Minimal Angle', angle)):
            got = re.search(label + r':\s+range: (\S+)  -  (\S+)\s+average: (\S+)  , standard deviation: (\S+)', text[text.index(name + ' quality'):])
            require(got and geom.close([float(got.group(k)) for k in (1, 2, 3)], [min(vals), max(vals), np.mean(vals)], 2e-5, 1e-30),
                    lambda: '%s: %s of the %ss %s, expected %s' % (what, label, name, got and got.groups(), (min(vals), max(vals), np.mean(vals))))


def evaluate(case, rec):
    if 'size' in case:
        n = case['size']
        for t in (0, 1, 3):
            for k, d in ((1, 0), (1e-4, 0.3), (1e4, -7)):
                v, f = geom.tube(n, t)
                check([(x * k + d, y * k - d, (z + .001 * x) * k) for x, y, z in v], f, 'box in %d slices (%d), scaled by %g' % (n, t, k))
                v, f = geom.strip(n)
                check([(x * k + d, y * k - d, z * k) for x, y, z in v], f, 'strip of %d triangles, scaled by %g' % (n, k))
                rec.count('evaluations', 2)
        rec.hit()
        rec.outcome('size')
        return
    v, f = hosts()[case['host']]
    s, t = MAPS[case['map']]
    v = [tuple(a * k + d for a, k, d in zip(p, s, t)) for p in v]
    subs = range(*case['subsets']) if case.get('range') else case['subsets']
    for bits in subs:
        ids = [i for i in range(len(f)) if (bits >> i) & 1]
        fs = [f[i] for i in ids]
        used = sorted({i for q in fs for i in q})
        mm = {o: k for k, o in enumerate(used)}
        w, g = [v[i] for i in used], [tuple(mm[i] for i in q) for q in fs]
        rec.count('evaluations')
        what = '%s %s faces %s' % (case['host'], case['map'], ids)
        nt = check(w, g, what)
        if case['map'] != 'flat' and len(subs) <= 256:
            quality(w, g, what)
        if 0 < nt < len(g):
            rec.hit()
    rec.outcome('%s %s' % (case['host'], case['map']))
