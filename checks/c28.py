"""C28: what is written conforms to the format (strict parsers independent of the loaders)."""
import itertools
import os

import numpy as np

from mc import geom, io, strict
from mc.core import Violation, require

LEVEL = 'exploration'
RULE = ('a case is (format, first kinds of faces): every sequence of triangles and quadrangles up to the length is written and the file '
        'parsed by a strict parser of the format; or (format, sizes), (format, magnitudes), (format, pairs of meshes written one over the other in '
        'every order); non trivial: mixed triangles and quadrangles, or several files')
ASSUMPTIONS = ['faces are not degenerated and points of a mesh are further apart than the precision of the format', 'coordinates below 1e9 (1e7 for mar), null or above 1e-30']
CHUNK = 1
CASE_LIMIT = 240.

ALL = io.RW + sorted(io.ALIASES)


def cases(tier):
    depth = 6 if tier == 'quick' else 8
    for f in io.RW:
        for k in range(4):
            yield dict(kind='patterns', fmt=f, first=k, depth=depth)
        yield dict(kind='sizes', fmt=f, tier=tier)
        yield dict(kind='magnitudes', fmt=f)
        yield dict(kind='over', fmt=f)
    for a in sorted(io.ALIASES):
        yield dict(kind='over', fmt=a)


def one(V, F, fmt, name, what):
    base = io.ALIASES.get(fmt, fmt)
    V0, F0 = V.copy(), F.copy()
    io.write(name, V, F, fmt)
    require(np.array_equal(V, V0) and np.array_equal(F, F0), lambda: what() + ': writing modified the mesh')
    path = io.path_of(name, fmt)
    require(os.path.exists(path), lambda: what() + ': no file %s' % path)
    with open(path, newline='') as f:
        text = f.read()
    try:
        V1, F1 = strict.parse(base, text)
        io.compare(base, V0, F0, V1, F1)
    except Violation as err:
        raise Violation('%s: the file does not conform to the format or is not the mesh: %s' % (what(), err))
    except (IndexError, ValueError, KeyError, AttributeError) as err:
        raise Violation('%s: the file does not conform to the format: %s %s\n%s' % (what(), type(err).__name__, err, text[:2000]))


def band(kinds, roll=0):
    """a band of triangles and quadrangles of the given kinds, each face at its own place, vertices partly shared"""
    v, f = [(0., 0., 0.), (0., 1., .25)], []
    for i, k in enumerate(kinds):
        n = len(v)
        if k:
            v += [(i + 1., .125 * i, -.5), (i + 1., 1.5, .5 * i)]
            q = (n - 2, n, n + 1, n - 1)
        else:
            v += [(i + .75, 1.25 + .01 * i * i, -.25 * i - .03 * i ** 3)]
            q = (n - 2, n, n - 1)
        r = (roll + i) % len(q) if roll else 0
        q = q[r:] + q[:r]
        f.append(q if k else q + q[:1])
    return geom.arrays((v, f))


def evaluate(case, rec):
    kind, f = case['kind'], case['fmt']
    if kind == 'patterns':
        first = [case['first'] >> 1 & 1, case['first'] & 1]
        todo = [[first[0]]] if case['first'] in (0, 2) else []
        for n in range(case['depth'] - 1):
            todo += [first + list(r) for r in itertools.product((0, 1), repeat=n)]
        for kinds in todo:
            for roll in (0, 1, 2, 3, 4):
                V, F = band(kinds, roll)
                V = V * [1 / 3., -1.7, 12.5] + [.1, 1 / 7., 0]
                if roll == 2:       # an unused vertex, other numbering, other order
                    V = np.vstack([V, [[9., 9., 9.]]])[::-1]
                    F = (len(V) - 1 - F)[::-1]
                elif roll > 2:      # an unused vertex at the end, or in the middle
                    k = len(V) if roll == 3 else len(V) // 2
                    V = np.vstack([V[:k], [[9., 9., 9.]], V[k:]])
                    F = np.where(F >= k, F + 1, F)
                one(V, F, f, 'pattern.' + f, lambda: 'faces %s (1: quadrangle), starting vertex %d' % (kinds, roll))
                rec.count('evaluations')
        rec.hit()
        rec.outcome('patterns ' + f)
    elif kind == 'sizes':
        for n in geom.SIZES + geom.BIG[:2] + ([12500, 25000, 26000] if case['tier'] == 'thorough' else [25000]):
            for t in (0, 1, 3) if n < 1000 else (3,):
                V, F = geom.arrays(geom.tube(n, t))
                V = V * [1.013, -0.77, 1.3] + [0.03, 5.5, -17]
                if t == 1:
                    F = F[::-1]
                one(V, F, f, 'size.' + f, lambda: '%d vertices and %d faces' % (len(V), len(F)))
                rec.count('evaluations')
        rec.hit()
        rec.outcome('sizes ' + f)
    elif kind == 'magnitudes':
        from checks.c12 import MAG
        V0, F = geom.arrays((MAG, [(0, 1, 2, 3), (0, 1, 4, 0), (2, 4, 3, 2)]))
        for k in range(-25, 9):
            for s in (1, -1):
                for a in (0, .37, -4.2):
                    V = (V0 - a) * s * 10. ** k
                    if np.abs(V).max() >= (1e7 if f == 'mar' else 1e9):
                        continue
                    if f in ('mar', 'nem', 'vtk', 'obj', 'pnl', 'stl') and k < -5:
                        continue
                    one(V, F, f, 'mag.' + f, lambda: 'coordinates x %d x 1e%d' % (s, k))
                    rec.count('evaluations')
        rec.hit()
        rec.outcome('magnitudes ' + f)
    else:
        meshes = {'hull': geom.hull(), 'wedge': geom.wedge(), 'tetra': geom.tetra(), 'box': geom.box(-1, 2, 0, 3, -.5, 1),
                  'one': ([(0, 0, 0), (1, 0, 0), (0, 1, .5)], [geom.tri(1, 2, 0)]), 'cavity': geom.cavity()}
        e = io.ALIASES.get(f, f)
        for a, b in itertools.product(meshes, repeat=2):
            for name in ('over.' + e, 'no extension.x' if e != 'dat' else 'two.dots.dat'):
                for s in (a, b):
                    V, F = geom.arrays(meshes[s])
                    one(V, F, f, name, lambda: '%s, then %s in the same file' % (a, b))
                    rec.count('evaluations')
        rec.hit()
        rec.outcome('files ' + f)
