"""C13: a truncated file is never loaded silently as a smaller mesh."""
import re

import numpy as np

from mc import geom, io
from mc.core import CaseTimeout, Violation, quiet, require

LEVEL = 'fault_enumeration'
RULE = ('a case is (format, mesh, cut kind): the file is written by the writer (or, for formats without writer, from an independent '
        'description), then cut at every end of line and at every blank between tokens; every cut file is loaded and a Mesh is built '
        'from it; the outcome must be an error or the complete mesh; non trivial: the cut removes data of the mesh')
ASSUMPTIONS = ['the cut falls between tokens: a cut inside a number cannot be told from another number',
               'formats declaring their sizes or terminating their sections; cuts between two sections of a DAT file, which '
               'give another legal file, are left out']
CHUNK = 1
CASE_LIMIT = 120.

tri = geom.tri
F = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 1), (1, 2, 1), (2, 2, 1)]
SHAPES = {
    'tri': ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [tri(0, 1, 2)]),
    'quad': ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(0, 1, 2, 3)]),
    'tris': ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 1)], [tri(0, 1, 2), tri(3, 2, 1), tri(0, 3, 1)]),
    'quads': geom.box(0, 2, 0, 3, 0, 1),
    'tq': (F, [tri(0, 1, 3), (1, 2, 5, 4), tri(3, 1, 4), (3, 4, 7, 6), tri(4, 5, 8), tri(8, 7, 4)]),
    'qt': (F, [(3, 4, 7, 6), (1, 2, 5, 4), tri(8, 7, 4), tri(4, 5, 8), tri(0, 1, 3), tri(3, 1, 4)]),
    'hull': geom.hull(), 'ring': geom.ring(), 'subwedge': geom.subdivided(geom.wedge()),
}
FMTS = ['nem', 'nat', 'gdf', 'pnl', 'tec', 'msh2', 'msh4', 'vtk', 'vtp', 'vtu', 'mar', 'dat']


def msh2(V, F):
    out = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str(len(V))]
    out += ['%d %.16g %.16g %.16g' % ((i + 1,) + tuple(p)) for i, p in enumerate(V.tolist())]
    out += ['$EndNodes', '$Elements', str(len(F))]
    for i, f in enumerate(F.tolist()):
        p = f[:3] if f[0] == f[3] else f
        out.append('%d %d 2 99 2 %s' % (i + 1, len(p) - 1, ' '.join(str(k + 1) for k in p)))
    return '\n'.join(out + ['$EndElements', ''])


def msh4(V, F):
    nv, nf = len(V), len(F)
    out = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$Nodes', '1 %d 1 %d' % (nv, nv), '2 1 0 %d' % nv]
    out += ['%d' % (i + 1) for i in range(nv)]
    out += ['%.16g %.16g %.16g' % tuple(p) for p in V.tolist()]
    tris = [f[:3] for f in F.tolist() if f[0] == f[3]]
    quads = [f for f in F.tolist() if f[0] != f[3]]
    out += ['$EndNodes', '$Elements', '%d %d 1 %d' % (bool(tris) + bool(quads), nf, nf)]
    k = 0
    for t, block in ((2, tris), (3, quads)):
        if block:
            out.append('2 %d %d %d' % (t - 1, t, len(block)))
            for p in block:
                k += 1
                out.append('%d %s' % (k, ' '.join(str(i + 1) for i in p)))
    return '\n'.join(out + ['$EndElements', ''])


def cases(tier):
    shapes = ['tri', 'quad', 'tris', 'quads', 'tq', 'qt', 'hull'] if tier == 'quick' else list(SHAPES)
    for s in shapes:
        for f in FMTS:
            for cut in ('lines', 'tokens'):
                yield dict(shape=s, fmt=f, cut=cut)
    for n, t in ((4, 2), (11, 0), (11, 1), (24, 3), (32, 2)) + (((64, 3), (130, 2)) if tier == 'thorough' else ()):
        for f in FMTS:
            yield dict(shape='tube %d %d' % (n, t), fmt=f, cut='lines')
            if n < 6 or tier == 'thorough':
                yield dict(shape='tube %d %d' % (n, t), fmt=f, cut='tokens')


def evaluate(case, rec):
    from meshmagick.mesh import Mesh
    fmt = case['fmt']
    if case['shape'].startswith('tube'):
        V, F = geom.arrays(geom.tube(*map(int, case['shape'].split()[1:])))
    else:
        V, F = geom.arrays(SHAPES[case['shape']])
    V = V * 1.5 - 0.25
    if fmt in ('msh2', 'msh4'):
        data = (msh2 if fmt == 'msh2' else msh4)(V, F)
        ext = 'msh'
    else:
        ext = fmt
        io.write('full.' + ext, V, F, ext)
        data = open(io.path_of('full.' + ext, ext)).read()
    name = 'cut.' + ext

    def attempt(text):
        """None (error) or the mesh loaded"""
        with open(name, 'w') as f:
            f.write(text)
        try:
            with quiet():
                from meshmagick import mmio
                v, f = mmio.load_mesh(name, ext)
                m = Mesh(v, f)
                return np.array(m.vertices), np.array(m.faces)
        except Exception as err:
            rec.outcome('%s %s' % (fmt, type(err).__name__))
            return None

    def same(m):
        try:
            if fmt in ('msh2', 'msh4'):
                v, f = m
                if v.shape != V.shape or not np.allclose(v, V, atol=1e-9) or len(f) != len(F):
                    return False
                if f.min() < 0 or f.max() >= len(v):
                    return False
                return sorted(io.rings(f)) == sorted(io.rings(F))
            io.compare(fmt, V, F, m[0], m[1])
            return bool(m[1].min() >= 0 and m[1].max() < len(m[0]))
        except (Violation, IndexError, ValueError):
            return False

    m = attempt(data)
    require(m is not None and same(m), 'the complete %s file is not loaded as the mesh' % fmt)
    if case['cut'] == 'lines':
        cuts = [k.end() for k in re.finditer('\n', data)] + [k.start() for k in re.finditer('\n', data)] + [0]
    else:
        cuts = sorted({k.start() for k in re.finditer(r'[ \t]+', data)} | {k.end() for k in re.finditer(r'[ \t]+', data)})
    for k in cuts:
        if fmt == 'dat' and 0 < data.rfind('ELEMENT', 0, k) < data.rfind('*RETURN', 0, k):
            continue    # between two sections: a legal file having less sections
        rec.count('evaluations')
        m = attempt(data[:k])
        if m is None:
            rec.hit()
            continue
        if not same(m):
            line = data[:k].count('\n') + 1
            raise Violation('%s file (mesh %s, %d vertices, %d faces) cut at byte %d of %d (line %d: %r) is loaded without error as a mesh '
                            'of %d vertices and %d faces: %r' % (fmt, case['shape'], len(V), len(F), k, len(data), line,
                                                             data[:k].splitlines()[-1][-40:] if k else '', len(m[0]), len(m[1]), m[1].tolist()[:6]))
        rec.outcome(fmt + ' complete')
