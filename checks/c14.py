"""C14: loaders understand conforming files produced by other tools."""
import itertools
import os
import struct

import numpy as np

from mc import geom, io
from mc.core import Violation, require

LEVEL = 'exploration'
RULE = ('a case is (format, mesh); every combination of the layout options of the format (blanks, wrapping of lines, number notation, '
        'numbering, sections, comments, encodings) is generated from an independent description of the format, loaded, and compared '
        'with the vertices and faces described; non trivial: the mesh has several faces')
ASSUMPTIONS = ['in formats whose reals are recognised by a pattern (RAD, HST, TEC, INP) reals are written with a decimal point',
               'formats without a triangle element describe triangles with the first vertex repeated at the end',
               'GDF panels start on a new line', 'RAD files have one node section and one element section of at least three elements']
CHUNK = 1
CASE_LIMIT = 300.

tri = geom.tri
FLAT = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 1), (1, 2, 1), (2, 2, 1)]
SHAPES = {
    'tris': geom.tetra(), 'quads': geom.box(0, 2, 0, 3, 0, 1),
    'tq': (FLAT, [tri(0, 1, 3), (1, 2, 5, 4), tri(3, 1, 4), (3, 4, 7, 6), tri(4, 5, 8), tri(8, 7, 4)]),
    'qt': (FLAT, [(3, 4, 7, 6), (1, 2, 5, 4), tri(8, 7, 4), tri(4, 5, 8), tri(0, 1, 3), tri(3, 1, 4)]),
    'onetri': ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [tri(1, 2, 0)]), 'onequad': (FLAT[:2] + FLAT[3:5], [(0, 1, 3, 2)]),
    'hull': geom.hull(),
}


def data(name):
    if name.startswith('tube'):
        n, t = map(int, name.split()[1:])
        V, F = geom.arrays(geom.tube(n, t, 1, 2))
    else:
        V, F = geom.arrays(SHAPES[name.split()[0]])
    NUM.clear()
    NUM.update(FINE if name.endswith('fine') else COARSE)
    if name.endswith('fine'):
        # generic digits, several magnitudes
        return V * [1234.5678901234567, -1 / 3., 1 / 97.] + [1 / 7., 1e5 / 3., -2 / 3e2], F
    return V * [1.25, -0.5, 0.75] + [-0.25, 1.0, -12.5], F       # exact in binary and with 4 decimals


def short_exp(x):
    """exponent without sign, of one digit"""
    return '%.6fe%d' % (x / 10., 1) if abs(x) < 10 else '%.6fE2' % (x / 100.)


NUM = {
    'fixed': lambda x: '%.4f' % x, 'exp': lambda x: '%.8E' % x, 'expl': lambda x: '%+.7e' % x,
    'short': lambda x: ('%g' % x) if '.' in ('%g' % x) else '%g.' % x,
    'nozero': lambda x: ('%.4f' % x).replace('-0.', '-.') if x < 0 else ('%.4f' % x).lstrip('0'),
    'int': lambda x: '%g' % x, 'short exp': short_exp,
}
def dotted(t):
    return t if '.' in t or 'e' in t else t + '.'


COARSE = dict(NUM)
# same notations, with all the digits of a double
FINE = {
    'fixed': lambda x: '%.17f' % x, 'exp': lambda x: '%.16E' % x, 'expl': lambda x: '%+.16e' % x, 'short': lambda x: dotted(repr(float(x))),
    'nozero': lambda x: ('%.17f' % x).replace('-0.', '-.') if x < 0 else ('%.17f' % x).lstrip('0'),
    'int': lambda x: repr(float(x)), 'short exp': lambda x: '%.17fe1' % (x / 10.),
}
SEP = {'blank': ' ', 'wide': '     ', 'tab': '\t'}
EOL = {'lf': '\n', 'crlf': '\r\n', 'trailing': '   \n'}


def opts(**kw):
    keys = list(kw)
    for vals in itertools.product(*(kw[k] for k in keys)):
        yield dict(zip(keys, vals))


def numberings(n):
    return {'seq': list(range(1, n + 1)), 'gaps': [3 * i + 7 for i in range(n)], 'down': [2 * n - i for i in range(n)],
            'shuffled': [(i * 6) % prime(n) + 1000 for i in range(n)], 'large': [99999 - n // 2 + i for i in range(n)],
            'huge': [10 ** 7 + 3 * i for i in range(n)]}


def prime(n):
    n = max(n, 7)
    while any(n % k == 0 for k in range(2, int(n ** .5) + 1)):
        n += 1
    return n


def poly(f):
    return f[:3] if f[0] == f[3] else f


# Every generator yields (layout, file name, bytes or callable writing the file, order) where order is the list of faces in
# the order they are described, or None (same order as F)
def g_mar(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int'], sep=SEP, eol=EOL, head=['2 0', '   2    1', '2 0 comment'], lead=['', '    '],
                  end=['0 0. 0. 0.', '0 0 0 0 0', '0']):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = [o['head']] + [o['lead'] + s.join([str(i + 1)] + [n(x) for x in p]) for i, p in enumerate(V)] + [o['lead'] + o['end']]
        out += [o['lead'] + s.join(str(k + 1) for k in f) for f in F] + [o['lead'] + '0 0 0 0']
        yield o, 'a.mar', EOL[o['eol']].join(out + ['']), None


def g_nem(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], sep=SEP, eol=EOL, lead=['', '    '], tail=['', '\n', 'end']):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = [o['lead'] + str(len(V)), o['lead'] + str(len(F))] + [o['lead'] + s.join(n(x) for x in p) for p in V]
        out += [o['lead'] + s.join(str(k + 1) for k in f) for f in F]
        yield o, 'a.nem', EOL[o['eol']].join(out + ['']) + o['tail'], None


def g_nat(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], sep=SEP, eol=EOL, head=['0 0', '   0     0', '0 1'], lead=['', '    '], tail=['', '\n']):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = [o['head'], o['lead'] + s.join([str(len(V)), str(len(F))])] + [o['lead'] + s.join(n(x) for x in p) for p in V]
        out += [o['lead'] + s.join(str(k + 1) for k in f) for f in F]
        yield o, 'a.nat', EOL[o['eol']].join(out + ['']) + o['tail'], None


def g_gdf(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], sep=SEP, eol=EOL, per=[1, 2, 3, 4, 5, 6, 12],
                  head=[('1. 9.81', '0 0'), ('1 9.80665 \tULEN GRAV', '0  0 \tISX  ISY'), ('   100.0   9.81', '   0   1')],
                  blank=[0, 1]):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = ['title of the file 1 2 3', o['head'][0], o['head'][1], '  %d' % len(F)]
        for f in F:
            c = [n(x) for k in f for x in V[k]]
            out += ['  ' + s.join(c[i:i + o['per']]) for i in range(0, 12, o['per'])]
            if o['blank']:
                out.append('')
        yield o, 'a.gdf', EOL[o['eol']].join(out + ['']), None


def g_pnl(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], sep=['blank', 'wide'], eol=EOL, lead=['', '    '], mark=['#', '   #']):
        n, s, m = NUM[o['num']], SEP[o['sep']], o['mark']
        out = ['    --------------Hull Mesh File---------------', '', m + ' Number of Panels, Nodes, X-Symmetry and Y-Symmetry',
               s.join(['  %d' % len(F), str(len(V)), '0', '0']), '', m + 'Start Definition of Node Coordinates ! node_number x y z']
        out += [o['lead'] + s.join([str(i + 1)] + [n(x) for x in p]) for i, p in enumerate(V)]
        out += [m + 'End Definition of Node Coordinates', '', m + 'Start Definition of Node Relations']
        out += [o['lead'] + s.join([str(i + 1), str(len(poly(f)))] + [str(k + 1) for k in poly(f)]) for i, f in enumerate(F)]
        out += [m + 'End Definition of Node Relations', '', '    --------------End Hull Mesh File---------------']
        yield o, 'a.pnl', EOL[o['eol']].join(out + ['']), None


def g_tec(V, F):
    heads = ['ZONE T="MESH" \nN=%(nv)d ,E=%(nf)d , F=FEPOINT, ET=QUADRILATERAL',
             'ZONE T="MESH", N=%(nv)d, E=%(nf)d, F=FEPOINT, ET=QUADRILATERAL',
             'ZONE N = %(nv)d, E= %(nf)d, F = FEPOINT, ET = QUADRILATERAL',
             'ZONE\n   N=      %(nv)d ,E=     %(nf)d ,F=FEPOINT,ET=QUADRILATERAL']
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'nozero', 'expl'], sep=SEP, eol=['lf', 'crlf'], head=range(len(heads)), lead=['', '    '],
                  extra=[0, 1, 3], title=[0, 1]):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = ['TITLE = "some 12 title"'] if o['title'] else []
        out += ['VARIABLES = "X","Y","Z"' + ''.join(',"P%d"' % k for k in range(o['extra']))]
        out += (heads[o['head']] % dict(nv=len(V), nf=len(F))).split('\n')
        out += [o['lead'] + s.join(n(x) for x in list(p) + [0.5 + k for k in range(o['extra'])]) for p in V]
        out += [o['lead'] + s.join(str(k + 1) for k in f) for f in F]
        yield o, 'a.tec', EOL[o['eol']].join(out + ['']), None


def g_hst(V, F):
    for num, s in numberings(len(V)).items():
        for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'nozero', 'expl'], sep=SEP, eol=['lf', 'trailing'], sections=[1, 2], head=[0, 1]):
            n, b = NUM[o['num']], SEP[o['sep']]
            o['ids'] = num
            out = ['PROJECT: p', 'USERS:   someone', '', 'NBODY   1', 'RHO   1025.0', 'GRAVITY   9.81'] if o['head'] else ['NBODY 1']
            nv = len(V) // 2 if o['sections'] == 2 else len(V)
            nf = len(F) // 2 if o['sections'] == 2 else len(F)
            node = [b.join(['  %d' % s[i]] + [n(x) for x in p]) for i, p in enumerate(V)]
            face = [b.join(['  %d' % s[f[0]]] + [str(s[k]) for k in f[1:]]) for f in F]
            for part in (node[:nv], node[nv:]):
                if part:
                    out += ['', 'COORDINATES'] + part + ['ENDCOORDINATES', '']
            for part in (face[:nf], face[nf:]):
                if part:
                    out += ['PANEL TYPE 0'] + part + ['ENDPANEL', '']
            yield o, 'a.hst', EOL[o['eol']].join(out + ['ENDFILE', '']), None


def dat_sections(V, F, o, ids, b, n):
    node = [b.join(['  %d' % ids[i]] + [n(x) for x in p]) for i, p in enumerate(V)]
    tris = [f for f in F if f[0] == f[3]]
    quads = [f for f in F if f[0] != f[3]]
    secs = []
    for kind, group in (('T3C000', tris), ('Q4C000', quads)):
        if group and o['sections'] == 2 and len(group) > 1:
            secs += [(kind, group[:1]), (kind, group[1:])]
        elif group:
            secs.append((kind, group))
    if o['order'] == 'qt':
        secs = secs[::-1]
    elem, k = [], 0
    for kind, group in secs:
        lines = []
        for f in group:
            k += 1
            lines.append(b.join(['  %d' % (k * 3)] + [str(ids[i]) for i in poly(f)]))
        elem.append((kind, lines))
    return node, elem, [f for _, g in secs for f in g]


def g_dat(V, F):
    for num, s in numberings(len(V)).items():
        for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'expl', 'int'], sep=SEP, eol=['lf', 'crlf', 'trailing'], sections=[1, 2], order=['tq', 'qt'],
                      head=[0, 1]):
            b, n = SEP[o['sep']], NUM[o['num']]
            o['ids'] = num
            node, elem, order = dat_sections(V.tolist(), F.tolist(), o, s, b, n)
            out = ['$ some comment', '$'] if o['head'] else []
            out += ['$ NODE' if o['head'] else '*NODE'] + node + ['*RETURN']
            for kind, lines in elem:
                out += ['$', '$ ELEMENT,TYPE=%s,ELSTRUCTURE=HULL' % kind] + lines + ['*RETURN']
            yield o, 'a.dat', EOL[o['eol']].join(out + ['']), ('any', order)


def g_inp(V, F):
    """one or several bodies described by DAT files and frames"""
    for num, s in list(numberings(len(V)).items()):
        for o in opts(num=['fixed', 'short exp', 'exp', 'expl'], sep=['blank', 'wide'], sections=[1, 2], order=['tq', 'qt'], bodies=[1, 2, 3],
                      same=[0, 1], eol=['lf', 'trailing'], fsep=[',', ', ', ' ']):
            if o['fsep'] == ', ' or (o['bodies'] == 1 and o['same']):
                continue
            b, n = SEP[o['sep']], NUM[o['num']]
            o['ids'] = num
            node, elem, order = dat_sections(V.tolist(), F.tolist(), o, s, b, n)
            dat = ['$', '$ NODE'] + node + ['*RETURN']
            for kind, lines in elem:
                dat += ['$', '$ ELEMENT,TYPE=%s' % kind] + lines + ['*RETURN']
            frames = [(.125437, 0., -12.00025), (10., -20., 5.5), (-7.25, 0., .0375)][:o['bodies']]
            inp = ['*DIODORE,PASS=ECN,LANG=E', '$', '*HEADING', 'TEST', '$']
            for k, fr in enumerate(frames):
                inp += ['*FRAME,NAME=FR%d' % k, o['fsep'].join(('%.6f', '%.8E', '%g')[k] % x for x in fr), '']
            files = []
            for k in range(len(frames)):
                f = 'Body%d' % (0 if o['same'] else k)
                if f not in files:
                    files.append(f)
                inp += ['$ ----- body %d' % k, '*NODE,INPUT=%s,FRAME=FR%d%s' % (f, k, ',INCREMENT=YES' if k else '')]
                inp += ['*ELEMENT,INPUT=%s,TYPE=%s,ELSTRUCTURE=B%d' % (f, kind, k) for kind, _ in elem]
                inp += ['*MASS,STRUCTURE=B%d' % k, ' 0.0000000E+00', '$']
            inp += ['*END']

            def write(name, files=files, dat=dat, inp=inp, eol=EOL[o['eol']]):
                for f in files:
                    with open(f + '.DAT', 'w') as h:
                        h.write(eol.join(dat + ['']))
                with open(name, 'w') as h:
                    h.write('\n'.join(inp + ['']))
            V1 = np.concatenate([V + fr for fr in frames])
            yield o, 'a.inp', write, ('mesh', V1, [[i + k * len(V) for i in f] for k in range(len(frames)) for f in order])


def g_rad(V, F):
    if len(F) < 3:
        return
    for num, s in numberings(len(V)).items():
        for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'nozero', 'expl'], sep=['blank', 'wide'], eol=['lf', 'trailing'], head=[0, 1]):
            b, n = SEP[o['sep']], NUM[o['num']]
            o['ids'] = num
            out = ['#RADIOSS STARTER', '/TITLE', 'mesh'] if o['head'] else []
            out += ['/NODE'] + [b.join(['%10d' % s[i]] + [n(x) for x in p]) for i, p in enumerate(V)] + ['#', '/SHELL/1']
            out += [b.join(['%10d' % (i + 1), '1', '1'] + [str(s[k]) for k in f]) for i, f in enumerate(F)] + ['#', '/END']
            yield o, 'a.rad', EOL[o['eol']].join(out + ['']), None


def g_msh2(V, F):
    for num, s in numberings(len(V)).items():
        for o in opts(num=['short', 'short exp', 'int', 'exp', 'fixed'], tags=[2, 0, 3], other=[0, 1], names=[0, 1], order=['same', 'qt'], eol=EOL, comment=[0, 1], sep=SEP):
            n, b = NUM[o['num']], SEP[o['sep']]
            lead = b if o['sep'] == 'wide' else ''
            o['ids'] = num
            out = ['$Comments', 'made by another tool', '$EndComments'] if o['comment'] else []
            out += ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
            if o['names']:
                out += ['$PhysicalNames', '1', '2 1 "hull"', '$EndPhysicalNames']
            out += ['$Nodes', str(len(V))] + [lead + b.join([str(s[i])] + [n(x) for x in p]) for i, p in enumerate(V)] + ['$EndNodes']
            el = []
            tags = ' '.join([str(o['tags'])] + [str(2 + k) for k in range(o['tags'])])
            if o['other']:
                el += ['15 %s %d' % (tags, s[0]), '1 %s %d %d' % (tags, s[0], s[1]), '1 %s %d %d' % (tags, s[2], s[1])]
            faces = F.tolist()
            if o['order'] == 'qt':
                faces = [f for f in faces if f[0] != f[3]] + [f for f in faces if f[0] == f[3]]
            for f in faces:
                el.append('%d %s %s' % (len(poly(f)) - 1, tags, ' '.join(str(s[k]) for k in poly(f))))
            out += ['$Elements', str(len(el))] + [lead + b.join([str(i + 1)] + e.split()) for i, e in enumerate(el)] + ['$EndElements']
            yield o, 'a.msh', ''.join(l + ('\n' if l[:1] == '$' and o['eol'] == 'trailing' else EOL[o['eol']]) for l in out), ('any', faces)


def g_msh4(V, F):
    for num, s in numberings(len(V)).items():
        for o in opts(num=['short', 'short exp', 'int', 'exp'], blocks=[1, 2], other=[0, 1], entities=[0, 1], physical=[0, 1]):
            n = NUM[o['num']]
            o['ids'] = num
            out = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat']
            if o['physical']:
                out += ['$PhysicalNames', '1', '2 1 "hull"', '$EndPhysicalNames']
            if o['entities']:
                out += ['$Entities', '0 0 1 0', '1 -20 -20 -20 20 20 20 0 0', '$EndEntities']
            groups = [range(len(V))] if o['blocks'] == 1 else [range(2), range(2, len(V))]
            out += ['$Nodes', '%d %d %d %d' % (len(groups), len(V), min(s), max(s))]
            for k, g in enumerate(groups):
                out += ['2 %d 0 %d' % (k + 1, len(g))] + [str(s[i]) for i in g] + [' '.join(n(x) for x in V[i]) for i in g]
            out += ['$EndNodes']
            blocks = []
            tris = [f for f in F.tolist() if f[0] == f[3]]
            quads = [f for f in F.tolist() if f[0] != f[3]]
            for t, fs in ((2, tris), (3, quads)):
                if fs and o['blocks'] == 2 and len(fs) > 1:
                    blocks += [(2, t, fs[:1]), (2, t, fs[1:])]
                elif fs:
                    blocks.append((2, t, fs))
            if o['other']:
                blocks = [(0, 15, [[0]]), (1, 1, [[0, 1], [1, 2]])] + blocks
            ne = sum(len(b[2]) for b in blocks)
            out += ['$Elements', '%d %d 1 %d' % (len(blocks), ne, ne)]
            k = 0
            for dim, t, fs in blocks:
                out.append('%d %d %d %d' % (dim, blocks.index((dim, t, fs)) + 1, t, len(fs)))
                for f in fs:
                    k += 1
                    out.append('%d %s' % (k, ' '.join(str(s[i]) for i in (f if t in (1, 15) else poly(f)))))
            yield o, 'a.msh', '\n'.join(out + ['$EndElements', '']), ('any', F.tolist())


def g_stl(V, F):
    tris = [f for f in F.tolist() if f[0] == f[3]]
    for f in F.tolist():
        if f[0] != f[3]:
            tris += [[f[0], f[1], f[2], f[0]], [f[0], f[2], f[3], f[0]]]
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], indent=['', '  ', '\t'], name=['solid a', 'solid', 'solid some name 2'], normal=['0 0 0', 'true'],
                  eol=['lf', 'crlf'], split=[0, 1]):
        n, t = NUM[o['num']], o['indent']
        out = [o['name']]
        for i, f in enumerate(tris):
            w = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
            w = w / np.linalg.norm(w)
            out += [t + 'facet normal ' + ('0 0 0' if o['normal'] != 'true' else ' '.join('%.6e' % x for x in w)), 2 * t + 'outer loop']
            out += [3 * t + 'vertex ' + ' '.join(n(x) for x in V[k]) for k in f[:3]] + [2 * t + 'endloop', t + 'endfacet']
            if o['split'] and i == 0 and len(tris) > 1:
                out += ['end' + o['name'], o['name']]
        yield o, 'a.stl', EOL[o['eol']].join(out + ['end' + o['name'], '']), ('soup', tris)
    for head in (b'binary file', b'made by solid tool', b''):
        def write(name, head=head):
            with open(name, 'wb') as h:
                h.write(head.ljust(80, b' ' if head else b'\0') + struct.pack('<I', len(tris)))
                for f in tris:
                    h.write(struct.pack('<12fH', *([0.] * 3 + [x for k in f[:3] for x in V[k]] + [0])))
        yield dict(binary=head.decode()), 'a.stl', write, ('soup', tris)


def g_obj(V, F):
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int'], sep=SEP, ref=['%d', '%d/1', '%d/1/1', '%d//1', 'neg'], groups=[0, 1], eol=['lf', 'crlf'],
                  mixed=[0, 1]):
        n, s = NUM[o['num']], SEP[o['sep']]
        out = ['# comment', 'mtllib a.mtl', 'o hull', ''] if o['groups'] else []
        out += ['v' + s + s.join(n(x) for x in p) for p in V]
        if '/' in o['ref']:
            out += ['vt 0.5 0.5', 'vn 0 0 1']
        for i, f in enumerate(F.tolist()):
            if o['groups'] and i in (0, 2):
                out += ['g part%d' % i, 'usemtl m', 's off', '# f 1 2 3']
            ref = o['ref'] if not (o['mixed'] and i % 2) else '%d'
            out.append('f' + s + s.join(str(k - len(V)) if ref == 'neg' else ref % (k + 1) for k in poly(f)))
        yield o, 'a.obj', EOL[o['eol']].join(out + ['']), ('soup', F.tolist())


def vtk_data(V, F, o, polydata=True):
    import vtk
    pts = vtk.vtkPoints()
    if o['double']:
        pts.SetDataTypeToDouble()
    for p in V:
        pts.InsertNextPoint(*p)
    grid = vtk.vtkPolyData() if polydata else vtk.vtkUnstructuredGrid()
    grid.SetPoints(pts)
    cells = []
    if o['other']:
        cells = [[0], [0, 1], [1, 2]]
    cells = cells + [poly(f) for f in F.tolist()]
    if polydata:
        arrays = [vtk.vtkCellArray() for _ in range(3)]
        for c in cells:
            a = arrays[min(len(c), 3) - 1]
            a.InsertNextCell(len(c))
            for k in c:
                a.InsertCellPoint(int(k))
        if o['other']:
            grid.SetVerts(arrays[0])
            grid.SetLines(arrays[1])
        grid.SetPolys(arrays[2])
    else:
        types = {1: vtk.VTK_VERTEX, 2: vtk.VTK_LINE, 3: vtk.VTK_TRIANGLE, 4: vtk.VTK_QUAD}
        for c in cells:
            ids = vtk.vtkIdList()
            for k in c:
                ids.InsertNextId(int(k))
            grid.InsertNextCell(types[len(c)] if not (o['polygon'] and len(c) > 2) else vtk.VTK_POLYGON, ids)
    if o['attributes']:
        a = vtk.vtkFloatArray()
        a.SetName('pressure')
        for i in range(len(V)):
            a.InsertNextValue(i * 0.5)
        grid.GetPointData().AddArray(a)
        b = vtk.vtkIntArray()
        b.SetName('part')
        for i in range(len(cells)):
            b.InsertNextValue(i)
        grid.GetCellData().AddArray(b)
    return grid


def g_vtkxml(V, F, polydata):
    import vtk
    ext = 'vtp' if polydata else 'vtu'
    for o in opts(mode=['ascii', 'binary', 'appended', 'raw'], zip=['none', 'zlib', 'lz4'], double=[0, 1], other=[0, 1], attributes=[0, 1], polygon=[0] if polydata else [0, 1],
                  big=[0, 1]):
        def write(name, o=o):
            w = vtk.vtkXMLPolyDataWriter() if polydata else vtk.vtkXMLUnstructuredGridWriter()
            w.SetFileName(name)
            w.SetInputData(vtk_data(V, F, o, polydata))
            dict(ascii=w.SetDataModeToAscii, binary=w.SetDataModeToBinary, appended=w.SetDataModeToAppended, raw=w.SetDataModeToAppended)[o['mode']]()
            w.SetEncodeAppendedData(o['mode'] != 'raw')
            dict(none=w.SetCompressorTypeToNone, zlib=w.SetCompressorTypeToZLib, lz4=w.SetCompressorTypeToLZ4)[o['zip']]()
            (w.SetByteOrderToBigEndian if o['big'] else w.SetByteOrderToLittleEndian)()
            w.Write()
        yield o, 'a.' + ext, write, None


def g_vtp(V, F):
    return g_vtkxml(V, F, True)


def g_vtu(V, F):
    return g_vtkxml(V, F, False)


def g_vtk(V, F):
    import vtk
    for o in opts(binary=[0, 1], version=[42, 51], double=[0, 1], other=[0, 1], attributes=[0, 1]):
        def write(name, o=o):
            w = vtk.vtkPolyDataWriter()
            w.SetFileName(name)
            w.SetInputData(vtk_data(V, F, o))
            (w.SetFileTypeToBinary if o['binary'] else w.SetFileTypeToASCII)()
            w.SetFileVersion(o['version'])
            w.Write()
        yield o, 'a.vtk', write, None
    for o in opts(num=['fixed', 'short exp', 'exp', 'short', 'int', 'expl'], version=['2.0', '3.0', '4.0'], type=['float', 'double'], per=[3, 1, 9, 4], case=[0, 1],
                  eol=['lf', 'crlf'], blank=[0, 1]):
        n = NUM[o['num']]
        c = [n(x) for p in V for x in p]
        out = ['# vtk DataFile Version ' + o['version'], 'title', 'ASCII'] + [''] * o['blank']
        out += ['DATASET POLYDATA' if not o['case'] else 'dataset polydata', 'POINTS %d %s' % (len(V), o['type'])]
        out += [' '.join(c[i:i + o['per']]) for i in range(0, len(c), o['per'])] + [''] * o['blank']
        out += ['POLYGONS %d %d' % (len(F), sum(len(poly(f)) + 1 for f in F.tolist()))]
        out += [' '.join(str(k) for k in [len(poly(f))] + list(poly(f))) for f in F.tolist()]
        yield o, 'a.vtk', EOL[o['eol']].join(out + ['']), None


def g_med(V, F):
    import h5py
    tris = np.array([f[:3] for f in F.tolist() if f[0] == f[3]], dtype=int).reshape(-1, 3)
    quads = np.array([f for f in F.tolist() if f[0] != f[3]], dtype=int).reshape(-1, 4)
    for o in opts(name=['Mesh_1', 'hull'], other=[0, 1], num=[0, 1], groups=[0, 1], int32=[0, 1]):
        def write(name, o=o):
            with h5py.File(name, 'w') as h:
                g = h.create_group('ENS_MAA/%s/-0000000000000000001-0000000000000000001' % o['name'])
                g.create_dataset('NOE/COO', data=V.T.ravel())
                if o['num']:
                    g.create_dataset('NOE/NUM', data=np.arange(len(V)) + 1)
                    g.create_dataset('NOE/FAM', data=np.zeros(len(V), int))
                t = np.int32 if o['int32'] else np.int64
                for key, a in (('TR3', tris), ('QU4', quads)) + ((('SE2', np.array([[0, 1], [1, 2]])), ('PO1', np.array([[0]]))) if o['other'] else ()):
                    if len(a):
                        g.create_dataset('MAI/%s/NOD' % key, data=(a.T.ravel() + 1).astype(t))
                        g.create_dataset('MAI/%s/FAM' % key, data=np.zeros(len(a), t))
                        if o['num']:
                            g.create_dataset('MAI/%s/NUM' % key, data=np.arange(len(a), dtype=t) + 1)
                if o['groups']:
                    h.create_group('FAS/%s/FAMILLE_ZERO' % o['name'])
                    h.create_group('INFOS_GENERALES')
        yield o, 'a.med', write, ('any', F.tolist())


def g_wrl(V, F, moves=(0,)):
    for o in opts(num=['fixed', 'short exp', 'exp', 'int'], sep=[' ', ', '], per=[1, 100], parts=[1, 2], nested=[0, 1], move=moves, comment=[0, 1], lines=[0, 1]):
        n = NUM[o['num']]
        faces = F.tolist()
        parts = [faces] if o['parts'] == 1 or len(faces) < 2 else [faces[:1], faces[1:]]
        out, verts, order, still = ['#VRML V2.0 utf8'], [], [], []
        if o['comment']:
            out += ['# a comment', 'NavigationInfo { type "EXAMINE" }', 'Background { skyColor [ 1 1 1 ] }']
        for k, fs in enumerate(parts):
            d = np.array([4., -8., 0.5]) * (k + 1) if o['move'] else np.zeros(3)
            sc = 2. if o['move'] else 1.
            body = ['Shape {', ' appearance Appearance { material Material { diffuseColor 1 0 0 } }', ' geometry IndexedFaceSet {', '  coord Coordinate { point [']
            body += ['   ' + ' '.join(n(x) for x in p) + ',' for p in V] + ['  ] }', '  solid FALSE', '  coordIndex [']
            idx = [o['sep'].join([str(i) for i in poly(f)] + ['-1']) for f in fs]
            body += ['   ' + (o['sep'].join(idx[i:i + o['per']])) + (',' if ',' in o['sep'] else '') for i in range(0, len(idx), o['per'])]
            body += ['  ]', ' }', '}']
            if o['move']:
                body = ['Transform {', ' translation %g %g %g' % tuple(d), ' scale %g %g %g' % (sc, sc, sc), ' children ['] + body + [' ]', '}']
            if o['nested']:
                body = ['Group { children ['] + body + ['] }']
            out += body
            still.append(V)
            order += [[i + len(V) * k for i in f] for f in fs]
            verts.append(V * sc + d)
        if o['lines']:
            out += ['Shape { geometry IndexedLineSet { coord Coordinate { point [ 0 0 0, 1 0 0 ] } coordIndex [ 0, 1, -1 ] } }']
        if not o['move']:
            yield o, 'a.wrl', '\n'.join(out + ['']), ('soup', np.concatenate(verts), order)
        else:
            yield o, 'a.wrl', '\n'.join(out + ['']), ('soup', np.concatenate(verts), order, np.concatenate(still))


def g_wrlmove(V, F):
    return g_wrl(V, F, (1,))


GEN = dict(mar=g_mar, nem=g_nem, nat=g_nat, gdf=g_gdf, pnl=g_pnl, tec=g_tec, hst=g_hst, dat=g_dat, inp=g_inp, rad=g_rad, msh2=g_msh2, msh4=g_msh4,
           stl=g_stl, obj=g_obj, vtp=g_vtp, vtu=g_vtu, vtk=g_vtk, med=g_med, wrl=g_wrl, wrlmove=g_wrlmove)
SINGLE = ('stl', 'obj', 'vtp', 'vtu', 'vtk', 'wrl', 'wrlmove')   # read with single precision
ALIAS = dict(inp=['diodore-inp'], dat=['diodore-dat'], mar=['nemoh'], nem=['nemoh_mesh'], gdf=['wamit'], pnl=['hams'], tec=['tecplot'], hst=['hydrostar'],
             nat=['natural'], rad=['radioss'], msh=['gmsh'], vtk=['paraview-legacy'], med=['salome'], wrl=['vrml'])


def cases(tier):
    shapes = ['tris', 'quads', 'tq', 'qt', 'onetri', 'onequad'] if tier == 'quick' else list(SHAPES)
    for fmt in GEN:
        for s in shapes:
            n = 4 if fmt in ('gdf', 'tec', 'mar') or tier != 'quick' else 2
            for b in range(n):
                yield dict(fmt=fmt, shape=s, block=[b, n])
        yield dict(fmt=fmt, shape='tube %d 2' % BIG, block=[0, 0])
        for s in ('qt', 'tris', 'onequad')[:2 + (tier == 'thorough')]:
            yield dict(fmt=fmt, shape=s + ' fine', block=[0, 1])
        for k, n in enumerate((TUBES[::3] if fmt in ('gdf', 'msh2', 'inp', 'tec', 'stl') else TUBES) if tier == 'quick' else list(range(2, 41)) + TUBES[6:]):
            for t in (0, 1, 2, 3)[(k + len(fmt)) % 4:][:1] if tier == 'quick' else (0, 1, 2, 3):
                yield dict(fmt=fmt, shape='tube %d %d' % (n, t), block=[7 * n + t, 41 if n < 200 else 301])


BIG = 26000
TUBES = [6, 12, 25, 31, 32, 64, 128]


def compare(what, V, F, V1, F1, kind, single):   # single: read with single precision
    V = np.asarray(V)
    tol = 2e-6 * (np.abs(V).max() + 1)
    if NUM['fixed'] is FINE['fixed']:
        tol = 2e-6 * np.abs(V) + 1e-12 if single else 1e-13 * np.abs(V) + 1e-15
    if kind != 'soup':
        require(V1.shape == V.shape, '%s: %d vertices instead of %d' % (what, len(V1), len(V)))
        bad = np.nonzero((np.abs(V1 - V) > tol).any(axis=1))[0] if len(V) else []
        require(len(bad) == 0, lambda: '%s: vertex %d is %r instead of %r' % (what, bad[0], V1[bad[0]].tolist(), V[bad[0]].tolist()))
        a, b = io.rings(np.asarray(F)), io.rings(F1)
        if kind == 'any':
            a, b = sorted(a), sorted(b)
        require(len(a) == len(b), '%s: %d faces instead of %d' % (what, len(b), len(a)))
        for k, (x, y) in enumerate(zip(a, b)):
            require(x == y, '%s: face %d is %r instead of %r' % (what, k, y, x))
        return
    u = io.unique_ids(np.round(V, 6))     # description with 4 decimals
    lab = u[io.labels(V1, V, np.zeros(V.shape) + tol)]
    a = sorted(io.rings(u[np.asarray(F)]))
    b = sorted(io.rings(lab[F1]))
    require(a == b, '%s: the faces are %r instead of %r' % (what, b[:8], a[:8]))


def evaluate(case, rec):
    fmt = case['fmt']
    V, F = data(case['shape'])
    b, n = case['block']
    ignored = None
    for i, (layout, name, content, expect) in enumerate(GEN[fmt](V, F)):
        if n == 0 and i > 0:        # first layout only
            break
        if n and i % n != b % n:
            continue
        rec.count('evaluations')
        if os.path.exists(name):
            os.remove(name)
        if callable(content):
            content(name)
        else:
            with open(name, 'w', newline='') as h:
                h.write(content)
        what = '%s file (mesh %s, layout %r)' % (fmt, case['shape'], layout)
        V0, F0, kind = V, F, 'same'
        if expect is not None:
            if expect[0] == 'mesh' or (expect[0] == 'soup' and len(expect) >= 3):
                V0, F0, kind = expect[1], expect[2], 'any' if expect[0] == 'mesh' else 'soup'
            else:
                F0, kind = expect[1], expect[0]
        if fmt == 'gdf':
            kind = 'soup'
        ext = name.rsplit('.', 1)[1]
        keys = [ext] + ALIAS.get(ext, [])
        try:
            V1, F1 = io.load(name, keys[i % len(keys)])
        except Violation:
            raise
        except Exception as err:
            raise Violation('%s: %s %s' % (what, type(err).__name__, err))
        for k, f in enumerate(F1.tolist()):
            require(f[0] == f[3] or len(set(f)) == 4, '%s: face %d %r is neither a quadrangle nor a triangle having its first index equal to '
                    'its last' % (what, k, f))
        try:
            compare(what, V0, F0, V1, F1, kind, fmt in SINGLE)
        except Violation as err:
            if expect is None or len(expect) < 4:
                raise
            compare(what, expect[3], F0, V1, F1, kind, fmt in SINGLE)
            ignored = err       # exactly the shapes without their transformations
        rec.outcome(fmt)
    if len(F) > 1:
        rec.hit()
    if ignored is not None:
        raise Violation(str(ignored), 'wrl-transform')
