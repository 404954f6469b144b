"""Strict parsers of the files meshmagick writes, independent of its loaders.

Each takes the text of the file and returns (vertices, faces), faces being tuples of 3 or 4 ids from 0 (for soups: of rows),
after having checked everything the format declares: counts, numbering, section ends, symmetries, nothing left over."""
import xml.etree.ElementTree as ET

import numpy as np

from mc.core import Violation, require


class Words:
    def __init__(self, lines, what):
        self.lines, self.i, self.what = [l for l in lines], 0, what

    def next(self, n=None):
        """words of the next line that is not blank"""
        while self.i < len(self.lines) and not self.lines[self.i].split():
            self.i += 1
        require(self.i < len(self.lines), lambda: self.what + ': the file ends too early')
        w = self.lines[self.i].split()
        self.i += 1
        require(n is None or len(w) == n, lambda: '%s, line %d: %d words instead of %s: %r' % (self.what, self.i, len(w), n, self.lines[self.i - 1]))
        return w

    def ints(self, n=None):
        return [to_int(w, self.what) for w in self.next(n)]

    def floats(self, n=None):
        return [to_float(w, self.what) for w in self.next(n)]

    def end(self):
        rest = [l for l in self.lines[self.i:] if l.split()]
        require(not rest, lambda: '%s: %d lines after the end of the mesh: %r' % (self.what, len(rest), rest[0]))


def to_int(w, what):
    try:
        return int(w)
    except ValueError:
        raise Violation('%s: %r is not an integer' % (what, w))


def to_float(w, what):
    try:
        x = float(w)
    except ValueError:
        raise Violation('%s: %r is not a number' % (what, w))
    require(np.isfinite(x), lambda: '%s: %r' % (what, w))
    return x


def panel(ids, nv, what):
    """panel of four ids from 1, triangles having a repeated id"""
    require(all(1 <= i <= nv for i in ids), lambda: '%s: panel %s points at vertices that do not exist (%d)' % (what, ids, nv))
    p = [i - 1 for i in ids]
    u = [a for k, a in enumerate(p) if a != p[k - 1]]
    require(len(u) in (3, 4) and len(set(u)) == len(u), lambda: '%s: panel %s' % (what, ids))
    return tuple(u)


def numbered(w, k, what):
    require(len(w) == 4, lambda: '%s: vertex line %s' % (what, w))
    require(to_int(w[0], what) == k + 1, lambda: '%s: vertex %d has number %s' % (what, k + 1, w[0]))
    return [to_float(x, what) for x in w[1:]]


def mar(text):
    w = Words(text.splitlines(), 'mar')
    require(w.ints(2) == [2, 0], 'mar: the header is not "2 0" (mesh without symmetry)')
    V, F = [], []
    while True:
        line = w.next()
        if set(map(float, line)) == {0.}:
            require(len(line) >= 4, 'mar: end of vertices %s' % line)
            break
        V.append(numbered(line, len(V), 'mar'))
    while True:
        ids = w.ints(4)
        if set(ids) == {0}:
            break
        F.append(panel(ids, len(V), 'mar'))
    w.end()
    return V, F


def nem(text):
    w = Words(text.splitlines(), 'nem')
    (nv,), (nf,) = w.ints(1), w.ints(1)
    V = [w.floats(3) for _ in range(nv)]
    F = [panel(w.ints(4), nv, 'nem') for _ in range(nf)]
    w.end()
    return V, F


def nat(text):
    w = Words(text.splitlines(), 'nat')
    require(w.ints(2) == [0, 0], 'nat: a symmetry is declared')
    nv, nf = w.ints(2)
    V = [w.floats(3) for _ in range(nv)]
    F = [panel(w.ints(4), nv, 'nat') for _ in range(nf)]
    w.end()
    return V, F


def gdf(text):
    lines = text.splitlines()
    require(len(lines) > 3, 'gdf: the file ends too early')
    w = Words(lines[1:], 'gdf')
    ulen, grav = w.floats(2)
    require(ulen > 0, lambda: 'gdf: length %r' % ulen)
    require(9.7 < grav < 9.9, lambda: 'gdf: gravity %r' % grav)
    require(w.ints(2) == [0, 0], 'gdf: a symmetry that the mesh does not have is declared')
    n, = w.ints(1)
    V, F = [], []
    for _ in range(n):
        p = [tuple(w.floats(3)) for _ in range(4)]
        u = [a for k, a in enumerate(p) if a != p[k - 1]]
        require(len(u) in (3, 4), lambda: 'gdf: panel %s' % (p,))
        F.append(tuple(range(len(V), len(V) + len(u))))
        V.extend(u)
    w.end()
    return V, F


def dat(text):
    sections, cur = [], []
    for line in text.splitlines():
        if line.startswith('$') or not line.split():
            continue
        if line.startswith('*'):
            require(line.strip() == '*RETURN', lambda: 'dat: line %r' % line)
            require(cur, 'dat: empty section')
            sections.append(cur)
            cur = []
        else:
            cur.append(line.split())
    require(not cur, 'dat: the last section is not terminated')
    require(2 <= len(sections) <= 3, lambda: 'dat: %d sections' % len(sections))
    V = [numbered(w, k, 'dat') for k, w in enumerate(sections[0])]
    F, ids, kinds = [], [], []
    for s in sections[1:]:
        kinds.append({len(w) for w in s})
        require(kinds[-1] in ({4}, {5}), lambda: 'dat: triangles and quadrangles in a section: %s' % s[:4])
        for w in s:
            q = [to_int(x, 'dat') for x in w]
            ids.append(q[0])
            require(all(1 <= i <= len(V) for i in q[1:]) and len(set(q[1:])) == len(w) - 1, lambda: 'dat: element %s' % w)
            F.append(tuple(i - 1 for i in q[1:]))
    require(len(set(map(str, kinds))) == len(kinds), 'dat: two sections for the same kind of element')
    require(len(set(ids)) == len(ids) and min(ids) > 0, lambda: 'dat: element numbers %s' % ids[:10])
    # titles of the sections, used by the suggested input file
    for tag, n in (('TYPE=Q4C000', 4), ('TYPE=T3C000', 3)):
        has = any(tag in l for l in text.splitlines() if l.startswith('$'))
        require(has or not any(len(f) == n for f in F), lambda: 'dat: no title %s' % tag)
    order = [4 if 'Q4C000' in l else 3 for l in text.splitlines() if l.startswith('$ ELEMENT')]
    require([max(k) - 1 for k in kinds] == [o for o in order if any(len(f) == o for f in F)], lambda: 'dat: titles %s of sections %s' % (order, kinds))
    return V, F


def hst(text):
    lines = [l for l in text.splitlines() if l.split()]
    w = Words(lines, 'hst')
    keys, V, F, ended = {}, [], [], False
    while w.i < len(lines):
        l = w.next()
        require(not ended, lambda: 'hst: %s after ENDFILE' % l)
        if l[0] == 'COORDINATES':
            require(not V, 'hst: several coordinates')
            while True:
                l = w.next()
                if l[0] == 'ENDCOORDINATES':
                    break
                V.append(numbered(l, len(V), 'hst'))
        elif l[0] == 'PANEL':
            require(l[1:] == ['TYPE', '0'], lambda: 'hst: panels %s' % l)
            while True:
                l = w.next()
                if l[0] == 'ENDPANEL':
                    break
                require(len(l) == 4, lambda: 'hst: panel %s of type 0' % l)
                F.append(panel([to_int(x, 'hst') for x in l], len(V), 'hst'))
        elif l[0] == 'ENDFILE':
            ended = True
        else:
            keys[l[0].rstrip(':')] = l[1:]
    require(ended, 'hst: no ENDFILE')
    require(keys.get('NBODY') == ['1'], lambda: 'hst: NBODY %s' % keys.get('NBODY'))
    require(not any(k.startswith('SYM') and v and v[-1] not in ('0', 'NO') for k, v in keys.items()), lambda: 'hst: %s' % keys)
    return V, F


def stl(text):
    lines = text.splitlines()
    require(lines and lines[0].split()[:1] == ['solid'] and lines[-1].split()[:1] == ['endsolid'], 'stl: solid ... endsolid')
    w = Words(lines[1:-1], 'stl')
    V, F, N = [], [], []
    n = len([l for l in lines[1:-1] if l.split()])
    require(n % 7 == 0, lambda: 'stl: %d lines' % n)
    for _ in range(n // 7):
        l = w.next(5)
        require(l[:2] == ['facet', 'normal'], lambda: 'stl: %s' % l)
        N.append([to_float(x, 'stl') for x in l[2:]])
        require(w.next() == ['outer', 'loop'], 'stl: outer loop')
        p = []
        for _ in range(3):
            l = w.next(4)
            require(l[0] == 'vertex', lambda: 'stl: %s' % l)
            p.append([to_float(x, 'stl') for x in l[1:]])
        require(w.next() == ['endloop'] and w.next() == ['endfacet'], 'stl: endloop, endfacet')
        F.append((len(V), len(V) + 1, len(V) + 2))
        V += p
    for k, (f, n) in enumerate(zip(F, N)):
        a, b, c = (np.array(V[i]) for i in f)
        size = max(np.abs(b - a).max(), np.abs(c - a).max(), 1e-300)
        x = np.cross((b - a) / size, (c - a) / size)
        # the text of the vertices is rounded: the direction is known up to it
        err = 2e-6 * max(np.abs(a).max(), np.abs(b).max(), np.abs(c).max()) / size
        x_len = np.linalg.norm(x)
        if x_len > 1e3 * err:
            x /= x_len
            require(abs(np.linalg.norm(n) - 1) < 1e-5, lambda: 'stl: the normal of facet %d is not a unit vector: %s' % (k, n))
            require(np.abs(x - n).max() < 1e-5 + 4 * err / x_len, lambda: 'stl: facet %d has normal %s instead of %s' % (k, n, x))
    return V, F


def vtk(text):
    lines = text.splitlines()
    require(lines[0].startswith('# vtk DataFile Version'), lambda: 'vtk: %r' % lines[0])
    require(len(lines[1]) <= 256, 'vtk: title')
    w = Words(lines[2:], 'vtk')
    require(w.next() == ['ASCII'], 'vtk: not ASCII')
    require(w.next() == ['DATASET', 'POLYDATA'], 'vtk: not POLYDATA')
    l = w.next(3)
    require(l[0] == 'POINTS' and l[2] in ('float', 'double'), lambda: 'vtk: %s' % l)
    words = ' '.join(w.lines[w.i:]).split()
    nv = to_int(l[1], 'vtk')
    V = [[to_float(x, 'vtk') for x in words[3 * k:3 * k + 3]] for k in range(nv)]
    words = words[3 * nv:]
    require(words[:1] == ['POLYGONS'], lambda: 'vtk: %s after %d points' % (words[:3], nv))
    nf, size = to_int(words[1], 'vtk'), to_int(words[2], 'vtk')
    q = [to_int(x, 'vtk') for x in words[3:]]
    require(len(q) == size, lambda: 'vtk: POLYGONS of size %d while there are %d integers' % (size, len(q)))
    F, i = [], 0
    for _ in range(nf):
        require(i < len(q) and q[i] in (3, 4) and i + q[i] < len(q), lambda: 'vtk: polygon %s' % q[i:i + 5])
        F.append(tuple(q[i + 1:i + 1 + q[i]]))
        require(all(0 <= k < nv for k in F[-1]) and len(set(F[-1])) == len(F[-1]), lambda: 'vtk: polygon %s' % (F[-1],))
        i += 1 + q[i]
    require(i == len(q), lambda: 'vtk: %d polygons declared, %d integers left' % (nf, len(q) - i))
    return V, F


def xml_array(node, name, kind):
    a = node.find("DataArray") if name is None else node.find("DataArray[@Name='%s']" % name)
    require(a is not None and a.get('format') == 'ascii', lambda: 'array %s' % name)
    return [kind(x, 'vtk xml') for x in (a.text or '').split()]


def xml(text, root, piece_cells, cells):
    try:
        tree = ET.fromstring(text)
    except ET.ParseError as err:
        raise Violation('the file is not well formed: %s' % err)
    require(tree.tag == 'VTKFile' and tree.get('type') == root, lambda: 'VTKFile of type %s' % tree.get('type'))
    pieces = tree.findall('%s/Piece' % root)
    require(len(pieces) == 1, lambda: '%d pieces' % len(pieces))
    piece = pieces[0]
    nv, nf = int(piece.get('NumberOfPoints')), int(piece.get(piece_cells))
    pts = xml_array(piece.find('Points'), None, to_float)
    require(len(pts) == 3 * nv, lambda: '%d coordinates of %d points' % (len(pts), nv))
    node = piece.find(cells)
    con, off = xml_array(node, 'connectivity', to_int), xml_array(node, 'offsets', to_int)
    require(len(off) == nf and (not off or off[-1] == len(con)), lambda: '%d cells, offsets %s' % (nf, off[-3:]))
    F = [tuple(con[a:b]) for a, b in zip([0] + off[:-1], off)]
    for f in F:
        require(len(f) in (3, 4) and len(set(f)) == len(f) and all(0 <= i < nv for i in f), lambda: 'cell %s' % (f,))
    return np.array(pts).reshape(-1, 3), F, node


def vtu(text):
    V, F, node = xml(text, 'UnstructuredGrid', 'NumberOfCells', 'Cells')
    types = xml_array(node, 'types', to_int)
    require(types == [5 if len(f) == 3 else 9 for f in F], lambda: 'vtu: types %s of cells %s' % (types[:9], F[:9]))
    return V, F


def vtp(text):
    return xml(text, 'PolyData', 'NumberOfPolys', 'Polys')[:2]


def tec(text):
    head, lines = {}, text.splitlines()
    k = 0
    while k < len(lines) and (not lines[k].split() or '=' in lines[k]):
        for part in lines[k].replace('ZONE', ' ').split(','):
            if '=' in part:
                a, b = part.split('=', 1)
                head[a.strip().upper()] = b.strip().strip('"').strip()
        k += 1
    require(lines[1].split('=')[1].replace(' ', '') == '"X","Y","Z"', lambda: 'tec: %s' % lines[1])
    require(head.get('F') == 'FEPOINT' and head.get('ET') == 'QUADRILATERAL', lambda: 'tec: %s' % head)
    nv, nf = to_int(head.get('N', ''), 'tec'), to_int(head.get('E', ''), 'tec')
    w = Words(lines[k:], 'tec')
    V = [w.floats(3) for _ in range(nv)]
    F = [panel(w.ints(4), nv, 'tec') for _ in range(nf)]
    w.end()
    return V, F


def obj(text):
    V, F = [], []
    for line in text.splitlines():
        w = line.split()
        if not w or w[0].startswith('#'):
            for tag, n in (('Vertices:', None), ('Faces:', None)):
                if tag in w:
                    n = to_int(w[w.index(tag) + 1], 'obj')
                    total = sum(l.startswith('v ' if tag == 'Vertices:' else 'f ') for l in text.splitlines())
                    require(n == total, lambda: 'obj: %s while there are %d' % (line, total))
        elif w[0] == 'v':
            require(len(w) == 4, lambda: 'obj: %r' % line)
            V.append([to_float(x, 'obj') for x in w[1:]])
        elif w[0] == 'f':
            q = tuple(to_int(x, 'obj') - 1 for x in w[1:])
            require(len(q) in (3, 4) and len(set(q)) == len(q) and all(0 <= i < len(V) for i in q), lambda: 'obj: %r' % line)
            F.append(q)
        else:
            raise Violation('obj: %r' % line)
    return V, F


def pnl(text):
    data, section, sections = [], None, []
    for line in text.splitlines():
        s = line.strip()
        if s.startswith('#Start') or s.startswith('# Number'):
            data = []
            sections.append(data)
        elif s.startswith('#End') or s.startswith('---') or not s:
            continue
        else:
            data.append(s.split())
    require(len(sections) == 3 and len(sections[0]) == 1, lambda: 'pnl: sections of %s lines' % [len(s) for s in sections])
    h = [to_int(x, 'pnl') for x in sections[0][0]]
    require(h == [len(sections[2]), len(sections[1]), 0, 0], lambda: 'pnl: header %s of %d panels, %d nodes' % (h, len(sections[2]), len(sections[1])))
    require(text.count('#End') == 2, 'pnl: ends of sections')
    V = [numbered(w, k, 'pnl') for k, w in enumerate(sections[1])]
    F = []
    for k, w in enumerate(sections[2]):
        q = [to_int(x, 'pnl') for x in w]
        require(q[0] == k + 1 and q[1] in (3, 4) and len(q) == q[1] + 2, lambda: 'pnl: panel %s' % w)
        require(all(1 <= i <= len(V) for i in q[2:]) and len(set(q[2:])) == q[1], lambda: 'pnl: panel %s' % w)
        F.append(tuple(i - 1 for i in q[2:]))
    return V, F


PARSERS = dict(mar=mar, nem=nem, nat=nat, gdf=gdf, dat=dat, hst=hst, stl=stl, vtk=vtk, vtu=vtu, vtp=vtp, tec=tec, obj=obj, pnl=pnl)


def parse(fmt, text):
    """(V, F) in the internal convention"""
    V, F = PARSERS[fmt](text)
    V = np.array(V, float).reshape(-1, 3)
    F = np.array([tuple(f) if len(f) == 4 else tuple(f) + (f[0],) for f in F], int).reshape(-1, 4)
    return V, F
