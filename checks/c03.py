"""C03: heal_normals from every orientation pattern."""
import itertools

import numpy as np

from mc import derived as D, geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (mesh, layout, block of reversal patterns): every subset of faces is reversed (on the biggest meshes, every '
        'subset of at most k faces and the complements), with and without earlier queries; or a number of slices of a box (every one up to 70 '
        'and around powers of 2), or a scale from 1e-7 to 1e7, or several pieces; non trivial: a pattern that is neither empty nor full')
ASSUMPTIONS = ['conformal edge connected meshes, two faces share at most one edge']
CHUNK = 1


def grid(n, p, tri=0):
    v = [(i, j, i * j) for j in range(p + 1) for i in range(n + 1)]
    f = []
    for j in range(p):
        for i in range(n):
            a = i + j * (n + 1)
            q = (a, a + 1, a + n + 2, a + n + 1)
            if (tri >> (len(f) % 8)) & 1:
                f += [geom.tri(q[0], q[1], q[2]), geom.tri(q[0], q[2], q[3])]
            else:
                f.append(q)
    return v, f


def mobius_free_strip():
    """strip of triangles closed on itself (annulus)"""
    v = [(2, 0, 0), (0, 2, 0), (-2, 0, 0), (0, -2, 0), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
    f = []
    for i in range(4):
        j = (i + 1) % 4
        f += [geom.tri(i, j, 4 + i), geom.tri(j, 4 + j, 4 + i)]
    return v, f


def meshes():
    c = geom.catalogue()
    out = {k: c[k] for k in ('tetra', 'box', 'wedge', 'pyramid', 'octa', 'trapeze', 'frustum', 'hexprism', 'hull',
                             'tribox', 'lprism', 'ring')}
    out['open wedge'] = (c['wedge'][0], c['wedge'][1][:-1])
    out['open box'] = (c['box'][0], c['box'][1][1:])
    out['grid'] = grid(3, 2)
    out['mixed grid'] = grid(2, 3, 0b0110)
    out['annulus'] = mobius_free_strip()
    out['low tetra'] = geom.shift(geom.affine(geom.tetra(), [[2, 0, 1], [0, 1, 0], [0, 1, 3]]), (-20, 3, -40))
    return out


def layouts(nf):
    idn = list(range(nf))
    return {'plain': idn, 'reversed order': idn[::-1], 'odd first': idn[1::2] + idn[0::2]}


def patterns(nf, tier):
    full = 1 << nf
    lim = 12 if tier == 'quick' else 16
    if nf <= lim:
        return list(range(full))
    k = 2 if tier == 'quick' else 3
    out = []
    for r in range(k + 1):
        for c in itertools.combinations(range(nf), r):
            b = sum(1 << i for i in c)
            out += [b, full - 1 - b]
    return out


def cases(tier):
    out = []
    for name, s in meshes().items():
        nf = len(s[1])
        np_ = len(patterns(nf, tier))
        for lay in layouts(nf):
            for warm in (0, 1):
                if warm and nf > 10 and tier == 'quick':
                    continue
                for b in range(0, np_, 512):
                    out.append(dict(mesh=name, layout=lay, warm=warm, block=b, tier=tier))
    sizes = geom.SIZES + [1024] + ([2500, 8191] if tier == 'thorough' else [])
    for n in sizes:
        for t in (0, 1, 3):
            out.append(dict(kind='size', n=n, tris=t))
    for name in meshes():
        for k in range(-7, 8):
            out.append(dict(kind='scale', mesh=name, exp=k))
    for pair in pieces():
        out.append(dict(kind='pieces', pair=pair))
    return out


def pieces():
    c = geom.catalogue()
    t, b, w = c['tetra'], geom.shift(c['tribox'], (10, 0, 1)), geom.shift(c['wedge'], (-9, 20, -3))
    return {'tetra box': geom.union(t, b), 'box tetra': geom.union(b, t), 'tetra wedge tetra': geom.union(t, w, geom.shift(t, (50, 0, 9))),
            'closed and open': geom.union(t, (w[0], w[1][1:])), 'open and closed': geom.union((w[0], w[1][:-1]), t),
            'isolated face': geom.union(([(0, 0, 9), (1, 0, 9), (0, 1, 9)], [geom.tri(0, 1, 2)]), w)}


def heal(v, f, bits, what, total=None, vol_tol=1e-9):
    """heals the faces whose bit is set once reversed; total: faces expected when the result is known"""
    g = [tuple(reversed(q)) if (bits >> i) & 1 else q for i, q in enumerate(f)]
    m = geom.mesh((v, g))
    V = m.vertices.copy()
    m.heal_normals()
    require(np.array_equal(m.vertices, V), lambda: what + ': vertices changed')
    H = [tuple(int(x) for x in q) for q in m.faces]
    require(len(H) == len(f), lambda: what + ': number of faces changed')
    for a, b in zip(H, f):
        require(cyc(a) in (cyc(b), cyc(b[::-1])) and (a[0] == a[3]) == (b[0] == b[3]), lambda: what + ': face %s became %s' % (b, a))
    require(geom.is_consistent(H), lambda: what + ': orientation not consistent')
    if total:
        require([cyc(q) for q in H] == [cyc(q) for q in f], lambda: what + ': not the outward orientation')
    return H


def evaluate_size(case, rec):
    v, f = geom.tube(case['n'], case['tris'])
    nf = len(f)
    full = (1 << nf) - 1
    alt = sum(1 << i for i in range(0, nf, 2))
    pats = [0, full, 1, 1 << (nf - 1), 1 << (nf // 2), full >> (nf // 2), alt, full ^ 1, full ^ (1 << (nf - 1))]
    if nf <= 600:
        pats += [sum(1 << i for i in range(0, nf, 3)), sum(1 << i for i in range(nf) if i % 5 < 2), full ^ alt]
    for p in pats:
        heal(v, f, p, 'box in %d slices (%d), %d faces reversed: 0x%x' % (case['n'], case['tris'], bin(p).count('1'), p), True)
        rec.count('evaluations')
    # open tube
    g = f[1:-1] if not case['tris'] else f[1:]
    for p in pats[1:4] + [alt]:
        heal(v, g, p & ((1 << len(g)) - 1), 'open box in %d slices' % case['n'])
        rec.count('evaluations')
    rec.hit()
    rec.outcome('size')


def evaluate_scale(case, rec):
    s = meshes()[case['mesh']]
    closed = geom.is_closed(s[1])
    for d in ((0, 0, 0), (3, -7, 11), (-2, 40, -25)):
        v = [tuple((float(c) + t) * 10. ** case['exp'] for c, t in zip(p, d)) for p in s[0]]
        for k in (0, -1, 1, 0b1010101010101010101010101, 0b1100110011001100110011001100):
            bits = k if k >= 0 else (1 << len(s[1])) - 1
            what = '%s scaled by 1e%d, shifted by %s, reversed %s' % (case['mesh'], case['exp'], d, bin(bits))
            heal(v, s[1], bits & ((1 << len(s[1])) - 1), what, closed)
            rec.count('evaluations')
    rec.hit()
    rec.outcome('scale')


def evaluate_pieces(case, rec):
    """several pieces: each one is made consistent; the volume they enclose together is positive when they are closed"""
    v, f = pieces()[case['pair']]
    V = geom.arrays((v, f))[0]
    closed = geom.is_closed(f)
    for order in (list(range(len(f))), list(range(len(f)))[::-1], list(range(1, len(f), 2)) + list(range(0, len(f), 2))):
        g = [f[i] for i in order]
        for bits in range(0, 1 << len(f), max(1, (1 << len(f)) // 1024 | 1)):
            what = '%s (order %s), reversed %s' % (case['pair'], order, bin(bits))
            H = heal(v, g, bits, what)
            if closed:
                require(geom.np_solid_moments(V, np.array(H))[0] > 0, lambda: what + ': inward normals')
            rec.count('evaluations')
    rec.hit()
    rec.outcome('pieces')



def cyc(f):
    p = [int(i) for i in (f[:3] if f[0] == f[3] else f)]
    k = p.index(min(p))
    return tuple(p[k:] + p[:k])


def evaluate(case, rec):
    if 'kind' in case:
        return globals()['evaluate_' + case['kind']](case, rec)
    s = meshes()[case['mesh']]
    v, f = s
    f = [f[i] for i in layouts(len(f))[case['layout']]]
    V, F = geom.arrays((v, f))
    closed = geom.is_closed(f)
    for bits in patterns(len(f), case['tier'])[case['block']:case['block'] + 512]:
        rec.count('evaluations')
        g = [tuple(reversed(q)) if (bits >> i) & 1 else q for i, q in enumerate(f)]
        m = geom.mesh((v, g))
        if case['warm']:
            m.faces_normals, m.boundaries, m.volume, m.triangles_ids
        m.heal_normals()
        what = '%s, faces %s, reversed %s' % (case['mesh'], case['layout'], bin(bits))
        require(np.array_equal(m.vertices, V), lambda: what + ': vertices changed')
        H = [tuple(int(x) for x in q) for q in m.faces]
        require(len(H) == len(f), lambda: what + ': number of faces changed')
        for a, b in zip(H, f):
            require(cyc(a) in (cyc(b), cyc(b[::-1])), lambda: what + ': face %s became %s' % (b, a))
            require((a[0] == a[3]) == (b[0] == b[3]), lambda: what + ': face %s became %s' % (b, a))
        require(geom.is_consistent(H), lambda: what + ': orientation not consistent %s' % (H,))
        if closed:
            vol = geom.np_solid_moments(V, np.array(H))[0]
            require(vol > 0, lambda: what + ': inward normals')
            require(geom.close(D.clone(m).volume, vol, 1e-9, 1e-9), lambda: what + ': volume reported after healing')
            require([cyc(q) for q in H] == [cyc(q) for q in f], lambda: what + ': not the outward orientation')
        m.heal_normals()
        require([tuple(int(x) for x in q) for q in m.faces] == H, lambda: what + ': healing again changes the faces')
        if 0 < bits < (1 << len(f)) - 1:
            rec.hit()
    rec.outcome('%s %s' % (case['mesh'], 'closed' if closed else 'open'))
