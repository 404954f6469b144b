"""C05: adjacency, boundaries and closedness of all small complexes."""
import itertools

import numpy as np

from mc import geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (solid or grid, block of face subsets); every subset of faces is taken with several numberings of vertices and '
        'orders of faces and orientation patterns (all of them for small subsets), plus unused vertices; or a number of slices of a box; compared with the '
        'combinatorial definitions; non trivial: a non empty subset')
ASSUMPTIONS = ['at most two faces per edge; a face never has another face edge as its diagonal']
CHUNK = 1


def grid(n, p, mix=0):
    v = [(i, j, 0) for j in range(p + 1) for i in range(n + 1)]
    f = []
    k = 0
    for j in range(p):
        for i in range(n):
            a = i + j * (n + 1)
            q = (a, a + 1, a + n + 2, a + n + 1)
            if (mix >> k) & 1:
                f += [geom.tri(q[0], q[1], q[2]), geom.tri(q[0], q[2], q[3])]
            else:
                f.append(q)
            k += 1
    return v, f


def hosts(tier):
    c = geom.catalogue()
    out = {k: c[k] for k in ('tetra', 'box', 'wedge', 'pyramid', 'octa', 'trapeze')}
    out['grid'] = grid(3, 3)
    out['mixed grid'] = grid(2, 3, 0b010110)
    out['hexprism'] = c['hexprism']
    if tier == 'thorough':
        out['tribox'] = c['tribox']
        out['hull'] = c['hull']
        out['big grid'] = grid(4, 3)
    return out


def numberings(nv):
    idn = list(range(nv))
    mul = next(k for k in range(max(2, nv // 2), nv + 2) if np.gcd(k, nv) == 1) if nv > 2 else 1
    return [idn, idn[::-1], [(i * mul + 1) % nv for i in idn]]


def orientations(nf, tier):
    lim = 5 if tier == 'quick' else 6
    if nf <= lim:
        return list(range(1 << nf))
    full = (1 << nf) - 1
    out = {0, full, 0b01010101010101010101 & full, 0b00110011001100110011 & full}
    if tier == 'thorough' or nf <= 7:
        out |= {1 << i for i in range(nf)}
    return sorted(out)


BLOCK = 32


def cases(tier):
    out = []
    for h, s in hosts(tier).items():
        for b in range(0, 1 << len(s[1]), BLOCK):
            out.append(dict(host=h, block=b, tier=tier))
    for n in geom.SIZES + [1024] + (geom.BIG + geom.HUGE[:1] if tier == 'thorough' else []):
        for t in (0, 1, 3):
            out.append(dict(size=n, tris=t))
    return out


def size_case(case, rec):
    n = case['size']
    v, f = geom.tube(n, case['tris'])
    nf = len(f)
    flip = [tuple(reversed(q)) if i % 3 == 1 else q for i, q in enumerate(f)]
    what = 'box in %d slices (%d)' % (n, case['tris'])
    check(v, f, what)
    check(v, flip, what + ', some faces reversed')
    check(v, f[1:-1], what + ', open')
    check(v, [q for i, q in enumerate(flip) if i % 7 != 2], what + ', with holes')
    w, g = geom.renumbered((v, f), list(range(len(v)))[::-1])
    check(w, g[::-1], what + ', renumbered')
    w, g = geom.strip(n)
    check(w, g, 'strip of %d triangles' % n)
    rec.count('evaluations', 6)
    rec.hit()
    rec.outcome('size')


def expected(f, nv):
    vv = {i: set() for i in range(nv)}
    vf = {i: set() for i in range(nv)}
    ff = {i: set() for i in range(len(f))}
    e = geom.edge_faces(f)
    for i, q in enumerate(f):
        for a in q:
            vf[a].add(i)
    for (a, b), fs in e.items():
        vv[a].add(b)
        vv[b].add(a)
        if len(fs) == 2:
            ff[fs[0][0]].add(fs[1][0])
            ff[fs[1][0]].add(fs[0][0])
    bnd = sorted(k for k, fs in e.items() if len(fs) == 1)
    return vv, vf, ff, bnd


def simple_loops(bnd):
    """number of loops made by the boundary edges, None if some loops share a vertex"""
    adj = {}
    for a, b in bnd:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    if any(len(x) != 2 for x in adj.values()):
        return None
    n, seen = 0, set()
    for a in adj:
        if a not in seen:
            n += 1
            todo = [a]
            while todo:
                k = todo.pop()
                if k not in seen:
                    seen.add(k)
                    todo += adj[k]
    return n


def plain(d):
    return {int(k): {int(x) for x in s} for k, s in d.items()}


def check(v, f, what):
    m = geom.mesh((v, f))
    vv, vf, ff, bnd = expected(f, len(v))
    got = []
    for b in m.boundaries:
        b = [int(x) for x in b]
        require(len(b) >= 2, lambda: what + ': boundary %s' % b)
        got += [(min(p, q), max(p, q)) for p, q in zip(b[:-1], b[1:])]
    require(all(b[0] == b[-1] for b in m.boundaries), lambda: what + ': a boundary is not a closed loop: %s' % m.boundaries)
    require(sorted(got) == bnd, lambda: what + ': boundaries %s traverse %s instead of %s' % (m.boundaries, sorted(got), bnd))
    require(plain(m.vv) == vv, lambda: what + ': vertex/vertex adjacency %s' % m.vv)
    require(plain(m.vf) == vf, lambda: what + ': vertex/face adjacency %s' % m.vf)
    require(plain(m.ff) == ff, lambda: what + ': face/face adjacency %s' % m.ff)
    require(m.nb_boundaries == len(m.boundaries), lambda: what + ': nb_boundaries')
    loops = simple_loops(bnd)
    require(loops is None or len(m.boundaries) == loops, lambda: what + ': %d boundaries instead of %s' % (len(m.boundaries), loops))
    require(bool(m.is_mesh_closed()) == (not bnd), lambda: what + ': is_mesh_closed %s' % m.is_mesh_closed())
    require(bool(geom.mesh((v, f)).is_mesh_closed()) == (not bnd), lambda: what + ': is_mesh_closed on a new mesh')


def evaluate(case, rec):
    if 'size' in case:
        return size_case(case, rec)
    v, f = hosts(case['tier'])[case['host']]
    n = len(f)
    for bits in range(case['block'], min(case['block'] + BLOCK, 1 << n)):
        ids = [i for i in range(n) if (bits >> i) & 1]
        if not ids:
            continue
        rec.hit()
        sub = [f[i] for i in ids]
        used = sorted({i for q in sub for i in q})
        for compact in (0, 1):
            if compact:
                m = {o: k for k, o in enumerate(used)}
                w, g = [v[i] for i in used], [tuple(m[i] for i in q) for q in sub]
            else:
                w, g = v, sub
            for k, perm in enumerate(numberings(len(w))):
                w2, g2 = geom.renumbered((w, g), perm)
                orients = orientations(len(g), case['tier']) if k == 0 else [0, 0b1010110101101011 & ((1 << len(g)) - 1)]
                if not compact and k == 0:
                    orients = orients[:2]
                for o in orients:
                    h = [tuple(reversed(q)) if (o >> i) & 1 else q for i, q in enumerate(g2)]
                    if k == 2:
                        h = geom.rolled((w2, h), 1)[1][::-1]
                    rec.count('evaluations')
                    check(w2, h, '%s faces %s (compact %d, numbering %d, reversed %s)' % (case['host'], ids, compact, k, bin(o)))
        rec.outcome('boundary edges %d' % len(expected(sub, len(v))[3]))
