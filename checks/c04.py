"""C04: healing removes only the defects."""
import itertools

import numpy as np

from mc import derived as D, geom
from mc.core import require

LEVEL = 'exploration'
RULE = ('a case is (mesh, unused vertices, duplicated vertices); all combinations with null area faces, badly described triangles '
        'and reversed faces at every listed location are healed as a whole and by every step alone and by every ordered pair of '
        'steps; or a number of slices of a box (every one up to 70), a scale (1e-12 to 1e7; healing as a whole from 1e-5), a tolerance of degenerated faces; '
        'non trivial: at least one defect of any kind')
ASSUMPTIONS = ['sane faces are well above the degenerated faces threshold (1e-5 of the mean area)',
               'duplicated vertices are within 1e-8 of each other, distinct ones well apart']
CHUNK = 2


def sub(shape, faces):
    v, f = shape
    f = [f[i] for i in faces]
    used = sorted({i for q in f for i in q})
    m = {o: n for n, o in enumerate(used)}
    return [v[i] for i in used], [tuple(m[i] for i in q) for q in f]


def meshes():
    c = geom.catalogue()
    return {'wedge': c['wedge'], 'tetra': c['tetra'], 'box': c['box'], 'pyramid': c['pyramid'],
            'open wedge': sub(c['wedge'], [0, 2, 3, 1]), 'patch': D.roots()['patch'],
            'far': geom.shift(geom.triangulated(c['box']), (100, -50, 7))}


UNUSED = ['none', 'first', 'middle', 'last', 'several']
DUPS = ['none', 'one exact', 'one near', 'all exact', 'interleaved near']
NULLS = ['none', 'flat tri first', 'flat tri last', 'flat quad middle', 'twice a vertex', 'point', 'two']
BADS = ['none', '0112', '0122', '0012', 'mixed']
REVS = ['none', 'first', 'last', 'odd', 'all']


def cases(tier):
    out = []
    for n in meshes():
        for u in UNUSED:
            for d in DUPS:
                out.append(dict(mesh=n, unused=u, dups=d, tier=tier))
    for n in geom.SIZES + ([1024] if tier == 'thorough' else []):
        for t in (0, 3):
            out.append(dict(kind='size', n=n, tris=t))
    for n in meshes():
        for e in range(-12, 8):
            out.append(dict(kind='scale', mesh=n, exp=e))
    for rtol in (1e-7, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99):
        out.append(dict(kind='rtol', rtol=rtol))
    return out


def heal(v, f, sv, sf, what, scale=1.):
    """heal_mesh on the spoiled mesh gives back the faces (outward oriented, in order)"""
    m = geom.mesh((sv, sf))
    m.heal_mesh()
    V, F = np.asarray(m.vertices) / scale, [tuple(int(x) for x in q) for q in m.faces]
    require(len(F) == len(f), lambda: what + ': %d faces after heal_mesh instead of %d' % (len(F), len(f)))
    require(all((q[0] == q[3]) == (len(set(q)) == 3) for q in F), lambda: what + ': description of triangles')
    want, got = canon(v, f), canon(V, F)
    for a, b in zip(want, got):
        require(a == b, lambda: what + ': face %s became %s' % (a, b))


def evaluate_size(case, rec):
    shape = geom.tube(case['n'], case['tris'])
    nf = len(shape[1])
    for unused, dups, nulls, bads, revs in (('none', 'none', 'none', 'none', 'none'), ('several', 'all exact', 'two', 'mixed', 'odd'), ('last', 'one near', 'none', '0112', 'all'),
                                            ('first', 'interleaved near', 'flat quad middle', '0012', 'last'), ('none', 'all exact', 'point', '0122', 'first')):
        what = 'box in %d slices (%d), unused %s, duplicated %s, null %s, bad triangles %s, reversed %s' % (case['n'], case['tris'], unused, dups, nulls, bads, revs)
        sv, sf, _ = spoil(shape, unused, dups, nulls, bads, revs)
        heal(shape[0], shape[1], sv, sf, what)
        rec.count('evaluations')
        if len(sv) < 400:
            for st in STEPS:
                check_step(geom.mesh((sv, sf)), st, what + ', %s alone' % st)
    # most vertices are unused
    m = geom.mesh((shape[0], shape[1][nf // 2:nf // 2 + 1]))
    check_step(m, 'remove_unused_vertices', 'single face of a box in %d slices' % case['n'])
    rec.hit()
    rec.outcome('size')


def evaluate_scale(case, rec):
    v, f = meshes()[case['mesh']]
    k = 10. ** case['exp']
    closed = geom.is_closed(f)
    for nulls, bads, revs, dups in itertools.product(['none', 'flat tri first', 'flat quad middle', 'two'], ['none', 'mixed'], ['none', 'odd'], ['none', 'all exact']):
        if not closed and revs != 'none':
            continue
        what = '%s scaled by %g, duplicated %s, null %s, bad triangles %s, reversed %s' % (case['mesh'], k, dups, nulls, bads, revs)
        sv, sf, _ = spoil((v, f), 'several', dups, nulls, bads, revs)
        sv = [tuple(c * k for c in p) for p in sv]
        if case['exp'] >= -5:   # vertices well over 1e-8 apart
            heal(v, f, sv, sf, what, k)
        m = geom.mesh((sv, sf))
        area = np.array([float(geom.np_surface_moments(m.vertices, np.array([q]))[0]) for q in np.asarray(m.faces)])
        keep = np.asarray(m.faces)[~(area < area.mean() * 1e-5)]
        m.remove_degenerated_faces()
        require(np.array_equal(m.faces, keep), lambda: what + ': faces kept')
        rec.count('evaluations')
    rec.hit()
    rec.outcome('scale')


def evaluate_rtol(case, rec):
    """every face whose area is under the tolerance times the mean area is removed, and no other"""
    r = case['rtol']
    for sizes in ([1, 2, 3], [1, 1e-3, 1e-6, 10], [5, 0.5, 0.05, 0.005, 5e-4], [1, 1, 1], [1e-4, 1], [1, 0.3, 0.11, 0.7, 2.2, 0.99, 1.3], [3, 1e-8, 1e-7, 1e-2]):
        for perm in list(itertools.permutations(range(len(sizes))))[:24]:
            for kind in (0, 1, 2):
                v, f, areas = [], [], []
                for j, i in enumerate(perm):
                    a = sizes[i]
                    n = len(v)
                    t = kind == 1 or (kind == 2 and j % 2)
                    v += [(10 * j, 0, 0), (10 * j + a, 0, 0), (10 * j + a, 0, 1), (10 * j, 0, 1)]
                    f.append(geom.tri(n, n + 1, n + 2) if t else (n, n + 1, n + 2, n + 3))
                    areas.append(a / 2 if t else a)
                mean = sum(areas) / len(areas)
                if any(abs(a / (mean * r) - 1) < 1e-3 for a in areas):
                    continue
                for warm in (0, 1):
                    m = geom.mesh((v, f))
                    V, F = m.vertices.copy(), m.faces.copy()
                    if warm:
                        m.faces_areas, m.boundaries
                    m.remove_degenerated_faces(rtol=r)
                    want = F[[a >= mean * r for a in areas]]
                    what = 'faces of areas %s, removal under %g of the mean' % (areas, r)
                    require(np.array_equal(m.faces, want), lambda: what + ': faces %s, expected %s' % (m.faces.tolist(), want.tolist()))
                    require(np.array_equal(m.vertices, V), lambda: what + ': vertices')
                    rec.count('evaluations')
    rec.hit()
    rec.outcome('rtol')


def insert_vertices(v, f, positions):
    """inserts unused vertices at positions (in the final numbering)"""
    n = len(v) + len(positions)
    nv, m, k = [], {}, 0
    for i in range(n):
        if i in positions:
            nv.append((50. + i, -40., 30.))
        else:
            m[k] = i
            nv.append(v[k])
            k += 1
    return nv, [tuple(m[i] for i in q) for q in f]


def spoil(shape, unused, dups, nulls, bads, revs):
    """returns (vertices, faces, ids of the sane faces in the original)"""
    v, f = shape
    v = [tuple(float(c) for c in p) for p in v]
    f = [tuple(q) for q in f]
    eps = 4e-9
    # duplicated vertices
    if dups in ('one exact', 'one near'):
        e = 0. if dups == 'one exact' else eps
        a = f[-1][1]
        v.append((v[a][0] + e, v[a][1] - e, v[a][2] + e))
        q = list(f[-1])
        q[1] = len(v) - 1
        f[-1] = tuple(q)
    elif dups in ('all exact', 'interleaved near'):
        e = 0. if dups == 'all exact' else eps
        nv, nf = [], []
        for k, q in enumerate(f):
            ids = {}
            for i in q:
                if i not in ids:
                    s = e if (k + i) % 2 else 0.
                    ids[i] = len(nv)
                    nv.append((v[i][0] + s, v[i][1], v[i][2] - s))
            nf.append(tuple(ids[i] for i in q))
        v, f = nv, nf
    # reversed faces
    nf = len(f)
    which = {'none': [], 'first': [0], 'last': [nf - 1], 'odd': list(range(1, nf, 2)), 'all': list(range(nf))}[revs]
    f = [tuple(reversed(q)) if i in which else q for i, q in enumerate(f)]
    # bad triangles
    if bads != 'none':
        k = 0
        for i, q in enumerate(f):
            if q[0] == q[3]:
                a, b, c = q[:3]
                style = bads if bads != 'mixed' else ['0112', 'ok', '0122', '0012'][k % 4]
                k += 1
                f[i] = {'0112': (a, b, b, c), '0122': (a, b, c, c), '0012': (a, a, b, c), 'ok': q}[style]
    # null area faces
    ids = list(range(nf))

    def mid(a, b):
        v.append(tuple((x + y) / 2 for x, y in zip(v[a], v[b])))
        return len(v) - 1

    def ins(pos, q):
        f.insert(pos, q)
        ids.insert(pos, None)
    a, b = f[0][0], f[0][1] if f[0][1] != f[0][0] else f[0][2]
    c, d = f[-1][0], f[-1][2]
    if nulls in ('flat tri first', 'two'):
        ins(0, geom.tri(a, mid(a, b), b))
    if nulls == 'flat tri last':
        ins(len(f), geom.tri(c, d, mid(c, d)))
    if nulls == 'flat quad middle':
        m1 = mid(a, b)
        m2 = mid(a, m1)
        ins(nf // 2, (a, m2, m1, b))
    if nulls in ('twice a vertex', 'two'):
        ins(len(f) - 1, (c, d, d, c))
    if nulls == 'point':
        ins(1, (a, a, a, a))
    # unused vertices
    n = len(v)
    pos = {'none': [], 'first': [0], 'middle': [n // 2], 'last': [n], 'several': [0, 1, n // 2, n + 3]}[unused]
    v, f = insert_vertices(v, f, pos)
    return v, f, ids


def poly(f):
    """distinct ids in order"""
    out = []
    for i in f:
        i = int(i)
        if i not in out:
            out.append(i)
    return out


def canon(V, faces, nd=6):
    return [geom.canon_face([V[i] for i in poly(q)], nd) for q in faces]


def shape_only(c):
    """orientation forgotten"""
    return min(c, geom.canon_face(c[::-1], 6))


STEPS = ['remove_unused_vertices', 'remove_degenerated_faces', 'merge_duplicates', 'heal_triangles']


def check_step(m0, step, what):
    """one healing step on the current mesh: it removes precisely its own kind of defect"""
    V, F = np.array(m0.vertices), np.array(m0.faces)
    m = m0
    getattr(m, step)()
    W, G = np.asarray(m.vertices), np.asarray(m.faces)
    if step == 'remove_unused_vertices':
        used = np.zeros(len(V), bool)
        used[F.ravel()] = True
        require(np.array_equal(W, V[used]), lambda: what + ': remaining vertices')
        require(np.array_equal(W[G], V[F]), lambda: what + ': faces moved')
    elif step == 'remove_degenerated_faces':
        area = np.array([float(geom.np_surface_moments(V, np.array([q]))[0]) for q in F])
        keep = ~(area < area.mean() * 1e-5)
        require(np.array_equal(W, V), lambda: what + ': vertices changed')
        require(np.array_equal(G, F[keep]), lambda: what + ': faces kept %s instead of %s' % (G.tolist(), F[keep].tolist()))
    elif step == 'merge_duplicates':
        d = np.abs(W[:, None, :] - W[None, :, :]).max(axis=2) + 10 * np.eye(len(W))
        require(d.min() > 1e-8, lambda: what + ': duplicates remain')
        nd = len({tuple(np.round(p, 6) + 0.) for p in V})
        require(len(W) == nd, lambda: what + ': %d vertices, expected %d' % (len(W), nd))
        require(G.shape == F.shape and np.abs(W[G] - V[F]).max() <= 1e-8, lambda: what + ': faces moved')
    else:
        require(np.array_equal(W, V), lambda: what + ': vertices changed')
        require(G.shape == F.shape, lambda: what + ': faces lost')
        for a, b in zip(G, F):
            if len(set(b.tolist())) == 3 and b[0] != b[3]:
                require(a[0] == a[3], lambda: what + ': triangle still described by %s' % (a,))
            if len(set(b.tolist())) >= 3:
                # a repeated vertex is repeated in a row only
                pa, pb = poly(a), poly(b)
                k = pa.index(pb[0]) if pb[0] in pa else None
                require(k is not None and pa[k:] + pa[:k] == pb, lambda: what + ': face %s became %s' % (b, a))
            if len(set(b.tolist())) == 4:
                require(len(set(a.tolist())) == 4, lambda: what + ': quadrangle %s became %s' % (b, a))


def evaluate(case, rec):
    if 'kind' in case:
        return globals()['evaluate_' + case['kind']](case, rec)
    shape = meshes()[case['mesh']]
    v, f = shape
    closed = geom.is_closed(f)
    ref = sorted(canon(v, f))
    refs = sorted(shape_only(c) for c in canon(v, f))
    ordered = [shape_only(c) for c in canon(v, f)]
    pairs = itertools.permutations(STEPS, 2) if case['tier'] == 'thorough' else [
        ('remove_unused_vertices', 'merge_duplicates'), ('merge_duplicates', 'remove_unused_vertices'),
        ('heal_triangles', 'remove_degenerated_faces'), ('remove_degenerated_faces', 'heal_triangles')]
    pairs = list(pairs)
    for nulls, bads, revs in itertools.product(NULLS, BADS, REVS):
        if nulls == 'none' and bads == 'none' and revs == 'none' and case['unused'] == 'none' and case['dups'] == 'none':
            pass
        else:
            rec.hit()
        rec.count('evaluations')
        what = '%s, unused %s, duplicated %s, null %s, bad triangles %s, reversed %s' % (
            case['mesh'], case['unused'], case['dups'], nulls, bads, revs)
        sv, sf, ids = spoil(shape, case['unused'], case['dups'], nulls, bads, revs)
        m = geom.mesh((sv, sf))
        if (len(nulls) + len(bads) + len(revs)) % 2:
            m.faces_areas, m.boundaries if nulls == 'none' and bads == 'none' else None
        m.heal_mesh()
        V, F = np.asarray(m.vertices), [tuple(int(x) for x in q) for q in m.faces]
        got = canon(V, F)
        require(len(F) == len(f), lambda: what + ': %d faces after heal_mesh instead of %d' % (len(F), len(f)))
        require([shape_only(c) for c in got] == ordered, lambda: what + ': faces after heal_mesh')
        require(all((q[0] == q[3]) == (len(set(q)) == 3) for q in F), lambda: what + ': description of triangles %s' % (F,))
        d = np.abs(V[:, None, :] - V[None, :, :]).max(axis=2) + 10 * np.eye(len(V))
        require(d.min() > 1e-8, lambda: what + ': duplicates remain after heal_mesh')
        require(geom.is_consistent(F), lambda: what + ': normals not consistent after heal_mesh')
        if closed:
            require(sorted(got) == ref, lambda: what + ': normals not outward after heal_mesh')
        else:
            require(sorted(got) in (ref, sorted(geom.canon_face(c[::-1], 6) for c in ref)),
                    lambda: what + ': orientations after heal_mesh')
        if nulls == 'none':
            used = {i for q in F for i in q}
            require(len(used) == len(V), lambda: what + ': unused vertices after heal_mesh')
        # each step alone
        for s in STEPS:
            check_step(geom.mesh((sv, sf)), s, what + ', %s alone' % s)
        if case['tier'] == 'thorough' or (case['unused'] in ('none', 'several') and revs in ('none', 'odd')):
            for a, b in pairs:
                m = geom.mesh((sv, sf))
                check_step(m, a, what + ', ' + a)
                check_step(m, b, what + ', %s after %s' % (b, a))
    # a sane mesh is left as it is
    m = geom.mesh(shape)
    V, F = m.vertices.copy(), m.faces.copy()
    m.heal_mesh()
    require(geom.canon_faces(m.vertices, m.faces) == geom.canon_faces(V, F), 'healing changed the sane mesh %s' % case['mesh'])
    require(np.array_equal(m.vertices, V) and len(m.faces) == len(F), 'healing changed the sane mesh %s' % case['mesh'])
    rec.outcome('%s / %s / %s' % (case['mesh'], case['unused'], case['dups']))
