"""C23: sums, extractions, symmetries and triangulations, alone and in sequence, against an exact model (lists of oriented polygons)."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import derived as D, geom
from mc.core import Violation, quiet, require

LEVEL = 'model_checking'
RULE = ('a case is (mesh, first operation): breadth first search over all sequences of sums, extractions, symmetries and triangulations up to the depth, '
        'the model is a list of oriented rational polygons and the set of vertices, compared after every transition; or a block of pairs of meshes in '
        'relative positions, a number of slices of a box, or of subsets of faces (all subsets, orders, repetitions); caches of derived data empty or filled')
ASSUMPTIONS = ['planar convex quadrangles', 'vertices are coincident, or farther than the merging tolerance']
CHUNK = 1
CASE_LIMIT = 200.

PLANES = {'Oxz': ((0, 1, 0), 0), '/Oxz': ((0, -1, 0), 0), 'y=3': ((0, 1, 0), 3), 'Oxy': ((0, 0, 1), 0), 'x=-1': ((1, 0, 0), -1),
          'oblique': ((Fr(3, 5), 0, Fr(-4, 5)), 1), 'steep': ((Fr(2, 7), Fr(-3, 7), Fr(6, 7)), Fr(1, 2))}


def roots():
    w = geom.wedge(4, 3, 2)
    box = geom.box(0, 2, 0, 3, 0, 1)
    # unused vertex; another vertex for the first one in every face but one
    sp = (list(w[0]) + [(9, 9, 9), w[0][0]], [w[1][0]] + [tuple(7 if i == 0 else i for i in q) for q in w[1][1:]])
    return {'wedge': w, 'box': box, 'tetra': geom.tetra(), 'open': (box[0], box[1][:4]), 'loose': sp,
            'patch': ([(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 0)],
                      [(0, 1, 4, 3), geom.tri(1, 2, 4), geom.tri(4, 2, 5), geom.tri(3, 4, 6)])}


def others():
    return {'box': geom.box(0, 2, 0, 3, 1, 3), 'tri': ([(0, 0, 0), (4, 0, 0), (0, 3, 0)], [geom.tri(0, 2, 1)]), 'far': geom.shift(geom.tetra(), (20, 5, 5))}


def rat(shape):
    """model: (faces as tuples of points, set of vertices)"""
    v = [tuple(Fr(c) for c in p) for p in shape[0]]
    return [tuple(v[i] for i in (q[:3] if q[0] == q[3] else q)) for q in shape[1]], frozenset(v)


def rnd(p):
    return tuple(round(float(c), 6) + 0. for c in p)


def cyc(p):
    k = p.index(min(p))
    return p[k:] + p[:k]


def canon(faces):
    return [cyc(tuple(rnd(p) for p in f)) for f in faces]


def read(m, what):
    """(canonical faces, vertices) of a mesh"""
    V, F = np.asarray(m.vertices), np.asarray(m.faces)
    require(V.ndim == 2 and V.shape[1] == 3 and F.ndim == 2 and F.shape[1] == 4 and F.dtype.kind in 'iu', lambda: what + ': arrays of the mesh')
    require(F.size == 0 or (F.min() >= 0 and F.max() < len(V)), lambda: what + ': faces use vertices that do not exist')
    pts = [rnd(p) for p in V]
    out = []
    for q in F.tolist():
        ids = q[:3] if q[0] == q[3] else q
        require(len(set(ids)) == len(ids), lambda: '%s: face %s is neither a quadrangle nor a triangle of the internal convention' % (what, q))
        out.append(cyc(tuple(pts[i] for i in ids)))
    return out, pts


def same_list(what, got, want):
    if got != want:
        for k in range(max(len(got), len(want))):
            a, b = got[k] if k < len(got) else None, want[k] if k < len(want) else None
            if a != b:
                raise Violation('%s: %d faces, expected %d; face %d is %s, expected %s' % (what, len(got), len(want), k, a, b))


def same_bag(what, got, want):
    if sorted(got) != sorted(want):
        lost, new = list(want), []
        for g in got:
            if g in lost:
                lost.remove(g)
            else:
                new.append(g)
        raise Violation('%s: missing faces %s, unexpected faces %s' % (what, lost[:4], new[:4]))


def reflect(p, n, c):
    d = 2 * (sum(a * b for a, b in zip(p, n)) - c)
    return tuple(a - d * b for a, b in zip(p, n))


def frozen(m):
    return np.asarray(m.vertices).tobytes(), np.asarray(m.faces).tobytes(), str(m.name)


def fill(m):
    with np.errstate(all='ignore'):
        D.report(m)


SMALL = ['volume', 'is_mesh_closed', 'faces_areas', 'nb_triangles', 'nb_quadrangles', 'quadrangles_ids', 'vf', 'boundary edges', 'nb_vertices', 'axis_aligned_bbox', 'edge lengths']


def light(m):
    return [(n, D.attempt(lambda: q(m))) for n, q in D.QUERIES if n in SMALL]


def fresh(m):
    from meshmagick.mesh import Mesh
    return Mesh(np.array(m.vertices), np.array(m.faces))


# operations: (mesh, model) -> (new mesh, new model); they check the result
def op_add(name, left=False, self_=False):
    def f(m, model, what):
        o = m if self_ else geom.mesh(others()[name])
        om = model if self_ else rat(others()[name])
        fill(o) if name == 'box' else None
        before, ro = (frozen(m), frozen(o)), light(o)
        r = o + m if left else m + o
        require((frozen(m), frozen(o)) == before, lambda: what + ': an operand is modified')
        require(not D.differences(light(o), ro), lambda: what + ': derived data of an operand')
        require(r is not m and r is not o, lambda: what + ': the sum is one of the operands')
        a, b = (om, model) if left else (model, om)
        faces = a[0] + b[0]
        got, pts = read(r, what)
        same_list(what, got, canon(faces))
        verts(what, pts, a[1] | b[1], True)
        return r, (faces, a[1] | b[1])
    return f


def verts(what, pts, want, distinct):
    w = {rnd(p) for p in want}
    require(set(pts) == w, lambda: '%s: vertices %s are lost, %s are unexpected' % (what, sorted(w - set(pts))[:4], sorted(set(pts) - w)[:4]))
    if distinct:
        require(len(pts) == len(w), lambda: '%s: %d vertices, of which %d distinct: coincident vertices are not merged' % (what, len(pts), len(w)))


def op_sym(name):
    def f(m, model, what):
        from meshmagick.mesh import Plane
        n, c = PLANES[name]
        p = Plane(normal=[float(x) for x in n], scalar=float(c))
        q0 = (np.array(p.normal).tobytes(), float(p.c))
        m.symmetrize(p)
        require((np.array(p.normal).tobytes(), float(p.c)) == q0, lambda: what + ': the plane is modified')
        image = [tuple(reflect(v, n, c) for v in g)[::-1] for g in model[0]]
        faces = model[0] + image
        got, pts = read(m, what)
        want = canon(faces)
        same_bag(what, got, want)
        V = model[1] | frozenset(reflect(v, n, c) for v in model[1])
        verts(what, pts, V, True)
        return m, (resync(got, want, faces), V)
    return f


def resync(got, want, faces):
    """faces of the model in the order of the mesh"""
    at = {}
    for k, w in enumerate(want):
        at.setdefault(w, []).append(faces[k])
    return [at[g].pop(0) for g in got]


def op_tri(m, model, what):
    nv = len(np.asarray(m.vertices))
    V0 = np.asarray(m.vertices).tobytes()
    m.triangulate_quadrangles()
    got, pts = read(m, what)
    require(np.asarray(m.vertices).tobytes() == V0, lambda: what + ': vertices are modified')
    bag = {}
    for g in got:
        bag[g] = bag.get(g, 0) + 1
    faces, want = [], []
    for p in model[0]:
        if len(p) == 3:
            choices = [[p]]
        else:
            a, b, c, d = p
            choices = [[(a, b, c), (a, c, d)], [(b, c, d), (b, d, a)]]
        for ch in choices:
            k = canon(ch)
            if all(bag.get(x, 0) >= k.count(x) for x in k):
                for x in k:
                    bag[x] -= 1
                faces += ch
                want += k
                break
        else:
            raise Violation('%s: face %s is lost, or not covered by two triangles of its orientation' % (what, canon([p])))
    require(not any(bag.values()), lambda: '%s: unexpected faces %s' % (what, [k for k, n in bag.items() if n][:4]))
    return m, (resync(got, want, faces), model[1])


def op_extract(sel, with_index, cast=list):
    def f(m, model, what):
        nf = len(model[0])
        ids = [i for i in sel(nf) if i < nf]
        before, r0 = frozen(m), light(m)
        e = m.extract_faces(cast(ids), return_index=True) if with_index else m.extract_faces(cast(ids))
        require(frozen(m) == before and not D.differences(light(m), r0), lambda: what + ': the source is modified')
        return check_extract(m, model, e, ids, with_index, what)
    return f


def check_extract(m, model, e, ids, with_index, what):
    if with_index:
        e, idv = e
    got, pts = read(e, what)
    faces = [model[0][i] for i in ids]
    same_list(what, got, canon(faces))
    used = np.asarray(m.faces)[ids] if len(ids) else np.zeros((0, 4), int)
    n = len(np.unique(used))
    require(len(pts) == n, lambda: '%s: %d vertices, %d are used' % (what, len(pts), n))
    if with_index:
        idv = np.asarray(idv)
        require(idv.shape == (n,) and np.array_equal(np.asarray(m.vertices)[idv], np.asarray(e.vertices)),
                lambda: '%s: indices %s of the vertices in the source' % (what, idv))
        require(np.array_equal(idv[np.asarray(e.faces)], used), lambda: what + ': faces in terms of the vertices of the source')
    require(np.asarray(e.faces).max(initial=-1) == n - 1 and len(np.unique(np.asarray(e.faces))) == n, lambda: what + ': unused vertices')
    return e, (faces, frozenset(p for f in faces for p in f))


OPS = {
    'add box': op_add('box'), 'add triangle': op_add('tri'), 'add far': op_add('far'), 'add to box': op_add('box', left=True), 'add itself': op_add('', self_=True),
    'symmetrize Oxz': op_sym('Oxz'), 'symmetrize y=3': op_sym('y=3'), 'symmetrize /Oxz': op_sym('/Oxz'), 'symmetrize Oxy': op_sym('Oxy'),
    'symmetrize oblique': op_sym('oblique'), 'symmetrize steep': op_sym('steep'), 'triangulate': op_tri,
    'extract evens': op_extract(lambda n: range(0, n, 2), False), 'extract reversed': op_extract(lambda n: range(n - 1, -1, -1), True, np.array),
    'extract two': op_extract(lambda n: [n - 1, 0], True),
}


def cases(tier):
    out = []
    deep = 3 if tier == 'quick' else 4
    for r in roots():
        for o in OPS:
            for filled in (0, 1):
                out.append(dict(kind='sequences', mesh=r, first=o, filled=filled, depth=deep - (tier == 'quick' and not filled)))
        for filled in (0, 1):
            out.append(dict(kind='subsets', mesh=r, filled=filled))
    c = list(geom.catalogue())
    for a in c:
        out.append(dict(kind='pairs', mesh=a))
        out.append(dict(kind='planes', mesh=a))
    out.append(dict(kind='nearly'))
    for n in geom.SIZES + [1024] + (geom.BIG + geom.HUGE[:1] if tier == 'thorough' else []):
        out.append(dict(kind='size', n=n))
    return out


def evaluate(case, rec):
    globals()['evaluate_' + case['kind']](case, rec)


def settle(m, what, rec):
    """derived data of the result"""
    d = D.differences(light(m), light(fresh(m)))
    require(not d, lambda: what + ': ' + '; '.join(d))


def evaluate_sequences(case, rec):
    shape = roots()[case['mesh']]
    front = [((), geom.mesh(shape), rat(shape))]
    seen = set()
    for depth in range(case['depth']):
        nxt = []
        for path, m, model in front:
            for o in ([case['first']] if depth == 0 else OPS):
                if len(model[0]) > 64 and not o.startswith('extract') and depth:
                    continue
                m1 = D.clone(m)
                if case['filled']:
                    fill(m1)
                what = '%s: %s' % (case['mesh'], ', '.join(path + (o,)))
                with quiet():
                    m2, model2 = OPS[o](m1, model, what)
                    settle(m2, what, rec)
                rec.count('transitions')
                rec.count('traces')
                rec.outcome(o)
                key = (tuple(tuple(cyc(f)) for f in model2[0]), model2[1])
                key = hash(key)
                if key not in seen and len(model2[0]):
                    seen.add(key)
                    nxt.append((path + (o,), m2, model2))
        front = nxt
    rec.count('states', len(seen))
    rec.hit()


def evaluate_subsets(case, rec):
    shape = roots()[case['mesh']]
    m = geom.mesh(shape)
    if case['filled']:
        fill(m)
    before = frozen(m)
    model = rat(shape)
    n = len(model[0])
    kinds = [list, np.array, lambda x: np.array(x, dtype=np.int32), tuple]
    k = 0
    todo = [c for s in range(1, n + 1) for c in itertools.combinations(range(n), s)]
    todo += [c[::-1] for c in todo] + list(itertools.permutations(range(n), 3)) + [(0, 0), (1, 0, 1), (n - 1, n - 1, 0)]
    for ids in todo:
        for ret in (False, True):
            cast = kinds[k % 3]
            k += 1
            what = '%s: faces %s extracted' % (case['mesh'], ids)
            e = m.extract_faces(cast(list(ids)), return_index=ret)
            check_extract(m, model, e, list(ids), ret, what)
            e1 = e[0] if ret else e
            settle(e1, what, rec)
            require(frozen(m) == before, lambda: what + ': the source is modified')
            rec.count('transitions')
            rec.count('traces')
        rec.count('states')
    rec.outcome('subsets')
    rec.hit()


def evaluate_pairs(case, rec):
    c = geom.catalogue()
    a = c[case['mesh']]
    ma = rat(a)
    lo = [min(p[i] for p in a[0]) for i in range(3)]
    hi = [max(p[i] for p in a[0]) for i in range(3)]
    for name, b0 in c.items():
        blo = [min(p[i] for p in b0[0]) for i in range(3)]
        for rel in itertools.product((0, 1, 2), repeat=3):
            # corner to corner, face to face, over, apart
            d = [(lo[i] if r == 0 else hi[i] if r == 1 else hi[i] + 10) - blo[i] for i, r in enumerate(rel)]
            b = geom.shift(b0, d)
            A, B = geom.mesh(a), geom.mesh(b)
            if sum(rel) % 2:
                fill(A)
            before = frozen(A), frozen(B)
            what = '%s + %s shifted by %s' % (case['mesh'], name, d)
            s = A + B
            require((frozen(A), frozen(B)) == before, lambda: what + ': an operand is modified')
            mb = rat(b)
            got, pts = read(s, what)
            same_list(what, got, canon(ma[0] + mb[0]))
            verts(what, pts, ma[1] | mb[1], True)
            settle(s, what, rec)
            rec.count('transitions')
            rec.count('traces')
            rec.count('states')
    rec.outcome('pairs')
    rec.hit()


def evaluate_planes(case, rec):
    """every plane of the family through every vertex or off the mesh"""
    a = geom.catalogue()[case['mesh']]
    ma = rat(a)
    for n in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (Fr(3, 5), Fr(4, 5), 0), (0, Fr(-3, 5), Fr(4, 5)), (Fr(2, 3), Fr(-1, 3), Fr(2, 3))]:
        n = tuple(Fr(x) for x in n)
        cs = sorted({sum(x * y for x, y in zip(n, p)) for p in ma[1]})
        cs += [cs[0] - 2, cs[-1] + 3, (cs[0] + cs[-1]) / 2]
        for k, c in enumerate(cs):
            from meshmagick.mesh import Plane
            m = geom.mesh(a)
            if k % 2:
                fill(m)
            what = '%s symmetrized with respect to %s = %g' % (case['mesh'], [float(x) for x in n], c)
            with quiet():
                m.symmetrize(Plane(normal=[float(x) for x in n], scalar=float(c)))
            image = [tuple(reflect(v, n, c) for v in g)[::-1] for g in ma[0]]
            got, pts = read(m, what)
            same_bag(what, got, canon(ma[0] + image))
            verts(what, pts, ma[1] | {reflect(v, n, c) for v in ma[1]}, True)
            settle(m, what, rec)
            rec.count('transitions')
            rec.count('traces')
            rec.count('states')
    rec.outcome('planes')
    rec.hit()


def evaluate_nearly(case, rec):
    """vertices closer than the default tolerance (1e-8) are merged, others are not"""
    from meshmagick.mesh import Mesh, Plane
    for name, a in roots().items():
        if name == 'loose':
            continue
        V, F = geom.arrays(a)
        n = len(V)
        for axis in range(3):
            for d, merged in ((3e-9, True), (-3e-9, True), (1e-6, False), (-1e-6, False), (1e-3, False)):
                W = V.copy()
                W[:, axis] += d
                what = '%s + the same shifted by %g along axis %d' % (name, d, axis)
                s = Mesh(V.copy(), F.copy()) + Mesh(W, F.copy())
                require(s.nb_vertices == (n if merged else 2 * n), lambda: '%s: %d vertices, %d in each' % (what, s.nb_vertices, n))
                P = np.asarray(s.vertices)[np.asarray(s.faces)]
                want = np.concatenate([V[F], W[F]])
                require(P.shape == want.shape and np.abs(P - want).max() <= (1.1e-8 if merged else 1e-12), lambda: what + ': vertices are moved')
                rec.count('transitions')
                rec.count('traces')
        pts = {tuple(p) for p in V.tolist()}
        flat = [p for p in pts if (p[0], -p[1], p[2]) in pts]
        for d, merged in ((2e-9, True), (-2e-9, True), (1e-6, False)):
            m = Mesh(V.copy() + [0, d, 0], F.copy())
            with quiet():
                m.symmetrize(Plane(normal=[0., 1., 0.]))
            want = 2 * n - (len(flat) if merged else 0)
            require(m.nb_vertices == want, lambda: '%s at %g of the plane of symmetry: %d vertices, expected %d' % (name, d, m.nb_vertices, want))
            rec.count('transitions')
            rec.count('traces')
        rec.count('states')
    rec.outcome('nearly')
    rec.hit()


def evaluate_size(case, rec):
    """meshes of every size"""
    n = case['n']
    for t in (0, 3):
        shape = geom.tube(n, t)
        model = rat(shape)
        nf = len(shape[1])
        what = 'box in %d slices (%d)' % (n, t)
        for filled in (0, 1):
            m = geom.mesh(shape)
            if filled:
                m.faces_areas, m.volume, m.boundaries
            for ids in (list(range(nf)), list(range(nf))[::-1], list(range(0, nf, 3)), list(range(nf // 2)), list(range(nf // 2, nf)), [nf - 1]):
                check_extract(m, model, m.extract_faces(ids, return_index=True), ids, True, '%s: %d faces extracted' % (what, len(ids)))
            with quiet():
                r, rm = op_add('box')(D.clone(m), model, what + ': box added')
                r, rm = op_add('far', left=True)(r, rm, what + ': box added, added to a tetra')
                settle(r, what + ', sums', rec)
                r, rm = op_tri(r, rm, what + ', sums, triangulated')
                settle(r, what + ', sums, triangulated', rec)
                r, rm = op_sym('Oxz')(r, rm, what + ', sums, triangulated, symmetrized')
                settle(r, what + ', sums, triangulated, symmetrized', rec)
                r, rm = op_add('', self_=True)(D.clone(m), model, what + ': added to itself')
            rec.count('transitions', 11)
            rec.count('traces', 11)
    v, f = geom.strip(n)
    m, model = geom.mesh((v, f)), rat((v, f))
    check_extract(m, model, m.extract_faces(list(range(n)), return_index=True), list(range(n)), True, 'strip of %d triangles extracted' % n)
    rec.count('states', 12)
    rec.outcome('size')
    rec.hit()
