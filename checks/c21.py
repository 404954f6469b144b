"""C21: the pipeline of the command line against the library operations applied in the documented order."""
import itertools
import math
import os

import numpy as np

from mc import cli, geom, io
from mc.core import Violation, quiet, require

LEVEL = 'exploration'
RULE = ('a case is (mesh, block of option sets): every manipulation option, every ordered pair of them (both orders on the command line) and '
        'triples (quadruples in thorough); every sequence of two and three planes in every notation for the repeatable options, every '
        'combination of notations in mirror, symmetrize and clip; lists of values for every number, names of files and directories; the file written is loaded and compared with the mesh obtained by the library operations in '
        'the documented order; also every notation of planes, formats of input and output; non trivial: an output file was compared')
ASSUMPTIONS = ['normals of planes given by four scalars are unit vectors, or the scalar is zero', 'the library operations are right (other checks)']
CHUNK = 1
CASE_LIMIT = 300.

KEYS = {'Oxy': (0, 0, 1), 'Oxz': (0, 1, 0), 'Oyz': (1, 0, 0), '/Oxy': (0, 0, -1), '/Oxz': (0, -1, 0), '/Oyz': (-1, 0, 0)}


def plane(n, c=0.):
    from meshmagick.mesh import Plane
    return Plane(normal=[float(x) for x in n], scalar=float(c))


def clip(n, c=0.):
    def f(m):
        from meshmagick.mesh_clipper import MeshClipper
        return MeshClipper(m, plane=plane(n, c)).clipped_mesh
    return f


def inplace(f):
    def g(m):
        f(m)
        return m
    return g


def concat(m):
    from meshmagick.mesh import Mesh
    V, F = io.load('other.nem', 'nem')
    o = Mesh(V, F)
    o.heal_triangles()
    return m + o


def table():
    """(stage, arguments, operation)"""
    r = math.radians
    o = []

    def add(stage, args, f):
        o.append((stage, [str(a) for a in args], f))
    add(0, ['-cc', 'other.nem'], concat)
    add(1, ['-md'], inplace(lambda m: m.merge_duplicates(atol=1e-8)))
    add(1, ['-md', '0.3'], inplace(lambda m: m.merge_duplicates(atol=.3)))
    add(1, ['--merge-duplicates', '1e-3'], inplace(lambda m: m.merge_duplicates(atol=1e-3)))
    add(2, ['--mirror'], inplace(lambda m: m.mirror(plane(KEYS['Oxy']))))
    add(2, ['--mirror', '/Oyz'], inplace(lambda m: m.mirror(plane(KEYS['/Oyz']))))
    add(2, ['--mirror', '0.6', '0', '-0.8', '1.25'], inplace(lambda m: m.mirror(plane((.6, 0, -.8), 1.25))))
    add(3, ['--symmetrize'], inplace(lambda m: m.symmetrize(plane(KEYS['Oxz']))))
    add(3, ['-sym', 'Oyz'], inplace(lambda m: m.symmetrize(plane(KEYS['Oyz']))))
    add(3, ['-sym', '0', '0.6', '0.8', '-1.5'], inplace(lambda m: m.symmetrize(plane((0, .6, .8), -1.5))))

    def two(m):
        m.symmetrize(plane(KEYS['Oxz']))
        m.symmetrize(plane(KEYS['/Oxy']))
    add(3, ['-sym', '-sym', '/Oxy'], inplace(two))
    add(4, ['-hm'], inplace(lambda m: m.heal_mesh()))
    add(5, ['-hn'], inplace(lambda m: m.heal_normals()))
    add(6, ['-t', '1', '-2', '0.5'], inplace(lambda m: m.translate([1., -2., .5])))
    add(7, ['-tx', '-1.5'], inplace(lambda m: m.translate_x(-1.5)))
    add(8, ['-ty', '2.25'], inplace(lambda m: m.translate_y(2.25)))
    add(9, ['--translatez', '-0.75'], inplace(lambda m: m.translate_z(-.75)))
    add(9, ['-tz', '0.5'], inplace(lambda m: m.translate_z(.5)))
    add(10, ['-r', '10', '-20', '30'], inplace(lambda m: m.rotate([r(10), r(-20), r(30)])))
    add(11, ['-rx', '90'], inplace(lambda m: m.rotate_x(r(90))))
    add(12, ['-ry', '-35.5'], inplace(lambda m: m.rotate_y(r(-35.5))))
    add(13, ['-rz', '120'], inplace(lambda m: m.rotate_z(r(120))))
    add(14, ['-s', '2'], inplace(lambda m: m.scale(2.)))
    add(15, ['-sx', '0.5'], inplace(lambda m: m.scalex(.5)))
    add(16, ['-sy', '3'], inplace(lambda m: m.scaley(3.)))
    add(17, ['-sz', '1.5'], inplace(lambda m: m.scalez(1.5)))
    add(18, ['-fn'], inplace(lambda m: m.flip_normals()))
    add(19, ['-tq'], inplace(lambda m: m.triangulate_quadrangles()))
    add(20, ['-c'], clip(KEYS['Oxy']))
    add(20, ['-c', '/Oxz'], clip(KEYS['/Oxz']))
    add(20, ['--clip-by-plane', '0.8', '0', '0.6', '0.4'], clip((.8, 0, .6), .4))
    add(20, ['-c', '-c', 'Oyz'], lambda m: clip(KEYS['Oyz'])(clip(KEYS['Oxy'])(m)))
    return o


OTHER = [['-q'], ['-i'], ['--quality'], ['--list-medium'], ['-pi'], ['-si'], ['-pn', 'name']]   # no effect on the file


def meshes():
    """description with duplicate points, close points, triangles, an inverted face and a null one"""
    v, f = geom.hull()
    V, F = [], []
    for k, q in enumerate(f):
        p = q[:3] if q[0] == q[3] else q
        if k == 3:
            p = p[::-1]
        ids = []
        for j in p:
            ids.append(len(V))
            V.append(tuple(np.array(v[j], float) * (1., .5, 1.) + (.2, .3, .1)))
        F.append(tuple(ids) if len(ids) == 4 else tuple(ids) + (ids[0],))
    soup = (np.array(V), np.array(F))
    v, f = geom.trapeze(-1, 1)
    conf = geom.arrays((v, f))
    return {'soup': soup, 'prism': (conf[0] + (-.2, .1, .05), conf[1]), 'sheet': (conf[0] * (1, .2, 1) + (.1, 0, 0), conf[1][:4])}


def other():
    V, F = geom.arrays(geom.shift(geom.wedge(2, 1, 1), (1, 5, -1)))
    return V, F


def cases(tier):
    t = table()
    n = len(t)
    out = []
    for m in meshes():
        for a in range(n):
            out.append(dict(kind='pairs', mesh=m, first=a))
            out.append(dict(kind='triples', mesh=m, first=a))
            if tier != 'quick' and m == 'prism':
                for b in range(a + 1, n):
                    out.append(dict(kind='quads', mesh=m, first=a, second=b))
        out.append(dict(kind='planes', mesh=m))
        for opt in ('-c', '-sym'):
            for k in range(len(NOTATIONS)):
                out.append(dict(kind='repeated', mesh=m, opt=opt, first=k))
        for k in range(len(NOTATIONS)):
            out.append(dict(kind='mixed', mesh=m, first=k))
        out.append(dict(kind='values', mesh=m))
        for k in range(len(ANGLES)):
            out.append(dict(kind='angles', mesh=m, first=k))
        out.append(dict(kind='names', mesh=m))
        out.append(dict(kind='formats', mesh=m))
        out.append(dict(kind='errors', mesh=m))
    out.append(dict(kind='lids', mesh='prism'))
    return out


def same_mesh(V0, F0, V1, F1, what, tol=2e-6):
    ok = V0.shape == V1.shape and F0.shape == F1.shape and np.allclose(V0, V1, rtol=tol, atol=tol) \
        and [io.ring(f) for f in F0] == [io.ring(f) for f in F1]
    if ok:
        return
    a, b = geom.canon_faces(V0, F0, 4), geom.canon_faces(V1, F1, 4)
    sv = [sorted({tuple(np.round(p, 4) + 0.) for p in np.asarray(V)}) for V in (V0, V1)]
    if a == b and sv[0] == sv[1] and len(V0) == len(V1):
        return
    raise Violation('%s: the file holds %d vertices and %d faces, expected %d and %d\n%s\nexpected\n%s'
                    % (what, len(V1), len(F1), len(V0), len(F0), b[:6], a[:6]))


def setup(name):
    V, F = meshes()[name]
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    io.write('in.nem', V, F, 'nem')
    io.write('other.nem', *other(), 'nem')
    return open('in.nem', 'rb').read(), open('other.nem', 'rb').read()


def reference(ops, name='in.nem', fmt='nem'):
    """mesh, or the exception raised by an operation"""
    from meshmagick.mesh import Mesh
    with quiet():
        V, F = io.load(name, fmt)
        m = Mesh(V, F)
        m.heal_triangles()
        try:
            for f in ops:
                m = f(m)
        except Exception as err:
            return err
    return m


def trial(args, ops, rec, src, what=None, out='out.nat', fmt='nat', inp='in.nem', infmt='nem', extra=(), over=False):
    what = 'meshmagick %s' % ' '.join(args) if what is None else what
    if os.path.exists(out) and not over:
        os.remove(out)
    ref = reference(ops, inp, infmt)
    text, err = cli.run(*args)
    require(open('in.nem', 'rb').read() == src[0] and open('other.nem', 'rb').read() == src[1], lambda: what + ': an input file is modified')
    rec.count('evaluations')
    if isinstance(ref, Exception):
        require(err is not None, lambda: '%s: no error, the library raises %r' % (what, ref))
        require(not os.path.exists(out), lambda: what + ': an output file is written in spite of the error')
        rec.outcome('error')
        return
    if err is not None:
        raise Violation('%s: %r' % (what, err))
    require(os.path.exists(out), lambda: what + ': no output file')
    if ref.nb_faces == 0:
        rec.outcome('empty')
        return
    V, F = io.load(out, fmt)
    tol = io.PREC[io.ALIASES.get(fmt, fmt)]
    same_mesh(np.asarray(ref.vertices), np.asarray(ref.faces), V, F, what, max(2e-6, tol[0] * 2, tol[1] * 2))
    rec.outcome('compared')
    rec.hit()


def evaluate(case, rec):
    src = setup(case['mesh'])
    t = table()
    globals()['evaluate_' + case['kind']](case, rec, src, t)


def go(ids, t, rec, src, head=('in.nem',), tail=('-o', 'out.nat'), order=None, extra=()):
    args = list(head) + [a for i in (order or ids) for a in t[i][1]] + list(extra) + list(tail)
    # a list of values must not swallow the name of the input file: it comes first
    ops = [t[i][2] for i in sorted(ids, key=lambda i: t[i][0])]
    if any(t[i][0] == 4 for i in ids):      # healing normals is part of healing the mesh
        ops = [t[i][2] for i in sorted(ids, key=lambda i: t[i][0]) if t[i][0] != 5]
    trial(args, ops, rec, src)


def evaluate_pairs(case, rec, src, t):
    a = case['first']
    go([a], t, rec, src)
    go([a], t, rec, src, extra=OTHER[a % len(OTHER)])
    go([a], t, rec, src, head=(), tail=('-o', 'out.nat', 'in.nem') if len(t[a][1]) else ())
    for b in range(len(t)):
        if t[b][0] == t[a][0]:
            continue
        go([a, b], t, rec, src)


def evaluate_triples(case, rec, src, t):
    a = case['first']
    n = len(t)
    for b in range(n):
        for c in range(b + 1, n):
            if len({t[a][0], t[b][0], t[c][0]}) < 3:
                continue
            go([a, b, c], t, rec, src)
    # many options at once, in several orders
    one = {}
    for i in range(n):
        one[t[i][0]] = i
    ids = [i for s, i in sorted(one.items()) if s != 5]
    k = a % len(ids)
    go(ids, t, rec, src, order=ids[k:] + ids[:k])
    go(ids, t, rec, src, order=(ids[k:] + ids[:k])[::-1])


def evaluate_quads(case, rec, src, t):
    a, b, n = case['first'], case['second'], len(t)
    for c in range(b + 1, n):
        for d in range(c + 1, n):
            if len({t[i][0] for i in (a, b, c, d)}) == 4:
                go([a, b, c, d], t, rec, src, order=[(a, b, c, d), (d, c, b, a), (b, d, a, c)][(a + b + c + d) % 3])


# notations of planes on the command line: (arguments, normal, scalar), None for the default of the option
NOTATIONS = [([], None, 0), (['Oxy'], (0, 0, 1), 0), (['/Oxz'], (0, -1, 0), 0), (['Oyz'], (1, 0, 0), 0),
             (['0', '0', '1', '0.5'], (0, 0, 1), .5), (['0', '-1', '0', '-0.25'], (0, -1, 0), -.25), (['-0.6', '0', '0.8', '0.125'], (-.6, 0, .8), .125),
             (['0.48', '0.64', '-.6', '-0.375'], (.48, .64, -.6), -.375), (['0'], (0, .6, .8), -.5), (['1'], (-1, 0, 0), 0), (['2'], (0, 0, -1), .75),
             (['1.0', '0.0', '0', '1e-1'], (1, 0, 0), .1)]
PLANES = ['-p', '0', '0.6', '0.8', '-0.5', '-p', '/Oyz', '-p', '0', '0', '-1', '.75']


def notation(k, opt):
    a, n, c = NOTATIONS[k]
    if n is None:
        n = KEYS['Oxz'] if opt == '-sym' else KEYS['Oxy']
    return a, n, c


def op_of(opt, n, c):
    if opt == '-c':
        return clip(n, c)
    if opt == '-sym':
        return inplace(lambda m: m.symmetrize(plane(n, c)))
    return inplace(lambda m: m.mirror(plane(n, c)))


def evaluate_repeated(case, rec, src, t):
    """the same option twice and three times, with every notation of planes"""
    opt, ids = case['opt'], range(len(NOTATIONS))
    for seq in [(case['first'], b) for b in ids] + [(case['first'], b, c) for b in ids for c in ids if (b + c + case['first']) % 3 == 0]:
        if opt == '-sym' and len(seq) == 3 and any(a == b for a, b in zip(seq, seq[1:])):
            continue
        args, ops = [], []
        for k in seq:
            a, n, c = notation(k, opt)
            args += [opt] + a
            ops.append(op_of(opt, n, c))
        known = PLANES if any(8 <= k <= 10 for k in seq) or sum(seq) % 2 else []
        trial(['in.nem'] + (known + args if sum(seq) % 4 < 2 else args + known) + ['-o', 'out.nat'], ops, rec, src)


def evaluate_mixed(case, rec, src, t):
    """mirror, symmetrize and clip in the same command, with every notation of planes"""
    ids = range(len(NOTATIONS))
    for b in ids:
        for c in ids:
            args, ops = [], []
            for opt, k in (('--mirror', case['first']), ('-sym', b), ('-c', c)):
                if opt == '-sym' and (b + c) % 4 == 3:
                    continue
                a, n, s = notation(k, opt)
                args.append([opt] + a)
                ops.append(op_of(opt, n, s))
            k = (b + 2 * c) % len(args)
            args = args[k:] + args[:k]
            trial(['in.nem'] + (PLANES if any(8 <= k <= 10 for k in (case['first'], b, c)) or c % 2 else [])
                  + [x for a in args for x in a] + ['-o', 'out.nat'], ops, rec, src)


ANGLES = ['0', '-30', '90', '180', '-180', '270', '360', '450.5', '-540', '1e3', '-0.001', '720']


def evaluate_angles(case, rec, src, t):
    r = math.radians
    a = ANGLES[case['first']]
    for o, f in (('-rx', 'rotate_x'), ('-ry', 'rotate_y'), ('-rz', 'rotate_z'), ('--rotatex', 'rotate_x'), ('--rotatey', 'rotate_y'), ('--rotatez', 'rotate_z')):
        trial(['in.nem', o, a, '-o', 'out.nat'], [inplace(lambda m: getattr(m, f)(r(float(a))))], rec, src)
    for b in ANGLES:
        trial(['in.nem', '-rz', a, '-rx', b, '-o', 'out.nat'], [inplace(lambda m: m.rotate_x(r(float(b)))), inplace(lambda m: m.rotate_z(r(float(a))))], rec, src)
        trial(['in.nem', '-ry', a, '-rx', b, '-o', 'out.nat'], [inplace(lambda m: m.rotate_x(r(float(b)))), inplace(lambda m: m.rotate_y(r(float(a))))], rec, src)
        for c in ANGLES:
            trial(['in.nem', '-r', a, b, c, '-o', 'out.nat'], [inplace(lambda m: m.rotate([r(float(a)), r(float(b)), r(float(c))]))], rec, src)


def evaluate_values(case, rec, src, t):
    vals = ['0', '1', '-1', '0.5', '-0.5', '1e-3', '123.456', '-1000', '12345.5', '1e-12', '+2', '.25', '-.25']
    for v in vals:
        x = float(v)
        for o, f in (('-tx', 'translate_x'), ('-ty', 'translate_y'), ('-tz', 'translate_z'), ('--translatex', 'translate_x'), ('--translatey', 'translate_y'),
                     ('--translatez', 'translate_z'), ('-s', 'scale'), ('-sx', 'scalex'), ('-sy', 'scaley'), ('-sz', 'scalez'), ('--scale', 'scale'),
                     ('--scalex', 'scalex'), ('--scaley', 'scaley'), ('--scalez', 'scalez')):
            if f.startswith('scale') and (abs(x) < 1e-6):
                continue
            trial(['in.nem', o, v, '-o', 'out.nat'], [inplace(lambda m: getattr(m, f)(x))], rec, src)
            trial(['in.nem', '-tx', '3', '-rz', '30', '-fn', o, v, '-o', 'out.nat'] if o not in ('-tx', '--translatex') else ['in.nem', '-rz', '30', '-fn', o, v, '-o', 'out.nat'],
                  ([inplace(lambda m: m.translate_x(3.))] if f != 'translate_x' else []) + (
                      [inplace(lambda m: getattr(m, f)(x))] if f.startswith('translate') else []) + [inplace(lambda m: m.rotate_z(math.radians(30)))] + (
                      [inplace(lambda m: getattr(m, f)(x))] if f.startswith('scale') else []) + [inplace(lambda m: m.flip_normals())], rec, src)
        for w in vals:
            for z in vals:
                trial(['in.nem', ('-t', '--translate')[len(z) % 2], v, w, z, '-o', 'out.nat'], [inplace(lambda m: m.translate([x, float(w), float(z)]))], rec, src)
    for tol in ('1e-8', '1e-12', '0.01', '0.15', '.3', '0.6', '0.9', '1E-2'):
        for o in ('-md', '--merge-duplicates'):
            trial(['in.nem', o, tol, '-o', 'out.nat'], [inplace(lambda m: m.merge_duplicates(atol=float(tol)))], rec, src)
            trial(['in.nem', '-cc', 'other.nem', o, tol, '-o', 'out.nat'], [concat, inplace(lambda m: m.merge_duplicates(atol=float(tol)))], rec, src)
    for c in ('0', '0.25', '-0.25', '1.5', '-1.5', '.0625', '-2', '1e-1'):
        for n in ((0, 0, 1), (0, 0, -1), (0, 1, 0), (0, -1, 0), (1, 0, 0), (-1, 0, 0), (.6, .8, 0), (-.6, 0, -.8), (.36, -.48, .8)):
            for opt in ('-c', '-sym', '--mirror', '--clip-by-plane', '--symmetrize'):
                o = {'--clip-by-plane': '-c', '--symmetrize': '-sym'}.get(opt, opt)
                trial(['in.nem', opt] + [repr(x) for x in n] + [c, '-o', 'out.nat'], [op_of(o, n, float(c))], rec, src)
                trial(['in.nem', opt, '1', '-p', 'Oxz', '-p'] + [repr(x) for x in n] + [c, '-o', 'out.nat'], [op_of(o, n, float(c))], rec, src)


def evaluate_names(case, rec, src, t):
    """names of files and directories"""
    V, F = meshes()[case['mesh']]
    ops = [inplace(lambda m: m.translate([1., -2., .5]))]
    T = ['-t', '1', '-2', '0.5']
    here = os.getcwd()
    for d in ('', 'sub', 'v1.2', 'a b/c.d', './x', '.hidden', 'UP.NEM', here + '/abs', '../' + os.path.basename(here) + '/rel'):
        if d:
            os.makedirs(d, exist_ok=True)
        for n in ('m', 'm.n', 'M 1', '.dot', 'm-1.5', 'nem', 'mar.nat'):
            name = os.path.join(d, n)
            io.write(name + '.nem', V, F, 'nem')
            trial([name + '.nem'] + T + ['-ofmt', 'nat'], ops, rec, src, inp=name + '.nem', out=name + '.nat')
            trial([name + '.nem'] + T + ['-ofmt', 'mar'], ops, rec, src, inp=name + '.nem', out=name + '.mar', fmt='mar')
            trial([name + '.nem'] + T + ['-o', name + '.out.nat'], ops, rec, src, inp=name + '.nem', out=name + '.out.nat')
            trial([name + '.nem'] + T + ['-o', name + '.out.x', '-ofmt', 'natural'], ops, rec, src, inp=name + '.nem', out=name + '.out.x')
            trial([name + '.nem', '-cc', name + '.nem'] + T + ['-o', 'out.nat'], [lambda m: m + m.copy()] + ops, rec, src, inp=name + '.nem')
            # the input file is replaced when asked
            trial([name + '.nem'] + T + ['-o', name + '.nem'], ops, rec, src, inp=name + '.nem', out=name + '.nem', fmt='nem', over=True)
            os.replace(name + '.nem', name)
            trial([name, '-ifmt', 'nem'] + T + ['-o', 'out.nat'], ops, rec, src, inp=name)
            os.remove(name)


def evaluate_planes(case, rec, src, t):
    defs = [('Oxz', (0, 1, 0), 0), ('/Oxy', (0, 0, -1), 0), ('0.8 0 0.6 0.4', (.8, 0, .6), .4), ('2 -3 6 0', (2, -3, 6), 0), ('/Oyz', (-1, 0, 0), 0),
            ('0 -1 0 0.3', (0, -1, 0), .3), ('Oxy', (0, 0, 1), 0), ('Oyz', (1, 0, 0), 0), ('/Oxz', (0, -1, 0), 0)]
    uses = [(['--mirror'], lambda n, c: inplace(lambda m: m.mirror(plane(n, c)))), (['-sym'], lambda n, c: inplace(lambda m: m.symmetrize(plane(n, c)))),
            (['-c'], lambda n, c: clip(n, c))]
    for text, n, c in defs:
        for opt, f in uses:
            trial(['in.nem'] + opt + text.split() + ['-o', 'out.nat'], [f(n, c)], rec, src)
            # several definitions, every index; other planes given by key or scalars at the same time
            for k in range(3):
                d = [x for x in defs if x[0] != text][:2]
                d.insert(k, (text, n, c))
                pl = [a for x in d for a in ['-p'] + x[0].split()]
                trial(['in.nem'] + pl + opt + [str(k), '-o', 'out.nat'], [f(n, c)], rec, src)
                trial(['in.nem'] + opt + [str(k)] + pl + ['-q', '-o', 'out.nat'], [f(n, c)], rec, src)
                if k == 1:
                    trial(['in.nem'] + pl + opt + text.split() + ['-o', 'out.nat'], [f(n, c)], rec, src)
    # the same plane used by several operations, in one command line
    for (ta, na, ca), (tb, nb, cb) in itertools.permutations(defs[:6], 2):
        pl = ['-p'] + ta.split() + ['-p'] + tb.split()
        trial(['in.nem'] + pl + ['-c', '0', '-c', '1', '--mirror', '1', '-sym', '0', '-o', 'out.nat'],
              [uses[0][1](nb, cb), uses[1][1](na, ca), clip(na, ca), clip(nb, cb)], rec, src)


def evaluate_formats(case, rec, src, t):
    V, F = meshes()[case['mesh']]
    ops = [inplace(lambda m: m.translate([1., -2., .5]))]
    T = ['-t', '1', '-2', '0.5']
    for fi in io.RW:
        if fi in ('stl', 'gdf', 'dat') and case['mesh'] == 'sheet':
            continue
        inp = 'src.' + fi
        io.write(inp, V, F, fi)
        path = io.path_of(inp, fi)
        for fo in io.RW:
            if fo == 'stl':
                continue
            o = io.path_of('out.' + fo, fo)
            if fo == 'gdf':
                continue
            trial([path] + T + ['-o', 'out.' + fo], ops, rec, src, out=o, fmt=fo, inp=path, infmt=fi)
        # format given by the options, extension meaningless
        os.replace(path, 'data.xyz')
        trial(['data.xyz', '-ifmt', fi] + T + ['-o', 'out.nat'], ops, rec, src, inp='data.xyz', infmt=fi)
        trial(['data.xyz', '-ifmt', fi] + T + ['-o', 'out.tmp', '-ofmt', 'nat'], ops, rec, src, inp='data.xyz', infmt=fi, out='out.tmp')
        os.replace('data.xyz', 'UP.' + fi.upper())
        trial(['UP.' + fi.upper()] + T + ['-o', 'OUT.NAT'], ops, rec, src, inp='UP.' + fi.upper(), infmt=fi, out='OUT.NAT')
    for alias, base in io.ALIASES.items():
        if base in ('stl', 'gdf', 'dat'):
            continue
        io.write('in.' + base, V, F, base)
        trial(['in.' + base, '-ifmt', alias] + T + ['-o', 'res.any', '-ofmt', alias], ops, rec, src, inp='in.' + base, infmt=base, out='res.any', fmt=base)
    # only a format: the name of the input with this format as extension
    trial(['in.nem'] + T + ['-ofmt', 'nat'], ops, rec, src, out='in.nat')
    # no output asked: nothing is written
    before = {f: open(f, 'rb').read() for f in os.listdir('.') if os.path.isfile(f)}
    text, err = cli.run('in.nem', *T)
    require(err is None, lambda: 'no output asked: %r' % err)
    after = {f: open(f, 'rb').read() for f in os.listdir('.') if os.path.isfile(f)}
    require(before == after, 'no output asked: files were written')


def evaluate_errors(case, rec, src, t):
    """bad requests are told and write nothing"""
    bad = [['missing.nem'], ['in.nem', '-cc', 'missing.nem'], ['in.nem', '-c', 'Oxyz'], ['in.nem', '-sym', 'Oab'], ['in.nem', '--mirror', 'xy'],
           ['in.nem', '-c', '1', '2', '3'], ['in.nem', '-sym', '1', '2'], ['in.nem', '--mirror', '0', '1', '0', '0', '0'], ['in.nem', '-p', 'Oqq', '-c', '0'],
           ['in.nem', '-p', 'Oxy', '-c', '1'], ['in.nem', '-p', 'Oxy', '-sym', '2'], ['in.nem', '-p', 'Oxy', '--mirror', '7'], ['in.nem', '-c', '0', '0', '1', '500'],
           ['in.nem', '-c', '0', '0', '1', '-500'], ['in.nem', '-ifmt', 'foo'], ['in.nem', '-t', '1', '2'], ['in.nem', '-p', '1', '0', '0', '-c', '0'],
           ['in.nem', '-hs'], ['in.nem', '-r', 'a', 'b', 'c'], ['in.nem', '-md', 'x'], ['in.nem', '--rho-medium', 'nothing', '-pi']]
    for args in bad:
        for verb in ([], ['-q']):
            if os.path.exists('out.nat'):
                os.remove('out.nat')
            text, err = cli.run(*(args + verb + ['-o', 'out.nat']))
            require(err is not None, lambda: '%s: no error' % args)
            require(not os.path.exists('out.nat'), lambda: '%s: a file is written' % args)
            require(open('in.nem', 'rb').read() == src[0] and open('other.nem', 'rb').read() == src[1], lambda: '%s: an input file is modified' % args)
            rec.count('evaluations')
            rec.outcome('error')
    rec.hit()


def two_lids(rec):
    base = reference([])
    lids = [([0, 0, 2, 0, 2, 2, 0, 2], 4., (0, 2, 0, 2)), ([-3, -2, -1, -2, -1, -1.5, -3, -1.5], 1., (-3, -1, -2, -1.5)), ([0.5, 4, 2.5, 4, 1.5, 5], 1., (.5, 2.5, 4, 5))]
    for n in (1, 2, 3):
        for seq in itertools.permutations(lids, n):
            for size in (None, .4):
                args = ['in.nem'] + [str(a) for pts, _, _ in seq for a in ['-lid'] + list(pts)] + (['-mesh_size', str(size)] if size else []) + ['-o', 'out.nat']
                with quiet():
                    text, err = cli.run(*args)
                if err is not None:
                    raise Violation('%s: %r' % (args, err))
                V, F = io.load('out.nat', 'nat')
                want, rest = geom.canon_faces(base.vertices, base.faces, 5), list(geom.canon_faces(V, F, 5))
                for p in want:
                    require(p in rest, lambda: '%s: a face of the mesh is lost' % args)
                    rest.remove(p)
                for _, area, (x0, x1, y0, y1) in seq:
                    inside = [p for p in rest if all(x0 - 1e-6 <= q[0] <= x1 + 1e-6 and y0 - 1e-6 <= q[1] <= y1 + 1e-6 and abs(q[2]) < 1e-9 for q in p)]
                    A = sum(abs(float(geom.area_vector([tuple(map(float, q)) for q in p])[2])) for p in inside)
                    require(abs(A - area) < 1e-3, lambda: '%s: area of a lid %g, expected %g' % (args, A, area))
                    rest = [p for p in rest if p not in inside]
                require(not rest, lambda: '%s: additional faces %s' % (args, rest[:3]))
                rec.count('evaluations')
    rec.hit()


def evaluate_lids(case, rec, src, t):
    """lids: polygons of the free surface, added to the mesh"""
    ref = reference([])
    two_lids(rec)
    polys = {'square': ([0, 0, 2, 0, 2, 2, 0, 2], 4.), 'triangle': ([0, 0, 3, 0, 0, 2], 3.), 'L': ([0, 0, 4, 0, 4, 1, 1, 1, 1, 3, 0, 3], 6.)}
    for name, (pts, area) in polys.items():
        for size in (None, .6):
            for extra, ops in (([], []), (['-tz', '-0.25', '-c'], [inplace(lambda m: m.translate_z(-.25)), clip(KEYS['Oxy'])])):
                args = ['in.nem'] + extra + ['-lid'] + [str(p) for p in pts] + (['-ms', str(size)] if size else []) + ['-o', 'out.nat']
                base = reference(ops)
                with quiet():
                    text, err = cli.run(*args)
                if err is not None:
                    raise Violation('%s: %r' % (args, err))
                V, F = io.load('out.nat', 'nat')
                n = base.nb_faces
                require(len(F) > n, lambda: '%s: no lid' % args)
                want = geom.canon_faces(base.vertices, base.faces, 5)
                got = geom.canon_faces(V, F, 5)
                rest = list(got)
                for p in want:
                    require(p in rest, lambda: '%s: a face of the mesh is lost' % args)
                    rest.remove(p)
                lid = [[tuple(q) for q in p] for p in rest]
                require(all(abs(q[2]) < 1e-9 for p in lid for q in p), lambda: '%s: lid off the free surface' % args)
                A = sum(abs(float(geom.area_vector([tuple(map(float, q)) for q in p])[2])) for p in lid)
                require(abs(A - area) < 1e-3, lambda: '%s: area of the lid %g, expected %g' % (args, A, area))
                rec.count('evaluations')
                rec.outcome('lid')
    rec.hit()
