"""C27: a mesh file that cannot be written completely is always reported."""
import os
import resource
import signal
import sys

import numpy as np

from mc import geom, io
from mc.core import CaseTimeout, Violation, quiet, require

LEVEL = 'fault_enumeration'
RULE = ('a case is (format, mesh, block of fault points) or (format, environment fault): the space runs out after every number of bytes '
        '(RLIMIT_FSIZE, on the real writers and file system calls), the device is full, the directory is missing; a writer returning '
        'normally must have written the whole mesh; after the fault the same call must succeed; non trivial: a fault was injected')
ASSUMPTIONS = ['running out of space is injected as EFBIG by the file size limit (same path of the code as ENOSPC), ENOSPC by /dev/full']
CHUNK = 1
CASE_LIMIT = 240.

UNSUPPORTED = ['inp', 'diodore-inp', 'msh', 'gmsh', 'rad', 'radioss', 'med', 'salome', 'vrml', 'wrl']
FLAT = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 1), (1, 2, 1), (2, 2, 1)]
tri = geom.tri


def meshes(name):
    if name == 'small':
        return geom.arrays((FLAT, [(8, 7, 4, 5), tri(0, 1, 4), (3, 4, 7, 6), tri(4, 3, 0)]))
    if name == 'medium':   # some files are larger than the buffers
        return geom.arrays(geom.subdivided(geom.subdivided(geom.wedge())))
    return geom.arrays(geom.subdivided(geom.subdivided(geom.subdivided(geom.hull()))))


def cases(tier):
    for f in io.RW:
        for b in range(4):
            yield dict(kind='limit', fmt=f, mesh='small', block=[b, 4], step=1)
        for b in range(8):
            yield dict(kind='limit', fmt=f, mesh='medium', block=[b, 8], step=11 if tier == 'quick' else 1)
        if tier != 'quick':
            for b in range(16):
                yield dict(kind='limit', fmt=f, mesh='large', block=[b, 16], step=61)
    for f in io.RW + list(io.ALIASES):
        yield dict(kind='environment', fmt=f)
        yield dict(kind='cli', fmt=f)
    for f in UNSUPPORTED:
        yield dict(kind='unsupported', fmt=f)
    for f in io.RW + list(io.ALIASES) + UNSUPPORTED + ['xyz', '', 'STL ', '.stl']:
        yield dict(kind='load', fmt=f)


class limited(object):
    """No file may grow over n bytes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def raises(fn):
    try:
        fn()
    except Exception as err:
        return err
    except SystemExit as err:
        return err if err.code not in (None, 0) else None
    return None


def cli(*argv):
    from meshmagick.cli import main
    old = sys.argv
    sys.argv = ['meshmagick'] + list(argv)
    try:
        with quiet():
            main()
    finally:
        sys.argv = old


def complete(name, V, F, fmt):
    path = io.path_of(name, fmt)
    if not os.path.exists(path):
        return False
    try:
        V1, F1 = io.load(path, fmt)
        io.compare(fmt, V, F, V1, F1)
        return True
    except Exception:
        return False


def evaluate(case, rec):
    from meshmagick import mmio
    kind, fmt = case['kind'], case['fmt']
    base = io.ALIASES.get(fmt, fmt)
    if kind == 'limit':
        V, F = meshes(case['mesh'])
        name = 'm.' + fmt
        path = io.path_of(name, fmt)
        with quiet():
            mmio.write_mesh(name, V, F, fmt)
            size = os.path.getsize(path)
            require(complete(name, V, F, fmt), 'file written is not complete')
            b, n = case['block']
            points = set(range(0, size, case['step']))
            for k in range(0, size + 1, 4096):      # around the buffers
                points |= {k + d for d in (-2, -1, 0, 1) if 0 <= k + d < size}
            points |= {size - 1, size - 2}
            points = sorted(points)
            rec.hit()
            for k in points[b::n]:
                if os.path.exists(path):
                    os.remove(path)
                with limited(k):
                    err = raises(lambda: mmio.write_mesh(name, V, F, fmt))
                rec.count('evaluations')
                if err is None and not complete(name, V, F, fmt):
                    raise Violation('%s writer returns normally though the space ran out after %d of %d bytes (file: %s bytes)'
                                    % (fmt, k, size, os.path.getsize(path) if os.path.exists(path) else 'no'))
                rec.outcome('%s %s' % (fmt, type(err).__name__))
            mmio.write_mesh(name, V, F, fmt)
            require(complete(name, V, F, fmt), 'writing %s after a failure gives an incomplete file' % fmt)
    elif kind == 'environment':
        V, F = meshes('small')
        rec.hit()
        for what, name in (('the device is full', '/dev/full'), ('the directory does not exist', 'missing/m.' + base),
                           ('the path is a directory', 'adir'), ('a parent is a file', 'afile/m.' + base)):
            os.makedirs('adir', exist_ok=True)
            open('afile', 'w').close()
            with quiet():
                err = raises(lambda: mmio.write_mesh(name, V, F, fmt))
            rec.count('evaluations')
            require(err is not None, '%s writer returns normally though %s' % (fmt, what))
            rec.outcome('%s %s' % (what, type(err).__name__))
        with quiet():
            mmio.write_mesh('m.' + base, V, F, fmt)
        require(complete('m.' + base, V, F, base), 'writing %s after failures gives an incomplete file' % fmt)
    elif kind == 'cli':
        V, F = meshes('small')
        rec.hit()
        with quiet():
            mmio.write_mesh('in.nat', V, F, 'nat')
        os.makedirs('adir', exist_ok=True)
        for what, argv in (('the directory does not exist', ('-o', 'missing/m.' + base, '-ofmt', fmt)),
                           ('the device is full', ('-o', '/dev/full', '-ofmt', fmt)),
                           ('the path is a directory', ('-o', 'adir', '-ofmt', fmt))):
            err = raises(lambda: cli('in.nat', *argv))
            rec.count('evaluations')
            require(err is not None, 'the command line %r returns normally though %s' % (argv, what))
        with quiet():
            mmio.write_mesh('ref.' + base, V, F, base)
        path = io.path_of('out.' + base, base)
        size = os.path.getsize(io.path_of('ref.' + base, base))
        for k in sorted({0, 1, size // 3, size // 2, size - 2}):
            if os.path.exists(path):
                os.remove(path)
            with limited(k):
                err = raises(lambda: cli('in.nat', '-o', 'out.' + base, '-ofmt', fmt))
            rec.count('evaluations')
            require(err is not None or complete('out.' + base, V, F, base),
                    'the command line returns normally though the space ran out after %d of %d bytes of the %s file' % (k, size, fmt))
        cli('in.nat', '-o', 'out.' + base, '-ofmt', fmt)
        require(complete('out.' + base, V, F, base), 'the command line does not write a complete %s file after failures' % fmt)
        for argv in (('nofile.nat',), ('nofile.nat', '-o', 'x.' + base), ('in.nat', '-o', 'x.unknown'),
                     ('in.nat', '-o', 'x.' + base, '-ofmt', 'unknown'), ('in.nat', '-ifmt', 'unknown', '-o', 'x.' + base),
                     ('in.nat', '-cc', 'nofile.nat', '-o', 'x.' + base)):
            err = raises(lambda: cli(*argv))
            rec.count('evaluations')
            require(err is not None, 'the command line %r returns normally' % (argv,))
            rec.outcome('cli ' + type(err).__name__)
    elif kind == 'unsupported':
        V, F = meshes('small')
        rec.hit()
        with quiet():
            err = raises(lambda: mmio.write_mesh('u.' + fmt, V, F, fmt))
        rec.count('evaluations')
        require(err is not None, 'writing the unsupported format %s returns normally' % fmt)
        with quiet():
            mmio.write_mesh('in.nat', V, F, 'nat')
        err = raises(lambda: cli('in.nat', '-o', 'v.' + fmt))
        require(err is not None, 'the command line returns normally when asked to write the unsupported format %s' % fmt)
        rec.outcome('unsupported ' + type(err).__name__)
    else:
        rec.hit()
        os.makedirs('adir', exist_ok=True)
        known = fmt in io.RW or fmt in io.ALIASES or fmt in UNSUPPORTED
        V, F = meshes('small')
        with quiet():
            mmio.write_mesh('in.nat', V, F, 'nat')
        for name in ('nofile.' + base, 'missing/m.' + base, 'adir') + (() if known else ('in.nat',)):
            with quiet():
                err = raises(lambda: mmio.load_mesh(name, fmt))
            rec.count('evaluations')
            require(err is not None, 'loading %s as %r returns normally' % (name, fmt))
            rec.outcome('load ' + type(err).__name__)
        if not known:
            with quiet():
                err = raises(lambda: mmio.write_mesh('x.nat', V, F, fmt))
            require(err is not None, 'writing the unknown format %r returns normally' % fmt)
