"""C01: derived data is a function of the current vertices and faces only, along every history of operations."""
import numpy as np

from mc import derived as D, geom
from mc.core import Violation

LEVEL = 'model_checking'
RULE = ('a case is (initial mesh, first operation); from it, breadth first search over all sequences of cache filling queries '
        'and modifications up to the depth, states deduplicated on every attribute of the real object; in each state all '
        'derived quantities are compared with those of a new mesh; non trivial: more than one state is reached')
ASSUMPTIONS = ['operation arguments are fixed representatives', 'states equal to 1e-7 in every attribute are merged']
CHUNK = 1
OPS = list(D.QOPS) + list(D.MOPS)


def cases(tier):
    names = list(D.roots())
    depth = {'quick': 3, 'thorough': 4}[tier]
    out = []
    for n in names:
        for op in OPS:
            out.append(dict(mesh=n, first=op, depth=depth))
    return out


def apply(m, op):
    f = D.QOPS.get(op) or D.MOPS[op]
    f(m)


def check_state(m, hist):
    from meshmagick.mesh import Mesh
    probe = D.clone(m)
    fresh = Mesh(np.array(m.vertices), np.array(m.faces))
    diff = D.differences(D.report(probe), D.report(fresh))
    if diff:
        raise Violation('after %s:\n  %s' % (' -> '.join(hist), '\n  '.join(diff[:6])))


def step(m, op, hist):
    """applies op on the object with its history and on a new object with the same vertices and faces"""
    from meshmagick.mesh import Mesh
    fresh = Mesh(np.array(m.vertices), np.array(m.faces))
    nxt = D.clone(m)
    ra = D.attempt(lambda: apply(nxt, op))
    rb = D.attempt(lambda: apply(fresh, op))
    if isinstance(ra, D.Raised) or isinstance(rb, D.Raised):
        if not ra == rb:
            raise Violation('%s after %s: %r, on a new mesh: %r' % (op, ' -> '.join(hist), ra, rb))
        return None
    if not D.same(np.array(nxt.vertices), np.array(fresh.vertices)) or not np.array_equal(nxt.faces, fresh.faces):
        raise Violation('%s after %s does not give the same mesh as on a new mesh with the same vertices and faces'
                        % (op, ' -> '.join(hist)))
    return nxt


def evaluate(case, rec):
    m0 = geom.mesh(D.roots()[case['mesh']])
    hist0 = [case['mesh']]
    check_state(m0, hist0)
    first = step(m0, case['first'], hist0)
    rec.count('transitions')
    if first is None:
        rec.outcome('not applicable')
        return
    hist = hist0 + [case['first']]
    check_state(first, hist)
    seen = {D.state_hash(m0), D.state_hash(first)}
    frontier = [(first, hist)]
    for _ in range(case['depth'] - 1):
        nxt_frontier = []
        for m, h in frontier:
            for op in OPS:
                n = step(m, op, h)
                rec.count('transitions')
                if n is None:
                    continue
                k = D.state_hash(n)
                if k in seen:
                    continue
                seen.add(k)
                hh = h + [op]
                check_state(n, hh)
                rec.count('traces')
                nxt_frontier.append((n, hh))
        frontier = nxt_frontier
    rec.count('states', len(seen))
    rec.outcome('%s: %d faces' % (case['mesh'], first.nb_faces))
    if len(seen) > 2:
        rec.hit()
    if frontier:
        rec.samples.append(' -> '.join(frontier[-1][1]))
