"""Runner of the bounded exhaustive explorations.

A check is a module checks/cXX.py holding

    LEVEL     'model_checking' | 'exploration' | 'fault_enumeration'
    RULE      text: how cases are made, what makes one non trivial
    cases(tier)            -> iterable of JSON-able case descriptors (finite, complete enumeration of the stated bound)
    evaluate(case, rec)    -> None; raises Violation when the property is broken. rec counts what is covered.

Every case of the bound is evaluated (VERIF_SEED only permutes the order). Any exception escaping the code under test
while a case is evaluated is a violation (the property promises a result), and so is a case which does not terminate.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    """The property does not hold on a case. key identifies the failing input for the known findings file"""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Rec(object):
    """What a run covers"""

    def __init__(self):
        self.n = {}
        self.outcomes = {}
        self.samples = []
        self.nontrivial = False
        self.keys = set()

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def outcome(self, name):
        name = str(name)
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def hit(self):
        """The case being evaluated is non trivial (see RULE)"""
        self.nontrivial = True


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


_scratch = None


def scratch():
    return _scratch


def setup_process(root):
    """Environment of a process in which the code under test runs"""
    global _scratch
    _scratch = tempfile.mkdtemp(dir=root)
    os.chdir(_scratch)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import meshmagick
    real = os.path.realpath(os.path.dirname(meshmagick.__file__))
    assert real == os.path.realpath(os.path.join(REPO, 'meshmagick')), real


def _alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def quiet():
    """Silences the standard streams (file descriptors) of the code under test"""
    sys.stdout.flush()
    sys.stderr.flush()
    so, se = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(so, 1)
        os.dup2(se, 2)
        for fd in (so, se, nul):
            os.close(fd)


def eval_case(mod, case, rec, limit):
    """Returns None or (message, key)"""
    rec.nontrivial = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 0.5)
    try:
        try:
            mod.evaluate(case, rec)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as err:
        return str(err), err.key
    except CaseTimeout:
        return 'the case did not terminate within %g s' % limit, None
    except KeyboardInterrupt:
        raise
    except BaseException as err:
        tb = traceback.format_exc().strip().splitlines()
        return 'unexpected %s: %s\n%s' % (type(err).__name__, err, '\n'.join(tb[-14:])), None


def _worker_init(root, pid):
    os.environ['VERIF_WORKER'] = '1'
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    setup_process(root)
    load_check(pid)


def _worker_chunk(pid, chunk, limit, tier):
    mod = load_check(pid)
    os.environ['VERIF_TIER'] = tier
    rec = Rec()
    fails = []
    for idx, case in chunk:
        rec.count('_cases')
        err = eval_case(mod, case, rec, limit)
        if rec.nontrivial:
            rec.keys.add(digest(case))
        if err is not None:
            fails.append((idx, case, err[0], err[1]))
            if len(fails) >= 20:
                break
    return rec.n, rec.outcomes, rec.keys, fails, rec.samples[:3]


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # finding: property=<id> key=<key> <what fails>
            if line.startswith('finding:'):
                w = line.split(None, 3)
                if w[1] == 'property=' + pid:
                    out[w[2][len('key='):]] = w[3] if len(w) > 3 else ''
    return out


def run(pid, tier, seed):
    t0 = time.time()
    mod = load_check(pid)
    root = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    limit = getattr(mod, 'CASE_LIMIT', 60.)
    budget = float(os.environ.get('VERIF_BUDGET', '660' if tier == 'quick' else '36000'))
    cases = list(enumerate(mod.cases(tier)))
    total = len(cases)
    random.Random(seed).shuffle(cases)
    size = getattr(mod, 'CHUNK', None) or max(1, min(64, total // (nproc * 8)))
    chunks = [cases[i:i + size] for i in range(0, total, size)]
    rec = Rec()
    fails = []
    capped = False
    try:
        ctx = mp.get_context('fork')
        ex = cf.ProcessPoolExecutor(nproc, mp_context=ctx, initializer=_worker_init, initargs=(root, pid))
        pending = {}
        it = iter(chunks)
        done_flag = False
        progress = time.time()
        while True:
            while not done_flag and len(pending) < nproc * 2:
                if time.time() - t0 > budget:
                    capped = True
                    done_flag = True
                    break
                c = next(it, None)
                if c is None:
                    done_flag = True
                    break
                pending[ex.submit(_worker_chunk, pid, c, limit, tier)] = (c, time.time())
            if not pending:
                break
            done, _ = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                c, _ = pending.pop(f)
                try:
                    n, outs, keys, fl, samples = f.result()
                except cfp.BrokenProcessPool:
                    # The interpreter died (crash in native code): find the case in a fresh process
                    fails.extend(_isolate(pid, [c] + [v[0] for v in pending.values()], limit, root, tier))
                    pending.clear()
                    done_flag = True
                    break
                for k, v in n.items():
                    rec.count(k, v)
                for k, v in outs.items():
                    rec.outcomes[k] = rec.outcomes.get(k, 0) + v
                rec.keys |= keys
                fails.extend(fl)
                if len(rec.samples) < 6:
                    rec.samples.extend(samples)
            if len(fails) > (0 if os.environ.get('VERIF_FAILFAST') else 200):
                done_flag = True
            # A chunk which hangs in native code never sees the alarm
            now = time.time()
            if done:
                progress = now
            elif now - progress > max(3 * limit, 200.):
                first = min(pending.values(), key=lambda v: v[1])[0][0]
                fails.append((first[0], first[1], 'the code under test hangs (native code)', None))
                for p in list(ex._processes.values()):
                    p.kill()
                pending.clear()
                break
        try:
            ex.shutdown(wait=False, cancel_futures=True)
        except Exception:
            pass
        return finish(mod, pid, tier, seed, rec, fails, total, capped, t0, cases)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _isolate(pid, chunks, limit, root, tier):
    """Evaluates one by one, in processes of their own, the cases which were running when a worker died"""
    out = []
    ctx = mp.get_context('fork')
    for chunk in chunks:
        for case in chunk:
            ex = cf.ProcessPoolExecutor(1, mp_context=ctx, initializer=_worker_init, initargs=(root, pid))
            try:
                out.extend(ex.submit(_worker_chunk, pid, [case], limit, tier).result()[3])
            except cfp.BrokenProcessPool:
                out.append((case[0], case[1], 'the process died (crash in native code) on this case', None))
            finally:
                ex.shutdown(wait=False)
            if out:
                return out
    # Not reproducible in isolation
    return [(chunks[0][0][0], chunks[0][0][1], 'a process died while evaluating these cases', None)]


def _jsonable(x):
    return json.loads(json.dumps(x, default=str))


def finish(mod, pid, tier, seed, rec, fails, total, capped, t0, cases):
    level = mod.LEVEL
    known = known_findings(pid)
    new, old = [], {}
    for f in sorted(fails, key=lambda f: f[0]):
        if f[3] is not None and f[3] in known:
            old.setdefault(f[3], f)
        else:
            new.append(f)
    evaluated = rec.n.pop('_cases', 0)
    cov = dict(cases_in_bound=total, cases_evaluated=evaluated, rule=mod.RULE,
               exhaustive=(evaluated == total and not capped),
               outcomes=dict(sorted(rec.outcomes.items(), key=lambda kv: -kv[1])[:60]))
    cov['samples'] = _jsonable(rec.samples[:4] + [c[1] for c in cases[:3]])
    if capped:
        cov['cap'] = 'wall budget reached: %d of %d cases evaluated (in a seeded order)' % (evaluated, total)
    if level == 'model_checking':
        cov['states'] = rec.n.pop('states', 0)
        cov['transitions'] = rec.n.pop('transitions', 0)
        cov['traces_validated_against_impl'] = rec.n.pop('traces', 0)
        cov['explanation'] = 'every transition is executed by the real implementation and compared with the model, ' \
                             'so that model traces and implementation traces are the same ones'
    else:
        cov['evaluations'] = rec.n.pop('evaluations', evaluated)
        cov['distinct_nontrivial'] = len(rec.keys)
    cov.update(rec.n)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, f in old.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    print('%s %s: %d/%d cases, %s, %d outcomes, %.1f s'
          % (pid, tier, evaluated, total,
             ', '.join('%s=%s' % (k, v) for k, v in cov.items()
                       if isinstance(v, int) and not isinstance(v, bool) and k not in ('cases_in_bound',)),
             len(rec.outcomes), time.time() - t0))
    if capped:
        print(cov['cap'])
    if not new:
        return 0
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for idx, case, msg, key in new:
        sig = msg.splitlines()[0][:60]
        if sig in shown or len(shown) >= 5:
            continue
        shown.add(sig)
        path = os.path.join(rdir, '%s-%s.json' % (pid, digest(case)))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=case, message=msg, key=key,
                           replay='python3 %s replay %s' % (os.path.join(HERE, 'run.py'), path)), f, indent=1)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%d violating cases' % len(new))
    return 1


def replay(path):
    d = json.load(open(path))
    root = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        setup_process(root)
        mod = load_check(d['property'])
        rec = Rec()
        err = eval_case(mod, d['case'], rec, getattr(mod, 'CASE_LIMIT', 60.))
        print(json.dumps(d['case']))
        if err is None:
            print('the property holds on this case')
            return 0
        print(err[0])
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)


def selftest():
    """Setup: checks that everything needed is there, and that the reference geometry agrees with itself"""
    root = tempfile.mkdtemp(prefix='verif-self-')
    try:
        setup_process(root)
        import numpy  # noqa
        import scipy  # noqa
        import vtk  # noqa
        import meshmagick.mesh  # noqa
        from mc import geom
        geom.selftest()
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in man['checks']:
            mod = load_check(c['property'])
            assert mod.LEVEL == c['level'], c['property']
            assert callable(mod.evaluate) and callable(mod.cases)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('selftest ok')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)


def main(argv):
    if argv[0] == 'selftest':
        return selftest()
    if argv[0] == 'replay':
        return replay(argv[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    os.environ['VERIF_TIER'] = tier
    return run(argv[0].upper(), tier, seed)
