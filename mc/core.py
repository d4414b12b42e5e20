"""Explorer core: enumerates the cases of a property, runs every one of them
against the real code in /repo, compares with a reference model, and writes the
evidence.  Nothing here samples: a property module supplies a finite, ordered
space of cases (``cases(tier)``) and every case of it is executed."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYGSP_REPO', '/repo')
CASE_TIMEOUT = 240          # s of wall time for one case (they take ms)


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Skip(Exception):
    """The harness cannot drive this implementation here (never an alarm)."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Per-case observer: counts API steps, records states, checks."""

    def __init__(self):
        self.ops = 0
        self.states = set()
        self.checks = 0
        self.traces = 0
        self.problems = []
        self.prefix = ''

    def op(self, n=1):
        self.ops += n

    def state(self, *objs):
        self.states.add(fingerprint(objs))

    def trace(self, n=1):
        self.traces += n

    def check(self, cond, msg, key=None):
        self.checks += 1
        if not cond:
            if callable(msg):
                msg = msg()
            self.problems.append((key or norm_key(msg), self.prefix + str(msg)[:600]))
            return False
        return True

    def close(self, got, want, msg, tol=1e-8, scale=None, key=None):
        import numpy as np
        self.checks += 1
        ok, info = close(got, want, tol, scale)
        if not ok:
            self.problems.append(
                (key or norm_key(msg), f'{self.prefix}{msg}: {info}'[:900]))
        return ok

    def raises(self, f, msg, exc=Exception, key=None):
        self.checks += 1
        self.ops += 1
        try:
            r = f()
        except exc:
            return True
        self.problems.append((key or norm_key(msg),
                              f'{self.prefix}{msg}: no exception, returned {r!r}'[:600]))
        return False

    def safe(self, f, msg, key=None):
        """Run f; an exception in it is a problem of this case, not the end of it."""
        try:
            return f()
        except (Skip, CaseTimeout):
            raise
        except BaseException as e:   # noqa
            self.problems.append((key or norm_key(msg),
                                  f'{self.prefix}{msg}: raised {type(e).__name__}: {e}'[:600]))
            return None


def norm_key(msg):
    return re.sub(r'[^A-Za-z0-9]+', '-', str(msg))[:60].strip('-')


def close(got, want, tol=1e-8, scale=None):
    import numpy as np
    from scipy import sparse
    if sparse.issparse(got):
        got = got.toarray()
    if sparse.issparse(want):
        want = want.toarray()
    try:
        got = np.asarray(got)
        want = np.asarray(want)
        if got.dtype == object:
            return False, f'got object array {got!r}'
        if got.shape != want.shape:
            return False, f'shape {got.shape} != {want.shape}'
        if got.dtype.kind not in 'biufc':
            return False, f'dtype {got.dtype}'
        g = got.astype(complex if got.dtype.kind == 'c' or want.dtype.kind == 'c' else float)
        w = want.astype(g.dtype)
    except Exception as e:
        return False, f'not comparable: {type(got).__name__} vs {type(want).__name__} ({e})'
    if g.size == 0:
        return True, ''
    if scale is None:
        fin = np.abs(w[np.isfinite(w)])
        scale = max(1.0, fin.max() if fin.size else 1.0)
    bad = ~(np.abs(g - w) <= tol * scale)
    bad &= ~((g == w))
    bad &= ~(np.isnan(g) & np.isnan(w))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        return False, f'at {i}: got {g[i]!r}, want {w[i]!r} ({int(bad.sum())}/{g.size} differ, tol {tol * scale:.1e})'
    return True, ''


def _feed(h, x, depth=0):
    import numpy as np
    from scipy import sparse
    if depth > 12:
        h.update(b'deep')
        return
    if x is None or isinstance(x, (bool, str, bytes)):
        h.update(repr(x).encode())
    elif isinstance(x, (int, np.integer)):
        h.update(b'n%r' % float(x))
    elif isinstance(x, (float, np.floating)):
        h.update(b'n%r' % (float('%.7g' % x) + 0.0))
    elif sparse.issparse(x):
        x = x.tocoo()
        h.update(b's%r' % (x.shape,))
        _feed(h, sorted(zip(x.row.tolist(), x.col.tolist(), x.data.tolist())), depth + 1)
    elif isinstance(x, np.ndarray):
        h.update(b'a%r' % (x.shape,))
        if x.dtype.kind in 'biuf':
            y = x.astype(float)
            with np.errstate(all='ignore'):
                mag = np.abs(y).max() if y.size else 0
                q = np.round(y / (mag or 1), 7) + 0.0
            h.update(b'%.6g' % mag)
            h.update(np.ascontiguousarray(q).tobytes())
        else:
            _feed(h, x.tolist(), depth + 1)
    elif isinstance(x, dict):
        h.update(b'{')
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            _feed(h, v, depth + 1)
        h.update(b']')
    elif isinstance(x, (set, frozenset)):
        _feed(h, sorted(x, key=str), depth + 1)
    elif isinstance(x, complex):
        _feed(h, [x.real, x.imag], depth + 1)
    elif hasattr(x, 'plotting') and hasattr(x, 'signals'):
        h.update(type(x).__name__.encode())
        _feed(h, {k: v for k, v in vars(x).items() if k != 'logger'}, depth + 1)
    else:
        h.update(type(x).__name__.encode())


def fingerprint(*objs):
    h = hashlib.blake2b(digest_size=10)
    _feed(h, objs)
    return h.hexdigest()


# ---------------------------------------------------------------------------
_MOD = None
_CASES = None


def _alarm(sig, frame):
    raise CaseTimeout()


def run_case(mod, case, timeout=CASE_TIMEOUT):
    """Execute one case. Returns (problems, ctx, skipped)."""
    ctx = Ctx()
    skipped = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        mod.run(case, ctx)
    except Skip as e:
        skipped = str(e)
    except CaseTimeout:
        ctx.problems.append(('timeout', f'no answer within {timeout} s of wall time'))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
        ctx.problems.append((f'exc-{type(e).__name__}',
                             f'{ctx.prefix}{type(e).__name__}: {str(e)[:300]} [{where}]'))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx, skipped


def _work(rng):
    out = dict(n=0, ops=0, checks=0, traces=0, states=set(), problems=[], skipped=[])
    for i in range(*rng):
        ctx, skipped = run_case(_MOD, _CASES[i])
        out['n'] += 1
        out['ops'] += ctx.ops
        out['checks'] += ctx.checks
        out['states'] |= ctx.states
        if skipped is not None:
            out['skipped'].append((i, skipped))
        else:
            out['traces'] += ctx.traces if ctx.traces else 1
        if ctx.problems and len(out['problems']) < 40:
            out['problems'].append((i, ctx.problems[:6]))
    return out


def load_known():
    """finding lines: 'finding: property=<id> case=<case glob> key=<key> <description>'"""
    known = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) case=(\S+) key=(\S+) (.*)', line)
            if m:
                known.append(m.groups())
    return known


def case_id(case):
    return case.get('id') or hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode(), digest_size=6).hexdigest()


class Arpack:
    """The one source of hidden nondeterminism in the package: ARPACK draws its
    starting vector from OS entropy.  The seam below is installed before pygsp is
    imported, so the harness decides the vector (default: a fixed generic one)."""
    start = 0          # seed of the starting vector
    fail = None        # exception to raise instead of converging
    hits = 0


def install_arpack_seam():
    import numpy as np
    import scipy.sparse.linalg as sla
    plain = np.random.default_rng

    def wrap(real, observed):
        def solver(A, *args, **kw):
            if observed:
                Arpack.hits += 1
                if Arpack.fail is not None:
                    raise Arpack.fail
            if kw.get('v0') is None and len(args) < 5 and kw.get('rng') is None:
                kw['v0'] = np.random.Generator(np.random.PCG64(Arpack.start)).uniform(-1, 1, A.shape[0])
            # restarts draw again: neither entropy nor the stubs of the harness
            outer = np.random.default_rng
            np.random.default_rng = lambda s=None: plain(Arpack.start if s is None else s)
            try:
                return real(A, *args, **kw)
            finally:
                np.random.default_rng = outer
        solver.__doc__ = real.__doc__
        return solver
    sla.eigsh = wrap(sla.eigsh, True)
    sla.eigs = wrap(sla.eigs, False)


def setup_env():
    import logging
    import warnings
    install_arpack_seam()
    from . import rng
    rng.install()
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import pygsp
    src = os.path.realpath(pygsp.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'pygsp imported from {src}, not from {REPO}')
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def main(prop, tier):
    global _MOD, _CASES
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup_env()
    mod = importlib.import_module('mc.' + prop.lower())
    _MOD = mod
    _CASES = list(mod.cases(tier))
    n = len(_CASES)
    nproc = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
    chunk = max(1, min(getattr(mod, 'CHUNK', 50), -(-n // (nproc * 4))))
    ranges = [(a, min(n, a + chunk)) for a in range(0, n, chunk)]
    tot = dict(n=0, ops=0, checks=0, traces=0)
    states, problems, skipped = set(), [], []
    budget = getattr(mod, 'BUDGET', {}).get(tier, 780 if tier == 'quick' else 6 * 3600)
    hung = False
    if nproc == 1:
        results = map(_work, ranges)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(nproc, maxtasksperchild=None)
        results = pool.imap_unordered(_work, ranges)
    try:
        it = iter(results)
        while True:
            try:
                r = next(it) if pool is None else it.next(max(1, budget - (time.time() - t0)))
            except StopIteration:
                break
            except mp.TimeoutError:
                hung = True
                break
            for k in tot:
                tot[k] += r[k]
            states |= r['states']
            problems += r['problems']
            skipped += r['skipped']
            if len(problems) > 2000:
                break
    finally:
        if pool is not None:
            pool.terminate()
    if hasattr(mod, 'finish'):
        problems += mod.finish(_CASES, states, tot) or []
    problems.sort(key=lambda p: p[0])
    known = load_known()
    import fnmatch
    unlisted, listed = [], {}
    for i, plist in problems:
        cid = case_id(_CASES[i]) if i >= 0 else 'global'
        for key, msg in plist:
            hit = next((k for k in known if k[0] == prop and fnmatch.fnmatchcase(cid, k[1])
                        and k[2] == key), None)
            if hit:
                listed.setdefault(hit, []).append((i, msg))
            else:
                unlisted.append((i, cid, key, msg))
    for k, occ in listed.items():
        print(f'KNOWN-FINDING: property={prop} {k[3].strip()} [{len(occ)} case(s)]')
    wall = time.time() - t0
    idx = sorted({0, n // 3, n - 1}) if n else []
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=len(states), transitions=tot['ops'],
            traces_validated_against_impl=tot['traces'],
            cases_enumerated=n, cases_executed=tot['n'], oracle_comparisons=tot['checks'],
            cases_skipped=len(skipped), skip_reasons=sorted({s for _, s in skipped})[:10],
            exhaustive=bool(tot['n'] == n and not hung and not skipped),
            bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
            samples=[_CASES[i] for i in idx]),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(unlisted),
        known_findings_hit=len(listed))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop} {tier}: cases={tot["n"]}/{n} states={len(states)} transitions={tot["ops"]} '
          f'traces={tot["traces"]} checks={tot["checks"]} skipped={len(skipped)} '
          f'violations={len(unlisted)} wall={wall:.1f}s')
    if skipped:
        print('  skipped:', sorted({s for _, s in skipped})[:3])
    if unlisted:
        i, cid, key, msg = unlisted[0]
        path = os.path.join(ROOT, 'evidence', 'replays', f'{prop}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, case=_CASES[i] if i >= 0 else None, key=key,
                           message=msg,
                           replay=f'cd {ROOT} && ./run.sh --replay {path}'), f, indent=1)
        seen = set()
        for i, cid, key, msg in unlisted:
            if key in seen:
                continue
            seen.add(key)
            print(f'  case={cid} key={key}: {msg}')
            print('     ', json.dumps(_CASES[i] if i >= 0 else None)[:160])
            if len(seen) >= 8:
                break
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if hung:
        print('  budget exhausted before the space was covered')
        return 2
    return 0


def replay(path):
    setup_env()
    r = json.load(open(path))
    mod = importlib.import_module('mc.' + r['property'].lower())
    if r['case'] is None:
        print(r['message'])
        return 1
    ctx, skipped = run_case(mod, r['case'])
    for key, msg in ctx.problems:
        print(f'{key}: {msg}')
    if ctx.problems:
        print(f'VIOLATION property={r["property"]} replay={path}')
        return 1
    print('no violation on replay', skipped or '')
    return 0


if __name__ == "__main__":
    sys.modules["mc.core"] = sys.modules["__main__"]
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    code = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    sys.stdout.flush()
    os._exit(code)
