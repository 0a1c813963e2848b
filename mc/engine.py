"""Exhaustive-exploration engine: runs every case of a finite, deterministic case list against the
real code, counts executions / transitions / distinct states, and reports violations with replay files."""
import os, sys, json, time, signal, hashlib, traceback, warnings, contextlib, fnmatch, shutil, tempfile
import concurrent.futures as cf
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

# ---------------------------------------------------------------------------------------------
_MPL = None


def setup_env():
    """Deterministic, self-contained environment; must run before numpy/matplotlib are imported."""
    global _MPL
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    _MPL = tempfile.mkdtemp(prefix='verif_mpl_')
    for src in ('/opt/vp/mplconfig',):
        if os.path.isdir(src):
            for f in os.listdir(src):
                try:
                    shutil.copy(os.path.join(src, f), _MPL)
                except OSError:
                    pass
    os.environ['MPLCONFIGDIR'] = _MPL
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def cleanup_env():
    if _MPL:
        shutil.rmtree(_MPL, ignore_errors=True)


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def rng(*salt):
    """Data generator that depends only on VERIF_SEED and the salt."""
    import numpy as np
    h = hashlib.sha256(repr((seed(),) + salt).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))


# ---------------------------------------------------------------------------------------------
class Timeout(BaseException):
    pass


class Ctx:
    """Recorder for one case."""

    def __init__(self, pid, case, tier):
        self.pid, self.case, self.tier = pid, case, tier
        self.transitions = 0
        self.evals = 0            # oracle comparisons
        self.states = set()       # digests of canonical states reached
        self.outcomes = set()
        self.failures = []        # (key, msg)
        self.nontrivial = False
        self.traces = 1

    # -- counting
    def op(self, n=1):
        self.transitions += int(n)

    def state(self, *xs):
        d = digest(xs)
        new = d not in self.states
        self.states.add(d)
        return d

    # -- oracle
    def fail(self, what, msg=''):
        self.failures.append((what, str(msg)[:2000]))

    def ok(self, cond, what, msg=''):
        self.evals += 1
        self.nontrivial = True
        if not cond:
            self.fail(what, msg)
        return bool(cond)

    def close(self, a, b, what, rtol=1e-7, atol=1e-8, msg=''):
        """a is observed, b is expected; shapes must match exactly."""
        import numpy as np
        self.evals += 1
        a = np.asarray(a, dtype=float) if np.asarray(a).dtype != bool else np.asarray(a)
        b = np.asarray(b, dtype=float) if np.asarray(b).dtype != bool else np.asarray(b)
        self.nontrivial = True
        if a.shape != b.shape:
            self.fail(what, 'shape %s, expected %s %s' % (a.shape, b.shape, msg))
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            self.fail(what, 'got %r, expected %r at %s (%d of %d differ) %s' % (
                a[i].item(), b[i].item(), i, len(bad), a.size, msg))
            return False
        return True


def digest(x):
    h = hashlib.sha1()
    _feed(h, x)
    return h.hexdigest()[:16]


def _feed(h, x):
    import numpy as np
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b'(')
        for y in x:
            _feed(h, y)
        h.update(b')')
    elif isinstance(x, str):
        h.update(x.encode())
    elif x is None:
        h.update(b'None')
    else:
        a = np.asarray(x)
        if a.dtype.kind in 'fc':
            # 9 significant digits: merges only numerically identical states
            m, e = np.frexp(a)
            m = np.where(np.isfinite(m), np.round(m, 9), m) + 0.0
            h.update(str(a.shape).encode())
            h.update(np.ascontiguousarray(m).tobytes())
            h.update(np.ascontiguousarray(e).tobytes())
        else:
            h.update(str(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())


def _alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, tier):
    ctx = Ctx(mod.ID, case, tier)
    limit = getattr(mod, 'CASE_TIMEOUT', 120)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np
            np.random.seed(12345)
            with np.errstate(all='ignore'):
                mod.run(ctx, case)
    except Timeout:
        ctx.fail('timeout', 'case did not finish within %d s' % limit)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc()
        last = [l for l in tb.strip().splitlines() if l.strip().startswith('File')]
        ctx.fail('exception:%s' % type(e).__name__, '%s | %s | %s' % (e, last[-1].strip() if last else '', tb[-1500:]))
    finally:
        signal.alarm(0)
    return dict(case=case, transitions=ctx.transitions, evals=ctx.evals, states=ctx.states,
                failures=ctx.failures, nontrivial=ctx.nontrivial, traces=ctx.traces,
                outcomes=ctx.outcomes)


_MOD = None
_TIER = None


def _work(cases):
    out = []
    for c in cases:
        t0 = time.time()
        r = run_case(_MOD, c, _TIER)
        r['t'] = time.time() - t0
        out.append(r)
    return out


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f) if k.get('property') == pid and k.get('status') == 'known']


def case_key(case):
    return json.dumps(case, separators=(',', ':'), sort_keys=True)


def main(mod, tier, replay=None):
    global _MOD, _TIER
    t0 = time.time()
    _MOD, _TIER = mod, tier
    import numpy  # noqa
    import bayespy  # noqa: imported before the fork
    if not os.path.abspath(bayespy.__file__).startswith(REPO + '/'):
        print('ERROR: bayespy imported from', bayespy.__file__)
        return 2
    if replay:
        with open(replay) as f:
            d = json.load(f)
        case = d['case']
        r = run_case(mod, case, d.get('tier', tier))
        r2 = run_case(mod, case, d.get('tier', tier))
        assert [k for k, _ in r['failures']] == [k for k, _ in r2['failures']], 'replay is not deterministic'
        for k, m in r['failures']:
            print('FAIL', k, m)
        print('replayed', case_key(case), 'failures:', len(r['failures']))
        return 1 if r['failures'] else 0
    known = load_known(mod.ID)
    cases = list(mod.cases(tier))
    keys = set(case_key(c) for c in cases)
    assert len(keys) == len(cases), 'duplicate cases in the enumeration'
    nproc = int(os.environ.get('VERIF_PROCS', str(min(8, os.cpu_count() or 1))))
    # interleave so that expensive families spread over the chunks
    nch = max(1, min(len(cases), nproc * getattr(mod, 'CHUNKS', 24)))
    chunks = [cases[i::nch] for i in range(nch)]
    cap = float(os.environ.get('VERIF_CAP', '780' if tier == 'quick' else '36000'))
    tot = dict(transitions=0, evals=0, traces=0)
    states, outcomes = set(), set()
    distinct_cases = 0
    done = 0
    failures = []
    capped = False
    per_family = {}
    slow = []
    ctxm = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctxm)
    try:
        futs = [ex.submit(_work, c) for c in chunks]
        try:
            for fu in cf.as_completed(futs, timeout=max(1, cap - (time.time() - t0))):
                for r in fu.result():
                    done += 1
                    tot['transitions'] += r['transitions']
                    tot['evals'] += r['evals']
                    tot['traces'] += r['traces']
                    states |= r['states']
                    outcomes |= r['outcomes']
                    distinct_cases += bool(r['nontrivial'])
                    fam = str(r['case'][0]) if isinstance(r['case'], (list, tuple)) and r['case'] else '?'
                    pf = per_family.setdefault(fam, [0, 0.0])
                    pf[0] += 1
                    pf[1] += r['t']
                    slow.append((r['t'], case_key(r['case'])))
                    for (k, m) in r['failures']:
                        failures.append((case_key(r['case']), r['case'], k, m))
                slow = sorted(slow, reverse=True)[:5]
        except cf.TimeoutError:
            capped = True
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
        for p in list((ex._processes or {}).values()):
            if capped:
                p.terminate()
    viol, knownhits = [], {}
    for (ck, case, k, m) in failures:
        full = '%s %s' % (ck, k)
        for kf in known:
            if any(fnmatch.fnmatchcase(full, pat) for pat in kf['match']):
                knownhits.setdefault(kf['id'], []).append(full)
                break
        else:
            viol.append((ck, case, k, m))
    wall = time.time() - t0
    sample = [case_key(c) for c in cases[:: max(1, len(cases) // 6)]][:8]
    bd = getattr(mod, 'BOUND', '')
    cov = dict(
        states=len(states), transitions=tot['transitions'],
        traces_validated_against_impl=tot['traces'], samples=sample, rule=mod.RULE,
        oracle_comparisons=tot['evals'],
        exhaustive=not capped, cases_total=len(cases), cases_nontrivial=distinct_cases,
        families={k: v[0] for k, v in sorted(per_family.items())},
        bound=bd.get(tier, bd.get('quick')) if isinstance(bd, dict) else bd,
    )
    if mod.LEVEL != 'model_checking':
        cov.update(evaluations=done, distinct_nontrivial=distinct_cases)
    if capped:
        cov['cap'] = 'time cap %.0f s hit; %d of %d cases completed' % (cap, done, len(cases))
    ev = dict(property=mod.ID, tier=tier, seed=seed(), level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d cases, %d nontrivial, %d transitions, %d states, %d comparisons, %.1f s%s' % (
        mod.ID, tier, done, len(cases), distinct_cases, tot['transitions'], len(states), tot['evals'], wall,
        ' (CAPPED)' if capped else ''))
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(per_family.items()):
            print('  family %-30s %6d cases %8.2f s cpu' % (k, v[0], v[1]))
        for t, k in slow:
            print('  slow %.2f s %s' % (t, k))
    for kf in known:
        if kf['id'] in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, kf['what']))
        elif os.environ.get('VERIF_VERBOSE'):
            print('  (known finding %s did not show)' % kf['id'])
    if done == 0 or distinct_cases == 0 or tot['evals'] == 0:
        print('ERROR: vacuous exploration')
        return 2
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        viol.sort(key=lambda v: (len(v[0]), v[0], v[2]))
        ck, case, k, m = viol[0]
        path = os.path.join(VERIF, 'replay', '%s-%s.json' % (mod.ID, hashlib.sha1((ck + k).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(dict(property=mod.ID, tier=tier, seed=seed(), case=case, failure=k, message=m,
                           how='python check.py %s --replay %s' % (mod.ID, path),
                           others=[(v[0], v[2]) for v in viol[1:40]]), f, indent=1)
        nshow = int(os.environ.get('VERIF_SHOW', '8'))
        seen = set()
        for (ck, case, k, m) in viol:
            fk = (str(case[0]) if isinstance(case, (list, tuple)) else '', k)
            if fk in seen:
                continue
            seen.add(fk)
            print('  %s :: %s :: %s' % (ck, k, m[:600 if not os.environ.get('VERIF_VERBOSE') else 2000]))
            if len(seen) >= nshow:
                break
        print('%d failing comparisons' % len(viol))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    if capped and done < len(cases):
        print('note: time cap reached, enumeration incomplete')
    return 0
