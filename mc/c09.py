"""C09: the inference loop's books, order, stopping, callback, autosave: against a reference loop."""
import io, itertools, os, shutil, tempfile, warnings, logging, contextlib
import numpy as np
import h5py
from bayespy.inference import VB
from bayespy.inference.vmp.nodes.node import Node
from . import zoo, engine

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the engine against a reference loop, with scripted bound trajectories (all of them up to a length)'
RULE = ('all bound trajectories of length <=L over {rise above tolerance, rise below tolerance, no change, drop, nan, from -inf} x all '
        'sequences of one or two runs over repeat {0,1,2,3,None} x tolerance {default, own} x {callback, autosave interval, verbosity, '
        'annealing {off, on, unchanged} at every step, ignore_bound_checks}; every iteration compared with a reference loop; plus every node order of the zoo models '
        'against node-by-node updating')
BOUND = dict(quick='trajectories of length 4 (6^4), two runs; orders: all permutations of <=3 nodes', thorough='trajectories of length 5, all permutations of <=4 nodes, three runs')
ASSUMPTIONS = ['relative changes within a factor 1.5 of the tolerance are not distinguished']

STEPS = 'ASZDNI'      # Above tol, Small, Zero, Drop, Nan, -Inf


class Fake(Node):
    """a node whose bound contribution is a scripted function of how often it was updated"""

    def __init__(self, name, script, log):
        self.name, self.script, self.log, self.k = name, script, log, 0
        self.annealing = 1.0
        self.plates = ()

    def update(self):
        self.k += 1
        self.log.append(self.name)

    def lower_bound_contribution(self, gradient=False, ignore_masked=True):
        return self.script[min(self.k, len(self.script)) - 1] if self.k else -1e6

    def has_plotter(self):
        return False


class Plain(Node):
    """a node without update(), like a deterministic node"""

    def __init__(self, name):
        self.name = name
        self.plates = ()

    def lower_bound_contribution(self, gradient=False, ignore_masked=True):
        return 0.25


TOL = 1e-3


def trajectory(code):
    """the value 0.25 of the plain node is part of the total"""
    L = -100.0
    out = [L]
    for c in code:
        base = L if np.isfinite(L) else -50.0
        if c == 'A':
            L = base + abs(base) * 4e-3
        elif c == 'S':
            L = base + abs(base) * 3e-4
        elif c == 'Z':
            L = base
        elif c == 'D':
            L = base - abs(base) * 2e-2
        elif c == 'N':
            L = np.nan
        elif c == 'I':
            L = -np.inf
        out.append(L)
    return out


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for first in itertools.product(STEPS, repeat=2):
        yield ['script', ''.join(first), n]
    for first in STEPS:
        yield ['options', first]
    for interval in range(0, 5):
        for k in range(1, 7):
            yield ['autosave', interval, k]
    for k in (99, 100, 101, 205):
        yield ['long', k]
    for name in zoo.ZOO:
        for init in ('prior', 'params'):
            yield ['order', name, init, 3 if tier == 'quick' else 4]
    yield ['arguments']


def ref_run(st, traj, repeat, tol, dtol):
    """reference loop. st: dict(k (updates), L, converged, changed)"""
    i = 0
    st['conv'] = st.get('conv', False)
    while repeat is None or i < repeat:
        st['k'] += 1
        i += 1
        L = traj[min(st['k'], len(traj)) - 1] + 0.25
        st['L'].append(L)
        st['conv'] = False
        if len(st['L']) > 1 and not st['changed'] and not st['ignore']:
            L0 = st['L'][-2]
            t = dtol if tol is None else tol
            rel = (L - L0) / (0.5 * (abs(L0) + abs(L)))
            if rel < t:
                st['conv'] = True
        st['changed'] = False
        if st['conv']:
            break


def check(ctx, vb, A, st, log, calls, what, nodes=None):
    ctx.ok(int(vb.iter) == len(st['L']), 'number of iterations', '%s: %s, expected %d' % (what, vb.iter, len(st['L'])))
    ctx.close(np.array(vb.L[:int(vb.iter)]), np.array(st['L']), 'bound history', 1e-13, 0, what)
    ctx.close(np.array(vb.l[A][:int(vb.iter)]), np.array(st['L']) - 0.25, 'history of the terms', 1e-13, 1e-12, what)
    ctx.ok(len(vb.L) >= int(vb.iter) and np.all(np.isnan(vb.L[int(vb.iter):])), 'nothing recorded beyond the last iteration', what)
    ctx.ok(np.all(vb.cputime[:int(vb.iter)] >= 0), 'cpu time of every iteration', what)
    ctx.ok(bool(vb.has_converged()) == st['conv'], 'convergence status', '%s: %s' % (what, vb.has_converged()))
    ctx.ok(log.count('A') == st['k'], 'updates of the node', '%s: %d, expected %d' % (what, log.count('A'), st['k']))
    if calls is not None:
        ctx.ok(len(calls) == len(st['L']), 'callback calls', '%s: %d, expected %d' % (what, len(calls), len(st['L'])))


def run(ctx, case):
    globals()['f_' + case[0]](ctx, case)


def quiet_update(vb, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        vb.update(*a, **k)
    return [str(x.message) for x in w if 'ecreased' in str(x.message)]


RUNS = [(1, None), (2, None), (3, None), (0, None), (None, None), (2, 5e-5), (3, -1), (2, 1e-1)]


def f_script(ctx, case):
    _, first, n = case
    ctx.traces = 0
    for tail in itertools.product(STEPS, repeat=n - 2):
        code = first + ''.join(tail)
        traj = trajectory(code)
        # an unlimited run must end: constant tail
        traj = traj + [traj[-1] if np.isfinite(traj[-1]) else -10.0] * 2
        for (r1, t1), (r2, t2) in itertools.product(RUNS, repeat=2):
            log, calls = [], []
            A, P = Fake('A', traj, log), Plain('P')
            vb = VB(A, P, tol=TOL, callback=lambda: calls.append(int(vb.iter)))
            st = dict(k=0, L=[], changed=False, ignore=False)
            for (r, t) in ((r1, t1), (r2, t2)):
                n0 = len(st['L'])
                ref_run(st, traj, r, t, TOL)
                w = quiet_update(vb, repeat=r, tol=t, verbose=False)
                L = st['L']
                drops = sum(1 for i in range(max(n0, 1), len(L)) if L[i - 1] - L[i] > 1e-6)
                ctx.ok((len(w) > 0) == (drops > 0), 'warning about a decreasing bound', '%s %s' % (code, w))
                ctx.op(len(L) - n0)
                check(ctx, vb, A, st, log, calls, '%s repeat %s tol %s' % (code, r, t))
            ctx.traces += 1
            ctx.ok(calls == list(range(len(st['L']))), 'callback once per iteration', calls)
            ctx.state(np.nan_to_num(np.array(st['L']), nan=7e7), st['conv'], st['k'])


def f_options(ctx, case):
    """annealing changes, ignore_bound_checks, subsets and orders, verbosity, default tolerance"""
    first = case[1]
    ctx.traces = 0
    for tail in itertools.product(STEPS, repeat=2):
        code = first + ''.join(tail)
        traj = trajectory(code) + [-9.0, -9.0]
        ann_all = list(itertools.product((None, 0.5, 1.0), repeat=3))
        opts = [(i, a, False, False) for i in (False, True) for a in ann_all]
        opts += [(i, a, v, l) for i in (False, True) for a in ((None,) * 3, (0.5, None, None), (None, 1.0, None), (None, None, 0.5))
                 for v, l in ((False, True), (True, False), (True, True))]
        for ign, ann, verbose, uselog in opts:
            log, calls = [], []
            A, B, P = Fake('A', traj, log), Fake('B', [0.0], log), Plain('P')
            B.script = [0.0] * 50
            B.lower_bound_contribution = lambda gradient=False, ignore_masked=True: 0.0
            A.annealing = B.annealing = P.annealing = 1.0
            vb = VB(A, P, B, tol=TOL, use_logging=uselog)
            vb.ignore_bound_checks = ign
            st = dict(k=0, L=[], changed=False, ignore=ign)
            for step in range(3):
                if ann[step] is not None:
                    vb.set_annealing(ann[step])
                    ctx.ok(A.annealing == B.annealing == ann[step], 'annealing reaches every node')
                    ctx.ok(not vb.has_converged(), 'an annealing change resets convergence')
                    st['changed'] = True
                n0 = len(st['L'])
                nodes = [(), (B, A), ('A',)][step]
                out = io.StringIO()
                logs = []
                h = logging.Handler()
                h.emit = lambda rec: logs.append(rec.getMessage())
                lg = logging.getLogger('bayespy.inference.vmp.vmp')
                lg.addHandler(h); lv = lg.level; lg.setLevel(logging.INFO); pr = lg.propagate; lg.propagate = False
                try:
                    with contextlib.redirect_stdout(out):
                        quiet_update(vb, *nodes, repeat=2, verbose=verbose)
                finally:
                    lg.removeHandler(h); lg.setLevel(lv); lg.propagate = pr
                ref_run(st, traj, 2, None, TOL)
                ctx.op(len(st['L']) - n0)
                it = len(st['L']) - n0
                check(ctx, vb, A, st, log, None, '%s options step %d' % (code, step))
                lines = out.getvalue().splitlines() if not uselog else logs
                want = it if verbose else 0
                ctx.ok(sum(l.startswith('Iteration %d' % 0) is False and l.startswith('Iteration ') for l in lines) == want, 'one line per iteration', lines)
                ctx.ok(any('onverged' in l for l in lines) == (verbose and st['conv']), 'convergence is reported', lines)
                ctx.ok((not uselog) or out.getvalue() == '', 'logging replaces printing')
            ctx.traces += 1
            # order
            i = 0
            ctx.state(log, np.nan_to_num(np.array(st['L']), nan=7e7))
    # update order in every subset and with repetitions
    for k in range(1, 4):
        for perm in itertools.product('ABC', repeat=k):
            log = []
            N = {x: Fake(x, [-5., -4., -3., -2., -1.5, -1, -.5, -.2, -.1], log) for x in 'ABC'}
            vb = VB(*N.values(), tol=-np.inf)
            vb.update(*[N[x] if i % 2 else x for i, x in enumerate(perm)], repeat=2, verbose=False)
            ctx.ok(log == list(perm) * 2, 'nodes updated in the requested order', '%s: %s' % (perm, log))
            del log[:]
            vb.update(repeat=2, verbose=False)
            ctx.ok(log == list('ABC') * 2, 'all nodes updated in the declared order', log)
            ctx.ok(int(vb.iter) == 4, 'iterations')
            ctx.state(perm)


def f_autosave(ctx, case):
    _, interval, k = case
    d = tempfile.mkdtemp(prefix='verif_c09_')
    try:
        for split in range(k + 1):
            for verbose in (False, True):
                fn = os.path.join(d, 'f%d%d.h5' % (split, verbose))
                log, seen = [], []
                A = Fake('A', [-100. + i for i in range(20)], log)

                def cb():
                    # the file as it is when an iteration ends (before its own autosave)
                    seen.append(int(h5py.File(fn, 'r')['iter'][()]) if os.path.exists(fn) else None)
                vb = VB(A, tol=-np.inf, callback=cb, autosave_filename=fn, autosave_iterations=interval)
                vb.update(repeat=split, verbose=verbose)
                vb.update(repeat=k - split, verbose=verbose)
                seen.append(int(h5py.File(fn, 'r')['iter'][()]) if os.path.exists(fn) else None)
                want = []
                for it in range(1, k + 2):     # before the autosave of iteration it
                    done = ((it - 1) // interval) * interval if interval else 0
                    want.append(done if done > 0 else None)
                ctx.ok(seen == want, 'automatic saves happen exactly at the interval', '%s, expected %s' % (seen, want))
                ctx.op(k)
                ctx.state(interval, k, split)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def f_long(ctx, case):
    k = case[1]
    log = []
    traj = list(np.linspace(-1000, -1, 300))
    A = Fake('A', traj, log)
    P = Plain('P')
    outs = []
    vb = VB(A, P, tol=-1, callback=lambda: float(A.k))
    vb.update(repeat=k, verbose=False)
    vb.update(repeat=7, verbose=False)
    ctx.op(k + 7)
    n = k + 7
    ctx.ok(int(vb.iter) == n, 'iterations')
    ctx.close(vb.L[:n], np.array(traj[:n]) + .25, 'bound history')
    ctx.close(vb.l[A][:n], traj[:n], 'terms')
    ctx.close(vb.l[P][:n], np.full(n, .25), 'terms')
    ctx.close(np.asarray(vb.callback_output)[..., :].ravel(), np.arange(1., n + 1), 'callback output')
    ctx.ok(len(vb.cputime) == len(vb.L), 'cpu time book')
    ctx.state(k)


def f_order(ctx, case):
    """engine iterations == node by node updating, for every order"""
    _, name, init, kmax = case
    lat = zoo.build(name, init=init).latent
    allnames = list(zoo.build(name, init=init).n)
    perms = [tuple(allnames)] + list(itertools.permutations(lat, min(kmax, len(lat)))) + [(a,) for a in lat] + [(a, a) for a in lat]
    if len(lat) > 3:
        perms = perms[:25] + perms[-2 * len(lat):]
    ctx.traces = 0
    for p in perms:
        m, g = zoo.build(name, init=init), zoo.build(name, init=init)
        vb = m.vb()
        calls = []
        vb.set_callback(lambda: calls.append(m.bound()))
        Ls, terms = [], []
        for run_ in range(2):
            vb.update(*([m.n[k] for k in p] if p != tuple(allnames) else []), repeat=1 + run_, tol=-np.inf, verbose=False)
            for i in range(1 + run_):
                for k in p:
                    g.n[k].update()
                    ctx.op()
                terms.append([float(np.sum(g.n[k].lower_bound_contribution())) for k in allnames])
                Ls.append(sum(terms[-1]))
        ctx.traces += 1
        ctx.ok(int(vb.iter) == 3, 'iterations')
        ctx.close(vb.L[:3], np.array(Ls), 'recorded bounds', 1e-12, 1e-10)
        ctx.close(np.array(calls), np.array(Ls), 'bound when the callback runs', 1e-12, 1e-10)
        for i, k in enumerate(allnames):
            ctx.close(vb.l[m.n[k]][:3], np.array(terms)[:, i], 'recorded terms', 1e-12, 1e-10, k)
            for a, b in zip(m.n[k].get_moments(), g.n[k].get_moments()):
                ctx.close(np.asarray(a), np.asarray(b), 'moments', 1e-12, 1e-12)
        T = vb.compute_lowerbound_terms()
        ctx.close(sum(np.sum(T[m.n[k]]) for k in allnames), Ls[-1], 'terms add up', 1e-11, 1e-10)
        T1 = vb.compute_lowerbound_terms(m.n[allnames[0]])
        ctx.ok(list(T1) == [m.n[allnames[0]]], 'terms of some nodes')
        ctx.close(vb.compute_lowerbound(), Ls[-1], 'bound', 1e-11, 1e-10)
        it = vb.get_iteration_by_nodes()
        ctx.close(sum(np.asarray(it[m.n[k]][:3]) for k in allnames), np.array(Ls), 'terms by nodes', 1e-11, 1e-10)
        ctx.state(name, [m.n[k].get_moments() for k in lat])
    # convergence on the real trajectory, for tolerances between the actual changes
    m = zoo.build(name, init=init)
    vb = m.vb()
    vb.update(repeat=12, tol=-np.inf, verbose=False)
    L = np.array(vb.L[:12])
    if np.all(np.isfinite(L)):
        rel = (L[1:] - L[:-1]) / (0.5 * (abs(L[1:]) + abs(L[:-1])))
        tols = sorted(set(np.round(np.log10(np.maximum(rel, 1e-9)), 1)))
        for lt in tols:
            tol = 10 ** (lt + 0.35)
            if np.min(np.abs(rel / tol - 1)) < 0.02:
                continue
            below = np.nonzero(rel < tol)[0]
            if len(below) == 0:
                continue
            stop = below[0] + 2
            m = zoo.build(name, init=init)
            vb = m.vb(tol=tol) if int(lt * 10) % 2 else m.vb()
            vb.update(repeat=None, tol=None if int(lt * 10) % 2 else tol, verbose=False)
            ctx.ok(int(vb.iter) == stop and bool(vb.has_converged()), 'stops at the first small change', '%s vs %s (tol %g)' % (vb.iter, stop, tol))
            ctx.close(vb.L[:stop], L[:stop], 'bounds until convergence', 1e-10, 1e-9)
            ctx.op(stop)


def f_arguments(ctx, case):
    log = []
    A = Fake('A', [-5., -4., -3.], log)
    for bad in (lambda: VB(A, 3), lambda: VB('A'), lambda: VB(A, None)):
        try:
            bad()
            ctx.ok(False, 'non-nodes must be refused')
        except ValueError:
            ctx.ok(True, 'refused')
    vb = VB(A, A, tol=-1)
    vb.update(repeat=1, verbose=False)
    ctx.ok(log == ['A'], 'a node listed twice is one node')
    ctx.close(vb.L[0], -5.0, 'and counts once')
    ctx.ok(vb['A'] is A and vb[A] is A, 'access by name')
    try:
        vb['zzz']
        ctx.ok(False, 'unknown name')
    except KeyError:
        ctx.ok(True, 'unknown name')
    try:
        vb.update('zzz', repeat=1, verbose=False)
        ctx.ok(False, 'unknown name in update')
    except KeyError:
        ctx.ok(True, 'unknown name')
    ctx.ok(int(vb.iter) == 1, 'a refused update is no iteration')
    bars = []

    class Bar:
        def __init__(self, total=None): bars.append([total, 0])
        def update(self, n=1): bars[-1][1] += n
    vb.update(repeat=2, verbose=False, tqdm=Bar)
    ctx.ok(bars == [[2, 2]], 'progress bar', bars)
    # callback output shapes
    for out in (1.0, [1., 2.], np.ones((2, 3))):
        B = Fake('B', [-5., -4., -3.], [])
        vb = VB(B, tol=-1)
        vb.set_callback(lambda: out)
        for k in range(1, 4):
            vb.update(repeat=1, verbose=False)
            ctx.ok(np.shape(vb.callback_output) == np.shape(out) + (k,), 'callback output', np.shape(vb.callback_output))
        ctx.state(out)
    # toggling the logging method
    vb.use_logging(True)
    vb.use_logging(False)
    ctx.ok(True, 'use_logging')
    ctx.op()
