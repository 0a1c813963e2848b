"""C16: gradient-based, collapsed, pattern-search and annealed optimisation never lowers the bound."""
import itertools
import numpy as np
from . import engine, zoo
from .c04 import NO_GRADIENT, valid

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of optimiser configurations x preceding histories x infeasible regions (fault injection into parameter setting, collapsed updates and the bound) on the real optimisers'
RULE = ('every zoo model x every preceding history (none, engine updates, manual updates behind the engine, changed data, loaded or perturbed state) x targets (every latent node, pairs, all) x collapsed sets x '
        '{gradient, Fletcher-Reeves} x {natural, Euclidean} x infeasible region {none, radius levels} x kind of failure {raising when set, raising in a collapsed update, undefined bound}: '
        'after every step the bound is not lower than before it, the books are exact, parameters are valid and consistent, the same state set directly in a fresh model gives the same bound and the same next update, and other nodes are untouched; '
        'gradient steps of every length land exactly at that fraction of the natural gradient; an update with the messages from the children scaled lands exactly between prior and posterior; pattern search likewise; every annealing schedule up to the depth: no update lowers the annealed bound, and after returning to temperature one the state is the one set directly')
BOUND = dict(quick='29 models; histories of <= 2 operations; 1 and 3 optimiser steps; 3 failure kinds x 2 radii on all models; annealing schedules of two levels',
             thorough='all pairs of targets, all failure kinds on every configuration, 6 optimiser steps')
ASSUMPTIONS = ['decreases below 1e-7 relative are rounding (the optimiser itself tolerates 1e-8)', 'generic continuous data']
CASE_TIMEOUT = 200
HIST = ('fresh', 'engine', 'behind', 'newdata', 'perturbed')
TOL = 1e-7


class NonTermination(BaseException):
    pass


def targets(name):
    lat = zoo.build(name).latent
    one = [[a] for a in lat]
    two = [list(p) for p in itertools.combinations(lat, 2)]
    out = one + two + ([list(lat)] if len(lat) > 2 else [])
    return out, lat


def cases(tier):
    for name in zoo.ZOO:
        ts, lat = targets(name)
        for ti, t in enumerate(ts):
            rest = [x for x in lat if x not in t]
            cols = [[]] + ([rest] if rest else []) + ([[x] for x in rest] if len(rest) > 1 and tier != 'quick' else [])
            for ci, c in enumerate(cols):
                for hi, h in enumerate(HIST):
                    if tier == 'quick' and len(t) == 2 and len(lat) > 2 and (ti + 2 * ci + hi) % 5 not in (0, 2):
                        continue
                    yield ['cg', name, h, t, c]
                    if tier == 'quick' and len(lat) > 3 and (ti + ci + hi) % 2:
                        continue
                    yield ['ps', name, h, t, c]
        for t in ts:
            if tier == 'quick' and len(t) == 2 and len(lat) > 2:
                continue
            rest = [x for x in lat if x not in t]
            for c in ([], rest) if rest else ([],):
                for kind in ('set', 'nan', 'collapse'):
                    if kind == 'collapse' and not c:
                        continue
                    for rad in ((0., .1) if tier == 'quick' else (0., .02, .1, .3)):
                        yield ['barrier', name, kind, rad, t, c]
            for hi, h in enumerate(HIST):
                if tier == 'quick' and len(t) == 2 and hi % 2:
                    continue
                yield ['step', name, h, t]
        for h in HIST:
            yield ['temper', name, h]
        for a, b in itertools.product((.8, .5), (1., .8, .5)):
            for h in ('fresh', 'engine'):
                yield ['anneal', name, h, a, b]


# ----------------------------------------------------------------


def phi_of(n):
    if not hasattr(n, 'get_parameters'):
        return [np.array(x) for x in n.u]
    return [np.array(np.broadcast_to(p, n.get_shape(i))) if hasattr(n, 'get_shape') and hasattr(n, 'phi') else np.array(p) for i, p in enumerate(n.get_parameters())]


def dist(p, q):
    return max([0.] + [float(np.max(np.abs(np.broadcast_to(a, np.broadcast_shapes(np.shape(a), np.shape(b))) - b))) if np.size(a) and np.size(b) else 0. for a, b in zip(p, q)])


def prepare(name, hist):
    """a model and an engine after the history"""
    m = zoo.build(name, init='params')
    Q = m.vb()
    Q.ignore_bound_checks = False
    up = [m.n[k] for k in m.latent]
    gen = lambda k: hasattr(m.n[k], 'phi')
    if hist == 'fresh':
        pass
    elif hist == 'engine':
        Q.update(*up, repeat=2, verbose=False, tol=-1)
    elif hist == 'behind':
        # the engine has recorded a worse bound than the current one
        Q.update(up[0], repeat=1, verbose=False, tol=-1)
        for _ in range(2):
            for n in up:
                n.update()
    elif hist == 'newdata':
        # the engine has recorded a better bound than is attainable now
        Q.update(*up, repeat=2, verbose=False, tol=-1)
        newdata(m)
    elif hist == 'perturbed':
        # the current state is worse than what the engine has recorded
        Q.update(*up, repeat=2, verbose=False, tol=-1)
        other = zoo.build(name, init='value')
        for k in m.latent:
            put(m.n[k], other.n[k])
    return m, Q


def put(n, src):
    if hasattr(n, 'set_parameters'):
        n.set_parameters(phi_of(src))
    else:
        n.u = [np.array(x) for x in src.u]


def newdata(m):
    for k, (data, mask) in m.obs.items():
        d = [np.flip(np.asarray(x), 0) if np.ndim(x) else x for x in data]
        f = 3 if type(m.n[k]).__name__ in ('GaussianARD', 'Gaussian') else 1
        if m.name in ('beta_binomial', 'dirichlet_multinomial'):
            continue        # the counts depend on the number of trials
        m.n[k].observe(*((f * x if f != 1 else x) for x in d), **({} if mask is None else dict(mask=mask)))


def bound(m):
    return m.bound()


def domain(ctx, m, k, label):
    n = m.n[k]
    if not hasattr(n, 'phi'):
        return
    phi = [np.broadcast_to(p, n.get_shape(i)) for i, p in enumerate(n.phi)]
    for e in np.ndindex(*n.plates):
        if not ctx.ok(bool(valid(n, phi, None, e)), 'parameters are in the domain', '%s %s %s %s' % (label, k, e, [p[e].tolist() for p in phi])):
            return


def consistent(ctx, m, k, label):
    n = m.n[k]
    if not hasattr(n, 'phi'):
        return
    u0 = [np.array(x) for x in n.u]
    u, g = n._distribution.compute_moments_and_cgf([np.copy(p) for p in n.phi])
    for i in range(len(u0)):
        ctx.close(np.broadcast_to(u0[i], n.get_shape(i)), np.broadcast_to(u[i], n.get_shape(i)), 'stored moments are those of the stored parameters', msg='%s %s' % (label, k))
    ctx.close(np.broadcast_to(n.g, n.plates), np.broadcast_to(g, n.plates), 'stored normaliser is that of the stored parameters', msg='%s %s' % (label, k))


def extreme(m):
    """parameters so large that the terms of the bound have no significant digits"""
    return any(np.max(np.abs(x)) > 1e9 for k in m.latent if hasattr(m.n[k], 'phi') for x in phi_of(m.n[k]) if np.size(x))


def direct(ctx, m, name, hist, label):
    """the same state set directly in a fresh model behaves alike"""
    if extreme(m):
        ctx.outcomes.add('extreme')
        return
    f, _ = prepare(name, 'newdata' if hist == 'newdata' else 'fresh')
    for k in m.latent:
        put(f.n[k], m.n[k])
    ctx.close(bound(m), bound(f), 'bound of the same state set directly', msg=label)
    L = bound(m)
    for k in m.latent:
        m.n[k].update()
        f.n[k].update()
        ctx.op(2)
        L2 = bound(m)
        slack = TOL if name not in ('concentration', 'gamma_shape') else 1e-5
        ctx.ok(L2 >= L - slack * (1 + abs(L)), 'later updates do not lower the bound', '%s %s: %r -> %r' % (label, k, L, L2))
        L = L2
        p, q = phi_of(m.n[k]), phi_of(f.n[k])
        for a, b in zip(p, q):
            if name in ('concentration', 'gamma_shape') and not hasattr(m.n[k], 'phi'):
                continue
            ctx.close(a, b, 'later updates as from the state set directly', msg='%s %s' % (label, k), rtol=1e-6, atol=1e-8)


def guard(ctx, Q, limit=3000):
    """bounds the number of trial steps"""
    count = [0]

    def wrap(f):
        def g(*a, **k):
            count[0] += 1
            if count[0] > limit:
                raise NonTermination()
            return f(*a, **k)
        return g
    for f in ('add', 'compute_lowerbound'):
        setattr(Q, f, wrap(getattr(Q, f)))
    return count


def snapshot(m, names):
    return {k: phi_of(m.n[k]) for k in names}


def books(ctx, Q, m, it0, Ls, label):
    ctx.ok(Q.iter == it0 + len(Ls), 'iterations are counted', '%s: %s from %s, %s steps' % (label, Q.iter, it0, len(Ls)))
    for j, L in enumerate(Ls):
        ctx.close(float(Q.L[it0 + j]), L, 'the recorded bound is the one reached', msg=label)
    if Ls:
        tot = sum(float(np.sum(Q.l[n][Q.iter - 1])) for n in Q.l)
        ctx.close(tot, Ls[-1], 'the recorded terms are those of the bound', msg=label)
        ctx.ok(np.all(np.isfinite(Q.cputime[it0:Q.iter])), 'times are recorded', label)


def run_opt(ctx, m, Q, f, name, hist, t, col, label):
    """runs f under the monitor; returns the bounds after the steps"""
    Ls = []
    Q.set_callback(lambda: Ls.append(bound(m)))
    rest = [k for k in m.n if k not in t and k not in col and hasattr(m.n[k], 'get_parameters') and k in m.latent]
    before = snapshot(m, rest)
    it0, L0 = Q.iter, bound(m)
    guard(ctx, Q)
    try:
        f()
    except NonTermination:
        ctx.fail('optimiser does not terminate', label)
        return None
    except Exception as e:
        ctx.fail('optimiser raised %s' % type(e).__name__, '%s: %s' % (label, e))
        return None
    ctx.op(max(1, len(Ls)))
    L = L0
    for j, x in enumerate(Ls):
        ctx.ok(x >= L - TOL * (1 + abs(L)), 'a step does not lower the bound', '%s step %d: %r -> %r' % (label, j, L, x))
        L = x
    ctx.ok(bound(m) == (Ls[-1] if Ls else L0), 'the state is the one of the last step', label)
    books(ctx, Q, m, it0, Ls, label)
    for k in rest:
        for a, b in zip(before[k], phi_of(m.n[k])):
            ctx.ok(np.array_equal(a, b), 'other nodes are untouched', '%s %s' % (label, k))
    for k in t + col:
        domain(ctx, m, k, label)
        consistent(ctx, m, k, label)
    ctx.state(name, hist, [phi_of(m.n[k]) for k in m.latent])
    return Ls


def supported(m, t, riem, method):
    if not all(hasattr(m.n[k], 'get_parameters') for k in t):
        return False
    t = [k for k in t]
    if any(not hasattr(m.n[k], 'get_riemannian_gradient') for k in t):
        return False
    if riem and method == 'gradient':
        return True
    if any(type(m.n[k]).__name__ == 'GaussianARD' and len(m.n[k].dims[0]) > 1 for k in t):
        return False        # documented: not implemented
    return not any(type(m.n[k]).__name__ in NO_GRADIENT or m.n[k].__class__.__name__ in NO_GRADIENT for k in t)


def f_cg(ctx, case):
    _, name, hist, t, col = case
    ctx.traces = 0
    for method, riem in (('gradient', True), ('fletcher-reeves', True), ('fletcher-reeves', False), ('gradient', False)):
        for steps in ((1, 3) if ctx.tier == 'quick' else (0, 1, 3, 6)):
            if ctx.tier == 'quick' and steps == 1 and (method, riem) != ('gradient', True):
                continue
            m, Q = prepare(name, hist)
            if not supported(m, t, riem, method) or not all(hasattr(m.n[k], 'get_parameters') for k in col):
                continue
            ctx.traces += 1
            label = '%s %s %s %s targets %s collapsed %s steps %d' % (name, hist, method, 'natural' if riem else 'euclidean', t, col, steps)
            Ls = run_opt(ctx, m, Q, lambda: Q.optimize(*t, maxiter=steps, method=method, riemannian=riem, collapsed=col or None, tol=-np.inf, verbose=False), name, hist, t, col, label)
            if Ls is None:
                continue
            ctx.ok(len(Ls) == steps, 'makes the requested number of steps', '%s: %d' % (label, len(Ls)))
            if col and Ls:
                # collapsed variables are at their optimum given the others
                k = col[-1]
                p = phi_of(m.n[k])
                m.n[k].update()
                for a, b in zip(p, phi_of(m.n[k])):
                    ctx.close(a, b, 'collapsed variables are up to date', msg=label, rtol=1e-6, atol=1e-7)
            direct(ctx, m, name, hist, label)


def f_step(ctx, case):
    """two gradient steps of any two lengths"""
    _, name, hist, t = case
    m, Q = prepare(name, hist)
    if not supported(m, t, True, 'gradient'):
        return
    start = snapshot(m, m.latent)
    ctx.traces = 0
    for s1, s2 in itertools.product((1., .5, .1), repeat=2):
        label = '%s %s %s steps %g, %g' % (name, hist, t, s1, s2)
        m, Q = prepare(name, hist)
        it = int(Q.iter)
        for s in (s1, s2):
            p = snapshot(m, m.latent)
            g = {k: m.n[k].get_riemannian_gradient() for k in t}
            Q.gradient_step(*[m.n[k] if i else k for i, k in enumerate(t)], scale=s)
            ctx.op()
            q = snapshot(m, m.latent)
            for k in m.latent:
                for i in range(len(p[k])):
                    want = p[k][i] + (s * g[k][i] if k in t else 0)
                    ctx.close(q[k][i], want, 'a gradient step goes that fraction of the natural gradient', 1e-9, 1e-10 * (1 + np.max(np.abs(p[k][i]))), '%s: %s' % (label, k))
            for k in t:
                domain(ctx, m, k, label)
                consistent(ctx, m, k, label)
        ctx.ok(int(Q.iter) == it, 'a gradient step is no iteration', label)
        ctx.traces += 1
        ctx.state(name, hist, [q[k] for k in t])


def f_temper(ctx, case):
    """one update with the messages from the children scaled: every node x every pair of scales x engine temperature"""
    _, name, hist = case
    ctx.traces = 0
    for k in zoo.build(name).latent:
        if not hasattr(zoo.build(name).n[k], 'phi'):
            continue
        for T in (1., .5):
            if T != 1 and type(zoo.build(name).n[k]).__name__ == 'Wishart':
                continue        # the heated prior is improper
            def one(*scales):
                m, Q = prepare(name, hist)
                if T != 1:
                    Q.set_annealing(T)
                before = snapshot(m, m.latent)
                for a in scales:
                    m.n[k].update(**({} if a is None else dict(annealing=a)))
                    ctx.op()
                after = snapshot(m, m.latent)
                for o in m.latent:
                    if o != k:
                        ctx.ok(dist(before[o], after[o]) == 0, 'a tempered update touches no other node', '%s: %s' % (label, o))
                return m, after[k]
            label = '%s %s %s at temperature %g' % (name, hist, k, T)
            full = one(None)[1]
            m, none = one(0.)
            prior = m.n[k]._distribution.compute_phi_from_parents(*m.n[k]._message_from_parents())
            for i, p in enumerate(prior):
                ctx.close(none[i], T * np.broadcast_to(p, np.shape(none[i])), 'without the messages an update gives the prior', 1e-9, 1e-11, label)
            for a in (1., .5, .125):
                m, got = one(a)
                for i in range(len(got)):
                    ctx.close(got[i], (1 - a) * none[i] + a * full[i], 'an update with scaled messages interpolates between prior and posterior', 1e-9, 1e-10 * (1 + np.max(np.abs(full[i]))), '%s scale %g' % (label, a))
                domain(ctx, m, k, label)
                consistent(ctx, m, k, label)
                ctx.traces += 1
            for pair in ((.5, 1.), (.125, .5)):
                # the scale is that of the one update only
                m, got = one(*pair)
                want = one(pair[1])[1]
                for i in range(len(got)):
                    ctx.close(got[i], want[i], 'the scale is that of one update only', 1e-9, 1e-10 * (1 + np.max(np.abs(full[i]))), '%s scales %s' % (label, pair))
                ctx.traces += 1
            ctx.state(name, hist, k, T, full)


def f_ps(ctx, case):
    _, name, hist, t, col = case
    if not all(hasattr(zoo.build(name).n[k], 'get_parameters') for k in t):
        return
    for mi in (3,) if ctx.tier == 'quick' else (1, 3, 10):
        m, Q = prepare(name, hist)
        label = '%s %s pattern search %s collapsed %s maxiter %d' % (name, hist, t, col, mi)
        Ls = run_opt(ctx, m, Q, lambda: Q.pattern_search(*t, collapsed=col or None, maxiter=mi), name, hist, t, col, label)
        if Ls is None:
            continue
        ctx.ok(len(Ls) == 1, 'counts as one step', label)
        direct(ctx, m, name, hist, label)


def f_barrier(ctx, case):
    """the region around the start is the only feasible one"""
    _, name, kind, rad, t, col = case
    ctx.traces = 0
    for opt in ('gradient', 'fletcher-reeves', 'pattern'):
        m, Q = prepare(name, 'engine')
        if opt == 'pattern' and not all(hasattr(m.n[k], 'get_parameters') for k in t) or opt != 'pattern' and not supported(m, t + col, True, opt):
            continue
        if opt == 'pattern' and rad == 0:
            continue
        ctx.traces += 1
        # move the targets off their optimum so that there is a direction to go
        f = zoo.build(name, init='value')
        for k in t:
            if hasattr(m.n[k], 'phi'):
                m.n[k].set_parameters([.9 * a + .1 * b for a, b in zip(phi_of(m.n[k]), phi_of(f.n[k]))])
        if opt == 'pattern':
            # the search starts from two updates
            f2, _ = prepare(name, 'engine')
            for k in m.latent:
                put(f2.n[k], m.n[k])
            centres = []
            for k in t + col + t:
                f2.n[k].update()
                centres.append(snapshot(f2, t))
            centre = centres.pop()
        else:
            centre = snapshot(m, t)
            centres = []
        trips = [0]

        def far(k, p):
            # the states passed by the updates that precede a pattern search are feasible too
            if any(dist(p, c[k]) < 1e-12 for c in centres):
                return False
            return dist(p, centre[k]) > rad * (1 + max(float(np.max(np.abs(x))) for x in centre[k] if np.size(x)))
        if kind == 'set':
            def wrap(k, n, g):
                def s(x):
                    if far(k, x):
                        trips[0] += 1
                        raise ValueError('infeasible')
                    return g(x)
                return s
            for k in t:
                m.n[k].set_parameters = wrap(k, m.n[k], m.n[k].set_parameters)
        elif kind == 'nan':
            def wrapb(g):
                def s(*a, **kw):
                    L = g(*a, **kw)
                    if any(far(k, phi_of(m.n[k])) for k in t):
                        trips[0] += 1
                        return np.nan
                    return L
                return s
            Q.compute_lowerbound = wrapb(Q.compute_lowerbound)
        else:
            def wrapu(n, g):
                def s(*a, **kw):
                    if any(far(k, phi_of(m.n[k])) for k in t):
                        trips[0] += 1
                        raise np.linalg.LinAlgError('infeasible')
                    return g(*a, **kw)
                return s
            m.n[col[-1]].update = wrapu(m.n[col[-1]], m.n[col[-1]].update)
        label = '%s %s targets %s collapsed %s infeasible beyond %g (%s)' % (name, opt, t, col, rad, kind)
        if opt == 'pattern':
            run = lambda: Q.pattern_search(*t, collapsed=col or None)
        else:
            run = lambda: Q.optimize(*t, maxiter=2, method=opt, collapsed=col or None, tol=-np.inf, verbose=False)
        if opt == 'pattern' and kind == 'collapse':
            # the initial updates of the search pass through other states
            pass
        Ls = run_opt(ctx, m, Q, run, name, 'barrier', t, col, label)
        ctx.outcomes.add('tripped' if trips[0] else 'not reached')
        if Ls is None:
            continue
        for k in t:
            ctx.ok(not far(k, phi_of(m.n[k])), 'the final state is feasible', label)
        for k in m.latent:
            for a in ('set_parameters', 'update'):
                m.n[k].__dict__.pop(a, None)
        direct(ctx, m, name, 'engine', label)


def annealed_bound(m):
    """bound in which the entropy of the latent nodes has weight 1/annealing"""
    return bound(m)


def f_anneal(ctx, case):
    _, name, hist, a, b = case
    m, Q = prepare(name, hist)
    label = '%s %s annealing %g, %g, 1' % (name, hist, a, b)
    slack = TOL if name not in ('concentration', 'gamma_shape') else 1e-5
    for lev in (a, b, 1.0):
        it0 = Q.iter
        Q.set_annealing(lev)
        ctx.ok(not Q.converged, 'changing the temperature resets convergence', label)
        L = bound(m)
        for k in m.latent:
            m.n[k].update()
            ctx.op()
            L2 = bound(m)
            ctx.ok(L2 >= L - slack * (1 + abs(L)), 'updates do not lower the bound at a fixed temperature', '%s at %g %s: %r -> %r' % (label, lev, k, L, L2))
            L = L2
        Q.update(*[m.n[k] for k in m.latent], repeat=1, verbose=False, tol=1e-3)
        ctx.op()
        ctx.ok(Q.iter == it0 + 1, 'iterations are counted', label)
        L2 = bound(m)
        ctx.close(float(Q.L[Q.iter - 1]), L2, 'the recorded bound is the one reached', msg=label)
        ctx.ok(not Q.converged, 'bounds at different temperatures are not compared', '%s at %g' % (label, lev))
        ctx.ok(L2 >= L - slack * (1 + abs(L)), 'updates do not lower the bound at a fixed temperature', '%s at %g engine: %r -> %r' % (label, lev, L, L2))
        ctx.state(name, hist, a, b, lev, [phi_of(m.n[k]) for k in m.latent])
    for k in m.latent:
        domain(ctx, m, k, label)
        consistent(ctx, m, k, label)
    direct(ctx, m, name, 'engine', label)


def run(ctx, case):
    dict(cg=f_cg, ps=f_ps, barrier=f_barrier, anneal=f_anneal, step=f_step, temper=f_temper)[case[0]](ctx, case)
