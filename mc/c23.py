"""C23: point-estimated parameters are optimised on the true bound."""
import itertools
import numpy as np
from scipy.special import gammaln
from bayespy import nodes as bn
from bayespy.inference import VB
from . import engine

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of priors x plates x consumers x masks x update schedules on the real point-estimate nodes, against the same model with constants and against the reported bound as a function of the value'
RULE = ('(a) for every model with a gamma shape, a concentration or a maximum likelihood parameter, every mask, every schedule over the other nodes and every value of a grid: trajectory and bound equal those of '
        'the model with that constant, plus exactly the declared log prior; (b) in every state reached by every schedule, an update of the parameter lowers nothing, is a stationary point and at least as good as every '
        'value of a grid around it, leaves other nodes alone, ignores masked data and keeps parameters without data; (c) for every composition of functions, the gradient of a maximum likelihood parameter equals the numerical '
        'derivative of the reported bound, and optimisation neither lowers the bound nor stops at a non-stationary point')
BOUND = dict(quick='schedules of depth 3 (all masks of 3 data plates), grids of 9 factors per component', thorough='schedules of depth 4, all masks, more data grids')
ASSUMPTIONS = ['an optimum exists (at least two different observations or a proper prior) where optimality is compared']
CASE_TIMEOUT = 300
GRID = (.5, .9, .99, .998, 1.002, 1.01, 1.1, 2.)


class M:
    def __init__(self, param, nodes, data, prior):
        self.param, self.nodes, self.data, self.prior = param, nodes, data, prior

    def bound(self):
        return sum(float(np.sum(n.lower_bound_contribution())) for n in [self.param] * (self.param is not None) + list(self.nodes.values()))


def shape_models(r):
    """name -> function(value or None, mask) -> M.  value None: a point-estimated node."""
    out = {}

    def shape_node(value, P, m0=0, m1=0):
        if value is None:
            return bn.GammaShape(m0=m0, m1=m1, plates=P) if P else bn.GammaShape(m0=m0, m1=m1)
        return value

    def mk(name, P, build, m0=0, m1=0, observed=False, dP=(3,)):
        prior = lambda a: np.sum(m0 * np.ones(P) * a + m1 * np.ones(P) * gammaln(a))

        def f(value, mask):
            a = shape_node(value, P, m0, m1)
            nodes = build(a, mask)
            return M(a if value is None else None, nodes, dP, prior)
        out[name] = (P, f, dP, lambda r: r.rand(*P) * 2 + .3)
    y3 = r.gamma(2., 1., size=3)
    y32 = r.gamma(2., 1., size=(3, 2))
    g3 = r.randn(3)
    c3 = r.poisson(3., size=3)

    def obs(**kw):
        def b(a, mask):
            x = bn.Gamma(a, 1.3, plates=(3,))
            x.observe(y3, mask=mask)
            return dict(x=x)
        return b
    mk('observed', (), obs())
    mk('observed, prior', (), obs(), m0=-.7, m1=-1.)
    mk('observed, strong prior', (), obs(), m0=20., m1=-30.)

    def lat(a, mask):
        x = bn.Gamma(a, 1.3, plates=(3,))
        y = bn.GaussianARD(.2, x)
        y.observe(g3, mask=mask)
        n = bn.Poisson(x)
        n.observe(c3, mask=mask)
        return dict(x=x, y=y, n=n)
    mk('latent', (), lat, m0=-.2, m1=-1.)

    def rate(a, mask):
        b = bn.Gamma(1.5, .8)
        x = bn.Gamma(a, b, plates=(3,))
        x.observe(y3, mask=mask)
        return dict(b=b, x=x)
    mk('unknown rate', (), rate, m0=-.2, m1=-1.)

    def rate2(a, mask):
        b = bn.Gamma(1.5, .8, plates=(2,))
        x = bn.Gamma(a, b, plates=(3, 2))
        x.observe(y32, mask=mask[:, None])
        return dict(b=b, x=x)
    mk('plates', (2,), rate2, m0=-.2, m1=-1.)
    mk('plates, array prior', (2,), rate2, m0=np.array([-.2, -.9]), m1=np.array([-1., -2.]))
    mk('shared by plates', (), rate2, m0=-.2, m1=-1.)
    mk('plates, no prior', (2,), rate2)

    def plate3(a, mask):
        x = bn.Gamma(a, 1.3, plates=(3, 2))
        x.observe(y32, mask=mask[:, None])
        return dict(x=x)
    mk('plate per row', (3, 1), plate3)

    def two(a, mask):
        x = bn.Gamma(a, 1.3, plates=(3,))
        x.observe(y3, mask=mask)
        z = bn.Gamma(a, .4, plates=(2,))
        w = bn.GaussianARD(0, z)
        w.observe([.3, -.9])
        return dict(x=x, z=z, w=w)
    mk('two kinds of children', (), two)

    def mix(a, mask):
        z = bn.Categorical([.4, .6], plates=(3,))
        x = bn.Mixture(z, bn.Gamma, a, [1., 3.])
        x.observe(y3, mask=mask)
        return dict(z=z, x=x)
    mk('mixture', (2,), mix, m0=-.2, m1=-1.)
    mk('mixture, shared', (1,), mix, m0=-.2, m1=-1.)

    gx = r.randn(3, 2)

    def gg(a, mask):
        x = bn.GaussianGamma(np.array([.3, -.2]), np.array([[1.2, .3], [.3, .8]]), a, 1.4, plates=(3,))
        y = bn.Gaussian(x, np.array([[1., .2], [.2, 1.5]]))
        y.observe(gx, mask=mask)
        return dict(x=x, y=y)
    mk('gaussian-gamma', (), gg, m0=-.2, m1=-1.)
    mk('gaussian-gamma plates', (3,), gg, m0=-.3, m1=-1.5)

    # concentrations
    def mkc(name, D, P, build, reg=True, dP=(3,)):
        if reg is True:
            r0, r1 = np.log(1 / D), 1.
        elif reg is False or reg is None:
            r0, r1 = 0., 0.
        else:
            r0, r1 = reg

        def prior(a):
            z = gammaln(np.sum(a, -1)) - np.sum(gammaln(a), -1)
            return np.sum(np.sum(np.asarray(r0) * a, -1) * np.ones(P) + np.asarray(r1) * z * np.ones(P))

        def f(value, mask):
            a = bn.DirichletConcentration(D, regularization=reg, **(dict(plates=P) if P else {})) if value is None else value
            return M(a if value is None else None, build(a, mask), dP, prior)
        out['concentration ' + name] = (P + (D,), f, dP, lambda r: r.rand(*P, D) * 2 + .3)
    p3 = r.dirichlet(np.ones(3) * 2, size=3)
    p32 = r.dirichlet(np.ones(2) * 2, size=(3, 2))
    pbig = r.dirichlet(np.array([900., 500.]), size=3)

    def dobs(p):
        def b(a, mask):
            x = bn.Dirichlet(a, plates=p.shape[:-1])
            x.observe(p, mask=mask if p.ndim == 2 else mask[:, None])
            return dict(x=x)
        return b
    mkc('observed', 3, (), dobs(p3))
    mkc('observed, no prior', 3, (), dobs(p3), reg=False)
    mkc('observed, none', 3, (), dobs(p3), reg=None)
    mkc('observed, prior', 3, (), dobs(p3), reg=(np.log([.2, .3, .5]) * 2, 2.))
    mkc('concentrated', 2, (), dobs(pbig), reg=False)
    mkc('concentrated, prior', 2, (), dobs(pbig))
    mkc('plates', 2, (2,), dobs(p32), reg=True)
    mkc('plates, no prior', 2, (2,), dobs(p32), reg=False)
    mkc('plates, array prior', 2, (2,), dobs(p32), reg=(np.log([[.2, .8], [.4, .3]]) * 2, np.array([2., 3.])))
    mkc('plate per row', 2, (3, 1), dobs(p32), reg=False)
    mkc('shared by plates', 2, (), dobs(p32))
    c3 = np.array([0, 2, 1])

    def cat(a, mask):
        p = bn.Dirichlet(a, plates=(3,))
        y = bn.Categorical(p)
        y.observe(c3, mask=mask)
        n = bn.Multinomial(5, p)
        n.observe([[1, 2, 2], [0, 0, 5], [3, 1, 1]], mask=mask)
        return dict(p=p, y=y, n=n)
    mkc('latent', 3, (), cat)

    def hmm(a, mask):
        A = bn.Dirichlet(a, plates=(2,))
        z = bn.CategoricalMarkovChain([.3, .7], A, states=3, plates=(3,))
        y = bn.Categorical(np.array([[.8, .2], [.3, .7]])[[0, 1]], plates=(3,)) if False else bn.Mixture(z, bn.GaussianARD, [-1., 1.], 2.)
        y.observe(r0y, mask=np.broadcast_to(mask[:, None], (3, 3)))
        return dict(A=A, z=z, y=y)
    r0y = r.randn(3, 3)
    mkc('transitions', 2, (), hmm)
    mkc('transition rows', 2, (2,), hmm)

    def beta(a, mask):
        p = bn.Beta(a, plates=(3,))
        y = bn.Binomial(4, p)
        y.observe([1, 4, 2], mask=mask)
        return dict(p=p, y=y)
    mkc('of beta', 2, (), beta)
    return out


def ml_models(r):
    """name -> (shape of the parameter, function(value or None, mask) -> M, data plates, sampler of values)"""
    out = {}

    def mkm(name, shape, build, dP=(3,)):
        def f(value, mask):
            if value is None:
                x = bn.MaximumLikelihood(np.zeros(shape) + .1)
                return M(x, build(x, mask, True), dP, lambda a: 0.)
            return M(None, build(value, mask, False), dP, lambda a: 0.)
        out['ml ' + name] = (shape, f, dP, lambda r: r.randn(*shape) * .6)
    D = 2
    y = r.randn(3, D)
    y2 = r.randn(3, 2, D)
    B = r.randn(D, D)

    def fn(node, f, *args, **kw):
        """apply a function in a node or directly"""
        if node:
            return bn_Function(f, *[(a, g) for a, g in args], **kw)
        return f(*[a for a, _ in args])
    from bayespy.inference.vmp.nodes.ml import Function as bn_Function
    S0 = np.array([[1., .3], [.3, .8]])
    S1 = np.array([[.5, -.2], [-.2, .9]])
    scale = lambda x: np.exp(x) * S0
    d_scale = lambda g, x: np.sum(g * np.exp(x) * S0)
    two = lambda x: np.exp(x[0]) * S0 + np.exp(x[1]) * S1
    d_two = lambda g, x: np.array([np.sum(g * np.exp(x[0]) * S0), np.sum(g * np.exp(x[1]) * S1)])
    inv = np.linalg.inv

    def d_inv(g, K):
        K = inv(K)
        return -K @ g @ K
    chol = lambda X: X @ X.T + .2 * np.eye(D)
    d_chol = lambda g, X: (g + g.T) @ X
    add = lambda a, b: a + b
    d_add = lambda g, a, b: g
    rows = lambda x: np.exp(x)[:, None, None] * S0
    d_rows = lambda g, x: np.sum(g * S0, axis=(-1, -2)) * np.exp(x)

    def obs(L, mask, **kw):
        Y = bn.Gaussian(np.array([.2, -.1]), L, plates=(3,))
        Y.observe(y, mask=mask)
        return dict(Y=Y)
    mkm('scalar', (), lambda x, mask, n: obs(fn(n, scale, (x, d_scale)), mask))
    mkm('vector', (2,), lambda x, mask, n: obs(fn(n, two, (x, d_two)), mask))
    mkm('matrix', (2, 2), lambda x, mask, n: obs(fn(n, chol, (x, d_chol)), mask))
    mkm('chain', (2,), lambda x, mask, n: obs(fn(n, inv, (fn(n, two, (x, d_two)), d_inv)), mask))

    def diamond(x, mask, n):
        a = fn(n, two, (x, d_two))
        b = fn(n, chol, (fn(n, lambda x: np.outer([1., 2.], x) + B, (x, lambda g, x: np.array([1., 2.]) @ g)), d_chol))
        return obs(fn(n, add, (a, lambda g, a, b: g), (b, lambda g, a, b: g)), mask)
    mkm('diamond', (2,), diamond)

    # functions of two arguments whose gradients differ, in both orders
    mix2 = lambda a, b: a @ S1 @ a + 2 * b
    d_mix = lambda g, a, b: g @ a @ S1.T + g.T @ a @ S1

    def unequal(order):
        def f(x, mask, n):
            a = fn(n, two, (x, d_two))
            b = fn(n, chol, (fn(n, lambda x: np.outer([1., 2.], x) + B, (x, lambda g, x: np.array([1., 2.]) @ g)), d_chol))
            ga, gb = lambda g, a, b: d_mix(g, a, b), lambda g, a, b: 2 * g
            if order:
                return obs(fn(n, lambda b, a: mix2(a, b), (b, lambda g, b, a: gb(g, a, b)), (a, lambda g, b, a: ga(g, a, b))), mask)
            return obs(fn(n, mix2, (a, ga), (b, gb)), mask)
        return f
    mkm('unequal', (2,), unequal(0))
    mkm('unequal reversed', (2,), unequal(1))

    def lat(x, mask, n):
        L = fn(n, inv, (fn(n, two, (x, d_two)), d_inv))
        mu = bn.GaussianARD(0, .3, shape=(2,))
        X = bn.Gaussian(mu, L, plates=(3,))
        tau = bn.Gamma(2., 1.)
        Y = bn.GaussianARD(X, tau, ndim=1)
        Y.observe(y, mask=mask)
        return dict(mu=mu, X=X, tau=tau, Y=Y)
    mkm('latent', (2,), lat)

    def two_children(x, mask, n):
        L = fn(n, two, (x, d_two))
        Y = obs(L, mask)
        Z = bn.Gaussian(np.zeros(2), L, plates=(3, 2))
        Z.observe(y2, mask=mask[:, None])
        return dict(Z=Z, **Y)
    mkm('two children', (2,), two_children)

    def plates(x, mask, n):
        L = fn(n, rows, (x, d_rows))
        Z = bn.Gaussian(np.zeros(2), L, plates=(3, 2))
        Z.observe(y2, mask=mask[:, None])
        return dict(Z=Z)
    mkm('plates', (2,), plates)

    def rowplates(x, mask, n):
        L = fn(n, rows, (x, d_rows))
        Z = bn.Gaussian(np.zeros(2), L, plates=(3,))
        Z.observe(y, mask=mask)
        return dict(Z=Z)
    mkm('masked plates', (3,), rowplates)

    def wishart(x, mask, n):
        V = fn(n, two, (x, d_two))
        L = bn.Wishart(3., V)
        Y = bn.Gaussian(np.zeros(2), L, plates=(3,))
        Y.observe(y, mask=mask)
        return dict(L=L, Y=Y)
    mkm('scale of Wishart', (2,), wishart)

    def mixture(x, mask, n):
        L = fn(n, rows, (x, d_rows))
        z = bn.Categorical([.4, .6], plates=(3,))
        Y = bn.Mixture(z, bn.Gaussian, np.array([[-.5, .2], [.4, .9]]), L)
        Y.observe(y, mask=mask)
        return dict(z=z, Y=Y)
    mkm('mixture', (2,), mixture)

    def chainm(x, mask, n):
        L = fn(n, two, (x, d_two))
        X = bn.GaussianMarkovChain(np.array([.3, -.2]), L, .6 * np.eye(2), np.ones(2), n=3)
        Y = bn.GaussianARD(X, 1.4, ndim=1, plates=(3,))
        Y.observe(y, mask=mask)
        return dict(X=X, Y=Y)
    mkm('initial state precision', (2,), chainm)

    def freg(value, mask):
        x = bn.MaximumLikelihood(np.zeros(2) + .1, regularization=lambda v: 3 * np.sum((v - .3) ** 2)) if value is None else value
        return M(x if value is None else None, obs(fn(value is None, two, (x, d_two)), mask), (3,), lambda a: -3 * np.sum((a - .3) ** 2))
    out['ml regularised'] = ((2,), freg, (3,), lambda r: r.randn(2) * .6)

    def direct(x, mask, n):
        Y = bn.Gaussian(np.zeros(2), x, plates=(3,))
        Y.observe(y, mask=mask)
        return dict(Y=Y)

    def f(value, mask):
        v = bn.MaximumLikelihood(S0) if value is None else value
        return M(v if value is None else None, direct(v, mask, value is None), (3,), lambda a: 0.)

    def val(r):
        X = r.randn(2, 3)
        return X @ X.T + .3 * np.eye(2)
    out['ml direct'] = ((2, 2), f, (3,), val)
    return out


def models():
    r = engine.rng('c23m')
    d = shape_models(r)
    d.update(ml_models(r))
    return d


def set_value(node, x, ml):
    if ml:
        node.set_parameters([np.array(x)])
    else:
        node.initialize_from_value(np.array(x))


def cases(tier):
    for name in models():
        for mask in itertools.product((True, False), repeat=3):
            yield ['value', name, list(mask)]
            yield ['update' if not name.startswith('ml ') else 'gradient', name, list(mask)]
    for name in models():
        yield ['params', name, [True] * 3]


def snapshot(m):
    return {k: [np.copy(u) for u in n.get_moments()] for k, n in m.nodes.items()}


def latent(m):
    return [k for k, n in m.nodes.items() if not np.all(n.observed)]


def start(m, r):
    """Initial state as if the parameter had its value from the beginning"""
    for k, n in m.nodes.items():
        if not np.any(n.observed):
            n.initialize_from_prior()
    for k, n in m.nodes.items():
        if np.any(n.observed) and not np.all(n.observed):
            n.update()
    if 'mu' in m.nodes:
        m.nodes['mu'].initialize_from_value(np.array([.3, -.4]))


def f_value(ctx, case, ms):
    _, name, mask = case
    mask = np.array(mask)
    shape, f, dP, sample = ms[name]
    ml = name.startswith('ml ')
    r = engine.rng('c23v', name)
    lat = latent(f(None, mask))
    depth = 3 if ctx.tier == 'quick' else 5
    ctx.traces = 0
    for sched in itertools.product(lat, repeat=depth) if lat else [()]:
        for k in range(3):
            x = sample(r)
            a, b = f(None, mask), f(x, mask)
            set_value(a.param, x, ml)
            for m in (a, b):
                start(m, r)
            ctx.traces += 1
            for s in ('',) + sched:
                if s:
                    a.nodes[s].update()
                    b.nodes[s].update()
                ctx.op()
                for n in a.nodes:
                    ctx.close(a.nodes[n].lower_bound_contribution(), b.nodes[n].lower_bound_contribution(), 'bound of a node given the value', rtol=1e-8, atol=1e-9,
                              msg='%s mask %s value %s schedule %s at %s: %s' % (name, mask.tolist(), x, sched, s, n))
            w = '%s mask %s value %s schedule %s' % (name, mask.tolist(), np.round(x, 4).tolist(), sched)
            ctx.close(float(np.sum(a.param.lower_bound_contribution())), a.prior(x), 'prior of the parameter in the bound', msg=w)
            for n in lat:
                for j, (u, v) in enumerate(zip(a.nodes[n].get_moments(), b.nodes[n].get_moments())):
                    ctx.close(np.asarray(u) + 0 * v, np.asarray(v) + 0 * u, 'moments given the value', rtol=1e-8, atol=1e-9, msg='%s: %s %d' % (w, n, j))
            ctx.state(name, mask.tolist(), k, sched)


def f_update(ctx, case, ms):
    _, name, mask = case
    mask = np.array(mask)
    shape, f, dP, sample = ms[name]
    r = engine.rng('c23u', name)
    lat = latent(f(None, mask))
    depth = 3 if ctx.tier == 'quick' else 4
    vec = name.startswith('concentration')
    ctx.traces = 0
    for sched in itertools.product(lat + ['@'], repeat=depth if lat else 2):
        if sched[-1] != '@':
            continue
        for k in range(2):
            m = f(None, mask)
            x0 = sample(r)
            if k:
                set_value(m.param, x0 * (1 if ctx.tier == 'quick' else r.choice([.1, 1, 10])), False)
            ctx.traces += 1
            for i, s in enumerate(sched):
                w = '%s mask %s start %s schedule %s step %d' % (name, mask.tolist(), np.round(x0, 3).tolist() if k else 'default', sched, i)
                ctx.op()
                if s != '@':
                    m.nodes[s].update()
                    continue
                before = m.bound()
                old = snapshot(m)
                prev = np.broadcast_to(m.param.get_moments()[0], shape).copy()
                c0 = np.broadcast_to(counts(m, name, mask, shape, vec), shape[:-1] if vec else shape)
                try:
                    m.param.update()
                except Exception as e:
                    ctx.fail('update of the parameter raises', '%s: %s %s' % (w, type(e).__name__, str(e)[:150]))
                    break
                x = np.broadcast_to(m.param.get_moments()[0], shape).copy()
                if not ctx.ok(np.all(np.isfinite(x)) and np.all(x > 0), 'value of the parameter', '%s: %s (was %s)' % (w, x.tolist(), prev.tolist())):
                    break
                proper = has_optimum(m, vec)
                nodata = (c0 == 0) & ~np.broadcast_to(has_prior(m, name), c0.shape)
                # parameters which nothing depends on are kept
                for i_ in np.argwhere(nodata):
                    i_ = tuple(i_)
                    ctx.close(x[i_], prev[i_], 'a parameter without data changes', msg=w)
                now = snapshot(m)
                for n in old:
                    for u, v in zip(old[n], now[n]):
                        ctx.ok(np.array_equal(u, v, equal_nan=True), 'another node changes', '%s: %s' % (w, n))
                after = m.bound()
                if not ctx.ok(np.isfinite(after), 'bound after the update', w):
                    break
                ctx.ok(after >= before - 1e-9 * max(1, abs(before)) or not np.isfinite(before), 'the update lowers the bound', '%s: %.12g -> %.12g' % (w, before, after))
                if proper:
                    # stationary and best on a grid
                    cells = list(np.ndindex(*shape))
                    best = after
                    for c in cells + [None]:
                        for g in GRID:
                            z = x.copy()
                            if c is None:
                                z = z * g
                            else:
                                z[c] = z[c] * g
                            set_value(m.param, z, False)
                            v = m.bound()
                            ctx.evals += 1
                            if v > after + 1e-8 * max(1., abs(after)):
                                ctx.fail('the update is not the optimum', '%s: %s gives %.12g, %s gives %.12g' % (w, x.tolist(), after, z.tolist(), v))
                                break
                    for c in cells:
                        h = 1e-4
                        vs = []
                        for s_ in (-1, 1):
                            z = x.copy()
                            z[c] *= np.exp(s_ * h)
                            set_value(m.param, z, False)
                            vs.append(m.bound())
                        # scale by the curvature: the error of the value
                        curv = abs(vs[0] + vs[1] - 2 * after) / h ** 2
                        slope = (vs[1] - vs[0]) / (2 * h)
                        ctx.ok(abs(slope) <= 1e-4 * max(curv, abs(after) * 1e-4, 1e-3), 'the update is not stationary', '%s: %s at %s: slope %g curvature %g' % (w, x.tolist(), c, slope, curv))
                    set_value(m.param, x, False)
                ctx.state(name, mask.tolist(), sched[:i], k)


def has_optimum(m, vec):
    """whether the bound has a maximum at a finite value: the mean log-probability is that of no single vector"""
    msg = m.param._message_from_children()
    if vec:
        n = np.asarray(msg[1] + m.param.regularization[1])[..., None]
        ml = (msg[0] + m.param.regularization[0]) / np.where(n != 0, n, 1)
        return bool(np.all(n != 0) and np.all(np.sum(np.exp(ml), axis=-1) < 1 - 1e-4))
    m1 = np.asarray(msg[1] + m.param._m1)
    return bool(np.all(m1 != 0))


def has_prior(m, name):
    if name.startswith('concentration'):
        return np.asarray(m.param.regularization[1]) != 0
    return np.asarray(m.param._m1) != 0 if hasattr(m.param, '_m1') else 'prior' in name


def counts(m, name, mask, shape, vec):
    """number of unmasked elements per parameter"""
    P = shape[:-1] if vec else shape
    n = np.zeros(P if P else ())
    tot = 0
    for c in m.param.children:
        node = c[0]
        mk = np.broadcast_to(node.mask, node.plates)
        if type(node).__name__.endswith('Mixture') or 'ixture' in type(node).__name__:
            n = n + np.sum(mk)
            continue
        ax = tuple(i for i in range(mk.ndim) if (i - mk.ndim < -len(P)) or P[i - mk.ndim] == 1)
        s = np.sum(mk, axis=ax, keepdims=True)
        s = s.reshape(s.shape[s.ndim - len(P):]) if len(P) else np.sum(s)
        n = n + s
    return n


def f_gradient(ctx, case, ms):
    _, name, mask = case
    mask = np.array(mask)
    shape, f, dP, sample = ms[name]
    r = engine.rng('c23g', name)
    lat = latent(f(None, mask))
    direct = name == 'ml direct'
    ctx.traces = 0
    for sched in itertools.product(lat, repeat=2 if ctx.tier == 'quick' else 3) if lat else [()]:
        for k in range(2):
            m = f(None, mask)
            x = sample(r)
            set_value(m.param, x, True)
            start(m, r)
            ctx.traces += 1
            for s in lat + list(sched):
                m.nodes[s].update()
            w = '%s mask %s value %s schedule %s' % (name, mask.tolist(), np.round(x, 3).tolist(), sched)
            ctx.op()
            try:
                g = m.param.get_gradient(m.param.get_riemannian_gradient())
            except Exception as e:
                ctx.fail('gradient raises', '%s: %s %s' % (w, type(e).__name__, str(e)[:200]))
                return
            if not ctx.ok(len(g) == 1, 'number of gradients', w):
                return
            num = np.zeros(shape)
            h = 1e-5
            for c in np.ndindex(*shape):
                vs = []
                for s_ in (-1, 1):
                    z = np.array(x)
                    z[c] += s_ * h
                    if direct:
                        z = (z + z.T) / 2
                    set_value(m.param, z, True)
                    vs.append(m.bound())
                num[c] = (vs[1] - vs[0]) / (2 * h)
            gg = np.asarray(g[0], float)
            if direct and gg.shape == shape:
                gg = (gg + gg.T) / 2
            ctx.close(gg, num, 'gradient of a maximum likelihood parameter', rtol=1e-5, atol=1e-6, msg=w)
            set_value(m.param, x, True)
            ctx.state(name, mask.tolist(), sched, k)
        if direct or not np.any(mask):
            continue
        # optimisation
        for collapsed in ([], lat) if lat else ([],):
            m = f(None, mask)
            set_value(m.param, sample(r), True)
            start(m, r)
            for s in lat:
                m.nodes[s].update()
            m.param.name = 'theta'
            Q = VB(m.param, *m.nodes.values())
            b0 = m.bound()
            tr = [b0]
            for it in range(3 if ctx.tier == 'quick' else 8):
                Q.optimize(m.param, collapsed=[m.nodes[k] for k in collapsed], maxiter=2, tol=-1, verbose=False)
                ctx.op()
                tr.append(m.bound())
                ctx.ok(tr[-1] >= tr[-2] - 1e-8 * max(1, abs(tr[-2])), 'optimisation lowers the bound', '%s mask %s collapsed %s: %s' % (name, mask.tolist(), collapsed, tr))
            x1 = np.asarray(m.param.get_moments()[0])
            ctx.ok(x1.shape == shape, 'shape after optimisation', '%s %s' % (name, x1.shape))
            ctx.close(Q.L[max(Q.iter - 1, 0)] if not np.isnan(Q.L[max(Q.iter - 1, 0)]) else tr[-1], tr[-1], 'book-keeping of the bound', msg='%s' % name)


def f_params(ctx, case, ms):
    """get_parameters / set_parameters are inverse; values out of the domain are rejected; parameters are copies of nothing shared"""
    _, name, mask = case
    mask = np.array(mask)
    shape, f, dP, sample = ms[name]
    ml = name.startswith('ml ')
    r = engine.rng('c23p', name)
    for k in range(4):
        m = f(None, mask)
        x = sample(r)
        set_value(m.param, x, ml)
        p = m.param.get_parameters()
        b = m.bound()
        p = [np.copy(v) for v in p]
        set_value(m.param, sample(r), ml)
        m.param.set_parameters(p)
        ctx.op()
        ctx.close(m.bound(), b, 'parameters restored', msg=name)
        ctx.close(np.asarray(m.param.get_moments()[0]) + np.zeros(shape), x, 'value restored', msg=name)
        ctx.state(name, k)
        if not ml:
            for bad in (-1., np.nan):
                z = np.array(x)
                z[(0,) * z.ndim] = bad
                try:
                    m.param.initialize_from_value(z)
                    rejected = False
                except ValueError:
                    rejected = True
                if bad == -1.:
                    ctx.ok(rejected, 'a negative value is accepted', '%s %s' % (name, z))
                    ctx.close(np.asarray(m.param.get_moments()[0]) + np.zeros(shape), x, 'value kept after a rejected one', msg=name)


_ms = None


def run(ctx, case):
    global _ms
    if _ms is None:
        _ms = models()
    dict(value=f_value, update=f_update, gradient=f_gradient, params=f_params)[case[0]](ctx, case, _ms)
