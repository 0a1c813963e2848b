"""C17: sampling draws from the node's distribution; read-only queries change nothing."""
import io
import itertools
import os
import tempfile
import numpy as np
from scipy import special, stats
from bayespy import nodes as bn
from . import engine, zoo

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'the random primitives are replaced by a controlled chooser; the whole choice tree of each sampler is enumerated on the real code (exact branch points of uniforms by bisection, exact supports and quadrature points otherwise), and all query sequences up to a depth are enumerated'
RULE = ('every latent node of every zoo model and of extra models (every distribution class, mixtures over them, broadcast parameters) x {prior, parameters, updated} states: every base draw reaches one plate element only, '
        'shape and support are right, and the induced distribution over the enumerated choice tree has exactly the moments (discrete: the full probability table) of the node; '
        'every read-only query, and every pair of queries, leaves every stored array bitwise unchanged and the continuation equals that of an untouched twin')
BOUND = dict(quick='29 + 24 models, 2 states; all branch points of uniforms separated by more than 1/32; 5-point Gauss-Hermite, log-trapezoid for gammas; query sequences of length <= 2',
             thorough='3 states, query sequences of length <= 2 at every state')
ASSUMPTIONS = ['the primitives of numpy.random have the distributions they document', 'distributions that document sampling as not implemented (Wishart, Gaussian Markov chains) are skipped']
CASE_TIMEOUT = 200

# ---------------------------------------------------------------- controlled chooser


class Chooser:
    """Stands in for numpy.random: every base draw is one numbered nondeterministic choice."""

    def __init__(self, assign=None, base=0):
        self.assign = assign or {}
        self.base = base
        self.kinds = []

    def one(self, kind, *par):
        i = len(self.kinds)
        self.kinds.append((kind,) + tuple(par))
        if i in self.assign:
            return self.assign[i]
        return default(self.kinds[i], self.base)

    def many(self, kind, size, *pars):
        if size is None and all(np.ndim(p) == 0 for p in pars):
            return self.one(kind, *[float(p) for p in pars])
        if size is None:
            size = np.broadcast_shapes(*[np.shape(p) for p in pars])
        if np.ndim(size) == 0:
            size = (int(size),)
        size = tuple(int(s) for s in size)
        ps = [np.broadcast_to(p, size) for p in pars]
        out = np.zeros(size)
        for e in np.ndindex(*size):
            out[e] = self.one(kind, *[float(p[e]) for p in ps])
        return out

    # uniform
    def rand(self, *s):
        return self.many('u', s if s else None)

    def random(self, size=None):
        return self.many('u', size)
    random_sample = ranf = sample = random

    def uniform(self, low=0., high=1., size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(low), np.shape(high)) or None
        return low + (np.asarray(high) - low) * self.many('u', size)

    def choice(self, a, size=None, replace=True, p=None):
        n = a if np.ndim(a) == 0 else len(a)
        p = np.ones(n) / n if p is None else np.asarray(p)
        u = self.many('u', size)
        i = np.minimum(np.searchsorted(np.cumsum(p), u), n - 1)
        return i if np.ndim(a) == 0 else np.asarray(a)[i]

    # normal
    def randn(self, *s):
        return self.many('n', s if s else None)

    def standard_normal(self, size=None):
        return self.many('n', size)

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale)) or None
        return loc + scale * self.many('n', size)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        size = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        z = self.many('n', size + (len(mean),))
        return mean + z @ np.linalg.cholesky(cov).T

    # gamma
    def standard_gamma(self, shape, size=None):
        return self.many('g', size, shape)

    def gamma(self, shape, scale=1., size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(shape), np.shape(scale)) or None
        return self.many('g', size, shape) * scale

    def exponential(self, scale=1., size=None):
        return self.gamma(1., scale, size)

    def chisquare(self, df, size=None):
        return self.gamma(np.asarray(df) / 2., 2., size)

    def beta(self, a, b, size=None):
        x = self.gamma(a, 1., size)
        return x / (x + self.gamma(b, 1., size))

    def dirichlet(self, alpha, size=None):
        size = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        x = self.many('g', size + np.shape(alpha), alpha)
        return x / np.sum(x, -1, keepdims=True)

    # counts
    def poisson(self, lam=1., size=None):
        return np.asarray(self.many('p', size, lam)).astype(int)

    def binomial(self, n, p, size=None):
        return np.asarray(self.many('b', size, n, p)).astype(int)

    def multinomial(self, n, pvals, size=None):
        pvals = np.asarray(pvals, float)
        size = np.broadcast_shapes(np.shape(n), pvals.shape[:-1]) if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        n = np.broadcast_to(n, size)
        p = np.broadcast_to(pvals, size + pvals.shape[-1:])
        out = np.zeros(p.shape, int)
        for e in np.ndindex(*size):
            out[e] = self.one('m', int(n[e]), tuple(float(x) for x in p[e]))
        return out

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def __enter__(self):
        self.saved = {}
        for k in ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'choice', 'randn', 'standard_normal', 'normal', 'multivariate_normal', 'standard_gamma',
                  'gamma', 'exponential', 'chisquare', 'beta', 'dirichlet', 'poisson', 'binomial', 'multinomial', 'seed', 'default_rng'):
            self.saved[k] = getattr(np.random, k)
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def default(kind, base):
    k = kind[0]
    if k == 'u':
        return (.37, .81)[base]
    if k == 'n':
        return (.3, -.8)[base]
    if k == 'g':
        return kind[1] * (1., .6)[base] + .01
    if k == 'b':
        return (int(kind[1]) // 2, int(kind[1]))[base]
    if k == 'p':
        return (1, 3)[base]
    n, p = kind[1:]
    x = np.zeros(len(p), int)
    x[np.argmax(p)] = n
    return tuple(x)


def alternatives(kind):
    k = kind[0]
    if k == 'u':
        return [1e-10, .003, .2, .5, .7, .997, 1 - 1e-10]
    if k == 'n':
        return [-1.5, 2.]
    if k == 'g':
        return [kind[1] * .2, kind[1] * 3 + 1.]
    return [x for x, _ in support(kind)]


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for c in compositions(n - i, k - 1):
            yield (i,) + c


def support(kind):
    """all values of a base draw with their weights"""
    k = kind[0]
    if k == 'n':
        x, w = np.polynomial.hermite_e.hermegauss(5)
        return list(zip(x, w / w.sum()))
    if k == 'g':
        a = kind[1]
        h = min(.55, .95 / np.sqrt(a))
        t = np.arange(-16. / a, np.log(a + 12 + 6 * np.sqrt(a)) + h, h)
        l = a * t - np.exp(t)
        keep = l > l.max() - 17
        w = np.exp(l[keep] - l.max())
        return list(zip(np.exp(t[keep]), w / w.sum()))
    if k == 'b':
        return [(i, stats.binom.pmf(i, int(kind[1]), kind[2])) for i in range(int(kind[1]) + 1)]
    if k == 'p':
        K = int(kind[1] + 12 * np.sqrt(kind[1]) + 14)
        return [(i, stats.poisson.pmf(i, kind[1])) for i in range(K)]
    if k == 'm':
        return [(c, stats.multinomial.pmf(c, kind[1], kind[2])) for c in compositions(kind[1], len(kind[2]))]


# ---------------------------------------------------------------- exploring a sampler


def flat(x, plates):
    """list of components -> array (plates elements, values)"""
    xs = x if isinstance(x, tuple) else (x,)
    n = int(np.prod(plates))
    return np.concatenate([np.reshape(np.asarray(y, float), (n, -1)) for y in xs], axis=1)


class Sampler:
    def __init__(self, ctx, draw, plates):
        self.ctx, self.draw, self.plates = ctx, draw, plates
        self.n = 0

    def __call__(self, assign, base=0):
        c = Chooser(assign, base)
        with c:
            x = self.draw()
        self.kinds = c.kinds
        self.raw = x
        self.n += 1
        return flat(x, self.plates)


def explore(ctx, S, stat, label, cap=60000):
    """expected statistics of every plate element over the full choice tree"""
    y0 = S({})
    E = y0.shape[0]
    kinds = list(S.kinds)
    owner = {}
    for base in (0, 1):
        y = S({}, base)
        for b, kd in enumerate(kinds):
            for v in alternatives(kd):
                z = S({b: v}, base)
                for e in range(E):
                    if not np.array_equal(z[e], y[e]):
                        owner.setdefault(b, set()).add(e)
    for b, es in owner.items():
        if not ctx.ok(len(es) == 1, 'a base draw reaches one plate element only', '%s draw %d (%s) reaches %s' % (label, b, kinds[b][0], sorted(es))):
            return None
    own = [[b for b in range(len(kinds)) if owner.get(b) == {e}] for e in range(E)]
    ctx.ok(S({}).tolist() == y0.tolist(), 'all randomness is controlled', label)
    if any(kinds[b][0] == 'u' for o in own for b in o):
        res = []
        for e in range(E):
            res.append(tree(S, own[e], e, stat, kinds))
            if res[-1] is None:
                ctx.outcomes.add('continuous uniform')
                return None
        ctx.op(S.n)
        return res
    # every element has its own draws: all elements walk through their own trees at the same time
    sup = [[support(kinds[b]) for b in o] for o in own]
    tot = [int(np.prod([len(s) for s in sp])) if sp else 1 for sp in sup]
    if max(tot) > cap:
        ctx.outcomes.add('choice tree too large')
        return None
    its = [list(itertools.product(*sp)) for sp in sup]
    acc = [0.] * E
    for j in range(max(tot)):
        a, w = {}, np.zeros(E)
        for e in range(E):
            if j < tot[e]:
                pt = its[e][j]
                w[e] = np.prod([q[1] for q in pt]) if pt else 1.
                a.update({b: q[0] for b, q in zip(own[e], pt)})
        y = S(a)
        for e in range(E):
            if w[e] > 0:
                acc[e] = acc[e] + w[e] * stat(y[e])
    ctx.op(S.n)
    return acc


def tree(S, own, e, stat, kinds, pre=None, w=1.):
    """depth-first over the draws of element e; uniforms are split at their exact branch points"""
    pre = pre or {}
    if not own:
        return w * stat(S(pre)[e])
    b, rest = own[0], own[1:]
    if kinds[b][0] != 'u':
        return sum(tree(S, rest, e, stat, kinds, {**pre, b: v}, w * q) for v, q in support(kinds[b]))
    probes = [{}]
    if rest:
        probes = [{r: v for r in rest} for v in (.02, .35, .65, .98)] if all(kinds[r][0] == 'u' for r in rest) else [{}]

    def sig(v):
        return tuple(tuple(S({**p, **pre, b: v})[e]) for p in probes)
    g = np.linspace(0, 1, 33)
    g[0], g[-1] = 1e-12, 1 - 1e-12
    s = [sig(v) for v in g]
    if len(set(s)) > 16:
        return None
    cuts = [0.]
    for i in range(32):
        lo, cur = g[i], s[i]
        while cur != s[i + 1]:
            hi = g[i + 1]
            while hi - lo > 1e-11:
                m = .5 * (lo + hi)
                if sig(m) == cur:
                    lo = m
                else:
                    hi = m
            cuts.append(.5 * (lo + hi))
            lo, cur = hi, sig(hi)
    cuts.append(1.)
    out = 0.
    for lo, hi in zip(cuts, cuts[1:]):
        r = tree(S, rest, e, stat, kinds, {**pre, b: .5 * (lo + hi)}, w * (hi - lo))
        if r is None:
            return None
        out = out + r
    return out


# ---------------------------------------------------------------- expected statistics


def softmax(x):
    x = np.asarray(x, float)
    p = np.exp(x - np.max(x, -1, keepdims=True))
    return p / p.sum(-1, keepdims=True)


def kind_of(n):
    return {'GaussianMoments': 'gauss', 'GammaMoments': 'gamma', 'DirichletMoments': 'dir', 'BetaMoments': 'beta', 'CategoricalMoments': 'cat', 'BernoulliMoments': 'bern',
            'BinomialMoments': 'binom', 'PoissonMoments': 'pois', 'MultinomialMoments': 'mult', 'CategoricalMarkovChainMoments': 'cmc', 'GaussianGammaMoments': 'gg'}.get(type(n._moments).__name__)


def element(x, plates, e):
    x = np.broadcast_to(x, plates + np.shape(x)[np.ndim(x) - (np.ndim(x)):]) if False else x
    return x[e]


def expectations(kind, n, e, tries=None):
    """(event shape, stat function, expected value, tolerance, support predicate) for plate element e"""
    u = [np.broadcast_to(n.u[i], n.get_shape(i))[e] for i in range(len(n.u))]
    phi = [np.broadcast_to(p, n.get_shape(i))[e] for i, p in enumerate(n.phi)]
    if kind == 'gauss':
        d = np.shape(u[0])
        return d, lambda x: np.concatenate([x, np.outer(x, x).ravel()]), np.concatenate([u[0].ravel(), u[1].ravel()]), 1e-8, lambda x: True
    if kind == 'gamma':
        return (), lambda x: np.array([x[0], np.log(x[0])]), np.array([float(u[0]), float(u[1])]), 2e-4, lambda x: x[0] > 0
    if kind == 'dir':
        return np.shape(u[0]), np.log, u[0], 5e-4, lambda x: np.all(x > 0) and abs(x.sum() - 1) < 1e-12
    if kind == 'beta':
        return (), lambda x: np.array([np.log(x[0]), np.log1p(-x[0])]), u[0], 5e-4, lambda x: 0 < x[0] < 1
    if kind == 'cat':
        K = len(u[0])
        return (), lambda x: (np.arange(K) == x[0]) + 0., softmax(phi[0]), 1e-8, lambda x: x[0] in range(K)
    if kind in ('bern', 'binom'):
        N = 1 if kind == 'bern' else tries
        p = special.expit(float(phi[0]))
        return (), lambda x: (np.arange(N + 1) == x[0]) + 0., stats.binom.pmf(np.arange(N + 1), N, p), 1e-8, lambda x: x[0] in range(N + 1)
    if kind == 'pois':
        lam = np.exp(float(phi[0]))
        return (), lambda x: (np.arange(30) == x[0]) + 0., stats.poisson.pmf(np.arange(30), lam), 1e-8, lambda x: x[0] >= 0 and x[0] == int(x[0])
    if kind == 'mult':
        K = len(u[0])
        cs = list(compositions(tries, K))
        return (K,), lambda x: np.array([tuple(x.astype(int)) == c for c in cs]) + 0., stats.multinomial.pmf(cs, tries, softmax(phi[0])), 1e-8, lambda x: x.sum() == tries and np.all(x >= 0)
    if kind == 'cmc':
        T, K = u[1].shape[0] + 1, len(u[0])
        paths = list(itertools.product(range(K), repeat=T))
        l = np.array([phi[0][p[0]] + sum(phi[1][t, p[t], p[t + 1]] for t in range(T - 1)) for p in paths])
        return (T,), lambda x: np.array([tuple(x.astype(int)) == p for p in paths]) + 0., softmax(l), 1e-8, lambda x: np.all((x >= 0) & (x < K))
    if kind == 'gg':
        D = int(np.prod(np.shape(u[0])))

        def stat(y):
            x, a = y[:D], y[D]
            return np.concatenate([a * x, (a * np.outer(x, x)).ravel(), [a, np.log(a)]])
        return np.shape(u[0]), stat, np.concatenate([u[0].ravel(), u[1].ravel(), [u[2], u[3]]]), 2e-4, lambda y: y[-1] > 0


def state_of(m):
    out = {}
    for k, n in m.items():
        d = {}
        for a in ('u', 'phi'):
            if hasattr(n, a):
                d[a] = [np.array(x) for x in getattr(n, a)]
        for a in ('g', 'f', 'mask', 'observed', 'annealing'):
            if hasattr(n, a):
                d[a] = np.array(getattr(n, a))
        d['children'] = [(id(c), i) for c, i in n.children] if hasattr(n, 'children') else []
        d['plates'] = np.array(n.plates)
        out[k] = d
    return out


def differs(a, b):
    for k in a:
        if set(a[k]) != set(b[k]):
            return '%s: attributes' % k
        for at in a[k]:
            x, y = a[k][at], b[k][at]
            if at == 'children':
                if sorted(x) != sorted(y):
                    return '%s: children' % k
            elif isinstance(x, list):
                if len(x) != len(y) or any(p.shape != q.shape or not np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y)):
                    return '%s: %s' % (k, at)
            elif x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                return '%s: %s' % (k, at)
    return ''


def check_node(ctx, nodes, name, label, tries=None):
    n = nodes[name]
    kind = kind_of(n)
    if kind is None or not hasattr(n, 'phi'):
        return
    before = state_of(nodes)
    S = Sampler(ctx, n.random, n.plates)
    try:
        c = Chooser()
        with c:
            x = n.random()
    except NotImplementedError:
        ctx.outcomes.add('not implemented')
        ctx.ok(not differs(before, state_of(nodes)), 'sampling changes nothing', '%s: %s' % (label, differs(before, state_of(nodes))))
        return
    ev, stat, _, _, supp = expectations(kind, n, (0,) * len(n.plates), tries)
    xs = x if isinstance(x, tuple) else (x,)
    if not ctx.ok(np.shape(xs[0]) == tuple(n.plates) + tuple(ev), 'shape of a sample', '%s %s, expected %s' % (label, np.shape(xs[0]), tuple(n.plates) + tuple(ev))):
        return
    if kind in ('cat', 'bern', 'binom', 'pois', 'mult', 'cmc'):
        ctx.ok(np.asarray(xs[0]).dtype.kind in 'iub', 'type of a sample', '%s %s' % (label, np.asarray(xs[0]).dtype))
    bad = []

    def stat2(y):
        if not supp(y):
            bad.append(y.tolist())
        return np.asarray(stat(y), float)
    res = explore(ctx, S, stat2, label)
    ctx.ok(not differs(before, state_of(nodes)), 'sampling changes nothing', '%s: %s' % (label, differs(before, state_of(nodes))))
    if res is None:
        return
    ctx.ok(not bad, 'samples are inside the support', '%s %s' % (label, bad[:3]))
    for i, e in enumerate(np.ndindex(*n.plates)):
        _, _, want, tol, _ = expectations(kind, n, e, tries)
        ctx.close(res[i], want, 'distribution of the samples', rtol=tol, atol=tol, msg='%s %s %s' % (label, kind, e))
        ctx.state(name, e, want)
    ctx.traces += S.n
    # a sample used as the initial value
    if kind not in ('gg', 'cmc') and type(n).__name__ != 'CategoricalMarkovChain' and not np.any(n.observed):
        with Chooser():
            x = n.random()
        with Chooser():
            n.initialize_from_random()
        got = [np.array(np.broadcast_to(a, n.get_shape(j))) for j, a in enumerate(n.u)]
        n.initialize_from_value(x)
        for a, (j, b) in zip(got, enumerate(n.u)):
            ctx.close(a, np.broadcast_to(b, n.get_shape(j)), 'initialising from a random value', msg=label)


# ---------------------------------------------------------------- extra models


def extra_models():
    r = engine.rng('c17')
    w2, w3 = np.array([.3, .7]), np.array([.2, .5, .3])
    X = {}

    def add(name, tries=None):
        def deco(f):
            X[name] = (f, tries)
            return f
        return deco

    @add('ard_scalar_broadcast')
    def _():
        x = bn.GaussianARD(.4, 2.5, plates=(3,)); return dict(x=x)

    @add('ard_vector_broadcast')
    def _():
        return dict(x=bn.GaussianARD(.4, [1., 2.], shape=(2,), plates=(2,)))

    @add('ard_matrix')
    def _():
        return dict(x=bn.GaussianARD(np.array([[.1, .2], [.3, -.4]]), np.array([[1., 2.], [3., .5]]), shape=(2, 2)))

    @add('ard_unit')
    def _():
        return dict(x=bn.GaussianARD(np.array([[.5]]), 2., shape=(1, 1), plates=(2,)))

    @add('ard_unit_vector')
    def _():
        return dict(x=bn.GaussianARD([1.5], [.7], shape=(1,), plates=(2, 1)))

    @add('gaussian')
    def _():
        return dict(x=bn.Gaussian(np.array([[1., 2.], [0., -1.]]), np.array([[1., .6], [.6, 1.4]])))

    @add('gaussian_correlated_matrix')
    def _():
        x = bn.GaussianARD(0., 1., shape=(2, 2))
        y = bn.GaussianARD(bn.SumMultiply('ij,ij', x, np.array([[1., .5], [-.7, 2.]])), 3.)
        y.observe(1.2); x.update()
        return dict(x=x, y=y)

    @add('gamma')
    def _():
        return dict(x=bn.Gamma([1.3, 2.5], 3.), y=bn.Gamma(2.2, [.4, 1.5]))

    @add('beta')
    def _():
        return dict(x=bn.Beta([[1.2, 2.], [3., .9]]))

    @add('dirichlet')
    def _():
        return dict(x=bn.Dirichlet([[1.2, 2., 1.], [3., 1.5, 2.]]), y=bn.Dirichlet([1.5, 2.5], plates=(2,)))

    @add('categorical')
    def _():
        return dict(x=bn.Categorical(np.array([w3, w3[::-1]])), y=bn.Categorical(w2, plates=(3,)), z=bn.Categorical(w3))

    @add('bernoulli')
    def _():
        return dict(x=bn.Bernoulli([.2, .6]), y=bn.Bernoulli(.35, plates=(2, 2)), z=bn.Bernoulli(.8))

    @add('binomial', 4)
    def _():
        return dict(x=bn.Binomial(4, [.2, .6]), y=bn.Binomial(4, .7, plates=(2,)))

    @add('poisson')
    def _():
        return dict(x=bn.Poisson([.4, 2.]), y=bn.Poisson(1.5, plates=(2,)))

    @add('multinomial', 3)
    def _():
        return dict(x=bn.Multinomial(3, np.array([w3, w3[::-1]])), y=bn.Multinomial(3, w2, plates=(2,)))

    @add('cmc')
    def _():
        return dict(x=bn.CategoricalMarkovChain(w2, np.array([[.9, .1], [.35, .65]]), states=3))

    @add('cmc_plates')
    def _():
        return dict(x=bn.CategoricalMarkovChain(np.array([w2, w2[::-1]]), np.array([[.9, .1], [.35, .65]]), states=3, plates=(2,)))

    @add('cmc_varying')
    def _():
        A = np.array([[[.9, .1], [.3, .7]], [[.2, .8], [.6, .4]]])
        return dict(x=bn.CategoricalMarkovChain(w2, A, states=3))

    @add('cmc_two')
    def _():
        return dict(x=bn.CategoricalMarkovChain(w3, np.array([[.2, .5, .3], [.1, .6, .3], [.7, .1, .2]]), states=2))

    @add('cmc_posterior')
    def _():
        z = bn.CategoricalMarkovChain(w2, np.array([[.8, .2], [.35, .65]]), states=3)
        y = bn.Mixture(z, bn.GaussianARD, [-1., 1.5], [1., 2.]); y.observe([.8, -.2, .5]); z.update()
        return dict(z=z, y=y)

    @add('cmc_posterior_plates')
    def _():
        z = bn.CategoricalMarkovChain(w2, np.array([[[.8, .2], [.35, .65]], [[.5, .5], [.9, .1]]])[:, None], states=3, plates=(2,))
        y = bn.Mixture(z, bn.Bernoulli, [.2, .7]); y.observe([[1, 0, 1], [1, 1, 0]]); z.update()
        return dict(z=z, y=y)

    @add('cmc_long_plates')
    def _():
        return dict(x=bn.CategoricalMarkovChain(w2, np.array([[.6, .4], [.15, .85]]), states=4, plates=(2, 1)))

    @add('gg')
    def _():
        L = np.array([[2., .5], [.5, 1.]])
        return dict(x=bn.GaussianGamma(np.array([.5, -1.]), L, 2.5, 1.7), y=bn.GaussianGamma(np.array([[1., 2.], [0., .3]]), L, [3., 1.5], 2.))

    @add('gg_posterior')
    def _():
        x = bn.GaussianGamma(np.array([.5, -1.]), np.eye(2), 2.5, 1.7)
        y = bn.GaussianARD(bn.SumMultiply('i,i', x, np.array([1., 2.])), 1.); y.observe(1.4); x.update()
        return dict(x=x, y=y)

    @add('mix_gauss')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.GaussianARD, [-1., 2.], [1., 3.]))

    @add('mix_gauss_vector')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Gaussian, np.array([[-1., 2.], [0., 1.]]), np.array([[1., .2], [.2, 3.]])))

    @add('mix_axis')
    def _():
        z = bn.Categorical(w2, plates=(1, 2))
        y = bn.Mixture(z, bn.GaussianARD, np.array([[[-1.], [2.]], [[0.], [.5]]]), 2., cluster_plate=-2)
        return dict(z=z, y=y)

    @add('mix_cat')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Categorical, np.array([[.2, .5, .3], [.6, .3, .1]])))

    @add('mix_bern')
    def _():
        z = bn.Categorical(w2, plates=(2, 1))
        return dict(z=z, y=bn.Mixture(z, bn.Bernoulli, np.array([[.2, .7], [.5, .9]])))

    @add('mix_gamma')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Gamma, [1.5, 3.], [.5, 2.]))

    @add('mix_mult', 2)
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Multinomial, 2, np.array([[.2, .5, .3], [.6, .3, .1]])))

    @add('mix_pois')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Poisson, [1., 2.5]))

    @add('mix_dir')
    def _():
        z = bn.Categorical(w2, plates=(2,))
        return dict(z=z, y=bn.Mixture(z, bn.Dirichlet, np.array([[1.5, 2.], [2.5, 1.]])))
    return X


# ---------------------------------------------------------------- queries


def queries(m):
    """every read-only query as (name, function(engine, nodes))"""
    Q = []

    def per(name, f):
        for k in m.n:
            Q.append(('%s %s' % (name, k), lambda vb, nodes, k=k, f=f: f(nodes[k])))
    per('random', lambda n: n.random())
    per('moments', lambda n: [np.array(x) for x in n.get_moments()])
    per('bound', lambda n: n.lower_bound_contribution())
    per('bound all', lambda n: n.lower_bound_contribution(ignore_masked=False))
    per('gradient', lambda n: n.get_gradient(n.get_riemannian_gradient()))
    per('parameters', lambda n: n.get_parameters())
    per('show', lambda n: (n.show(), str(n), repr(n)))
    per('message', lambda n: (n._message_from_children(), n._message_to_child(), n.get_mask()))
    per('density', lambda n: n.logpdf(sample(n)))
    per('integrated', lambda n: n.integrated_logpdf_from_parents(sample(n), 0))
    per('shape', lambda n: (n.get_shape(0), n.plates, n.plates_multiplier, n.has_plotter()))
    per('slice', lambda n: drop(n[:1] if n.plates else n[...]))
    Q.append(('engine bound', lambda vb, nodes: (vb.compute_lowerbound(), vb.compute_lowerbound(ignore_masked=False))))
    Q.append(('engine parameters', lambda vb, nodes: vb.get_parameters(*[nodes[k] for k in m.latent])))
    Q.append(('engine gradients', lambda vb, nodes: vb.get_gradients(*[nodes[k] for k in m.latent], euclidian=True)))
    Q.append(('engine natural gradients', lambda vb, nodes: vb.get_gradients(*[nodes[k] for k in m.latent])))
    Q.append(('engine converged', lambda vb, nodes: (vb.has_converged(), vb.get_iteration_by_nodes())))
    Q.append(('save', save))
    return Q


def sample(n):
    with Chooser():
        return n.random()


def drop(x):
    x.get_moments()
    x.delete()


def save(vb, nodes):
    d = tempfile.mkdtemp()
    fn = os.path.join(d, 'a.h5')
    try:
        vb.save(filename=fn)
    finally:
        if os.path.exists(fn):
            os.remove(fn)
        os.rmdir(d)


def plots(m):
    import bayespy.plot as bpplt
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    Q = []

    def per(name, f):
        for k in m.n:
            def g(vb, nodes, k=k, f=f):
                try:
                    f(nodes[k])
                finally:
                    plt.close('all')
            Q.append(('%s %s' % (name, k), g))
    per('plot', lambda n: bpplt.plot(n))
    per('plot axis', lambda n: bpplt.plot(n, axis=0))
    per('hinton', lambda n: bpplt.hinton(n))
    per('timeseries', lambda n: bpplt.timeseries(n))
    per('pdf', lambda n: bpplt.pdf(n, np.linspace(.1, .9, 3)))
    per('contour', lambda n: bpplt.contour(n, np.linspace(.1, .9, 2), np.linspace(.1, .9, 2)))
    Q.append(('engine plot', lambda vb, nodes: (vb.plot_iteration_by_nodes(), plt.close('all'))))
    return Q


def build(name, state):
    m = zoo.build(name, init='params' if state == 'params' else 'value' if state == 'updated' else 'prior')
    if state == 'updated':
        for k in m.latent:
            m.n[k].update()
        for k in m.latent[:2]:
            m.n[k].update()
    return m


def continuation(m, vb):
    out = [m.bound()]
    for k in m.latent:
        m.n[k].update()
        out.append(m.bound())
        out += [np.array(x) for x in m.n[k].u]
    vb.update(repeat=1, verbose=False, tol=-1)
    out.append(vb.compute_lowerbound())
    return out


def f_query(ctx, case):
    _, name, state, plotting = case
    m = build(name, state)
    vb = m.vb()
    vb.update(repeat=1, verbose=False, tol=-1)
    Q = plots(m) if plotting else queries(m)
    before = state_of(m.n)
    books = (np.array(vb.L), vb.iter, np.array(vb.cputime))
    able = []

    def ask(q, label):
        ok = True
        with Chooser():
            try:
                q[1](vb, m.n)
            except (KeyboardInterrupt, engine.Timeout):
                raise
            except BaseException:
                ok = False
        ctx.op()
        d = differs(before, state_of(m.n))
        ctx.ok(not d, 'a query changes nothing', '%s: %s' % (label, d))
        ctx.ok(np.array_equal(books[0], vb.L, equal_nan=True) and books[1] == vb.iter, 'a query leaves the books alone', label)
        return ok and not d
    for q in Q:
        if ask(q, q[0]):
            able.append(q)
        elif ctx.failures:
            return
    if not plotting:
        pairs = list(itertools.product(able, repeat=2))
        step = 1 if ctx.tier != 'quick' else max(1, len(pairs) // 250)
        for a, b in pairs[::step]:
            ask(a, a[0])
            if not ask(b, '%s, %s' % (a[0], b[0])) and ctx.failures:
                return
    twin = build(name, state)
    vb2 = twin.vb()
    vb2.update(repeat=1, verbose=False, tol=-1)
    for a, b in zip(continuation(m, vb), continuation(twin, vb2)):
        ctx.close(a, b, 'continuation equals that of an untouched twin', rtol=1e-10, atol=1e-10)
    ctx.traces += len(Q)
    ctx.state(name, state, plotting)


# ---------------------------------------------------------------- utilities


def f_util(ctx, case):
    from bayespy.utils import random as R
    which = case[1]
    p3 = np.array([.2, .5, .3])
    P = np.array([[.2, .5, .3], [.6, .3, .1]])
    if which == 'bernoulli':
        for p, size in itertools.product((.3, np.array([.2, .9]), np.array([[.4], [.6]])), (None, 2, (2,), (2, 2))):
            sh = np.shape(p) if size is None else (size,) if isinstance(size, int) else size
            try:
                if np.broadcast_shapes(np.shape(p), sh) != sh:
                    continue
            except ValueError:
                continue
            res = explore(ctx, Sampler(ctx, lambda: R.bernoulli(p, size=size), sh), lambda x: x, 'bernoulli')
            ctx.close(np.reshape(res, sh), np.broadcast_to(p, sh), 'bernoulli', 1e-9, 1e-9)
            ctx.state(p, sh)
    elif which == 'categorical':
        for p, size in itertools.product((p3, P, P[:, None], 3 * P), (None, (), 2, (2,), (2, 2))):
            sh = np.shape(p)[:-1] if size is None else (size,) if isinstance(size, int) else size
            try:
                if np.broadcast_shapes(np.shape(p)[:-1], sh) != sh:
                    continue
            except ValueError:
                continue
            res = explore(ctx, Sampler(ctx, lambda: R.categorical(p, size=size), sh), lambda x: (np.arange(3) == x[0]) + 0., 'categorical')
            ctx.close(np.reshape(res, sh + (3,)), np.broadcast_to(p / np.sum(p, -1, keepdims=True), sh + (3,)), 'categorical', 1e-9, 1e-9)
            ctx.state(p, sh)
        # every pair of rows on a lattice, and rows that differ by little
        rows = [np.array(c) / 4. for c in compositions(4, 3)] + [np.array([.5, .25 + d, .25 - d]) for d in (.005, .02, .06)]
        for a, b in itertools.product(rows, repeat=2):
            pp = np.stack([a, b])
            for shp, size in (((2,), None), ((1, 2), (2, 2))):
                sh = shp if size is None else size
                res = explore(ctx, Sampler(ctx, lambda: R.categorical(np.reshape(pp, shp + (3,)), size=size), sh), lambda x: (np.arange(3) == x[0]) + 0., 'categorical')
                ctx.close(np.reshape(res, sh + (3,)), np.broadcast_to(np.reshape(pp, shp + (3,)), sh + (3,)), 'categorical', 1e-9, 1e-9)
                ctx.state(a, b, sh)
    elif which == 'multinomial':
        for n, p, size in itertools.product((2, np.array([1, 3]), np.array([[0], [2]])), (p3, P, P[:, None]), (None, (2,), (2, 2))):
            try:
                sh = np.broadcast_shapes(np.shape(n), np.shape(p)[:-1]) if size is None else size
                if np.broadcast_shapes(np.shape(n), np.shape(p)[:-1], sh) != sh:
                    continue
            except ValueError:
                continue
            res = explore(ctx, Sampler(ctx, lambda: R.multinomial(n, p, size=size), sh), lambda x: np.concatenate([x, np.outer(x, x).ravel()]), 'multinomial')
            nn, pp = np.broadcast_to(n, sh), np.broadcast_to(p, sh + (3,))
            m = nn[..., None] * pp
            xx = m[..., :, None] * np.eye(3) + (nn * (nn - 1))[..., None, None] * pp[..., :, None] * pp[..., None, :]
            ctx.close(np.reshape(res, sh + (12,)), np.concatenate([m, xx.reshape(sh + (9,))], -1), 'multinomial', 1e-9, 1e-9)
            ctx.state(n, p, sh)
    elif which == 'gamma':
        for a, b, size in itertools.product((1.5, np.array([.8, 3.])), (2., np.array([.5, 1.5])), (None, (2,), (2, 2))):
            sh = np.broadcast_shapes(np.shape(a), np.shape(b)) if size is None else size
            res = explore(ctx, Sampler(ctx, lambda: R.gamma(a, b, size=size), sh), lambda x: np.array([x[0], np.log(x[0])]), 'gamma')
            ctx.close(np.reshape(res, sh + (2,)), np.broadcast_to(np.stack([a * b + 0 * a, special.psi(a) + np.log(b)], -1), sh + (2,)), 'gamma', 5e-4, 5e-4)
            ctx.state(a, b, sh)
    elif which == 'dirichlet':
        for a, size in itertools.product((np.array([1.5, 2.]), np.array([[1.5, 2.], [2.5, .9]])), (None, 2, (2,), (1, 2))):
            sh = np.shape(a)[:-1] if size is None else (size,) if isinstance(size, int) else size
            if np.broadcast_shapes(np.shape(a)[:-1], sh) != sh:
                continue
            res = explore(ctx, Sampler(ctx, lambda: R.dirichlet(a, size=size), sh), lambda x: np.log(x), 'dirichlet')
            ctx.close(np.reshape(res, sh + (2,)), np.broadcast_to(special.psi(a) - special.psi(a.sum(-1, keepdims=True)), sh + (2,)), 'dirichlet', 5e-4, 5e-4)
            ctx.state(a, sh)
    elif which == 'wishart':
        V = np.array([[1., .3], [.3, .7]])
        S = Sampler(ctx, lambda: R.wishart(2, V), ())
        nodes = support(('n',))
        x3 = [(-np.sqrt(3.), 1 / 6), (0., 2 / 3), (np.sqrt(3.), 1 / 6)]
        y = S({})
        acc, acc2 = 0., 0.
        for pt in itertools.product(x3, repeat=len(S.kinds)):
            w = np.prod([q[1] for q in pt])
            v = S({i: q[0] for i, q in enumerate(pt)})[0]
            acc = acc + w * v
            acc2 = acc2 + w * np.outer(v, v)
        ctx.op(S.n)
        ctx.close(acc, 2 * V.ravel(), 'wishart mean', 1e-9, 1e-9)
        C = 2 * (np.einsum('ik,jl->ijkl', V, V) + np.einsum('il,jk->ijkl', V, V)).reshape(4, 4)
        # fourth moments are exact with three points except the pure ones, which need E z^4 = 3 (also exact)
        ctx.close(acc2, C + np.outer(2 * V.ravel(), 2 * V.ravel()), 'wishart covariance', 1e-9, 1e-9)
    elif which == 'mask':
        for p in (.25, .5, .9):
            res = explore(ctx, Sampler(ctx, lambda: R.mask(2, 2, p=p), (2, 2)), lambda x: x, 'mask')
            ctx.close(np.reshape(res, (2, 2)), p * np.ones((2, 2)), 'mask', 1e-9, 1e-9)
            ctx.state(p)
    elif which == 'shapes':
        for D, size, nu in itertools.product((1, 2, 3), ((), 2, (2, 3)), (None, 4)):
            for base in (0, 1):
                with Chooser({}, base):
                    pass
                C = R.covariance(D, size=size, nu=nu)
                sh = (size,) if isinstance(size, int) else size
                ctx.ok(np.shape(C) == sh + (D, D), 'shape of a random covariance', np.shape(C))
                ctx.ok(np.all(np.linalg.eigvalsh(C) > 0) and np.allclose(C, np.swapaxes(C, -1, -2)), 'random covariance is positive definite', '')
                ctx.op()
                ctx.state(D, size, nu)
        for D in (1, 2, 3, 4):
            C = R.correlation(D)
            ctx.ok(np.allclose(np.diag(C), 1) and np.all(np.linalg.eigvalsh(C) > -1e-12), 'random correlation', C)
            Qm = R.orth(D)
            ctx.close(Qm @ Qm.T, np.eye(D), 'random orthogonal matrix', 1e-10, 1e-10)
            ctx.op(2)
        for N in (1, 5):
            x = np.concatenate([np.atleast_2d(v) for v in R.sphere(N)]) if isinstance(R.sphere(N), tuple) else np.asarray(R.sphere(N))
            ctx.ok(np.all(np.isfinite(x)), 'random points on a sphere', x)
        # uniform on the sphere: the height and the longitude are uniform and independent
        S = Sampler(ctx, lambda: np.array(R.sphere()), ())
        S({})
        g = (np.arange(40) + .5) / 40
        if [k[0] for k in S.kinds] == ['u', 'u']:
            pts = np.array([[S({0: a, 1: b})[0] for a in g] for b in g]).reshape(-1, 2)
            la, lo = np.deg2rad(pts.T)
            X = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
            ctx.close(X.mean(-1), np.zeros(3), 'random points on a sphere have mean zero', 0, 1e-3)
            ctx.close(X @ X.T / len(pts), np.eye(3) / 3, 'random points on a sphere are uniform', 0, 1e-3)
            ctx.close(np.mean(X[2] ** 4), .2, 'random points on a sphere are uniform', 0, 2e-3)
            ctx.op(len(pts))
        for s_ in ([1.], [3., .5], [2., 0., 1.], [1., 1., 4., .1]):
            for base in (0, 1):
                sv = np.linalg.svd(R.svd(np.array(s_)), compute_uv=False)
                ctx.close(sv, np.sort(s_)[::-1], 'singular values of a random matrix', 1e-10, 1e-10)
        V = np.array([[1., .3], [.3, .7]])
        for base, nu in itertools.product((0, 1), (2, 3, 5)):
            z = {i: float(v) for i, v in enumerate(engine.rng('iw', base, nu).randn(40))}
            with Chooser(z):
                W = R.wishart_rand(nu, V)
            with Chooser(z):
                iW = R.invwishart_rand(nu, V)
            ctx.close(W @ iW, np.eye(2), 'an inverse-Wishart sample is the inverse of a Wishart sample', 1e-8, 1e-8)
    elif which == 'intervals':
        # every outcome: the parts have the length, are inside, in order, and separated by at least the gap; every placement is reachable
        for N, length, amount, gap in itertools.product(range(1, 9), (1, 2, 3), (1, 2, 3), (0, 1, 2)):
            label = 'N %d length %d amount %d gap %d' % (N, length, amount, gap)
            want = {c for c in itertools.combinations(range(N - length + 1), amount) if all(b - a >= length + gap for a, b in zip(c, c[1:]))}
            draw = lambda: R.intervals(N, length, amount=amount, gap=gap)
            ctx.op()
            if not want:
                try:
                    with Chooser():
                        x = draw()
                    ctx.fail('parts that do not fit are accepted', '%s: %s' % (label, x))
                except ValueError:
                    ctx.ok(True, 'rejected')
                continue
            S = Sampler(ctx, draw, ())
            S({})
            got = set()
            for a in itertools.product(*[alternatives(k) if k[0] == 'u' else [v for v, _ in support(k)] for k in S.kinds]):
                x = S(dict(enumerate(a)))[0]
                ctx.ok(np.shape(x) == (amount,), 'amount of random parts', label)
                got.add(tuple(int(v) for v in np.ravel(x)))
            ctx.ok(got <= want, 'random parts overlap, are too close or outside', '%s: %s' % (label, sorted(got - want)[:3]))
            if all(k[0] == 'm' for k in S.kinds):
                ctx.ok(got >= want, 'placements of the random parts that cannot be drawn', '%s: %s' % (label, sorted(want - got)[:3]))
            ctx.state(label)


def f_show(ctx, case):
    """the printed representation has the numbers of the current distribution"""
    import re
    r = engine.rng('c17show', case[1])
    if case[1] == 'gauss':
        for shape, plates in itertools.product(((), (2,), (2, 2)), ((), (2,), (3, 2))):
            n = bn.GaussianARD(np.round(r.randn(*(plates + shape)), 2), .5, shape=shape, plates=plates, name='abc')
            n.initialize_from_parameters(np.round(r.randn(*(plates + shape)), 1), 4.)
            D = int(np.prod(shape))
            want = np.concatenate([n.get_moments()[0].ravel(), np.broadcast_to(np.eye(D) / 4, plates + (D, D)).ravel()])
            shown(ctx, n, want, '%s %s' % (shape, plates))
        n = bn.Gaussian(np.array([[1., 2.], [3., 4.]]), np.diag([2., 4.]), name='abc')
        shown(ctx, n, np.array([1, 2, 3, 4, .5, 0, 0, .25, .5, 0, 0, .25]), 'Gaussian')
    elif case[1] == 'gamma':
        n = bn.Gamma([2., 3.], 4., name='abc')
        shown(ctx, n, np.array([2, 3, 4, 4.]), 'Gamma')
        n = bn.Beta([2., 3.], name='abc')
        shown(ctx, n, np.array([2., 3.]), 'Beta')
        n = bn.Dirichlet([2., 3.], name='abc')
        shown(ctx, n, np.array([2., 3.]), 'Dirichlet')
    elif case[1] == 'disc':
        shown(ctx, bn.Bernoulli([.25, .5], name='abc'), np.array([.25, .5]), 'Bernoulli')
        shown(ctx, bn.Categorical([.25, .75], plates=(2,), name='abc'), np.array([.25, .75] * 2), 'Categorical')
        shown(ctx, bn.Binomial(5, [.25, .5], name='abc'), np.array([5, .25, .5]), 'Binomial')


def shown(ctx, n, want, label):
    import re
    ctx.op()
    t = str(n)
    ctx.ok('abc' in t, 'the name is printed', '%s: %s' % (label, t[:80]))
    got = [float(x) for x in re.findall(r'(?<![\w])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', t.split('\n', 1)[1])]
    ctx.ok(any(np.array_equal(got, w) or len(got) == len(w) and np.allclose(got, w, rtol=1e-6, atol=1e-6) for w in (want, np.unique(want))), 'the numbers printed are those of the distribution', '%s: %s, expected %s' % (label, got, want.tolist()))
    ctx.state(label)


def f_det(ctx, case):
    """samples of deterministic nodes are the function of samples of their parents, drawn once"""
    which = case[1]
    r = engine.rng('c17det', which)
    x = bn.GaussianARD([.5, -1.], [1., 2.], shape=(2,))
    y = bn.GaussianARD(1.5, 2., shape=(2,), plates=(3,))
    B = r.randn(3, 2)
    gg = bn.GaussianGamma(np.array([.5, -1.]), np.eye(2), 2.5, 1.7)
    if which == 'dot':
        n, f, par = bn.SumMultiply('i,i', x, y), lambda a, b: np.einsum('i,ki->k', a, b), (x, y)
    elif which == 'dot_const':
        n, f, par = bn.SumMultiply('i,i->i', x, B), lambda a: a * B, (x,)
    elif which == 'dot_outer':
        n, f, par = bn.SumMultiply('i,j->ij', x, y), lambda a, b: np.einsum('i,kj->kij', a, b), (x, y)
    elif which == 'dot_node':
        n, f, par = bn.Dot(x, y), lambda a, b: np.einsum('i,ki->k', a, b), (x, y)
    elif which == 'dot_gg':
        n, f, par = bn.SumMultiply('i,i', gg, B), None, (gg,)
    nodes = dict(x=x, y=y, n=n, gg=gg)
    before = state_of(nodes)
    for base in (0, 1):
        with Chooser({}, base):
            got = n.random()
        with Chooser({}, base):
            s = [q.random() for q in par]
        if f is not None:
            got = got[0] if isinstance(got, tuple) else got
            ctx.ok(np.shape(got) == n.plates + n.dims[0], 'shape of a sample', np.shape(got))
            ctx.close(got, f(*s), 'sample of a deterministic node', 1e-12, 1e-12)
        else:
            ctx.close(got[0], B @ s[0][0], 'sample of a deterministic node', 1e-12, 1e-12)
            ctx.close(np.broadcast_to(got[1], n.plates), np.broadcast_to(s[0][1], n.plates), 'sample of a deterministic node', 1e-12, 1e-12)
        ctx.op()
        d = differs(before, state_of(nodes))
        ctx.ok(not d, 'sampling changes nothing', d)
    ctx.state(which)


def cases(tier):
    for w in ('bernoulli', 'categorical', 'multinomial', 'gamma', 'dirichlet', 'wishart', 'mask', 'shapes', 'intervals'):
        yield ['util', w]
    for w in ('gauss', 'gamma', 'disc'):
        yield ['show', w]
    for w in ('dot', 'dot_const', 'dot_outer', 'dot_node', 'dot_gg'):
        yield ['det', w]
    for n in extra_models():
        yield ['extra', n]
    states = ('params', 'updated') if tier == 'quick' else ('prior', 'params', 'updated')
    for name in zoo.ZOO:
        for s in states:
            for k in zoo.build(name).latent:
                yield ['node', name, s, k]
            yield ['query', name, s, False]
        if tier != 'quick' or name in ('gauss_gamma_plates', 'mvn_wishart', 'pca', 'gmm', 'bernoulli_mixture', 'beta_binomial', 'lda', 'poisson_gamma', 'hmm', 'lssm', 'gaussian_gamma'):
            yield ['query', name, 'updated', True]


TRIES = {('beta_binomial', 'N'): 5}


def run(ctx, case):
    if case[0] == 'util':
        f_util(ctx, case)
    elif case[0] == 'det':
        f_det(ctx, case)
    elif case[0] == 'show':
        f_show(ctx, case)
    elif case[0] == 'extra':
        f, tries = extra_models()[case[1]]
        nodes = f()
        for k in nodes:
            if hasattr(nodes[k], 'observed') and np.any(nodes[k].observed):
                continue
            check_node(ctx, nodes, k, '%s %s' % (case[1], k), tries)
    elif case[0] == 'node':
        _, name, state, k = case
        m = build(name, state)
        check_node(ctx, m.n, k, '%s %s' % (name, k))
        ctx.op()
        ctx.ok(True, 'x')
    else:
        f_query(ctx, case)
