"""C07: observation histories - only the final observations and factors matter."""
import itertools
import numpy as np
from bayespy import nodes as bn
from . import zoo, engine

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of observe/unobserve/initialise/update histories against a freshly built model'
RULE = ('for every model of the catalogue, every sequence of length <= d over its alphabet {observe(node, data A|B, every listed '
        'mask), unobserve(node), initialise from value/prior/parameters, update}; after every operation observed elements '
        'hold the moments of their data; after every history the continuation (two sweeps) equals that of a fresh model')
BOUND = dict(quick='13 models, <=14 operations, all histories of length <=3 (large alphabets: 2)', thorough='all histories of length <=4 (large: 3)')
ASSUMPTIONS = ['data values are fixed generic numbers per VERIF_SEED',
               'elements that have just been released keep no defined factor: they are reset from the prior before comparing']
CASE_TIMEOUT = 600


class H:
    def __init__(self):
        self.n, self.data, self.masks, self.value, self.par = {}, {}, {}, {}, {}

    def add(self, name, node, data=None, masks=(), value=None, par=None):
        node.name = name
        self.n[name] = node
        if data is not None:
            self.data[name] = data
            self.masks[name] = (None,) + tuple(masks)
        self.value[name] = value
        self.par[name] = par
        return node


MODELS = {}


def model(f):
    MODELS[f.__name__] = f
    return f


M3 = ((1, 0, 1), (0, 0, 1))


@model
def normal_gamma(r):
    h = H()
    mu = h.add('mu', bn.GaussianARD(.3, .1), value=.7)
    tau = h.add('tau', bn.Gamma(1.5, .8), data=[(1.7,), (0.4,)], value=2.)
    h.add('Y', bn.GaussianARD(mu, tau, plates=(3,)), data=[(r.randn(3),), (r.randn(3) + 3,)], masks=M3)
    return h


@model
def plates2(r):
    h = H()
    mu = h.add('mu', bn.GaussianARD(.3, .1, plates=(2, 1)), value=np.array([[.7], [.1]]), data=[([[1.], [2.]],)], masks=[((1,), (0,))])
    tau = h.add('tau', bn.Gamma(1.5, .8, plates=(3,)))
    h.add('Y', bn.GaussianARD(mu, tau), data=[(r.randn(2, 3),), (r.randn(2, 3) + 3,)], masks=[(1, 0, 1), ((1,), (0,)), ((1, 0, 0), (0, 1, 0))])
    return h


@model
def hierarchy(r):
    """an intermediate Gaussian that may be (partly) observed"""
    h = H()
    mu = h.add('mu', bn.GaussianARD(.3, .1))
    X = h.add('X', bn.GaussianARD(mu, 2., plates=(3,)), data=[(r.randn(3),), (r.randn(3) + 1,)], masks=M3, value=r.randn(3))
    h.add('Y', bn.GaussianARD(X, 1.5), data=[(r.randn(3),)], masks=M3[:1])
    return h


@model
def gmm(r):
    h = H()
    p = h.add('p', bn.Dirichlet([.7, 1.2]), data=[([.3, .7],)])
    Z = h.add('Z', bn.Categorical(p, plates=(3,)), data=[([0, 1, 1],), ([1, 0, 1],)], masks=M3)
    mu = h.add('mu', bn.GaussianARD(0, .2, plates=(2,)), value=np.array([-1., 1.5]))
    h.add('Y', bn.Mixture(Z, bn.GaussianARD, mu, 1.3), data=[(r.randn(3) * 2,)], masks=M3[1:])
    return h


@model
def mvn_wishart(r):
    h = H()
    mu = h.add('mu', bn.Gaussian(np.zeros(2), .3 * np.eye(2)), data=[(r.randn(2),)])
    L = h.add('L', bn.Wishart(3., np.eye(2)), data=[(zoo.spd(r, 2),)], value=zoo.spd(r, 2))
    h.add('Y', bn.Gaussian(mu, L, plates=(3,)), data=[(r.randn(3, 2),), (r.randn(3, 2) + 2,)], masks=M3[:1])
    return h


@model
def pca(r):
    h = H()
    X = h.add('X', bn.GaussianARD(0, 1, shape=(2,), plates=(1, 3)), data=[(r.randn(1, 3, 2),)], masks=[(1, 0, 1)], value=r.randn(1, 3, 2))
    C = h.add('C', bn.GaussianARD(0, .5, shape=(2,), plates=(2, 1)), data=[(r.randn(2, 1, 2),)], masks=[((1,), (0,))], value=r.randn(2, 1, 2))
    h.add('Y', bn.GaussianARD(bn.Dot(C, X), 1.4), data=[(r.randn(2, 3),)], masks=[((1, 0, 1), (0, 1, 1))])
    return h


@model
def beta_bern(r):
    h = H()
    p = h.add('p', bn.Beta([1.2, .7], plates=(2,)), data=[([.3, .8],)], masks=[(1, 0)], value=np.array([.4, .6]))
    h.add('Y', bn.Bernoulli(p, plates=(3, 2)), data=[([[0, 1], [1, 1], [0, 0]],), ([[1, 1], [1, 1], [0, 1]],)], masks=[((1,), (0,), (1,)), (0, 1)])
    return h


@model
def gamma_poisson(r):
    h = H()
    b = h.add('b', bn.Gamma(2., 1.), data=[(1.3,)])
    lam = h.add('lam', bn.Gamma(1.4, b, plates=(3,)), data=[([1., 2., .5],), ([.1, 2., 3.],)], masks=M3, value=np.array([.5, 1., 2.]))
    h.add('Y', bn.Poisson(lam), data=[([0, 2, 5],), ([1, 1, 0],)], masks=M3[:1])
    return h


@model
def dirichlet_multinomial(r):
    h = H()
    p = h.add('p', bn.Dirichlet([.7, 1.2, .5], plates=(2, 1)), data=[(zoo.simplex(r, 3, 2, 1),)], masks=[((0,), (1,))])
    h.add('Y', bn.Multinomial(3, p, plates=(2, 2)), data=[([[[1, 1, 1], [0, 3, 0]], [[2, 0, 1], [0, 0, 3]]],)], masks=[((1, 0), (0, 1)), (0, 1)])
    h.add('W', bn.Categorical(p[0]), data=[([2],), ([1],)])
    return h


@model
def hmm(r):
    h = H()
    a0 = h.add('a0', bn.Dirichlet([.7, 1.2]))
    A = h.add('A', bn.Dirichlet([[.9, .7], [.5, 1.2]]))
    Z = h.add('Z', bn.CategoricalMarkovChain(a0, A, states=3, plates=(2,)))
    mu = h.add('mu', bn.GaussianARD(0, .2, plates=(2,)), value=np.array([-1., 1.5]), data=[([0., 1.],)], masks=[(1, 0)])
    h.add('Y', bn.Mixture(Z, bn.GaussianARD, mu, 1.3), data=[(r.randn(2, 3) * 2,), (r.randn(2, 3),)], masks=[((1, 0, 1), (0, 1, 1)), ((0,), (1,))])
    return h


@model
def lssm(r):
    h = H()
    A = h.add('A', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)), value=r.randn(2, 2) * .5)
    X = h.add('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), A, np.array([1.2, .7]), n=3, plates=(2,)), data=[(r.randn(2, 3, 2),)], masks=[(0, 1)], value=r.randn(2, 3, 2))
    h.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([.7, -.4])), 2.), data=[(r.randn(2, 3),)], masks=[((1, 0, 1), (0, 1, 1)), (0, 1, 1)])
    return h


@model
def sliced(r):
    h = H()
    X = h.add('X', bn.GaussianARD(.2, .5, plates=(3,)), data=[(r.randn(3),)], masks=[(1, 0, 1)], value=r.randn(3))
    U = h.add('U', bn.GaussianARD(0., .3, plates=(1,)), data=[([.5],)])
    Y = h.add('Y', bn.GaussianARD(bn.Concatenate(X[::-1], U), .8), data=[(r.randn(4),)], masks=[(1, 0, 0, 1), (0, 1, 0, 0)])
    h.add('W', bn.GaussianARD(X[1:], 2.), data=[(r.randn(2),)], masks=[(1, 0)])
    return h


@model
def gate(r):
    h = H()
    Z = h.add('Z', bn.Categorical([.3, .7], plates=(3,)), data=[([0, 1, 1],)], masks=[(1, 0, 1)])
    X = h.add('X', bn.GaussianARD(.2, .5, plates=(2,)), data=[(r.randn(2),)], masks=[(1, 0)], value=r.randn(2))
    h.add('Y', bn.GaussianARD(bn.Gate(Z, X), 1.2), data=[(r.randn(3),), (r.randn(3) + 1,)], masks=M3[:1])
    return h


def build(name):
    return MODELS[name](engine.rng('c07', name))


def alphabet(name):
    h = build(name)
    ops = []
    for k in h.n:
        for di in range(len(h.data.get(k, ()))):
            for mi in range(len(h.masks.get(k, ()))):
                if di == 1 and mi > 1:
                    continue
                ops.append(['o', k, di, mi])
        if k in h.data:
            ops.append(['x', k])
        if h.value.get(k) is not None:
            ops.append(['v', k])
    for k in h.n:
        ops.append(['u', k])
    # one initialisation from the prior
    ops.append(['p', list(h.n)[0]])
    return ops


def cases(tier):
    for name in MODELS:
        ops = alphabet(name)
        if tier == 'quick':
            d = 3 if len(ops) <= 14 else 2
        else:
            d = 4 if len(ops) <= 12 else 3
        for i in range(len(ops)):
            if d >= 3:
                for j in range(len(ops)):
                    yield [name, [i, j], d]
            else:
                yield [name, [i], d]


def mask_of(h, k, mi):
    m = h.masks[k][mi]
    return True if m is None else np.array(m, dtype=bool)


def full(h, k, mask):
    return np.broadcast_to(mask, h.n[k].plates)


def apply(h, op, obs, last):
    k = op[1]
    n = h.n[k]
    if op[0] == 'o':
        n.observe(*h.data[k][op[2]], mask=mask_of(h, k, op[3]))
        old = obs.get(k)
        obs[k] = (op[2], op[3])
        last[k] = 'stale'
    elif op[0] == 'x':
        n.unobserve()
        if k in obs:
            last[k] = 'stale'
        obs.pop(k, None)
    elif op[0] == 'v':
        n.initialize_from_value(h.value[k])
        last[k] = 'value'
    elif op[0] == 'p':
        n.initialize_from_prior()
        last[k] = 'phi'
    elif op[0] == 'u':
        n.update()
        last[k] = 'phi'


def fixed_moments(name, k, di, mi, cache={}):
    key = (name, k, di, mi, engine.seed())
    if key not in cache:
        g = build(name)
        g.n[k].observe(*g.data[k][di], mask=mask_of(g, k, mi))
        cache[key] = g.n[k].get_moments()
    return cache[key]


def check_observed(ctx, name, h, obs, what):
    for k, (di, mi) in obs.items():
        ref = fixed_moments(name, k, di, mi)
        m = full(h, k, mask_of(h, k, mi))
        n = h.n[k]
        for i, (u, v) in enumerate(zip(n.get_moments(), ref)):
            sh = n.plates + n.dims[i]
            mm = m.reshape(m.shape + (1,) * len(n.dims[i]))
            a = np.where(mm, np.broadcast_to(u, sh), 0)
            b = np.where(mm, np.broadcast_to(v, sh), 0)
            ctx.close(a, b, 'observed element changed', 1e-12, 1e-12, '%s moment %d after %s' % (k, i, what))


def bound(h):
    return float(sum(np.sum(n.lower_bound_contribution()) for n in h.n.values()))


def fullmom(n):
    return [np.broadcast_to(u, n.plates + d).copy() for u, d in zip(n.get_moments(), n.dims)]


def continuation(h, stale):
    out = []
    for k in stale:
        h.n[k].initialize_from_prior()
    names = list(h.n)
    for sweep in range(2):
        for k in (names if sweep == 0 else names[::-1]):
            h.n[k].update()
            out.append(('bound after update %s' % k, bound(h)))
    for k in names:
        for i, u in enumerate(fullmom(h.n[k])):
            out.append(('moment %d of %s' % (i, k), u))
    return out


def isfull(h, obs, k):
    return k in obs and np.all(mask_of(h, k, obs[k][1]))


def run(ctx, case):
    name, pre, d = case
    ops = alphabet(name)
    ctx.traces = 0
    seen = set()
    for tail in itertools.product(range(len(ops)), repeat=d - len(pre)):
        seq = list(pre) + list(tail)
        h = build(name)
        obs, last = {}, {}
        label = []
        for oi in seq:
            op = ops[oi]
            label.append('-'.join(map(str, op)))
            apply(h, op, obs, last)
            ctx.op()
            check_observed(ctx, name, h, obs, '; '.join(label))
        what = '; '.join(label)
        # state merging: identical observable states have identical continuations
        key = engine.digest([sorted(obs.items()), sorted(last.items()),
                             [n.get_moments() for n in h.n.values()], [n.get_parameters() for n in h.n.values()],
                             [np.asarray(n.lower_bound_contribution()) for n in h.n.values()]])
        ctx.states.add(name + key)
        if key in seen:
            continue
        seen.add(key)
        ctx.traces += 1
        g = build(name)
        for k, (di, mi) in obs.items():
            g.n[k].observe(*g.data[k][di], mask=mask_of(g, k, mi))
        stale = [k for k in h.n if last.get(k) == 'stale' and not isfull(h, obs, k)]
        for k in g.n:
            if isfull(h, obs, k) or k in stale:
                continue
            if last.get(k) == 'value':
                g.n[k].initialize_from_value(g.value[k])
            elif last.get(k) == 'phi':
                g.n[k].set_parameters([np.copy(p) for p in h.n[k].get_parameters()])
        a = continuation(h, stale)
        b = continuation(g, stale)
        for (na, x), (nb, y) in zip(a, b):
            if not ctx.close(x, y, 'depends on the history: ' + na.split(' of ')[0].split(' after')[0], 1e-8, 1e-8, '%s | %s' % (na, what)):
                break
        check_observed(ctx, name, h, obs, what + ' (continued)')
        ctx.outcomes.add(name)
