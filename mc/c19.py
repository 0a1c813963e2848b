"""C19: invalid models and data are rejected, without partial effects."""
import itertools
import numpy as np
from bayespy import nodes as bn
from bayespy.inference import VB
from . import engine

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of invalid constructor, observe, initialise and engine calls x preceding histories on the real nodes, against a twin in which the call is not made'
RULE = ('every invalid call of the catalogue (per node type and argument: wrong shape, axis, sign, out of range value, not positive definite, wrong type, dependent parents, inconsistent plates or masks) after every '
        'history of the receiving nodes: the call raises, every observable (moments, natural parameters, cgf terms, masks, observations, plates, children, bound) of every node is as before, and updates, '
        'a valid call of the same kind and further updates give the same as in a twin model where the invalid call was not made; pairs of invalid calls in a row likewise; '
        'every tuple of 2-4 parents from pools of related variables (products, sums, stacks, mixtures, means with precisions): accepted exactly when no unknown variable is shared')
BOUND = dict(quick='all single invalid calls in 4 histories; pairs of invalid calls of one node', thorough='all ordered pairs')
ASSUMPTIONS = ['not-a-number values are not counted as invalid (they are used as place holders for missing data)', 'asymmetric matrices are not counted as invalid (only one triangle is used)']
CASE_TIMEOUT = 200


class World:
    """A few models with data whose nodes the catalogue uses."""

    def __init__(self):
        self.names = []
        r = np.random.RandomState(5)
        A = self.add
        A('s', bn.GaussianARD(.1, 1.2))
        A('t', bn.GaussianARD(-.2, .7, plates=(3,)))
        A('v', bn.GaussianARD(.3, .5, shape=(2,), plates=(3,)))
        A('w', bn.GaussianARD(.2, .5, shape=(3,)))
        A('tau', bn.Gamma(1.2, .8))
        A('taup', bn.Gamma(1.5, .9, plates=(2,)))
        A('Lam', bn.Wishart(3., np.identity(2)))
        A('p', bn.Dirichlet([1.2, .9, 2.]))
        A('b', bn.Beta([1.5, 2.]))
        A('z', bn.Categorical(self.p, plates=(3,)))
        A('z2', bn.Categorical([.3, .7], plates=(4,)))
        A('T', bn.Dirichlet([1.2, .9], plates=(2,)))
        A('det', bn.SumMultiply(',', self.s, self.t))
        A('mu3', bn.GaussianARD(0, .3, plates=(3,)))
        A('y', bn.GaussianARD(self.det, self.tau))
        A('Y', bn.Gaussian(self.v, self.Lam))
        A('n', bn.Poisson(self.taup))
        A('M', bn.Mixture(self.z, bn.GaussianARD, self.mu3, self.tau))
        A('C', bn.CategoricalMarkovChain([.5, .5], self.T, states=3))
        A('O', bn.Categorical(self.C._convert_to_dummy() if hasattr(self.C, '_convert_to_dummy') else [.4, .6], plates=(2,)))
        A('B', bn.Bernoulli(self.b, plates=(2,)))
        self.y.observe(r.randn(3), mask=[True, False, True])
        self.Y.observe(r.randn(3, 2))
        self.n.observe([2, 5])
        self.M.observe(r.randn(3))
        self.B.observe([1, 0])
        self.mu3.initialize_from_value([-1., 0., 1.])

    def add(self, name, node):
        setattr(self, name, node)
        node.name = name
        self.names.append(name)

    def all(self):
        return [(n, getattr(self, n)) for n in self.names]

    def updates(self):
        return [n for n, x in self.all() if hasattr(x, 'update')]


def observables(nodes):
    out = {}
    for n, x in nodes:
        d = {}
        for k in ('u', 'phi'):
            if hasattr(x, k):
                d[k] = [np.array(a, dtype=float) for a in getattr(x, k)]
        for k in ('g', 'f', 'mask', 'observed'):
            if hasattr(x, k):
                d[k] = [np.array(getattr(x, k), dtype=float)]
        d['moments'] = [np.array(a, dtype=float) for a in x.get_moments()]
        d['plates'] = x.plates
        d['dims'] = x.dims
        d['children'] = sorted((str(type(c).__name__), c.name if isinstance(c.name, str) else '', i) for c, i in x.children)
        d['parents'] = [type(p).__name__ for p in x.parents]
        d['multiplier'] = x.plates_multiplier
        for i, p in enumerate(x.parents):
            d['parent %d' % i] = [np.array(a, dtype=float) for a in p.get_moments()]
            d['parent children %d' % i] = len(p.children)
        if hasattr(x, 'lower_bound_contribution'):
            try:
                d['bound'] = [np.array(x.lower_bound_contribution(), dtype=float)]
            except Exception as e:
                d['bound'] = '%s: %s' % (type(e).__name__, str(e)[:80])
        out[n] = d
    return out


def differences(a, b, exact=True):
    """names of what differs"""
    out = []
    for n in a:
        for k in a[n]:
            x, y = a[n][k], b[n][k]
            if type(x) is not type(y):
                out.append('%s of %s' % (k, n))
            elif isinstance(x, list) and x and isinstance(x[0], np.ndarray):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p.shape != q.shape or not (np.array_equal(p, q, equal_nan=True) if exact else np.allclose(p, q, rtol=1e-10, atol=1e-12, equal_nan=True)):
                        out.append('%s of %s' % (k, n))
                        break
            elif x != y:
                out.append('%s of %s' % (k, n))
    return out


# ------------------------------------------------------------------ constructors
# name -> (build(W, **args), valid args(W), [(label, args(W) overriding)])
def catalogue():
    I2 = np.identity(2)
    NPD = np.array([[1., 2.], [2., 1.]])
    out = {}

    def add(name, build, valid, bad):
        out[name] = (build, valid, bad)
    one = lambda **kw: (lambda W: kw)
    add('GaussianARD', lambda W, mu, alpha, **k: bn.GaussianARD(mu, alpha, **k), lambda W: dict(mu=W.t, alpha=W.tau), [
        ('negative precision', one(alpha=-1.)), ('one negative precision', one(alpha=[1., 2., -1.])), ('precision of other length', one(alpha=np.ones(4))),
        ('gaussian as precision', lambda W: dict(alpha=W.s)), ('probabilities as precision', lambda W: dict(alpha=W.p)), ('matrix as precision', lambda W: dict(alpha=W.Lam)),
        ('gamma as mean', lambda W: dict(mu=W.tau, alpha=1.)), ('probabilities as mean', lambda W: dict(mu=W.p)),
        ('text as mean', one(mu='a')), ('text as precision', one(alpha='b')), ('nothing as mean', one(mu=None)),
        ('plates of other length', one(plates=(4,))), ('too few plates', one(plates=())), ('plates too short', one(plates=(1,))),
        ('mean and precision do not broadcast', lambda W: dict(mu=W.t, alpha=W.taup)),
        ('shape different from the mean', lambda W: dict(mu=W.v, alpha=1., ndim=1, shape=(3,))),
        ('ndim larger than the mean', lambda W: dict(mu=np.zeros(2), alpha=1., ndim=2)),
        ('unknown argument', one(foo=1)),
    ])
    add('GaussianARD vector', lambda W, mu, alpha, **k: bn.GaussianARD(mu, alpha, ndim=1, **k), lambda W: dict(mu=W.v, alpha=W.taup), [
        ('precision of other length', lambda W: dict(alpha=np.ones(3))), ('negative', one(alpha=[1., -1.])), ('shape of other length', one(shape=(3,))), ('plates of other length', one(plates=(4,))),
    ])
    add('Gaussian', lambda W, mu, L, **k: bn.Gaussian(mu, L, **k), lambda W: dict(mu=W.v, L=W.Lam), [
        ('not positive definite', one(L=NPD)), ('negative definite', one(L=-I2)), ('precision not square', one(L=np.ones((2, 3)))), ('precision of other size', one(L=np.identity(3))),
        ('vector as precision', one(L=np.ones(2))), ('gamma as precision', lambda W: dict(L=W.tau)), ('gaussian as precision', lambda W: dict(L=W.v)),
        ('mean of other length', one(mu=np.zeros(3))), ('scalar mean', one(mu=0.)), ('scalar node as mean', lambda W: dict(mu=W.s)), ('gamma as mean', lambda W: dict(mu=W.taup)),
        ('plates of other length', one(plates=(2,))), ('text', one(mu='abc')), ('text precision', one(L='abc')), ('one of two precisions invalid', one(mu=np.zeros(2), L=np.array([I2, NPD]))),
    ])
    add('Gamma', lambda W, a, b, **k: bn.Gamma(a, b, **k), lambda W: dict(a=1.5, b=W.tau), [
        ('negative shape', one(a=-1.)), ('zero shape', one(a=0.)), ('one negative shape', one(a=[1., -2.])), ('negative rate', one(b=-1.)), ('gaussian as rate', lambda W: dict(b=W.s)),
        ('gamma as shape', lambda W: dict(a=W.taup)), ('gaussian as shape', lambda W: dict(a=W.s)), ('probabilities as rate', lambda W: dict(b=W.p)),
        ('do not broadcast', lambda W: dict(a=np.ones(3), b=W.taup)), ('plates of other length', lambda W: dict(b=W.taup, plates=(3,))), ('too few plates', lambda W: dict(b=W.taup, plates=())), ('text', one(a='x')), ('text rate', one(b='x')),
    ])
    add('Wishart', lambda W, n, V, **k: bn.Wishart(n, V, **k), lambda W: dict(n=3., V=W.Lam), [
        ('too few degrees of freedom', one(n=.5)), ('negative degrees of freedom', one(n=-2.)), ('scale not positive definite', one(V=NPD)), ('scale not square', one(V=np.ones((2, 3)))),
        ('vector as scale', one(V=np.ones(2))), ('gaussian as scale', lambda W: dict(V=W.v)), ('gamma as scale', lambda W: dict(V=W.tau)), ('gamma as degrees of freedom', lambda W: dict(n=W.tau)),
        ('do not broadcast', one(n=[3., 4.], V=np.array([I2] * 3))), ('text', one(V='x')), ('plates of other length', one(n=[3., 4.], plates=(3,))),
    ])
    add('Dirichlet', lambda W, a, **k: bn.Dirichlet(a, **k), lambda W: dict(a=[1., 2., 3.]), [
        ('negative', one(a=[1., -1., 2.])), ('scalar', one(a=2.)), ('gamma', lambda W: dict(a=W.taup)), ('probabilities', lambda W: dict(a=W.p)), ('text', one(a='xyz')), ('plates of other length', one(a=np.ones((2, 3)), plates=(3,))),
        ('zero', one(a=[1., 0., 2.])), ('too few plates', one(a=np.ones((2, 3)), plates=())),
    ])
    add('Beta', lambda W, a, **k: bn.Beta(a, **k), lambda W: dict(a=[1., 2.]), [
        ('three parameters', one(a=[1., 2., 3.])), ('one parameter', one(a=[1.])), ('negative', one(a=[1., -2.])), ('scalar', one(a=1.)), ('gamma', lambda W: dict(a=W.taup)), ('plates of other length', one(a=np.ones((2, 2)), plates=(3,))),
    ])
    add('Categorical', lambda W, p, **k: bn.Categorical(p, **k), lambda W: dict(p=W.p), [
        ('does not sum to one', one(p=[.3, .3])), ('sums that compensate', one(p=[[.5, .7], [.5, .3]])), ('sums to two', one(p=[1., 1.])), ('negative', one(p=[1.5, -.5])), ('scalar', one(p=.5)), ('gaussian', lambda W: dict(p=W.w)), ('gamma', lambda W: dict(p=W.taup)), ('categorical', lambda W: dict(p=W.z)),
        ('one row invalid', one(p=[[.5, .5], [.9, .9]])), ('plates of other length', lambda W: dict(p=W.T, plates=(3,))), ('too few plates', lambda W: dict(p=W.T, plates=())), ('text', one(p='ab')),
    ])
    add('Bernoulli', lambda W, p, **k: bn.Bernoulli(p, **k), lambda W: dict(p=W.b), [
        ('negative', one(p=-.1)), ('larger than one', one(p=1.1)), ('one of two', one(p=[.5, 1.2])), ('gaussian', lambda W: dict(p=W.s)), ('gamma', lambda W: dict(p=W.tau)), ('three classes', lambda W: dict(p=W.p)), ('plates of other length', one(p=[.5, .4], plates=(3,))), ('text', one(p='a')),
    ])
    add('Binomial', lambda W, n, p, **k: bn.Binomial(n, p, **k), lambda W: dict(n=4, p=W.b), [
        ('negative trials', one(n=-1)), ('fractional trials', one(n=1.5)), ('one of two negative', one(n=[3, -1])), ('probability', one(p=1.5)), ('gamma', lambda W: dict(p=W.tau)), ('plates of other length', one(n=[1, 2], plates=(3,))),
        ('do not broadcast', one(n=[1, 2], p=[.1, .2, .3])), ('text', one(n='a')),
    ])
    add('Multinomial', lambda W, n, p, **k: bn.Multinomial(n, p, **k), lambda W: dict(n=4, p=W.p), [
        ('negative trials', one(n=-1)), ('fractional trials', one(n=1.5)), ('does not sum to one', one(p=[.5, .9])), ('sums that compensate', one(p=[[.5, .7], [.5, .3]])), ('negative', one(p=[1.5, -.5])), ('scalar', one(p=.5)), ('gaussian', lambda W: dict(p=W.w)),
        ('plates of other length', one(n=[1, 2], plates=(3,))), ('do not broadcast', lambda W: dict(n=[1, 2, 3], p=W.T)),
    ])
    add('Poisson', lambda W, l, **k: bn.Poisson(l, **k), lambda W: dict(l=W.tau), [
        ('negative', one(l=-1.)), ('one of two', one(l=[1., -1.])), ('gaussian', lambda W: dict(l=W.s)), ('probabilities', lambda W: dict(l=W.p)), ('plates of other length', lambda W: dict(l=W.taup, plates=(3,))), ('too few plates', lambda W: dict(l=W.taup, plates=())), ('text', one(l='a')),
    ])
    add('CategoricalMarkovChain', lambda W, p0, A, **k: bn.CategoricalMarkovChain(p0, A, **k), lambda W: dict(p0=[.5, .5], A=W.T, states=3), [
        ('initial state of other length', one(p0=[.3, .3, .4])), ('initial state does not sum to one', one(p0=[.5, .9])), ('transitions not square', one(A=np.ones((2, 3)) / 3, p0=[.5, .5])), ('transitions do not sum to one', one(A=np.ones((2, 2)))), ('transitions whose sums compensate', one(A=np.array([[.5, .7], [.5, .3]]))),
        ('transitions a vector', one(A=[.5, .5])), ('negative transitions', one(A=[[1.5, -.5], [.5, .5]])), ('gaussian as transitions', lambda W: dict(A=W.v)), ('gaussian as initial state', lambda W: dict(p0=W.w)),
        ('no states', one(states=0)), ('negative states', one(states=-2)), ('number of states unknown', one(states=None)), ('number of states contradicts', one(A=np.ones((3, 2, 2)) / 2, states=3)),
        ('dependent parents', lambda W: dict(p0=W.T[0], A=W.T)), ('plates of other length', one(p0=np.ones((3, 2)) / 2, plates=(2,))),
    ])
    A2 = .5 * I2
    add('GaussianMarkovChain', lambda W, mu, L, A, nu, **k: bn.GaussianMarkovChain(mu, L, A, nu, **k), lambda W: dict(mu=np.zeros(2), L=W.Lam, A=A2, nu=W.taup, n=3), [
        ('mean of other length', one(mu=np.zeros(3))), ('scalar mean', one(mu=0.)), ('precision of other size', one(L=np.identity(3))), ('precision not positive definite', one(L=NPD)), ('dynamics of other size', one(A=np.identity(3))),
        ('dynamics not square', one(A=np.ones((2, 3)))), ('innovation of other length', one(nu=np.ones(3))), ('negative innovation', one(nu=[1., -1.])), ('gaussian as innovation', lambda W: dict(nu=W.v)),
        ('gamma as mean', lambda W: dict(mu=W.taup)), ('length unknown', one(n=None)), ('length contradicts', one(A=np.array([A2] * 3), n=3)), ('length zero', one(n=0)), ('gamma as precision', lambda W: dict(L=W.tau)),
        ('plates of other length', one(mu=np.zeros((3, 2)), plates=(2,))), ('do not broadcast', one(mu=np.zeros((3, 2)), L=np.array([I2, I2]))),
    ])
    add('VaryingGaussianMarkovChain', lambda W, B, S, **k: bn.VaryingGaussianMarkovChain(np.zeros(2), I2, B, S, np.ones(2), **k), lambda W: dict(B=bn.GaussianARD(0, 1, shape=(2, 2), plates=(2,)), S=np.ones((2, 2)), n=3), [
        ('dynamics of other size', lambda W: dict(B=bn.GaussianARD(0, 1, shape=(3, 2), plates=(3,)))), ('signals of other length', one(S=np.ones((2, 3)))), ('signals too long', one(S=np.ones((5, 2)))), ('signals a scalar', one(S=1.)),
        ('gamma as signals', lambda W: dict(S=W.tau)), ('gamma as dynamics', lambda W: dict(B=W.tau)),
    ])
    add('SwitchingGaussianMarkovChain', lambda W, B, Z, **k: bn.SwitchingGaussianMarkovChain(np.zeros(2), I2, B, Z, np.ones(2), **k),
        lambda W: dict(B=bn.GaussianARD(0, 1, shape=(2,), plates=(3, 2)), Z=W.z, n=4), [
        ('classes of other number', lambda W: dict(Z=W.z2, n=5)), ('gaussian as classes', lambda W: dict(Z=W.t)), ('length contradicts', one(n=8)), ('gamma as dynamics', lambda W: dict(B=W.tau)), ('dynamics of other size', lambda W: dict(B=bn.GaussianARD(0, 1, shape=(3,), plates=(3, 3)))),
    ])
    add('GaussianGamma', lambda W, mu, L, a, b, **k: bn.GaussianGamma(mu, L, a, b, **k), lambda W: dict(mu=np.zeros(2), L=I2, a=1., b=W.tau), [
        ('negative shape', one(a=-1.)), ('negative rate', one(b=-1.)), ('not positive definite', one(L=NPD)), ('precision of other size', one(L=np.identity(3))), ('gaussian as rate', lambda W: dict(b=W.s)), ('gamma as mean', lambda W: dict(mu=W.taup)),
        ('do not broadcast', one(a=np.ones(3), b=np.ones(2))), ('plates of other length', one(a=np.ones(3), plates=(2,))), ('gamma as shape', lambda W: dict(a=W.tau)),
    ])
    add('Mixture', lambda W, z, cls, *a, mu, tau, **k: bn.Mixture(z, cls, mu, tau, **k), lambda W: dict(z=W.z, cls=bn.GaussianARD, mu=W.mu3, tau=W.tau), [
        ('clusters of other number', lambda W: dict(mu=W.taup if False else np.zeros(2))), ('gaussian as assignments', lambda W: dict(z=W.t)), ('gamma as assignments', lambda W: dict(z=W.tau)), ('cluster plate is not negative', one(cluster_plate=0)),
        ('cluster plate does not exist', one(cluster_plate=-3, mu=np.zeros(3), tau=1.)), ('negative precision', one(tau=-1.)), ('wrong type of mean', lambda W: dict(mu=W.p)), ('plates of other length', one(plates=(4,))),
        ('gaussian as precision', lambda W: dict(tau=W.s)), ('dependent parents', lambda W: dict(mu=W.mu3, tau=W.tau, z=W.z, cls=bn.GaussianARD) and dict(cls=bn.Categorical, z=W.z, mu=None, tau=None)),
    ])
    add('SumMultiply', lambda W, *a, s, x, y, **k: bn.SumMultiply(s, x, y, **k), lambda W: dict(s='i,i', x=W.v, y=np.ones(2)), [
        ('length of other length', one(y=np.ones(3))), ('unknown output', one(s='i,i->j')), ('too many keys', one(s='ij,i')), ('too few parts', one(s='i')), ('repeated key', one(s='ii,i')), ('gamma', lambda W: dict(x=W.tau, s=',')), ('probabilities', lambda W: dict(x=W.p)),
        ('dependent', lambda W: dict(x=W.v, y=W.v)), ('dependent through another node', lambda W: dict(s=',', x=W.s, y=W.det)), ('plates do not broadcast', lambda W: dict(s='i,i', x=W.v, y=np.ones((2, 2)))), ('text', one(y='a')),
    ])
    add('Dot', lambda W, x, y, **k: bn.Dot(x, y, **k), lambda W: dict(x=W.v, y=np.ones(2)), [
        ('other length', one(y=np.ones(3))), ('dependent', lambda W: dict(y=W.v)), ('gamma', lambda W: dict(x=W.taup)), ('plates do not broadcast', one(y=np.ones((2, 2)))),
    ])
    add('Add', lambda W, x, y, **k: bn.Add(x, y, **k), lambda W: dict(x=W.v, y=np.ones(2)), [
        ('other length', one(y=np.ones(3))), ('gamma', lambda W: dict(x=W.taup)), ('scalar and vector', lambda W: dict(y=W.s)), ('plates do not broadcast', one(y=np.ones((2, 2)))), ('dependent', lambda W: dict(y=W.v)), ('dependent through another node', lambda W: dict(x=W.t, y=W.det)),
    ])
    add('Gate', lambda W, z, x, **k: bn.Gate(z, x, **k), lambda W: dict(z=W.z, x=W.mu3), [
        ('other number of classes', lambda W: dict(z=W.z2)), ('gaussian as class', lambda W: dict(z=W.t)), ('plate does not exist', lambda W: dict(gated_plate=-2)), ('plate is not negative', one(gated_plate=0)), ('no plates', lambda W: dict(x=W.s)),
        ('class index out of range', one(z=3)), ('negative class index', one(z=-1)), ('fractional class index', one(z=.5)),
    ])
    add('Take', lambda W, x, i, **k: bn.Take(x, i, **k), lambda W: dict(x=W.t, i=[0, 2, 2]), [
        ('out of range', one(i=[0, 3])), ('negative out of range', one(i=[-4])), ('fractional', one(i=[.5])), ('axis does not exist', one(plate_axis=-2)), ('axis is not negative', one(plate_axis=0)), ('no plates', lambda W: dict(x=W.s)),
    ])
    add('Slice', lambda W, x, i: x[i], lambda W: dict(x=W.t, i=slice(0, 2)), [
        ('out of range', one(i=3)), ('too many indices', one(i=(0, 0))), ('text', one(i='a')), ('array', one(i=np.array([0, 1]))), ('no plates', lambda W: dict(x=W.s, i=0)), ('fractional', one(i=.5)), ('empty', one(i=slice(3, 3))),
    ])
    add('Concatenate', lambda W, x, y, **k: bn.Concatenate(x, y, **k), lambda W: dict(x=W.t, y=W.mu3), [
        ('another type', lambda W: dict(y=W.taup)), ('matrix variables', lambda W: dict(x=W.v, y=W.t)), ('no plates', lambda W: dict(y=W.s)), ('axis does not exist', one(axis=-2)), ('plates do not match', lambda W: dict(x=bn.GaussianARD(0, 1, plates=(4, 3)), y=bn.GaussianARD(0, 1, plates=(2, 3)))),
    ])
    add('ConcatGaussian', lambda W, x, y: bn.ConcatGaussian(x, y), lambda W: dict(x=W.v, y=W.w), [
        ('scalar', lambda W: dict(y=W.s)), ('gamma', lambda W: dict(y=W.taup)), ('plates do not broadcast', lambda W: dict(y=bn.GaussianARD(0, 1, shape=(2,), plates=(2,)))), ('dependent', lambda W: dict(y=W.v)),
    ])
    add('diagonal', lambda W, x: x.as_diagonal_wishart(), lambda W: dict(x=W.taup), [('no plates', lambda W: dict(x=W.tau))])
    add('Concentration', lambda W, D, **k: bn.DirichletConcentration(D, **k), lambda W: dict(D=3), [('regularisation of other length', one(regularization=(np.ones(2), 1))), ('one regularisation', one(regularization=(1.,))), ('regularisation counts of vector', one(regularization=(np.ones(3), np.ones(2))))])
    return out


HISTORIES = ('fresh', 'updated', 'extra', 'masked')


def history(h):
    W = World()
    if h != 'fresh':
        for n in W.updates():
            getattr(W, n).update()
    if h == 'extra':
        # an additional valid child of many nodes
        W.add('e1', bn.GaussianARD(bn.SumMultiply('i,i', W.v, np.ones(2)), W.tau))
        W.e1.observe(np.arange(3.))
        W.add('e2', bn.Gamma(2., W.tau, plates=(2,)))
    if h == 'masked':
        W.M.observe(np.arange(3.), mask=[False, True, False])
        W.Y.observe(np.zeros((3, 2)), mask=[True, False, False])
        W.n.unobserve()
        for n in ('mu3', 'v', 'z', 'tau', 'taup', 'n'):
            getattr(W, n).update()
    return W


def continue_(W):
    for _ in range(2):
        for n in W.updates():
            getattr(W, n).update()
    return observables(W.all())


def f_construct(ctx, case):
    _, name, h = case
    build, valid, bad = catalogue()[name]
    twin = history(h)
    try:
        tn = build(twin, **valid(twin))
    except Exception as e:
        ctx.fail('the valid call is rejected', '%s: %s %s' % (name, type(e).__name__, str(e)[:200]))
        return
    twin.add('new', tn)
    mid = observables(twin.all())
    want = continue_(twin)
    labels = [l for l, _ in bad]
    pairs = [(i,) for i in range(len(bad))]
    pairs += [(i, (i + 1) % len(bad)) for i in range(len(bad))] if ctx.tier == 'quick' else list(itertools.permutations(range(len(bad)), 2))
    ctx.traces = 0
    for seq in pairs:
        W = history(h)
        old = observables(W.all())
        lab = '%s after history %s: %s' % (name, h, ' then '.join(labels[i] for i in seq))
        ctx.traces += 1
        rejected = True
        for i in seq:
            args = dict(valid(W))
            args.update(bad[i][1](W))
            ctx.op()
            try:
                made = build(W, **args)
            except Exception as e:
                ctx.outcomes.add(type(e).__name__)
                continue
            ctx.fail('an invalid model is accepted', lab)
            rejected = False
            break
        if not rejected:
            continue
        d = differences(old, observables(W.all()))
        if not ctx.ok(not d, 'a rejected constructor has effects', '%s: %s' % (lab, d[:6])):
            continue
        try:
            W.add('new', build(W, **valid(W)))
            d = differences(mid, observables(W.all()))
            ctx.ok(not d, 'a valid call after a rejected one', '%s: %s' % (lab, d[:6]))
            d = differences(want, continue_(W), exact=False)
            ctx.ok(not d, 'inference after a rejected constructor', '%s: %s' % (lab, d[:6]))
        except Exception as e:
            ctx.fail('inference after a rejected constructor raises', '%s: %s %s' % (lab, type(e).__name__, str(e)[:200]))
        ctx.state(name, h, seq)


# ------------------------------------------------------------------ data
def data_models():
    """name -> (build() -> (target, others), valid data, [(label, data, mask)], valid values for initialisation, [(label, value)])"""
    out = {}
    I2 = np.identity(2)
    NPD = np.array([[1., 2.], [2., 1.]])

    def add(name, build, good, bad, init=True, plates=(3,)):
        out[name] = (build, good, bad, init, plates)

    def shapes(good, plates=(3,)):
        g = np.asarray(good)
        vs = [('axis too short', g[:-1]), ('axis too long', np.concatenate([g, g[:1]])), ('extra axis', g[None]), ('extra unit axis at the end', g[..., None]), ('first plate only', g[:1]), ('no plates', g[0])]
        if g.ndim > 1:
            vs += [('variable axis too short', g[..., :-1]), ('variable axis too long', np.concatenate([g, g[..., :1]], axis=-1))]
        return vs
    TEXT = [('text', 'abc'), ('nothing', None)]
    r = np.random.RandomState(3)

    def ard():
        m = bn.GaussianARD(0, .5)
        t = bn.Gamma(1., 1.)
        x = bn.GaussianARD(m, t, plates=(3,))
        y = bn.GaussianARD(x, 2.)
        y.observe([.3, .1, -.4])
        return x, dict(m=m, t=t, y=y)
    g = r.randn(3)
    add('GaussianARD', ard, g, [v for v in shapes(g) if v[0] != 'extra unit axis at the end'] + [('column', g[:, None])] + TEXT)

    def ard2():
        m = bn.GaussianARD(0, .5, shape=(2,))
        x = bn.GaussianARD(m, 1., ndim=1, plates=(3,))
        return x, dict(m=m)
    g = r.randn(3, 2)
    add('GaussianARD vector', ard2, g, shapes(g) + TEXT)

    def gauss():
        m = bn.GaussianARD(0, .5, shape=(2,))
        L = bn.Wishart(3, I2)
        x = bn.Gaussian(m, L, plates=(3,))
        return x, dict(m=m, L=L)
    add('Gaussian', gauss, g, shapes(g) + TEXT)

    def gamma():
        b = bn.Gamma(1., 1.)
        x = bn.Gamma(2., b, plates=(3,))
        y = bn.Poisson(x)
        y.observe([1, 0, 4])
        return x, dict(b=b, y=y)
    g = np.array([.5, 1., 2.])
    add('Gamma', gamma, g, shapes(g)[:3] + [('negative', [1., -1., 2.]), ] + TEXT)

    def wish():
        V = bn.Wishart(3, I2)
        x = bn.Wishart(4, V, plates=(3,))
        return x, dict(V=V)
    g = np.array([I2, 2 * I2, I2 + .3])
    add('Wishart', wish, g, shapes(g)[:3] + [('not positive definite', [I2, NPD, I2]), ('vectors', np.ones((3, 2)))] + TEXT)

    def diri():
        c = bn.DirichletConcentration(2)
        x = bn.Dirichlet(c, plates=(3,))
        y = bn.Categorical(x)
        y.observe([0, 1, 1])
        return x, dict(c=c, y=y)
    g = np.array([[.3, .7], [.5, .5], [.9, .1]])
    add('Dirichlet', diri, g, shapes(g)[:3] + [('sum', g * 2), ('one sum', [[.3, .7], [.5, .6], [.9, .1]]), ('sums that compensate', [[.3, .7], [.5, .6], [.8, .1]]), ('negative', [[1.3, -.3], [.5, .5], [.9, .1]]), ('three classes', np.ones((3, 3)) / 3)] + TEXT)

    def beta():
        x = bn.Beta([1., 2.], plates=(3,))
        y = bn.Bernoulli(x)
        y.observe([0, 1, 1])
        return x, dict(y=y)
    g = np.array([.2, .5, .9])
    add('Beta', beta, g, shapes(g)[:3] + [('negative', [-.1, .5, .5]), ('larger than one', [.1, 1.5, .5])] + TEXT)

    def cat():
        p = bn.Dirichlet([1., 1., 1.])
        x = bn.Categorical(p, plates=(3,))
        m = bn.GaussianARD(0, 1., plates=(3,))
        y = bn.Mixture(x, bn.GaussianARD, m, 1.)
        y.observe([-1., 0., 1.])
        m.initialize_from_value([-1., .2, 1.])
        return x, dict(p=p, m=m, y=y)
    g = np.array([0, 2, 1])
    add('Categorical', cat, g, shapes(g)[:3] + [('too large', [0, 3, 1]), ('negative', [0, -1, 1]), ('fractional', [0, .5, 1])] + TEXT)

    def bern():
        p = bn.Beta([1., 1.])
        x = bn.Bernoulli(p, plates=(3,))
        return x, dict(p=p)
    g = np.array([0, 1, 1])
    add('Bernoulli', bern, g, shapes(g)[:3] + [('too large', [0, 2, 1]), ('negative', [0, -1, 1]), ('fractional', [0, .5, 1])] + TEXT)

    def bino():
        p = bn.Beta([1., 1.])
        x = bn.Binomial([4, 3, 4], p, plates=(3,))
        return x, dict(p=p)
    g = np.array([0, 1, 4])
    add('Binomial', bino, g, shapes(g)[:3] + [("too large", [5, 2, 1]), ('negative', [0, -1, 1]), ('fractional', [0, .5, 1])] + TEXT)

    def multi():
        p = bn.Dirichlet([1., 1., 1.])
        x = bn.Multinomial(4, p, plates=(3,))
        return x, dict(p=p)
    g = np.array([[0, 1, 3], [4, 0, 0], [1, 2, 1]])
    add('Multinomial', multi, g, shapes(g)[:3] + [('sum', g * 2), ('one sum', g + np.array([[0, 0, 0], [1, 0, 0], [0, 0, 0]])), ('negative', [[0, 5, -1], [4, 0, 0], [1, 2, 1]]), ('fractional', [[.5, .5, 3], [4, 0, 0], [1, 2, 1]]), ('two classes', [[1, 3], [2, 2], [0, 4]])] + TEXT)

    def pois():
        l = bn.Gamma(1., 1.)
        x = bn.Poisson(l, plates=(3,))
        return x, dict(l=l)
    g = np.array([0, 1, 4])
    add('Poisson', pois, g, shapes(g)[:3] + [('negative', [0, -1, 1]), ('fractional', [0, .5, 1])] + TEXT)

    def cmc():
        A = bn.Dirichlet([1., 1.], plates=(2,))
        x = bn.CategoricalMarkovChain([.5, .5], A, states=4, plates=(3,))
        return x, dict(A=A)
    add('CategoricalMarkovChain', cmc, None, [], init=False)

    def gmc():
        A = bn.GaussianARD(0, 1, shape=(2,), plates=(2,))
        x = bn.GaussianMarkovChain(np.zeros(2), I2, A, np.ones(2), n=4, plates=(3,))
        return x, dict(A=A)
    g = r.randn(3, 4, 2)
    add('GaussianMarkovChain', gmc, g, shapes(g) + [('time axis too short', g[:, :-1]), ('time axis too long', np.concatenate([g, g[:, :1]], axis=1))] + TEXT)

    def gg():
        b = bn.Gamma(1., 1.)
        x = bn.GaussianGamma(np.zeros(2), I2, 1., b, plates=(3,))
        y = bn.GaussianARD(x, 1., ndim=1)
        y.observe(r0)
        return x, dict(b=b, y=y)
    r0 = r.randn(3, 2)
    add('GaussianGamma', gg, None, [], init=False)

    def mix():
        z = bn.Categorical([.3, .7], plates=(3,))
        m = bn.GaussianARD(0, 1., plates=(2,))
        x = bn.Mixture(z, bn.GaussianARD, m, 1.)
        m.initialize_from_value([-1., 1.])
        return x, dict(z=z, m=m)
    g = r.randn(3)
    add('Mixture', mix, g, shapes(g)[:3] + [('column', g[:, None])] + TEXT)

    def mixp():
        z = bn.Categorical([.3, .7], plates=(3,))
        l = bn.Gamma(1., 1., plates=(2,))
        x = bn.Mixture(z, bn.Poisson, l)
        l.initialize_from_value([1., 2.])
        return x, dict(z=z, l=l)
    g = np.array([0, 3, 1])
    add('Mixture of Poisson', mixp, g, shapes(g)[:3] + [('negative', [0, -1, 1]), ('fractional', [0, .5, 1])] + TEXT, init=False)

    def mixc():
        z = bn.Categorical([.3, .7], plates=(3,))
        p = bn.Dirichlet([1., 1., 1.], plates=(2,))
        x = bn.Mixture(z, bn.Categorical, p)
        p.initialize_from_value([[.2, .2, .6], [.6, .3, .1]])
        return x, dict(z=z, p=p)
    g = np.array([0, 2, 1])
    add('Mixture of Categorical', mixc, g, shapes(g)[:3] + [('negative', [0, -1, 1]), ('too large', [0, 3, 1]), ('fractional', [0, .5, 1])] + TEXT, init=False)
    return out


BADMASK = [('mask too long', [True] * 4), ('mask too short', [True, False]), ('extra axis', np.ones((2, 3), bool)), ('column', np.ones((3, 1), bool)), ('text', 'abc'), ('matrix', np.ones((1, 3), bool))]
DATAHIST = ('fresh', 'updated', 'observed', 'partial', 'unobserved')


def data_history(build, good, h):
    x, others = build()
    nodes = [('x', x)] + list(others.items())

    def up():
        for _, n in nodes[::-1]:
            if hasattr(n, 'update'):
                n.update()
    if h != 'fresh':
        up()
    if h in ('observed', 'unobserved'):
        x.observe(good)
        up()
    if h == 'partial':
        x.observe(good, mask=[True, False, True])
        up()
    if h == 'unobserved':
        x.unobserve()
        up()
    return nodes, up


def f_observe(ctx, case):
    _, name, h = case
    build, good, bad, init, plates = data_models()[name]
    if good is None:
        ctx.ok(True, 'cannot be observed')
        return
    good2 = good[::-1]

    def second(nodes, up, mask):
        nodes[0][1].observe(good2, mask=mask)
        up()
        return observables(nodes)
    ctx.traces = 0
    for mask in (True, [True, True, True], [False, True, True]):
        nodes, up = data_history(build, good, h)
        up()
        want1 = observables(nodes)
        want2 = second(nodes, up, mask)
        calls = [(l, d, mask) for l, d in bad] + ([(l, good, m) for l, m in BADMASK] if mask is True else [])
        if mask is not True:
            # the element which is invalid must not be missing
            calls = [c for c in calls if c[0] not in ('negative', 'too large') or True]
        for label, d, m in calls:
            nodes, up = data_history(build, good, h)
            x = nodes[0][1]
            old = observables(nodes)
            lab = '%s after %s: %s, mask %s' % (name, h, label, np.asarray(m).tolist())
            if invalid_only_at_missing(name, label, m):
                continue
            ctx.op()
            ctx.traces += 1
            try:
                x.observe(d, mask=m)
            except Exception as e:
                ctx.outcomes.add(type(e).__name__)
            else:
                ctx.fail('invalid data is accepted', lab)
                continue
            df = differences(old, observables(nodes))
            if not ctx.ok(not df, 'rejected data has effects', '%s: %s' % (lab, df[:6])):
                continue
            up()
            df = differences(want1, observables(nodes), exact=False)
            ctx.ok(not df, 'inference after rejected data', '%s: %s' % (lab, df[:6]))
            df = differences(want2, second(nodes, up, mask), exact=False)
            ctx.ok(not df, 'valid data after rejected data', '%s: %s' % (lab, df[:6]))
            ctx.state(name, h, label, np.asarray(m).tolist())


def invalid_only_at_missing(name, label, m):
    """the invalid element is the first one in some cases"""
    return m is not True and not np.all(m) and label in ('negative', 'too large', 'fractional', 'one sum', 'larger than one')


def f_init(ctx, case):
    _, name, h = case
    build, good, bad, init, plates = data_models()[name]
    if good is None or not init or h in ('observed',):
        ctx.ok(True, 'cannot be initialised')
        return
    ctx.traces = 0

    def second(nodes, up):
        nodes[0][1].initialize_from_value(good[::-1])
        mid = observables(nodes)
        up()
        return mid, observables(nodes)
    nodes, up = data_history(build, good, h)
    want = second(nodes, up)
    for label, d in bad:
        if label in ('first plate only', 'no plates'):
            continue    # broadcasts
        if name == 'Multinomial' and 'sum' in label:
            continue    # the moments may be of a mixture of totals
        nodes, up = data_history(build, good, h)
        old = observables(nodes)
        lab = '%s after %s: initialise from %s' % (name, h, label)
        ctx.op()
        ctx.traces += 1
        try:
            nodes[0][1].initialize_from_value(d)
        except Exception as e:
            ctx.outcomes.add(type(e).__name__)
        else:
            ctx.fail('an invalid initial value is accepted', lab)
            continue
        df = differences(old, observables(nodes))
        if not ctx.ok(not df, 'a rejected initial value has effects', '%s: %s' % (lab, df[:6])):
            continue
        got = second(nodes, up)
        for a, b in zip(want, got):
            df = differences(a, b, exact=False)
            ctx.ok(not df, 'inference after a rejected initial value', '%s: %s' % (lab, df[:6]))
        ctx.state(name, h, label)


# ------------------------------------------------------------------ the engine
ENGINE = [
    ('update unknown', lambda Q, W: Q.update('nothing', verbose=False)),
    ('update known and unknown', lambda Q, W: Q.update('tau', 'nothing', verbose=False)),
    ('optimise unknown', lambda Q, W: Q.optimize('nothing', verbose=False)),
    ('optimise known, collapse unknown', lambda Q, W: Q.optimize('s', collapsed=['nothing'], verbose=False)),
    ('gradient step unknown', lambda Q, W: Q.gradient_step('nothing')),
    ('gradient step known and unknown', lambda Q, W: Q.gradient_step('tau', 'nothing')),
    ('pattern search unknown', lambda Q, W: Q.pattern_search('nothing')),
    ('get unknown', lambda Q, W: Q['nothing']),
    ('load a file which does not exist', lambda Q, W: Q.load(filename='/nonexistent/verif.hdf5')),
    ('get a node of another model', lambda Q, W: Q[bn.Gamma(1, 1)] if False else Q['other']),
]


def engine_world(h):
    W = history(h)
    skip = {'det'}
    Q = VB(*[x for n, x in W.all() if n not in skip])
    if h != 'fresh':
        Q.update(repeat=2, verbose=False)
    return W, Q


def books(Q):
    return dict(iter=Q.iter, L=np.array(Q.L, float), conv=Q.converged, l={k.name: np.array(v, float) for k, v in Q.l.items()}, bound=Q.compute_lowerbound(), names=[n.name for n in Q.model])


def f_engine(ctx, case):
    _, h = case
    W, Q = engine_world(h)
    Q.update(repeat=2, verbose=False, tol=-1)
    want, wantb = observables(W.all()), books(Q)
    for label, call in ENGINE:
        W, Q = engine_world(h)
        old, oldb = observables(W.all()), books(Q)
        ctx.op()
        lab = '%s after %s' % (label, h)
        try:
            call(Q, W)
        except Exception as e:
            ctx.outcomes.add(type(e).__name__)
        else:
            ctx.fail('an invalid engine call is accepted', lab)
            continue
        d = differences(old, observables(W.all()))
        ctx.ok(not d, 'a rejected engine call has effects', '%s: %s' % (lab, d[:6]))
        d = [k for k in oldb if repr(oldb[k]) != repr(books(Q)[k])]
        ctx.ok(not d, 'a rejected engine call changes the books', '%s: %s' % (lab, d[:6]))
        Q.update(repeat=2, verbose=False, tol=-1)
        d = differences(want, observables(W.all()), exact=False)
        ctx.ok(not d, 'inference after a rejected engine call', '%s: %s' % (lab, d[:6]))
        ctx.close(Q.L[:Q.iter], wantb['L'][:wantb['iter']], 'bounds after a rejected engine call', msg=lab)
        ctx.state(label, h)


def cases(tier):
    for name in catalogue():
        for h in HISTORIES:
            yield ['construct', name, h]
    for name in data_models():
        for h in DATAHIST:
            yield ['observe', name, h]
            yield ['init', name, h]
    for h in HISTORIES:
        yield ['engine', h]
    for kind in SHARED:
        for n in dict(mixture=(2, 3), gaussian=(2,)).get(kind, (2, 3, 4)):
            yield ['shared', kind, n]


# ------------------------------------------------------------------ parents that are not independent
def _pool():
    """name -> (node, the unknown variables it depends on)"""
    x, y = bn.GaussianARD(.3, 1.), bn.GaussianARD(-.5, 2.)
    return {'x': (x, 'x'), 'y': (y, 'y'), 'f(x)': (bn.SumMultiply(',', x, 2.), 'x'), 'f(y)': (bn.Add(y, 1.), 'y'),
            'f(x,y)': (bn.SumMultiply(',', x, y), 'xy'), 'child of x': (bn.GaussianARD(x, 1.), 'z'), 'constant': (1.5, '')}


def _vpool():
    x, y = bn.GaussianARD([.3, .1], 1., ndim=1), bn.GaussianARD([-.5, .2], 2., ndim=1)
    return {'x': (x, 'x'), 'y': (y, 'y'), 'f(x)': (bn.SumMultiply('i,->i', x, 2.), 'x'), 'f(x,y)': (bn.ConcatGaussian(x, y), 'xy'),
            'child of x': (bn.GaussianARD(x, 1., ndim=1), 'z'), 'constant': ([1.5, 1.], '')}


def _mpool(i):
    z, w = bn.Categorical([.3, .7]), bn.Categorical([.5, .5])
    s, t = bn.Gamma([2., 3.], 1.), bn.Gamma([1., 2.], 1.)
    X, Y = bn.GaussianARD([.1, .3], 1.), bn.GaussianARD([.2, .5], t)
    m = {'X': (X, 'X'), 'Y': (Y, 'Y'), 'Add(X, Y)': (bn.Add(X, Y), 'XY'), 'gate of z': (bn.Gate(z, bn.GaussianARD([[.1, .3], [.5, .6]], 1.), gated_plate=-2), 'zu'),
         'constant': ([.1, .2], '')}
    g = {'s': (s, 's'), 't': (t, 't'), 'gate of w': (bn.Gate(w, bn.Gamma([[2., 3.], [2., 1.]], 1.), gated_plate=-2), 'wv'), 'gate of z': (bn.Gate(z, bn.Gamma([[2., 3.], [2., 1.]], 1.), gated_plate=-2), 'zv'),
         'constant': ([1., 2.], '')}
    return [{'z': (z, 'z'), 'w': (w, 'w'), 'constant': (1, '')}, m, g]


def _gpool():
    G = bn.GaussianGamma(.2, 1.2, 2., 1., ndim=0)
    t, x = bn.Gamma(2., 1.), bn.GaussianARD(.3, 1.)
    h = bn.GaussianARD(.1, t)
    return [{'x': (x, 'x'), 'child of t': (h, 'h'), 'Add': (bn.Add(x, h), 'xh'), 'G': (G, 'G'), 'scaled G': (bn.SumMultiply(',', G, 2.), 'G'), 'constant': (.5, '')},
            {'t': (t, 't'), 'constant': (1.5, ''), 'other': (bn.Gamma(1., t), 'o')}]


SHARED = {
    'product': (lambda n: [_pool] * n, lambda ps: bn.SumMultiply(','.join([''] * len(ps)), *ps)),
    'sum': (lambda n: [_pool] * n, lambda ps: bn.Add(*ps)),
    'stack': (lambda n: [_vpool] * n, lambda ps: bn.ConcatGaussian(*ps)),
    'mixture': (None, lambda ps: bn.Mixture(ps[0], bn.GaussianARD, *(list(ps[1:]) + [1.] * (3 - len(ps))))),
    'gaussian': (None, lambda ps: bn.GaussianARD(ps[0], ps[1])),
}


def f_shared(ctx, case):
    _, kind, n = case
    pools, build = SHARED[kind]
    if pools:
        one = pools(n)[0]
        names = [list(one())] * n
        draw = lambda: [one()] * n
    elif kind == 'mixture':
        draw = lambda: _mpool(0)[:n]
        names = [list(p) for p in draw()]
    else:
        draw = lambda: _gpool()
        names = [list(p) for p in draw()]
    ctx.traces = 0
    pool = draw()
    for combo in itertools.product(*names):
        ps = [pool[i][c][0] for i, c in enumerate(combo)]
        deps = ''.join(pool[i][c][1] for i, c in enumerate(combo))
        if not deps:
            continue
        bad = len(set(deps)) < len(deps)
        before = [len(p.children) for q in pool for p, _ in q.values() if hasattr(p, 'children')]
        ctx.op()
        ctx.traces += 1
        try:
            node = build(ps)
        except ValueError as e:
            ctx.ok(bad, 'independent parents are rejected', '%s of %s: %s' % (kind, combo, e))
            after = [len(p.children) for q in pool for p, _ in q.values() if hasattr(p, 'children')]
            ctx.ok(before == after, 'a rejected constructor has effects', '%s of %s' % (kind, combo))
            ctx.outcomes.add('rejected')
        else:
            ctx.ok(not bad, 'an invalid model is accepted', '%s of %s, which share a variable' % (kind, combo))
            ctx.outcomes.add('accepted')
            node.delete()
        ctx.state(kind, combo)


def run(ctx, case):
    dict(construct=f_construct, observe=f_observe, init=f_init, engine=f_engine, shared=f_shared)[case[0]](ctx, case)
