"""Small models that between them use every node class of the library.

Each builder takes (r, masks) where r is a RandomState for the (fixed, generic) data values and
masks maps observed-node names to a mask array (or is None), and returns a Model.
The builders use only the public constructors and observe()."""
import numpy as np
from bayespy import nodes as bn
from bayespy.inference import VB
from . import engine


class Model:
    def __init__(self, **nodes):
        self.n = {}
        self.latent = []      # names that can be updated
        self.obs = {}         # name -> (args, mask)
        self.extra = {}
        for k, v in nodes.items():
            self.n[k] = v

    def add(self, name, node, latent=True):
        node.name = name
        self.n[name] = node
        if latent:
            self.latent.append(name)
        return node

    def observe(self, name, *data, mask=None):
        node = self.n[name]
        if mask is None:
            node.observe(*data)
        else:
            node.observe(*data, mask=mask)
        self.obs[name] = (data, mask)
        if mask is None or np.all(mask):
            if name in self.latent:
                self.latent.remove(name)

    def vb(self, order=None, **kw):
        names = list(self.n) if order is None else list(order)
        return VB(*[self.n[k] for k in names], **kw)

    def bound(self, ignore_masked=True):
        return float(sum(np.sum(v.lower_bound_contribution()) for v in self.n.values()))


ZOO = {}
OBSPLATES = {}


def model(**obsplates):
    """Declares a zoo model and the plates of its observed nodes (for mask enumeration)."""
    def deco(f):
        ZOO[f.__name__] = f
        OBSPLATES[f.__name__] = obsplates
        return f
    return deco


def build(name, masks=None, init='prior', salt=(), observe=True):
    r = engine.rng('zoo', name, *salt)
    if observe:
        m = ZOO[name](r, masks or {})
    else:
        # the same model before its data are given
        from bayespy.inference.vmp.nodes.expfamily import ExponentialFamily
        real = ExponentialFamily.observe
        ExponentialFamily.observe = lambda self, *a, **k: None
        try:
            m = ZOO[name](r, masks or {})
        finally:
            ExponentialFamily.observe = real
    m.name = name
    initialise(m, init)
    return m


def initialise(m, init):
    """Deterministic initialisations; never uses the library's random generator."""
    r = engine.rng('init', m.name, init)
    for name in list(m.latent):
        iv = m.extra.get('init', {}).get(name)
        node = m.n[name]
        if init == 'prior':
            # symmetric models get stuck at saddle points; only listed nodes are perturbed
            if iv is not None and m.extra.get('break', False):
                node.initialize_from_value(iv)
        elif init == 'value':
            if iv is not None:
                node.initialize_from_value(iv)
        elif init == 'params':
            ip = m.extra.get('initp', {}).get(name)
            if ip is not None:
                node.initialize_from_parameters(*ip)
    return m


def spd(r, d, *plates):
    A = r.randn(*(plates + (d, d)))
    return np.einsum('...ij,...kj->...ik', A, A) + d * np.eye(d)


def simplex(r, k, *plates):
    x = r.rand(*(plates + (k,))) + 0.2
    return x / x.sum(-1, keepdims=True)


# --------------------------------------------------------------------------------------------
@model(Y=(3,))
def gauss_gamma(r, masks):
    m = Model()
    mu = m.add('mu', bn.GaussianARD(0.3, 0.01))
    tau = m.add('tau', bn.Gamma(1e-1, 2e-1))
    Y = m.add('Y', bn.GaussianARD(mu, tau, plates=(3,)))
    m.observe('Y', r.randn(3) + 2, mask=masks.get('Y'))
    m.extra = dict(init=dict(mu=0.7, tau=1.4), initp=dict(mu=(0.5, 2.0), tau=(2.0, 3.0)))
    return m


@model(Y=(3, 2))
def gauss_gamma_plates(r, masks):
    """per-row mean, per-column precision with learned rate"""
    m = Model()
    mu = m.add('mu', bn.GaussianARD(0, 1e-2, plates=(3, 1)))
    b = m.add('b', bn.Gamma(1.5, 0.5))
    tau = m.add('tau', bn.Gamma(0.7, b, plates=(2,)))
    Y = m.add('Y', bn.GaussianARD(mu, tau))
    m.observe('Y', r.randn(3, 2) + 1, mask=masks.get('Y'))
    m.extra = dict(init=dict(mu=r.randn(3, 1), tau=r.rand(2) + .5, b=1.3),
                   initp=dict(mu=(r.randn(3, 1), 2.0), tau=(2.0, r.rand(2) + 1), b=(2.0, 1.0)))
    return m


@model(Y=(3,))
def mvn_wishart(r, masks):
    m = Model()
    mu = m.add('mu', bn.Gaussian(np.array([0.2, -0.1]), 0.1 * np.eye(2)))
    L = m.add('Lambda', bn.Wishart(2.5, np.array([[1.0, 0.2], [0.2, 0.8]])))
    Y = m.add('Y', bn.Gaussian(mu, L, plates=(3,)))
    m.observe('Y', r.randn(3, 2), mask=masks.get('Y'))
    m.extra = dict(init=dict(mu=r.randn(2), Lambda=spd(r, 2)),
                   initp=dict(mu=(r.randn(2), spd(r, 2)), Lambda=(4.0, spd(r, 2))))
    return m


@model(Y=(2, 3))
def pca(r, masks):
    m = Model()
    X = m.add('X', bn.GaussianARD(0, 1, shape=(2,), plates=(1, 3)))
    alpha = m.add('alpha', bn.Gamma(1e-1, 1e-1, plates=(2,)))
    C = m.add('C', bn.GaussianARD(0, alpha, shape=(2,), plates=(2, 1)))
    tau = m.add('tau', bn.Gamma(1e-1, 1e-1))
    F = bn.Dot(C, X)
    Y = m.add('Y', bn.GaussianARD(F, tau))
    m.observe('Y', r.randn(2, 3), mask=masks.get('Y'))
    m.extra = dict(init=dict(X=r.randn(1, 3, 2), C=r.randn(2, 1, 2), tau=0.9), initp=dict(X=(r.randn(1, 3, 2), 2.), C=(r.randn(2, 1, 2), 1.5)))
    m.extra['break'] = True
    m.extra['initp']['C'] = (r.randn(2, 1, 2), np.array([1.5, 2.5]))
    return m


@model(Y=(2, 2))
def factor_bias(r, masks):
    """SumMultiply + Add with matrix-variate loading and a bias"""
    m = Model()
    W = m.add('W', bn.GaussianARD(0, 1, shape=(2, 2)))
    X = m.add('X', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)))
    b = m.add('b', bn.GaussianARD(0, 0.1, shape=(2,)))
    F = bn.Add(bn.SumMultiply('ij,j->i', W, X), b)
    tau = m.add('tau', bn.Gamma(1, 1, plates=(2,)))
    Y = m.add('Y', bn.GaussianARD(F, tau, ndim=1))
    m.observe('Y', r.randn(2, 2), mask=(None if masks.get('Y') is None else np.asarray(masks['Y'])[..., 0]))
    m.extra = dict(init=dict(W=r.randn(2, 2), X=r.randn(2, 2), b=r.randn(2)),
                   initp=dict(W=(r.randn(2, 2), 1.5), X=(r.randn(2, 2), 2.), tau=(2., 1.)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def gmm(r, masks):
    m = Model()
    alpha = m.add('alpha', bn.Dirichlet([0.5, 0.8]))
    Z = m.add('Z', bn.Categorical(alpha, plates=(3,)))
    mu = m.add('mu', bn.Gaussian(np.zeros(2), 0.05 * np.eye(2), plates=(2,)))
    L = m.add('Lambda', bn.Wishart(3, np.eye(2), plates=(2,)))
    Y = m.add('Y', bn.Mixture(Z, bn.Gaussian, mu, L))
    m.observe('Y', 2 * r.randn(3, 2), mask=masks.get('Y'))
    m.extra = dict(init=dict(Z=np.array([0, 1, 1]), mu=r.randn(2, 2), Lambda=spd(r, 2, 2), alpha=simplex(r, 2)),
                   initp=dict(Z=(simplex(r, 2, 3),), alpha=([2., 1.5],), mu=(r.randn(2, 2), np.eye(2)), Lambda=(3., spd(r, 2, 2))))
    m.extra['break'] = True
    return m


@model(Y=(2, 3))
def gmm_ard(r, masks):
    """scalar mixture, component axis not last, own precision per row"""
    m = Model()
    alpha = m.add('alpha', bn.Dirichlet(np.ones(2)))
    Z = m.add('Z', bn.Categorical(alpha, plates=(3,)))
    mu = m.add('mu', bn.GaussianARD(0, 0.1, plates=(2, 2, 1)))
    tau = m.add('tau', bn.Gamma(1, 0.5, plates=(2, 1, 1)))
    Y = m.add('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau, cluster_plate=-2))
    m.observe('Y', 2 * r.randn(2, 3), mask=masks.get('Y'))
    m.extra = dict(init=dict(Z=np.array([0, 1, 1]), mu=r.randn(2, 2, 1)),
                   initp=dict(Z=(simplex(r, 2, 3),), mu=(r.randn(2, 2, 1), 2.0), tau=(2., 1.)))
    m.extra['break'] = True
    return m


@model(Y=(3, 2))
def bernoulli_mixture(r, masks):
    m = Model()
    R = m.add('R', bn.Dirichlet([1.0, 1.5]))
    Z = m.add('Z', bn.Categorical(R, plates=(3, 1)))
    P = m.add('P', bn.Beta([0.5, 0.7], plates=(2, 2)))
    Y = m.add('Y', bn.Mixture(Z, bn.Bernoulli, P))
    m.observe('Y', (r.rand(3, 2) < 0.5).astype(int), mask=masks.get('Y'))
    m.extra = dict(init=dict(Z=np.array([[0], [1], [1]]), P=r.rand(2, 2) * .8 + .1),
                   initp=dict(Z=(simplex(r, 2, 3, 1),), P=(np.array([2., 1.5]),)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def beta_binomial(r, masks):
    m = Model()
    p = m.add('p', bn.Beta([1.5, 0.8]))
    Y = m.add('Y', bn.Binomial([3, 5, 1], p))
    m.observe('Y', np.array([2, 4, 0]), mask=masks.get('Y'))
    m.extra = dict(init=dict(p=0.3), initp=dict(p=([2., 3.],)))
    return m


@model(Y=(2,), W=(2,))
def complement(r, masks):
    m = Model()
    p = m.add('p', bn.Beta([1.2, 0.9], plates=(2,)))
    q = p.complement()
    Y = m.add('Y', bn.Bernoulli(p))
    W = m.add('W', bn.Bernoulli(q))
    m.observe('Y', np.array([1, 0]), mask=masks.get('Y'))
    m.observe('W', np.array([1, 1]), mask=masks.get('W'))
    m.extra = dict(init=dict(p=np.array([0.3, 0.6])), initp=dict(p=([2., 3.],)))
    return m


@model(Y=(3,))
def dirichlet_multinomial(r, masks):
    m = Model()
    p = m.add('p', bn.Dirichlet([0.7, 1.1, 0.5]))
    Y = m.add('Y', bn.Multinomial([2, 3, 1], p))
    m.observe('Y', np.array([[1, 1, 0], [0, 2, 1], [0, 0, 1]]), mask=masks.get('Y'))
    m.extra = dict(init=dict(p=np.array([.2, .5, .3])), initp=dict(p=([2., 3., 1.],)))
    return m


@model(Y=(3,))
def lda(r, masks):
    """two-level categorical model (topics and words)"""
    m = Model()
    theta = m.add('theta', bn.Dirichlet([0.6, 0.9], plates=(2,)))
    phi = m.add('phi', bn.Dirichlet([0.5, 0.6, 0.7], plates=(2,)))
    d = bn.Categorical(np.ones(2) / 2, plates=(3,))
    m.add('d', d, latent=False)
    d.observe(np.array([0, 1, 1]))
    Z = m.add('Z', bn.Categorical(bn.Gate(d, theta)))
    Y = m.add('Y', bn.Categorical(bn.Gate(Z, phi)))
    m.observe('Y', np.array([2, 0, 1]), mask=masks.get('Y'))
    m.extra = dict(init=dict(Z=np.array([0, 1, 0])), initp=dict(Z=(simplex(r, 2, 3),), phi=(r.rand(2, 3) + 1,)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def poisson_gamma(r, masks):
    m = Model()
    b = m.add('b', bn.Gamma(2.0, 1.0))
    lam = m.add('lam', bn.Gamma(1.3, b))
    Y = m.add('Y', bn.Poisson(lam, plates=(3,)))
    m.observe('Y', np.array([2, 0, 5]), mask=masks.get('Y'))
    m.extra = dict(init=dict(lam=1.7, b=.6), initp=dict(lam=(2., 3.), b=(1., 2.)))
    return m


@model(Y=(3,))
def poisson_mixture(r, masks):
    m = Model()
    Z = m.add('Z', bn.Categorical([0.4, 0.6], plates=(3,)))
    lam = m.add('lam', bn.Gamma(1.3, 0.5, plates=(2,)))
    Y = m.add('Y', bn.Mixture(Z, bn.Poisson, lam))
    m.observe('Y', np.array([2, 0, 5]), mask=masks.get('Y'))
    m.extra = dict(init=dict(lam=np.array([.7, 2.]), Z=np.array([0, 1, 1])), initp=dict(lam=(2., [3., 1.]), Z=(simplex(r, 2, 3),)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def hmm(r, masks):
    m = Model()
    a0 = m.add('a0', bn.Dirichlet([0.8, 0.6]))
    A = m.add('A', bn.Dirichlet([[0.9, 0.7], [0.5, 1.2]]))
    Z = m.add('Z', bn.CategoricalMarkovChain(a0, A, states=3))
    mu = m.add('mu', bn.GaussianARD(0, 0.2, plates=(2,)))
    tau = m.add('tau', bn.Gamma(1, 1))
    Y = m.add('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau))
    m.observe('Y', r.randn(3) * 2, mask=masks.get('Y'))
    m.extra = dict(init=dict(mu=np.array([-.5, .8])), initp=dict(mu=(np.array([-.5, .8]), 2.), a0=([2., 1.],), A=([[2., 1.], [1., 3.]],)))
    m.extra['break'] = True
    return m


@model(Y=(2, 3))
def hmm_plates(r, masks):
    m = Model()
    a0 = m.add('a0', bn.Dirichlet([0.8, 0.6]))
    A = m.add('A', bn.Dirichlet([0.9, 0.7], plates=(2, 2, 2)))     # time-varying transitions
    Z = m.add('Z', bn.CategoricalMarkovChain(a0, A, plates=(2,)))
    P = m.add('P', bn.Dirichlet([0.5, 0.5], plates=(2,)))
    Y = m.add('Y', bn.Mixture(Z, bn.Categorical, P))
    m.observe('Y', np.array([[0, 1, 1], [1, 0, 1]]), mask=masks.get('Y'))
    m.extra = dict(init=dict(P=simplex(r, 2, 2)), initp=dict(P=(r.rand(2, 2) + .5,)))
    m.extra['break'] = True
    return m


@model(Y=(2, 3))
def lssm(r, masks):
    m = Model()
    alpha = m.add('alpha', bn.Gamma(1., 1., plates=(2,)))
    A = m.add('A', bn.GaussianARD(0, alpha, shape=(2,), plates=(2,)))
    nu = m.add('nu', bn.Gamma(1., 1., plates=(2,)))
    X = m.add('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), A, nu, n=3))
    C = m.add('C', bn.GaussianARD(0, 1, shape=(2,), plates=(2, 1)))
    tau = m.add('tau', bn.Gamma(1, 1))
    Y = m.add('Y', bn.GaussianARD(bn.Dot(C, X), tau))
    m.observe('Y', r.randn(2, 3), mask=masks.get('Y'))
    m.extra = dict(init=dict(A=r.randn(2, 2) * .5, C=r.randn(2, 1, 2), X=r.randn(3, 2)),
                   initp=dict(A=(r.randn(2, 2) * .5, np.array([2., 2.])), C=(r.randn(2, 1, 2), 2.)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def lssm_inputs(r, masks):
    """learned initial state, inputs"""
    m = Model()
    mu = m.add('mu', bn.Gaussian(np.zeros(2), np.eye(2)))
    L = m.add('L', bn.Wishart(3, np.eye(2)))
    A = m.add('A', bn.GaussianARD(0, 1, shape=(3,), plates=(2,)))
    nu = m.add('nu', bn.Gamma(1., 1., plates=(2,)))
    X = m.add('X', bn.GaussianMarkovChain(mu, L, A, nu, n=3, inputs=r.randn(2, 1)))
    Y = m.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([0.7, -0.4])), 2.0))
    m.observe('Y', r.randn(3), mask=masks.get('Y'))
    m.extra = dict(init=dict(A=r.randn(2, 3) * .5), initp=dict(A=(r.randn(2, 3) * .5, 2.)))
    return m


@model(Y=(3,))
def lssm_varying(r, masks):
    m = Model()
    S = m.add('S', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)))
    B = m.add('B', bn.GaussianARD(0, 1, shape=(2, 2), plates=(2,)))
    nu = np.array([1.3, 0.7])
    X = m.add('X', bn.VaryingGaussianMarkovChain(np.zeros(2), np.eye(2), B, S, nu, n=3))
    Y = m.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([0.7, -0.4])), 2.0))
    m.observe('Y', r.randn(3), mask=masks.get('Y'))
    m.extra = dict(init=dict(B=r.randn(2, 2, 2) * .5, S=r.randn(2, 2)), initp=dict(B=(r.randn(2, 2, 2) * .5, 2.), S=(r.randn(2, 2), 2.)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def lssm_switching(r, masks):
    m = Model()
    Z = m.add('Z', bn.Categorical([0.3, 0.7], plates=(2,)))
    B = m.add('B', bn.GaussianARD(0, 1, shape=(2,), plates=(2, 2)))
    nu = np.array([1.3, 0.7])
    X = m.add('X', bn.SwitchingGaussianMarkovChain(np.zeros(2), np.eye(2), B, Z, nu, n=3))
    Y = m.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([0.7, -0.4])), 2.0))
    m.observe('Y', r.randn(3), mask=masks.get('Y'))
    m.extra = dict(init=dict(B=r.randn(2, 2, 2) * .5, Z=np.array([0, 1])), initp=dict(B=(r.randn(2, 2, 2) * .5, 2.)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def gaussian_gamma(r, masks):
    m = Model()
    b = m.add('b', bn.Gamma(2., 1.))
    Xt = m.add('Xt', bn.GaussianGamma(np.array([0.1, -.2]), np.array([[1., .2], [.2, .8]]), 1.5, b))
    Y = m.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', Xt, r.randn(3, 2)), 0.8))
    m.observe('Y', r.randn(3), mask=masks.get('Y'))
    m.extra = dict(init=dict(b=1.3), initp=dict(b=(2., 2.)))
    return m


@model(Y=(2, 3))
def gate_choose(r, masks):
    m = Model()
    Z = m.add('Z', bn.Categorical([0.3, 0.7], plates=(3,)))
    X = m.add('X', bn.GaussianARD(0.2, 0.5, plates=(2, 2)))
    tau = m.add('tau', bn.Gamma(1, 1, plates=(2, 1)))
    Y = m.add('Y', bn.GaussianARD(bn.Gate(Z, X[:, None, :]), tau))
    m.observe('Y', r.randn(2, 3), mask=masks.get('Y'))
    m.extra = dict(init=dict(Z=np.array([0, 1, 1]), X=r.randn(2, 2)), initp=dict(Z=(simplex(r, 2, 3),), X=(r.randn(2, 2), 2.)))
    m.extra['break'] = True
    return m


@model(Y=(4,), W=(2,))
def slicing(r, masks):
    """slices, take and concatenate with shared elements"""
    m = Model()
    X = m.add('X', bn.GaussianARD(0.2, 0.5, plates=(3, 2)))
    U = m.add('U', bn.GaussianARD(0., 0.3, plates=(1,)))
    tau = m.add('tau', bn.Gamma(1, 1))
    cat = bn.Concatenate(X[::-1, 0], U)
    Y = m.add('Y', bn.GaussianARD(bn.Take(cat, np.array([3, 0, 0, 1])), tau))
    W = m.add('W', bn.GaussianARD(X[1, :], 0.9))
    m.observe('Y', r.randn(4), mask=masks.get('Y'))
    m.observe('W', r.randn(2), mask=masks.get('W'))
    m.extra = dict(init=dict(X=r.randn(3, 2)), initp=dict(X=(r.randn(3, 2), 2.)))
    return m


@model(Y=(3,))
def concat_gauss(r, masks):
    m = Model()
    a = m.add('a', bn.GaussianARD(0, 1, shape=(1,)))
    b = m.add('b', bn.Gaussian(np.zeros(2), np.eye(2), plates=(3,)))
    c = bn.ConcatGaussian(a, b)
    L = m.add('L', bn.Wishart(4, np.eye(3)))
    Y = m.add('Y', bn.Gaussian(c, L))
    m.observe('Y', r.randn(3, 3), mask=masks.get('Y'))
    m.extra = dict(init=dict(a=r.randn(1)), initp=dict(b=(r.randn(3, 2), np.eye(2))))
    return m


@model(Y=(3,), N=(3,))
def gamma_shape(r, masks):
    m = Model()
    a = m.add('a', bn.GammaShape())
    tau = m.add('tau', bn.Gamma(a, 1.2, plates=(3,)))
    Y = m.add('Y', bn.GaussianARD(0.1, tau))
    m.observe('Y', r.randn(3), mask=masks.get('Y'))
    N = m.add('N', bn.Poisson(tau))
    m.observe('N', np.array([1, 0, 4]), mask=masks.get('N'))
    m.extra = dict()
    return m


@model(Y=(3,))
def concentration(r, masks):
    m = Model()
    a = m.add('a', bn.DirichletConcentration(2, regularization=True))
    p = m.add('p', bn.Dirichlet(a, plates=(3,)))
    Y = m.add('Y', bn.Categorical(p))
    m.observe('Y', np.array([0, 1, 1]), mask=masks.get('Y'))
    return m


@model(Y=(2, 3))
def multi_mixture(r, masks):
    m = Model()
    Z1 = m.add('Z1', bn.Categorical([0.3, 0.7], plates=(3,)))
    Z2 = m.add('Z2', bn.Categorical([0.6, 0.4], plates=(2, 1)))
    mu = m.add('mu', bn.GaussianARD(0, 0.2, plates=(2, 2)))
    Y = m.add('Y', bn.MultiMixture([Z1, Z2], bn.GaussianARD, mu, 1.5))
    m.observe('Y', r.randn(2, 3) * 2, mask=masks.get('Y'))
    m.extra = dict(init=dict(Z1=np.array([0, 1, 1]), mu=r.randn(2, 2)), initp=dict(Z1=(simplex(r, 2, 3),), mu=(r.randn(2, 2), 2.)))
    m.extra['break'] = True
    return m


@model(Y=(3,))
def diag_wishart(r, masks):
    """Gamma nodes used as a diagonal precision matrix"""
    m = Model()
    a = m.add('a', bn.Gamma(1.1, 0.9, plates=(2,)))
    mu = m.add('mu', bn.GaussianARD(0, 1, shape=(2,)))
    Y = m.add('Y', bn.Gaussian(mu, a.as_diagonal_wishart(), plates=(3,)))
    m.observe('Y', r.randn(3, 2), mask=masks.get('Y'))
    m.extra = dict(init=dict(mu=r.randn(2)), initp=dict(mu=(r.randn(2), 2.), a=(2., [1., 2.])))
    return m


@model(Y=(4,))
def regression_ard(r, masks):
    m = Model()
    alpha = m.add('alpha', bn.Gamma(0.5, 0.5, plates=(2,)))
    w = m.add('w', bn.GaussianARD(0, alpha, shape=(2,)))
    tau = m.add('tau', bn.Gamma(0.5, 0.5))
    Y = m.add('Y', bn.GaussianARD(bn.SumMultiply('i,i', w, r.randn(4, 2)), tau))
    m.observe('Y', r.randn(4), mask=masks.get('Y'))
    m.extra = dict(init=dict(w=r.randn(2)), initp=dict(w=(r.randn(2), [1., 2.]), alpha=(2., [1., 2.])))
    return m


