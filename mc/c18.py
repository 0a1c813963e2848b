"""C18: a plate multiplier M equals replicating the mini-batch M times."""
import itertools
import numpy as np
from bayespy import nodes as bn
from bayespy.inference import VB
from . import engine
from .zoo import spd, simplex

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all operation sequences up to a depth on the real nodes, in lockstep with a model in which the mini-batch is really replicated'
RULE = ('every mini-batch model (every kind of node between the multiplied plate and the global variables, one or two multiplied axes, multiplier declared at the top only or everywhere) x multipliers x masks: '
        'along every sequence of updates and natural gradient steps up to the depth the global moments, local moments (per copy), natural gradients and the bound equal those of the replicated model; '
        'for fractional multipliers the natural gradients and bound are the interpolation of the integer ones')
BOUND = dict(quick='40 models, multipliers 2, 3 and 1.5, masks none and one element, sequences of length 2 and one full sweep', thorough='sequences of length 3, multipliers up to 5')
ASSUMPTIONS = ['nodes which explicitly reject multipliers (Take, Concatenate) are out of scope except that they must reject']
CASE_TIMEOUT = 200


class B:
    """builds either the mini-batch model with multipliers or the replicated one"""

    def __init__(self, M, rep, masked=False, where='top'):
        self.M, self.rep, self.masked, self.where = M, rep, masked, where
        self.n = {}
        self.local = {}
        self.lat = []
        self.top = set()

    def t(self, x, axis=-1):
        x = np.asarray(x)
        if not self.rep:
            return x
        return np.concatenate([x] * self.M, axis=axis)

    def N(self, n):
        return n * self.M if self.rep else n

    def pm(self, *mult, top=True):
        """mult: positions flagged 1 where multiplied"""
        if self.rep or (not top and self.where == 'top'):
            return {}
        return dict(plates_multiplier=tuple(self.M if m else 1 for m in mult))

    def glob(self, name, node, init=None):
        node.name = name
        self.n[name] = node
        self.lat.append(name)
        if init is not None:
            node.initialize_from_value(init)
        return node

    def loc(self, name, node, axis, init=None, latent=True):
        """axis: the plate axis (negative, counted in plates) which is multiplied"""
        node.name = name
        self.n[name] = node
        self.local[name] = axis
        if latent:
            self.lat.append(name)
            if init is not None:
                node.initialize_from_value(init)
        return node

    def obs(self, name, node, axis, x, *args, event=0):
        node.name = name
        self.n[name] = node
        self.local[name] = axis
        x = np.asarray(x)
        ax = (axis if isinstance(axis, tuple) else (axis,))
        pl = x.shape[:x.ndim - event]
        mask = np.ones(pl, bool)
        if self.masked:
            mask[(0,) * len(pl)] = False
        for a in ax:
            mask = self.t(mask, a)
            x = self.t(x, a - event)
        node.observe(x, *args, mask=mask)
        return node


MODELS = {}


def model(f):
    MODELS[f.__name__] = f
    return f


@model
def mean_precision(b, r):
    mu = b.glob('mu', bn.GaussianARD(0, .1), .4)
    tau = b.glob('tau', bn.Gamma(1, 1), 1.3)
    b.obs('Y', bn.GaussianARD(mu, tau, plates=(b.N(3),), **b.pm(1)), -1, r.randn(3))


@model
def mean_rows(b, r):
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2, 1)), r.randn(2, 1))
    tau = b.glob('tau', bn.Gamma(1, 1), 1.3)
    b.obs('Y', bn.GaussianARD(mu, tau, plates=(2, b.N(3)), **b.pm(0, 1)), -1, r.randn(2, 3))


@model
def mean_cols(b, r):
    """the multiplied axis is not the last one"""
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    tau = b.glob('tau', bn.Gamma(1, 1, plates=(2,)), [1.3, .7])
    b.obs('Y', bn.GaussianARD(mu, tau, plates=(b.N(3), 2), **b.pm(1, 0)), -2, r.randn(3, 2))


@model
def pca(b, r):
    al = b.glob('alpha', bn.Gamma(1, 1, plates=(2,)), [1., 2.])
    C = b.glob('C', bn.GaussianARD(0, al, shape=(2,), plates=(2, 1)), r.randn(2, 1, 2))
    X = b.loc('X', bn.GaussianARD(0, 1, shape=(2,), plates=(1, b.N(3)), **b.pm(0, 1)), -1, b.t(r.randn(1, 3, 2), -2))
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    b.obs('Y', bn.GaussianARD(bn.Dot(C, X), tau, **b.pm(0, 1, top=False)), -1, r.randn(2, 3))


@model
def pca_noise_local(b, r):
    C = b.glob('C', bn.GaussianARD(0, 1, shape=(2,), plates=(2, 1)), r.randn(2, 1, 2))
    X = b.loc('X', bn.GaussianARD(0, 1, shape=(2,), plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2, 2), -2))
    be = b.glob('beta', bn.Gamma(1, 1), 1.2)
    tau = b.loc('tau', bn.Gamma(1, be, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', C, X), tau), -1, r.randn(2, 2))


@model
def regression(b, r):
    w = b.glob('w', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    X = r.randn(3, 2)
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', w, b.t(X, -2)), tau, **b.pm(1)), -1, r.randn(3))


@model
def mvn(b, r):
    mu = b.glob('mu', bn.Gaussian(np.zeros(2), np.eye(2)), r.randn(2))
    L = b.glob('L', bn.Wishart(3, np.eye(2)), spd(r, 2))
    b.obs('Y', bn.Gaussian(mu, L, plates=(b.N(3),), **b.pm(1)), -1, r.randn(3, 2), event=1)


@model
def mvn_local(b, r):
    mu = b.glob('mu', bn.Gaussian(np.zeros(2), np.eye(2)), r.randn(2))
    L = b.glob('L', bn.Wishart(3, np.eye(2)), spd(r, 2))
    x = b.loc('x', bn.Gaussian(mu, L, plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2, 2), -2))
    K = b.loc('K', bn.Wishart(3, np.eye(2), plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.Gaussian(x, K), -1, r.randn(2, 2), event=1)


@model
def gmm(b, r):
    al = b.glob('alpha', bn.Dirichlet([1., 2.]), [.4, .6])
    Z = b.loc('Z', bn.Categorical(al, plates=(b.N(3),), **b.pm(1)), -1, b.t([0, 1, 1]))
    mu = b.glob('mu', bn.Gaussian(np.zeros(2), np.eye(2), plates=(2,)), r.randn(2, 2))
    L = b.glob('L', bn.Wishart(3, np.eye(2), plates=(2,)), spd(r, 2, 2))
    b.obs('Y', bn.Mixture(Z, bn.Gaussian, mu, L, **b.pm(1, top=False)), -1, r.randn(3, 2), event=1)


@model
def gmm_local_scale(b, r):
    Z = b.loc('Z', bn.Categorical([.3, .7], plates=(b.N(2),), **b.pm(1)), -1, b.t([0, 1]))
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    be = b.glob('beta', bn.Gamma(1, 1, plates=(2,)), [1.2, .6])
    tau = b.loc('tau', bn.Gamma(1, be, plates=(b.N(2), 2), **b.pm(1, 0)), -2)
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau), -1, r.randn(2))


@model
def gmm_local_scale_shared(b, r):
    Z = b.loc('Z', bn.Categorical([.3, .7], plates=(b.N(2),), **b.pm(1)), -1, b.t([0, 1]))
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    be = b.glob('beta', bn.Gamma(1, 1), 1.2)
    tau = b.loc('tau', bn.Gamma(1, be, plates=(b.N(2), 1), **b.pm(1, 0)), -2)
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau), -1, r.randn(2))


@model
def mixture_axis(b, r):
    """cluster plate before the data plate; local component means"""
    Z = b.loc('Z', bn.Categorical([.3, .7], plates=(b.N(2),), **b.pm(1)), -1, b.t([0, 1]))
    m0 = b.glob('m0', bn.GaussianARD(0, .1, plates=(2, 1)), r.randn(2, 1))
    mu = b.loc('mu', bn.GaussianARD(m0, 1., plates=(2, b.N(2)), **b.pm(0, 1)), -1)
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, 2., cluster_plate=-2), -1, r.randn(2))


@model
def mixture_axis_global(b, r):
    Z = b.loc('Z', bn.Categorical([.3, .7], plates=(b.N(3),), **b.pm(1)), -1, b.t([0, 1, 0]))
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2, 1)), r.randn(2, 1))
    tau = b.glob('tau', bn.Gamma(1, 1, plates=(2, 1)), [[.5], [2.]])
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau, cluster_plate=-2), -1, r.randn(3))


@model
def bernoulli_mixture(b, r):
    R = b.glob('R', bn.Dirichlet([1., 1.]), [.3, .7])
    Z = b.loc('Z', bn.Categorical(R, plates=(b.N(2), 1), **b.pm(1, 0)), -2, b.t([[0], [1]], -2))
    P = b.glob('P', bn.Beta([.5, .5], plates=(3, 2)), r.rand(3, 2))
    b.obs('Y', bn.Mixture(Z, bn.Bernoulli, P), -2, r.randint(2, size=(2, 3)))


@model
def multi_mixture(b, r):
    Z1 = b.loc('Z1', bn.Categorical([.3, .7], plates=(b.N(2),), **b.pm(1)), -1, b.t([0, 1]))
    Z2 = b.glob('Z2', bn.Categorical([.6, .4], plates=(2, 1)), [[1], [0]])
    mu = b.glob('mu', bn.GaussianARD(0, .2, plates=(2, 2)), r.randn(2, 2))
    b.obs('Y', bn.MultiMixture([Z1, Z2], bn.GaussianARD, mu, 1.5), -1, r.randn(2, 2))


@model
def lda(b, r):
    D, V = 2, 3
    pt = b.glob('pt', bn.Dirichlet(np.ones(2), plates=(D,)), simplex(r, 2, D))
    pw = b.glob('pw', bn.Dirichlet(np.ones(V), plates=(2,)), simplex(r, V, 2))
    docs = b.t([0, 1, 1])
    from bayespy.inference.vmp.nodes.constant import Constant
    from bayespy.inference.vmp.nodes.categorical import CategoricalMoments
    wd = Constant(CategoricalMoments(D), docs)
    Z = b.loc('Z', bn.Categorical(bn.Gate(wd, pt), plates=(b.N(3),), **b.pm(1)), -1, b.t([0, 1, 1]))
    b.obs('W', bn.Categorical(bn.Gate(Z, pw)), -1, [2, 0, 1])


@model
def gate_local(b, r):
    """gated variable has the multiplied plate as well"""
    Z = b.loc('Z', bn.Categorical([.3, .7], plates=(b.N(2),), **b.pm(1)), -1, b.t([0, 1]))
    m0 = b.glob('m0', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    mu = b.loc('mu', bn.GaussianARD(m0, 1., plates=(b.N(2), 2), **b.pm(1, 0)), -2)
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    b.obs('Y', bn.GaussianARD(bn.Gate(Z, mu), tau), -1, r.randn(2))


@model
def hmm(b, r):
    p0 = b.glob('p0', bn.Dirichlet([1., 1.]), [.4, .6])
    A = b.glob('A', bn.Dirichlet([1., 2.], plates=(2,)), simplex(r, 2, 2))
    Z = b.loc('Z', bn.CategoricalMarkovChain(p0, A, states=3, plates=(b.N(2),), **b.pm(1)), -1)
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, 1.), -2, r.randn(2, 3))


@model
def hmm_local_noise(b, r):
    p0 = b.glob('p0', bn.Dirichlet([1., 1.]), [.4, .6])
    A = b.glob('A', bn.Dirichlet([1., 2.], plates=(2,)), simplex(r, 2, 2))
    Z = b.loc('Z', bn.CategoricalMarkovChain(p0, A, states=3, plates=(b.N(2),), **b.pm(1)), -1)
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    be = b.glob('beta', bn.Gamma(1, 1), 1.2)
    tau = b.loc('tau', bn.Gamma(1, be, plates=(b.N(2), 1, 1), **b.pm(1, 0, 0)), -3)
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, tau), -2, r.randn(2, 3))


@model
def hmm_local_parameters(b, r):
    """initial and transition probabilities per chain"""
    c = b.glob('c', bn.DirichletConcentration(2))
    p0 = b.loc('p0', bn.Dirichlet(c, plates=(b.N(2),), **b.pm(1)), -1, b.t(simplex(r, 2, 2), -2))
    A = b.loc('A', bn.Dirichlet([1., 2.], plates=(b.N(2), 1, 2), **b.pm(1, 0, 0)), -3, b.t(simplex(r, 2, 2, 1, 2), -4))
    Z = b.loc('Z', bn.CategoricalMarkovChain(p0, A, states=3), -1)
    mu = b.glob('mu', bn.GaussianARD(0, .1, plates=(2,)), r.randn(2))
    b.obs('Y', bn.Mixture(Z, bn.GaussianARD, mu, 1.), -2, r.randn(2, 3))


@model
def lssm(b, r):
    A = b.glob('A', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)), r.randn(2, 2) * .3)
    X = b.loc('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), A, np.ones(2), n=3, plates=(b.N(2),), **b.pm(1)), -1)
    C = b.glob('C', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    tau = b.glob('tau', bn.Gamma(1, 1), 1.1)
    b.obs('Y', bn.GaussianARD(bn.Dot(C, X), tau), -2, r.randn(2, 3))


@model
def lssm_full(b, r):
    """all parameters of the chain are learned"""
    mu = b.glob('mu', bn.Gaussian(np.zeros(2), np.eye(2)), r.randn(2))
    L = b.glob('L', bn.Wishart(3, np.eye(2)), spd(r, 2))
    A = b.glob('A', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)), r.randn(2, 2) * .3)
    v = b.glob('v', bn.Gamma(1, 1, plates=(2,)), [1., 2.])
    X = b.loc('X', bn.GaussianMarkovChain(mu, L, A, v, n=3, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.Dot([1., -.5], X), 2.), -2, r.randn(2, 3))


@model
def lssm_local_parameters(b, r):
    v0 = b.glob('v0', bn.Gamma(1, 1), 1.2)
    v = b.loc('v', bn.Gamma(1, v0, plates=(b.N(2), 1, 2), **b.pm(1, 0, 0)), -3)
    a0 = b.glob('a0', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    A = b.loc('A', bn.GaussianARD(a0, 1, shape=(2,), plates=(b.N(2), 1, 2), **b.pm(1, 0, 0)), -3, b.t(r.randn(2, 1, 2, 2) * .3, -4))
    X = b.loc('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), A, v, n=3, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.Dot([1., -.5], X), 2.), -2, r.randn(2, 3))


@model
def lssm_noise_local(b, r):
    A = b.glob('A', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)), r.randn(2, 2) * .3)
    X = b.loc('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), A, np.ones(2), n=3, plates=(b.N(2),), **b.pm(1)), -1)
    be = b.glob('beta', bn.Gamma(1, 1), 1.2)
    tau = b.loc('tau', bn.Gamma(1, be, plates=(b.N(2), 1), **b.pm(1, 0)), -2)
    b.obs('Y', bn.GaussianARD(bn.Dot([1., -.5], X), tau, **b.pm(1, 0, top=False)), -2, r.randn(2, 3))


@model
def lssm_inputs(b, r):
    BB = b.glob('B', bn.GaussianARD(0, 1, shape=(3,), plates=(2,)), r.randn(2, 3) * .3)
    U = r.randn(2, 2, 1)
    X = b.loc('X', bn.GaussianMarkovChain(np.zeros(2), np.eye(2), BB, np.ones(2), n=3, inputs=b.t(U, -3), plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.Dot([1., -.5], X), 2.), -2, r.randn(2, 3))


@model
def lssm_varying(b, r):
    BB = b.glob('B', bn.GaussianARD(0, 1, shape=(2, 2), plates=(2,)), r.randn(2, 2, 2) * .3)
    S = b.glob('S', bn.GaussianARD(0, 1, shape=(2,), plates=(2,)), r.randn(2, 2))
    X = b.loc('X', bn.VaryingGaussianMarkovChain(np.zeros(2), np.eye(2), BB, S, np.ones(2), n=3, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.Dot([1., -.5], X), 2.), -2, r.randn(2, 3))


@model
def poisson_gamma(b, r):
    be = b.glob('beta', bn.Gamma(1, 1), 1.3)
    la = b.loc('lam', bn.Gamma(1.5, be, plates=(b.N(3),), **b.pm(1)), -1)
    b.obs('Y', bn.Poisson(la), -1, [1, 0, 3])


@model
def beta_binomial(b, r):
    p = b.glob('p', bn.Beta([1., 1.]), .4)
    q = b.loc('q', bn.Beta([1., 2.], plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.Binomial(4, p, plates=(b.N(2),), **b.pm(1)), -1, [1, 4])
    b.obs('W', bn.Bernoulli(q), -1, [1, 0])


@model
def complement(b, r):
    p = b.glob('p', bn.Beta([1., 1.], plates=(2,)), [.4, .2])
    b.obs('Y', bn.Bernoulli(p.complement() if hasattr(p, 'complement') else p, plates=(b.N(2), 2), **b.pm(1, 0)), -2, [[1, 0], [0, 0]])


@model
def dirichlet_multinomial(b, r):
    p = b.glob('p', bn.Dirichlet([1., 2., 1.]), [.2, .5, .3])
    b.obs('Y', bn.Multinomial(4, p, plates=(b.N(2),), **b.pm(1)), -1, [[1, 3, 0], [2, 0, 2]], event=1)


@model
def concentration(b, r):
    c = b.glob('c', bn.DirichletConcentration(2))
    p = b.loc('p', bn.Dirichlet(c, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.Categorical(p), -1, [0, 1])


@model
def gamma_shape(b, r):
    a = b.glob('a', bn.GammaShape())
    be = b.glob('beta', bn.Gamma(1, 1), 1.3)
    t = b.loc('t', bn.Gamma(a, be, plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(0, t), -1, r.randn(2))


@model
def gaussian_gamma(b, r):
    x = b.glob('x', bn.GaussianGamma(np.zeros(2), np.eye(2), 2., 2.))
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', x, b.t(r.randn(3, 2), -2)), 1, **b.pm(1)), -1, r.randn(3))


@model
def gaussian_gamma_local(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    x = b.loc('x', bn.GaussianGamma(m, np.eye(2), 2., 2., plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', x, np.array([1., .5])), 1), -1, r.randn(2))


@model
def ard_local_precision(b, r):
    """local diagonal precisions of local vectors: the last plate of the gamma is a variable axis"""
    be = b.glob('beta', bn.Gamma(1, 1, plates=(2,)), [1.2, .6])
    al = b.loc('al', bn.Gamma(1, be, plates=(b.N(2), 2), **b.pm(1, 0)), -2)
    X = b.loc('X', bn.GaussianARD(0, al, shape=(2,), plates=(b.N(2),)), -1, b.t(r.randn(2, 2), -2))
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([1., -.5])), tau), -1, r.randn(2))


@model
def diag_wishart_local(b, r):
    be = b.glob('beta', bn.Gamma(1, 1, plates=(2,)), [1.2, .6])
    al = b.loc('al', bn.Gamma(1, be, plates=(b.N(2), 2), **b.pm(1, 0)), -2)
    mu = b.glob('mu', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    b.obs('Y', bn.Gaussian(mu, al.as_diagonal_wishart()), -1, r.randn(2, 2), event=1)


@model
def add_rows_cols(b, r):
    """two multiplied axes"""
    if b.rep:
        n1, n2 = 2 * b.M, 2 * b.M
    else:
        n1, n2 = 2, 2
    mm = b.glob('mm', bn.GaussianARD(0, 1), .3)
    R = b.loc('R', bn.GaussianARD(mm, 1., plates=(n1, 1), **b.pm(1, 0)), -2, b.t(r.randn(2, 1), -2))
    C = b.loc('C', bn.GaussianARD(0, 1., plates=(1, n2), **b.pm(0, 1)), -1, b.t(r.randn(1, 2), -1))
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    b.obs('Y', bn.GaussianARD(bn.Add(R, C), tau, **b.pm(1, 1, top=False)), (-2, -1), r.randn(2, 2))


@model
def slicing_int(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1, plates=(2, 1)), r.randn(2, 1))
    X = b.loc('X', bn.GaussianARD(m, 1., plates=(2, b.N(2)), **b.pm(0, 1)), -1, b.t(r.randn(2, 2)))
    t = b.loc('t', bn.Gamma(1, b.glob('beta', bn.Gamma(1, 1), 1.2), plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(X[0], t), -1, r.randn(2))


@model
def slicing_last(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1, plates=(2,)), r.randn(2))
    X = b.loc('X', bn.GaussianARD(m, 1., plates=(b.N(2), 2), **b.pm(1, 0)), -2, b.t(r.randn(2, 2), -2))
    t = b.loc('t', bn.Gamma(1, b.glob('beta', bn.Gamma(1, 1), 1.2), plates=(b.N(2),), **b.pm(1)), -1)
    b.obs('Y', bn.GaussianARD(X[:, 0], t), -1, r.randn(2))
    b.obs('W', bn.GaussianARD(X[..., 1:], 1.), -2, r.randn(2, 1))


@model
def slicing_newaxis(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1), .3)
    X = b.loc('X', bn.GaussianARD(m, 1., plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2)))
    t = b.loc('t', bn.Gamma(1, b.glob('beta', bn.Gamma(1, 1), 1.2), plates=(b.N(2), 1), **b.pm(1, 0)), -2)
    b.obs('Y', bn.GaussianARD(X[:, None], t, plates=(b.N(2), 2), **({} if b.rep else dict(plates_multiplier=(b.M, 1)))), -2, r.randn(2, 2))


@model
def slicing_leading(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1), .3)
    X = b.loc('X', bn.GaussianARD(m, 1., plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2)))
    t = b.glob('t', bn.Gamma(1, 1, plates=(2, 1)), [[1.2], [.3]])
    b.obs('Y', bn.GaussianARD(X[None], t), -1, r.randn(2, 2))


@model
def concat_gaussian(b, r):
    m = b.glob('m', bn.GaussianARD(0, 1, shape=(1,)), r.randn(1))
    X = b.loc('X', bn.GaussianARD(m, 1., shape=(1,), plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2, 1), -2))
    W = b.glob('W', bn.GaussianARD(0, 1., shape=(1,)), r.randn(1))
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', bn.ConcatGaussian(X, W), np.array([1., -.5])), 1.5), -1, r.randn(2))


@model
def exponentiate(b, r):
    """counts with local and global rates through the same plate"""
    a = b.glob('a', bn.Gamma(1, 1, plates=(2, 1)), [[1.2], [.3]])
    b.obs('Y', bn.Poisson(a, plates=(2, b.N(3)), **b.pm(0, 1)), -1, r.randint(4, size=(2, 3)))


@model
def hierarchy(b, r):
    """two levels of local variables"""
    g = b.glob('g', bn.GaussianARD(0, .5), .4)
    p = b.glob('p', bn.Gamma(1, 1), 1.5)
    x = b.loc('x', bn.GaussianARD(g, p, plates=(b.N(2), 1), **b.pm(1, 0)), -2, b.t(r.randn(2, 1), -2))
    y = b.loc('y', bn.GaussianARD(x, 1., plates=(b.N(2), 2), **({} if b.rep else dict(plates_multiplier=(b.M, 1)))), -2, b.t(r.randn(2, 2), -2))
    b.obs('Y', bn.GaussianARD(y, 1.5), -2, r.randn(2, 2))


@model
def outer_global(b, r):
    """the multiplied plate is the innermost of a global outer plate"""
    mu = b.glob('mu', bn.GaussianARD(0, 1, shape=(2,), plates=(2, 1)), r.randn(2, 1, 2))
    x = b.loc('x', bn.GaussianARD(0, 1, shape=(2,), plates=(b.N(2),), **b.pm(1)), -1, b.t(r.randn(2, 2), -2))
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,j->ij', mu, x), 1., ndim=2), -1, r.randn(2, 2, 2, 2), event=2)


# the multiplier enters at a deterministic node


@model
def product_multiplied(b, r):
    x = b.glob('x', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    tau = b.glob('tau', bn.Gamma(1, 1), .8)
    F = bn.SumMultiply('i,i', x, b.t(r.randn(3, 2), -2), **b.pm(1))
    b.obs('Y', bn.GaussianARD(F, tau, **b.pm(1)), -1, r.randn(3))


@model
def product_multiplied_rows(b, r):
    x = b.glob('x', bn.GaussianARD(0, 1, shape=(2,), plates=(2, 1)), r.randn(2, 1, 2))
    z = b.glob('z', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    F = bn.SumMultiply('i,i', x, z, **b.pm(0, 1))
    b.obs('Y', bn.GaussianARD(F, 2., plates=(2, b.N(3)), **b.pm(0, 1)), -1, r.randn(2, 3))


@model
def gaussian_gamma_multiplied(b, r):
    x = b.glob('x', bn.GaussianGamma(np.zeros(2), np.eye(2), 2., 2.))
    F = bn.SumMultiply('i,i', x, b.t(r.randn(3, 2), -2), **b.pm(1))
    b.obs('Y', bn.GaussianARD(F, 1, **b.pm(1)), -1, r.randn(3))


@model
def gaussian_gamma_multiplied_rows(b, r):
    x = b.glob('x', bn.GaussianGamma(np.zeros((2, 1, 2)), np.eye(2), [[2.], [3.]], 2., plates=(2, 1)))
    F = bn.SumMultiply('i,i', x, b.t(r.randn(3, 2), -2), **b.pm(0, 1))
    b.obs('Y', bn.GaussianARD(F, 1, **b.pm(0, 1)), -1, r.randn(2, 3))


@model
def add_multiplied(b, r):
    x = b.glob('x', bn.GaussianARD(0, 1, plates=(2, 1)), r.randn(2, 1))
    z = b.glob('z', bn.GaussianARD(0, 1), .3)
    F = bn.Add(x, z, **b.pm(0, 1))
    b.obs('Y', bn.GaussianARD(F, 2., plates=(2, b.N(2)), **b.pm(0, 1)), -1, r.randn(2, 2))


@model
def concat_multiplied(b, r):
    x = b.glob('x', bn.GaussianARD(0, 1, shape=(1,)), r.randn(1))
    z = b.glob('z', bn.GaussianARD(0, 1, shape=(2,)), r.randn(2))
    F = bn.ConcatGaussian(x, z, **b.pm(1))
    b.obs('Y', bn.GaussianARD(bn.SumMultiply('i,i', F, np.array([1., -.5, .7])), 2., plates=(b.N(2),), **b.pm(1)), -1, r.randn(2))


@model
def gate_multiplied(b, r):
    Z = b.glob('Z', bn.Categorical([.3, .7], plates=(2, 1)), [[0], [1]])
    mu = b.glob('mu', bn.GaussianARD(0, 1., plates=(2,)), r.randn(2))
    F = bn.Gate(Z, mu, **b.pm(0, 1))
    b.obs('Y', bn.GaussianARD(F, 2., plates=(2, b.N(3)), **b.pm(0, 1)), -1, r.randn(2, 3))


# ----------------------------------------------------------------


def make(name, M, rep, masked, where):
    b = B(M, rep, masked, where)
    MODELS[name](b, engine.rng('c18', name))
    b.vb = VB(*b.n.values())
    b.vb.ignore_bound_checks = True
    return b


def copies(x, axis, ev, N, plates_ndim):
    """expand a local moment of the mini-batch to the replicated shape"""
    for a in (axis if isinstance(axis, tuple) else (axis,)):
        x = np.concatenate([x] * N, axis=a - ev)
    return x


def full(n, i):
    return np.array(np.broadcast_to(n.u[i], n.plates + n.dims[i]))


def compare(ctx, a, b, label):
    for k in a.n:
        A, R = a.n[k], b.n[k]
        if not ctx.ok(len(A.u) == len(R.u), 'moments', label):
            return
        for i in range(len(A.u)):
            x, y = full(A, i), full(R, i)
            if k in a.local:
                x = copies(x, a.local[k], len(A.dims[i]), b.M, None)
            ctx.close(x, y, 'moments equal those of the replicated model', msg='%s: %s %d' % (label, k, i))
    La, Lb = a.vb.compute_lowerbound(), b.vb.compute_lowerbound()
    ctx.close(La, Lb, 'bound equals that of the replicated model', rtol=1e-8, atol=1e-8, msg=label)
    for k in a.n:
        ca, cb = a.n[k].lower_bound_contribution(), b.n[k].lower_bound_contribution()
        ctx.close(ca, cb, 'contribution to the bound equals that in the replicated model', rtol=1e-8, atol=1e-8, msg='%s: %s' % (label, k))
        ca, cb = (np.sum(x.n[k].lower_bound_contribution(ignore_masked=False)) for x in (a, b))
        ctx.close(ca, cb, 'contribution including ignored elements equals that in the replicated model', rtol=1e-8, atol=1e-8, msg='%s: %s' % (label, k))


def gradients(ctx, a, b, label):
    for k in a.lat:
        A, R = a.n[k], b.n[k]
        if not hasattr(A, 'get_riemannian_gradient'):
            continue
        ga, gb = A.get_riemannian_gradient(), R.get_riemannian_gradient()
        for i in range(len(ga)):
            x = np.broadcast_to(ga[i], A.plates + A.dims[i])
            y = np.broadcast_to(gb[i], R.plates + R.dims[i])
            if k in a.local:
                x = copies(x, a.local[k], len(A.dims[i]), b.M, None)
            ctx.close(x, y, 'natural gradient equals that of the replicated model', msg='%s: %s %d' % (label, k, i))


def apply(m, op):
    k, how = op
    if how == 'update':
        m.n[k].update()
    elif how == 'vb':
        m.vb.update(m.n[k], repeat=1, verbose=False, tol=-1)
    else:
        m.vb.gradient_step(m.n[k], scale=.3)


def ops(m):
    out = [(k, 'update') for k in m.lat]
    out += [(k, 'step') for k in m.lat if k not in m.local and hasattr(m.n[k], 'get_riemannian_gradient')]
    return out


def cases(tier):
    for name in MODELS:
        for M in (2, 3) if tier == 'quick' else (2, 3, 5):
            for masked in (False, True):
                for where in ('top', 'all'):
                    yield ['rep', name, M, masked, where]
        yield ['frac', name]
    for n in ('take', 'concat', 'choose', 'slice', 'bad'):
        yield ['reject', n]


def run(ctx, case):
    if case[0] == 'rep':
        return f_rep(ctx, case)
    if case[0] == 'frac':
        return f_frac(ctx, case)
    f_reject(ctx, case)


def f_rep(ctx, case):
    _, name, M, masked, where = case
    mk = lambda rep: make(name, M, rep, masked, where)
    a, b = mk(False), mk(True)
    if where == 'all' and ctx.tier == 'quick' and (M != 2 or masked):
        depth = 1
    else:
        depth = 2 if ctx.tier == 'quick' else 3
        if M == 3 and ctx.tier == 'quick':
            depth = 1
    compare(ctx, a, b, 'initial')
    if ctx.failures:
        return
    for seq in itertools.product(ops(a), repeat=depth):
        a, b = mk(False), mk(True)
        for j, op in enumerate(seq):
            gradients(ctx, a, b, '%s step %d' % (seq, j))
            apply(a, op)
            apply(b, op)
            ctx.op(2)
            if j == len(seq) - 1:
                compare(ctx, a, b, str(seq))
        ctx.state(name, M, masked, [full(n, 0) for n in a.n.values()])
        ctx.traces += 1
        if ctx.failures:
            return
    # sweeps, through the engine
    a, b = mk(False), mk(True)
    for it in range(2):
        for k in a.lat:
            apply(a, (k, 'vb'))
            apply(b, (k, 'vb'))
            ctx.op(2)
            compare(ctx, a, b, 'sweep %d %s' % (it, k))
            if ctx.failures:
                return
    ctx.close(a.vb.L[:len(a.lat)], b.vb.L[:len(a.lat)], 'recorded bounds', rtol=1e-8, atol=1e-8)
    gradients(ctx, a, b, 'after the sweeps')


def f_frac(ctx, case):
    """messages and the bound are linear in the multiplier"""
    name = case[1]
    if name == 'add_rows_cols':
        Ms = None
    r = {}
    for M in (1, 1.5, 2):
        m = make(name, M, False, False, 'all')
        one = {k: [np.array(g) for g in m.n[k].get_riemannian_gradient()] for k in m.lat if k not in m.local and hasattr(m.n[k], 'get_riemannian_gradient')}
        r[M] = (one, m.vb.compute_lowerbound())
        ctx.op()
    if name == 'add_rows_cols':
        ctx.ok(True, 'quadratic')
        return
    for k in r[1][0]:
        for x, y, z in zip(r[1][0][k], r[1.5][0][k], r[2][0][k]):
            ctx.close(y + 0 * x, .5 * (x + z), 'natural gradient is linear in the multiplier', msg=k)
    ctx.close(r[1.5][1], .5 * (r[1][1] + r[2][1]), 'bound is linear in the multiplier')
    ctx.state(name)


def f_reject(ctx, case):
    def raises(f, label):
        ctx.op()
        try:
            f()
        except Exception:
            ctx.ok(True, 'rejected')
            return
        ctx.fail('unsupported multiplier accepted', label)
    X = bn.GaussianARD(0, 1, plates=(2, 3), plates_multiplier=(1, 4))
    W = bn.GaussianARD(0, 1, plates=(2, 3))
    if case[1] == 'take':
        raises(lambda: bn.Take(X, [0, 1, 1]), 'Take')
        raises(lambda: bn.Take(X, [0, 1, 1], plate_axis=-2), 'Take')
    elif case[1] == 'choose':
        x = bn.GaussianARD(0, 1, plates=(3,), plates_multiplier=(4,))
        raises(lambda: bn.Choose(bn.Categorical([.3, .7], plates=(3,)), x, bn.GaussianARD(0, 1)), 'Choose')
    elif case[1] == 'slice':
        raises(lambda: X[:, 0], 'integer index of a multiplied axis')
        raises(lambda: X[..., -1], 'integer index of a multiplied axis')
    elif case[1] == 'concat':
        raises(lambda: bn.Concatenate(X, W), 'Concatenate')
        raises(lambda: bn.Concatenate(W, X), 'Concatenate')
    else:
        raises(lambda: bn.GaussianARD(X, 1, plates_multiplier=(1, 3)), 'different multiplier in the child')
        raises(lambda: bn.GaussianARD(X, 1, plates_multiplier=(4, 1)), 'different axis in the child')
        raises(lambda: bn.GaussianARD(X, 1, plates_multiplier=(1, 1)), 'no multiplier in the child')
        Y = bn.GaussianARD(0, 1, plates=(2, 3), plates_multiplier=(1, 5))
        raises(lambda: bn.GaussianARD(X, bn.Gamma(1, 1, plates=(2, 3), plates_multiplier=(1, 5))), 'different multipliers in the parents')
        raises(lambda: bn.Add(X, Y), 'different multipliers in the parents')
    ctx.state(case)
