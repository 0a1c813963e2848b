"""C03: densities, moments and normalisers of every distribution node."""
import itertools
import numpy as np
from scipy import integrate
from scipy.special import psi, gammaln, logsumexp
from bayespy import nodes as bn
from . import ref, engine

ID = 'C03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of families x parameter grids x plate layouts x ways to set the factor'
RULE = ('every distribution family x every parameter of its grid x plate layouts x {prior, parameters, value, update, '
        'observed}; at each, log density at every support/grid point, normalisation and expectations of the sufficient '
        'statistics against the textbook density (sums over the whole support or quadrature)')
BOUND = 'finite supports enumerated completely (n<=4, K<=3); continuous supports by quadrature / closed form'
ASSUMPTIONS = ['parameter grids listed in mc/c03.py']


def quad_expect(logp, stats, lo, hi, pts=None):
    out = []
    for s in [lambda x: 1.0] + list(stats):
        v, e = integrate.quad(lambda x: np.exp(logp(x)) * s(x), lo, hi, limit=400, points=pts, epsabs=1e-11, epsrel=1e-10)
        out.append(v)
    return np.array(out)


def spd(r, d):
    A = r.randn(d, d)
    return A @ A.T + np.eye(d)


class Fam:
    """make(params, **kw) -> node; logp(x, params); support(params) -> list of points;
    stats(x) -> list of sufficient statistics; expect(params) -> list of expectations"""
    init_params = True


class FGamma(Fam):
    grid = [(1.0, 1.0), (0.5, 2.0), (3.7, 0.2), (20.0, 50.0), (1e-1, 1e-1)]

    def make(self, p, **kw): return bn.Gamma(p[0], p[1], **kw)
    def points(self, p): return [0.01, 0.4, 1.0, 7.3]
    def logp(self, x, p): return ref.lgam(x, *p)
    def stats(self, x): return [x, np.log(x)]
    def expect(self, p):
        a, b = p
        # substitution x = exp(t)
        f = lambda t: ref.lgam(np.exp(t), a, b) + t
        v = quad_expect(f, [np.exp, lambda t: t], -300 if a < .3 else -60, np.log(60 * (a + 1) / b) + 3, pts=[np.log(a / b)])
        return v[0], [v[1], v[2]]


class FGauss0(Fam):
    grid = [(0.0, 1.0), (-1.3, 0.2), (4.0, 25.0), (1e2, 1e-2)]

    def make(self, p, **kw): return bn.GaussianARD(p[0], p[1], **kw)
    def points(self, p): return [-3.0, 0.0, 0.7, 105.0]
    def logp(self, x, p): return ref.lnorm(x, *p)
    def stats(self, x): return [x, x * x]
    def expect(self, p):
        s = p[1] ** -0.5
        v = quad_expect(lambda x: ref.lnorm(x, *p), [lambda x: x, lambda x: x * x], p[0] - 12 * s, p[0] + 12 * s)
        return v[0], [v[1], v[2]]


class FGaussN0(FGauss0):
    """Gaussian with ndim=0"""
    def make(self, p, **kw): return bn.Gaussian(p[0], p[1], ndim=0, **kw)


class FARD(Fam):
    """vector / matrix GaussianARD"""
    def __init__(self, shape):
        self.shape = shape
        r = engine.rng('c03', shape)
        n = int(np.prod(shape))
        self.grid = [(np.zeros(shape).tolist(), np.ones(shape).tolist()),
                     (r.randn(*shape).tolist(), (r.rand(*shape) + .3).tolist()),
                     (0.5, (r.rand(*shape[-1:]) + .3).tolist()),
                     ((r.randn(*shape)).tolist(), 2.0)]

    def make(self, p, **kw): return bn.GaussianARD(np.array(p[0]), np.array(p[1]), shape=self.shape, **kw)
    def points(self, p):
        r = engine.rng('c03p', self.shape)
        return [np.zeros(self.shape)] + [2 * r.randn(*self.shape) for _ in range(3)]
    def logp(self, x, p): return ref.lnorm(x, np.array(p[0]), np.array(p[1])).sum()
    def stats(self, x): return [x, np.multiply.outer(x, x)]
    def expect(self, p):
        mu = np.array(p[0]) * np.ones(self.shape)
        v = 1 / (np.array(p[1]) * np.ones(self.shape))
        n = int(np.prod(self.shape))
        return 1.0, [mu, (np.outer(mu.ravel(), mu.ravel()) + np.diag(v.ravel())).reshape(self.shape * 2)]


class FMVN(Fam):
    def __init__(self, shape=(2,)):
        self.shape = shape
        r = engine.rng('c03mvn', shape)
        n = int(np.prod(shape))
        self.n = n
        self.grid = [(np.zeros(shape).tolist(), np.eye(n).reshape(shape * 2).tolist()),
                     (r.randn(*shape).tolist(), spd(r, n).reshape(shape * 2).tolist()),
                     (r.randn(*shape).tolist(), (0.01 * spd(r, n)).reshape(shape * 2).tolist())]

    def make(self, p, **kw):
        if len(self.shape) != 1:
            kw['ndim'] = len(self.shape)
        return bn.Gaussian(np.array(p[0]), np.array(p[1]), **kw)
    def points(self, p):
        r = engine.rng('c03p', self.shape)
        return [np.zeros(self.shape)] + [2 * r.randn(*self.shape) for _ in range(3)]
    def logp(self, x, p): return ref.lmvn_prec(np.ravel(x), np.ravel(p[0]), np.reshape(p[1], (self.n, self.n)))
    def stats(self, x): return [x, np.multiply.outer(x, x)]
    def expect(self, p):
        mu = np.ravel(p[0])
        S = np.linalg.inv(np.reshape(p[1], (self.n, self.n)))
        return 1.0, [mu.reshape(self.shape), (S + np.outer(mu, mu)).reshape(self.shape * 2)]


class FWish(Fam):
    def __init__(self, k):
        self.k = k
        r = engine.rng('c03w', k)
        self.grid = [(float(k), np.eye(k).tolist()), (k + 1.7, spd(r, k).tolist()), (30.0, (0.1 * spd(r, k)).tolist())]

    def make(self, p, **kw): return bn.Wishart(p[0], np.array(p[1]), **kw)
    def points(self, p):
        r = engine.rng('c03wp', self.k)
        return [np.eye(self.k)] + [spd(r, self.k) for _ in range(3)]
    def logp(self, x, p):
        from scipy.stats import wishart
        a = ref.lwish(x, p[0], np.array(p[1]))
        b = wishart(df=p[0], scale=np.linalg.inv(np.array(p[1]))).logpdf(x)
        assert abs(a - b) < 1e-8 * (1 + abs(a))
        return a
    def stats(self, x): return [x, np.linalg.slogdet(x)[1]]
    def expect(self, p):
        n, V = p[0], np.array(p[1])
        k = self.k
        return 1.0, [n * np.linalg.inv(V), sum(psi((n - i) / 2) for i in range(k)) + k * np.log(2) - np.linalg.slogdet(V)[1]]


class FBeta(Fam):
    grid = [((1.0, 1.0),), ((0.5, 0.5),), ((3.0, 0.7),), ((40.0, 12.0),)]

    def make(self, p, **kw): return bn.Beta(np.array(p[0]), **kw)
    def points(self, p): return [0.02, 0.5, 0.9]
    def logp(self, x, p): return ref.ldir(np.array([x, 1 - x]), p[0])
    def stats(self, x): return [np.array([np.log(x), np.log(1 - x)])]
    def expect(self, p):
        a, b = p[0]
        # logit substitution
        lse = lambda t: np.logaddexp(0, t)
        c = gammaln(a + b) - gammaln(a) - gammaln(b)
        f = lambda t: c - a * lse(-t) - b * lse(t)
        v = quad_expect(f, [lambda t: -lse(-t), lambda t: -lse(t)], -100, 100, pts=[0.0, np.log(a / b)])
        return v[0], [np.array([v[1], v[2]])]


class FDir(Fam):
    def __init__(self, k):
        self.k = k
        self.grid = [(tuple([1.0] * k),), (tuple(0.3 + 0.5 * i for i in range(k)),), (tuple(9.0 - 2 * i for i in range(k)),)]

    def make(self, p, **kw): return bn.Dirichlet(np.array(p[0]), **kw)
    def points(self, p):
        r = engine.rng('c03d', self.k)
        x = r.rand(4, self.k) + .05
        return list(x / x.sum(-1, keepdims=True))
    def logp(self, x, p): return ref.ldir(x, p[0])
    def stats(self, x): return [np.log(x)]
    def expect(self, p):
        a = np.array(p[0])
        return 1.0, [psi(a) - psi(a.sum())]


class Disc(Fam):
    """discrete families: full enumeration of the support"""
    def expect(self, p):
        xs = self.support(p)
        w = np.exp([float(self.logp(x, p)) for x in xs])
        st = [self.stats(x) for x in xs]
        return w.sum(), [sum(wi * np.asarray(s[i], float) for wi, s in zip(w, st)) for i in range(len(st[0]))]
    def points(self, p): return self.support(p)


class FBern(Disc):
    grid = [(0.3,), (0.999,), (0.5,)]
    def make(self, p, **kw): return bn.Bernoulli(p[0], **kw)
    def support(self, p): return [0, 1]
    def logp(self, x, p): return ref.lbern(x, p[0])
    def stats(self, x): return [x]


class FBinom(Disc):
    grid = [(1, 0.3), (4, 0.3), (3, 0.95), (0, 0.4)]
    def make(self, p, **kw): return bn.Binomial(p[0], p[1], **kw)
    def support(self, p): return list(range(p[0] + 1))
    def logp(self, x, p): return ref.lbinom(x, *p)
    def stats(self, x): return [x]
    init_params = False


class FCat(Disc):
    grid = [((0.3, 0.7),), ((0.2, 0.3, 0.5),), ((1.0,),), ((0.5, 0.5, 0.0),)]
    def make(self, p, **kw): return bn.Categorical(np.array(p[0]), **kw)
    def support(self, p): return [k for k in range(len(p[0])) if p[0][k] > 0]
    def logp(self, x, p): return np.log(p[0][x])
    def stats(self, x): raise NotImplementedError
    def statsk(self, x, p): return [np.eye(len(p[0]))[x]]
    def expect(self, p): return float(sum(p[0])), [np.array(p[0])]


class FMult(Disc):
    grid = [(2, (0.3, 0.7)), (3, (0.2, 0.3, 0.5)), (1, (0.2, 0.3, 0.5)), (0, (0.5, 0.5)), (4, (0.1, 0.1, 0.8))]
    def make(self, p, **kw): return bn.Multinomial(p[0], np.array(p[1]), **kw)
    def support(self, p): return [np.array(c) for c in ref.compositions(p[0], len(p[1]))]
    def logp(self, x, p): return ref.lmult(np.asarray(x), p[0], np.array(p[1]))
    def stats(self, x): return [np.asarray(x, float)]
    init_params = False


class FPois(Disc):
    grid = [(0.5,), (1.0,), (6.5,)]
    def make(self, p, **kw): return bn.Poisson(p[0], **kw)
    def support(self, p): return list(range(0, 60))
    def points(self, p): return [0, 1, 2, 9]
    def logp(self, x, p): return ref.lpois(x, p[0])
    def stats(self, x): return [x]


class FGG(Fam):
    """Gaussian-gamma, vector x"""
    def __init__(self, d):
        self.d = d
        r = engine.rng('c03gg', d)
        self.grid = [(np.zeros(d).tolist(), np.eye(d).tolist(), 1.0, 1.0), (r.randn(d).tolist(), spd(r, d).tolist(), 3.2, 0.7)]
    def make(self, p, **kw): return bn.GaussianGamma(np.array(p[0]), np.array(p[1]), p[2], p[3], **kw)
    def points(self, p):
        r = engine.rng('c03ggp', self.d)
        return [(r.randn(self.d), 0.3 + r.rand()) for _ in range(3)]
    def logp(self, x, p): return ref.lmvn_prec(x[0], np.array(p[0]), x[1] * np.array(p[1])) + ref.lgam(x[1], p[2], p[3])
    def stats(self, x): return [x[0] * x[1], np.outer(x[0], x[0]) * x[1], x[1], np.log(x[1])]
    def expect(self, p):
        mu, L, a, b = np.array(p[0]), np.array(p[1]), p[2], p[3]
        t = a / b
        return 1.0, [mu * t, np.linalg.inv(L) + np.outer(mu, mu) * t, t, psi(a) - np.log(b)]
    init_params = False


FAMS = dict(gamma=FGamma(), gauss0=FGauss0(), gaussN0=FGaussN0(), ard1=FARD((2,)), ard1x1=FARD((1,)), ard2=FARD((2, 2)), ard13=FARD((1, 3)), mvn=FMVN((2,)), mvn1=FMVN((1,)), mvn3=FMVN((3,)),
            mvn22=FMVN((2, 2)), wish1=FWish(1), wish2=FWish(2), wish3=FWish(3), beta=FBeta(), dir2=FDir(2), dir3=FDir(3), bern=FBern(), binom=FBinom(),
            cat=FCat(), mult=FMult(), pois=FPois(), gg2=FGG(2), gg1=FGG(1))
PLATES = [(), (1,), (2,), (2, 2)]


def cases(tier):
    for name, F in FAMS.items():
        for i in range(len(F.grid)):
            for pl in PLATES if tier == 'quick' else PLATES + [(3, 1, 2)]:
                yield ['prior', name, i, list(pl)]
                if F.init_params and len(F.grid) > 1:
                    for j in range(len(F.grid)):
                        if j != i:
                            yield ['params', name, i, j, list(pl)]
            # every pair of values on two plates, observed or as an initial value
            npt = len(F.points(F.grid[i]))
            for a in range(npt):
                yield ['value', name, i, a]
            for (a, b) in itertools.product(range(npt), repeat=2):
                yield ['observe', name, i, a, b]
        # different parameters on different plates
        for (i, j) in itertools.product(range(len(F.grid)), repeat=2):
            yield ['mixed', name, i, j]
    for i in range(6):
        for m in itertools.product([-9.0, -0.4], [0.3, 8.0]):
            yield ['trunc', i, [str(x) for x in m]]
    for D in (1, 2, 3):
        for a, b in ((2.5, 1.7), (.8, 2.), (1.2, .4)):
            for how in ('prior', 'update', 'children'):
                yield ['gg', D, a, b, how]


def stats(F, x, p):
    return F.statsk(x, p) if isinstance(F, FCat) else F.stats(x)


def pack(F, xs, plates):
    """array of values with the given plates"""
    if isinstance(F, FGG):
        return (np.reshape(np.array([x[0] for x in xs]), tuple(plates) + (F.d,)), np.reshape(np.array([x[1] for x in xs]), tuple(plates)))
    a = np.array(xs)
    return np.reshape(a, tuple(plates) + np.shape(xs[0]))


def check_factor(ctx, F, node, p, plates, tag, logpdf=True):
    """node holds the distribution with parameters p on all its plates"""
    tot, ex = F.expect(p)
    assert abs(tot - 1) < 1e-8, (tot, p)
    u = node.get_moments()
    ctx.ok(len(u) == len(ex), tag + ' number of moments', len(u))
    for i, (ui, ei) in enumerate(zip(u, ex)):
        full = np.broadcast_to(np.asarray(ui, float), tuple(plates) + np.shape(ei))
        ctx.close(full, np.broadcast_to(ei, tuple(plates) + np.shape(ei)), '%s moment %d' % (tag, i), 1e-7, 1e-8)
    if not logpdf:
        return
    pts = F.points(p)
    lps = []
    for x in pts:
        X = pack(F, [x] * int(np.prod(plates)), plates)
        lp = node.logpdf(X)
        ctx.op()
        ctx.close(np.broadcast_to(lp, plates), np.full(plates, float(F.logp(x, p))), tag + ' logpdf', 1e-9, 1e-9)
        ctx.close(np.broadcast_to(node.pdf(X), plates), np.exp(np.full(plates, float(F.logp(x, p)))), tag + ' pdf', 1e-8, 1e-12)
        lps.append(lp)
    if isinstance(F, Disc) and not isinstance(F, FPois):
        ctx.close(np.sum(np.exp(np.array([np.broadcast_to(l, plates) for l in lps])), axis=0), np.ones(plates), tag + ' normalisation', 1e-8, 1e-10)
    ctx.state(tag, [np.asarray(a, float) for a in u])


def run(ctx, case):
    if case[0] == 'gg':
        return run_gg(ctx, case)
    fam = case[0]
    if fam == 'trunc':
        return run_trunc(ctx, case)
    name = case[1]
    F = FAMS[name]
    if fam == 'prior':
        p, plates = F.grid[case[2]], tuple(case[3])
        kw = dict(plates=plates)
        if name == 'binom' or name == 'mult':
            p = (np.array(p[0]).item(),) + tuple(p[1:])
        node = F.make(p, **kw)
        ctx.ok(tuple(node.plates) == plates, 'plates', node.plates)
        check_factor(ctx, F, node, p, plates, 'prior')
        node.update()
        ctx.op()
        check_factor(ctx, F, node, p, plates, 'childless update')
        ctx.close(np.sum(node.lower_bound_contribution(ignore_masked=False)), 0.0, 'bound of the prior', 1e-9, 1e-8)
    elif fam == 'params':
        p, q, plates = F.grid[case[2]], F.grid[case[3]], tuple(case[4])
        if name == 'cat' and len(p[0]) != len(q[0]):
            ctx.ok(True, 'n/a')
            return
        node = F.make(p, plates=plates)
        args = [np.array(a) for a in q]
        node.initialize_from_parameters(*args)
        ctx.op()
        check_factor(ctx, F, node, q, plates, 'params')
        # KL divergence: bound of a node whose factor differs from its prior is never positive
        L = np.sum(node.lower_bound_contribution(ignore_masked=False))
        ctx.ok(L <= 1e-8, 'KL sign', L)
        node.update()
        check_factor(ctx, F, node, p, plates, 'update after params')
    elif fam == 'value':
        p = F.grid[case[2]]
        pts = F.points(p)
        x = pts[case[3]]
        y = pts[(case[3] + 1) % len(pts)]
        node = F.make(p, plates=(2,))
        node.initialize_from_value(pack(F, [x, y], (2,)))
        ctx.op()
        u = node.get_moments()
        for i in range(len(u)):
            e = np.array([np.asarray(stats(F, x, p)[i], float), np.asarray(stats(F, y, p)[i], float)])
            ctx.close(np.asarray(u[i], float), e, 'value moment %d' % i, 1e-10, 1e-12)
        node.initialize_from_prior()
        check_factor(ctx, F, node, p, (2,), 'prior after value')
    elif fam == 'observe':
        p = F.grid[case[2]]
        pts = F.points(p)
        x, y = pts[case[3]], pts[case[4]]
        node = F.make(p, plates=(2,))
        node.observe(pack(F, [x, y], (2,)))
        ctx.op()
        L = np.sum(node.lower_bound_contribution())
        ctx.close(L, float(F.logp(x, p)) + float(F.logp(y, p)), 'observed contribution', 1e-9, 1e-9)
        u = node.get_moments()
        for i in range(len(u)):
            e = np.array([np.asarray(stats(F, x, p)[i], float), np.asarray(stats(F, y, p)[i], float)])
            ctx.close(np.asarray(u[i], float), e, 'observed moment %d' % i, 1e-10, 1e-12)
        for m in ([True, False], [False, True]):
            n2 = F.make(p, plates=(2,))
            n2.observe(pack(F, [x, y], (2,)), mask=np.array(m))
            ctx.op()
            ctx.close(np.sum(n2.lower_bound_contribution()), float(F.logp(x if m[0] else y, p)), 'masked contribution', 1e-9, 1e-9)
    elif fam == 'mixed':
        p, q = F.grid[case[2]], F.grid[case[3]]
        try:
            arrs = []
            for a, b in zip(p, q):
                a, b = np.asarray(a), np.asarray(b)
                if a.ndim != b.ndim:
                    s = np.broadcast_shapes(a.shape, b.shape)
                    a, b = np.broadcast_to(a, s), np.broadcast_to(b, s)
                arrs.append(np.stack([a, b]))
        except ValueError:
            ctx.ok(True, 'n/a')
            return
        if name in ('ard1', 'ard1x1', 'ard2', 'ard13') and any(np.ndim(a) == 1 or (np.ndim(a) != len(F.shape) + 1) for a in arrs):
            ctx.ok(True, 'n/a')
            return
        node = F.make(tuple(arrs))
        ctx.ok(tuple(node.plates) == (2,), 'plates', node.plates)
        for k, pp in enumerate((p, q)):
            _, ex = F.expect(pp)
            for i, ei in enumerate(ex):
                u = np.broadcast_to(np.asarray(node.get_moments()[i], float), (2,) + np.shape(ei))
                ctx.close(u[k], np.asarray(ei, float), 'mixed moment %d' % i, 1e-7, 1e-8)
        # joint observation of one point per plate
        P, Q = F.points(p), F.points(q)
        for (x, y) in itertools.product(P[:4], Q[:4]):
            X = pack(F, [x, y], (2,))
            want = np.array([float(F.logp(x, p)), float(F.logp(y, q))])
            ctx.close(np.broadcast_to(node.logpdf(X), (2,)), want, 'mixed logpdf', 1e-9, 1e-9)
            ctx.op()
        n2 = F.make(tuple(arrs))
        n2.observe(X)
        ctx.close(np.sum(n2.lower_bound_contribution()), want.sum(), 'mixed observed', 1e-9, 1e-9)


def run_gg(ctx, case):
    """marginals of a Gaussian-gamma distribution"""
    from scipy import stats as st
    _, D, a, b, how = case
    r = engine.rng('c03gg', D, a, b)
    mu, L = r.randn(D), spd(r, D)
    X = bn.GaussianGamma(mu, L, a, b)
    if how == 'update':
        Y = bn.Gaussian(X, 1.3 * np.eye(D))
        Y.observe(r.randn(D))
        X.update()
    elif how == 'children':
        Y = bn.Gaussian(X, spd(r, D), plates=(3,))
        Y.observe(r.randn(3, D))
        X.update()
    K = -2 * X.phi[1]
    C = np.linalg.inv(K)
    m = C @ X.phi[0]
    A, B = float(X.phi[3]), float(-X.phi[2] - .5 * m @ K @ m)
    ctx.ok(A > 0 and B > 0, 'valid parameters', (A, B))
    ctx.close(X.get_gaussian_location(), m, 'location', 1e-9, 1e-10)
    if A > 1:
        e = X.get_gaussian_mean_and_variance()
        ctx.close(e[0], m, 'marginal mean', 1e-9, 1e-10)
        ctx.close(e[1], np.diag(C) * B / (A - 1), 'marginal variance', 1e-9, 1e-10)
    t = np.array([.2, .9, 2.5])
    ctx.close(X.get_marginal_logpdf(gamma=True)(t), st.gamma(A, scale=1 / B).logpdf(t), 'marginal density of the precision', 1e-9, 1e-10)
    for n in range(1, D + 1):
        for inds in itertools.permutations(range(D), n):
            i = list(inds)
            x = r.randn(3, n)
            ctx.op(2)
            ctx.close(X.get_marginal_logpdf(gaussian=i)(x), st.multivariate_t(m[i], C[np.ix_(i, i)] * B / A, df=2 * A).logpdf(x), 'marginal density', 1e-8, 1e-9, msg='%s' % i)
            want = [st.multivariate_normal(m[i], C[np.ix_(i, i)] / q).logpdf(y) + st.gamma(A, scale=1 / B).logpdf(q) for y, q in zip(x, t)]
            ctx.close(X.get_marginal_logpdf(gaussian=i, gamma=True)(np.concatenate([x, t[:, None]], -1)), np.array(want), 'joint density with the precision', 1e-8, 1e-9, msg='%s' % i)
            ctx.state(D, a, b, how, i)


def run_trunc(ctx, case):
    i, lim = case[1], [float(x) for x in case[2]]
    grid = [(0.0, 1.0), (0.3, 2.0), (-1.0, 0.5), (2.0, 4.0), (0.1, 0.1), (-2.0, 1.5)]
    mu, tau = grid[i]
    node = bn.Gaussian(np.array([mu]), np.array([[tau]]))
    node.observe_limits(np.array([lim[0]]), np.array([lim[1]]))
    node.update()
    ctx.op(2)
    s = tau ** -0.5
    lo, hi = max(lim[0], mu - 12 * s), min(lim[1], mu + 12 * s)
    v = quad_expect(lambda x: ref.lnorm(x, mu, tau), [lambda x: x, lambda x: x * x], lo, hi)
    u = node.get_moments()
    ctx.close(np.ravel(u[0])[0], v[1] / v[0], 'truncated mean', 1e-6, 1e-7)
    ctx.close(np.ravel(u[1])[0], v[2] / v[0], 'truncated second moment', 1e-6, 1e-7)
    ctx.close(np.sum(node.lower_bound_contribution()), np.log(v[0]), 'truncated bound', 1e-6, 1e-7)
