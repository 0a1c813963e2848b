"""C02: bound <= log evidence at every state; conjugate single-latent models are exact after one update."""
import itertools
import numpy as np
from scipy import integrate
from scipy.special import psi, gammaln, logsumexp
from bayespy import nodes as bn
from . import ref, engine, zoo

ID = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of conjugate models x data x masks, and of schedules, against exact evidence'
RULE = ('(a) every conjugate single-latent model x prior grid x every observation vector (discrete) or fixed vector (continuous) x '
        'every missing-data mask x every starting factor: posterior moments and bound equal the closed form; '
        '(b) every update schedule of length d of multi-latent models whose evidence is computable by summing out assignments / '
        'closed form / quadrature: bound <= evidence at every state, and equality when the posterior factorises')
BOUND = dict(quick='3 data items, all 8 masks, all discrete data vectors, schedules of length 4', thorough='schedules of length 6, 4 data items')
CASE_TIMEOUT = 400


def masks(n):
    return list(itertools.product([0, 1], repeat=n))


def mk(m):
    return np.array(m, dtype=bool)


INITS = ['prior', 'value', 'params']
PRIORS = dict(
    gauss=[(0.0, 1.0), (1.3, 0.05), (-0.5, 4.0)],
    gauss_tau=[(1.0, 1.0), (0.3, 2.0), (5.0, 0.5)],
    gauss_both_plates=[(0.0, 1.0), (0.4, 0.3)],
    mvn_mu=[0, 1], mvn_lambda=[0, 1], wish_V=[0, 1],
    bern=[(1.0, 1.0), (0.4, 2.0)], binom=[(1.0, 1.0), (0.4, 2.0)],
    cat=[(1.0, 1.0), (0.4, 0.9, 2.0)], mult=[(1.0, 1.0), (0.4, 0.9, 2.0)],
    pois=[(1.0, 1.0), (0.3, 2.5)], gamma_rate=[(1.0, 1.0), (0.7, 2.5)],
    cat_latent=[(0.5, 0.5), (0.2, 0.3, 0.5)],
    regress=[0, 1], regress_ard=[0, 1], gg=[0, 1], gg_scalar=[0, 1], cat_gate=[0, 1], cmc=[0, 1], gmc=[0, 1], two_children=[0, 1], ard_vec=[0, 1],
    scaled_wish=[0, 1], diag_gamma=[0, 1], gauss_plates=[0, 1], add_one=[0, 1], cat_gauss=[0, 1])


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for name, pri in PRIORS.items():
        for i in range(len(pri)):
            for m in masks(n):
                for init in INITS:
                    if name in ('bern', 'cat', 'pois', 'binom', 'mult'):
                        K = dict(bern=2, cat=2 if i == 0 else 3, pois=3, binom=3, mult=3)[name]
                        for first in range(K):
                            yield ['exact', name, i, n, list(m), init, first]
                    else:
                        yield ['exact', name, i, n, list(m), init, 0]
    d = 4 if tier == 'quick' else 6
    for name in BOUNDED:
        for mi in range(8 if name not in ('gauss_gamma',) else 4):
            for init in INITS:
                yield ['bound', name, mi, init, d]
    for mi in range(8):
        yield ['product', mi]


def init_node(node, init, val, par):
    if init == 'value' and val is not None:
        node.initialize_from_value(val)
    elif init == 'params' and par is not None:
        node.initialize_from_parameters(*par)


def total(nodes):
    return float(sum(np.sum(n.lower_bound_contribution()) for n in nodes))


def verify(ctx, X, nodes, mom, ev, tag, rtol=1e-7):
    """update X once: exact posterior moments, bound == evidence; again: unchanged"""
    for rep in range(2):
        X.update()
        ctx.op()
        u = X.get_moments()
        for i, e in enumerate(mom):
            if e is None:
                continue
            e = np.asarray(e, float)
            ctx.close(np.broadcast_to(np.asarray(u[i], float), e.shape), e, '%s moment %d' % (tag, i), rtol, 1e-8)
        ctx.close(total(nodes), ev, tag + ' bound', 1e-8, 1e-8)
    ctx.state(tag, [np.asarray(a, float) for a in u], ev)


# ---------------------------------------------------------------------------------------------
def run(ctx, case):
    if case[0] == 'exact':
        _, name, i, n, m, init, first = case
        globals()['ex_' + name](ctx, i, n, mk(m), init, engine.rng('c02', name, i, n), first)
    elif case[0] == 'bound':
        run_bound(ctx, case)
    else:
        run_product(ctx, case[1])


def data_loop(K, n, first):
    for t in itertools.product(range(K), repeat=n - 1):
        yield np.array((first,) + t)


def ex_gauss(ctx, i, n, m, init, r, _):
    mu0, l0 = PRIORS['gauss'][i]
    tau = r.rand(n) + 0.5
    y = 2 * r.randn(n)
    X = bn.GaussianARD(mu0, l0)
    Y = bn.GaussianARD(X, tau, plates=(n,))
    Y.observe(y, mask=m)
    init_node(X, init, 0.7, (2.0, 3.0))
    mm, S, ev = ref.gauss_posterior([mu0], np.array([[l0]]), np.ones((m.sum(), 1)), y[m], np.diag(tau[m]))
    verify(ctx, X, [X, Y], [mm[0], S[0, 0] + mm[0] ** 2], ev, 'gauss')


def ex_gauss_tau(ctx, i, n, m, init, r, _):
    a, b = PRIORS['gauss_tau'][i]
    mu = r.randn(n)
    y = 2 * r.randn(n)
    X = bn.Gamma(a, b)
    Y = bn.GaussianARD(mu, X)
    Y.observe(y, mask=m)
    init_node(X, init, 0.7, (2.0, 3.0))
    an, bnn = a + m.sum() / 2, b + 0.5 * ((y - mu)[m] ** 2).sum()
    verify(ctx, X, [X, Y], [an / bnn, psi(an) - np.log(bnn)], ref.ev_normgam_fixedmean((y - mu)[m], a, b), 'tau')


def ex_gauss_both_plates(ctx, i, n, m, init, r, _):
    """latent with its own plates; data has an extra plate axis"""
    mu0, l0 = PRIORS['gauss_both_plates'][i]
    tau = 1.7
    y = 2 * r.randn(2, n)
    M = np.stack([m, m[::-1]])
    X = bn.GaussianARD(mu0, l0, plates=(2, 1))
    Y = bn.GaussianARD(X, tau, plates=(2, n))
    Y.observe(y, mask=M)
    init_node(X, init, r.randn(2, 1), (r.randn(2, 1), 3.0))
    u0, u1, ev = [], [], 0
    for k in range(2):
        mm, S, e = ref.gauss_posterior([mu0], np.array([[l0]]), np.ones((M[k].sum(), 1)), y[k][M[k]], tau * np.eye(M[k].sum()))
        u0.append(mm[0]); u1.append(S[0, 0] + mm[0] ** 2); ev += e
    verify(ctx, X, [X, Y], [np.array(u0)[:, None], np.array(u1)[:, None]], ev, 'plates')


def ex_gauss_plates(ctx, i, n, m, init, r, _):
    """latent replicated over the data axis, one row shared"""
    y = r.randn(2, n)
    M = np.stack([m, ~m]) if i == 0 else np.stack([m, m])
    X = bn.GaussianARD(0.2, 0.7, plates=(n,))
    Y = bn.GaussianARD(X, np.array([[0.5], [2.0]]))
    Y.observe(y, mask=M)
    init_node(X, init, r.randn(n), (r.randn(n), 3.0))
    u0, u1, ev = [], [], 0
    for k in range(n):
        mk_ = M[:, k]
        mm, S, e = ref.gauss_posterior([0.2], np.array([[0.7]]), np.ones((mk_.sum(), 1)), y[:, k][mk_], np.diag(np.array([0.5, 2.0])[mk_]))
        u0.append(mm[0]); u1.append(S[0, 0] + mm[0] ** 2); ev += e
    verify(ctx, X, [X, Y], [np.array(u0), np.array(u1)], ev, 'gplates')


def ex_mvn_mu(ctx, i, n, m, init, r, _):
    P0 = zoo.spd(r, 2); P = zoo.spd(r, 2); m0 = r.randn(2)
    y = r.randn(n, 2)
    X = bn.Gaussian(m0, P0)
    Y = bn.Gaussian(X, P, plates=(n,)) if i == 0 else bn.Gaussian(X, np.stack([P] * n))
    Y.observe(y, mask=m)
    init_node(X, init, r.randn(2), (r.randn(2), np.eye(2)))
    k = m.sum()
    mm, S, ev = ref.gauss_posterior(m0, P0, np.tile(np.eye(2), (k, 1)), y[m].ravel(), np.kron(np.eye(k), P))
    verify(ctx, X, [X, Y], [mm, S + np.outer(mm, mm)], ev, 'mvn')


def ex_ard_vec(ctx, i, n, m, init, r, _):
    """vector GaussianARD whose elements are children of a scalar-plated precision and mean"""
    mu = r.randn(2)
    y = r.randn(n, 2)
    if i == 0:
        X = bn.Gamma(1.5, 0.8, plates=(2,))
        Y = bn.GaussianARD(mu, X, shape=(2,), plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, r.rand(2) + .2, (2.0, r.rand(2) + 1))
        a = 1.5 + m.sum() / 2
        b = 0.8 + 0.5 * ((y - mu)[m] ** 2).sum(0)
        ev = sum(ref.ev_normgam_fixedmean((y - mu)[m][:, j], 1.5, 0.8) for j in range(2))
        verify(ctx, X, [X, Y], [a / b, psi(a) - np.log(b)], ev, 'ard tau')
    else:
        X = bn.GaussianARD(0.3, 0.4, shape=(2,))
        tau = np.array([0.5, 2.0])
        Y = bn.GaussianARD(X, tau, plates=(n,), ndim=1)
        Y.observe(y, mask=m)
        init_node(X, init, r.randn(2), (r.randn(2), 2.0))
        k = m.sum()
        mm, S, ev = ref.gauss_posterior([.3, .3], .4 * np.eye(2), np.tile(np.eye(2), (k, 1)), y[m].ravel(), np.kron(np.eye(k), np.diag(tau)))
        verify(ctx, X, [X, Y], [mm, S + np.outer(mm, mm)], ev, 'ard mu')


def ex_mvn_lambda(ctx, i, n, m, init, r, _):
    V = zoo.spd(r, 2); mu = r.randn(2); y = r.randn(n, 2)
    n0 = [2.5, 5.0][i]
    X = bn.Wishart(n0, V)
    Y = bn.Gaussian(mu, X, plates=(n,))
    Y.observe(y, mask=m)
    init_node(X, init, zoo.spd(r, 2), (4.0, np.eye(2)))
    R = (y - mu)[m]
    nn = n0 + m.sum(); Vn = V + R.T @ R
    verify(ctx, X, [X, Y], [nn * np.linalg.inv(Vn), psi(nn / 2) + psi((nn - 1) / 2) + 2 * np.log(2) - np.linalg.slogdet(Vn)[1]],
           ref.ev_wish(R, n0, V), 'wishart')


def ex_wish_V(ctx, i, n, m, init, r, _):
    """Wishart used as the inverse scale of another (observed) Wishart"""
    V0 = zoo.spd(r, 2); n0 = [3.0, 4.5][i]; n1 = 3.5
    L = np.stack([zoo.spd(r, 2) for _ in range(n)])
    X = bn.Wishart(n0, V0)
    Y = bn.Wishart(n1, X, plates=(n,))
    Y.observe(L, mask=m)
    init_node(X, init, zoo.spd(r, 2), (4.0, np.eye(2)))
    from scipy.special import multigammaln as mg
    k = m.sum()
    nn, Vn = n0 + k * n1, V0 + L[m].sum(0)
    ld = lambda A: np.linalg.slogdet(A)[1]
    lZ = lambda nu, V: 0.5 * nu * ld(V) - 0.5 * nu * 2 * np.log(2) - mg(0.5 * nu, 2)
    # log p(L) = sum_k[ .5(n1-3) log|L| - n1 log2 - mg ] + lZ(n0,V0) - lZ(nn,Vn)
    ev = sum(0.5 * (n1 - 3) * ld(l) - n1 * np.log(2) - mg(0.5 * n1, 2) for l in L[m]) + lZ(n0, V0) - lZ(nn, Vn)
    verify(ctx, X, [X, Y], [nn * np.linalg.inv(Vn), psi(nn / 2) + psi((nn - 1) / 2) + 2 * np.log(2) - ld(Vn)], ev, 'wishart scale')


def ex_scaled_wish(ctx, i, n, m, init, r, _):
    """Wishart scaled by a gamma variable"""
    V = zoo.spd(r, 2); mu = r.randn(2); y = r.randn(n, 2)
    c = 1.7
    if i == 0:
        X = bn.Wishart(3.0, V)
        Y = bn.Gaussian(mu, X.scale(c), plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, zoo.spd(r, 2), (4.0, np.eye(2)))
        R = (y - mu)[m] * np.sqrt(c)
        nn = 3.0 + m.sum(); Vn = V + R.T @ R
        verify(ctx, X, [X, Y], [nn * np.linalg.inv(Vn)], ref.ev_wish(R, 3.0, V) + m.sum() * np.log(c), 'scaled wishart')
    else:
        X = bn.Gamma(1.3, 0.6)
        L = bn.Wishart(3.0, V)
        L0 = zoo.spd(r, 2)
        L.observe(L0)
        Y = bn.Gaussian(mu, L.scale(X), plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, 0.8, (2.0, 3.0))
        R = (y - mu)[m]
        a = 1.3 + m.sum(); b = 0.6 + 0.5 * np.einsum('ni,ij,nj', R, L0, R)
        ev = (1.3 * np.log(.6) - gammaln(1.3) + gammaln(a) - a * np.log(b) + m.sum() * (0.5 * np.linalg.slogdet(L0)[1] - ref.LOG2PI)
              + ref.lwish(L0, 3.0, V))
        verify(ctx, X, [X, Y, L], [a / b, psi(a) - np.log(b)], ev, 'wishart scaler')


def ex_diag_gamma(ctx, i, n, m, init, r, _):
    mu = r.randn(2); y = r.randn(n, 2)
    X = bn.Gamma(1.3, [0.6, 0.9] if i else 0.6, plates=(2,))
    Y = bn.Gaussian(mu, X.as_diagonal_wishart(), plates=(n,))
    Y.observe(y, mask=m)
    init_node(X, init, r.rand(2) + .3, (2.0, [3.0, 1.0]))
    R = (y - mu)[m]
    b0 = np.array([0.6, 0.9] if i else [.6, .6])
    a, b = 1.3 + m.sum() / 2, b0 + 0.5 * (R ** 2).sum(0)
    ev = sum(ref.ev_normgam_fixedmean(R[:, j], 1.3, b0[j]) for j in range(2))
    verify(ctx, X, [X, Y], [a / b, psi(a) - np.log(b)], ev, 'diagonal')


def ex_bern(ctx, i, n, m, init, r, first):
    al = np.array(PRIORS['bern'][i])
    for y in data_loop(2, n, first):
        X = bn.Beta(al)
        Y = bn.Bernoulli(X, plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, 0.3, ([2.0, 3.0],))
        c = np.array([y[m].sum(), (1 - y[m]).sum()])
        verify(ctx, X, [X, Y], [psi(al + c) - psi((al + c).sum())], ref.ev_dirmult(c, al), 'beta')


def ex_binom(ctx, i, n, m, init, r, first):
    al = np.array(PRIORS['binom'][i])
    N = np.array([2, 3, 0, 1][:n])
    for y in data_loop(3, n, first):
        y = np.minimum(y, N)
        X = bn.Beta(al)
        Y = bn.Binomial(N, X)
        Y.observe(y, mask=m)
        init_node(X, init, 0.3, ([2.0, 3.0],))
        c = np.array([y[m].sum(), (N - y)[m].sum()])
        ev = ref.ev_dirmult(c, al) + sum(gammaln(N + 1)[m] - gammaln(y + 1)[m] - gammaln(N - y + 1)[m])
        verify(ctx, X, [X, Y], [psi(al + c) - psi((al + c).sum())], ev, 'binomial')


def ex_cat(ctx, i, n, m, init, r, first):
    al = np.array(PRIORS['cat'][i])
    K = len(al)
    for y in data_loop(K, n, first):
        X = bn.Dirichlet(al)
        Y = bn.Categorical(X, plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, np.arange(1, K + 1) / (K * (K + 1) / 2), (np.arange(1, K + 1),))
        c = np.bincount(y[m], minlength=K)
        verify(ctx, X, [X, Y], [psi(al + c) - psi((al + c).sum())], ref.ev_dirmult(c, al), 'dirichlet')


def ex_mult(ctx, i, n, m, init, r, first):
    al = np.array(PRIORS['mult'][i])
    K = len(al)
    comps = [list(ref.compositions(t, K)) for t in (2, 1, 0, 2)[:n]]
    N = np.array([2, 1, 0, 2][:n])
    for j, ys in enumerate(itertools.product(*comps)):
        if j % 3 != first:
            continue
        y = np.array(ys)
        X = bn.Dirichlet(al)
        Y = bn.Multinomial(N, X)
        Y.observe(y, mask=m)
        init_node(X, init, np.arange(1, K + 1) / (K * (K + 1) / 2), (np.arange(1, K + 1),))
        c = y[m].sum(0)
        ev = ref.ev_dirmult(c, al) + (gammaln(N + 1) - gammaln(y + 1).sum(-1))[m].sum()
        verify(ctx, X, [X, Y], [psi(al + c) - psi((al + c).sum())], ev, 'multinomial')


def ex_pois(ctx, i, n, m, init, r, first):
    a, b = PRIORS['pois'][i]
    for y in data_loop(3, n, first):
        y = np.array([0, 1, 6])[y]
        X = bn.Gamma(a, b)
        Y = bn.Poisson(X, plates=(n,))
        Y.observe(y, mask=m)
        init_node(X, init, 0.3, (2.0, 3.0))
        an, bb = a + y[m].sum(), b + m.sum()
        verify(ctx, X, [X, Y], [an / bb, psi(an) - np.log(bb)], ref.ev_gampois(y[m], a, b), 'poisson')


def ex_gamma_rate(ctx, i, n, m, init, r, _):
    a, b = PRIORS['gamma_rate'][i]
    sh = r.rand(n) + .5
    y = r.rand(n) * 3 + .1
    X = bn.Gamma(a, b)
    Y = bn.Gamma(sh, X)
    Y.observe(y, mask=m)
    init_node(X, init, 0.3, (2.0, 3.0))
    an, bb = a + sh[m].sum(), b + y[m].sum()
    ev = a * np.log(b) - gammaln(a) + gammaln(an) - an * np.log(bb) + ((sh - 1) * np.log(y) - gammaln(sh))[m].sum()
    verify(ctx, X, [X, Y], [an / bb, psi(an) - np.log(bb)], ev, 'gamma rate')


def ex_cat_latent(ctx, i, n, m, init, r, _):
    """one categorical variable selecting the parameters of all data"""
    p = np.array(PRIORS['cat_latent'][i])
    K = len(p)
    mu = r.randn(K); tau = r.rand(K) + .5
    y = r.randn(n)
    X = bn.Categorical(p)
    Y = bn.Mixture(X, bn.GaussianARD, mu, tau, plates=(n,))
    Y.observe(y, mask=m)
    init_node(X, init, K - 1, (np.arange(1, K + 1) / (K * (K + 1) / 2),))
    lj = np.log(p) + np.array([ref.lnorm(y, mu[k], tau[k])[m].sum() for k in range(K)])
    verify(ctx, X, [X, Y], [np.exp(lj - logsumexp(lj))], logsumexp(lj), 'assignment')


def ex_cat_gauss(ctx, i, n, m, init, r, _):
    """assignments per datum"""
    K = 2 + i
    p = zoo.simplex(r, K)
    mu = r.randn(K, 2); L = np.stack([zoo.spd(r, 2) for _ in range(K)])
    y = r.randn(n, 2)
    X = bn.Categorical(p, plates=(n,))
    Y = bn.Mixture(X, bn.Gaussian, mu, L)
    Y.observe(y, mask=m)
    init_node(X, init, np.arange(n) % K, (zoo.simplex(r, K, n),))
    ll = np.stack([ref.lmvn_prec(y, mu[k], L[k]) for k in range(K)], -1) * m[:, None]
    lj = np.log(p) + ll
    verify(ctx, X, [X, Y], [np.exp(lj - logsumexp(lj, -1, keepdims=True))], logsumexp(lj, -1).sum(), 'assignments')


def ex_cat_gate(ctx, i, n, m, init, r, _):
    K = 2
    p = zoo.simplex(r, K)
    c = r.randn(K)
    tau = 1.4
    y = r.randn(n)
    X = bn.Categorical(p)
    # scalar selected with a gate; constants have no variance
    Y = bn.GaussianARD(bn.Gate(X, bn.GaussianARD(c, 1e12)) if i == 0 else bn.Choose(X, bn.GaussianARD(c[0], 1e12), bn.GaussianARD(c[1], 1e12)), tau, plates=(n,))
    Y.observe(y, mask=m)
    init_node(X, init, 1, (np.array([.3, .7]),))
    lj = np.log(p) + np.array([ref.lnorm(y, c[k], tau)[m].sum() for k in range(K)])
    X.update()
    ctx.op()
    ctx.close(X.get_moments()[0], np.exp(lj - logsumexp(lj)), 'gate posterior', 1e-6, 1e-7)
    ctx.close(total([X, Y]), logsumexp(lj), 'gate bound', 1e-6, 1e-6)


def ex_regress(ctx, i, n, m, init, r, _):
    D = 2
    H = r.randn(n, D); y = r.randn(n)
    P0 = zoo.spd(r, D); m0 = r.randn(D); tau = 1.6
    X = bn.Gaussian(m0, P0)
    F = bn.SumMultiply('i,i', X, H) if i == 0 else bn.Dot(H, X)
    Y = bn.GaussianARD(F, tau)
    Y.observe(y, mask=m)
    init_node(X, init, r.randn(2), (r.randn(2), np.eye(2)))
    mm, S, ev = ref.gauss_posterior(m0, P0, H[m], y[m], tau * np.eye(m.sum()))
    verify(ctx, X, [X, Y], [mm, S + np.outer(mm, mm)], ev, 'regression')


def ex_regress_ard(ctx, i, n, m, init, r, _):
    """matrix regression: Y_nk = sum_d W_kd h_nd, W with full joint or per-row plates"""
    H = r.randn(n, 2); y = r.randn(n, 2)
    tau = np.array([0.7, 1.9])
    if i == 0:
        X = bn.GaussianARD(0.2, 0.5, shape=(2, 2))          # one joint factor
        Y = bn.GaussianARD(bn.SumMultiply('kd,d->k', X, H), tau, ndim=1)
        Y.observe(y, mask=m)
        init_node(X, init, r.randn(2, 2), (r.randn(2, 2), 2.0))
        k = m.sum()
        Hbig = np.concatenate([np.kron(np.eye(2), h[None, :]) for h in H[m]]) if k else np.zeros((0, 4))
        mm, S, ev = ref.gauss_posterior(np.full(4, .2), .5 * np.eye(4), Hbig, y[m].ravel(), np.kron(np.eye(k), np.diag(tau)))
        verify(ctx, X, [X, Y], [mm.reshape(2, 2), (S + np.outer(mm, mm)).reshape(2, 2, 2, 2)], ev, 'matrix regression')
    else:
        X = bn.GaussianARD(0.2, 0.5, shape=(2,), plates=(1, 2))
        M = np.stack([m, m[::-1]], -1)
        Y = bn.GaussianARD(bn.SumMultiply('d,d', X, H[:, None, :]), tau)
        Y.observe(y, mask=M)
        init_node(X, init, r.randn(1, 2, 2), (r.randn(1, 2, 2), 2.0))
        u0, u1, ev = [], [], 0
        for k in range(2):
            mm, S, e = ref.gauss_posterior(np.full(2, .2), .5 * np.eye(2), H[M[:, k]], y[M[:, k], k], tau[k] * np.eye(M[:, k].sum()))
            u0.append(mm); u1.append(S + np.outer(mm, mm)); ev += e
        verify(ctx, X, [X, Y], [np.array(u0)[None], np.array(u1)[None]], ev, 'row regression')


def ex_gg(ctx, i, n, m, init, r, _):
    """Gaussian-gamma latent: y ~ N(h.x, (c tau)^-1)"""
    D = 2
    H = r.randn(n, D); y = r.randn(n)
    m0 = r.randn(D); L0 = zoo.spd(r, D); a, b = 1.4, 0.8
    c = [1.0, 0.6][i]
    X = bn.GaussianGamma(m0, L0, a, b)
    Y = bn.GaussianARD(bn.SumMultiply('i,i', X, H), c, plates=(n,))
    Y.observe(y, mask=m)
    k = m.sum()
    Hm, ym = H[m], y[m]
    Ln = L0 + c * Hm.T @ Hm
    mn = np.linalg.solve(Ln, L0 @ m0 + c * Hm.T @ ym)
    an = a + k / 2
    bb = b + 0.5 * (c * ym @ ym + m0 @ L0 @ m0 - mn @ Ln @ mn)
    ev = (-0.5 * k * ref.LOG2PI + 0.5 * k * np.log(c) + 0.5 * np.linalg.slogdet(L0)[1] - 0.5 * np.linalg.slogdet(Ln)[1]
          + a * np.log(b) - an * np.log(bb) + gammaln(an) - gammaln(a))
    t = an / bb
    verify(ctx, X, [X, Y], [mn * t, np.linalg.inv(Ln) + np.outer(mn, mn) * t, t, psi(an) - np.log(bb)], ev, 'gaussian-gamma')


def ex_gg_scalar(ctx, i, n, m, init, r, _):
    """Gaussian mean and gamma precision joined as one latent GaussianGamma parent of GaussianARD"""
    a, b, l0, m0 = 1.4, 0.8, 0.5, 0.3
    y = r.randn(n)
    X = bn.GaussianGamma(np.array([m0]), np.array([[l0]]), a, b)
    Y = bn.GaussianARD(bn.SumMultiply('i,i', X, np.array([1.0])), 1.0, plates=(n,)) if i == 0 else bn.GaussianARD(bn.SumMultiply('i,i', X, np.ones((n, 1))), 1.0)
    Y.observe(y, mask=m)
    k = m.sum()
    ym = y[m]
    ln = l0 + k
    mn = (l0 * m0 + ym.sum()) / ln
    an = a + k / 2
    bb = b + 0.5 * (ym @ ym + l0 * m0 ** 2 - ln * mn ** 2)
    ev = -0.5 * k * ref.LOG2PI + 0.5 * np.log(l0 / ln) + a * np.log(b) - an * np.log(bb) + gammaln(an) - gammaln(a)
    t = an / bb
    verify(ctx, X, [X, Y], [np.array([mn * t]), np.array([[1 / ln + mn ** 2 * t]]), t, psi(an) - np.log(bb)], ev, 'normal-gamma')


def ex_cmc(ctx, i, n, m, init, r, _):
    K = 2 + i
    p0 = zoo.simplex(r, K); A = zoo.simplex(r, K, K)
    mu = r.randn(K)
    y = r.randn(n)
    X = bn.CategoricalMarkovChain(p0, A, states=n)
    Y = bn.Mixture(X, bn.GaussianARD, mu, 1.3)
    Y.observe(y, mask=m)
    ll = np.stack([ref.lnorm(y, mu[k], 1.3) for k in range(K)], -1) * m[:, None]
    paths = list(itertools.product(range(K), repeat=n))
    lp = np.array([np.log(p0[p[0]]) + sum(np.log(A[p[t], p[t + 1]]) for t in range(n - 1)) + sum(ll[t, p[t]] for t in range(n)) for p in paths])
    w = np.exp(lp - logsumexp(lp))
    z0 = np.zeros(K); zz = np.zeros((n - 1, K, K))
    for wi, p in zip(w, paths):
        z0[p[0]] += wi
        for t in range(n - 1):
            zz[t, p[t], p[t + 1]] += wi
    verify(ctx, X, [X, Y], [z0, zz], logsumexp(lp), 'chain')


def ex_gmc(ctx, i, n, m, init, r, _):
    D = 1 + i
    A = 0.6 * r.randn(D, D); nu = r.rand(D) + .5; L0 = zoo.spd(r, D); m0 = r.randn(D)
    c = r.randn(D); tau = 1.5
    y = r.randn(n)
    X = bn.GaussianMarkovChain(m0, L0, A, nu, n=n)
    Y = bn.GaussianARD(bn.SumMultiply('i,i', X, c), tau)
    Y.observe(y, mask=m)
    P = np.zeros((n * D, n * D)); h = np.zeros(n * D)
    P[:D, :D] += L0; h[:D] += L0 @ m0
    N = np.diag(nu)
    for t in range(1, n):
        a, b = slice((t - 1) * D, t * D), slice(t * D, (t + 1) * D)
        P[b, b] += N; P[a, a] += A.T @ N @ A; P[a, b] -= A.T @ N; P[b, a] -= N @ A
    H = np.zeros((n, n * D))
    for t in range(n):
        H[t, t * D:(t + 1) * D] = c
    mean0 = np.linalg.solve(P, h)
    mm, S, ev = ref.gauss_posterior(mean0, P, H[m], y[m], tau * np.eye(m.sum()))
    E2 = S + np.outer(mm, mm)
    u1 = np.array([E2[t * D:(t + 1) * D, t * D:(t + 1) * D] for t in range(n)])
    u2 = np.array([E2[t * D:(t + 1) * D, (t + 1) * D:(t + 2) * D] for t in range(n - 1)])
    verify(ctx, X, [X, Y], [mm.reshape(n, D), u1, u2], ev, 'gaussian chain')


def ex_two_children(ctx, i, n, m, init, r, _):
    """one latent with children of different plates and kinds"""
    y = r.randn(n); w = r.randn(2); tau = 0.9
    if i == 0:
        X = bn.GaussianARD(0.1, 0.5)
        Y = bn.GaussianARD(X, tau, plates=(n,)); Y.observe(y, mask=m)
        W = bn.GaussianARD(X, np.array([1.0, 3.0])); W.observe(w)
        Q = bn.Gaussian(bn.SumMultiply(',i->i', X, np.array([1.0, -2.0])), np.eye(2)); Q.observe(w[::-1])
        H = np.concatenate([np.ones((m.sum(), 1)), np.ones((2, 1)), np.array([[1.0], [-2.0]])])
        P = np.diag(np.concatenate([np.full(m.sum(), tau), [1.0, 3.0], [1.0, 1.0]]))
        init_node(X, init, 0.7, (2.0, 3.0))
        mm, S, ev = ref.gauss_posterior([0.1], np.array([[0.5]]), H, np.concatenate([y[m], w, w[::-1]]), P)
        verify(ctx, X, [X, Y, W, Q], [mm[0], S[0, 0] + mm[0] ** 2], ev, 'two children')
    else:
        a, b = 1.2, 0.7
        X = bn.Gamma(a, b)
        Y = bn.GaussianARD(0.2, X, plates=(n,)); Y.observe(y, mask=m)
        N = bn.Poisson(X, plates=(2,)); N.observe([3, 0])
        G = bn.Gamma(1.5, X); G.observe(0.4)
        init_node(X, init, 0.7, (2.0, 3.0))
        an = a + m.sum() / 2 + 3 + 1.5
        bb = b + 0.5 * ((y - .2)[m] ** 2).sum() + 2 + 0.4
        ev = (a * np.log(b) - gammaln(a) + gammaln(an) - an * np.log(bb) - 0.5 * m.sum() * ref.LOG2PI - gammaln(4) - gammaln(1)
              + 0.5 * np.log(0.4) - gammaln(1.5))
        verify(ctx, X, [X, Y, N, G], [an / bb, psi(an) - np.log(bb)], ev, 'gamma children')


def ex_add_one(ctx, i, n, m, init, r, _):
    """sum with a constant; concatenation with observed block"""
    y = r.randn(n, 2); c = r.randn(n, 2)
    P0 = zoo.spd(r, 2); P = zoo.spd(r, 2)
    X = bn.Gaussian(np.zeros(2), P0)
    if i == 0:
        Y = bn.Gaussian(bn.Add(X, c), P)
        Y.observe(y, mask=m)
        k = m.sum()
        mm, S, ev = ref.gauss_posterior(np.zeros(2), P0, np.tile(np.eye(2), (k, 1)), (y - c)[m].ravel(), np.kron(np.eye(k), P))
    else:
        P3 = zoo.spd(r, 3)
        y3 = r.randn(n, 3)
        Y = bn.Gaussian(bn.ConcatGaussian(X, r.randn(1)), P3, plates=(n,))
        r2 = None
        cst = Y.parents[0].get_moments()  # noqa
        Y.observe(y3, mask=m)
        k = m.sum()
        rr = engine.rng('c02', 'add_one', i, n)
        rr.randn(n, 2); rr.randn(n, 2); zoo.spd(rr, 2); zoo.spd(rr, 2); zoo.spd(rr, 3); rr.randn(n, 3)
        cc = rr.randn(1)
        H = np.concatenate([np.eye(2), np.zeros((1, 2))])
        off = np.concatenate([np.zeros(2), cc])
        mm, S, ev = ref.gauss_posterior(np.zeros(2), P0, np.tile(H, (k, 1)), (y3 - off)[m].ravel(), np.kron(np.eye(k), P3))
    init_node(X, init, r.randn(2), (r.randn(2), np.eye(2)))
    verify(ctx, X, [X, Y], [mm, S + np.outer(mm, mm)], ev, 'add/concat')


# ---------------------------------------------------------------------------------------------
# (b) bounded by the evidence at every state
def b_gauss_gamma(m, r):
    y = r.randn(3) + 1
    mu = bn.GaussianARD(0.3, 0.5); tau = bn.Gamma(1.2, 0.7)
    Y = bn.GaussianARD(mu, tau, plates=(3,)); Y.observe(y, mask=m)
    ym = y[m]
    k = len(ym)

    def f(x):   # integrate tau analytically, mu numerically
        return np.exp(ref.lnorm(x, 0.3, 0.5) + ref.ev_normgam_fixedmean(ym - x, 1.2, 0.7))
    ev = np.log(integrate.quad(f, -30, 30, limit=400, points=[0.3, ym.mean() if k else 0.3])[0])
    return dict(mu=mu, tau=tau), [mu, tau, Y], ev, dict(mu=(0.7, (1.0, 2.0)), tau=(1.4, (2.0, 1.0)))


def b_beta_mixture(m, r):
    y = np.array([1, 0, 1])
    Z = bn.Categorical([0.4, 0.6], plates=(3,)); P = bn.Beta([0.8, 1.3], plates=(2,))
    Y = bn.Mixture(Z, bn.Bernoulli, P); Y.observe(y, mask=m)
    tot = []
    for z in itertools.product(range(2), repeat=3):
        z = np.array(z)
        l = np.log(np.array([0.4, 0.6]))[z].sum()
        for k in range(2):
            s = m & (z == k)
            l += ref.ev_dirmult([y[s].sum(), (1 - y[s]).sum()], [0.8, 1.3])
        tot.append(l)
    return dict(Z=Z, P=P), [Z, P, Y], logsumexp(tot), dict(Z=(np.array([0, 1, 1]), (zoo.simplex(r, 2, 3),)), P=(np.array([.3, .8]), ([2., 1.],)))


def b_pois_mixture(m, r):
    y = np.array([2, 0, 5])
    R = bn.Dirichlet([0.7, 1.1])
    Z = bn.Categorical(R, plates=(3,)); L = bn.Gamma(1.3, 0.5, plates=(2,))
    Y = bn.Mixture(Z, bn.Poisson, L); Y.observe(y, mask=m)
    tot = []
    for z in itertools.product(range(2), repeat=3):
        z = np.array(z)
        l = ref.ev_dirmult(np.bincount(z, minlength=2), [0.7, 1.1])
        for k in range(2):
            l += ref.ev_gampois(y[m & (z == k)], 1.3, 0.5)
        tot.append(l)
    return dict(R=R, Z=Z, L=L), [R, Z, L, Y], logsumexp(tot), dict(Z=(np.array([0, 1, 1]), (zoo.simplex(r, 2, 3),)), L=(np.array([.3, 4.]), (2., [3., 1.])), R=(np.array([.3, .7]), ([2., 3.],)))


def b_gmm_means(m, r):
    y = 2 * r.randn(3)
    Z = bn.Categorical([0.3, 0.7], plates=(3,)); mu = bn.GaussianARD(0.1, 0.3, plates=(2,))
    Y = bn.Mixture(Z, bn.GaussianARD, mu, 1.2); Y.observe(y, mask=m)
    tot = []
    for z in itertools.product(range(2), repeat=3):
        z = np.array(z)
        l = np.log(np.array([.3, .7]))[z].sum()
        for k in range(2):
            s = m & (z == k)
            l += ref.gauss_posterior([.1], np.array([[.3]]), np.ones((s.sum(), 1)), y[s], 1.2 * np.eye(s.sum()))[2]
        tot.append(l)
    return dict(Z=Z, mu=mu), [Z, mu, Y], logsumexp(tot), dict(Z=(np.array([0, 1, 1]), (zoo.simplex(r, 2, 3),)), mu=(np.array([-1., 1.]), (np.array([-1., 1.]), 2.)))


def b_gmm_wishart(m, r):
    y = 2 * r.randn(3, 2)
    mu = r.randn(2, 2)
    Z = bn.Categorical([0.3, 0.7], plates=(3,)); L = bn.Wishart(3.0, np.eye(2), plates=(2,))
    Y = bn.Mixture(Z, bn.Gaussian, mu, L); Y.observe(y, mask=m)
    tot = []
    for z in itertools.product(range(2), repeat=3):
        z = np.array(z)
        l = np.log(np.array([.3, .7]))[z].sum()
        for k in range(2):
            s = m & (z == k)
            l += ref.ev_wish(y[s] - mu[k], 3.0, np.eye(2))
        tot.append(l)
    return dict(Z=Z, L=L), [Z, L, Y], logsumexp(tot), dict(Z=(np.array([0, 1, 1]), (zoo.simplex(r, 2, 3),)), L=(zoo.spd(r, 2, 2), (4.0, np.eye(2))))


def b_hmm(m, r):
    y = np.array([0, 1, 1])
    a0 = bn.Dirichlet([0.8, 0.6]); A = bn.Dirichlet([[0.9, 0.7], [0.5, 1.2]])
    P = bn.Dirichlet([0.5, 0.7], plates=(2,))
    Z = bn.CategoricalMarkovChain(a0, A, states=3)
    Y = bn.Mixture(Z, bn.Categorical, P); Y.observe(y, mask=m)
    tot = []
    for z in itertools.product(range(2), repeat=3):
        z = np.array(z)
        l = ref.ev_dirmult(np.eye(2)[z[0]], [0.8, 0.6])
        c = np.zeros((2, 2))
        for t in range(2):
            c[z[t], z[t + 1]] += 1
        l += ref.ev_dirmult(c[0], [0.9, 0.7]) + ref.ev_dirmult(c[1], [0.5, 1.2])
        for k in range(2):
            l += ref.ev_dirmult(np.bincount(y[m & (z == k)], minlength=2), [.5, .7])
        tot.append(l)
    return dict(a0=a0, A=A, P=P, Z=Z), [a0, A, P, Z, Y], logsumexp(tot), dict(P=(zoo.simplex(r, 2, 2), (r.rand(2, 2) + .5,)), a0=(np.array([.3, .7]), ([2., 1.],)))


def b_two_cats(m, r):
    p1, p2 = zoo.simplex(r, 2), zoo.simplex(r, 3)
    mu = r.randn(2, 3); y = r.randn(3)
    Z1 = bn.Categorical(p1); Z2 = bn.Categorical(p2, plates=(3,))
    Y = bn.MultiMixture([Z1, Z2], bn.GaussianARD, mu, 1.1); Y.observe(y, mask=m)
    l1 = []
    for a in range(2):
        l = np.log(p1[a])
        for j in range(3):
            l += logsumexp([np.log(p2[b]) + (ref.lnorm(y[j], mu[a, b], 1.1) if m[j] else 0) for b in range(3)])
        l1.append(l)
    return dict(Z1=Z1, Z2=Z2), [Z1, Z2, Y], logsumexp(l1), dict(Z1=(1, (zoo.simplex(r, 2),)), Z2=(np.array([0, 1, 2]), (zoo.simplex(r, 3, 3),)))


def b_chain_of_gates(m, r):
    p = zoo.simplex(r, 2); T = zoo.simplex(r, 2, 2); E = zoo.simplex(r, 3, 2)
    y = np.array([2, 0, 1])
    Z1 = bn.Categorical(p, plates=(3,)); Z2 = bn.Mixture(Z1, bn.Categorical, T)
    Y = bn.Mixture(Z2, bn.Categorical, E); Y.observe(y, mask=m)
    ev = 0
    for j in range(3):
        ev += logsumexp([np.log(p[a] * T[a, b]) + (np.log(E[b, y[j]]) if m[j] else 0) for a in range(2) for b in range(2)])
    return dict(Z1=Z1, Z2=Z2), [Z1, Z2, Y], ev, dict(Z1=(np.array([0, 1, 1]), (zoo.simplex(r, 2, 3),)), Z2=(np.array([1, 1, 0]), None))


def b_two_gauss(m, r):
    y = r.randn(3); H = r.randn(3, 2)
    a = bn.GaussianARD(0.2, 0.6); b = bn.GaussianARD(-.1, 0.8)
    Y = bn.GaussianARD(bn.Add(bn.SumMultiply(',', a, H[:, 0]), bn.SumMultiply(',', b, H[:, 1])), 1.3)
    Y.observe(y, mask=m)
    ev = ref.gauss_posterior([.2, -.1], np.diag([.6, .8]), H[m], y[m], 1.3 * np.eye(m.sum()))[2]
    return dict(a=a, b=b), [a, b, Y], ev, dict(a=(.5, (.4, 2.)), b=(.9, (-1., 3.)))


def b_hier_gamma(m, r):
    y = r.rand(3) * 2 + .2
    b = bn.Gamma(2.0, 1.5); x = bn.Gamma(1.2, b)
    Y = bn.Gamma(1.5, x, plates=(3,)); Y.observe(y, mask=m)
    ym = y[m]; k = len(ym)

    def f(t):       # t = log x ; integrate b analytically
        x = np.exp(t)
        lx = 2.0 * np.log(1.5) - gammaln(2.0) + gammaln(3.2) - 3.2 * np.log(1.5 + x) + (1.2 - 1) * t - gammaln(1.2)
        return np.exp(lx + t + (1.5 * k * t - k * gammaln(1.5) + .5 * np.log(ym).sum() - x * ym.sum()))
    ev = np.log(integrate.quad(f, -40, 20, limit=400, points=[0.])[0])
    return dict(b=b, x=x), [b, x, Y], ev, dict(b=(.7, (2., 3.)), x=(1.1, (3., 2.)))


BOUNDED = dict(gauss_gamma=b_gauss_gamma, beta_mixture=b_beta_mixture, pois_mixture=b_pois_mixture, gmm_means=b_gmm_means, gmm_wishart=b_gmm_wishart,
               hmm=b_hmm, two_cats=b_two_cats, chain_of_gates=b_chain_of_gates, two_gauss=b_two_gauss, hier_gamma=b_hier_gamma)


def run_bound(ctx, case):
    _, name, mi, init, d = case
    m = mk(masks(3)[mi if name != 'gauss_gamma' else [7, 5, 1, 0][mi]])
    ctx.traces = 0
    lat, nodes, ev, ini = BOUNDED[name](m, engine.rng('c02b', name))
    names = list(lat)
    for sched in itertools.product(names, repeat=d if len(names) <= 3 else d - 1):
        lat, nodes, _, ini = BOUNDED[name](m, engine.rng('c02b', name))
        for k in names:
            v = ini.get(k)
            if v is not None:
                init_node(lat[k], init, v[0], v[1])
        for k in sched:
            L = total(nodes)
            ctx.ok(not np.isnan(L) and L <= ev + 1e-8 * max(1, abs(ev)), 'bound above evidence', '%.12g > %.12g before %s in %s' % (L, ev, k, sched))
            lat[k].update()
            ctx.op()
        L = total(nodes)
        ctx.ok(not np.isnan(L) and L <= ev + 1e-8 * max(1, abs(ev)), 'bound above evidence', '%.12g > %.12g after %s' % (L, ev, sched))
        ctx.state(name, [lat[k].get_moments() for k in names])
        ctx.traces += 1


def run_product(ctx, mi):
    """independent latents: after one update each the bound is the sum of exact evidences"""
    r = engine.rng('c02p')
    m = mk(masks(3)[mi])
    y = r.randn(3); k = np.array([1, 0, 1])
    for order in itertools.permutations(range(3)):
        X = bn.GaussianARD(.1, .5); Y = bn.GaussianARD(X, 2.0, plates=(3,)); Y.observe(y, mask=m)
        P = bn.Beta([1.5, .6]); B = bn.Bernoulli(P, plates=(3,)); B.observe(k, mask=m)
        G = bn.Gamma(1.1, .4); N = bn.Poisson(G, plates=(3,)); N.observe(k + 2, mask=m)
        lat = [X, P, G]
        for o in order:
            lat[o].update()
            ctx.op()
        ev = (ref.gauss_posterior([.1], np.array([[.5]]), np.ones((m.sum(), 1)), y[m], 2 * np.eye(m.sum()))[2]
              + ref.ev_dirmult([k[m].sum(), (1 - k)[m].sum()], [1.5, .6]) + ref.ev_gampois((k + 2)[m], 1.1, .4))
        ctx.close(total([X, Y, P, B, G, N]), ev, 'product evidence', 1e-9, 1e-9)
