"""Reference densities, written directly from the textbook definitions (no BayesPy code)."""
import itertools
import numpy as np
from scipy.special import gammaln, psi, logsumexp, multigammaln

LOG2PI = np.log(2 * np.pi)


def lnorm(x, mu, tau):
    return 0.5 * np.log(tau) - 0.5 * LOG2PI - 0.5 * tau * (x - mu) ** 2


def lmvn_prec(x, mu, P):
    x, mu = np.broadcast_arrays(np.asarray(x, float), np.asarray(mu, float))
    d = x.shape[-1]
    r = x - mu
    q = np.einsum('...i,...ij,...j->...', r, P, r)
    return 0.5 * np.linalg.slogdet(P)[1] - 0.5 * d * LOG2PI - 0.5 * q


def lmvn_cov(x, mu, S):
    return lmvn_prec(x, mu, np.linalg.inv(S))


def lgam(x, a, b):
    return a * np.log(b) - gammaln(a) + (a - 1) * np.log(x) - b * x


def lwish(L, n, V):
    """density proportional to |L|^((n-k-1)/2) exp(-tr(VL)/2)"""
    k = L.shape[-1]
    return (0.5 * (n - k - 1) * np.linalg.slogdet(L)[1] - 0.5 * np.einsum('...ij,...ji->...', V, L)
            + 0.5 * n * np.linalg.slogdet(V)[1] - 0.5 * n * k * np.log(2) - multigammaln(0.5 * n, k))


def ldir(p, a):
    a = np.asarray(a, float)
    return gammaln(a.sum(-1)) - gammaln(a).sum(-1) + ((a - 1) * np.log(p)).sum(-1)


def xlogy(x, y):
    with np.errstate(all='ignore'):
        return np.where(np.asarray(x) == 0, 0.0, x * np.log(y))


def lbern(x, p):
    return xlogy(x, p) + xlogy(1 - x, 1 - p)


def lbinom(x, n, p):
    return gammaln(n + 1) - gammaln(x + 1) - gammaln(n - x + 1) + xlogy(x, p) + xlogy(n - x, 1 - p)


def lcat(x, p):
    return np.log(np.take_along_axis(np.asarray(p, float), np.asarray(x)[..., None], -1)[..., 0])


def lmult(x, n, p):
    return gammaln(n + 1) - gammaln(x + 1).sum(-1) + xlogy(x, p).sum(-1)


def lpois(x, l):
    return xlogy(x, l) - l - gammaln(x + 1)


# ---- marginal likelihoods -------------------------------------------------------------------
def ev_dirmult(counts, alpha):
    """log int prod p^counts Dir(p|alpha) dp  (no multinomial coefficient)"""
    counts, alpha = np.asarray(counts, float), np.asarray(alpha, float)
    return gammaln(alpha.sum()) - gammaln((alpha + counts).sum()) + (gammaln(alpha + counts) - gammaln(alpha)).sum()


def ev_gampois(xs, a, b):
    xs = np.asarray(xs, float)
    return (a * np.log(b) - gammaln(a) + gammaln(a + xs.sum()) - (a + xs.sum()) * np.log(b + len(xs))
            - gammaln(xs + 1).sum())


def ev_normgam_fixedmean(r, a, b):
    """log int prod N(r|0,1/tau) Gam(tau|a,b) dtau"""
    r = np.asarray(r, float)
    n = len(r)
    return (-0.5 * n * LOG2PI + a * np.log(b) - gammaln(a) + gammaln(a + n / 2)
            - (a + n / 2) * np.log(b + 0.5 * (r ** 2).sum()))


def ev_wish(R, n, V):
    """log int prod_i N(R_i|0, L^-1) W(L|n,V) dL"""
    R = np.asarray(R, float)
    m, k = R.shape
    Vn = V + R.T @ R
    return (-0.5 * m * k * LOG2PI + 0.5 * n * np.linalg.slogdet(V)[1] - 0.5 * n * k * np.log(2) - multigammaln(0.5 * n, k)
            - 0.5 * (n + m) * np.linalg.slogdet(Vn)[1] + 0.5 * (n + m) * k * np.log(2) + multigammaln(0.5 * (n + m), k))


def gauss_posterior(m0, P0, H, y, P):
    """x ~ N(m0, P0^-1), y = H x + noise with precision matrix P: posterior mean, cov and log evidence"""
    m0, y = np.asarray(m0, float), np.asarray(y, float)
    Pn = P0 + H.T @ P @ H
    S = np.linalg.inv(Pn)
    m = S @ (P0 @ m0 + H.T @ P @ y)
    if len(y):
        C = H @ np.linalg.inv(P0) @ H.T + np.linalg.inv(P)
        ev = float(lmvn_cov(y, H @ m0, C))
    else:
        ev = 0.0
    return m, S, ev


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r
