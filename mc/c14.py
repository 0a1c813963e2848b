"""C14: Gaussian Markov chains equal the dense joint Gaussian."""
import itertools
import numpy as np
from scipy.special import digamma
from bayespy import nodes as bn
from . import engine, zoo

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of chain configurations and evidence masks against explicit dense Gaussian conditioning'
RULE = ('all (state dimension, length, dynamics constant/per-step/varying/switching, inputs, every parameter known or learned, plates of every parameter, '
        'evidence kind and mask) within the bound: means, covariances, lag-one covariances, bound and the messages to all learned parents equal those of the dense joint Gaussian')
BOUND = dict(quick='state dimension 1-3, 2-4 steps, inputs 0-2, plates () (2,) (2,2), all masks of single chains with <=3 steps, covering masks otherwise',
             thorough='state dimension 1-3, 2-6 steps, all layouts x learned patterns')
ASSUMPTIONS = ['generic parameters; innovation noise constant in time for varying and switching dynamics (the library rejects the other)']
CASE_TIMEOUT = 300

# layouts: outer plates, time axis ('': none, '1', 'T'), row axis ('D' or '0' for shared)
ALAYS = ['D', '1D', 'TD', '2:1D', '2:TD', '22:1D', '1:TD']
NLAYS = ['D', '1D', 'TD', '2:1D', '2:TD', '1:1D', '0']
XLAYS = ['', '2', '1', '22']
ILAYS = ['T', '1', '2:T', '', '1:T']


def plates_of(code, D, N):
    if code in ('', '0'):
        return ()
    o, _, t = code.rpartition(':')
    out = tuple(int(c) for c in o)
    for c in t:
        out += (dict(D=D, T=N - 1).get(c) or int(c),)
    return out


def bc(*s):
    try:
        return np.broadcast_shapes(*s)
    except ValueError:
        return None


def cases(tier):
    DN = [(1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3)] + ([(3, 2), (1, 5), (2, 6), (3, 4)] if tier == 'thorough' else [])
    for D, N in DN:
        k = 0
        for A in ALAYS:
            for nu in NLAYS:
                for mu, La in (('', ''), ('2', ''), ('', '2'), ('22', '1'), ('1', '2')):
                    k += 1
                    if tier == 'quick' and (k + D + N) % 2 and not (A in ('D', 'TD') and nu in ('D', 'TD', '0')):
                        continue
                    yield ['gmc', D, N, 0, A, nu, mu, La, None]
        for K in (1, 2):
            for I in ILAYS:
                for A in ALAYS:
                    k += 1
                    if tier == 'quick' and (k + D + N + K) % 2 and I != 'T':
                        continue
                    yield ['gmc', D, N, K, A, NLAYS[k % len(NLAYS)], ['', '2'][k % 2], '', I]
        for kind in ('vary', 'switch'):
            for B in ('D', '2:D', '1:D', '22:D'):
                for S in ('T', '1', '2:T', '', '22:T', '1:T', '2:1'):
                    for K in (1, 2, 3):
                        k += 1
                        if tier == 'quick' and (k + D + N) % 2 and K != 2:
                            continue
                        yield [kind, D, N, K, B, S, ['D', '2:1D'][k % 2], ['', '2'][(k // 2) % 2]]


def masks(pl, N, tier, k):
    n = int(np.prod(pl)) * N
    if n <= (3 if tier == 'quick' else 5):
        allm = [np.array(b, bool).reshape(pl + (N,)) for b in itertools.product([0, 1], repeat=n)]
        return allm
    out = []
    m = np.ones(pl + (N,), bool)
    out.append(m)
    m = np.zeros(pl + (N,), bool)
    m.reshape(-1)[::2] = True
    out += [m, ~m]
    m = np.ones(pl + (N,), bool)
    m[..., -1] = False
    out.append(m)
    m = np.zeros(pl + (N,), bool)
    m[..., 0] = True
    out.append(m)
    if pl:
        m = np.ones(pl + (N,), bool)
        m[0] = False
        out.append(m)
        m = np.zeros((N,), bool)
        m[1] = True
        out.append(m)
    if tier == 'quick':
        return [out[0]] + [out[1 + (k + j) % (len(out) - 1)] for j in range(2)]
    return out


# ------------------------------------------------------------------------------ parameters with known expectations
class Gau:
    """Gaussian vector parameter, known or learned (plates pl, dimension d)"""

    def __init__(self, r, pl, d, learned, scale=.6):
        self.pl, self.d, self.learned = pl, d, learned
        self.m = scale * r.randn(*pl, d)
        self.mu0, self.L0 = .1 * r.randn(d), zoo.spd(r, d)
        if learned:
            self.node = bn.Gaussian(self.mu0, self.L0, plates=pl)
            L = zoo.spd(r, d, *pl) * 1.5
            self.node.initialize_from_parameters(self.m, L)
            C = np.linalg.inv(L)
        else:
            self.node = self.m
            C = np.zeros(pl + (d, d))
        self.mm = C + self.m[..., :, None] * self.m[..., None, :]
        self.prior = [self.L0 @ self.mu0, -.5 * self.L0]

    def full(self, pl):
        return np.broadcast_to(self.m, pl + (self.d,)), np.broadcast_to(self.mm, pl + (self.d, self.d))


class Gau2:
    """matrix-variate Gaussian parameter with diagonal prior: dims (d, k)"""

    def __init__(self, r, pl, sh, learned):
        self.pl, self.sh, self.learned = pl, sh, learned
        self.m = .5 * r.randn(*pl, *sh)
        al = r.rand(*pl, *sh) + 1
        if learned:
            self.node = bn.GaussianARD(.2, .7, shape=sh, plates=pl)
            self.node.initialize_from_parameters(self.m, al)
        else:
            self.node = self.m
        n = int(np.prod(sh))
        f = self.m.reshape(pl + (n,))
        self.mm = f[..., :, None] * f[..., None, :]
        if learned:
            self.mm = self.mm + (1 / al).reshape(pl + (n,))[..., None] * np.eye(n)
        self.prior = [np.full(sh, .14), -.35 * np.eye(n)]


class Gam:
    def __init__(self, r, pl, learned):
        self.pl, self.learned = pl, learned
        if learned:
            a, b = r.rand(*pl) + 1.2, r.rand(*pl) + .8
            self.node = bn.Gamma(1.4, .9, plates=pl)
            self.node.initialize_from_parameters(a, b)
            self.m, self.l = np.asarray(a / b), np.asarray(digamma(a) - np.log(b))
        else:
            self.m = np.asarray(r.rand(*pl) + .6)
            self.l = np.log(self.m)
            self.node = self.m
        self.prior = [-.9, 1.4]


class Wis:
    def __init__(self, r, pl, d, learned):
        self.pl, self.learned = pl, learned
        if learned:
            V0 = zoo.spd(r, d)
            self.node = bn.Wishart(d + 1.5, V0, plates=pl)
            n, V = r.rand(*pl) + d + 1, zoo.spd(r, d, *pl)
            self.node.initialize_from_parameters(n, V)
            self.m = np.asarray(n)[..., None, None] * np.linalg.inv(V)
            self.l = np.sum([digamma((n - i) / 2) for i in range(d)], axis=0) + d * np.log(2) - np.linalg.slogdet(V)[1]
            self.prior = [-.5 * V0, (d + 1.5) / 2]
        else:
            self.m = zoo.spd(r, d, *pl)
            self.l = np.linalg.slogdet(self.m)[1]
            self.node = self.m


def reduce_to(x, pl_from, pl_to):
    """sum the leading plate axes of x (plates pl_from) to plates pl_to"""
    ex = len(pl_from) - len(pl_to)
    if ex < 0:
        x = x.reshape((1,) * (-ex) + x.shape)
        pl_from = (1,) * (-ex) + pl_from
        ex = 0
    x = x.sum(axis=tuple(range(ex))) if ex else x
    ax = tuple(i for i, t in enumerate(pl_to) if t == 1 and pl_from[ex + i] != 1)
    return x.sum(axis=ax, keepdims=True) if ax else x


def compare_post(ctx, par, stats, pl_from, what, label):
    """par.node's factor after an update equals prior + summed statistics"""
    node = par.node
    node.update()
    ctx.op()
    for t, (pr, st) in enumerate(zip(par.prior, stats)):
        d = node.dims[t]
        st = np.broadcast_to(st, pl_from + tuple(d) if np.ndim(pr) == len(d) else pl_from + tuple(d))
        s = reduce_to(st, pl_from, tuple(node.plates))
        want = np.broadcast_to(pr + s, tuple(node.plates) + tuple(d))
        got = np.broadcast_to(node.get_parameters()[t], tuple(node.plates) + tuple(d))
        if not ctx.close(got, want, 'message to %s' % what, 1e-7, 1e-8, label):
            return False
    return True


# ------------------------------------------------------------------------------ dense chain
def dense(mu, La, LaMM, lLa, a, aa, nm, nl, u, uu, eJ, eh, ec, D, N):
    """one chain; a (N-1,D,M) mean rows, aa (N-1,D,M,M), nm, nl (N-1,D), u (N-1,K), uu; evidence eJ (N,D,D), eh (N,D), ec
    mu: E[Lambda mu]; LaMM: E[mu' Lambda mu]"""
    J = np.zeros((N * D, N * D))
    h = np.zeros(N * D)
    S = lambda n: slice(n * D, n * D + D)
    J[S(0), S(0)] += La
    h[S(0)] += mu
    const = .5 * lLa - .5 * LaMM - .5 * N * D * np.log(2 * np.pi)
    for n in range(1, N):
        ax, au = a[n - 1][:, :D], a[n - 1][:, D:]
        v = nm[n - 1]
        J[S(n), S(n)] += np.diag(v)
        J[S(n - 1), S(n - 1)] += np.einsum('i,ijk->jk', v, aa[n - 1][:, :D, :D])
        C = v[:, None] * ax
        J[S(n), S(n - 1)] -= C
        J[S(n - 1), S(n)] -= C.T
        h[S(n)] += v * (au @ u[n - 1])
        h[S(n - 1)] -= np.einsum('i,ijk,k->j', v, aa[n - 1][:, :D, D:], u[n - 1])
        const += .5 * nl[n - 1].sum() - .5 * np.einsum('i,ijk,jk->', v, aa[n - 1][:, D:, D:], uu[n - 1])
    for n in range(N):
        J[S(n), S(n)] += eJ[n]
        h[S(n)] += eh[n]
    C = np.linalg.inv(J)
    m = C @ h
    L = const + ec + .5 * h @ m - .5 * np.linalg.slogdet(J)[1] + .5 * N * D * np.log(2 * np.pi)
    return m.reshape(N, D), C.reshape(N, D, N, D), L


def evidence(kind, X, PL, N, D, r):
    """child of the chain; returns (node, y, fn(mask) -> eJ, eh, ec arrays)"""
    sh = PL + (N,)
    if kind == 'dot':
        c = r.randn(N, D)
        Y = bn.GaussianARD(bn.SumMultiply('i,i', X, c), 1.3)
        y = r.randn(*sh)

        def f(m):
            w = np.broadcast_to(m, sh)
            eJ = 1.3 * w[..., None, None] * np.broadcast_to(c[:, :, None] * c[:, None, :], sh + (D, D))
            eh = 1.3 * (w * y)[..., None] * c
            ec = (w * (.5 * np.log(1.3 / 2 / np.pi) - .65 * y ** 2)).sum(-1)
            return eJ, eh, ec
        return Y, y, f
    L = zoo.spd(r, D)
    Y = bn.Gaussian(X, L)
    y = r.randn(*sh, D)

    def f(m):
        w = np.broadcast_to(m, sh)
        eJ = w[..., None, None] * L
        eh = w[..., None] * (y @ L)
        ec = (w * (.5 * np.linalg.slogdet(L)[1] - .5 * D * np.log(2 * np.pi) - .5 * np.einsum('...i,ij,...j', y, L, y))).sum(-1)
        return eJ, eh, ec
    return Y, y, f


def compare_chain(ctx, X, PL, N, D, dense_at, evf, mask, Y, label):
    eJ, eh, ec = evf(mask)
    m = np.zeros(PL + (N, D))
    C = np.zeros(PL + (N, D, N, D))
    tot = 0.
    w = np.broadcast_to(mask, PL + (N,))
    for e in np.ndindex(*PL):
        m[e], C[e], L = dense_at(e, eJ[e], eh[e], ec[e])
        if w[e].any():
            tot += L
    XX = C + m[..., :, :, None, None] * m[..., None, None, :, :]
    diag = np.stack([XX[..., n, :, n, :] for n in range(N)], axis=-3)
    off = np.stack([XX[..., n, :, n + 1, :] for n in range(N - 1)], axis=-3)
    u = [np.broadcast_to(a, PL + d) for a, d in zip(X.get_moments(), X.dims)]
    ok = ctx.close(u[0], m, 'means', 1e-7, 1e-8, label)
    ok = ok and ctx.close(u[1], diag, 'second moments', 1e-7, 1e-8, label)
    ok = ok and ctx.close(u[2], off, 'lag-one second moments', 1e-7, 1e-8, label)
    if ok and w.any():
        L = float(np.sum(X.lower_bound_contribution())) + (float(np.sum(Y.lower_bound_contribution())) if Y is not None else 0)
        ok = ctx.close(L, tot, 'bound', 1e-7, 1e-7, label)
    return ok, m, diag, off, w.any(-1)


def f_gmc(ctx, case):
    _, D, N, K, Ac, nc, mc, Lc, Ic = case
    ap, np_, mp, lp = plates_of(Ac, D, N), plates_of(nc, D, N), plates_of(mc, D, N), plates_of(Lc, D, N)
    ip = plates_of(Ic, D, N) if Ic is not None else ()
    if np_ == () and D > 1 and ap == ():
        return
    PL = bc(ap[:-2], np_[:-2], mp, lp, ip[:-1])
    if PL is None:
        return
    big = int(np.prod(PL)) > 2
    kk = len(Ac) + 2 * len(nc) + 3 * len(mc) + D + N + K
    lps = ['lkkkk', 'klkkk', 'kklkk', 'kkklk', 'lllll', 'llkkl'] if K else ['kkkk', 'llkk', 'kkll', 'llll', 'lkkl', 'kllk']
    if ctx.tier == 'quick':
        lps = [lps[kk % len(lps)], lps[(kk + 3) % len(lps)]] + ([lps[4]] if K == 0 else [])
    # outer plates without a time axis are ambiguous: not part of the documented layouts
    ctx.traces = 0
    explicit = [()] if K == 0 or bc(ap[:-2], np_[:-2], mp, lp) == PL else [PL]
    if PL == () and kk % 3 == 0:
        explicit = [(), (2,)]
    for ex in explicit:
        PLT = ex or PL
        for pi, lpat in enumerate(dict.fromkeys(lps)):
            r = engine.rng('c14', D, N, K, Ac, nc, mc, Lc, Ic, lpat)
            A = Gau(r, ap, D + K, lpat[0] == 'l')
            nu = Gam(r, np_, lpat[1] == 'l')
            mu = Gau(r, mp, D, lpat[2] == 'l')
            La = Wis(r, lp, D, lpat[3] == 'l')
            inp = Gau(r, ip, K, lpat[4] == 'l', 1.) if K else None
            for kind in (['dot', 'vec', 'obs'] if ctx.tier == 'thorough' or pi == 0 else [['dot', 'vec', 'obs'][(kk + pi) % 3]]):
                for mask in masks(PLT, N, ctx.tier, kk + pi) if kind != 'obs' else [None]:
                    kw = dict(plates=ex) if ex else {}
                    if not (len(ap) >= 2 and ap[-2] > 1 or len(np_) >= 2 and np_[-2] > 1 or ip and ip[-1] > 1) or N == 2:
                        kw['n'] = N
                    if K:
                        kw['inputs'] = inp.node
                    X = bn.GaussianMarkovChain(mu.node, La.node, A.node, nu.node, **kw)
                    label = 'D=%d N=%d K=%d A %s nu %s mu %s Lambda %s inputs %s learned %s evidence %s mask %s plates %s' % (
                        D, N, K, ap, np_, mp, lp, ip, lpat, kind, None if mask is None else mask.astype(int).tolist(), PLT)
                    if not ctx.ok(tuple(X.plates) == PLT, 'plates of the chain', '%s: %s' % (label, X.plates)):
                        return
                    # expectations on the full layout
                    T = PLT + (N - 1, D)
                    a, aa = A.full(T)
                    nm, nl = np.broadcast_to(nu.m, T), np.broadcast_to(nu.l, T)
                    m0, mm0 = mu.full(PLT)
                    l0, ll0 = np.broadcast_to(La.m, PLT + (D, D)), np.broadcast_to(La.l, PLT)
                    if K:
                        uu_ = inp.full(PLT + (N - 1,))
                    else:
                        uu_ = np.zeros(PLT + (N - 1, 0)), np.zeros(PLT + (N - 1, 0, 0))

                    def at(e, eJ, eh, ec):
                        return dense(l0[e] @ m0[e], l0[e], np.trace(l0[e] @ mm0[e]), ll0[e], a[e], aa[e], nm[e], nl[e], uu_[0][e], uu_[1][e], eJ, eh, ec, D, N)
                    if kind == 'obs':
                        x = engine.rng('c14x', D, N, PLT).randn(*PLT, N, D)
                        X.observe(x)
                        m, diag, off = x, x[..., :, :, None] * x[..., :, None, :], x[..., :-1, :, None] * x[..., 1:, None, :]
                        act = np.ones(PLT, bool)
                        # bound: E log p at x
                        tot = 0.
                        for e in np.ndindex(*PLT):
                            _, _, _ = 0, 0, 0
                            d0 = x[e][0]
                            tot += .5 * ll0[e] - .5 * (d0 @ l0[e] @ d0 - 2 * d0 @ l0[e] @ m0[e] + np.trace(l0[e] @ mm0[e])) - .5 * N * D * np.log(2 * np.pi)
                            for n in range(1, N):
                                z = np.concatenate([x[e][n - 1], uu_[0][e][n - 1]])
                                zz = np.outer(z, z)
                                zz[D:, D:] = uu_[1][e][n - 1]
                                q = x[e][n] ** 2 - 2 * x[e][n] * (a[e][n - 1] @ z) + np.einsum('ijk,jk->i', aa[e][n - 1], zz)
                                tot += .5 * nl[e][n - 1].sum() - .5 * (nm[e][n - 1] * q).sum()
                        ctx.op()
                        if not ctx.close(float(np.sum(X.lower_bound_contribution())), tot, 'bound of an observed chain', 1e-8, 1e-8, label):
                            return
                    else:
                        Y, y, evf = evidence(kind, X, PLT, N, D, engine.rng('c14e', D, N, PLT, kind))
                        Y.observe(y, mask=mask)
                        X.update()
                        ctx.op()
                        ok, m, diag, off, act = compare_chain(ctx, X, PLT, N, D, at, evf, mask, Y, label)
                        if not ok:
                            return
                    # messages: statistics with active elements only
                    w = act.astype(float)
                    xz = np.concatenate([np.swapaxes(off, -1, -2), m[..., 1:, :, None] * uu_[0][..., None, :]], axis=-1)   # (..,N-1,D,M)
                    zz = np.zeros(PLT + (N - 1, D + K, D + K))
                    zz[..., :D, :D] = diag[..., :-1, :, :]
                    xu = m[..., :-1, :, None] * uu_[0][..., None, :]
                    zz[..., :D, D:] = xu
                    zz[..., D:, :D] = np.swapaxes(xu, -1, -2)
                    zz[..., D:, D:] = uu_[1]
                    wt = w[..., None, None] * nm
                    if A.learned:
                        if not compare_post(ctx, A, [wt[..., None] * xz, -.5 * wt[..., None, None] * zz[..., None, :, :]], T, 'the dynamics', label):
                            return
                        A.node.initialize_from_parameters(A.m, np.linalg.inv(A.mm - A.m[..., :, None] * A.m[..., None, :]))
                    if nu.learned:
                        xx = np.einsum('...ii->...i', diag[..., 1:, :, :])
                        q = xx - 2 * (xz * a).sum(-1) + np.einsum('...ijk,...jk->...i', aa, zz)
                        save = nu.node.get_parameters()
                        if not compare_post(ctx, nu, [-.5 * w[..., None, None] * q, .5 * w[..., None, None] * np.ones(T)], T, 'the innovation noise', label):
                            return
                        nu.node.set_parameters(save)
                    if mu.learned:
                        save = mu.node.get_parameters()
                        if not compare_post(ctx, mu, [w[..., None] * np.einsum('...ij,...j->...i', l0, m[..., 0, :]), -.5 * w[..., None, None] * l0], PLT, 'the initial mean', label):
                            return
                        mu.node.set_parameters(save)
                    if La.learned:
                        save = La.node.get_parameters()
                        x0 = m[..., 0, :]
                        cr = x0[..., :, None] * m0[..., None, :]
                        q = diag[..., 0, :, :] - cr - np.swapaxes(cr, -1, -2) + mm0
                        if not compare_post(ctx, La, [-.5 * w[..., None, None] * q, .5 * w], PLT, 'the initial precision', label):
                            return
                        La.node.set_parameters(save)
                    if K and inp.learned:
                        save = inp.node.get_parameters()
                        h = np.einsum('...i,...i,...ik->...k', wt, m[..., 1:, :], a[..., D:]) - np.einsum('...i,...ijk,...j->...k', wt, aa[..., :D, D:], m[..., :-1, :])
                        P = np.einsum('...i,...ijk->...jk', wt, aa[..., D:, D:])
                        if not compare_post(ctx, inp, [h, -.5 * P], PLT + (N - 1,), 'the inputs', label):
                            return
                        inp.node.set_parameters(save)
                    X.delete()
                    ctx.traces += 1
                    ctx.state(m, diag)


def f_dyn(ctx, case):
    """varying (S real weights) and switching (Z categories) dynamics"""
    kind, D, N, K, Bc, Sc, nc, mc = case
    bp, sp, npl, mp = plates_of(Bc, D, N), plates_of(Sc, D, N), plates_of(nc, D, N), plates_of(mc, D, N)
    if kind == 'switch' and (not sp or sp[-1] != N - 1):
        return      # documented: the categories have plates (...,N-1); anything else is rejected
    PL = bc(bp[:-1], sp[:-1], npl[:-2], mp)
    if PL is None:
        return
    kk = len(Bc) + 2 * len(Sc) + D + N + K
    ctx.traces = 0
    pats = ['ll', 'kl', 'lk', 'kk']
    if ctx.tier == 'quick':
        pats = ['ll', pats[1 + kk % 3]]
    for pi, lpat in enumerate(pats):
        r = engine.rng('c14d', kind, D, N, K, Bc, Sc, nc, mc, lpat)
        nu = Gam(r, npl, False)
        mu = Gau(r, mp, D, False)
        La = Wis(r, (), D, False)
        if kind == 'vary':
            B = Gau2(r, bp, (D, K), lpat[0] == 'l')
            S = Gau(r, sp, K, lpat[1] == 'l', 1.)
            Snode = S.node
        else:
            if lpat[0] == 'l':
                B = Gau(r, bp[:-1] + (K, D), D, True)
            else:
                B = Gau(r, bp[:-1] + (K, D), D, False)
            if lpat[1] == 'l':
                Snode = bn.Categorical(zoo.simplex(r, K), plates=sp)
                Snode.initialize_from_parameters(zoo.simplex(r, K, *sp))
                q = np.broadcast_to(Snode.get_moments()[0], sp + (K,)).copy()
                lp0 = np.broadcast_to(Snode.parents[0].get_moments()[0], (K,)).copy()
            else:
                z = r.randint(0, K, size=sp)
                q = np.eye(K)[z]
                Snode = bn.Categorical(np.ones(K) / K, plates=sp)
                Snode.observe(np.asarray(z))
        for ek in (['dot', 'vec'] if ctx.tier == 'thorough' else [['dot', 'vec'][(kk + pi) % 2]]):
            for mask in masks(PL, N, ctx.tier, kk + pi):
                kw = {}
                if not (sp and sp[-1] > 1):
                    kw['n'] = N
                cls = bn.VaryingGaussianMarkovChain if kind == 'vary' else bn.SwitchingGaussianMarkovChain
                X = cls(mu.node, La.node, B.node, Snode, nu.node, **kw)
                label = '%s D=%d N=%d K=%d B %s S %s nu %s mu %s learned %s evidence %s mask %s' % (kind, D, N, K, bp, sp, npl, mp, lpat, ek, mask.astype(int).tolist())
                if not ctx.ok(tuple(X.plates) == PL, 'plates of the chain', '%s: %s' % (label, X.plates)):
                    return
                T = PL + (N - 1, D)
                if kind == 'vary':
                    s, ss = S.full(PL + (N - 1,))
                    Bm = np.broadcast_to(B.m, PL + (D, D, K))
                    BB = np.broadcast_to(B.mm.reshape(bp + (D, K, D, K)), PL + (D, D, K, D, K))
                    a = np.einsum('...idk,...nk->...nid', Bm, s)
                    aa = np.einsum('...idkel,...nkl->...nide', BB, ss)
                else:
                    qf = np.broadcast_to(q, PL + (N - 1, K))
                    Bm = np.broadcast_to(B.m, PL + (K, D, D))
                    BB = np.broadcast_to(B.mm, PL + (K, D, D, D))
                    a = np.einsum('...kid,...nk->...nid', Bm, qf)
                    aa = np.einsum('...kide,...nk->...nide', BB, qf)
                v = np.broadcast_to(nu.m.reshape(npl[:-2] + (D,)), PL + (D,))
                nm = np.broadcast_to(v[..., None, :], T)
                nl = np.log(nm)
                m0, mm0 = mu.full(PL)
                l0, ll0 = np.broadcast_to(La.m, PL + (D, D)), np.broadcast_to(La.l, PL)
                z0, zz0 = np.zeros((N - 1, 0)), np.zeros((N - 1, 0, 0))

                def at(e, eJ, eh, ec):
                    return dense(l0[e] @ m0[e], l0[e], np.trace(l0[e] @ mm0[e]), ll0[e], a[e], aa[e], nm[e], nl[e], z0, zz0, eJ, eh, ec, D, N)
                Y, y, evf = evidence(ek, X, PL, N, D, engine.rng('c14e', D, N, PL, ek))
                Y.observe(y, mask=mask)
                X.update()
                ctx.op()
                ok, m, diag, off, act = compare_chain(ctx, X, PL, N, D, at, evf, mask, Y, label)
                if not ok:
                    return
                w = act.astype(float)
                xz = np.swapaxes(off, -1, -2)           # (..,N-1,D(i),D(d)): E x_n,i x_{n-1,d}
                zz = diag[..., :-1, :, :]
                if kind == 'vary':
                    if B.learned:
                        save = B.node.get_parameters()
                        h = np.einsum('...,...i,...nid,...nk->...idk', w, v, xz, s)
                        P = np.einsum('...,...i,...nde,...nkl->...idkel', w, v, zz, ss)
                        B.prior[1] = B.prior[1].reshape(D, K, D, K)
                        if not compare_post(ctx, B, [h, -.5 * P], PL + (D,), 'the dynamics', label):
                            return
                        B.node.set_parameters(save)
                    if S.learned:
                        save = S.node.get_parameters()
                        h = np.einsum('...,...i,...nid,...idk->...nk', w, v, xz, Bm)
                        P = np.einsum('...,...i,...nde,...idkel->...nkl', w, v, zz, BB)
                        if not compare_post(ctx, S, [h, -.5 * P], PL + (N - 1,), 'the weights', label):
                            return
                        S.node.set_parameters(save)
                else:
                    if B.learned:
                        save = B.node.get_parameters()
                        h = np.einsum('...,...nk,...i,...nid->...kid', w, qf, v, xz)
                        P = np.einsum('...,...nk,...i,...nde->...kide', w, qf, v, zz)
                        if not compare_post(ctx, B, [h, -.5 * P], PL + (K, D), 'the dynamics', label):
                            return
                        B.node.set_parameters(save)
                    if lpat[1] == 'l':
                        save = Snode.get_parameters()
                        Snode.update()
                        ctx.op()
                        L = w[..., None, None] * (np.einsum('...i,...nid,...kid->...nk', v, xz, Bm) - .5 * np.einsum('...i,...nde,...kide->...nk', v, zz, BB))
                        L = reduce_to(L, PL + (N - 1,), sp)
                        lg = lp0 + L
                        ex = np.exp(lg - lg.max(-1, keepdims=True))
                        ex = ex / ex.sum(-1, keepdims=True)
                        if not ctx.close(np.broadcast_to(Snode.get_moments()[0], sp + (K,)), np.broadcast_to(ex, sp + (K,)), 'switch probabilities', 1e-7, 1e-8, label):
                            return
                        Snode.set_parameters(save)
                X.delete()
                ctx.traces += 1
                ctx.state(m, diag)


def run(ctx, case):
    (f_gmc if case[0] == 'gmc' else f_dyn)(ctx, case)
