"""C13: discrete Markov chains equal exact path enumeration."""
import itertools
import numpy as np
from scipy.special import digamma, gammaln
from bayespy import nodes as bn
from bayespy.utils import random as brandom
from . import engine, zoo

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive summation over all state paths, for every chain size, parameter layout, degenerate pattern and evidence mask'
RULE = ('all (states, steps, initial distribution known/learned, transitions known/learned and fixed/time-varying/plate-dependent, zero patterns of the probabilities, '
        'emission kind, evidence mask) within the bound: single and pairwise probabilities, the bound and the messages to all parents equal the sums over all state paths; '
        'the recursion itself is compared for every broadcasting combination of its arguments')
BOUND = dict(quick='1-3 states, 2-5 steps, plates () (2,) (2,3) (1,), all 2^n masks for single chains with <=4 steps, covering masks for plates; all single-zero and row-degenerate patterns of 2-state chains',
             thorough='1-4 states, 2-7 steps, all masks up to 5 steps')
ASSUMPTIONS = ['evidence is generic; at least one path has positive probability']
CASE_TIMEOUT = 300


def cases(tier):
    KN = [(1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4), (2, 5)]
    if tier == 'thorough':
        KN += [(4, 3), (4, 4), (2, 7), (3, 5)]
    for K, N in KN:
        for p0 in P0LAY:
            for A in ALAY:
                for em in EM:
                    yield ['chain', K, N, p0, A, em]
    for K, N in KN:
        yield ['rec', K, N]
    for N in (2, 3, 4):
        for zp in range(16):
            for z0 in range(3):
                yield ['zero', N, zp, z0]
    for K, N in ((2, 2), (2, 3), (3, 3)):
        for em in EM:
            yield ['learn', K, N, em]
    for K, N in KN:
        if K > 1:
            yield ['init', K, N]
            yield ['take', K, N]


# layouts: plates of the initial distribution; leading plates of A (None in the time slot: no time axis)
P0LAY = ['', '2', '23', '1']
ALAY = ['K', '1', 'T', '2,1', '2,T', '3,T', '23,T', '1,1', '21,T']
EM = ['gauss', 'cat', 'gate', 'two', 'none']


def a_plates(code, K, N):
    if code == 'K':
        return (K,)
    parts = code.split(',')
    lead = tuple(int(c) for c in parts[0]) if len(parts) > 1 else ()
    t = parts[-1]
    return lead + ((1,) if t == '1' else (N - 1,)) + (K,)


def lay(code):
    return tuple(int(c) for c in code)


def bc(*s):
    try:
        return np.broadcast_shapes(*s)
    except ValueError:
        return None


def masks(pl, N, tier):
    n = int(np.prod(pl)) * N
    if n <= (4 if tier == 'quick' else 5):
        return [np.array(b, bool).reshape(pl + (N,)) for b in itertools.product([0, 1], repeat=n)]
    out = [np.ones(pl + (N,), bool)]
    m = np.zeros(pl + (N,), bool)
    m.reshape(-1)[::2] = True
    out += [m, ~m]
    m = np.ones(pl + (N,), bool)
    m[..., -1] = False
    out.append(m)
    m = np.ones(pl + (N,), bool)
    m[..., 0] = False
    out.append(m)
    if pl:
        m = np.ones(pl + (N,), bool)
        m[0] = False
        out.append(m)
        m = np.zeros(pl + (N,), bool)
        m[-1, ..., 1:] = True
        out.append(m)
        m = np.zeros((N,), bool)
        m[0] = True
        out.append(m)
    return out


def paths(lp0, lA, ev):
    """exact sums over all paths; lp0 (K,), lA (N-1,K,K), ev (N,K) -> z0, pair (N-1,K,K), single (N,K), logZ"""
    N, K = ev.shape
    P = list(itertools.product(range(K), repeat=N))
    lw = np.array([lp0[p[0]] + ev[0, p[0]] + sum(lA[n, p[n], p[n + 1]] + ev[n + 1, p[n + 1]] for n in range(N - 1)) for p in P])
    mx = lw.max()
    w = np.exp(lw - mx)
    Z = w.sum()
    w = w / Z
    pair = np.zeros((N - 1, K, K))
    single = np.zeros((N, K))
    for p, x in zip(P, w):
        for n in range(N):
            single[n, p[n]] += x
        for n in range(N - 1):
            pair[n, p[n], p[n + 1]] += x
    return single[0], pair, single, mx + np.log(Z)


def elogdir(c):
    return digamma(c) - digamma(c.sum(-1, keepdims=True))


def emission(em, Z, K, pl, N, r):
    """attach evidence; returns (observed nodes, ev function(mask)->(pl+(N,K)), list of (param node, check function))"""
    sh = pl + (N,)
    if em == 'none':
        return [], (lambda mask: np.zeros(sh + (K,))), []
    out = []
    evs = []
    par = []
    if em in ('gauss', 'two'):
        m0 = r.randn(K)
        l0 = r.rand(K) + .5
        mu = bn.GaussianARD(.1, .4, plates=(K,))
        mu.initialize_from_parameters(m0, l0)
        Y = bn.Mixture(Z, bn.GaussianARD, mu, 1.3)
        y = r.randn(*sh)
        # E log N(y | mu_k, 1/1.3)
        ev = .5 * np.log(1.3) - .5 * np.log(2 * np.pi) - .65 * ((y[..., None] - m0) ** 2 + 1 / l0)
        out.append((Y, y))
        evs.append(ev)

        def chk(ctx, q, mask, label, mu=mu, y=y):
            mu.update()
            w = q * mask[..., None]
            n = w.reshape(-1, K).sum(0)
            s = (w * y[..., None]).reshape(-1, K).sum(0)
            lam = .4 + 1.3 * n
            ctx.close(np.broadcast_to(mu.get_moments()[0], (K,)), (.4 * .1 + 1.3 * s) / lam, 'emission means', 1e-8, 1e-9, label)
        par.append(chk)
    if em in ('cat', 'gate', 'two'):
        c0 = r.rand(K, 3) * 2 + .3
        P = bn.Dirichlet([.7, 1.1, .6], plates=(K,))
        P.initialize_from_parameters(c0)
        Y = bn.Categorical(bn.Gate(Z, P)) if em == 'gate' else bn.Mixture(Z, bn.Categorical, P)
        y = r.randint(0, 3, size=sh)
        ev = np.moveaxis(elogdir(c0)[:, y], 0, -1)
        out.append((Y, y))
        evs.append(ev)

        def chk2(ctx, q, mask, label, P=P, y=y):
            P.update()
            w = q * mask[..., None]
            cnt = np.array([[w[..., k][y == j].sum() for j in range(3)] for k in range(K)])
            ctx.close(np.broadcast_to(P.get_parameters()[0], (K, 3)), np.array([.7, 1.1, .6]) + cnt, 'emission probabilities', 1e-8, 1e-9, label)
        par.append(chk2)
    return out, (lambda mask: sum(e * mask[..., None] for e in evs)), par


def check_chain(ctx, Z, obs, evf, par, lp0, lA, pl, N, K, mask, label, learned):
    """lp0 broadcasts to pl+(K,), lA to pl+(N-1,K,K)"""
    for Y, y in obs:
        Y.observe(y, mask=mask)
    mask = np.broadcast_to(mask, pl + (N,))
    Z.update()
    ctx.op()
    ev = evf(mask)
    lp0 = np.broadcast_to(lp0, pl + (K,))
    lA = np.broadcast_to(lA, pl + (N - 1, K, K))
    u0, uz = Z.get_moments()
    u0 = np.broadcast_to(u0, pl + (K,))
    uz = np.broadcast_to(uz, pl + (N - 1, K, K))
    single = np.zeros(pl + (N, K))
    pair = np.zeros(pl + (N - 1, K, K))
    tot = 0.0
    for e in np.ndindex(*pl):
        a, b, c, lz = paths(lp0[e], lA[e], ev[e])
        single[e], pair[e] = c, b
        if mask[e].any():
            tot += lz
        if not ctx.close(u0[e], a, 'initial state probabilities', 1e-8, 1e-10, label):
            return False
        if not ctx.close(uz[e], b, 'pairwise state probabilities', 1e-8, 1e-10, label):
            return False
    if obs:
        L = float(np.sum(Z.lower_bound_contribution())) + sum(float(np.sum(Y.lower_bound_contribution())) for Y, y in obs)
        ctx.close(L, tot, 'bound of the chain with its evidence', 1e-8, 1e-8, label)
    # all elements, also those without evidence
    if not obs:
        L = float(np.sum(Z.lower_bound_contribution(ignore_masked=False)))
        tot = sum(paths(lp0[e], lA[e], ev[e])[3] for e in np.ndindex(*pl))
        ctx.close(L, tot, 'bound of the chain alone', 1e-8, 1e-8, label)
    for chk in par:
        chk(ctx, single, mask, label)
        ctx.op()
    act = mask.any(-1)
    for node, prior, what in learned:
        node.update()
        ctx.op()
        got = np.broadcast_to(node.get_parameters()[0], node.plates + (K,))
        cnt = (single[..., 0, :] if what == 'p0' else pair) * (act[..., None] if what == 'p0' else act[..., None, None, None])
        tgt = node.plates + (K,)
        if what == 'A' and len(node.plates) == 1:
            cnt = cnt.sum(-3)
            full = pl + (K, K)
        else:
            full = cnt.shape
        s = cnt
        extra = len(full) - len(tgt)
        s = s.sum(axis=tuple(range(extra))) if extra > 0 else s
        tg = tgt[-s.ndim:] if s.ndim < len(tgt) else tgt
        ax = tuple(i for i, (x, t) in enumerate(zip(s.shape, tg)) if t == 1 and x != 1)
        s = s.sum(axis=ax, keepdims=True)
        if not ctx.close(got, prior + np.broadcast_to(s, tgt), 'learned %s' % what, 1e-8, 1e-9, label):
            return False
    ctx.traces += 1
    return True


def f_chain(ctx, case):
    _, K, N, p0c, Ac, em = case
    pp, ap = lay(p0c), a_plates(Ac, K, N)
    al = ap[:-2]
    pl = bc(pp, al)
    if pl is None:
        return
    big = K ** N * int(np.prod(pl))
    if ctx.tier == 'quick' and big > 500:
        return
    ctx.traces = 0
    extra = [(), (2,)] if pl == () and big <= 100 else [()]
    for xp in extra:
        PLT = bc(pl, xp) if not xp else xp
        for lm in (['kk', 'll'] if ctx.tier == 'quick' else ['kk', 'kl', 'lk', 'll']):
            r = engine.rng('c13', K, N, p0c, Ac, em, xp, lm)
            pi = zoo.simplex(r, K, *pp)
            A = zoo.simplex(r, K, *ap)
            c0, cA = r.rand(*pp, K) * 2 + .4, r.rand(*ap, K) * 2 + .4
            for mi, mask in enumerate(masks(PLT, N, ctx.tier) if em != 'none' else [np.ones(PLT + (N,), bool)]):
                if ctx.tier == 'quick' and lm == 'kk' and mi % 2 and mi > 8:
                    continue
                if ctx.tier == 'quick' and em in ('gate', 'two') and mi % 3 and Ac not in ('K', 'T'):
                    continue
                learned = []
                if lm[0] == 'l':
                    n0 = bn.Dirichlet(.8 * np.ones(K), plates=pp)
                    n0.initialize_from_parameters(c0)
                    lp0 = elogdir(c0)
                    learned.append((n0, .8, 'p0'))
                else:
                    n0, lp0 = pi, np.log(pi)
                if lm[1] == 'l':
                    nA = bn.Dirichlet(1.2 * np.ones(K), plates=ap)
                    nA.initialize_from_parameters(cA)
                    lA = elogdir(cA)
                    learned.append((nA, 1.2, 'A'))
                else:
                    nA, lA = A, np.log(A)
                kw = dict(states=N) if (Ac == 'K' or ap[-2] == 1) else {}
                if xp:
                    kw['plates'] = xp
                Z = bn.CategoricalMarkovChain(n0, nA, **kw)
                label = 'K=%d N=%d p0 %s%s A %s%s emission %s mask %s plates %s' % (K, N, lm[0], pp, lm[1], ap, em, mask.astype(int).tolist(), PLT)
                if not ctx.ok(tuple(Z.plates) == PLT, 'plates of the chain', '%s: %s' % (label, Z.plates)):
                    return
                obs, evf, par = emission(em, Z, K, PLT, N, engine.rng('c13e', K, N, em, PLT))
                if not check_chain(ctx, Z, obs, evf, par, lp0, lA, PLT, N, K, mask, label, learned if em != 'none' else []):
                    return
                ctx.state(K, N, Z.get_moments())


def f_rec(ctx, case):
    """the recursion for every broadcasting combination"""
    _, K, N = case
    ctx.traces = 0
    for a in [(), (2,), (1,), (3, 1), (3, 2), (1, 2)]:
        for b in [(), (2,), (1,), (3, 1), (3, 2), (1, 2)]:
            r = engine.rng('c13r', K, N, a, b)
            for scale in (1., 30.):
                lp0 = scale * r.randn(*a, K)
                lA = scale * r.randn(*b, N - 1, K, K)
                c0, cA = lp0.copy(), lA.copy()
                z0, zz, g = brandom.alpha_beta_recursion(lp0, lA)
                ctx.op()
                ctx.close(lp0, c0, 'the arguments are not modified', 0, 0)
                ctx.close(lA, cA, 'the arguments are not modified', 0, 0)
                pl = bc(a, b)
                l0, l1 = np.broadcast_to(lp0, pl + (K,)), np.broadcast_to(lA, pl + (N - 1, K, K))
                for e in np.ndindex(*pl):
                    x, y, _, lz = paths(l0[e], l1[e], np.zeros((N, K)))
                    lab = 'K=%d N=%d plates %s %s scale %s' % (K, N, a, b, scale)
                    if not (ctx.close(np.broadcast_to(z0, pl + (K,))[e], x, 'initial state', 1e-7, 1e-10, lab) and
                            ctx.close(np.broadcast_to(zz, pl + (N - 1, K, K))[e], y, 'pairs', 1e-7, 1e-10, lab) and
                            ctx.close(-np.broadcast_to(g, pl)[e], lz, 'log-normaliser', 1e-8, 1e-8, lab)):
                        return
                ctx.traces += 1
                ctx.state(lp0, lA)


def f_zero(ctx, case):
    """zero probabilities (all support patterns of a two-state chain that leave some path)"""
    _, N, zp, z0 = case
    ctx.traces = 0
    sup = np.array([(zp >> i) & 1 for i in range(4)], float).reshape(2, 2)
    if np.any(sup.sum(-1) == 0):
        return
    A = sup * [[.3, .7], [.6, .4]]
    A = A / A.sum(-1, keepdims=True)
    pi = np.array([[.4, .6], [1., 0.], [0., 1.]])[z0]
    with np.errstate(all='ignore'):
        l0, lA = np.log(pi), np.log(A)
    for tv in (False, True):
        for em in ('gauss', 'cat', 'none'):
            for mask in masks((), N, ctx.tier) if em != 'none' else [np.ones(N, bool)]:
                if tv:
                    An = np.array([A if n % 2 == 0 else np.array([[.2, .8], [.5, .5]]) for n in range(N - 1)])
                    with np.errstate(all='ignore'):
                        lAn = np.log(An)
                    Z = bn.CategoricalMarkovChain(pi, An)
                    if N == 2:
                        Z = bn.CategoricalMarkovChain(pi, An, states=2)
                else:
                    Z = bn.CategoricalMarkovChain(pi, A, states=N)
                    lAn = np.broadcast_to(lA, (N - 1, 2, 2))
                obs, evf, par = emission(em, Z, 2, (), N, engine.rng('c13z', N, em))
                label = 'support %s start %s N=%d tv %s %s mask %s' % (sup.astype(int).tolist(), pi.tolist(), N, tv, em, mask.astype(int).tolist())
                if not check_chain(ctx, Z, obs, evf, par, l0, lAn, (), N, 2, mask, label, []):
                    return
                # evidence that excludes a state
    # evidence of zero probability under one state
    for mask in masks((), N, ctx.tier):
        if z0 != 0 or zp != 15:
            break
        y = np.array([0, 1, 2, 1, 0])[:N]
        P = np.array([[.5, .5, 0.], [.2, .3, .5]])
        Z = bn.CategoricalMarkovChain(pi, A, states=N)
        Y = bn.Mixture(Z, bn.Categorical, P)
        with np.errstate(all='ignore'):
            ev = np.log(P)[:, y].T
        check_chain(ctx, Z, [(Y, y)], lambda m: np.where(m[..., None], ev, 0), [], l0, np.broadcast_to(lA, (N - 1, 2, 2)), (), N, 2, mask, 'excluding evidence N=%d mask %s' % (N, mask.astype(int).tolist()), [])
    ctx.state(pi, A)


def f_learn(ctx, case):
    """repeated updates of the complete model against a reference EM-like iteration on explicit paths"""
    _, K, N, em = case
    if em in ('none', 'two'):
        return
    ctx.traces = 0
    for mask in masks((), N, 'quick'):
        if not mask.any():
            continue
        r = engine.rng('c13l', K, N, em)
        c0, cA = r.rand(K) * 2 + .4, r.rand(K, K) * 2 + .4
        n0 = bn.Dirichlet(.8 * np.ones(K))
        nA = bn.Dirichlet(1.2 * np.ones(K), plates=(K,))
        n0.initialize_from_parameters(c0)
        nA.initialize_from_parameters(cA)
        Z = bn.CategoricalMarkovChain(n0, nA, states=N)
        obs, evf, par = emission(em, Z, K, (), N, r)
        ev = evf(mask)
        for Y, y in obs:
            Y.observe(y, mask=mask)
        for order in (('Z', '0', 'A'), ('Z', 'A', 'Z', '0', 'Z')):
            for o in order:
                if o == 'Z':
                    Z.update()
                    s0, pair, single, lz = paths(elogdir(c0), np.broadcast_to(elogdir(cA), (N - 1, K, K)), ev)
                elif o == '0':
                    n0.update()
                    c0 = .8 + s0
                else:
                    nA.update()
                    cA = 1.2 + pair.sum(0)
                ctx.op()
                lab = 'K=%d N=%d %s mask %s' % (K, N, em, mask.astype(int).tolist())
                ctx.close(Z.get_moments()[1], pair, 'pairwise probabilities while learning', 1e-7, 1e-9, lab)
                ctx.close(n0.get_parameters()[0], c0, 'initial distribution while learning', 1e-7, 1e-9, lab)
                ctx.close(nA.get_parameters()[0], cA, 'transitions while learning', 1e-7, 1e-9, lab)
                # complete bound
                lp0, lA = elogdir(c0), elogdir(cA)

                def kl(c, a):
                    lnB = lambda v: gammaln(v).sum(-1) - gammaln(v.sum(-1))
                    return float(np.sum(lnB(c) - lnB(a) + ((a - c) * elogdir(c)).sum(-1)))
                ent = -(np.where(pair > 0, pair * np.log(np.where(pair > 0, pair, 1)), 0).sum() - sum(np.where(single[n] > 0, single[n] * np.log(np.where(single[n] > 0, single[n], 1)), 0).sum() for n in range(1, N - 1)))
                want = (s0 @ lp0) + (pair.sum(0) * lA).sum() + (single * ev).sum() + ent + kl(c0, np.full(K, .8)) + kl(cA, np.full((K, K), 1.2))
                L = sum(float(np.sum(v.lower_bound_contribution())) for v in [n0, nA, Z] + [Y for Y, y in obs])
                ctx.close(L, want, 'bound while learning', 1e-7, 1e-8, lab)
        ctx.traces += 1
        ctx.state(K, N, c0, cA)


def f_init(ctx, case):
    """fixing a chain to any path"""
    _, K, N = case
    ctx.traces = 0
    for pl in ((), (2,), (2, 1)):
        Z = bn.CategoricalMarkovChain(np.ones(K) / K, np.ones((K, K)) / K, states=N, plates=pl)
        P = list(itertools.product(range(K), repeat=N))
        for i in range(len(P)):
            x = np.array([P[(i + 5 * j) % len(P)] for j in range(int(np.prod(pl)))]).reshape(pl + (N,))
            Z.initialize_from_value(x)
            ctx.op()
            u0, uz = Z.get_moments()
            w = np.eye(K)
            ctx.close(np.broadcast_to(u0, pl + (K,)), w[x[..., 0]], 'first state of a given path', 0, 1e-12)
            ctx.close(np.broadcast_to(uz, pl + (N - 1, K, K)), w[x[..., :-1]][..., :, None] * w[x[..., 1:]][..., None, :], 'pairs of a given path', 0, 1e-12)
            # as seen by an emission
            G = bn.Gate(Z, bn.GaussianARD(np.arange(K, dtype=float), 1e6, plates=(K,)))
            ctx.close(np.broadcast_to(G.get_moments()[0], pl + (N,)), x.astype(float), 'sequence seen by a child', 1e-9, 1e-9)
            G.delete()
    ctx.traces += 1
    ctx.state(K, N)


def f_take(ctx, case):
    """one chain with two emissions of different masks, and a slice of an emission"""
    _, K, N = case
    ctx.traces = 0
    r = engine.rng('c13t', K, N)
    pi, A = zoo.simplex(r, K), zoo.simplex(r, K, K)
    ms = masks((), N, 'quick')
    y1, y2 = r.randn(N), r.randn(N)
    m1, m2 = r.randn(K), r.randn(K)
    for i, a in enumerate(ms):
        b = ms[(3 * i + 1) % len(ms)]
        Z = bn.CategoricalMarkovChain(pi, A, states=N)
        Y1 = bn.Mixture(Z, bn.GaussianARD, m1, 1.1)
        Y2 = bn.Mixture(Z, bn.GaussianARD, m2, .8)
        e1 = -.5 * 1.1 * (y1[:, None] - m1) ** 2 + .5 * np.log(1.1 / 2 / np.pi)
        e2 = -.5 * .8 * (y2[:, None] - m2) ** 2 + .5 * np.log(.8 / 2 / np.pi)
        Y1.observe(y1, mask=a)
        Y2.observe(y2, mask=b)
        Z.update()
        ctx.op()
        s0, pair, single, lz = paths(np.log(pi), np.broadcast_to(np.log(A), (N - 1, K, K)), e1 * a[:, None] + e2 * b[:, None])
        ctx.close(Z.get_moments()[1], pair, 'pairs with two emissions', 1e-8, 1e-10, '%s %s' % (a.astype(int), b.astype(int)))
        if (a | b).any():
            ctx.close(sum(float(np.sum(v.lower_bound_contribution())) for v in (Z, Y1, Y2)), lz, 'bound with two emissions', 1e-8, 1e-8)
        ctx.traces += 1
        ctx.state(K, N, a, b)


def run(ctx, case):
    globals()['f_' + case[0]](ctx, case)
