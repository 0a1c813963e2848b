"""C15: rotations and translations: consistent nodes, predicted change of the bound = actual change."""
import copy
import itertools
import warnings
import numpy as np
from bayespy import nodes as bn
from bayespy.inference import VB
from bayespy.inference.vmp import transformations as tr
from . import engine, zoo

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of transformation classes, layouts, elementary transformations and update histories on the real nodes, against densely transformed distributions and the actual bound'
RULE = ('(node) every rotate/translate method x shape x axis x plates x transformation family x history: moments, density and stored state equal those of the densely transformed distribution; '
        '(block) every rotator x layout x family: predicted bound differences equal the actual ones, gradient equals central differences; '
        '(optimiser) every model x history of updates up to the depth, each followed by an optimised rotation: bound not lower, equals the prediction, and later updates behave as in a fresh model holding the same state')
BOUND = dict(quick='vectors of 1-3, arrays of 2-3 axes; families of 6-8 matrices; histories up to depth 2 over all model blocks',
             thorough='as quick with depth 3 and all matrices everywhere')
ASSUMPTIONS = ['no observed elements in the rotated nodes; unit innovation noise for chain rotations (documented); variables all of whose data is missing are reported separately']
CASE_TIMEOUT = 300


def family(D, r, n=None):
    """elementary rotation matrices of size D"""
    I = np.eye(D)
    out = [('id', I), ('scale', np.diag(1.5 ** np.arange(1, D + 1)))]
    neg = np.eye(D)
    neg[0, 0] = -1.
    out.append(('reflect', neg))
    if D > 1:
        out.append(('perm', np.roll(I, 1, axis=0)))
        s = np.eye(D)
        s[0, -1] = .7
        out.append(('shear', s))
        s = np.eye(D)
        s[-1, 0] = -.4
        out.append(('shearT', s))
        c, t = np.cos(.6), np.sin(.6)
        g = np.eye(D)
        g[:2, :2] = [[c, -t], [t, c]]
        out.append(('givens', g))
    m = r.randn(D, D) + 1.5 * np.eye(D)
    out.append(('generic', m))
    return out


def full(x, sh):
    return np.broadcast_to(np.asarray(x, float), sh)


NODE_ARD = [((1,), ()), ((2,), ()), ((3,), (2,)), ((2,), (2, 3)), ((2, 3), ()), ((3, 2), (2,)), ((2, 2, 2), ()), ((2, 1, 3), (2,)), ((2,), (1, 3)), ((2, 2), (2, 1))]


def cases(tier):
    for sh, pl in NODE_ARD:
        for ax in range(-len(sh), len(sh)):
            for hist in ('fresh', 'upd', 'twice', 'shared'):
                yield ['ard', list(sh), list(pl), ax, hist]
    for sh, pl in NODE_ARD:
        for pax in range(-len(pl), len(pl)):
            yield ['ardplates', list(sh), list(pl), pax]
    for D in (1, 2, 3):
        for pl in ((), (2,), (2, 3), (1,)):
            for hist in ('fresh', 'upd', 'twice'):
                yield ['gauss', D, list(pl), hist]
    for D in (1, 2, 3):
        for N in (1, 2, 3):
            yield ['gaussQ', D, N]
    for D1, D2 in itertools.product((1, 2, 3), (1, 2, 3)):
        for pl in ((), (2,), (2, 2)):
            yield ['matrix', D1, D2, list(pl)]
    for kind in ('ard', 'gauss', 'gg'):
        for sh in ((1,), (2,), (3,)) + (((2, 2), (2, 3)) if kind == 'ard' else ()):
            for pl in ((), (2,), (2, 3)):
                for hist in ('fresh', 'upd', 'twice'):
                    yield ['translate', kind, list(sh), list(pl), hist]
    for D in (1, 2, 3):
        for pl in ((), (2,), (2, 3)):
            for hist in ('fresh', 'upd', 'twice'):
                yield ['ggrot', D, list(pl), hist]
    for D in (1, 2, 3):
        for N in (2, 3):
            for pl in ((), (2,), (2, 2)):
                for hist in ('fresh', 'upd', 'twice'):
                    yield ['gmcrot', D, N, list(pl), hist]
    # rotators of single blocks
    for sh, pl in NODE_ARD:
        for ax in range(-len(sh), 0):
            for al in ('none', 'noneplates', '', '1', 'sh', 'shp', 'ones'):
                for mu in ('0', 'full', 'plates', 'latent') if tier != 'quick' else ('0', 'plates') if al in ('none', 'sh', 'ones') else ('latent',):
                    for pax in [None] + list(range(-len(pl), 0)):
                        if pax is not None and ax != -len(sh) and len(sh) > 1 and False:
                            continue
                        for pre in (False, True) if pax is not None or mu == '0' else (False,):
                            yield ['rotard', list(sh), list(pl), ax, al, mu, pax, pre]
    for D in (1, 2, 3):
        for pl in ((), (3,), (1,), (2, 2)):
            for lam in ('fixed', 'learn'):
                for mi in range(1 if not pl else 3 if pl != (1,) else 2):
                    yield ['rotgauss', D, list(pl), lam, mi]
    for spec in gmc_specs(tier):
        yield ['rotgmc'] + spec
    for m in MODELS:
        for D in (1, 2, 3):
            yield ['opt', m, D]
    for m in ('pca', 'fa', 'gg', 'lssm', 'lssmg', 'lssmin', 'tvd'):
        yield ['masked', m, 2]


def gmc_specs(tier):
    for D in (1, 2, 3):
        for N in (2, 3, 4):
            for X in ((), (2,), (2, 2)):
                for A in ('const', 'time1', 'time', 'plates', 'alpha', 'varying', 'switching', 'input1', 'input2', 'inputalpha'):
                    for mu in ('0', 'full', 'latent'):
                        if A in ('plates',) and not X:
                            continue
                        yield [D, N, list(X), A, mu]
                        if not X:
                            yield [D, N, list(X), A, mu + '+fresh']
                        if mu != 'full' and D == 2:
                            yield [D, N, list(X), A, mu + '+gap']


# ---------------------------------------------------------------- node-level


def consistent(ctx, X, label):
    """u and g are the moments and normaliser of phi"""
    u0 = [np.array(x) for x in X.u]
    g0 = np.array(X.g)
    (u, g) = X._distribution.compute_moments_and_cgf([np.copy(p) for p in X.phi])
    for i in range(len(u0)):
        ctx.close(full(u0[i], X.get_shape(i)), full(u[i], X.get_shape(i)), 'stored moments are those of the stored parameters', msg=label, rtol=1e-6, atol=1e-7)
    ctx.close(full(g0, X.plates), full(g, X.plates), 'stored normaliser is that of the stored parameters', msg=label, rtol=1e-6, atol=1e-7)


def snapshot(*nodes):
    return [[np.array(v) for v in list(n.phi) + list(n.u) + [n.g]] for n in nodes]


def same_snapshot(ctx, a, b, label):
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            ctx.ok(p.shape == q.shape and np.array_equal(p, q, equal_nan=True), 'other nodes are unchanged', label)


def prep(X, r, hist):
    """bring X to a state according to the history; returns neighbours"""
    if hist == 'fresh':
        return []
    if hist == 'shared':
        return []
    sh = X.get_shape(0)
    if len(X.dims[0]) >= 1 and isinstance(X, bn.GaussianARD):
        Y = bn.GaussianARD(X, 1.5)
        Y.observe(r.randn(*sh))
    else:
        Y = bn.Gaussian(X, zoo.spd(r, sh[-1]))
        Y.observe(r.randn(*sh))
    X.update()
    return [Y]


def dense_rot(m, C, R, ax, nd):
    """rotate mean and covariance arrays along variable axis ax (negative) of nd axes"""
    m2 = np.moveaxis(np.tensordot(np.moveaxis(m, ax, -1), R, axes=([-1], [1])), -1, ax)
    a1, a2 = ax - nd, ax
    C2 = np.moveaxis(np.tensordot(np.moveaxis(C, a1, -1), R, axes=([-1], [1])), -1, a1)
    C2 = np.moveaxis(np.tensordot(np.moveaxis(C2, a2, -1), R, axes=([-1], [1])), -1, a2)
    return m2, C2


def points_density(ctx, X, before, inverse, logdet, r, label, what='density'):
    """q'(y) = q(T^-1 y) / |det|"""
    for k in range(2):
        y = r.randn(*X.get_shape(0))
        ctx.close(full(X.logpdf(y), X.plates), full(before(inverse(y)), X.plates) - logdet, 'transformed density', msg=label, rtol=1e-6, atol=1e-6)


def f_ard(ctx, case):
    _, sh, pl, ax, hist = case
    sh, pl = tuple(sh), tuple(pl)
    nd = len(sh)
    nax = ax if ax < 0 else ax - nd
    D = sh[ax]
    for fi, (fn, R) in enumerate(family(D, engine.rng('c15f', D))):
        for extra in (0, 1):
            r = engine.rng('c15', sh, pl, ax, hist, fi)
            alpha = bn.Gamma(2., 3., plates=sh if hist != 'shared' else (1,) * nd)
            X = bn.GaussianARD(r.randn(*sh), alpha, shape=sh, plates=pl)
            ns = prep(X, r, hist)
            kw = dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1]) if extra else {}
            if ax != -1 or extra:
                kw['axis'] = ax
            label = 'rotate %s plates %s axis %d %s %s' % (sh, pl, ax, hist, fn)
            reps = 2 if hist == 'twice' else 1
            for rep in range(reps):
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(2)]
                ph, g = [np.array(p) for p in X.phi], np.array(X.g)
                snap = snapshot(alpha)
                old = copy.copy(X)
                old.phi, old.g = ph, g
                keep = [np.array(R)] + [np.array(v) for v in kw.values()]
                X.rotate(R, **kw)
                ctx.op()
                ctx.state('ard', sh, pl, ax, hist, fn, [full(x, X.get_shape(i)) for i, x in enumerate(X.u)])
                m, C = dense_rot(u[0], u[1], R, nax, nd)
                ctx.close(full(X.u[0], X.get_shape(0)), m, 'rotated mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), C, 'rotated second moment', msg=label, rtol=1e-6)
                for a, b in zip(keep, [R] + list(kw.values())):
                    ctx.ok(np.array_equal(a, b), 'arguments unchanged', label)
                consistent(ctx, X, label)
                invR = np.linalg.inv(R)
                oth = int(np.prod(sh)) // D
                points_density(ctx, X, old.logpdf, lambda y: np.moveaxis(np.tensordot(np.moveaxis(y, nax, -1), invR, axes=([-1], [1])), -1, nax),
                               np.linalg.slogdet(R)[1] * oth, r, label)
                same_snapshot(ctx, snap, snapshot(alpha), label)
            # continues as a node that was given this distribution directly
            if ns:
                Z = ns[0]
                a1 = [np.array(x) for x in X._message_from_children()]
                alpha.update()
                X.update()
                alpha2 = bn.Gamma(2., 3., plates=alpha.plates)
                r2 = engine.rng('c15', sh, pl, ax, hist, fi)
                ctx.ok(np.all(np.isfinite(np.asarray(X.g))), 'continues with updates', label)
            for n in ns:
                n.delete()


def f_ardplates(ctx, case):
    _, sh, pl, pax = case
    sh, pl = tuple(sh), tuple(pl)
    nd, npl = len(sh), len(pl)
    nax = pax if pax < 0 else pax - npl
    D = pl[pax]
    for fn, Q in family(D, engine.rng('c15q', D)):
        for hist in ('fresh', 'upd', 'twice'):
            r = engine.rng('c15p', sh, pl, pax, hist)
            X = bn.GaussianARD(r.randn(*sh), 2., shape=sh, plates=pl)
            # plates of the distribution must be explicit
            ns = prep(X, r, 'upd') if hist != 'fresh' else []
            label = 'rotate_plates %s plates %s axis %d %s %s' % (sh, pl, pax, hist, fn)
            for rep in range(2 if hist == 'twice' else 1):
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(2)]
                cov = u[1] - np.reshape(u[0], pl + sh + (1,) * nd) * np.reshape(u[0], pl + (1,) * nd + sh)
                if hist == 'fresh' and not (X.u[0].shape == u[0].shape):
                    X.phi = [np.array(full(p, X.get_shape(i))) for i, p in enumerate(X.phi)]
                    X._update_moments_and_cgf()
                X.rotate_plates(Q, plate_axis=pax)
                ctx.op()
                ax = nax - nd
                m = np.moveaxis(np.tensordot(np.moveaxis(u[0], ax, -1), Q, axes=([-1], [1])), -1, ax)
                s = Q.sum(0)
                c = np.moveaxis(np.moveaxis(cov, nax - 2 * nd, -1) * s ** 2, -1, nax - 2 * nd)
                ctx.close(full(X.u[0], X.get_shape(0)), m, 'mean rotated over plates', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), c + np.reshape(m, pl + sh + (1,) * nd) * np.reshape(m, pl + (1,) * nd + sh),
                          'covariance scaled over plates', msg=label, rtol=1e-6)
                consistent(ctx, X, label)
            for n in ns:
                n.delete()


def f_gauss(ctx, case):
    _, D, pl, hist = case
    pl = tuple(pl)
    for fn, R in family(D, engine.rng('c15f', D)):
        for extra in (0, 1):
            r = engine.rng('c15g', D, pl, hist)
            X = bn.Gaussian(r.randn(D), zoo.spd(r, D), plates=pl)
            ns = prep(X, r, hist)
            kw = dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1]) if extra else {}
            label = 'Gaussian.rotate %d plates %s %s %s' % (D, pl, hist, fn)
            for rep in range(2 if hist == 'twice' else 1):
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(2)]
                old = copy.copy(X)
                old.phi, old.g = [np.array(p) for p in X.phi], np.array(X.g)
                X.rotate(R, **kw)
                ctx.op()
                m, C = dense_rot(u[0], u[1], R, -1, 1)
                ctx.close(full(X.u[0], X.get_shape(0)), m, 'rotated mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), C, 'rotated second moment', msg=label, rtol=1e-6)
                consistent(ctx, X, label)
                inv = np.linalg.inv(R)
                points_density(ctx, X, old.logpdf, lambda y: y @ inv.T, np.linalg.slogdet(R)[1], r, label)
            for n in ns:
                n.delete()


def f_gaussQ(ctx, case):
    _, D, N = case
    for fn, R in family(D, engine.rng('c15f', D)):
        for qn, Q in family(N, engine.rng('c15f', N)):
            r = engine.rng('c15gq', D, N)
            X = bn.Gaussian(r.randn(D), zoo.spd(r, D), plates=(N,))
            ns = prep(X, r, 'upd')
            u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(2)]
            cov = u[1] - u[0][:, :, None] * u[0][:, None]
            X.phi = [np.array(full(p, X.get_shape(i))) for i, p in enumerate(X.phi)]
            X.u = [np.array(x) for x in u]
            X.rotate(R, Q=Q)
            ctx.op()
            label = 'Gaussian.rotate %d with plates %d %s %s' % (D, N, fn, qn)
            m = Q @ u[0] @ R.T
            C = R @ (cov * Q.sum(0)[:, None, None] ** 2) @ R.T
            ctx.close(full(X.u[0], X.get_shape(0)), m, 'mean', msg=label)
            ctx.close(full(X.u[1], X.get_shape(1)), C + m[:, :, None] * m[:, None], 'second moment', msg=label, rtol=1e-6)
            consistent(ctx, X, label)
            for n in ns:
                n.delete()


def f_matrix(ctx, case):
    _, D1, D2, pl = case
    pl = tuple(pl)
    D = D1 * D2
    for f1, R1 in family(D1, engine.rng('c15f', D1)):
        for f2, R2 in family(D2, engine.rng('c15f', D2)):
            for extra in (0, 1):
                r = engine.rng('c15m', D1, D2, pl)
                X = bn.Gaussian(r.randn(D), zoo.spd(r, D), plates=pl)
                ns = prep(X, r, 'upd')
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(2)]
                kw = dict(inv1=np.linalg.inv(R1), inv2=np.linalg.inv(R2), logdet1=np.linalg.slogdet(R1)[1], logdet2=np.linalg.slogdet(R2)[1]) if extra else {}
                X.rotate_matrix(R1, R2, **kw)
                ctx.op()
                K = np.kron(R1, R2)
                label = 'rotate_matrix %dx%d plates %s %s %s' % (D1, D2, pl, f1, f2)
                m, C = dense_rot(u[0], u[1], K, -1, 1)
                ctx.close(full(X.u[0], X.get_shape(0)), m, 'mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), C, 'second moment', msg=label, rtol=1e-6, atol=1e-7)
                consistent(ctx, X, label)
                for n in ns:
                    n.delete()


def f_translate(ctx, case):
    _, kind, sh, pl, hist = case
    sh, pl = tuple(sh), tuple(pl)
    nd = len(sh)
    for bi in range(3):
        r = engine.rng('c15t', kind, sh, pl, hist, bi)
        ns = []
        if kind == 'gg':
            D = sh[0]
            X = bn.GaussianGamma(r.randn(D), zoo.spd(r, D), 2., 3., plates=pl)
            if hist != 'fresh':
                Y = bn.GaussianARD(X, 1., ndim=1) if False else bn.Gaussian(X, zoo.spd(r, D))
                Y.observe(r.randn(*X.get_shape(0)))
                ns = [Y]
                X.update()
        else:
            X = bn.GaussianARD(r.randn(*sh), 2., shape=sh, plates=pl) if kind == 'ard' else bn.Gaussian(r.randn(*sh), zoo.spd(r, sh[0]), plates=pl)
            ns = prep(X, r, hist)
        b = [r.randn(*sh), np.zeros(sh), r.randn(*(pl + sh))][bi]
        label = 'translate %s %s plates %s %s %d' % (kind, sh, pl, hist, bi)
        for rep in range(2 if hist == 'twice' else 1):
            u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(len(X.u))]
            old = copy.copy(X)
            old.phi, old.g = [np.array(p) for p in X.phi], np.array(X.g)
            X.translate(b)
            ctx.op()
            if kind == 'gg':
                t = u[2]
                x = u[0]
                m = x + t[..., None] * b
                S = u[1] + x[..., :, None] * b[..., None, :] + b[..., :, None] * x[..., None, :] + t[..., None, None] * b[..., :, None] * b[..., None, :]
                ctx.close(full(X.u[0], X.get_shape(0)), m, 'mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), full(S, X.get_shape(1)), 'second moment', msg=label)
                ctx.close(full(X.u[2], X.get_shape(2)), t, 'precision', msg=label)
                ctx.close(full(X.u[3], X.get_shape(3)), u[3], 'log precision', msg=label)
            else:
                o = lambda a, c: np.reshape(a, a.shape + (1,) * nd) * np.reshape(c, c.shape[:c.ndim - nd] + (1,) * nd + c.shape[c.ndim - nd:])
                ctx.close(full(X.u[0], X.get_shape(0)), full(u[0] + b, X.get_shape(0)), 'mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), full(u[1] + o(u[0], b) + o(b, u[0]) + o(b, b), X.get_shape(1)), 'second moment', msg=label)
                points_density(ctx, X, old.logpdf, lambda y: y - b, 0., r, label)
            consistent(ctx, X, label)
        for n in ns:
            n.delete()


def f_ggrot(ctx, case):
    _, D, pl, hist = case
    pl = tuple(pl)
    for fn, R in family(D, engine.rng('c15f', D)):
        for extra in (0, 1):
            r = engine.rng('c15gg', D, pl, hist)
            X = bn.GaussianGamma(r.randn(D), zoo.spd(r, D), 2., 3., plates=pl)
            ns = []
            if hist != 'fresh':
                Y = bn.Gaussian(X, zoo.spd(r, D))
                Y.observe(r.randn(*X.get_shape(0)))
                ns = [Y]
                X.update()
            label = 'GaussianGamma.rotate %d %s %s %s' % (D, pl, hist, fn)
            for rep in range(2 if hist == 'twice' else 1):
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(4)]
                X.rotate(R, **(dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1]) if extra else {}))
                ctx.op()
                m, C = dense_rot(u[0], u[1], R, -1, 1)
                for i, e in enumerate((m, C, u[2], u[3])):
                    ctx.close(full(X.u[i], X.get_shape(i)), e, 'moment %d' % i, msg=label, rtol=1e-6)
                consistent(ctx, X, label)
            for n in ns:
                n.delete()


def f_gmcrot(ctx, case):
    _, D, N, pl, hist = case
    pl = tuple(pl)
    for fn, R in family(D, engine.rng('c15f', D)):
        for extra in (0, 1):
            r = engine.rng('c15gmc', D, N, pl, hist)
            X = bn.GaussianMarkovChain(r.randn(D), zoo.spd(r, D), .5 * r.randn(D, D), 1 + r.rand(D), n=N, plates=pl)
            ns = []
            if hist != 'fresh':
                Y = bn.Gaussian(X, zoo.spd(r, D))
                Y.observe(r.randn(*(pl + (N, D))))
                ns = [Y]
                X.update()
            label = 'GaussianMarkovChain.rotate %d %d %s %s %s' % (D, N, pl, hist, fn)
            for rep in range(2 if hist == 'twice' else 1):
                u = [np.array(full(X.u[i], X.get_shape(i))) for i in range(3)]
                X.rotate(R, **(dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1]) if extra else {}))
                ctx.op()
                ctx.close(full(X.u[0], X.get_shape(0)), u[0] @ R.T, 'mean', msg=label)
                ctx.close(full(X.u[1], X.get_shape(1)), R @ u[1] @ R.T, 'second moment', msg=label, rtol=1e-6)
                ctx.close(full(X.u[2], X.get_shape(2)), R @ u[2] @ R.T, 'lag-one moment', msg=label, rtol=1e-6)
                consistent(ctx, X, label)
            for n in ns:
                n.delete()


# ---------------------------------------------------------------- rotators


def total(nodes):
    return float(sum(np.sum(n.lower_bound_contribution()) for n in nodes))


def grad_check(ctx, f, R, g, label, what):
    g = np.asarray(g, float)
    ctx.ok(g.shape == R.shape, what + ' shape', '%s: %s' % (label, g.shape))
    if g.shape != R.shape:
        return
    num = np.zeros(R.shape)
    h = 1e-5
    for i in np.ndindex(*R.shape):
        E = np.zeros(R.shape)
        E[i] = h
        num[i] = (f(R + E) - f(R - E)) / (2 * h)
    ctx.close(g, num, what, msg=label, rtol=1e-4, atol=1e-4 * max(1., np.max(np.abs(num))))


def f_rotard(ctx, case):
    _, sh, pl, ax, al, muk, pax, pre = case
    sh, pl = tuple(sh), tuple(pl)
    if pax is not None and ax != -1 and len(sh) > 1 and pre:
        pass
    D = sh[ax]
    alp = {'none': None, 'noneplates': None, '': (), '1': (1,) * len(sh), 'sh': sh, 'shp': pl + sh, 'ones': (1,) * len(pl) + sh}[al]

    def make():
        r = engine.rng('c15r', sh, pl, al, muk)
        if alp is None:
            alpha = 2. if al == 'none' else .5 + r.rand(*(pl + sh))
        else:
            alpha = bn.Gamma(2. + r.rand(*alp), 1.5 + r.rand(*alp), plates=alp)
        ml = None
        if muk == '0':
            mu = 0.
        elif muk == 'full':
            mu = r.randn(*sh)
        elif muk == 'plates':
            mu = r.randn(*(pl + sh))
        else:
            mu = ml = bn.GaussianARD(r.randn(*sh), 3., shape=sh)
        X = bn.GaussianARD(mu, alpha, shape=sh, plates=pl)
        Y = bn.GaussianARD(X, .7)
        Y.observe(r.randn(*(pl + sh)))
        X.update()
        if ml is not None:
            ml.update()
        if alp is not None:
            alpha.update()
            rot = tr.RotateGaussianARD(X, alpha, axis=ax, precompute=pre)
        else:
            rot = tr.RotateGaussianARD(X, axis=ax + (len(sh) if len(pl) == 1 else 0), precompute=pre)
        return X, alpha, ml, Y, rot

    X, alpha, ml, Y, rot = make()
    nodes = [X] + ([alpha] if alp is not None else [])
    before = snapshot(*nodes)
    rot.setup(**({} if pax is None else dict(plate_axis=pax + (len(pl) if al == 'sh' else 0))))
    same_snapshot(ctx, before, snapshot(*nodes), 'setup')
    ctx.ok(set(rot.nodes()) == set(nodes), 'nodes of the rotator')
    Qs = [(None, None)] if pax is None else family(pl[pax], engine.rng('c15q', pl[pax]))
    Rs = family(D, engine.rng('c15f', D))
    if pax is not None:
        Rs, Qs = [Rs[0], Rs[-1]] + ([Rs[3]] if D > 1 else []), [q for q in Qs if q[0] not in ('shearT',)]
    I = np.eye(D)
    kQ = lambda Q: {} if pax is None else dict(Q=Q)
    base = rot.get_bound_terms(I, **kQ(None if pax is None else np.eye(pl[pax])))
    L0 = {n: np.sum(n.lower_bound_contribution()) for n in nodes}
    for fn, R in Rs:
        for qn, Q in Qs:
            if ctx.tier == 'quick' and pax is not None and fn != 'generic' and qn not in ('id', 'generic'):
                continue
            if Q is not None and np.min(np.abs(Q.sum(0))) < 1e-3:
                continue
            label = 'RotateGaussianARD %s plates %s axis %d alpha %s mu %s plate_axis %s precompute %s %s %s' % (sh, pl, ax, al, muk, pax, pre, fn, qn)
            t = rot.get_bound_terms(R, **kQ(Q))
            b = rot.bound(R, **kQ(Q))
            b2 = rot.bound(R, inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1], **kQ(Q))
            ctx.op(3)
            ctx.close(sum(t.values()), b[0], 'terms add up to the bound', msg=label)
            ctx.close(b2[0], b[0], 'given inverse and determinant', msg=label)
            X1, a1, m1, Y1, rot1 = make()
            rot1.setup(**({} if pax is None else dict(plate_axis=pax)))
            rot1.rotate(R, **kQ(Q))
            ctx.op()
            ctx.close(np.sum(X1.lower_bound_contribution()) - L0[X], t[X] - base[X], 'predicted change of the term of X', msg=label, rtol=1e-6, atol=1e-6)
            if alp is not None:
                ctx.close(np.sum(a1.lower_bound_contribution()) - L0[alpha], t[alpha] - base[alpha], 'predicted change of the term of alpha', msg=label, rtol=1e-6, atol=1e-6)
            consistent(ctx, X1, label)
            ctx.state('rotard', [np.array(x) for x in X1.u])
            if fn in ('id', 'generic', 'perm') or pax is not None:
                grad_check(ctx, lambda S: float(sum(rot.get_bound_terms(S, **kQ(Q)).values())), R, b[1], label, 'gradient for R')
                if pax is not None:
                    grad_check(ctx, lambda S: float(sum(rot.get_bound_terms(R, Q=S).values())), Q, b[2], label, 'gradient for Q')
            Y1.delete()
    Y.delete()


def f_rotgauss(ctx, case):
    _, D, pl, lam, mi = case
    pl = tuple(pl)
    # plates without any observation below them are not part of the bound
    mask = True if mi == 0 else np.arange(int(np.prod(pl))).reshape(pl) != (0 if mi == 1 and pl != (1,) else pl[-1] - 1) if pl != (1,) else np.array([False])

    def make():
        r = engine.rng('c15rg', D, pl, lam)
        La = bn.Wishart(D + 2., zoo.spd(r, D)) if lam == 'learn' else zoo.spd(r, D)
        X = bn.Gaussian(np.zeros(D), La, plates=pl)
        Y = bn.Gaussian(X, zoo.spd(r, D))
        Y.observe(r.randn(*(pl + (D,))), mask=mask)
        X.update()
        return X, Y, tr.RotateGaussian(X)
    X, Y, rot = make()
    rot.setup()
    L0 = np.sum(X.lower_bound_contribution())
    base = rot.bound(np.eye(D), inv=np.eye(D), logdet=0.)[0]
    for fn, R in family(D, engine.rng('c15f', D)):
        label = 'RotateGaussian %d plates %s %s mask %s %s' % (D, pl, lam, mi, fn)
        kw = dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1])
        b = rot.bound(R, **kw)
        t = rot.get_bound_terms(R, **kw)
        ctx.op(2)
        ctx.close(sum(t.values()), b[0], 'terms add up to the bound', msg=label)
        X1, Y1, rot1 = make()
        rot1.setup()
        rot1.rotate(R, **kw)
        ctx.close(np.sum(X1.lower_bound_contribution()) - L0, b[0] - base, 'predicted change', msg=label, rtol=1e-6, atol=1e-6)
        grad_check(ctx, lambda S: float(rot.bound(S, inv=np.linalg.inv(S), logdet=np.linalg.slogdet(S)[1])[0]), R, b[1], label, 'gradient')
        consistent(ctx, X1, label)


def make_gmc(D, N, pl, Ak, muk, salt=0):
    r = engine.rng('c15c', D, N, pl, Ak, muk, salt)
    K = 2
    nodes = []
    kw = {}
    alpha = None
    muk, _, fresh = muk.partition('+')
    mu = np.zeros(D) if muk == '0' else r.randn(D)
    if muk == 'latent':
        mu = bn.Gaussian(mu, zoo.spd(r, D))
    La = zoo.spd(r, D)
    E = 0
    inputs = None
    if Ak.startswith('input'):
        E = 1 if Ak == 'input1' else 2
        inputs = r.randn(N - 1, E)
    if Ak == 'const':
        A = bn.GaussianARD(.3, 5., shape=(D,), plates=(D,))
    elif Ak == 'time1':
        A = bn.GaussianARD(.3, 5., shape=(D,), plates=(1, D))
    elif Ak == 'time':
        A = bn.GaussianARD(.3, 5., shape=(D,), plates=(N - 1, D))
    elif Ak == 'plates':
        A = bn.GaussianARD(.3, 5., shape=(D,), plates=pl + (1, D))
    elif Ak == 'alpha':
        alpha = bn.Gamma(2., 3., plates=(D,))
        A = bn.GaussianARD(0, alpha, shape=(D,), plates=(D,))
    elif Ak in ('input1', 'input2'):
        A = bn.GaussianARD(.3, 5., shape=(D + E,), plates=(D,))
    elif Ak == 'inputalpha':
        alpha = bn.Gamma(2., 3., plates=(D + E,))
        A = bn.GaussianARD(0, alpha, shape=(D + E,), plates=(D,))
    elif Ak == 'varying':
        B = bn.GaussianARD(.3, 5., shape=(D, K), plates=(1, D))
        S = bn.GaussianARD(.5, 4., shape=(K,), plates=(N - 1, 1))
        A = bn.SumMultiply('dk,k->d', B, S)
    elif Ak == 'switching':
        B = bn.GaussianARD(.3, 5., shape=(D,), plates=(K, D))
        Z = bn.Categorical(np.ones(K) / K, plates=(N - 1,))
        Z.initialize_from_parameters(zoo.simplex(r, K, N - 1)) if N > 1 else None
        A = bn.Gate(Z[:, None], B, gated_plate=-2)
    if inputs is not None:
        kw['inputs'] = inputs
    X = bn.GaussianMarkovChain(mu, La, A, np.ones(D), n=N, plates=pl, **kw)
    Y = bn.Gaussian(X, np.eye(D) + np.ones((D, D)))
    mask = np.ones(pl + (N,), bool)
    if fresh == 'gap':
        # missing time instances
        mask[..., 0] = False
    Y.observe(r.randn(*(pl + (N, D))), mask=mask)
    fresh = fresh == 'fresh'
    X.update()
    if Ak == 'varying':
        if not fresh:
            B.update(); S.update()
        rA = tr.RotateGaussianARD(B, axis=-2)
        rot = tr.RotateVaryingMarkovChain(X, B, S, rA)
        ns = [X, B]
        others = [S]
    elif Ak == 'switching':
        if not fresh:
            B.update(); Z.update()
        rA = tr.RotateGaussianARD(B, axis=-1)
        rot = tr.RotateSwitchingMarkovChain(X, B, Z, rA)
        ns = [X, B]
        others = [Z]
    else:
        if not fresh:
            A.update()
        if alpha is not None:
            alpha.update()
        rA = tr.RotateGaussianARD(A, *([alpha] if alpha is not None else []), axis=-1)
        rot = tr.RotateGaussianMarkovChain(X, rA)
        ns = [X, A] + ([alpha] if alpha is not None else [])
        others = []
    if muk == 'latent':
        if not fresh:
            mu.update()
        others.append(mu)
    return X, Y, rot, ns, others


def f_rotgmc(ctx, case):
    _, D, N, pl, Ak, muk = case
    pl = tuple(pl)
    if Ak in ('varying', 'switching') and pl:
        return      # documented: no plates
    X, Y, rot, ns, others = make_gmc(D, N, pl, Ak, muk)
    rot.setup()
    ctx.ok(set(rot.nodes()) == set(ns), 'nodes of the rotator')
    base = rot.get_bound_terms(np.eye(D))
    L0 = [np.sum(n.lower_bound_contribution()) for n in ns]
    for fn, R in family(D, engine.rng('c15f', D)):
        if np.min(np.abs(R.sum(0))) < 1e-3:
            continue
        if ctx.tier == 'quick' and fn not in ('id', 'perm', 'generic', 'shear' if N == 3 else 'scale'):
            continue
        label = 'RotateMarkovChain D=%d N=%d plates %s A %s mu %s %s' % (D, N, pl, Ak, muk, fn)
        t = rot.get_bound_terms(R)
        b = rot.bound(R)
        b2 = rot.bound(R, inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1])
        ctx.op(3)
        ctx.close(sum(t.values()), b[0], 'terms add up to the bound', msg=label)
        ctx.close(b2[0], b[0], 'given inverse and determinant', msg=label)
        X1, Y1, rot1, ns1, others1 = make_gmc(D, N, pl, Ak, muk)
        rot1.setup()
        snap = snapshot(*others1)
        rot1.rotate(R)
        ctx.op()
        for n, n1, l0 in zip(ns, ns1, L0):
            ctx.close(np.sum(n1.lower_bound_contribution()) - l0, t[n] - base[n], 'predicted change of the term of %s' % type(n).__name__, msg=label, rtol=1e-6, atol=1e-6)
        same_snapshot(ctx, snap, snapshot(*others1), label)
        for n in ns1:
            consistent(ctx, n, label)
        ctx.state('rotgmc', [np.array(x) for x in X1.u])
        if fn in ('id', 'generic'):
            grad_check(ctx, lambda S: float(sum(rot.get_bound_terms(S).values())), R, b[1], label, 'gradient')


# ---------------------------------------------------------------- optimiser on whole models

MODELS = ['pca', 'fa', 'faplates', 'multi', 'lssm', 'lssmin', 'tvd', 'gauss', 'gg', 'lssmg']


def make_model(name, D, mask=None):
    r = engine.rng('c15o', name, D)
    M, N = 3, 4
    out = {}
    if name == 'gg':
        # two Gaussian blocks
        C = bn.Gaussian(np.zeros(D), zoo.spd(r, D), plates=(M, 1))
        X = bn.Gaussian(np.zeros(D), zoo.spd(r, D), plates=(1, N))
        F = bn.SumMultiply('i,i', C, X)
        tau = bn.Gamma(1e-1, 1e-1)
        Y = bn.GaussianARD(F, tau)
        nodes = dict(Y=Y, X=X, C=C, tau=tau)
        Y.observe(r.randn(M, N) * 2, **({} if mask is None else dict(mask=mask)))
        C.initialize_from_parameters(r.randn(M, 1, D), np.array([[zoo.spd(r, D)] for _ in range(M)]))
        X.update()
        return nodes, tr.RotationOptimizer(tr.RotateGaussian(C), tr.RotateGaussian(X), D)
    if name in ('pca', 'fa', 'faplates', 'multi', 'gauss'):
        alpha = bn.Gamma(1e-1, 1e-1, plates=(D,) if name != 'faplates' else (M, 1, D))
        C = bn.GaussianARD(0, alpha, shape=(D,), plates=(M, 1))
        if name == 'fa':
            beta = bn.Gamma(1e-1, 1e-1, plates=(D,))
            X = bn.GaussianARD(0, beta, shape=(D,), plates=(1, N))
        elif name == 'gauss':
            X = bn.Gaussian(np.zeros(D), zoo.spd(r, D), plates=(1, N))
        else:
            X = bn.GaussianARD(0, 1., shape=(D,), plates=(1, N))
        F = bn.SumMultiply('i,i', C, X)
        tau = bn.Gamma(1e-1, 1e-1)
        Y = bn.GaussianARD(F, tau)
        nodes = dict(Y=Y, X=X, C=C, alpha=alpha, tau=tau)
        if name == 'fa':
            nodes['beta'] = beta
        rC = tr.RotateGaussianARD(C, alpha)
        rX = tr.RotateGaussianARD(X, beta) if name == 'fa' else tr.RotateGaussian(X) if name == 'gauss' else tr.RotateGaussianARD(X)
        if name == 'multi':
            C2 = bn.GaussianARD(0, alpha, shape=(D,), plates=(2, 1)) if False else bn.GaussianARD(0, 2., shape=(D,), plates=(2, 1))
            F2 = bn.SumMultiply('i,i', C2, X)
            Y2 = bn.GaussianARD(F2, 1.3)
            Y2.observe(r.randn(2, N))
            nodes['Y2'], nodes['C2'] = Y2, C2
            C2.initialize_from_parameters(r.randn(2, 1, D), 1 + r.rand(2, 1, D))
            rC = tr.RotateMultiple(rC, tr.RotateGaussianARD(C2))
        Y.observe(r.randn(M, N) * 2, **({} if mask is None else dict(mask=mask)))
    else:
        mu0 = np.zeros(D)
        alpha = bn.Gamma(1e-1, 1e-1, plates=(D + (1 if name == 'lssmin' else 0),))
        nodes = {}
        if name == 'tvd':
            B = bn.GaussianARD(.2, 2., shape=(D, 2), plates=(1, D))
            S = bn.GaussianARD(.5, 1., shape=(2,), plates=(N - 1, 1))
            A = bn.SumMultiply('dk,k->d', B, S)
            nodes['B'], nodes['S'] = B, S
        else:
            A = bn.GaussianARD(0, alpha, shape=(alpha.plates[0],), plates=(D,))
            nodes['A'], nodes['alpha'] = A, alpha
        kw = dict(inputs=r.randn(N - 1, 1)) if name == 'lssmin' else {}
        X = bn.GaussianMarkovChain(mu0, .5 * np.eye(D), A, np.ones(D), n=N, **kw)
        gamma = bn.Gamma(1e-1, 1e-1, plates=(D,))
        C = bn.Gaussian(np.zeros(D), zoo.spd(r, D), plates=(M, 1)) if name == 'lssmg' else bn.GaussianARD(0, gamma, shape=(D,), plates=(M, 1))
        F = bn.SumMultiply('i,i', C, X)
        tau = bn.Gamma(1e-1, 1e-1)
        Y = bn.GaussianARD(F, tau)
        Y.observe(r.randn(M, N) * 2, **({} if mask is None else dict(mask=mask)))
        nodes.update(Y=Y, X=X, C=C, tau=tau)
        if name != 'lssmg':
            nodes['gamma'] = gamma
        if name == 'tvd':
            rX = tr.RotateVaryingMarkovChain(X, B, S, tr.RotateGaussianARD(B, axis=-2))
            B.initialize_from_parameters(r.randn(1, D, D, 2) * .3, 2 + r.rand(1, D, D, 2))
            S.initialize_from_parameters(r.randn(N - 1, 1, 2), 2 + r.rand(N - 1, 1, 2))
        else:
            rX = tr.RotateGaussianMarkovChain(X, tr.RotateGaussianARD(A, alpha))
        rC = tr.RotateGaussian(C) if name == 'lssmg' else tr.RotateGaussianARD(C, gamma)
    if name == 'lssmg':
        C.initialize_from_parameters(r.randn(M, 1, D), np.array([[zoo.spd(r, D)] for _ in range(M)]))
    else:
        C.initialize_from_parameters(r.randn(M, 1, D), 1 + r.rand(M, 1, D))
    X.update()
    opt = tr.RotationOptimizer(rC, rX, D) if name in ('pca', 'fa', 'multi', 'gauss', 'faplates', 'gg') else tr.RotationOptimizer(rX, rC, D)
    return nodes, opt


def hyper(nodes):
    return [nodes[k] for k in ('alpha', 'beta', 'gamma') if k in nodes]


def f_opt(ctx, case, mask=None):
    _, name, D = case
    nodes, opt = make_model(name, D, mask)
    upd = [k for k in nodes if not k.startswith('Y')]
    depth = 2 if ctx.tier == 'quick' else 3
    # first: prescribed rotations of both blocks
    hists = [()] + [(a,) for a in upd] + [h for h in itertools.product(upd, repeat=2)]
    if depth >= 3 and D == 2:
        hists += list(itertools.product(upd, repeat=3))
    if ctx.tier == 'quick' and D != 2:
        hists = [()] + [(a,) for a in upd]
    ctx.traces = len(hists)
    for hist in hists:
        def reach():
            ns, o = make_model(name, D, mask)
            for k in hist:
                ns[k].update()
            return ns, o
        # the true optimum of the hyperparameters given the rest is what rotation starts from
        na, _ = reach()
        Lraw = total(na.values())
        for h in hyper(na):
            h.update()
        L0 = total(na.values())
        label = '%s D=%d history %s' % (name, D, hist)
        if len(hist) <= 1:
            for fn, R in family(D, engine.rng('c15f', D)):
                if name in ('lssm', 'lssmin', 'lssmg', 'tvd') and np.min(np.abs(R.sum(0))) < 1e-3:
                    continue
                nb, o = reach()
                o.block1.setup()
                o.block2.setup()
                inv, ld, I = np.linalg.inv(R), np.linalg.slogdet(R)[1], np.eye(D)

                def pred(R):
                    inv, ld = np.linalg.inv(R), np.linalg.slogdet(R)[1]
                    return o.block1.bound(R, inv=inv, logdet=ld)[0] + o.block2.bound(inv.T, inv=R.T, logdet=-ld)[0]
                # predicted with up-to-date hyperparameters
                for h in hyper(nb):
                    h.update()
                o.block1.setup()
                o.block2.setup()
                p = pred(R) - pred(I)
                o.block1.rotate(R, inv=inv, logdet=ld)
                o.block2.rotate(inv.T, inv=R.T, logdet=-ld)
                ctx.op(2)
                ctx.close(total(nb.values()) - L0, p, 'predicted change of the bound of the model', msg='%s %s' % (label, fn), rtol=1e-6, atol=1e-6)
                ctx.state('opt', name, D, hist, fn, [np.array(x) for x in nb['X'].u])
        # (the shape parameters of the hyperparameters must have been computed once before)
        nb, o = reach()
        for h in hyper(nb):
            h.update()
        o.rotate(maxiter=10)
        ctx.op()
        L1 = total(nb.values())
        ctx.ok(L1 >= L0 - 1e-6 * (1 + abs(L0)), 'optimised rotation does not lower the bound', '%s: %r -> %r (before updating hyperparameters %r)' % (label, L0, L1, Lraw))
        # the self-checks of the optimiser find the prediction consistent and change nothing
        if len(hist) <= 1:
            nd, o = reach()
            for h in hyper(nd):
                h.update()
            np.random.seed(1)
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter('always')
                o.rotate(maxiter=10, check_bound=True, check_gradient=True)
            ctx.op()
            bad = [str(w.message)[:120] for w in W if 'not consistent' in str(w.message) or 'worse' in str(w.message)]
            ctx.ok(not bad, 'optimised rotation: self-checks', '%s: %s' % (label, bad))
            ctx.close(total(nd.values()), L1, 'optimised rotation with self-checks', 1e-9, 1e-9, label)
        # the rotated nodes hold a state that could have been set directly
        for k in upd:
            consistent(ctx, nb[k], '%s %s' % (label, k))
        nc, _ = make_model(name, D, mask)
        for k in upd:
            nc[k].phi = [np.array(p) for p in nb[k].phi]
            nc[k]._update_moments_and_cgf()
        ctx.close(total(nc.values()), L1, 'bound of the same state set directly', msg=label, rtol=1e-7, atol=1e-6)
        ctx.state('opt', name, D, hist, [np.array(x) for x in nb['X'].u])
        prev = L1
        for k in upd:
            nb[k].update()
            nc[k].update()
            ctx.op(2)
            L = total(nb.values())
            ctx.ok(L >= prev - 1e-6 * (1 + abs(prev)), 'updates after a rotation do not lower the bound', '%s %s: %r -> %r' % (label, k, prev, L))
            prev = L
            for i in range(len(nb[k].u)):
                ctx.close(full(nb[k].u[i], nb[k].get_shape(i)), full(nc[k].u[i], nb[k].get_shape(i)), 'updates after a rotation', msg='%s %s' % (label, k), rtol=1e-6, atol=1e-6)


def f_masked(ctx, case):
    """data with missing columns and (where the rotated node supports it) a variable none of whose data is observed"""
    mask = np.ones((3, 4), bool)
    mask[:, -1] = False
    if case[1] not in ('lssm', 'lssmin', 'tvd'):
        mask[0] = False
    f_opt(ctx, case, mask=mask)


def run(ctx, case):
    dict(ard=f_ard, ardplates=f_ardplates, gauss=f_gauss, gaussQ=f_gaussQ, matrix=f_matrix, translate=f_translate, ggrot=f_ggrot, gmcrot=f_gmcrot,
         rotard=f_rotard, rotgauss=f_rotgauss, rotgmc=f_rotgmc, opt=f_opt, masked=f_masked)[case[0]](ctx, case)
