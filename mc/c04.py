"""C04: every update is the exact optimum; gradients are those of the bound."""
import itertools
import numpy as np
from bayespy.inference import VB
from . import engine, zoo

ID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of update prefixes over models of every node class; at every reached state every factor is perturbed along a complete set of parameter directions'
RULE = ('every distribution on its own in every plate and broadcasting pattern, and all zoo models x initial states x masks x annealing levels x all update prefixes up to the depth: at every state and for every latent node, '
        'an update does not lower the bound and no perturbation of its parameters (every basis direction, both signs, several lengths, generic directions) raises it; '
        'the natural gradient equals (optimal - current) parameters and vanishes after the update; a full-length step equals the update; '
        'the Euclidean gradient equals the extrapolated difference quotient of the bound in every basis direction')
BOUND = dict(quick='16 distributions alone x plate patterns; 29 models x 2 initial states x masks (none, each single missing element pattern subset) x all update prefixes of depth <= 1 (plus two depth-2 chains)',
             thorough='all initial states, annealing 1, 0.7, 0.5, all prefixes of depth <= 2')
ASSUMPTIONS = ['bound differences below 1e-8 relative are ties', 'generic continuous data']
CASE_TIMEOUT = 600
# factors whose Euclidean gradient the library documents as not implemented
NO_GRADIENT = {'CategoricalMarkovChain', 'GaussianMarkovChain', 'VaryingGaussianMarkovChain', 'SwitchingGaussianMarkovChain',
               'Wishart', 'GaussianGamma', 'Poisson', 'Concentration', 'GaussianWishart'}


def prefixes(names, tier):
    out = [()]
    out += [(a,) for a in names]
    if tier == 'thorough':
        out += list(itertools.product(names, repeat=2))
    else:
        out += [tuple(names), tuple(names[::-1])]
    return list(dict.fromkeys(out))


def cases(tier):
    for kind in SOLO:
        for pl in SOLOPLATES:
            for ppl in dict.fromkeys([(), pl, tuple(1 for _ in pl), pl[-1:], tuple(p if i else 1 for i, p in enumerate(pl))]):
                for ann in (1.0, .5):
                    yield ['solo', kind, list(pl), list(ppl), ann]
    for name in zoo.ZOO:
        m = zoo.build(name)
        inits = ['params', 'value'] if tier == 'quick' else ['params', 'value', 'prior']
        k = 0
        for init in inits:
            for ann in ([1.0, 0.5] if tier == 'quick' else [1.0, .7, .5]):
                for mk in ('none', 'one', 'row'):
                    for pi in range(len(prefixes(m.latent, tier))):
                        k += 1
                        if tier == 'quick' and mk != 'none' and pi > 0:
                            continue
                        if tier == 'quick' and (ann != 1.0 or init != 'params') and pi not in (0, len(m.latent) + 1):
                            continue
                        if tier == 'quick' and mk != 'none' and (ann != 1.0 or init != 'params'):
                            continue
                        yield [name, init, ann, mk, pi]


def mask_of(name, mk):
    if mk == 'none':
        return {}
    out = {}
    for o, pl in zoo.OBSPLATES[name].items():
        m = np.ones(pl, bool)
        if mk == 'one':
            m[(0,) * len(pl)] = False
        else:
            m[..., -1] = False
        out[o] = m
    return out


def full(node):
    return [np.array(np.broadcast_to(p, node.get_shape(i))) for i, p in enumerate(node.get_parameters())]


def sympairs(node, i):
    """index tuples (within the variable dims of parameter i) that form one symmetric direction"""
    cls = type(node).__name__
    d = node.dims[i]
    if cls in ('GaussianARD', 'Gaussian', 'GaussianGamma') and i == 1 or cls == 'Wishart' and i == 0:
        h = len(d) // 2
        out = []
        for a in np.ndindex(*d[:h]):
            for b in np.ndindex(*d[:h]):
                if a <= b:
                    out.append(list(dict.fromkeys([a + b, b + a])))
        return out
    if cls.endswith('GaussianMarkovChain') and i == 1:
        out = []
        for n in range(d[0]):
            for a in range(d[1]):
                for b in range(a, d[2]):
                    out.append(list(dict.fromkeys([(n, a, b), (n, b, a)])))
        return out
    return [[a] for a in np.ndindex(*d)]


def bound(m):
    return float(sum(np.sum(v.lower_bound_contribution()) for v in m.n.values() if hasattr(v, 'lower_bound_contribution')))


def elements(node):
    """plate elements that are latent and connected to data"""
    act = np.broadcast_to(np.logical_and(node.mask, np.logical_not(node.observed)), node.plates)
    return [tuple(e) for e in np.argwhere(act)] if node.plates else ([()] if act else [])


def try_bound(m, node, phi):
    try:
        with np.errstate(all='ignore'):
            node.set_parameters(phi)
            if not all(np.all(np.isfinite(u)) for u in node.get_moments()):
                return None
            L = bound(m)
    except Exception:
        return None
    return L if np.isfinite(L) else None


def valid(node, phi, i, e):
    """is the perturbed element inside the parameter domain (the library does not always reject)"""
    cls = type(node).__name__
    p = [x[e] for x in phi]
    try:
        if cls in ('GaussianARD', 'Gaussian', 'GaussianGamma'):
            D = int(np.prod(node.dims[0])) if node.dims[0] else 1
            ok = np.all(np.linalg.eigvalsh(-np.reshape(p[1], (D, D))) > 1e-12)
            if cls == 'GaussianGamma' and ok:
                mu = np.linalg.solve(-2 * p[1], p[0])
                ok = p[3] > 1e-12 and -p[2] - .5 * mu @ p[0] > 1e-12
            return ok
        if cls in ('Gamma', 'Exponential'):
            return p[0] < -1e-12 and p[1] > 1e-12
        if cls == 'Wishart':
            D = p[0].shape[0]
            return np.all(np.linalg.eigvalsh(-p[0]) > 1e-12) and p[1] > (D - 1) / 2 + 1e-9
        if cls in ('Dirichlet', 'Beta'):
            return np.all(p[0] > 1e-12)
        if cls.endswith('GaussianMarkovChain'):
            N, D = p[0].shape
            J = np.zeros((N * D, N * D))
            for n in range(N):
                J[n * D:n * D + D, n * D:n * D + D] = -2 * p[1][n]
            for n in range(N - 1):
                J[n * D:n * D + D, n * D + D:n * D + 2 * D] = -p[2][n]
                J[n * D + D:n * D + 2 * D, n * D:n * D + D] = -p[2][n].T
            return np.all(np.linalg.eigvalsh(J) > 1e-10)
    except np.linalg.LinAlgError:
        return False
    return True


def gradient_check(ctx, m, node, els, p0, L0, g, label):
    """the Euclidean gradient against extrapolated difference quotients of the bound"""
    for i in range(len(p0)):
        gi = np.broadcast_to(g[i], node.get_shape(i))
        for e in els:
            sc = 1.0 + np.max(np.abs(p0[i][e]))
            for idx in sympairs(node, i):
                def Lt(t):
                    ph = [np.copy(x) for x in p0]
                    for a in idx:
                        ph[i][e + a] += t
                    return try_bound(m, node, ph) if valid(node, ph, i, e) else None
                h = 2e-3 * (abs(p0[i][e + idx[0]]) + 1e-2 * sc)
                v = [Lt(c * h) for c in (-2, -1, 1, 2)]
                h2 = h
                tries = 0
                while any(x is None for x in v) and tries < 6:
                    h2 /= 4
                    tries += 1
                    v = [Lt(c * h2) for c in (-2, -1, 1, 2)]
                if any(x is None for x in v):
                    continue
                der = (8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * h2)
                # second estimate at half the step: the difference bounds the numerical error
                w = [Lt(c * h2 / 2) for c in (-2, -1, 1, 2)]
                der2 = (8 * (w[2] - w[1]) - (w[3] - w[0])) / (6 * h2)
                ana = sum(gi[e + a] for a in idx)
                errest = 4 * abs(der - der2) + 1e-11 * (1 + abs(L0)) / h2
                tol = 1e-6 * (1 + abs(ana)) + errest
                if errest < 1e-2 * (1e-3 + abs(ana)) or errest < 1e-6:
                    ctx.ok(abs(der2 - ana) <= tol, 'Euclidean gradient is the derivative of the bound',
                           '%s phi[%d]%s: reported %r, derivative %r' % (label, i, list(e) + list(idx[0]), float(ana), float(der2)))
            node.set_parameters(p0)


# --- every distribution on its own, in every plate pattern ---

class Solo:
    """the node's own terms of the bound, all elements counted"""

    def __init__(self, node, extra=()):
        self.n = dict(x=type('Own', (), dict(lower_bound_contribution=lambda s: node.lower_bound_contribution(ignore_masked=False)))())


SOLO = ('Multinomial', 'Categorical', 'Dirichlet', 'Beta', 'Gamma', 'Bernoulli', 'Binomial', 'Gaussian', 'GaussianARD0',
        'GaussianARD1', 'Poisson', 'Wishart', 'GaussianGamma', 'MixGaussianARD', 'MixMultinomial', 'MixGamma')
SOLOPLATES = ((), (2,), (1,), (2, 3), (1, 3))


def solo(kind, pl, ppl, r):
    """a node with the plates pl whose own parameters have the plates ppl (broadcast)"""
    from bayespy import nodes as bn
    pos = lambda *sh: r.gamma(3., 1., size=ppl + sh) + .3
    prob = lambda K: (lambda w: w / w.sum(-1, keepdims=True))(pos(K))
    cnt = lambda: r.randint(0, 6, size=ppl) if ppl else int(r.randint(2, 6))
    K = lambda: dict(plates=pl)
    if kind == 'Multinomial':
        return bn.Multinomial(cnt(), prob(3), **K())
    if kind == 'Binomial':
        return bn.Binomial(cnt(), .1 + .8 * r.uniform(size=ppl), **K())
    if kind == 'Bernoulli':
        return bn.Bernoulli(.1 + .8 * r.uniform(size=ppl), **K())
    if kind == 'Categorical':
        return bn.Categorical(prob(3), **K())
    if kind == 'Dirichlet':
        return bn.Dirichlet(pos(3), **K())
    if kind == 'Beta':
        return bn.Beta(pos(2), **K())
    if kind == 'Gamma':
        return bn.Gamma(pos(), pos(), **K())
    if kind == 'Poisson':
        return bn.Poisson(pos(), **K())
    if kind == 'Gaussian':
        return bn.Gaussian(r.randn(*ppl, 2), zoo.spd(r, 2, *ppl), **K())
    if kind == 'GaussianARD0':
        return bn.GaussianARD(r.randn(*ppl), pos(), **K())
    if kind == 'GaussianARD1':
        return bn.GaussianARD(r.randn(*ppl, 2), pos(2), shape=(2,), **K())
    if kind == 'Wishart':
        return bn.Wishart(4, zoo.spd(r, 2, *ppl), **K())
    if kind == 'GaussianGamma':
        return bn.GaussianGamma(r.randn(*ppl, 2), zoo.spd(r, 2, *ppl), pos(), pos(), **K())
    z = bn.Categorical(prob(2), plates=pl)
    if kind == 'MixGaussianARD':
        return bn.Mixture(z, bn.GaussianARD, r.randn(2), r.gamma(3., 1., size=2) + .3, plates=pl)
    if kind == 'MixGamma':
        return bn.Mixture(z, bn.Gamma, r.gamma(3., 1., size=2) + .3, r.gamma(3., 1., size=2) + .3, plates=pl)
    if kind == 'MixMultinomial':
        w = r.gamma(3., 1., size=(2, 3)) + .3
        n = r.randint(0, 6, size=ppl + (1,)) if ppl else 4
        return bn.Mixture(z, bn.Multinomial, n, w / w.sum(-1, keepdims=True), plates=pl)


def f_solo(ctx, case):
    _, kind, pl, ppl, ann = case
    pl, ppl = tuple(pl), tuple(ppl)
    x = solo(kind, pl, ppl, engine.rng('c04solo', kind, pl, ppl, 1))
    y = solo(kind, pl, ppl, engine.rng('c04solo', kind, pl, ppl, 2))
    assert x.plates == pl
    x.annealing = ann
    label = 'single %s plates %s parameter plates %s annealing %s' % (kind, pl, ppl, ann)
    m = Solo(x)
    if kind in ('Multinomial', 'Binomial', 'MixMultinomial'):
        x.set_parameters([p + .1 * q for p, q in zip(full(x), full(y))])
    else:
        x.set_parameters(full(y))
    p0, L0 = full(x), bound(m)
    rg = x.get_riemannian_gradient()
    for i in range(len(rg)):
        ctx.ok(np.shape(rg[i]) == x.get_shape(i), 'shape of the natural gradient', label)
    ctx.op(2)
    try:
        g = x.get_gradient([np.copy(q) for q in rg])
    except NotImplementedError:
        ctx.ok(type(x).__name__ in NO_GRADIENT or kind in ('Binomial', 'Bernoulli'), 'gradient is implemented', label)
        g = None
    els = [tuple(e) for e in np.ndindex(*pl)]
    if g is not None:
        for i in range(len(p0)):
            ctx.ok(misc_subset(np.shape(g[i]), x.get_shape(i)), 'shape of the gradient', '%s: %s for %s' % (label, np.shape(g[i]), x.get_shape(i)))
        gradient_check(ctx, m, x, els, p0, L0, g, label)
    x.set_parameters(p0)
    x.update()
    p1 = full(x)
    for i in range(len(p1)):
        ctx.close(rg[i], p1[i] - p0[i], 'natural gradient is the step to the optimum', 1e-9, 1e-10 * (1 + np.max(np.abs(p0[i]))), label)
    L1 = bound(m)
    ctx.ok(L1 >= L0 - 1e-8 * (1 + abs(L0)), 'the update does not lower the bound', label)
    ctx.state(kind, pl, ppl)
    ctx.traces = 1


def misc_subset(a, b):
    try:
        return np.broadcast_shapes(a, b) == tuple(b)
    except ValueError:
        return False


def run(ctx, case):
    if case[0] == 'solo':
        return f_solo(ctx, case)
    name, init, ann, mk, pi = case
    m = zoo.build(name, masks=mask_of(name, mk), init=init)
    if mk != 'none' and name in ('factor_bias',) and mk == 'row':
        return
    expf = [k for k in m.latent if hasattr(m.n[k], 'get_riemannian_gradient') and hasattr(m.n[k], 'phi')]
    Q = m.vb()
    if ann != 1.0:
        try:
            Q.set_annealing(ann)
        except Exception:
            return
        if any(k not in expf for k in m.latent):
            return      # point estimates have no annealed update
    pre = prefixes(zoo.build(name).latent, ctx.tier)[pi]
    for k in pre:
        m.n[k].update()
        ctx.op()
    for k in expf:
        node = m.n[k]
        els = elements(node)
        if not els:
            continue
        label = '%s %s annealing %s mask %s after %s node %s (%s)' % (name, init, ann, mk, '/'.join(pre), k, type(node).__name__)
        p0 = full(node)
        L0 = bound(m)
        ctx.op()
        rg = node.get_riemannian_gradient()
        for i in range(len(rg)):
            ctx.ok(np.shape(rg[i]) == node.get_shape(i), 'shape of the natural gradient', label)
        # --- Euclidean gradient against the bound
        g = None
        try:
            g = node.get_gradient([np.copy(x) for x in rg])
        except NotImplementedError:
            ctx.ok(type(node).__name__ in NO_GRADIENT, 'gradient is implemented', label)
        except Exception as err:
            # matrix-variate Gaussians: announced as not implemented with a plain Exception
            if not (len(node.dims[0]) > 1 and 'not yet implemented' in str(err)):
                raise
        okm = np.isfinite(L0)
        if g is not None and okm:
            gradient_check(ctx, m, node, els, p0, L0, g, label)
        # --- full-length natural step equals the update
        node.set_parameters(p0)
        Q.gradient_step(node, scale=1.0)
        stepped = full(node)
        node.set_parameters(p0)
        node.update()
        ctx.op(2)
        p1 = full(node)
        for i in range(len(p1)):
            for e in els:
                sc = np.max(np.abs(p1[i][e])) + np.max(np.abs(p0[i][e])) + 1
                ctx.close(rg[i][e], p1[i][e] - p0[i][e], 'natural gradient is the step to the optimum', 1e-9, 1e-10 * sc, label)
                ctx.close(stepped[i][e], p1[i][e], 'full-length natural gradient step equals the update', 1e-9, 1e-10 * sc, label)
        L1 = bound(m)
        if okm:
            ctx.ok(L1 >= L0 - 1e-8 * (1 + abs(L0)), 'the update does not lower the bound', '%s: %r -> %r' % (label, L0, L1))
        rg1 = node.get_riemannian_gradient()
        for i in range(len(rg1)):
            for e in els:
                ctx.close(rg1[i][e], np.zeros_like(rg1[i][e]), 'natural gradient vanishes after the update', 0, 1e-9 * (1 + np.max(np.abs(p1[i][e]))), label)
        # --- no perturbation is better
        slack = 1e-8 * (1 + abs(L1))
        r = engine.rng('c04', name, k)
        for e in els:
            dirs = []
            for i in range(len(p1)):
                for idx in sympairs(node, i):
                    dirs.append({i: idx})
            trial = []
            for d in dirs:
                for t in (-1, -.1, -.01, .01, .1, 1):
                    ph = [np.copy(x) for x in p1]
                    for i, idx in d.items():
                        for a in idx:
                            ph[i][e + a] += t * (.3 * abs(p1[i][e + a]) + .2)
                    trial.append(ph)
            for t in (.5, 1.5, -1, .9, 1.1):
                ph = [np.copy(x) for x in p1]
                for i in range(len(p1)):
                    ph[i][e] = (1 - t) * p0[i][e] + t * p1[i][e]
                trial.append(ph)
            for q in range(4):
                ph = [np.copy(x) for x in p1]
                for i in range(len(p1)):
                    for idx in sympairs(node, i):
                        z = r.randn() * [.02, .2][q % 2]
                        for a in idx:
                            ph[i][e + a] += z * (abs(p1[i][e + a]) + .1)
                trial.append(ph)
            for ph in trial:
                if not valid(node, ph, None, e):
                    continue
                L = try_bound(m, node, ph)
                ctx.op()
                if L is not None:
                    if not ctx.ok(L <= L1 + slack, 'no other parameters give a higher bound', '%s element %s: %r > %r' % (label, e, L, L1)):
                        break
        # back to the state before this node, for the next one
        node.set_parameters(p0)
        L2 = bound(m)
        if okm:
            ctx.close(L2, L0, 'bound after restoring the parameters', 1e-9, 1e-9, label)
    ctx.state(engine.digest([full(m.n[k]) for k in expf]))
    ctx.traces += 1
