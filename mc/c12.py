"""C12: mixtures and gates select."""
import itertools
import numpy as np
from scipy import special, stats
from bayespy import nodes as bn
from bayespy.inference.vmp.nodes.gaussian import GaussianMoments
from bayespy.inference.vmp.nodes.gamma import GammaMoments
from bayespy.inference.vmp.nodes.wishart import WishartMoments
from bayespy.inference.vmp.nodes.dirichlet import DirichletMoments
from . import engine, zoo

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of assignments, component axes, plate layouts and masks against directly connected components'
RULE = ('all assignments (known as constant, observed, or uncertain) x mixed distribution x position of the component axis x plates of the '
        'selector and of every parameter x masks, for Mixture, Gate, Choose and MultiMixture: bound terms, the distribution of the selector, '
        'the posteriors of all component parameters and of a latent mixed variable equal the expectation over the selector of the model in '
        'which every element is connected directly to every component')
BOUND = dict(quick='data plates 2x3, 2-3 components, component axis -1,-2,-3; all K^n assignments for selectors with <=3 elements and a covering set for 2x3; fixed values of five kinds gated over 2-3 axis positions, all their broadcast layouts',
             thorough='all K^n assignments of all selectors, all parameter layouts, all masks')
ASSUMPTIONS = ['generic component parameters']
CASE_TIMEOUT = 300
PL = (2, 3)
OUTER = [(), (3,), (2, 1), (2, 3)]


def R(*s):
    return s


# par: list of (prior(plates), init(r, shape of plates) -> args of initialize_from_parameters)
# build(ps): tuple (class, args)
DIST = {
    'ard': dict(par=[(lambda pl: bn.GaussianARD(.2, .3, plates=pl), lambda r, s: (r.randn(*s), r.rand(*s) + .5)),
                     (lambda pl: bn.Gamma(1.3, .8, plates=pl), lambda r, s: (r.rand(*s) + 1, r.rand(*s) + 1))],
                args=lambda ps: (bn.GaussianARD,) + tuple(ps), obs=lambda r, s: r.randn(*s)),
    'mvn': dict(par=[(lambda pl: bn.Gaussian([.2, -.3], [[.5, .1], [.1, .4]], plates=pl), lambda r, s: (r.randn(*s, 2), zoo.spd(r, 2, *s))),
                     (lambda pl: bn.Wishart(3., [[1., .2], [.2, .8]], plates=pl), lambda r, s: (r.rand(*s) + 3, zoo.spd(r, 2, *s)))],
                args=lambda ps: (bn.Gaussian,) + tuple(ps), obs=lambda r, s: r.randn(*s, 2)),
    'gamma': dict(par=[(lambda pl: bn.Gamma(1.3, .8, plates=pl), lambda r, s: (r.rand(*s) + 1, r.rand(*s) + 1))],
                  args=lambda ps: (bn.Gamma, 1.7) + tuple(ps), obs=lambda r, s: r.rand(*s) + .3),
    'bern': dict(par=[(lambda pl: bn.Beta([.7, 1.2], plates=pl), lambda r, s: (r.rand(*s, 2) + .5,))],
                 args=lambda ps: (bn.Bernoulli,) + tuple(ps), obs=lambda r, s: r.randint(0, 2, size=s)),
    'binom': dict(par=[(lambda pl: bn.Beta([.7, 1.2], plates=pl), lambda r, s: (r.rand(*s, 2) + .5,))],
                  args=lambda ps: (bn.Binomial, 4) + tuple(ps), obs=lambda r, s: r.randint(0, 5, size=s)),
    'cat': dict(par=[(lambda pl: bn.Dirichlet([.7, 1.2, .9], plates=pl), lambda r, s: (r.rand(*s, 3) + .5,))],
                args=lambda ps: (bn.Categorical,) + tuple(ps), obs=lambda r, s: r.randint(0, 3, size=s)),
    'mult': dict(par=[(lambda pl: bn.Dirichlet([.7, 1.2, .9], plates=pl), lambda r, s: (r.rand(*s, 3) + .5,))],
                 args=lambda ps: (bn.Multinomial, 4) + tuple(ps), obs=lambda r, s: r.multinomial(4, [.2, .3, .5], size=s)),
    'pois': dict(par=[(lambda pl: bn.Gamma(1.3, .8, plates=pl), lambda r, s: (r.rand(*s) + 1, r.rand(*s) + 1))],
                 args=lambda ps: (bn.Poisson,) + tuple(ps), obs=lambda r, s: r.randint(0, 5, size=s)),
    'wish': dict(par=[(lambda pl: bn.Wishart(3., [[1., .2], [.2, .8]], plates=pl), lambda r, s: (r.rand(*s) + 3, zoo.spd(r, 2, *s)))],
                 args=lambda ps: (bn.Wishart, 3.5) + tuple(ps), obs=lambda r, s: zoo.spd(r, 2, *s)),
    'ardv': dict(par=[(lambda pl: bn.GaussianARD(.2, .3, shape=(2,), plates=pl), lambda r, s: (r.randn(*s, 2), r.rand(*s, 2) + .5))],
                 args=lambda ps: (bn.Gaussian, ps[0], np.array([[1.2, .3], [.3, .9]])), obs=lambda r, s: r.randn(*s, 2)),
}
LATENT_ONLY = {
    'chain': dict(par=[(lambda pl: bn.Dirichlet([.7, 1.2], plates=pl), lambda r, s: (r.rand(*s, 2) + .5,)),
                       (lambda pl: bn.Dirichlet([.7, 1.2], plates=pl + (2, 2)), lambda r, s: (r.rand(*s, 2, 2, 2) + .5,))],
                  args=lambda ps: (bn.CategoricalMarkovChain,) + tuple(ps)),
}
# conjugate child of a latent mixed variable
CHILD = {
    'ard': (lambda y: bn.GaussianARD(y, .7), lambda r, s: r.randn(*s)),
    'mvn': (lambda y: bn.Gaussian(y, [[.8, .2], [.2, .6]]), lambda r, s: r.randn(*s, 2)),
    'gamma': (lambda y: bn.GaussianARD(.3, y), lambda r, s: r.randn(*s)),
    'cat': (lambda y: bn.Mixture(y, bn.GaussianARD, [-1., .2, 1.4], [1., .7, 1.2]), lambda r, s: r.randn(*s)),
    'wish': (lambda y: bn.Gaussian([.2, -.1], y), lambda r, s: r.randn(*s, 2)),
    'chain': (lambda y: bn.Mixture(y, bn.GaussianARD, [-1., .2], [1., .7]), lambda r, s: r.randn(*s, 3)),
    'ardv': (lambda y: bn.Gaussian(y, [[.8, .2], [.2, .6]]), lambda r, s: r.randn(*s, 2)),
}

ALL = dict(DIST, **LATENT_ONLY)


def layouts(npar, tier, k):
    """(plates of Z, outer plates of every parameter, has-axis flags)"""
    out = []
    if tier == 'thorough':
        for z in OUTER:
            for ps in itertools.product(OUTER, repeat=npar):
                out.append((z, list(ps)))
    else:
        for i, z in enumerate(OUTER):
            for q in range(2):
                out.append((z, [OUTER[(i + k + q + (1 + q) * j) % 4] for j in range(npar)]))
    return out


def insert_axis(outer, c, K):
    """plates of a parameter with its component axis at position c (None if there are not enough axes)"""
    outer = list(outer)
    need = -c - 1
    if len(outer) < need:
        outer = [1] * (need - len(outer)) + outer
    outer.insert(len(outer) + c + 1, K)
    return tuple(outer)


def assignments(shape, K, tier):
    n = int(np.prod(shape)) if shape else 1
    allz = list(itertools.product(range(K), repeat=n))
    if n > 3 and tier != 'thorough':
        base = [tuple((i * a + b) % K for i in range(n)) for a in range(K) for b in range(K)] + [tuple(int(i == j) for i in range(n)) for j in range(n)]
        allz = list(dict.fromkeys(base))
    return [np.array(z).reshape(shape) for z in allz]


def masks(tier):
    ms = [None, np.array([[1, 0, 1], [0, 1, 1]], bool), np.array([1, 0, 1], bool), np.array([[0], [1]], bool), np.zeros((2, 3), bool)]
    return ms


def cases(tier):
    for dist, D in DIST.items():
        npar = len(D['par'])
        for c in (-1, -2, -3):
            for li, (z, ps) in enumerate(layouts(npar, tier, -c)):
                for K in ((2,) if (tier == 'quick' and (li + c) % 3) else (2, 3)):
                    yield ['mix', dist, c, K, list(z), [list(p) for p in ps], 'none']
        # parameters without the component axis (shared by the components)
        if npar > 1:
            for c in (-1, -2):
                for z in OUTER:
                    for which in range(npar):
                        yield ['mix', dist, c, 2, list(z), [[], []], 'shared%d' % which]
    for dist in CHILD:
        for c in (-1, -2, -3):
            for z, ps in layouts(len(ALL[dist]['par']), tier, -c):
                yield ['latent', dist, c, list(z), [list(p) for p in ps]]
    for g in GATED:
        for c in (-1, -2, -3):
            for z in OUTER:
                for x in OUTER:
                    for K in (2, 3):
                        if tier == 'quick' and (K == 3) != ((len(z) + len(x) - c) % 2 == 0):
                            continue
                        yield ['gate', g, c, K, list(z), list(x)]
    for g in GATED:
        for z in OUTER:
            for x in OUTER:
                yield ['choose', g, list(z), list(x)]
    for g in FIXED:
        for c in (-1, -2, -3):
            for K in (2, 3):
                yield ['fixed', g, c, K]
    for z1 in OUTER:
        for z2 in OUTER:
            for p in OUTER:
                yield ['multi', list(z1), list(z2), list(p)]


# ------------------------------------------------------------------------------------------ reference
def clone(par, init, r_args, pos):
    """single-element node in the given state"""
    node = par(())
    node.initialize_from_parameters(*[a[pos] for a in r_args])
    return node


def at(lay, p):
    return tuple(0 if s == 1 else i for s, i in zip(lay, p[len(p) - len(lay):])) if lay else ()


class Direct:
    """all (element, component) pairs connected directly; gives expected log-likelihoods and parameter messages"""

    def __init__(self, par, args_state, build, outers, K, hasaxis, y, pl):
        self.par, self.state, self.build, self.outers, self.K, self.hasaxis, self.y, self.pl = par, args_state, build, outers, K, hasaxis, y, pl
        self.L, self.M = {}, {}
        self.prior = []
        for (make, init) in par:
            n = make(())
            n.update()
            self.prior.append(n.get_parameters())

    def params(self, e, k):
        ps = []
        for i, (make, init) in enumerate(self.par):
            pos = at(self.outers[i], e)
            ps.append(clone(make, init, self.state[i], (k if self.hasaxis[i] else 0,) + pos))
        return ps

    def eval(self, e, k):
        if (e, k) in self.L:
            return
        ps = self.params(e, k)
        Y = self.build(ps)
        Y.observe(self.y[e])
        self.L[e, k] = float(np.sum(Y.lower_bound_contribution()))
        msgs = []
        for i, p in enumerate(ps):
            save = p.get_parameters()
            p.update()
            msgs.append([a - b for a, b in zip(p.get_parameters(), self.prior[i])])
            p.set_parameters(save)
        self.M[e, k] = msgs


def softmax(x):
    x = np.asarray(x)
    x = np.exp(x - x.max())
    return x / x.sum()


def slices(arr, lay, c, pos, k, hasaxis, K):
    """element of an array whose leading axes are the parameter's plates (component axis at c)"""
    pos = list(pos)
    need = -c - 1
    if len(pos) < need:
        pos = [0] * (need - len(pos)) + pos
    pos.insert(len(pos) + c + 1, k if hasaxis else 0)
    return arr[tuple(pos)]


def f_mix(ctx, case):
    _, dist, c, K, zp, outers, shared = case
    D = DIST[dist]
    zp = tuple(zp)
    outers = [tuple(o) for o in outers]
    npar = len(D['par'])
    hasaxis = [shared != 'shared%d' % i for i in range(npar)]
    ctx.traces = 0
    # an initialisation whose arguments have leading axes (K,) + outer
    r = engine.rng('c12', dist, c, K, zp, outers, shared)
    state = [init(r, (K if h else 1,) + o) for (make, init), h, o in zip(D['par'], hasaxis, outers)]
    y = np.asarray(D['obs'](r, PL))
    kw = D.get('kw', {})

    def build(ps):
        cl, *a = D['args'](ps)
        return cl(*a, **kw)
    ref = Direct(D['par'], state, build, outers, K, hasaxis, y, PL)
    p0 = zoo.simplex(engine.rng('c12p', K), K)

    def plated_args(i):
        """state arrays arranged with the component axis at c"""
        out = []
        for a in state[i]:
            need = -c - 1
            nd = 1 + len(outers[i])
            if len(outers[i]) < need:
                a = a.reshape(a.shape[:1] + (1,) * (need - len(outers[i])) + a.shape[1:])
                nd = 1 + need
            out.append(np.moveaxis(a, 0, nd + c))
        return out
    assigns = assignments(zp, K, ctx.tier)
    if ctx.tier == 'quick':
        assigns = assigns if dist in ('ard', 'cat') else assigns[::2]
    modes = []
    for ai, a in enumerate(assigns):
        modes.append((['obs', 'const'][ai % 2], a))
    rq = engine.rng('c12q', dist, zp, K)
    for j in range(3):
        modes.append(('soft', zoo.simplex(rq, K, *zp)))
    for mi, (mode, a) in enumerate(modes):
        # masks: the soft modes meet all of them
        ms = masks(ctx.tier)
        mset = ms if (ctx.tier == 'thorough') else ([ms[0]] if mode != 'soft' and mi % 3 else [ms[(mi + q) % 5] for q in range(2)])
        for mask in mset:
            label = '%s axis %d %s %s mask %s Z %s params %s %s' % (dist, c, mode, np.round(a, 3).tolist(), None if mask is None else mask.astype(int).tolist(), zp, outers, shared)
            params = []
            for i, (make, init) in enumerate(D['par']):
                pl = insert_axis(outers[i], c, K if hasaxis[i] else 1)
                node = make(pl)
                node.initialize_from_parameters(*plated_args(i))
                params.append(node)
            if mode == 'const':
                Z = np.asarray(a)
                q = np.eye(K)[a]
            else:
                Z = bn.Categorical(p0, plates=zp)
                if mode == 'obs':
                    Z.observe(a)
                    q = np.eye(K)[a]
                else:
                    Z.initialize_from_parameters(a)
                    q = np.asarray(a)
            cl, *args = D['args'](params)
            kwm = dict(kw)
            Y = bn.Mixture(Z, cl, *args, cluster_plate=c, plates=PL, **kwm)
            if not ctx.ok(tuple(Y.plates) == PL, 'plates', '%s: %s' % (label, Y.plates)):
                return
            if mask is None:
                Y.observe(y)
            else:
                Y.observe(y, mask=mask)
            m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)
            els = [e for e in np.ndindex(*PL) if m[e]]
            for e in els:
                for k in range(K):
                    ref.eval(e, k)
            ctx.op()
            want = sum(q[at(zp, e)][k] * ref.L[e, k] for e in els for k in range(K) if q[at(zp, e)][k] != 0)
            if m.any():
                ctx.close(np.sum(Y.lower_bound_contribution()), want, 'bound term of the mixture', 1e-8, 1e-8, label)
            # component parameters
            for i, node in enumerate(params):
                save = node.get_parameters()
                node.update()
                ctx.op()
                phi = [np.broadcast_to(x, node.plates + d) for x, d in zip(node.get_parameters(), node.dims)]
                acc = {}
                for e in els:
                    for k in range(K):
                        key = (at(outers[i], e), k if hasaxis[i] else 0)
                        for t in range(len(phi)):
                            w = q[at(zp, e)][k]
                            if w:
                                acc[key + (t,)] = acc.get(key + (t,), 0) + w * ref.M[e, k][i][t]
                for pos in np.ndindex(*outers[i]):
                    for k in range(K if hasaxis[i] else 1):
                        for t in range(len(phi)):
                            got = slices(phi[t], outers[i], c, pos, k, hasaxis[i], K)
                            exp = ref.prior[i][t] + acc.get((pos, k, t), 0)
                            if not ctx.close(got, np.broadcast_to(exp, np.shape(got)), 'posterior of parameter %d' % i, 1e-8, 1e-8, '%s component %d at %s' % (label, k, pos)):
                                return
                node.set_parameters(save)
            # the selector
            if mode == 'soft':
                Z.update()
                ctx.op()
                u = np.broadcast_to(Z.get_moments()[0], zp + (K,))
                for s in np.ndindex(*zp):
                    lp = np.log(p0) + np.array([sum(ref.L[e, k] for e in els if at(zp, e) == s) for k in range(K)])
                    if not ctx.close(u[s], softmax(lp), 'distribution of the selector', 1e-8, 1e-9, label):
                        return
            ctx.traces += 1
    ctx.state(dist, state)


def f_latent(ctx, case):
    """the mixed variable itself is latent"""
    _, dist, c, zp, outers = case
    D = ALL[dist]
    zp, outers = tuple(zp), [tuple(o) for o in outers]
    K = 2
    npar = len(D['par'])
    ctx.traces = 0
    r = engine.rng('c12l', dist, c, zp, outers)
    state = [init(r, (K,) + o) for (make, init), o in zip(D['par'], outers)]
    mkchild, cobs = CHILD[dist]
    yc = np.asarray(cobs(r, PL))
    p0 = np.array([.3, .7])
    for mi, mask in enumerate(masks(ctx.tier)):
        q = zoo.simplex(r, K, *zp)
        label = '%s axis %d mask %s Z %s params %s' % (dist, c, None if mask is None else mask.astype(int).tolist(), zp, outers)
        params = []
        for i, (make, init) in enumerate(D['par']):
            node = make(insert_axis(outers[i], c, K))
            args = []
            for a in state[i]:
                need = -c - 1
                nd = 1 + len(outers[i])
                if len(outers[i]) < need:
                    a = a.reshape(a.shape[:1] + (1,) * (need - len(outers[i])) + a.shape[1:])
                    nd = 1 + need
                args.append(np.moveaxis(a, 0, nd + c))
            node.initialize_from_parameters(*args)
            params.append(node)
        Z = bn.Categorical(p0, plates=zp)
        Z.initialize_from_parameters(q)
        cl, *args = D['args'](params)
        Y = bn.Mixture(Z, cl, *args, cluster_plate=c, plates=PL)
        W = mkchild(Y)
        if mask is None:
            W.observe(yc)
        else:
            W.observe(yc, mask=mask[..., None] if dist == 'chain' else mask)
        m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)
        Y.update()
        ctx.op()
        phi = [np.broadcast_to(x, PL + d) for x, d in zip(Y.get_parameters(), Y.dims)]
        mom = [np.broadcast_to(x, PL + d) for x, d in zip(Y.get_moments(), Y.dims)]
        L = {}
        tot = 0.0
        for e in np.ndindex(*PL):
            nodes = []
            for k in range(K):
                ps = [clone(make, init, state[i], (k,) + at(outers[i], e)) for i, (make, init) in enumerate(D['par'])]
                a = D['args'](ps)
                nodes.append(a[0](*a[1:]))
                nodes[-1].update()
            w = q[at(zp, e)]
            pri = [sum(w[k] * nodes[k].get_parameters()[t] for k in range(K)) for t in range(len(phi))]
            base = nodes[0].get_parameters()
            if m[e]:
                ch = mkchild(nodes[0])
                ch.observe(yc[e])
                nodes[0].update()
                pri = [p + a - b for p, a, b in zip(pri, nodes[0].get_parameters(), base)]
                ch.delete()
            for t in range(len(phi)):
                if not ctx.close(phi[t][e], np.broadcast_to(pri[t], np.shape(phi[t][e])), 'factor of the latent mixed variable', 1e-8, 1e-8, '%s element %s' % (label, e)):
                    return
            for k in range(K):
                nodes[k].set_parameters(pri)
                L[e, k] = float(np.sum(nodes[k].lower_bound_contribution(ignore_masked=False)))
            for t in range(len(mom)):
                ctx.close(mom[t][e], np.broadcast_to(nodes[1].get_moments()[t], np.shape(mom[t][e])), 'moments of the latent mixed variable', 1e-8, 1e-9, label)
            if m[e]:
                tot += sum(w[k] * L[e, k] for k in range(K))
        if m.any():
            ctx.close(np.sum(Y.lower_bound_contribution()), tot, 'bound term of the latent mixed variable', 1e-7, 1e-7, label)
        Z.update()
        ctx.op()
        u = np.broadcast_to(Z.get_moments()[0], zp + (K,))
        for s in np.ndindex(*zp):
            els = [e for e in np.ndindex(*PL) if at(zp, e) == s and m[e]]
            lp = np.log(p0) + np.array([sum(L[e, k] for e in els) for k in range(K)])
            if not ctx.close(u[s], softmax(lp), 'distribution of the selector', 1e-7, 1e-8, label):
                return
        ctx.traces += 1
        ctx.state(dist, mom)


# gated kinds: prior, init, child(x) with observed values
GATED = {
    'ard': (lambda pl: bn.GaussianARD(.2, .3, plates=pl), lambda r, s: (r.randn(*s), r.rand(*s) + .5), lambda x: bn.GaussianARD(x, 1.3), lambda r, s: r.randn(*s)),
    'vec': (lambda pl: bn.Gaussian([.2, -.3], [[.5, .1], [.1, .4]], plates=pl), lambda r, s: (r.randn(*s, 2), zoo.spd(r, 2, *s)),
            lambda x: bn.Gaussian(x, [[.9, .2], [.2, .7]]), lambda r, s: r.randn(*s, 2)),
    'gamma': (lambda pl: bn.Gamma(1.3, .8, plates=pl), lambda r, s: (r.rand(*s) + 1, r.rand(*s) + 1), lambda x: bn.GaussianARD(.2, x), lambda r, s: r.randn(*s)),
    'dir': (lambda pl: bn.Dirichlet([.7, 1.2, .9], plates=pl), lambda r, s: (r.rand(*s, 3) + .5,), lambda x: bn.Categorical(x), lambda r, s: r.randint(0, 3, size=s)),
    'wish': (lambda pl: bn.Wishart(3., [[1., .2], [.2, .8]], plates=pl), lambda r, s: (r.rand(*s) + 3, zoo.spd(r, 2, *s)), lambda x: bn.Gaussian([.2, -.1], x), lambda r, s: r.randn(*s, 2)),
    'cat': (lambda pl: bn.Categorical([.2, .5, .3], plates=pl), lambda r, s: (zoo.simplex(r, 3, *s),),
            lambda x: bn.Mixture(x, bn.GaussianARD, [-1., .2, 1.4], [1., .7, 1.2]), lambda r, s: r.randn(*s)),
}


def gate_common(ctx, g, K, zp, xo, makeF, mkX, label0, split):
    """makeF(Z) -> (F, list of source nodes with state); split: sources are K separate nodes"""
    make, init, child, obs = GATED[g]
    r = engine.rng('c12g', g, K, zp, xo)
    state = [init(r, (K,) + xo)]
    y = np.asarray(obs(r, PL))
    ref = Direct([(make, init)], state, lambda ps: child(ps[0]), [xo], K, [True], y, PL)
    p0 = zoo.simplex(engine.rng('c12p', K), K)
    assigns = assignments(zp, K, ctx.tier)
    modes = [(['obs', 'const'][i % 2], a) for i, a in enumerate(assigns)]
    if ctx.tier == 'quick':
        modes = modes[::3] if len(modes) > 4 else modes
    for j in range(2):
        modes.append(('soft', zoo.simplex(r, K, *zp)))
    for mi, (mode, a) in enumerate(modes):
        ms = masks(ctx.tier)
        for mask in (ms if ctx.tier == 'thorough' else [ms[(mi + q) % 5] for q in range(2 if mode == 'soft' else 1)]):
            label = '%s %s %s %s Z %s X %s mask %s' % (label0, g, mode, np.round(a, 3).tolist(), zp, xo, None if mask is None else mask.astype(int).tolist())
            if mode == 'const':
                Z = np.asarray(a)
                q = np.eye(K)[a]
            else:
                Z = bn.Categorical(p0, plates=zp)
                if mode == 'obs':
                    Z.observe(a)
                    q = np.eye(K)[a]
                else:
                    Z.initialize_from_parameters(a)
                    q = a
            F, srcs = makeF(Z, make, state[0])
            # moments of the gated variable
            pl = np.broadcast_shapes(zp, xo)
            if not ctx.ok(tuple(F.plates) == pl, 'plates', '%s: %s' % (label, F.plates)):
                return
            u = [np.broadcast_to(x, F.plates + d) for x, d in zip(F.get_moments(), F.dims)]
            for e in np.ndindex(*pl):
                us = [clone(make, init, state[0], (k,) + at(xo, e)).get_moments() for k in range(K)]
                for t in range(len(u)):
                    if not ctx.close(u[t][e], sum(q[at(zp, e)][k] * np.asarray(us[k][t]) for k in range(K)), 'moments of the gated variable', 1e-9, 1e-9, label):
                        return
            Y = child(F)
            # give the child its full plates by adding the axes it lacks
            if tuple(Y.plates) != PL:
                Y.delete()
                F, srcs = makeF(Z, make, state[0])
                Y = child(F) if pl == PL else _child_plates(g, F)
            if mask is None:
                Y.observe(y)
            else:
                Y.observe(y, mask=mask)
            m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)
            els = [e for e in np.ndindex(*PL) if m[e]]
            for e in els:
                for k in range(K):
                    ref.eval(e, k)
            ctx.op()
            want = sum(q[at(zp, e)][k] * ref.L[e, k] for e in els for k in range(K) if q[at(zp, e)][k] != 0)
            if m.any():
                ctx.close(np.sum(Y.lower_bound_contribution()), want, 'bound term of the child', 1e-8, 1e-8, label)
            acc = {}
            for e in els:
                for k in range(K):
                    w = q[at(zp, e)][k]
                    if w:
                        for t, mm in enumerate(ref.M[e, k][0]):
                            key = (at(xo, e), k, t)
                            acc[key] = acc.get(key, 0) + w * mm
            for node, getter in srcs:
                save = node.get_parameters()
                node.update()
                ctx.op()
                phi = [np.broadcast_to(x, node.plates + d) for x, d in zip(node.get_parameters(), node.dims)]
                for pos in np.ndindex(*xo):
                    for k in range(K):
                        for t in range(len(phi)):
                            got = getter(phi[t], pos, k)
                            if got is None:
                                continue
                            exp = ref.prior[0][t] + acc.get((pos, k, t), 0)
                            if not ctx.close(got, np.broadcast_to(exp, np.shape(got)), 'posterior of the gated components', 1e-8, 1e-8, '%s component %d at %s' % (label, k, pos)):
                                return
                node.set_parameters(save)
            if mode == 'soft':
                Z.update()
                ctx.op()
                uz = np.broadcast_to(Z.get_moments()[0], zp + (K,))
                # the child's log-density terms that do not depend on the gated variable cancel
                for s in np.ndindex(*zp):
                    lp = np.log(p0) + np.array([sum(ref.L[e, k] for e in els if at(zp, e) == s) for k in range(K)])
                    if not ctx.close(uz[s], softmax(lp), 'distribution of the selector', 1e-8, 1e-9, label):
                        return
            ctx.traces += 1
    ctx.state(g, state)


def _child_plates(g, x):
    if g == 'ard':
        return bn.GaussianARD(x, 1.3, plates=PL)
    if g == 'vec':
        return bn.Gaussian(x, [[.9, .2], [.2, .7]], plates=PL)
    if g == 'gamma':
        return bn.GaussianARD(.2, x, plates=PL)
    if g == 'dir':
        return bn.Categorical(x, plates=PL)
    if g == 'wish':
        return bn.Gaussian([.2, -.1], x, plates=PL)
    return bn.Mixture(x, bn.GaussianARD, [-1., .2, 1.4], [1., .7, 1.2], plates=PL)


def f_gate(ctx, case):
    _, g, c, K, zp, xo = case
    zp, xo = tuple(zp), tuple(xo)
    init = GATED[g][1]
    ctx.traces = 0
    xl = xo if len(xo) >= -c - 1 else (1,) * (-c - 1 - len(xo)) + xo

    def makeF(Z, make, st):
        X = make(insert_axis(xo, c, K))
        args = []
        for a in st:
            a = a.reshape((K,) + xl + a.shape[1 + len(xo):])
            args.append(np.moveaxis(a, 0, 1 + len(xl) + c))
        X.initialize_from_parameters(*args)
        F = bn.Gate(Z, X, gated_plate=c)
        return F, [(X, lambda phi, pos, k: slices(phi, xo, c, pos, k, True, K))]
    # with a component axis further out, unit plates appear that are not in xo
    if xl != xo:
        xo = xl
    gate_common(ctx, g, K, zp, xo, makeF, None, 'Gate axis %d' % c, False)


def f_choose(ctx, case):
    _, g, zp, xo = case
    zp, xo = tuple(zp), tuple(xo)
    ctx.traces = 0
    for K in (2, 3):
        def makeF(Z, make, st):
            X = []
            for k in range(K):
                n = make(xo)
                n.initialize_from_parameters(*[a[k] for a in st])
                X.append(n)
            F = bn.Choose(Z, *X)
            return F, [(n, (lambda phi, pos, k, j=j: phi[pos] if k == j else None)) for j, n in enumerate(X)]
        gate_common(ctx, g, K, zp, xo, makeF, None, 'Choose', True)


FIXED = {
    # kind: (moments, event shape, value, statistics, child of the gated variable, its expected log-density)
    'scalar': (lambda K: GaussianMoments(()), (), lambda r, n: r.randn(*n), lambda x: [x, x * x],
               lambda F: bn.GaussianARD(F, 1.7), lambda y, x: stats.norm.logpdf(y, x, 1 / np.sqrt(1.7))),
    'vector': (lambda K: GaussianMoments((2,)), (2,), lambda r, n: r.randn(*n, 2), lambda x: [x, np.multiply.outer(x, x)],
               lambda F: bn.GaussianARD(bn.SumMultiply('i,i', F, np.array([1., -.5])), 1.7), lambda y, x: stats.norm.logpdf(y, x @ [1., -.5], 1 / np.sqrt(1.7))),
    'gamma': (lambda K: GammaMoments(), (), lambda r, n: r.rand(*n) + .3, lambda x: [x, np.log(x)],
              lambda F: bn.GaussianARD(.2, F), lambda y, x: stats.norm.logpdf(y, .2, 1 / np.sqrt(x))),
    'wishart': (lambda K: WishartMoments((2,)), (2, 2), lambda r, n: np.einsum('...ij,...kj->...ik', *(2 * [r.randn(*n, 2, 4)])), lambda x: [x, np.linalg.slogdet(x)[1]],
                lambda F: bn.Gaussian(np.zeros(2), F), lambda y, x: stats.multivariate_normal.logpdf(y, np.zeros(2), np.linalg.inv(x))),
    'dirichlet': (lambda K: DirichletMoments(3), (3,), lambda r, n: r.dirichlet(np.ones(3), size=n), lambda x: [np.log(x)],
                  lambda F: bn.Categorical(F), lambda y, x: np.log(x[int(y)])),
}


def f_fixed(ctx, case):
    """fixed values are gated: every assignment picks the value, a distribution over assignments averages, and the assignment is inferred"""
    _, g, c, K = case
    mom, ev, draw, st, child, lp = FIXED[g]
    ctx.traces = 0
    for outer in ((), (2,), (3, 2)):
        # the gated array has -c - 1 plates after the component axis, and up to one before
        inner = (3, 2)[2 - (-c - 1):] if c < -1 else ()
        for before in ((), (2,), (1,)):
            r = engine.rng('c12fixed', g, c, K, outer, before)
            val = draw(r, before + (K,) + inner)
            ax = len(before)
            plates = before + inner
            try:
                full_ = np.broadcast_shapes(outer, plates)
            except ValueError:
                continue
            label = '%s plates %s assignments %s' % (g, plates, outer)
            P = r.dirichlet(np.ones(K), size=outer)
            Zs = [('distribution', lambda: bn.Categorical(P), P)]
            for k in range(K):
                a = (np.arange(int(np.prod(outer))) * 2 + k).reshape(outer) % K
                Zs.append(('assignment', lambda a=a: a, np.eye(K)[a]))
            for what, Z, p in Zs:
                F = bn.Gate(Z(), val, gated_plate=c, moments=mom(K))
                ctx.op()
                ctx.ok(F.plates == full_, 'plates of gated values', '%s %s, expected %s' % (label, F.plates, full_))
                u = F.get_moments()
                for e in np.ndindex(*full_):
                    pe = p[tuple(0 if s == 1 else i for i, s in zip(e[len(full_) - len(outer):], outer))]
                    pos = tuple(0 if s == 1 else i for i, s in zip(e[len(full_) - len(plates):], plates))
                    xs = [val[pos[:ax] + (k,) + pos[ax:]] for k in range(K)]
                    for i in range(len(u)):
                        want = sum(w * np.asarray(st(x)[i]) for w, x in zip(pe, xs))
                        got = np.broadcast_to(u[i], full_ + np.shape(want))[e]
                        ctx.close(got, want, 'moments of gated values', 1e-10, 1e-10, '%s %s %s moment %d' % (label, what, e, i))
                ctx.state(g, c, K, outer, before, what, u)
                ctx.traces += 1
            # inference of the assignment
            Z = bn.Categorical(P)
            Y = child(bn.Gate(Z, val, gated_plate=c, moments=mom(K)))
            dat = Y.random()
            Y.observe(dat)
            Z.update()
            L = np.log(P)
            tot = np.zeros(outer + (K,))
            for e in np.ndindex(*full_):
                zi = tuple(0 if s == 1 else i for i, s in zip(e[len(full_) - len(outer):], outer))
                pos = tuple(0 if s == 1 else i for i, s in zip(e[len(full_) - len(plates):], plates))
                for k in range(K):
                    tot[zi + (k,)] += lp(dat[e], val[pos[:ax] + (k,) + pos[ax:]])
            want = L + tot
            want = np.exp(want - special.logsumexp(want, -1, keepdims=True))
            ctx.close(np.broadcast_to(Z.get_moments()[0], want.shape), want, 'assignment of gated values', 1e-8, 1e-10, label)
            ctx.op()


def f_multi(ctx, case):
    _, z1, z2, po = case
    z1, z2, po = tuple(z1), tuple(z2), tuple(po)
    K1, K2 = 2, 3
    ctx.traces = 0
    make, init = DIST['ard']['par'][0]
    r = engine.rng('c12m', z1, z2, po)
    st = init(r, (K1 * K2,) + po)
    y = r.randn(*PL)
    ref = Direct([(make, init)], [st], lambda ps: bn.GaussianARD(ps[0], 1.4), [po], K1 * K2, [True], y, PL)
    p1, p2 = np.array([.3, .7]), np.array([.2, .5, .3])
    modes = []
    for a in assignments(z1, K1, 'quick')[:4]:
        for b in assignments(z2, K2, 'quick')[1:5]:
            modes.append(('obs', a, b))
    for j in range(2):
        modes.append(('soft', zoo.simplex(r, K1, *z1), zoo.simplex(r, K2, *z2)))
    modes.append(('half', zoo.simplex(r, K1, *z1), assignments(z2, K2, 'quick')[1]))
    for mi, (mode, a, b) in enumerate(modes):
        mask = masks('')[mi % 5]
        label = 'MultiMixture %s Z1 %s Z2 %s mu %s mask %s' % (mode, z1, z2, po, None if mask is None else mask.astype(int).tolist())
        Z1, Z2 = bn.Categorical(p1, plates=z1), bn.Categorical(p2, plates=z2)
        if mode == 'obs':
            Z1.observe(a)
            Z2.observe(b)
            q1, q2 = np.eye(K1)[a], np.eye(K2)[b]
        elif mode == 'soft':
            Z1.initialize_from_parameters(a)
            Z2.initialize_from_parameters(b)
            q1, q2 = a, b
        else:
            Z1.initialize_from_parameters(a)
            Z2.observe(b)
            q1, q2 = a, np.eye(K2)[b]
        mu = make(po + (K1, K2))
        mu.initialize_from_parameters(*[np.moveaxis(x.reshape((K1, K2) + x.shape[1:]), (0, 1), (len(po), len(po) + 1)) for x in st])
        Y = bn.MultiMixture([Z1, Z2], bn.GaussianARD, mu, 1.4, plates=PL)
        if mask is None:
            Y.observe(y)
        else:
            Y.observe(y, mask=mask)
        m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)
        els = [e for e in np.ndindex(*PL) if m[e]]
        for e in els:
            for k in range(K1 * K2):
                ref.eval(e, k)
        ctx.op()

        def w(e, k):
            return q1[at(z1, e)][k // K2] * q2[at(z2, e)][k % K2]
        if els:
            ctx.close(np.sum(Y.lower_bound_contribution()), sum(w(e, k) * ref.L[e, k] for e in els for k in range(K1 * K2) if w(e, k)), 'bound term of the mixture', 1e-8, 1e-8, label)
        save = mu.get_parameters()
        mu.update()
        phi = [np.broadcast_to(x, mu.plates + d) for x, d in zip(mu.get_parameters(), mu.dims)]
        for pos in np.ndindex(*po):
            for k in range(K1 * K2):
                for t in range(len(phi)):
                    exp = ref.prior[0][t] + sum(w(e, k) * ref.M[e, k][0][t] for e in els if at(po, e) == pos)
                    if not ctx.close(phi[t][pos + (k // K2, k % K2)], exp, 'posterior of parameter 0', 1e-8, 1e-8, label):
                        return
        mu.set_parameters(save)
        if mode != 'obs':
            Z1.update()
            u = np.broadcast_to(Z1.get_moments()[0], z1 + (K1,))
            for s in np.ndindex(*z1):
                lp = np.log(p1) + np.array([sum(q2[at(z2, e)][l] * ref.L[e, k * K2 + l] for e in els if at(z1, e) == s for l in range(K2)) for k in range(K1)])
                ctx.close(u[s], softmax(lp), 'distribution of the selector', 1e-8, 1e-9, label)
            q1 = u
            if mode == 'soft':
                Z2.update()
                u = np.broadcast_to(Z2.get_moments()[0], z2 + (K2,))
                for s in np.ndindex(*z2):
                    lp = np.log(p2) + np.array([sum(q1[at(z1, e)][k] * ref.L[e, k * K2 + l] for e in els if at(z2, e) == s for k in range(K1)) for l in range(K2)])
                    ctx.close(u[s], softmax(lp), 'distribution of the selector', 1e-8, 1e-9, label)
        ctx.op(2)
        ctx.traces += 1
    ctx.state('multi', st)


def run(ctx, case):
    globals()['f_' + case[0]](ctx, case)
