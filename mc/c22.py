"""C22: automatic conversions between variable types preserve meaning."""
import itertools
import numpy as np
from scipy.special import gammaln, multigammaln
from bayespy import nodes as bn
from bayespy.inference import VB
from bayespy.inference.vmp.nodes.node import Node, Moments
from bayespy.inference.vmp.nodes.gaussian import (GaussianMoments, GaussianGammaMoments, GaussianWishartMoments,
                                                  WrapToGaussianGamma, WrapToGaussianWishart)
from bayespy.inference.vmp.nodes.gaussian_markov_chain import GaussianMarkovChainMoments
from bayespy.inference.vmp.nodes.categorical_markov_chain import CategoricalMarkovChainMoments
from bayespy.inference.vmp.nodes.categorical import CategoricalMoments
from bayespy.inference.vmp.nodes.multinomial import MultinomialMoments
from bayespy.inference.vmp.nodes.bernoulli import BernoulliMoments
from bayespy.inference.vmp.nodes.binomial import BinomialMoments
from bayespy.inference.vmp.nodes.poisson import PoissonMoments
from bayespy.inference.vmp.nodes.gamma import GammaMoments, GammaPriorMoments
from bayespy.inference.vmp.nodes.wishart import WishartMoments, WishartPriorMoments
from bayespy.inference.vmp.nodes.dirichlet import DirichletMoments, ConcentrationMoments
from bayespy.inference.vmp.nodes.beta import BetaMoments
from . import engine

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of source types x receiver types x plates x masks on the real conversion nodes, and of all small converter graphs against breadth-first search'
RULE = ('(a) every class hierarchy of n<=4 moment types and every set of converters of up to 5 between them (all 4096 sets for the flat hierarchy): the search finds a path '
        'exactly when one exists and it is a shortest one, which applies only converters defined for the type at hand; (b) every ordered pair of source node type and receiver '
        'type x source plates x receiver plates: either rejected or, for variables distributed over several points, the moments are the expectations of the converted values, '
        'messages sent back have the same inner products with the source moments as with the converted ones, and the mask arrives exactly; accepted where a conversion is declared; '
        '(c) models with a conversion against the dense posterior / the model written with the required type')
BOUND = dict(quick='n<=4 types, plates () (2,) (1,) (2,3), all masks of receivers with <=4 elements plus single missing and single present ones',
             thorough='n<=4 types with up to 6 converters, all masks of receivers with <=8 elements')
CASE_TIMEOUT = 600


# ------------------------------------------------------------------ (a) the search

def graph_cases(tier):
    for n in (1, 2, 3, 4):
        for parents in itertools.product(*[range(-1, i) for i in range(n)]):
            yield ['graph', n, list(parents)]


def f_graph(ctx, case):
    _, n, parents = case
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    flat = all(p == -1 for p in parents)
    kmax = 12 if (flat or n < 4) else (4 if ctx.tier == 'quick' else 6)

    def ancestors(c):
        out = []
        while c != -1:
            out.append(c)
            c = parents[c]
        return out
    anc = [ancestors(c) for c in range(n)]
    ctx.traces = 0
    for k in range(min(kmax, len(pairs)) + 1):
        for edges in itertools.combinations(pairs, k):
            classes = []
            for c in range(n):
                base = Moments if parents[c] == -1 else classes[parents[c]]
                classes.append(type('M%d' % c, (base,), {}))
            # declare in both orders: converters of subclasses may be declared before those of their parents
            for a, b in (edges if sum(map(sum, edges)) % 2 else edges[::-1]):
                classes[a].add_converter(classes[b], (lambda a, b: lambda X: X + [(a, b)])(a, b))
            ctx.traces += 1
            for s in range(n):
                dist = {s: 0}
                front = [s]
                while front:
                    new = []
                    for c in front:
                        for a, b in edges:
                            if a in anc[c] and b not in dist:
                                dist[b] = dist[c] + 1
                                new.append(b)
                    front = new
                for t in range(n):
                    ctx.op()
                    want = min([d for c, d in dist.items() if t in anc[c]], default=None)
                    w = 'hierarchy %s converters %s from %d to %d' % (parents, edges, s, t)
                    try:
                        f = classes[s]().get_converter(classes[t])
                    except Moments.NoConverterError:
                        ctx.ok(want is None, 'an existing conversion is not found', w)
                        continue
                    if not ctx.ok(want is not None, 'a conversion is found though none exists', w):
                        continue
                    path = f([])
                    ctx.ok(len(path) == want, 'not a shortest conversion', '%s: %s, expected length %d' % (w, path, want))
                    cur = s
                    for a, b in path:
                        ctx.ok((a, b) in edges and a in anc[cur], 'a converter is applied to a type it is not defined for', '%s: %s' % (w, path))
                        cur = b
                    ctx.ok(t in anc[cur], 'the conversion ends in another type', '%s: %s' % (w, path))
    ctx.state(tuple(parents))
    ctx.nontrivial = True


# ------------------------------------------------------------------ (b) pairs of types

def oh(k, K):
    e = np.zeros(K)
    e[k] = 1
    return e


def outer(x):
    return np.multiply.outer(x, x)


F = {
    'gauss': lambda x: [x, outer(x)],
    'gg': lambda v: [v[1] * v[0], v[1] * outer(v[0]), v[1], np.log(v[1])],
    'gw': lambda v: [np.tensordot(v[1], v[0], v[0].ndim), np.sum(outer(v[0]) * v[1]), v[1],
                     np.linalg.slogdet(v[1].reshape(v[0].size, v[0].size))[1]],
    'gmc': lambda x: [x, np.einsum('ni,nj->nij', x, x), np.einsum('ni,nj->nij', x[:-1], x[1:])],
    'cmc': lambda v: [oh(v[0][0], v[1]), np.array([np.outer(oh(a, v[1]), oh(b, v[1])) for a, b in zip(v[0][:-1], v[0][1:])])],
    'cat': lambda v: [oh(v[0], v[1])],
    'count': lambda x: [x],
    'gamma': lambda x: [x, np.log(x)],
    'wishart': lambda L: [L, np.linalg.slogdet(L.reshape((int(np.sqrt(L.size)),) * 2))[1]],
    'logp': lambda p: [np.log(p)],
    'gammaprior': lambda a: [a, gammaln(a)],
    'wishartprior': lambda v: [v[0], multigammaln(v[0] / 2, v[1])],
    'conc': lambda a: [a, gammaln(np.sum(a)) - np.sum(gammaln(a))],
}


def spd(r, D):
    X = r.randn(D, D + 2)
    return X @ X.T + .3 * np.eye(D)


# source: name -> (node factory(plates), f name, random value, map to the common description)
def S(make, f, val, desc):
    return dict(make=make, f=f, val=val, desc=desc)


def garr(s):
    return S(lambda p: bn.GaussianARD(0, 1, shape=s, plates=p), 'gauss', lambda r: r.randn(*s) if s else np.float64(r.randn()), ('x', s))


def chainsrc(N, D):
    def make(p):
        return bn.GaussianMarkovChain(np.zeros(D), np.identity(D), np.identity(D), np.ones(D), n=N, plates=p)
    return S(make, 'gmc', lambda r: r.randn(N, D), ('path', N, D))


SOURCES = {
    'ard()': garr(()), 'ard(3)': garr((3,)), 'ard(2,3)': garr((2, 3)), 'ard(2,1,2)': garr((2, 1, 2)), 'ard(1)': garr((1,)),
    'gaussian(2)': S(lambda p: bn.Gaussian(np.zeros(2), np.identity(2), plates=p), 'gauss', lambda r: r.randn(2), ('x', (2,))),
    'gaussgamma(2)': S(lambda p: bn.GaussianGamma(np.zeros(2), np.identity(2), 1, 1, plates=p), 'gg', lambda r: (r.randn(2), r.rand() + .2), ('xa', (2,))),
    'gmc(3,2)': chainsrc(3, 2), 'gmc(2,1)': chainsrc(2, 1),
    'vgmc': S(lambda p: bn.VaryingGaussianMarkovChain(np.zeros(2), np.identity(2), bn.GaussianARD(0, 1, shape=(2, 2), plates=(2,)), np.ones((2, 2)), np.ones(2), n=3, plates=p or None)
              if not p else None, 'gmc', lambda r: r.randn(3, 2), ('path', 3, 2)),
    'cmc(3,2)': S(lambda p: bn.CategoricalMarkovChain([.5, .5], np.ones((2, 2)) / 2, states=3, plates=p), 'cmc', lambda r: (r.randint(2, size=3), 2), ('zpath', 3, 2)),
    'cmc(2,3)': S(lambda p: bn.CategoricalMarkovChain([.5, .2, .3], np.ones((3, 3)) / 3, states=2, plates=p), 'cmc', lambda r: (r.randint(3, size=2), 3), ('zpath', 2, 3)),
    'cat2': S(lambda p: bn.Categorical([.5, .5], plates=p), 'cat', lambda r: (r.randint(2), 2), ('z', 2)),
    'cat3': S(lambda p: bn.Categorical([.5, .3, .2], plates=p), 'cat', lambda r: (r.randint(3), 3), ('z', 3)),
    'multinomial3': S(lambda p: bn.Multinomial(4, [.5, .3, .2], plates=p), 'count', lambda r: r.multinomial(4, [.3, .3, .4]).astype(float), ('counts', 3)),
    'bernoulli': S(lambda p: bn.Bernoulli(.5, plates=p), 'count', lambda r: float(r.randint(2)), ('bin',)),
    'binomial': S(lambda p: bn.Binomial(4, .5, plates=p), 'count', lambda r: float(r.randint(5)), ('count',)),
    'poisson': S(lambda p: bn.Poisson(2., plates=p), 'count', lambda r: float(r.poisson(2)), ('count',)),
    'gamma': S(lambda p: bn.Gamma(1, 1, plates=p), 'gamma', lambda r: r.rand() + .1, ('a',)),
    'wishart2': S(lambda p: bn.Wishart(3, np.identity(2), plates=p), 'wishart', lambda r: spd(r, 2), ('L', (2,))),
    'dirichlet3': S(lambda p: bn.Dirichlet(np.ones(3), plates=p), 'logp', lambda r: r.dirichlet(np.ones(3)), ('p', 3)),
    'dirichlet2': S(lambda p: bn.Dirichlet(np.ones(2), plates=p), 'logp', lambda r: r.dirichlet(np.ones(2)), ('p', 2)),
    'beta': S(lambda p: bn.Beta([1, 1], plates=p), 'logp', lambda r: r.dirichlet(np.ones(2)), ('p', 2)),
}

# receivers: name -> (moments instance)
TARGETS = {
    'gauss()': GaussianMoments(()), 'gauss(3)': GaussianMoments((3,)), 'gauss(2)': GaussianMoments((2,)), 'gauss(1)': GaussianMoments((1,)),
    'gauss(1,2)': GaussianMoments((1, 2)), 'gauss(2,3)': GaussianMoments((2, 3)), 'gauss(2,1,2)': GaussianMoments((2, 1, 2)),
    'gg()': GaussianGammaMoments(()), 'gg(3)': GaussianGammaMoments((3,)), 'gg(2)': GaussianGammaMoments((2,)), 'gg(2,3)': GaussianGammaMoments((2, 3)),
    'gw(2)': GaussianWishartMoments((2,)),
    'gmc(3,2)': GaussianMarkovChainMoments(3, 2), 'cmc(2,3)': CategoricalMarkovChainMoments(2, 3),
    'cat2': CategoricalMoments(2), 'cat3': CategoricalMoments(3),
    'bernoulli': BernoulliMoments(), 'binomial': BinomialMoments(1), 'poisson': PoissonMoments(),
    'gamma': GammaMoments(), 'wishart2': WishartMoments((2,)), 'wishart()': WishartMoments(()), 'dirichlet': DirichletMoments(3), 'dirichlet2': DirichletMoments(2),
    'beta': BetaMoments(), 'gammaprior': GammaPriorMoments(), 'wishartprior': WishartPriorMoments(2), 'conc': ConcentrationMoments(2),
}
TARGETS['gmc(3,2)'].dims = ((3, 2), (3, 2, 2), (2, 2, 2))


def split(target):
    return target.split('(')[0]


def mapping(source, target):
    """(extra plates, value -> array over extra plates of target values, target f) of the converted quantity, or None if it has no meaning"""
    d = SOURCES[source]['desc']
    m = TARGETS[target]
    t = type(m)
    if d[0] == 'x' and t in (GaussianMoments, GaussianGammaMoments):
        s, nd = d[1], m.ndim
        if nd > len(s) or s[len(s) - nd:] != m.shape:
            return None
        ex = s[:len(s) - nd]
        if t is GaussianMoments:
            return ex, lambda x: {i: np.asarray(x)[i] for i in np.ndindex(*ex)}, 'gauss'
        return ex, lambda x: {i: (np.asarray(x)[i], 1.) for i in np.ndindex(*ex)}, 'gg'
    if d[0] == 'xa' and t is GaussianGammaMoments and m.shape == d[1]:
        return (), lambda v: {(): v}, 'gg'
    if d[0] == 'path':
        N, D = d[1:]
        if t is GaussianMarkovChainMoments:
            return ((), lambda v: {(): v}, 'gmc') if m.dims[0][0] == N and m.dims[0][1] == D else None
        if t in (GaussianMoments, GaussianGammaMoments) and m.shape in ((D,), ()):
            ex = (N, D)[:2 - m.ndim]
            if t is GaussianMoments:
                return ex, lambda x: {i: x[i] for i in np.ndindex(*ex)}, 'gauss'
            return ex, lambda x: {i: (x[i], 1.) for i in np.ndindex(*ex)}, 'gg'
    K = d[2] if d[0] == 'zpath' else d[1] if d[0] == 'z' else None
    if K:
        ex = (d[1],) if d[0] == 'zpath' else ()
        get = (lambda v: {(n,): v[0][n] for n in range(d[1])}) if ex else (lambda v: {(): v[0]})
        if t is CategoricalMarkovChainMoments and d[0] == 'zpath' and m.dims[0] == (K,) and m.dims[1][0] == d[1] - 1:
            return (), lambda v: {(): v}, 'cmc'
        if t is CategoricalMoments and m.categories == K:
            return ex, lambda v: {i: (z, K) for i, z in get(v).items()}, 'cat'
        if t in (BernoulliMoments, BinomialMoments, PoissonMoments) and K == 2:
            return ex, lambda v: {i: float(z == 0) for i, z in get(v).items()}, 'count'
    if d[0] in ('bin', 'count') and t in (BernoulliMoments, BinomialMoments, PoissonMoments):
        return (), lambda v: {(): v}, 'count'
    if d[0] == 'a' and t is GammaMoments:
        return (), lambda v: {(): v}, 'gamma'
    if d[0] == 'L' and t is WishartMoments and m.shape == d[1]:
        return (), lambda v: {(): v}, 'wishart'
    if d[0] == 'p' and t in (DirichletMoments, BetaMoments):
        return ((), lambda v: {(): v}, 'logp') if m.dims[0] == (d[1],) else None
    return None


# conversions the library declares: these must be accepted
def declared(source, target):
    d, m, t = SOURCES[source]['desc'], TARGETS[target], type(TARGETS[target])
    if mapping(source, target) is None:
        return False
    if t is GaussianGammaMoments and d[0] == 'x' and len(d[1]) != m.ndim:
        return False
    if t is GaussianGammaMoments and d[0] == 'path' and m.ndim != 1:
        return False
    if d[0] in ('bin', 'count'):
        order = ['bernoulli', 'binomial', 'poisson']
        return order.index(target) >= order.index(source)
    if d[0] == 'p':
        return source == 'beta' or t is DirichletMoments
    return True


class Sink(Node):
    """A child which sends a given message."""

    def __init__(self, X, moments, plates, msg):
        self._parent_moments = (moments,)
        self._moments = moments
        self.msg = msg
        super().__init__(X, dims=moments.dims, plates=plates)

    def _get_message_and_mask_to_parent(self, index, u_parent=None):
        return [np.array(m) for m in self.msg], self.mask


def mix_moments(r, src, plates, K=3, one=None):
    """Moments of variables with independent K-point distributions; returns (points, weights, u)"""
    f = F[src['f']]
    pts = {p: [src['val'](r) for _ in range(K)] for p in np.ndindex(*plates)}
    w = {p: r.dirichlet(np.ones(K)) for p in np.ndindex(*plates)}
    if one:
        for p in w:
            w[p] = oh(0, K)
    u = expectation(plates, lambda p: [(wk, f(x)) for wk, x in zip(w[p], pts[p])])
    return pts, w, u


def expectation(plates, items):
    out = None
    for p in np.ndindex(*plates):
        for wk, u in items(p):
            if out is None:
                out = [np.zeros(plates + np.shape(ui)) for ui in u]
            for o, ui in zip(out, u):
                o[p] += wk * ui
    return out


def masks_of(plates, tier):
    n = int(np.prod(plates, dtype=int))
    lim = 4 if tier == 'quick' else 8
    if n <= lim:
        for bits in itertools.product((False, True), repeat=n):
            yield np.array(bits).reshape(plates)
    else:
        yield np.ones(plates, bool)
        for k in range(n):
            m = np.ones(n, bool)
            m[k] = False
            yield m.reshape(plates)
            yield ~m.reshape(plates)


PLATES = [(), (2,), (1,), (2, 3)]


def pair_cases(tier):
    for s in SOURCES:
        yield ['pair', s]


def f_pair(ctx, case):
    s = case[1]
    ctx.traces = 0
    for target, P in itertools.product(TARGETS, PLATES):
        src = SOURCES[s]
        r = engine.rng('c22', s, target, P)
        try:
            X = src['make'](P)
        except Exception as e:
            ctx.fail('source cannot be built', '%s %s: %s' % (s, P, str(e)[:200]))
            continue
        if X is None:
            continue
        if not ctx.ok(X.plates == P, 'plates of the source', '%s %s' % (X.plates, P)):
            continue
        m = TARGETS[target]
        mp = mapping(s, target)
        w = '%s plates %s -> %s' % (s, P, target)
        ctx.op()
        ctx.traces += 1
        kids = set(X.children)
        try:
            snk = Sink(X, m, None, None)
            if snk.parents[0].dims != m.dims:
                raise ValueError('dims %s instead of %s' % (snk.parents[0].dims, m.dims))
        except Exception as e:
            if declared(s, target):
                ctx.fail('a declared conversion is rejected', '%s: %s: %s' % (w, type(e).__name__, str(e)[:200]))
            ctx.ok(True, 'rejected')
            ctx.ok(isinstance(e, (ValueError, Moments.NoConverterError, NotImplementedError)) or mp is not None, 'meaningless conversion fails for another reason', '%s: %r' % (w, e))
            ctx.outcomes.add('rejected')
            continue
        if mp is None:
            ctx.fail('a conversion without meaning is accepted', w)
            continue
        ctx.outcomes.add('accepted')
        ctx.state(s, target, P)
        ex, g, tf = mp
        C = snk.parents[0]
        full = P + ex
        if not ctx.ok(C.plates == full, 'plates of the converted node', '%s: %s, expected %s' % (w, C.plates, full)):
            continue
        snk.delete()

        def target_u(pts, wt):
            return expectation(full, lambda q: [(wk, F[tf](g(x)[q[len(P):]])) for wk, x in zip(wt[q[:len(P)]], pts[q[:len(P)]])])
        us = []
        for k in range(3):
            pts, wt, u = mix_moments(r, src, P, one=(k == 2))
            X.u = u
            want = target_u(pts, wt)
            got = C.get_moments()
            for j, (a, b) in enumerate(zip(got, want)):
                try:
                    a = np.broadcast_to(a, np.shape(b))
                except ValueError:
                    pass
                ctx.close(a, b, 'moments of a conversion', rtol=1e-9, atol=1e-10, msg='%s moment %d' % (w, j))
            us.append((u, want))
        # moments of the source which are the same for all plates are stored with unit axes
        if P and int(np.prod(P)) > 1:
            p1 = tuple(1 for _ in P)
            pts, wt, u = mix_moments(r, src, p1)
            X.u = u
            ptsF = {p: pts[tuple(0 for _ in P)] for p in np.ndindex(*P)}
            wtF = {p: wt[tuple(0 for _ in P)] for p in np.ndindex(*P)}
            for j, (a, b) in enumerate(zip(C.get_moments(), target_u(ptsF, wtF))):
                try:
                    a = np.broadcast_to(a, np.shape(b))
                except ValueError:
                    pass
                ctx.close(a, b, 'moments of a conversion', rtol=1e-9, atol=1e-10, msg='%s moment %d, unit axes' % (w, j))
        # messages back
        for extra in ((), (2,)):
            cp = extra + full
            for unit in (False, True):
                mshape = tuple(1 for _ in cp) if unit else cp
                msg = [np.asarray(r.randn(*mshape, *d)) for d in m.dims]
                for j, d in enumerate(m.dims):
                    # messages for second moments are symmetric
                    if len(d) and len(d) % 2 == 0 and d[:len(d) // 2] == d[len(d) // 2:] and t_sym(m, j):
                        h = len(d) // 2
                        perm = tuple(range(len(mshape))) + tuple(len(mshape) + h + a for a in range(h)) + tuple(len(mshape) + a for a in range(h))
                        msg[j] = (msg[j] + np.transpose(msg[j], perm)) / 2
                for mask in masks_of(cp, ctx.tier):
                    ctx.op()
                    X2 = src['make'](P)
                    X2.u = us[0][0]
                    sk = Sink(X2, m, cp, msg)
                    sk.mask = mask
                    sk.parents[0]._update_mask()
                    try:
                        back = X2._message_from_children()
                    except Exception as e:
                        ctx.fail('message through a conversion raises', '%s receiver plates %s unit %s mask %s: %s %s' % (w, cp, unit, mask.tolist(), type(e).__name__, str(e)[:150]))
                        break
                    # which source plates have an unmasked descendant
                    any_ = np.zeros(P, bool)
                    for i in np.ndindex(*cp):
                        if mask[i]:
                            any_[i[len(extra):][:len(P)]] = True
                    gm = np.asarray(X2.mask)
                    ctx.ok(np.array_equal(np.broadcast_to(gm, P) if gm.ndim <= len(P) else gm, any_), 'mask of the source', '%s receiver plates %s mask %s -> %s' % (w, cp, mask.tolist(), gm.tolist()))
                    lhs, rhs = 0., 0.
                    du = [a - b for a, b in zip(us[0][0], us[1][0])]
                    dv = [a - b for a, b in zip(us[0][1], us[1][1])]
                    for a, b, d in zip(back, du, X2.dims):
                        if a is not None:
                            aa = np.broadcast_to(a, P + d)
                            b = np.where(add(any_, len(d)), b, 0)
                            lhs += np.sum(aa * b)
                    for a, b, d in zip(msg, dv, m.dims):
                        aa = np.broadcast_to(a, cp + d) * add(mask, len(d))
                        rhs += np.sum(aa * b)
                    ctx.close(lhs, rhs, 'message through a conversion', rtol=1e-8, atol=1e-9, msg='%s receiver plates %s unit %s mask %s' % (w, cp, unit, mask.tolist()))


def add(x, n):
    return np.asarray(x)[(Ellipsis,) + (None,) * n]


def t_sym(m, j):
    return isinstance(m, (GaussianMoments, GaussianGammaMoments)) and j == 1 or isinstance(m, WishartMoments) and j == 0


# ------------------------------------------------------------------ constants as parents

CONST = [
    ('gauss()', 'gauss', lambda r: np.float64(r.randn()), dict(ndim=0)), ('gauss(3)', 'gauss', lambda r: r.randn(3), dict(ndim=1)), ('gauss(2,3)', 'gauss', lambda r: r.randn(2, 3), dict(ndim=2)),
    ('gamma', 'gamma', lambda r: r.rand() + .2, {}), ('wishart2', 'wishart', lambda r: spd(r, 2), dict(ndim=1)), ('wishart()', 'wishart', lambda r: r.rand() + .2, dict(ndim=0)),
    ('dirichlet', 'logp', lambda r: r.dirichlet(np.ones(3)), {}), ('gammaprior', 'gammaprior', lambda r: r.rand() + .2, {}),
    ('conc', 'conc', lambda r: r.rand(2) + .2, {}), ('wishartprior', 'wishartprior', lambda r: r.rand() + 2., dict(d=2)),
    ('beta', 'beta', lambda r: r.rand() * .8 + .1, {}), ('bernoulli', 'count', lambda r: r.randint(2), {}), ('poisson', 'count', lambda r: r.randint(5), {}),
    ('cat3', 'cat', lambda r: r.randint(3), dict(categories=3)), ('gmc(3,2)', 'gmc', lambda r: r.randn(3, 2), {}), ('cmc(2,3)', 'cmc', lambda r: r.randint(3, size=2), dict(categories=3)),
]


def f_const(ctx, case):
    _, name, P = case
    P = tuple(P)
    _, f, val, kw = [c for c in CONST if c[0] == name][0]
    r = engine.rng('c22c', name, P)
    cls = type(TARGETS[name])
    pts = {p: val(r) for p in np.ndindex(*P)}
    sh = np.shape(next(iter(pts.values())))
    x = np.zeros(P + sh, dtype=np.asarray(next(iter(pts.values()))).dtype)
    for p in pts:
        x[p] = pts[p]
    forms = [('array', x), ('list', x.tolist())]
    if x.ndim == 0:
        forms.append(('scalar', x[()]))
    ff = {'beta': lambda p: [np.log([p, 1 - p])], 'wishartprior': lambda n: F['wishartprior']((n, 2)), 'cat': lambda z: [oh(z, 3)],
          'cmc': lambda z: F['cmc']((z, 3)), 'wishart': F['wishart'] if name == 'wishart2' else (lambda v: [v, np.log(v)])}.get(f, F[f] if f in F else None)
    want = expectation(P, lambda p: [(1., ff(pts[p]))])
    for form, v in forms:
        ctx.op()
        if f in ('gmc', 'cmc') and form == 'list':
            continue
        try:
            node = Node._ensure_moments(v, cls, **kw)
        except NotImplementedError:
            ctx.ok(f in ('gmc', 'cmc'), 'a constant is rejected', '%s %s' % (name, form))
            continue
        except Exception as e:
            if f in ('gmc', 'cmc'):
                ctx.ok(True, 'rejected')
                continue
            ctx.fail('a constant is rejected', '%s plates %s %s: %s %s' % (name, P, form, type(e).__name__, str(e)[:200]))
            continue
        ctx.ok(node.plates == P, 'plates of a constant', '%s %s %s' % (name, node.plates, P))
        for j, (a, b) in enumerate(zip(node.get_moments(), want)):
            ctx.close(np.broadcast_to(a, np.shape(b)) if np.ndim(a) <= np.ndim(b) else a, b, 'moments of a constant', msg='%s plates %s %s moment %d' % (name, P, form, j))
        ctx.state(name, P, form)


# ------------------------------------------------------------------ explicit wrappers

def wrap_cases(tier):
    for kind in ('gamma-diag', 'gamma-scalar', 'gg', 'gw'):
        for PX in PLATES:
            yield ['wrap', kind, list(PX)]


def bc(*s):
    try:
        return np.broadcast_shapes(*s)
    except ValueError:
        return None


def f_wrap(ctx, case):
    """Nodes joining or reshaping variables: moments are expectations, messages are the partial derivatives of <m, u>."""
    _, kind, PX = case
    PX = tuple(PX)
    combos = []
    if kind == 'gamma-diag':
        if PX:
            src = SOURCES['gamma']
            D = PX[-1]
            combos.append((lambda X: X.as_diagonal_wishart(), [(src, PX)], PX[:-1], lambda q, vals: np.diag([vals[0][q + (d,)] for d in range(D)]), 'wishart', 'as_diagonal_wishart'))
    elif kind == 'gamma-scalar':
        combos.append((lambda X: X.as_wishart(ndim=0), [(SOURCES['gamma'], PX)], PX, lambda q, vals: vals[0][q], 'gamma', 'as_wishart(0)'))
    else:
        for xs, PA in itertools.product(('ard()', 'ard(3)', 'ard(2,3)', 'gaussgamma(2)', 'gmc(3,2)'), PLATES):
            base = SOURCES[xs]
            shape = base['desc'][1] if base['desc'][0] != 'path' else (base['desc'][2],)
            ex = (3,) if base['desc'][0] == 'path' else ()
            out = bc(PX + ex, PA)
            if out is None:
                continue
            nds = sorted({len(shape), max(0, len(shape) - 1)}) if base['desc'][0] == 'x' else [len(shape)]
            for nd in nds:
                ex2 = ex + (shape[:len(shape) - nd] if base['desc'][0] == 'x' else ())
                o2 = bc(PX + ex2, PA)
                if o2 is None:
                    continue

                def pick(q, v, P, ex2=ex2, base=base, nd=nd):
                    # value of the X part at the output plate q
                    k = q[len(q) - len(P) - len(ex2):]
                    k = tuple(0 if n == 1 else i for n, i in zip(P + ex2, k))
                    x = v[k[:len(P)]]
                    if base['desc'][0] == 'xa':
                        return x
                    return np.asarray(x)[k[len(P):]], 1.

                def pa(q, v, P):
                    k = q[len(q) - len(P):]
                    return v[tuple(0 if n == 1 else i for n, i in zip(P, k))]
                if kind == 'gg':
                    def val(q, vals, pick=pick, PA=PA):
                        x, a = pick(q, vals[0], PX)
                        return x, a * pa(q, vals[1], PA)
                    combos.append((lambda X, A, nd=nd: WrapToGaussianGamma(X, A, ndim=nd), [(base, PX), (SOURCES['gamma'], PA)], o2, val, 'gg', '%s with gamma %s ndim %d' % (xs, PA, nd)))
                elif kind == 'gw' and nd == 1:
                    D = shape[-1]
                    wsrc = S(lambda p, D=D: bn.Wishart(D + 1., np.identity(D), plates=p), 'wishart', lambda r, D=D: spd(r, D), None)

                    def val(q, vals, pick=pick, PA=PA):
                        x, a = pick(q, vals[0], PX)
                        return x, a * pa(q, vals[1], PA)
                    combos.append((lambda X, L: WrapToGaussianWishart(X, L, ndim=1), [(base, PX), (wsrc, PA)], o2, val, 'gw', '%s with wishart %s' % (xs, PA)))
    for build, srcs, out, val, tf, label in combos:
        r = engine.rng('c22w', kind, label, PX)
        w = '%s plates %s' % (label, PX)
        nodes = [s['make'](p) for s, p in srcs]
        ctx.op()
        try:
            Y = build(*nodes)
        except Exception as e:
            ctx.fail('a wrapper is rejected', '%s: %s %s' % (w, type(e).__name__, str(e)[:200]))
            continue
        if not ctx.ok(Y.plates == out, 'plates of a wrapper', '%s: %s, expected %s' % (w, Y.plates, out)):
            continue
        dists = [[mix_moments(r, s, p, K=2)[:2] for s, p in srcs] for _ in range(3)]

        def setu(node, s, p, d):
            node.u = expectation(p, lambda q: [(wk, F[s['f']](x)) for wk, x in zip(d[1][q], d[0][q])])

        def moments(ds):
            """expectation over the independent points of the plates q depends on"""
            out_u = None
            for q in np.ndindex(*out):
                # enumerate joint choices of the points of every source plate
                acc = None
                used = relevant(q)
                for ch in itertools.product(range(2), repeat=len(used)):
                    vals = [dict() for _ in srcs]
                    wt = 1.
                    for (k, p), c in zip(used, ch):
                        vals[k][p] = ds[k][0][p][c]
                        wt *= ds[k][1][p][c]
                    u = F[tf](val(q, vals))
                    acc = [wt * np.asarray(x) for x in u] if acc is None else [a + wt * x for a, x in zip(acc, u)]
                if out_u is None:
                    out_u = [np.zeros(out + np.shape(a)) for a in acc]
                for o, a in zip(out_u, acc):
                    o[q] = a
            return out_u

        class Spy(dict):
            def __init__(self, base, log, k):
                super().__init__(base)
                self.log, self.k = log, k

            def __getitem__(self, p):
                self.log.append((self.k, p))
                return super().__getitem__(p)

        def relevant(q):
            log = []
            val(q, [Spy({p: v[0] for p, v in dists[0][k][0].items()}, log, k) for k in range(len(srcs))])
            return list(dict.fromkeys(log))
        for node, (s, p), d in zip(nodes, srcs, dists[0]):
            setu(node, s, p, d)
        want = moments(dists[0])
        for j, (a, b) in enumerate(zip(Y.get_moments(), want)):
            ctx.close(np.broadcast_to(a, np.shape(b)) if np.ndim(a) <= np.ndim(b) else a, b, 'moments of a wrapper', rtol=1e-9, msg='%s moment %d' % (w, j))
        ctx.state(w)
        msg = [np.asarray(r.randn(*out, *d)) for d in Y.dims]
        for j, d in enumerate(Y.dims):
            if len(d) in (2, 4) and (t_sym(Y._moments, j) or tf == 'gw' and j == 2):
                h = len(d) // 2
                n = len(out)
                msg[j] = (msg[j] + np.transpose(msg[j], tuple(range(n)) + tuple(n + h + a for a in range(h)) + tuple(n + a for a in range(h)))) / 2
        sk = Sink(Y, Y._moments, None, msg)
        for mask in masks_of(out, 'quick' if len(out) < 2 else ctx.tier):
            if len(out) >= 2 and ctx.tier == 'quick' and np.sum(~mask) > 1 and np.sum(mask) > 1:
                continue
            sk.mask = mask
            Y._update_mask()
            for k, node in enumerate(nodes):
                ctx.op()
                try:
                    back = node._message_from_children()
                except Exception as e:
                    ctx.fail('message through a wrapper raises', '%s to %d: %s %s' % (w, k, type(e).__name__, str(e)[:200]))
                    break
                # derivative with respect to the moments of source k: change its distribution only
                lhs = rhs = 0.
                alt = list(dists[0])
                alt[k] = dists[1][k]
                ua, ub = want, moments(alt)
                for a, b, c, d in zip(msg, ua, ub, Y.dims):
                    rhs += np.sum(a * (b - c) * add(mask, len(d)))
                s, p = srcs[k]
                u2 = expectation(p, lambda q: [(wk, F[s['f']](x)) for wk, x in zip(dists[1][k][1][q], dists[1][k][0][q])])
                for a, b, c, d in zip(back, node.u, u2, node.dims):
                    if a is not None:
                        lhs += np.sum(np.broadcast_to(a, p + d) * (b - c))
                ctx.close(lhs, rhs, 'message through a wrapper', rtol=1e-8, atol=1e-9, msg='%s to parent %d mask %s' % (w, k, mask.tolist()))


# ------------------------------------------------------------------ (c) inference

def dense_cases(tier):
    for s in ('ard()', 'ard(3)', 'ard(2,3)', 'ard(2,1,2)', 'gmc(3,2)'):
        for P in ((), (2,)):
            for recv in ('gaussian', 'ard', 'ard-shape', 'dot', 'add'):
                yield ['dense', s, list(P), recv]


def f_dense(ctx, case):
    """Linear-Gaussian model: the posterior of X and the bound equal dense conditioning."""
    _, s, P, recv = case
    P = tuple(P)
    r = engine.rng('c22d', *case)
    d = SOURCES[s]['desc']
    shape = d[1] if d[0] == 'x' else d[1:]
    n = int(np.prod(shape, dtype=int))
    D = shape[-1] if shape else None
    if recv in ('gaussian', 'ard-shape', 'dot') and D is None:
        ctx.ok(True, 'no vector')
        return
    rowdim = D if recv in ('gaussian', 'ard-shape', 'dot') else 1
    cells = shape[:-1] if rowdim != 1 or recv in ('gaussian', 'ard-shape', 'dot') else shape
    extra = (2,)

    def build():
        if d[0] == 'x':
            X = bn.GaussianARD(np.arange(n).reshape(shape) * .3 - .5 if n > 1 else .3, (np.arange(n).reshape(shape) % 3 + 1.) if n > 1 else 2., ndim=len(shape), shape=shape, plates=P)
            Lam0 = np.diag((np.arange(n) % 3 + 1.) if n > 1 else [2.])
            m0 = np.ravel(np.arange(n) * .3 - .5) if n > 1 else np.array([.3])
        else:
            N, DD = shape
            A = .4 * r.randn(DD, DD)
            X = bn.GaussianMarkovChain(np.arange(DD) + .5, np.diag(np.arange(DD) + 1.), A, np.arange(DD) + 2., n=N, plates=P)
            Lam0 = np.zeros((n, n))
            h = np.zeros(n)
            Lam0[:DD, :DD] += np.diag(np.arange(DD) + 1.)
            h[:DD] += np.diag(np.arange(DD) + 1.) @ (np.arange(DD) + .5)
            Q = np.diag(np.arange(DD) + 2.)
            for t in range(N - 1):
                i, j = slice(t * DD, t * DD + DD), slice(t * DD + DD, t * DD + 2 * DD)
                Lam0[j, j] += Q
                Lam0[i, i] += A.T @ Q @ A
                Lam0[j, i] -= Q @ A
                Lam0[i, j] -= A.T @ Q
            m0 = np.linalg.solve(Lam0, h)
        return X, Lam0, m0
    state = r.get_state()
    X, Lam0, m0 = build()
    full = extra + P + cells
    if recv == 'gaussian':
        L = spd(r, D)
        mk = lambda X: bn.Gaussian(X, L, plates=full)
        H, R = np.eye(D), L
    elif recv == 'ard-shape':
        al = np.arange(D) + 1.
        mk = lambda X: bn.GaussianARD(X, al, ndim=1, plates=full)
        H, R = np.eye(D), np.diag(al)
    elif recv == 'ard':
        mk = lambda X: bn.GaussianARD(X, 1.7, plates=full)
        H, R = np.eye(1), np.array([[1.7]])
    elif recv == 'dot':
        cvec = r.randn(D)
        mk = lambda X: bn.GaussianARD(bn.SumMultiply('i,i', X, cvec), 1.3, plates=full)
        H, R = cvec[None], np.array([[1.3]])
    else:
        mk = lambda X: bn.GaussianARD(bn.Add(X, np.float64(.7)) if not shape else bn.SumMultiply(',', X, 2.), 1.7, plates=full)
        H, R = np.eye(1) * (1 if not shape else 2.), np.array([[1.7]])
    off = .7 if recv == 'add' and not shape else 0.
    vec = recv in ('gaussian', 'ard-shape')
    y = r.randn(*full, *([D] if vec else []))
    ctx.traces = 0
    ms = list(masks_of(full, 'quick'))
    for mask in ms:
        ctx.op()
        ctx.traces += 1
        r.set_state(state)
        X, Lam0, m0 = build()
        try:
            Y = mk(X)
        except Exception as e:
            ctx.fail('construction with a conversion raises', '%s: %s %s' % (case, type(e).__name__, str(e)[:200]))
            return
        Y.observe(y, mask=mask)
        X.update()
        u = X.get_moments()
        lb = X.lower_bound_contribution() + Y.lower_bound_contribution()
        wantlb = 0.
        for p in np.ndindex(*P):
            Lam, h = Lam0.copy(), Lam0 @ m0
            ysum = 0.
            quad = []
            for e in np.ndindex(*extra):
                for c in np.ndindex(*cells):
                    if not mask[e + p + c]:
                        continue
                    k = int(np.ravel_multi_index(c, cells)) if cells else 0
                    w = H.shape[1]
                    G = np.zeros((H.shape[0], n))
                    G[:, k * w:(k + 1) * w] = H
                    yy = np.atleast_1d(y[e + p + c]) - off
                    Lam += G.T @ R @ G
                    h += G.T @ R @ yy
                    quad.append((G, yy))
            C = np.linalg.inv(Lam)
            mean = C @ h
            # log evidence of the observed part
            if quad:
                GG = np.concatenate([g for g, _ in quad])
                yy = np.concatenate([v for _, v in quad])
                Rinv = np.kron(np.eye(len(quad)), np.linalg.inv(R))
                V = GG @ np.linalg.inv(Lam0) @ GG.T + Rinv
                e = yy - GG @ m0
                wantlb += -.5 * (len(yy) * np.log(2 * np.pi) + np.linalg.slogdet(V)[1] + e @ np.linalg.solve(V, e))
            xx = C + np.outer(mean, mean)
            lab = '%s plates %s mask %s' % (case, p, mask.tolist())
            ctx.close(np.broadcast_to(u[0], P + shape)[p].ravel(), mean, 'posterior mean through a conversion', msg=lab)
            if d[0] == 'x':
                ctx.close(np.broadcast_to(u[1], P + shape + shape)[p].reshape(n, n), xx, 'posterior second moment through a conversion', msg=lab)
            else:
                DD = shape[1]
                for t in range(shape[0]):
                    ctx.close(np.broadcast_to(u[1], P + shape + (DD,))[p][t], xx[t * DD:t * DD + DD, t * DD:t * DD + DD], 'posterior second moment through a conversion', msg=lab)
        if mask.any():
            # plates without data do not enter the bound and are at their prior
            if d[0] == 'x' and len(P):
                pass
            ctx.close(lb, wantlb, 'bound through a conversion', rtol=1e-7, atol=1e-7, msg='%s mask %s' % (case, mask.tolist()))
        ctx.state(case, mask.tolist())


# pairs of models: with a conversion / with the required type directly
def equal_models(r):
    y = r.randn(3, 2)
    z = r.randint(2, size=3)

    def diag1():
        a = bn.Gamma(1.5, [.7, 1.2], plates=(2,))
        mu = bn.GaussianARD(0, .5, shape=(2,))
        Y = bn.Gaussian(mu, a.as_diagonal_wishart(), plates=(3,))
        return dict(a=a, mu=mu), dict(Y=(Y, y))

    def diag2():
        a = bn.Gamma(1.5, [.7, 1.2], plates=(2,))
        mu = bn.GaussianARD(0, .5, shape=(2,))
        Y = bn.GaussianARD(mu, a, ndim=1, plates=(3,))
        return dict(a=a, mu=mu), dict(Y=(Y, y))
    yield 'diagonal precision', diag1, diag2

    def beta1():
        p = bn.Beta([1.5, 2.])
        return dict(p=p), dict(Z=(bn.Categorical(p, plates=(3,)), z))

    def beta2():
        p = bn.Dirichlet([1.5, 2.])
        return dict(p=p), dict(Z=(bn.Categorical(p, plates=(3,)), z))
    yield 'beta as dirichlet', beta1, beta2

    def gm1():
        mu = bn.GaussianARD(0, 1, shape=(2,))
        g = bn.Gamma(2., 1.)
        Y = bn.GaussianARD(mu, g, ndim=1, plates=(3,))
        return dict(mu=mu, g=g), dict(Y=(Y, y))

    def gm2():
        mu = bn.GaussianARD(0, 1, shape=(2,))
        g = bn.Gamma(2., 1.)
        # elements of the vector one by one
        Y = bn.GaussianARD(mu, g, plates=(3, 2))
        return dict(mu=mu, g=g), dict(Y=(Y, y))
    yield 'vector as scalars', gm1, gm2

    def mx1():
        z_ = bn.Categorical([.3, .7], plates=(3,))
        mu = bn.GaussianARD(0, 1, shape=(2,), plates=(2,))
        return dict(z=z_, mu=mu), dict(Y=(bn.Mixture(z_, bn.Gaussian, mu, np.diag([1., 2.])), y))

    def mx2():
        z_ = bn.Categorical([.3, .7], plates=(3,))
        mu = bn.GaussianARD(0, 1, shape=(2,), plates=(2,))
        return dict(z=z_, mu=mu), dict(Y=(bn.Mixture(z_, bn.Gaussian, mu, bn.Gamma(1e9 * np.array([1., 2.]), 1e9, plates=(2,)).as_diagonal_wishart()), y))
    yield 'mixture with a diagonal precision', mx1, mx2

    def sc1():
        g = bn.Gamma(2., 1.)
        mu = bn.GaussianARD(0, 1)
        Y = bn.GaussianARD(mu, g, plates=(3, 2))
        return dict(mu=mu, g=g), dict(Y=(Y, y))

    def sc2():
        g = bn.Gamma(2., 1.)
        mu = bn.GaussianARD(0, 1, shape=(1,))
        Y = bn.GaussianARD(mu, g, plates=(3, 2))
        return dict(mu=mu, g=g), dict(Y=(Y, y))
    yield 'scalar as unit vector', sc1, sc2

    def mg1():
        X = bn.GaussianARD(0, 1, shape=(3, 2))
        L = bn.Wishart(3., np.identity(2))
        return dict(X=X, L=L), dict(Y=(bn.Gaussian(X, L), y))

    def mg2():
        X = bn.GaussianARD(0, 1, shape=(2,), plates=(3,))
        L = bn.Wishart(3., np.identity(2))
        return dict(X=X, L=L), dict(Y=(bn.Gaussian(X, L), y))
    yield 'matrix as vectors', mg1, mg2


def f_equal(ctx, case):
    _, name, mask = case
    mask = np.array(mask)
    r = engine.rng('c22e', name)
    models = {k: (a, b) for k, a, b in equal_models(r)}
    a, b = models[name]
    lat = list(a()[0])
    ctx.traces = 0
    for sched in itertools.product(lat, repeat=4 if ctx.tier == 'quick' else 6):
        runs = []
        for build in (a, b):
            nodes, obs = build()
            for Y, y in obs.values():
                Y.observe(y, mask=mask if len(Y.plates) == 1 else np.broadcast_to(mask[:, None], Y.plates))
            if 'z' in nodes:
                nodes['mu'].initialize_from_value(np.array([[-.5, .3], [.6, .2]]))
            trace = []
            for s in sched:
                nodes[s].update()
                ctx.op()
                trace.append(sum(n.lower_bound_contribution() for n in list(nodes.values()) + [Y for Y, _ in obs.values()]))
            runs.append((trace, {k: [np.copy(u) for u in n.get_moments()] for k, n in nodes.items()}))
        ctx.traces += 1
        ctx.close(runs[0][0], runs[1][0], 'bound with a conversion and directly', rtol=1e-8, msg='%s %s %s' % (name, sched, mask.tolist()))
        for k in runs[0][1]:
            u, v = runs[0][1][k][0], runs[1][1][k][0]
            ctx.close(np.ravel(u), np.ravel(np.broadcast_to(v, np.shape(u)) if np.size(v) != np.size(u) else v), 'moments with a conversion and directly', rtol=1e-8, msg='%s %s %s' % (name, k, sched))
        ctx.state(name, sched, mask.tolist())


def cases(tier):
    yield from graph_cases(tier)
    yield from pair_cases(tier)
    for c in CONST:
        for P in PLATES:
            yield ['const', c[0], list(P)]
    yield from wrap_cases(tier)
    yield from dense_cases(tier)
    for name in [k for k, _, _ in equal_models(engine.rng('x'))]:
        for mask in itertools.product((False, True), repeat=3):
            if any(mask):
                yield ['equal', name, list(mask)]


def run(ctx, case):
    dict(graph=f_graph, pair=f_pair, const=f_const, wrap=f_wrap, dense=f_dense, equal=f_equal)[case[0]](ctx, case)
