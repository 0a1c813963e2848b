"""Model templates that can be built either with plates (in any plate layout) or written out element by
element, so that the two can be compared factor by factor.  Used by C05, C06 and C18."""
import itertools
import numpy as np
from bayespy import nodes as bn
from . import zoo, engine


class V:
    def __init__(self, name, parents, make, inner=(), const=None, obs=None, init=None, det=False, obsargs=None):
        """make(p, plates): node from the dict of parents; const(r): array value of one element;
        obs(r): observed value of one element; init(r): initial value of one element; inner: plates of one element"""
        self.name, self.parents, self.make, self.inner = name, parents, make, tuple(inner)
        self.const, self.obs, self.init, self.det = const, obs, init, det


class T:
    """template: list of V in topological order; `layout`: name -> outer shape (tuple) for constants and roots and
    for children with explicit plates (None: inferred)"""

    def __init__(self, fam, vs, axes, layout, salt=()):
        self.fam, self.vs, self.axes, self.layout = fam, vs, tuple(axes), dict(layout)
        self.by = {v.name: v for v in vs}
        self.salt = salt
        # resolve outer shapes
        self.outer = {}
        for v in vs:
            sh = self.layout.get(v.name)
            if sh is None:
                sh = np.broadcast_shapes(*[self.outer[p] for p in v.parents]) if v.parents else ()
            self.outer[v.name] = tuple(sh)

    def full(self, name):
        """does the variable span each axis? tuple of bool"""
        sh = self.outer[name]
        sh = (1,) * (len(self.axes) - len(sh)) + sh
        return tuple(s == n and n > 1 for s, n in zip(sh, self.axes))

    def indices(self, name):
        f = self.full(name)
        return list(itertools.product(*[range(n) if x else (0,) for x, n in zip(f, self.axes)]))

    def restrict(self, name, idx):
        return tuple(i if x else 0 for i, x in zip(idx, self.full(name)))

    def elem(self, kind, name, idx):
        """generic data for one element (depends only on the element, not on the layout)"""
        r = engine.rng('unroll', self.fam, kind, name, idx, *self.salt)
        f = getattr(self.by[name], kind)
        return np.asarray(f(r))

    def stack(self, kind, name, outer=None):
        sh = self.outer[name]
        vals = {i: self.elem(kind, name, i) for i in self.indices(name)}
        e = next(iter(vals.values()))
        out = np.empty(sh + e.shape, dtype=e.dtype)
        for pos in itertools.product(*[range(s) for s in sh]):
            full = (0,) * (len(self.axes) - len(sh)) + pos
            out[pos] = vals[self.restrict(name, full)]
        return out

    # ------------------------------------------------------------------ the two forms
    def plated(self, masks=None, init=True, fill=None, multiplier=None, observe=True):
        n = {}
        for v in self.vs:
            if v.const is not None:
                n[v.name] = self.stack('const', v.name)
                continue
            p = {k: n[k] for k in v.parents}
            explicit = self.layout.get(v.name)
            plates = None if explicit is None else tuple(explicit) + v.inner
            node = v.make(p, plates)
            node.name = v.name
            n[v.name] = node
            if v.init is not None and init:
                node.initialize_from_value(self.stack('init', v.name))
        for v in self.vs:
            if v.obs is not None and observe:
                y = self.stack('obs', v.name)
                m = (masks or {}).get(v.name)
                if m is None:
                    n[v.name].observe(y)
                else:
                    if fill is not None:
                        mm = np.broadcast_to(m, n[v.name].plates)
                        if fill == 'nan':
                            y = y.astype(float)
                            y[~mm] = np.nan
                        elif fill == 'huge':
                            y = y.astype(float)
                            y[~mm] = 1e30
                        elif fill == 'swap':
                            y[~mm] = y[~mm][::-1]
                        elif fill == 'first':
                            y[~mm] = y[tuple(np.argwhere(mm)[0])] if mm.any() else y[~mm]
                    n[v.name].observe(y, mask=m)
        return n

    def unrolled(self, masks=None, init=True, present=None):
        """dict (name, idx) -> node with plates == inner; masked elements (all inner plates masked) are left out, a
        partly masked inner block is observed with its own inner mask"""
        n = {}
        for v in self.vs:
            for idx in self.indices(v.name):
                if v.const is not None:
                    n[v.name, idx] = self.elem('const', v.name, idx)
                    continue
                p = {k: n[k, self.restrict(k, idx)] for k in v.parents if (k, self.restrict(k, idx)) in n}
                if len(p) < len(v.parents):
                    continue
                mask = True
                if v.obs is not None and masks and v.name in masks:
                    mm = np.broadcast_to(np.asarray(masks[v.name]), self.outer[v.name] + v.inner)
                    o = self.outer[v.name]
                    mask = mm[tuple(idx[len(self.axes) - len(o):])]
                    if not np.any(mask):
                        continue
                explicit = self.layout.get(v.name)
                node = v.make(p, None if (explicit is None and v.parents) else v.inner)
                node.name = '%s%s' % (v.name, idx)
                n[v.name, idx] = node
                if v.init is not None and init:
                    node.initialize_from_value(self.elem('init', v.name, idx))
                if v.obs is not None:
                    if np.all(mask):
                        node.observe(self.elem('obs', v.name, idx))
                    else:
                        node.observe(self.elem('obs', v.name, idx), mask=mask)
        return n

    def latent(self):
        return [v.name for v in self.vs if v.const is None and v.obs is None and not v.det]

    def stochastic(self):
        return [v.name for v in self.vs if v.const is None and not v.det]


def compare(ctx, t, P, U, what, sched, rtol=1e-7, atol=1e-8, mult=None, label='', whole=False):
    """updates both forms by the same schedule and compares all factors and bound terms"""
    names = t.stochastic()
    for step in [None] + list(sched):
        if step is not None:
            P[step].update()
            for (k, idx), node in U.items():
                if k == step:
                    node.update()
            ctx.op()
        for k in names:
            if step is not None and k != step:
                continue
            node = P[k]
            o = t.outer[k]
            mom = [np.broadcast_to(u, node.plates + d) for u, d in zip(node.get_moments(), node.dims)]
            for idx in t.indices(k):
                if (k, idx) not in U:
                    continue
                e = U[k, idx]
                pos = tuple(idx[len(t.axes) - len(o):])
                for i, (u, v, d) in enumerate(zip(mom, e.get_moments(), e.dims)):
                    sub = u[pos] if pos else u
                    want = np.broadcast_to(v, e.plates + d)
                    if sub.shape != want.shape:
                        sub = np.broadcast_to(sub, want.shape)
                    if not ctx.close(sub, want, '%s: moments' % what, rtol, atol, '%s%s[%d] after %s %s' % (k, idx, i, step, label)):
                        return False
        tot = 0.0
        utot = 0.0
        for k in names:
            L = float(np.sum(P[k].lower_bound_contribution()))
            M = float(sum(np.sum(nd.lower_bound_contribution()) for (kk, idx), nd in U.items() if kk == k))
            if not ctx.close(L, M, '%s: bound term' % what, 1e-7, 1e-7, '%s after %s %s' % (k, step, label)):
                return False
            if whole:
                L = float(np.sum(P[k].lower_bound_contribution(ignore_masked=False)))
                M = float(sum(np.sum(nd.lower_bound_contribution(ignore_masked=False)) for (kk, idx), nd in U.items() if kk == k))
                if not ctx.close(L, M, '%s: bound term including ignored elements' % what, 1e-7, 1e-7, '%s after %s %s' % (k, step, label)):
                    return False
    return True


# ------------------------------------------------------------------------------------------ templates
def gvec(d):
    return lambda r: r.randn(d)


FAM = {}


def fam(*names):
    """declares a template family: function() -> list of V; names: variables whose layout is enumerated"""
    def deco(f):
        FAM[f.__name__] = (f, names)
        return f
    return deco


def C(name, f):
    return V(name, (), None, const=f)


@fam('mu', 'tau')
def gauss():
    return [V('mu', (), lambda p, pl: bn.GaussianARD(.3, .1, plates=pl)),
            V('tau', (), lambda p, pl: bn.Gamma(1.5, .7, plates=pl)),
            V('Y', ('mu', 'tau'), lambda p, pl: bn.GaussianARD(p['mu'], p['tau'], plates=pl), obs=lambda r: r.randn() + 1)]


@fam('m0', 't0', 'tau')
def gauss_const():
    return [C('m0', lambda r: r.randn()), C('t0', lambda r: r.rand() + .2),
            V('mu', ('m0', 't0'), lambda p, pl: bn.GaussianARD(p['m0'], p['t0'], plates=pl)),
            V('tau', (), lambda p, pl: bn.Gamma(1.5, .7, plates=pl)),
            V('Y', ('mu', 'tau'), lambda p, pl: bn.GaussianARD(p['mu'], p['tau'], plates=pl), obs=lambda r: r.randn() + 1)]


@fam('a', 'b')
def gamma_chain():
    return [C('a', lambda r: r.rand() + .6),
            V('b', (), lambda p, pl: bn.Gamma(1.5, .7, plates=pl)),
            V('tau', ('a', 'b'), lambda p, pl: bn.Gamma(p['a'], p['b'], plates=pl)),
            V('Y', ('tau',), lambda p, pl: bn.GaussianARD(.2, p['tau'], plates=pl), obs=lambda r: r.randn() + 1),
            V('N', ('tau',), lambda p, pl: bn.Poisson(p['tau'], plates=pl), obs=lambda r: r.randint(0, 4))]


def _ard(inner):
    def f():
        return [V('alpha', (), lambda p, pl: bn.Gamma(1.5, .7, plates=pl), inner=inner),
                V('mu', ('alpha',), lambda p, pl: bn.GaussianARD(.3, p['alpha'], shape=(2,), plates=pl)),
                V('tau', (), lambda p, pl: bn.Gamma(1.1, .9, plates=pl), inner=inner),
                V('Y', ('mu', 'tau'), lambda p, pl: bn.GaussianARD(p['mu'], p['tau'], ndim=1, plates=pl), obs=gvec(2))]
    return f


for _n, _i in (('ard_full', (2,)), ('ard_unit', (1,))):
    _f = _ard(_i)
    _f.__name__ = _n
    fam('alpha', 'tau')(_f)


@fam('mu', 'L')
def mvn():
    return [V('mu', (), lambda p, pl: bn.Gaussian(np.array([.2, -.1]), np.array([[.5, .1], [.1, .4]]), plates=pl)),
            V('L', (), lambda p, pl: bn.Wishart(3., np.array([[1., .2], [.2, .8]]), plates=pl)),
            V('Y', ('mu', 'L'), lambda p, pl: bn.Gaussian(p['mu'], p['L'], plates=pl), obs=gvec(2))]


@fam('m0', 'L0', 'n')
def mvn_const():
    return [C('m0', gvec(2)), C('L0', lambda r: zoo.spd(r, 2)), C('n', lambda r: 2.5 + r.rand()),
            V('mu', ('m0', 'L0'), lambda p, pl: bn.Gaussian(p['m0'], p['L0'], plates=pl)),
            V('L', ('n', 'L0'), lambda p, pl: bn.Wishart(p['n'], p['L0'], plates=pl)),
            V('Y', ('mu', 'L'), lambda p, pl: bn.Gaussian(p['mu'], p['L'], plates=pl), obs=gvec(2))]


@fam('al', 'n')
def dirichlet():
    return [C('al', lambda r: r.rand(3) + .4), C('n', lambda r: np.array(4)),
            V('p', ('al',), lambda p, pl: bn.Dirichlet(p['al'], plates=pl)),
            V('Y', ('p', 'n'), lambda p, pl: bn.Multinomial(p['n'], p['p'], plates=pl), obs=lambda r: r.multinomial(4, [.2, .3, .5])),
            V('W', ('p',), lambda p, pl: bn.Categorical(p['p'], plates=pl), obs=lambda r: r.randint(0, 3))]


@fam('al', 'n')
def beta():
    return [C('al', lambda r: r.rand(2) + .4), C('n', lambda r: np.array(r.randint(3, 6))),
            V('p', ('al',), lambda p, pl: bn.Beta(p['al'], plates=pl)),
            V('Y', ('p', 'n'), lambda p, pl: bn.Binomial(p['n'], p['p'], plates=pl), obs=lambda r: r.randint(0, 4)),
            V('W', ('p',), lambda p, pl: bn.Bernoulli(p['p'], plates=pl), obs=lambda r: r.randint(0, 2)),
            ]


def _catlik(K):
    return lambda r: np.array(r.randint(0, K))


@fam('Z', 'mu', 'tau')
def mixture():
    return [V('Z', (), lambda p, pl: bn.Categorical([.3, .7], plates=pl)),
            V('mu', (), lambda p, pl: bn.GaussianARD(.3, .2, plates=pl), inner=(2,), init=gvec(2)),
            V('tau', (), lambda p, pl: bn.Gamma(1.3, .8, plates=pl), inner=(2,)),
            V('Y', ('Z', 'mu', 'tau'), lambda p, pl: bn.Mixture(p['Z'], bn.GaussianARD, p['mu'], p['tau'], plates=pl), obs=lambda r: 2 * r.randn())]


@fam('al', 'P')
def cat_mixture():
    return [V('al', (), lambda p, pl: bn.Dirichlet([.7, 1.2], plates=pl)),
            V('Z', ('al',), lambda p, pl: bn.Categorical(p['al'], plates=pl)),
            V('P', (), lambda p, pl: bn.Dirichlet([.7, 1.2, .9], plates=pl), inner=(2,), init=lambda r: zoo.simplex(r, 3, 2)),
            V('Y', ('Z', 'P'), lambda p, pl: bn.Mixture(p['Z'], bn.Categorical, p['P'], plates=pl), obs=_catlik(3))]


@fam('Cc', 'X', 'tau')
def dot():
    return [V('Cc', (), lambda p, pl: bn.GaussianARD(0, .7, shape=(2,), plates=pl), init=gvec(2)),
            V('X', (), lambda p, pl: bn.GaussianARD(0, 1, shape=(2,), plates=pl)),
            V('tau', (), lambda p, pl: bn.Gamma(1.3, .8, plates=pl)),
            V('F', ('Cc', 'X'), lambda p, pl: bn.Dot(p['Cc'], p['X']), det=True),
            V('Y', ('F', 'tau'), lambda p, pl: bn.GaussianARD(p['F'], p['tau'], plates=pl), obs=lambda r: r.randn())]


@fam('W', 'X', 'b')
def matvec():
    return [V('W', (), lambda p, pl: bn.GaussianARD(0, .7, shape=(2, 2), plates=pl), init=lambda r: r.randn(2, 2)),
            V('X', (), lambda p, pl: bn.GaussianARD(0, 1, shape=(2,), plates=pl)),
            V('b', (), lambda p, pl: bn.GaussianARD(0, 1, shape=(2,), plates=pl)),
            V('F', ('W', 'X', 'b'), lambda p, pl: bn.Add(bn.SumMultiply('ij,j->i', p['W'], p['X']), p['b']), det=True),
            V('tau', (), lambda p, pl: bn.Gamma(1.3, .8, plates=pl), inner=(2,)),
            V('Y', ('F', 'tau'), lambda p, pl: bn.GaussianARD(p['F'], p['tau'], ndim=1, plates=pl), obs=gvec(2))]


@fam('Z', 'X', 'tau')
def gate():
    return [V('Z', (), lambda p, pl: bn.Categorical([.3, .7], plates=pl)),
            V('X', (), lambda p, pl: bn.GaussianARD(.3, .2, plates=pl), inner=(2,), init=gvec(2)),
            V('tau', (), lambda p, pl: bn.Gamma(1.3, .8, plates=pl)),
            V('F', ('Z', 'X'), lambda p, pl: bn.Gate(p['Z'], p['X']), det=True),
            V('Y', ('F', 'tau'), lambda p, pl: bn.GaussianARD(p['F'], p['tau'], plates=pl), obs=lambda r: 2 * r.randn())]


@fam('a', 'Lam', 'b')
def gaussgamma():
    return [C('m', gvec(2)),
            C('a', lambda r: 1.5 + r.rand()),
            C('Lam', lambda r: zoo.spd(r, 2)),
            V('b', (), lambda p, pl: bn.Gamma(2., 1.2, plates=pl)),
            V('X', ('m', 'Lam', 'a', 'b'), lambda p, pl: bn.GaussianGamma(p['m'], p['Lam'], p['a'], p['b'], plates=pl)),
            C('h', gvec(2)),
            V('F', ('X', 'h'), lambda p, pl: bn.SumMultiply('i,i', p['X'], p['h']), det=True),
            V('Y', ('F',), lambda p, pl: bn.GaussianARD(p['F'], .8, plates=pl), obs=lambda r: r.randn())]


@fam('u', 'v', 'L')
def concat_gauss():
    return [V('u', (), lambda p, pl: bn.GaussianARD(.1, .6, shape=(1,), plates=pl)),
            V('v', (), lambda p, pl: bn.Gaussian(np.zeros(2), np.array([[.5, .1], [.1, .4]]), plates=pl)),
            V('L', (), lambda p, pl: bn.Wishart(4., np.eye(3), plates=pl)),
            V('F', ('u', 'v'), lambda p, pl: bn.ConcatGaussian(p['u'], p['v']), det=True),
            V('Y', ('F', 'L'), lambda p, pl: bn.Gaussian(p['F'], p['L'], plates=pl), obs=gvec(3))]


def _hmm(A_inner):
    def f():
        return [V('a0', (), lambda p, pl: bn.Dirichlet([.8, 1.3], plates=pl)),
                V('A', (), lambda p, pl: bn.Dirichlet([.9, .6], plates=pl), inner=A_inner, init=lambda r: zoo.simplex(r, 2, *A_inner)),
                V('Z', ('a0', 'A'), lambda p, pl: bn.CategoricalMarkovChain(p['a0'], p['A'], states=4, plates=pl)),
                V('mu', (), lambda p, pl: bn.GaussianARD(0, .2, plates=(pl[:-1] + (1,) + pl[-1:] if len(pl) > 1 else pl)), inner=(2,), init=None),
                V('Y', ('Z', 'mu'), lambda p, pl: bn.Mixture(p['Z'], bn.GaussianARD, p['mu'], 1.3, plates=pl), inner=(4,), obs=lambda r: 2 * r.randn(4))]
    return f


for _n, _i in (('hmm', (1, 2)), ('hmm_tv', (3, 2))):
    _f = _hmm(_i)
    _f.__name__ = _n
    fam('a0', 'A')(_f)


def _gmc(A_inner, nu_inner):
    def f():
        return [V('x0', (), lambda p, pl: bn.Gaussian(np.array([.2, -.3]), np.eye(2), plates=pl)),
                V('L0', (), lambda p, pl: bn.Wishart(3., np.eye(2), plates=pl)),
                V('A', (), lambda p, pl: bn.GaussianARD(0, 1., shape=(2,), plates=pl), inner=A_inner, init=lambda r: .5 * r.randn(*(A_inner + (2,)))),
                V('nu', (), lambda p, pl: bn.Gamma(1.3, .8, plates=pl), inner=nu_inner),
                V('X', ('x0', 'L0', 'A', 'nu'), lambda p, pl: bn.GaussianMarkovChain(p['x0'], p['L0'], p['A'], p['nu'], n=4, plates=pl)),
                V('F', ('X',), lambda p, pl: bn.SumMultiply('i,i', p['X'], np.array([.7, -.4])), inner=(4,), det=True),
                V('Y', ('F',), lambda p, pl: bn.GaussianARD(p['F'], 2., plates=pl), inner=(4,), obs=lambda r: r.randn(4))]
    return f


for _n, _i, _j in (('gmc', (1, 2), (1, 2)), ('gmc_tv', (3, 2), (3, 2)), ('gmc_mix', (1, 2), (3, 1)), ('gmc_mix2', (3, 1), (1, 2))):
    _f = _gmc(_i, _j)
    _f.__name__ = _n
    fam('x0', 'A', 'nu')(_f)


def shapes(axes):
    """every layout of one variable: (), (1,), (n,), (1,1), ..."""
    out = []
    for k in range(len(axes) + 1):
        for full in itertools.product((0, 1), repeat=k):
            out.append(tuple(axes[len(axes) - k + i] if f else 1 for i, f in enumerate(full)))
    return out
