"""C20: declaration order, identifiers, sharing and deletion do not matter."""
import itertools
import numpy as np
from bayespy import nodes as bn
from bayespy.inference import VB
from . import zoo, engine

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of creation/listing orders and of create/observe/update/delete histories on the real code'
RULE = ('every topological creation order x engine listing order x naming of each model graph, against the canonical order; every history of '
        'length <=d over {create extra child (each kind), observe it, update it, delete it or what it hangs on} against the model in which '
        'the deleted nodes never existed; every pair of models on shared constants / shared variables')
BOUND = dict(quick='10 graphs, all topological orders (<=60 per graph), histories of length 4', thorough='all orders (<=400), histories of length 5')
ASSUMPTIONS = ['comparisons allow rounding (1e-9): sums run over sets of children']
CASE_TIMEOUT = 300


class Spec:
    """nodes: name -> (parents, make(env)); obs: name -> data"""

    def __init__(self, nodes, obs, sched, init=None):
        self.nodes, self.obs, self.sched, self.init = nodes, obs, sched, init or {}

    def orders(self, limit):
        names = list(self.nodes)
        out = []

        def rec(done):
            if len(out) >= limit:
                return
            if len(done) == len(names):
                out.append(tuple(done))
                return
            for n in names[::-1]:
                if n not in done and all(p in done for p in self.nodes[n][0]):
                    rec(done + [n])
        rec([])
        return out

    def build(self, order=None, naming='plain', obs_order=None, observe_early=False):
        env = {}
        order = order or list(self.nodes)
        for i, n in enumerate(order):
            env[n] = self.nodes[n][1](env)
            env[n].name = {'plain': n, 'reversed': 'n%03d' % (999 - i), 'same-length': 'x%d' % i, 'odd': "%s ~ é/'%d" % (n, i)}[naming]
            if observe_early and n in self.obs:
                env[n].observe(self.obs[n])
        if not observe_early:
            for n in (obs_order or self.obs):
                env[n].observe(self.obs[n])
        for n, v in self.init.items():
            env[n].initialize_from_value(v)
        return env


SPECS = {}


def spec(f):
    SPECS[f.__name__] = f
    return f


@spec
def two_children(r):
    y1, y2 = r.randn(3), r.randn(2)
    return Spec(dict(
        mu=((), lambda e: bn.GaussianARD(.3, .1)),
        tau=((), lambda e: bn.Gamma(1.5, .7)),
        Y=(('mu', 'tau'), lambda e: bn.GaussianARD(e['mu'], e['tau'], plates=(3,))),
        W=(('mu',), lambda e: bn.GaussianARD(e['mu'], 2., plates=(2,))),
        N=(('tau',), lambda e: bn.Poisson(e['tau']))),
        dict(Y=y1, W=y2, N=3), ['mu', 'tau', 'mu', 'tau'])


@spec
def gmm(r):
    y = 2 * r.randn(3, 2)
    return Spec(dict(
        alpha=((), lambda e: bn.Dirichlet([.5, .8])),
        Z=(('alpha',), lambda e: bn.Categorical(e['alpha'], plates=(3,))),
        mu=((), lambda e: bn.Gaussian(np.zeros(2), .1 * np.eye(2), plates=(2,))),
        L=((), lambda e: bn.Wishart(3, np.eye(2), plates=(2,))),
        Y=(('Z', 'mu', 'L'), lambda e: bn.Mixture(e['Z'], bn.Gaussian, e['mu'], e['L']))),
        dict(Y=y), ['Z', 'mu', 'L', 'alpha'] * 2, dict(mu=r.randn(2, 2)))


@spec
def pca(r):
    y = r.randn(2, 3)
    x0 = r.randn(1, 3, 2)
    return Spec(dict(
        X=((), lambda e: bn.GaussianARD(0, 1, shape=(2,), plates=(1, 3))),
        alpha=((), lambda e: bn.Gamma(.5, .5, plates=(2,))),
        C=(('alpha',), lambda e: bn.GaussianARD(0, e['alpha'], shape=(2,), plates=(2, 1))),
        tau=((), lambda e: bn.Gamma(.5, .5)),
        F=(('C', 'X'), lambda e: bn.Dot(e['C'], e['X'])),
        Y=(('F', 'tau'), lambda e: bn.GaussianARD(e['F'], e['tau']))),
        dict(Y=y), ['C', 'X', 'alpha', 'tau'] * 2, dict(X=x0))


@spec
def hmm(r):
    y = r.randn(3)
    return Spec(dict(
        a0=((), lambda e: bn.Dirichlet([.8, .6])),
        A=((), lambda e: bn.Dirichlet([[.9, .7], [.5, 1.2]])),
        Z=(('a0', 'A'), lambda e: bn.CategoricalMarkovChain(e['a0'], e['A'], states=3)),
        mu=((), lambda e: bn.GaussianARD(0, .2, plates=(2,))),
        tau=((), lambda e: bn.Gamma(1, 1)),
        Y=(('Z', 'mu', 'tau'), lambda e: bn.Mixture(e['Z'], bn.GaussianARD, e['mu'], e['tau']))),
        dict(Y=y), ['Z', 'mu', 'tau', 'A', 'a0'] * 2, dict(mu=np.array([-.5, .9])))


@spec
def lssm(r):
    y = r.randn(2, 3)
    c0, A0 = r.randn(2, 1, 2), r.randn(2, 2) * .5
    return Spec(dict(
        al=((), lambda e: bn.Gamma(1., 1., plates=(2,))),
        A=(('al',), lambda e: bn.GaussianARD(0, e['al'], shape=(2,), plates=(2,))),
        nu=((), lambda e: bn.Gamma(1., 1., plates=(2,))),
        X=(('A', 'nu'), lambda e: bn.GaussianMarkovChain(np.zeros(2), np.eye(2), e['A'], e['nu'], n=3)),
        C=((), lambda e: bn.GaussianARD(0, 1, shape=(2,), plates=(2, 1))),
        F=(('C', 'X'), lambda e: bn.Dot(e['C'], e['X'])),
        Y=(('F',), lambda e: bn.GaussianARD(e['F'], 2.))),
        dict(Y=y), ['X', 'C', 'A', 'al', 'nu'] * 2, dict(C=c0, A=A0))


@spec
def slices(r):
    y, w, v = r.randn(4), r.randn(2), r.randn(3, 2)
    return Spec(dict(
        X=((), lambda e: bn.GaussianARD(.2, .5, plates=(3, 2))),
        U=((), lambda e: bn.GaussianARD(0., .3, plates=(1,))),
        C=(('X', 'U'), lambda e: bn.Concatenate(e['X'][::-1, 0], e['U'])),
        Y=(('C',), lambda e: bn.GaussianARD(bn.Take(e['C'], np.array([3, 0, 0, 1])), 1.2)),
        W=(('X',), lambda e: bn.GaussianARD(e['X'][1, :], .9)),
        V=(('X',), lambda e: bn.GaussianARD(e['X'], .9))),
        dict(Y=y, W=w, V=v), ['X', 'U', 'X', 'U'])


@spec
def gates(r):
    y, w = r.randn(3), np.array([1, 0, 1])
    return Spec(dict(
        Z=((), lambda e: bn.Categorical([.3, .7], plates=(3,))),
        X=((), lambda e: bn.GaussianARD(.2, .5, plates=(2,))),
        p=((), lambda e: bn.Beta([1., 2.], plates=(2,))),
        G=(('Z', 'X'), lambda e: bn.Gate(e['Z'], e['X'])),
        Y=(('G',), lambda e: bn.GaussianARD(e['G'], 1.3)),
        B=(('Z', 'p'), lambda e: bn.Mixture(e['Z'], bn.Bernoulli, e['p']))),
        dict(Y=y, B=w), ['Z', 'X', 'p'] * 2, dict(X=r.randn(2)))


@spec
def add_terms(r):
    y = r.randn(3)
    H = r.randn(3, 2)
    return Spec(dict(
        w=((), lambda e: bn.GaussianARD(0, .5, shape=(2,))),
        b=((), lambda e: bn.GaussianARD(0, .5)),
        c=((), lambda e: bn.GaussianARD(0, .5, plates=(3,))),
        tau=((), lambda e: bn.Gamma(1, 1)),
        Y=(('w', 'b', 'c', 'tau'), lambda e: bn.GaussianARD(bn.Add(bn.SumMultiply('i,i', e['w'], H), e['b'], e['c']), e['tau'])),
        D=(('b',), lambda e: bn.GaussianARD(e['b'], 1.))),
        dict(Y=y, D=.4), ['w', 'b', 'c', 'tau'] * 2)


@spec
def topics(r):
    return Spec(dict(
        th=((), lambda e: bn.Dirichlet([.6, .9], plates=(2,))),
        ph=((), lambda e: bn.Dirichlet([.5, .6, .7], plates=(2,))),
        Z=(('th',), lambda e: bn.Categorical(e['th'], plates=(2,))),
        Y=(('Z', 'ph'), lambda e: bn.Categorical(bn.Gate(e['Z'], e['ph']))),
        M=(('ph',), lambda e: bn.Multinomial(3, e['ph']))),
        dict(Y=np.array([2, 0]), M=np.array([[1, 1, 1], [0, 3, 0]])), ['Z', 'ph', 'th'] * 2)


@spec
def poisson_chain(r):
    return Spec(dict(
        c=((), lambda e: bn.Gamma(1., 1.)),
        b=(('c',), lambda e: bn.Gamma(2., e['c'])),
        lam=(('b',), lambda e: bn.Gamma(1.3, e['b'], plates=(3,))),
        Y=(('lam',), lambda e: bn.Poisson(e['lam'])),
        W=(('lam',), lambda e: bn.GaussianARD(.2, e['lam']))),
        dict(Y=np.array([2, 0, 5]), W=r.randn(3)), ['lam', 'b', 'c'] * 2)


def get(which):
    return SPECS[which](engine.rng('c20', which))


def cases(tier):
    lim = 60 if tier == 'quick' else 400
    for w in SPECS:
        n = len(get(w).orders(lim))
        for i in range(n):
            yield ['order', w, i, lim]
        yield ['listing', w]
    d = 4 if tier == 'quick' else 5
    for kind in DEL:
        for op in range(len(OPS)):
            for op2 in range(len(OPS)):
                yield ['delete', kind, d, op, op2]
    for kind in DEL2:
        for op in range(len(OPS)):
            yield ['delete', kind, d, 0, op]
    for w in list(DEEP):
        yield ['deep', w]
    for name in zoo.ZOO:
        yield ['shared', name]
        yield ['twice', name]
        yield ['barren', name]


def bound(env):
    return float(sum(np.sum(n.lower_bound_contribution()) for n in env.values()))


def fullmom(n):
    return [np.broadcast_to(u, n.plates + d).copy() for u, d in zip(n.get_moments(), n.dims)]


def trace(sp, env, vb=None):
    out = [('bound', bound(env))]
    for k in sp.sched:
        env[k].update()
        out.append(('bound', bound(env)))
    for k in sp.nodes:
        out += [('moments of ' + k, u) for u in fullmom(env[k])]
    return out


def compare(ctx, a, b, what, tol=1e-9):
    for (na, x), (nb, y) in zip(a, b):
        if not ctx.close(x, y, what + ': ' + na, tol, tol):
            return


def run(ctx, case):
    globals()['f_' + case[0]](ctx, case)


def f_order(ctx, case):
    _, w, i, lim = case
    sp = get(w)
    order = sp.orders(lim)[i]
    a = trace(sp, sp.build())
    ctx.traces = 0
    for naming, early in (('plain', False), ('reversed', True), ('odd', False)):
        env = sp.build(order, naming, obs_order=list(sp.obs)[::-1], observe_early=early)
        b = trace(sp, env)
        ctx.op(len(order) + len(sp.sched))
        ctx.traces += 1
        compare(ctx, b, a, 'creation order', 1e-8)
        ctx.state(w, order, naming)


def f_listing(ctx, case):
    _, w = case
    sp = get(w)
    names = list(sp.nodes)
    ref = None
    perms = list(itertools.permutations(names)) if len(names) <= 5 else [names[i:] + names[:i] for i in range(len(names))] + [(names[i:] + names[:i])[::-1] for i in range(len(names))]
    ctx.traces = 0
    for p in perms:
        env = sp.build()
        vb = VB(*[env[k] for k in p])
        vb.update(*sp.sched, repeat=2, tol=-np.inf, verbose=False)
        out = [('L', np.array(vb.L[:2])), ('bound', vb.compute_lowerbound())] + [('terms of ' + k, np.array(vb.l[env[k]][:2])) for k in names]
        for k in names:
            out += [('moments of ' + k, u) for u in fullmom(env[k])]
        ctx.op(2 * len(sp.sched))
        ctx.traces += 1
        if ref is None:
            ref = out
        else:
            compare(ctx, out, ref, 'listing order', 1e-8)
        ctx.state(w, p)


# ---------------------------------------------------------------------------------- deletion
def mk_child(kind, e, slot):
    """extra children; returns (list of new nodes, top), the node to observe, its data"""
    if kind == 'gauss':
        c = bn.GaussianARD(e['mu'], e['tau'], plates=(2,))
        return [c], c, np.array([1.5, -3.]) + slot
    if kind == 'dot':
        d = bn.SumMultiply(',', e['mu'], np.array([2., 1.]))
        c = bn.GaussianARD(d, 1.3)
        return [d, c], c, np.array([.5, 4.]) + slot
    if kind == 'hier':
        x = bn.GaussianARD(e['mu'], 1., plates=(2,))
        c = bn.GaussianARD(x, e['tau'])
        return [x, c], c, np.array([.5, 4.]) + slot
    if kind == 'slice':
        d = e['X'][1:]
        c = bn.GaussianARD(d, 1.3)
        return [d, c], c, np.array([.5, 4.]) + slot
    if kind == 'diamond':
        a = bn.GaussianARD(e['mu'], 1.)
        b = bn.GaussianARD(e['mu'], 2.)
        c = bn.GaussianARD(bn.Add(a, b), e['tau'])
        return [a, b, c], c, 2.5 + slot
    if kind == 'poisson':
        c = bn.Poisson(e['tau'], plates=(2,))
        return [c], c, np.array([4, 1 + slot])
    if kind == 'concat':
        d = bn.Concatenate(e['X'], e['X2'])
        c = bn.GaussianARD(d, e['tau'])
        return [d, c], c, np.arange(5.) + slot
    if kind == 'mixture':
        c = bn.Mixture(e['Z'], bn.GaussianARD, e['X'][:2], e['tau'])
        return [c], c, np.array([.3, -2., 1.]) + slot
    if kind.startswith('on '):           # a further child of a deterministic node which has (or not) other children
        d = e[kind[3:]]
        c = bn.GaussianARD(d, 1.3)
        return [c], c, np.linspace(.5, 4., int(np.prod(d.plates))).reshape(d.plates) + slot
    if kind.startswith('under '):        # and of one more deterministic node below it
        d = e[kind[6:]]
        s = bn.SumMultiply(',', d, 2.)
        c = bn.GaussianARD(s, 1.3)
        return [s, c], c, np.linspace(.5, 4., int(np.prod(d.plates))).reshape(d.plates) + slot
    raise ValueError(kind)


DETS = dict(
    dot=lambda e: bn.SumMultiply(',', e['mu'], np.array([2., 1.])),
    slice=lambda e: e['X'][1:],
    take=lambda e: bn.Take(e['X'], np.array([2, 0, 0])),
    gate=lambda e: bn.Gate(e['Z'], e['X2']),
    concat=lambda e: bn.Concatenate(e['X'], e['X2']),
    add=lambda e: bn.Add(e['mu'], e['X']),
    nested=lambda e: bn.Add(e['slice_b'][::-1], e['X2']),
)


def with_dets(e, observed=True):
    """deterministic nodes without children (name) and with an observed child (name_b)"""
    for k, f in DETS.items():
        for sfx in ('', '_b'):
            d = e[k + sfx] = f(e)
            if sfx:
                c = bn.GaussianARD(d, .8)
                c.observe(np.linspace(-1., 1.5, int(np.prod(d.plates))).reshape(d.plates))
                e['child of ' + k] = c
    return e


DEL = ('gauss', 'dot', 'hier', 'slice', 'diamond', 'poisson', 'concat', 'mixture')
DEL2 = tuple('%s %s%s' % (a, k, b) for a in ('on', 'under') for k in DETS for b in ('', '_b'))
# c<slot>: create; o: observe; u: update child; d0: delete the first new node (with everything below); dl: delete the last
OPS = ['c0', 'c1', 'o0', 'o1', 'd0', 'd1', 'l0', 'U']


def base(r, dets=False):
    e = {}
    e['mu'] = bn.GaussianARD(.3, .1)
    e['tau'] = bn.Gamma(1.5, .7)
    e['X'] = bn.GaussianARD(.1, 1., plates=(3,))
    e['X2'] = bn.GaussianARD(.1, 1., plates=(2,))
    e['Z'] = bn.Categorical([.4, .6], plates=(3,))
    e['free'] = bn.GaussianARD(e['mu'], 1.)        # a latent leaf
    e['Y'] = bn.GaussianARD(e['mu'], e['tau'], plates=(3,))
    e['Y'].observe(r.randn(3))
    e['W'] = bn.GaussianARD(e['X'], 2.)
    e['W'].observe(r.randn(3), mask=[True, False, True])
    if dets:
        with_dets(e)
    return e


LAT = ('mu', 'tau', 'X', 'X2', 'Z', 'free')


def finish(e, reset):
    out = []
    if reset:
        for k in LAT:
            e[k].initialize_from_prior()
    out.append(('bound', bound(e)))
    for k in LAT * 2:
        e[k].update()
        out.append(('bound', bound(e)))
    for k in LAT:
        out += [('moments of ' + k, u) for u in fullmom(e[k])]
        out.append(('mask of ' + k, np.broadcast_to(e[k].get_mask(), e[k].plates) + 0.))
    return out


def f_delete(ctx, case):
    _, kind, d, o1, o2 = case
    ctx.traces = 0
    for tail in itertools.product(range(len(OPS)), repeat=d - 2):
        seq = [OPS[i] for i in (o1, o2) + tail]
        # only meaningful sequences: create before use, each slot created at most twice
        ok, live, part = True, set(), set()
        for s in seq:
            if s[0] == 'U':
                continue
            k = s[1]
            if s[0] == 'c':
                ok &= k not in live
                live.add(k)
                part.discard(k)
            elif s[0] == 'l':
                ok &= k in live and k not in part
                part.add(k)
            else:
                ok &= k in live and (s[0] == 'd' or k not in part)
                if s[0] == 'd':
                    live.discard(k)
        if not ok:
            continue
        e = base(engine.rng('c20', 'base'), kind in DEL2)
        slots = {}
        updated = False
        for s in seq:
            ctx.op()
            if s == 'U':
                for k in LAT:
                    e[k].update()
                updated = True
                continue
            k = s[1]
            if s[0] == 'c':
                slots[k] = mk_child(kind, e, int(k))
            elif s[0] == 'o':
                slots[k][1].observe(slots[k][2])
            elif s[0] == 'd':
                slots.pop(k)[0][0].delete() if kind != 'diamond' else [x.delete() for x in slots.pop(k)[0][:2]]
            elif s[0] == 'l':
                slots[k][1].delete()
                slots[k] = (slots[k][0], slots[k][1], None)
        # delete what is left
        for k in list(slots):
            nodes, top, data = slots[k]
            if data is not None:
                top.delete()
            for x in nodes[:-1][::-1]:
                x.delete()
        ref = base(engine.rng('c20', 'base'), kind in DEL2)
        if not updated:
            compare(ctx, finish(e, False), finish(ref, False), 'deleted nodes leave a trace')
        else:
            compare(ctx, finish(e, True), finish(ref, True), 'deleted nodes leave a trace')
        ctx.traces += 1
        ctx.state(kind, seq)
    ctx.ok(True, 'done')


DEEP = dict(
    chain=lambda e: [bn.GaussianARD(e['mu'], 1.)],
    )


def f_deep(ctx, case):
    """deleting an inner node removes everything below, at every depth"""
    ctx.traces = 0
    for depth in range(1, 5):
        for at in range(depth):
            for width in (1, 2):
                e = base(engine.rng('c20', 'base'))
                levels = []
                cur = [e['mu']]
                for l in range(depth):
                    new = [bn.GaussianARD(p, 1. + l) for p in cur for _ in range(width)]
                    levels.append(new)
                    cur = new
                for x in levels[-1]:
                    x.observe(2.2)
                for k in LAT:
                    e[k].update()
                # delete all nodes on level `at`, then nothing but level < at remains
                for x in levels[at]:
                    x.delete()
                ref = base(engine.rng('c20', 'base'))
                rl = []
                cur = [ref['mu']]
                for l in range(at):
                    new = [bn.GaussianARD(p, 1. + l) for p in cur for _ in range(width)]
                    rl.append(new)
                    cur = new
                compare(ctx, finish(e, True), finish(ref, True), 'deep deletion')
                for a, b in zip(levels[:at], rl):
                    for x, y in zip(a, b):
                        x.initialize_from_prior(); y.initialize_from_prior()
                        x.update(); y.update()
                        ctx.close(fullmom(x)[0], fullmom(y)[0], 'remaining descendants')
                        ctx.close(x.lower_bound_contribution(), y.lower_bound_contribution(), 'bound of remaining descendants')
                # the deleted part no longer sees or influences anything, but can be read
                ctx.traces += 1
                ctx.op(depth)
                ctx.state(depth, at, width)


# ---------------------------------------------------------------------------------- sharing
def zoo_trace(m, n=2):
    out = [m.bound()]
    for i in range(n):
        for k in m.latent:
            m.n[k].update()
            out.append(m.bound())
    return out + [u for k in m.n for u in fullmom(m.n[k])]


def f_twice(ctx, case):
    """two copies of a model in one process, interleaved, do not see each other"""
    name = case[1]
    a = zoo_trace(zoo.build(name, init='params'))
    m1 = zoo.build(name, init='params')
    m2 = zoo.build(name, init='params', salt=('other',))
    out = [m1.bound()]
    for i in range(2):
        for k in m1.latent:
            m1.n[k].update()
            m2.n[k].update()
            m2.bound()
            out.append(m1.bound())
            ctx.op(2)
    out += [u for k in m1.n for u in fullmom(m1.n[k])]
    for x, y in zip(out, a):
        ctx.close(x, y, 'an independent model changes the results', 1e-10, 1e-10)
    ctx.state(name)


def tops(m):
    """all nodes that can get extra children of some kind"""
    out = []
    for k, n in m.n.items():
        try:
            probe(n)
        except Exception:
            continue
        out.append(k)
    return out


def probe(n):
    """children that take no data"""
    kids = []
    for f in (lambda: bn.GaussianARD(n, 1.), lambda: bn.GaussianARD(n, 1., ndim=1), lambda: bn.Gamma(1., n), lambda: bn.Poisson(n), lambda: bn.Categorical(n), lambda: bn.Bernoulli(n),
              lambda: bn.Gaussian(np.zeros(2), n), lambda: bn.Mixture(n, bn.Poisson, np.array([1., 2.]))):
        try:
            kids.append(f())
        except Exception:
            pass
    if not kids:
        raise ValueError
    return kids


def f_barren(ctx, case):
    """children without data never influence anything (even when they are updated)"""
    name = case[1]
    a = zoo_trace(zoo.build(name, init='params'))
    m = zoo.build(name, init='params')
    kids = []
    for k in list(m.n):
        if m.n[k].name == 'alpha' and name == 'concentration':
            continue
        try:
            kids += probe(m.n[k])
        except ValueError:
            pass
    ctx.ok(True, 'children', len(kids))
    out = [m.bound()]
    for i in range(2):
        for k in m.latent:
            for c in kids:
                c.update()
            m.n[k].update()
            out.append(m.bound())
            ctx.op(1 + len(kids))
    out += [u for k in m.n for u in fullmom(m.n[k])]
    for x, y in zip(out, a):
        ctx.close(x, y, 'children without data change the results', 1e-9, 1e-9)
    for c in kids:
        ctx.close(c.lower_bound_contribution(), 0.0, 'a child without data adds nothing to the bound')
        c.delete()
    out = zoo_trace(m, 1)
    ref = zoo.build(name, init='params')
    zoo_trace(ref)
    for x, y in zip(out, zoo_trace(ref, 1)):
        ctx.close(x, y, 'after deleting the children', 1e-8, 1e-8)
    ctx.state(name, len(kids))


def f_shared(ctx, case):
    """arrays given by the user are not modified; a model built on the same arrays is unaffected"""
    name = case[1]
    kept = []
    real = np.asarray

    class R(np.random.RandomState):
        def randn(self, *a):
            x = super().randn(*a)
            if isinstance(x, np.ndarray):
                kept.append((x, x.copy()))
            return x

        def rand(self, *a):
            x = super().rand(*a)
            if isinstance(x, np.ndarray):
                kept.append((x, x.copy()))
            return x
    r = R(7)
    m = zoo.ZOO[name](r, {})
    m.name = name
    for k, v in m.extra.get('init', {}).items():
        if k in m.latent:
            m.n[k].initialize_from_value(v)
    for k in list(m.obs):
        for x in m.obs[k][0]:
            if isinstance(x, np.ndarray):
                kept.append((x, x.copy()))
    before = [fullmom(n) for n in m.n.values()]
    zoo_trace(m)
    for k in m.latent:
        for x in m.extra.get('initp', {}).get(k, ()):
            if isinstance(x, np.ndarray):
                kept.append((x, x.copy()))
        if k in m.extra.get('initp', {}):
            m.n[k].initialize_from_parameters(*m.extra['initp'][k])
    zoo_trace(m, 1)
    ctx.op(3)
    for x, y in kept:
        ctx.ok(np.array_equal(x, y), 'an array of the user was modified')
    ctx.ok(True, 'arrays', len(kept))
    ctx.state(name)
