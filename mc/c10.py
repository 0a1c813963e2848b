"""C10: indexing, taking, concatenating, gating plate axes and tiling nodes act like array operations."""
import itertools
import numpy as np
from bayespy import nodes as bn
from bayespy.inference.vmp.nodes.deterministic import tile
from . import engine, zoo

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of index/take/concatenate expressions and masks against numpy indexing and directly connected models'
RULE = ('every basic index expression (ints, slices, newaxis, ellipsis) of an alphabet on 1-3 plate axes, every take index array up to a size, '
        'every concatenation of 1-3 blocks, every tiling up to three axes, compositions and pairs of views x node kinds x missing-data masks: plates, moments, '
        'posterior of the source after an update and bound equal those of the model whose elements are connected one by one')
BOUND = dict(quick='axes of length 3 and 2 (and 1), all index pairs x newaxis/ellipsis positions; all 2^n masks (n<=3), single missing and single present elements beyond that, for scalar Gaussians',
             thorough='all 2^n masks (n<=6), larger slice alphabet, three axes, all pairs of views, all kinds for every mask')
ASSUMPTIONS = ['generic parameter values; the sources have independent elements']
CASE_TIMEOUT = 300


# ------------------------------------------------------------------------------------------ node kinds
def _ard(r, sh):
    return dict(m=r.randn(*sh), a=r.rand(*sh) + .5)


KINDS = {
    'ard': dict(par=lambda r, sh: (r.randn(*sh), r.rand(*sh) + .5),
                make=lambda p, pl: bn.GaussianARD(p[0], p[1], plates=pl),
                child=lambda x, i: bn.GaussianARD(x, 1.3), obs=lambda r, sh: r.randn(*sh)),
    'vec': dict(par=lambda r, sh: (r.randn(*sh, 2), zoo.spd(r, 2, *sh)),
                make=lambda p, pl: bn.Gaussian(p[0], p[1], plates=pl),
                child=lambda x, i: bn.Gaussian(x, np.array([[1.2, .3], [.3, .9]])), obs=lambda r, sh: r.randn(*sh, 2)),
    'gamma': dict(par=lambda r, sh: (r.rand(*sh) + .6, r.rand(*sh) + .5),
                  make=lambda p, pl: bn.Gamma(p[0], p[1], plates=pl),
                  child=lambda x, i: bn.GaussianARD(.2, x), obs=lambda r, sh: r.randn(*sh)),
    'dir': dict(par=lambda r, sh: (r.rand(*sh, 3) + .4,),
                make=lambda p, pl: bn.Dirichlet(p[0], plates=pl),
                child=lambda x, i: bn.Categorical(x), obs=lambda r, sh: r.randint(0, 3, size=sh)),
    'beta': dict(par=lambda r, sh: (r.rand(*sh, 2) + .4,),
                 make=lambda p, pl: bn.Beta(p[0], plates=pl),
                 child=lambda x, i: bn.Bernoulli(x), obs=lambda r, sh: r.randint(0, 2, size=sh)),
    'wish': dict(par=lambda r, sh: (r.rand(*sh) + 2.2, zoo.spd(r, 2, *sh)),
                 make=lambda p, pl: bn.Wishart(p[0], p[1], plates=pl),
                 child=lambda x, i: bn.Gaussian(np.array([.3, -.2]), x), obs=lambda r, sh: r.randn(*sh, 2)),
    'cat': dict(par=lambda r, sh: (zoo.simplex(r, 3, *sh),),
                make=lambda p, pl: bn.Categorical(p[0], plates=pl),
                child=lambda x, i: bn.Mixture(x, bn.GaussianARD, [-1., .3, 1.], [1., 2., .7]), obs=lambda r, sh: r.randn(*sh)),
    'mat': dict(par=lambda r, sh: (r.randn(*sh, 2, 3), r.rand(*sh, 2, 3) + .5),
                make=lambda p, pl: bn.GaussianARD(p[0], p[1], shape=(2, 3), plates=pl),
                child=lambda x, i: bn.GaussianARD(x, 1.3, ndim=2), obs=lambda r, sh: r.randn(*sh, 2, 3)),
}
NPAR = {'ard': (0, 0), 'vec': (1, 2), 'gamma': (0, 0), 'dir': (1,), 'beta': (1,), 'wish': (0, 2), 'cat': (1,), 'mat': (2, 2)}


# ------------------------------------------------------------------------------------------ alphabets
def idx_alphabet(n, tier):
    A = list(range(n)) + [-1, -n] + [['s', None, None, None], ['s', None, None, -1]]
    if n >= 2:
        A += [['s', 1, None, None], ['s', None, -1, None], ['s', None, None, 2]]
    if n >= 3:
        A += [['s', 2, 0, -1], ['s', -2, None, -1], ['s', None, None, -2], ['s', 1, 2, None]]
    if tier == 'thorough':
        for a in [None] + list(range(-n - 1, n + 2)):
            for b in [None] + list(range(-n - 1, n + 2)):
                for c in (None, 2, -1, -2, 3):
                    if len(range(n)[slice(a, b, c)]):
                        A.append(['s', a, b, c])
    out = []
    for a in A:
        if a not in out:
            out.append(a)
    return out


def dec(e):
    if isinstance(e, list):
        return slice(*e[1:])
    return {'N': None, 'E': Ellipsis}.get(e, e) if isinstance(e, str) else e


def decs(es, single=False):
    t = tuple(dec(e) for e in es)
    return t[0] if single else t


def slices(shape, tier):
    """index tuples for the given plates"""
    alph = [idx_alphabet(n, tier if len(shape) < 2 else 'quick') for n in shape]
    seen = set()

    def emit(t):
        k = repr(t)
        if k not in seen:
            seen.add(k)
            yield list(t)
    for full in itertools.product(*alph):
        full = list(full)
        yield from emit(full)
        for k in range(len(full) + 1):
            yield from emit(full[:k] + ['N'] + full[k:])
        if tier == 'thorough':
            for k in range(len(full) + 1):
                for j in range(k + 1, len(full) + 2):
                    a = full[:k] + ['N'] + full[k:]
                    yield from emit(a[:j] + ['N'] + a[j:])
    for m in range(len(shape)):
        for lead in itertools.product(*alph[:m]):
            lead = list(lead)
            yield from emit(lead)
            yield from emit(lead + ['E'])
            yield from emit(['N'] + lead + ['E'])
            yield from emit(lead + ['N', 'E'])
            yield from emit(lead + ['E', 'N'])
            if m:
                for cut in range(m):
                    yield from emit(lead[:cut] + ['E', 'E'] + lead[cut:]) if False else iter(())
        for tail in itertools.product(*alph[len(shape) - m:]):
            tail = list(tail)
            yield from emit(['E'] + tail)
            yield from emit(['N', 'E'] + tail)
            yield from emit(['E', 'N'] + tail)
            yield from emit(['E'] + tail + ['N'])
    if len(shape) >= 2:
        for a in alph[0]:
            for b in alph[-1]:
                yield from emit([a, 'E', b])


def takes(n, tier):
    out = [0, -1]
    for L in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        out += [list(t) for t in itertools.product(range(n), repeat=L)]
    out += [[-1, 0], [-n, -1, 0]]
    for t in itertools.product(range(n), repeat=4):
        if t[0] <= t[3] and (tier == 'thorough' or t[1] != t[2]):
            out.append([[t[0], t[1]], [t[2], t[3]]])
    out.append([[0], [n - 1]])
    out.append([[0, n - 1, 0]])
    return out


# ------------------------------------------------------------------------------------------ expressions
def apply_node(e, srcs):
    op = e[0]
    if op == 'src':
        return srcs[e[1]]
    if op == 'idx':
        x = apply_node(e[1], srcs)
        es = e[2]
        return x[decs(es, single=(len(es) == 1))]
    if op == 'take':
        return bn.Take(apply_node(e[1], srcs), np.array(e[2], dtype=int), plate_axis=e[3])
    if op == 'axis':
        return apply_node(e[1], srcs).add_plate_axis(e[2])
    if op == 'cat':
        return bn.Concatenate(*[apply_node(x, srcs) for x in e[2]], axis=e[1])
    if op == 'tile':
        return tile(apply_node(e[1], srcs), e[2] if isinstance(e[2], int) else tuple(e[2]))
    raise KeyError(op)


def apply_ids(e, ids):
    op = e[0]
    if op == 'src':
        return ids[e[1]]
    if op == 'idx':
        x = apply_ids(e[1], ids)
        es = e[2]
        return x[decs(es, single=(len(es) == 1))]
    if op == 'take':
        return np.take(apply_ids(e[1], ids), np.array(e[2], dtype=int), axis=e[3])
    if op == 'axis':
        x = apply_ids(e[1], ids)
        return np.expand_dims(x, e[2])
    if op == 'tile':
        return np.tile(apply_ids(e[1], ids), e[2])
    if op == 'cat':
        parts = [apply_ids(x, ids) for x in e[2]]
        ax = e[1]
        nd = max(p.ndim for p in parts)
        parts = [p.reshape((1,) * (nd - p.ndim) + p.shape) for p in parts]
        sh = np.broadcast_shapes(*[tuple(1 if i == nd + ax else s for i, s in enumerate(p.shape)) for p in parts])
        parts = [np.broadcast_to(p, tuple(p.shape[i] if i == nd + ax else s for i, s in enumerate(sh))) for p in parts]
        return np.concatenate(parts, axis=ax)
    raise KeyError(op)


class Model:
    """sources with given plates, views, observed children; and the element-wise counterpart"""

    def __init__(self, ctx, kind, shapes, prior, salt):
        self.ctx, self.kind, self.K = ctx, kind, KINDS[kind]
        self.shapes = shapes
        r = engine.rng('c10', kind, shapes, prior, salt)
        self.src, self.elem, self.ids = [], [], []
        n = 0
        for s, sh in enumerate(shapes):
            psh = {'full': sh, 'none': (), 'bc': tuple(1 for _ in sh)}[prior]
            par = self.K['par'](r, psh)
            self.src.append(self.K['make'](par, sh))
            self.ids.append(np.arange(n, n + int(np.prod(sh))).reshape(sh))
            for pos in itertools.product(*[range(k) for k in sh]):
                pe = []
                for p, nd in zip(par, NPAR[kind]):
                    full = np.broadcast_to(p, sh + np.shape(p)[len(psh):])
                    pe.append(full[pos])
                self.elem.append(self.K['make'](pe, ()))
            n += int(np.prod(sh))
        self.views = []
        self.r = r

    def moments(self, node):
        return [np.array(np.broadcast_to(u, node.plates + d)) for u, d in zip(node.get_moments(), node.dims)]

    def check_view(self, expr, node, label):
        ids = apply_ids(expr, self.ids)
        self.ctx.op()
        if not self.ctx.ok(tuple(node.plates) == ids.shape, 'plates of the view', '%s: %s, expected %s' % (label, node.plates, ids.shape)):
            return None
        mom = self.moments(node)
        e = [self.moments(x) for x in self.elem]
        for i in range(len(mom)):
            want = np.array([m[i] for m in e])[ids]
            self.ctx.close(mom[i], want, 'moments of the view', 1e-9, 1e-10, '%s moment %d' % (label, i))
            # the arrays must broadcast to plates + dims (that is what receivers rely on)
        return ids

    def add(self, expr, mask, i=0):
        node = apply_node(expr, self.src)
        ids = self.check_view(expr, node, str(expr))
        if ids is None:
            return False
        y = np.asarray(self.K['obs'](self.r, ids.shape))
        Y = self.K['child'](node, i)
        m = np.ones(ids.shape, bool) if mask is None else np.broadcast_to(mask, ids.shape)
        if mask is None:
            Y.observe(y)
        else:
            Y.observe(y, mask=mask)
        U = []
        for pos in itertools.product(*[range(k) for k in ids.shape]):
            if m[pos]:
                c = self.K['child'](self.elem[ids[pos]], i)
                c.observe(y[pos])
                U.append(c)
        self.views.append((expr, node, Y, U))
        return True

    def compare(self, label):
        ctx = self.ctx

        def bounds():
            a = sum(np.sum(v.lower_bound_contribution()) for v in self.src) + sum(np.sum(Y.lower_bound_contribution()) for _, _, Y, _ in self.views)
            b = sum(np.sum(v.lower_bound_contribution()) for v in self.elem) + sum(np.sum(c.lower_bound_contribution()) for _, _, _, U in self.views for c in U)
            return float(a), float(b)
        ctx.close(*bounds(), 'bound before the update', 1e-8, 1e-8, label)
        for rep in range(2):
            for s in self.src:
                s.update()
            for e in self.elem:
                e.update()
            ctx.op(len(self.src))
            e = [self.moments(x) for x in self.elem]
            for s, ids in zip(self.src, self.ids):
                mom = self.moments(s)
                for i in range(len(mom)):
                    want = np.array([m[i] for m in e])[ids]
                    if not ctx.close(mom[i], want, 'posterior of the source', 1e-8, 1e-9, '%s moment %d' % (label, i)):
                        return
            for expr, node, Y, U in self.views:
                self.check_view(expr, node, label)
            ctx.close(*bounds(), 'bound after the update', 1e-8, 1e-8, label)
            if rep == 0 and ctx.tier == 'quick':
                break
        ctx.state(self.kind, [self.moments(s) for s in self.src])
        ctx.traces += 1


def some_masks(shape, kind, tier, k):
    """mask list for an output shape"""
    n = int(np.prod(shape)) if shape else 1
    if n == 0:
        return [None]
    pats = []
    if kind == 'ard' or tier == 'thorough':
        if n <= (3 if tier == 'quick' else 6):
            pats = list(itertools.product((0, 1), repeat=n))
        else:
            pats = [tuple(int(i != j) for i in range(n)) for j in range(n)] + [tuple(int(i == j) for i in range(n)) for j in range(n)]
    else:
        pats = [tuple((i + k) % 2 for i in range(n)), tuple(int(i != k % n) for i in range(n))]
    out = [None] + [np.array(p, dtype=bool).reshape(shape) for p in pats]
    # masks that broadcast
    if len(shape) >= 2 and shape[-1] > 1 and shape[-2] > 1:
        out.append(np.array([(i + k) % 2 == 0 for i in range(shape[-1])]))
        out.append(np.array([[(i + k) % 2 == 0] for i in range(shape[-2])]))
    return out


def cases(tier):
    seen = set()
    for c in _cases(tier):
        if repr(c) not in seen:
            seen.add(repr(c))
            yield c


def _cases(tier):
    # single index expressions
    for shape in ((3,), (3, 2), (1, 3)) + (((2, 3, 2),) if tier == 'thorough' else ()):
        groups = {}
        for k, es in enumerate(slices(shape, tier)):
            groups.setdefault(repr(es[:1]), []).append(es)
        for key, g in groups.items():
            for i in range(0, len(g), 12):
                for q, kind in enumerate(KINDS):
                    for pq, prior in enumerate(('full', 'none', 'bc')):
                        if kind not in ('ard', 'vec') and tier == 'quick' and (prior == 'bc' or (q + pq + i // 12) % 2):
                            continue
                        if kind == 'vec' and tier == 'quick' and (pq + i // 12) % 3 == 2:
                            continue
                        yield ['idx', kind, list(shape), prior, g[i:i + 12]]
    # take
    for shape in ((3,), (2, 3), (3, 2), (2, 3, 2)):
        for ax in range(-len(shape), 0):
            T = takes(shape[ax], tier if len(shape) == 1 else 'quick')
            if len(shape) > 1 and tier == 'quick':
                T = T[::2] + [t for t in T[1::2] if np.ndim(t) == 2 or np.ndim(t) == 0]
            if len(shape) == 3:
                T = T[::8] + [0, [0, 1], [[0, 1], [1, 0]]]
            for i in range(0, len(T), 15):
                for kind in KINDS:
                    if len(shape) == 3 and kind not in ('ard', 'vec', 'cat') and tier == 'quick':
                        continue
                    for prior in ('full', 'none') if kind not in ('ard', 'vec') else ('full', 'none', 'bc'):
                        if tier == 'quick' and prior != 'full' and kind not in ('ard', 'vec', 'cat'):
                            continue
                        yield ['take', kind, list(shape), prior, ax, T[i:i + 15]]
    # concatenation
    blocks1 = [(1,), (2,), (3,)]
    for n in (1, 2, 3):
        for shp in itertools.product(blocks1, repeat=n):
            for kind in KINDS:
                for prior in ('full', 'none'):
                    if n == 3 and prior == 'none' and kind != 'ard':
                        continue
                    yield ['cat', kind, -1, prior, [list(s) for s in shp]]
    blocks2 = {-1: [(2, 1), (2, 2), (2, 3)], -2: [(1, 3), (2, 3)]}
    for ax, bl in blocks2.items():
        for n in (1, 2) + ((3,) if tier == 'thorough' else ()):
            for shp in itertools.product(bl, repeat=n):
                for kind in KINDS:
                    for prior in ('full', 'none', 'bc'):
                        yield ['cat', kind, ax, prior, [list(s) for s in shp]]
    # blocks that broadcast against each other on the other axes
    for ax in (-1, -2):
        for a, b in itertools.product([(2, 3), (1, 3), (3,), (2, 1), (1, 1)], repeat=2):
            if len(a) < -ax or len(b) < -ax:
                continue
            for kind in ('ard', 'vec', 'cat', 'gamma') + (('dir', 'wish', 'beta', 'mat') if tier == 'thorough' else ()):
                if not compatible(a, b, ax):
                    continue
                yield ['cat', kind, ax, 'full', [list(a), list(b)]]
    # compositions and repeated use of one source
    for shape in ((3,), (2, 3), (1, 3), ()):
        for ax in range(-len(shape) - 1, 0):
            for kind in KINDS:
                for prior in ('full', 'none', 'bc'):
                    yield ['axis', kind, list(shape), prior, ax]
    for i in range(len(COMPOSE)):
        for kind in KINDS:
            for prior in ('full', 'none'):
                yield ['compose', kind, prior, i]
    # tiling
    for shape in ((), (1,), (2,), (3,), (2, 3), (1, 3), (2, 1)) + (((2, 1, 3),) if tier == 'thorough' else ()):
        for tiles in TILES if tier == 'thorough' else TILES[:13]:
            for kind in KINDS:
                for prior in ('full', 'none', 'bc'):
                    if shape == () and prior != 'full' or prior == 'bc' and kind not in ('ard', 'vec', 'cat') and tier == 'quick':
                        continue
                    yield ['tile', kind, list(shape), prior, tiles]
    views = VIEWS if tier == 'thorough' else VIEWS[:14]
    for i in range(len(views)):
        for j in range(i, len(views)):
            for kind in KINDS if tier == 'thorough' else ('ard', 'vec', 'gamma', 'cat'):
                yield ['views', kind, i, j]


def compatible(a, b, ax):
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + a
    b = [1] * (n - len(b)) + b
    return all(x == y or x == 1 or y == 1 for i, (x, y) in enumerate(zip(a, b)) if i != n + ax)


S0, S1, S2 = ['src', 0], ['src', 1], ['src', 2]
ALL = ['s', None, None, None]
REV = ['s', None, None, -1]


def _I(x, *es):
    return ['idx', x, list(es)]


# sources: plates (3,2), (2,), (1,)
COMPOSE = [
    _I(_I(S0, 1), REV),
    _I(_I(S0, REV, 1), ['s', 1, None, None]),
    _I(_I(S0, ALL, 'N', 0), 'E', REV, ALL),
    _I(_I(S0, 'N'), 0),
    _I(_I(S0, 'N', 'E', 'N'), 0, ['s', None, None, 2], 'E', 0),
    _I(_I(S0, ['s', None, None, 2]), -1),
    ['take', _I(S0, ALL, 0), [2, 0, 0], -1],
    ['take', _I(S0, REV), [[0, 1], [2, 0]], -2],
    _I(['take', S0, [2, 0, 0, 1], -2], ['s', 1, 3, None]),
    _I(['take', S0, [[0, 1], [1, 1]], -1], ALL, 1, REV),
    ['take', ['take', S0, [2, 0, 2], -2], [1, 0, 1], -1],
    ['cat', -1, [_I(S0, 0), S1, S2]],
    ['cat', -1, [_I(S0, ALL, 0), _I(S0, ALL, 1)]],
    ['cat', -1, [S1, S1]],
    ['cat', -2, [S0, _I(S0, ['s', None, None, 2])]],
    ['cat', -2, [_I(S1, 'N'), S0]],
    ['cat', -2, [S0, _I(S2, 'N')]],
    ['cat', -1, [S0, _I(S1, 0, 'N', 'N')]],
    ['cat', -1, [['cat', -1, [S1, S2]], _I(S0, 2, REV)]],
    ['take', ['cat', -1, [S1, S2]], [2, 2, 0], -1],
    _I(['cat', -1, [S1, _I(S0, ALL, 0)]], ['s', 3, 0, -2]),
    ['cat', -1, [['take', S1, [1, 0, 1], -1], _I(S1, REV)]],
    ['cat', -2, [_I(S0, 'N', 0), _I(S0, REV), _I(S1, 'N')]],
    _I(['cat', -2, [S0, _I(S1, 'N')]], -1),
    ['axis', _I(S0, REV, 0), -2],
    _I(['axis', S0, -2], 1, 0),
    ['axis', ['axis', S0, -1], -3],
    ['tile', _I(S0, REV, 1), 2],
    _I(['tile', S0, [2, 1]], ['s', None, None, 2], -1),
    ['tile', ['take', S1, [1, 0, 1], -1], [2, 2]],
    ['take', ['tile', S1, 2], [[3, 0], [1, 1]], -1],
    ['tile', ['tile', S1, 2], [2, 1]],
    ['cat', -1, [['tile', S1, 2], S2, _I(S0, ALL, 1)]],
    ['tile', ['cat', -1, [S1, S2]], 2],
    ['tile', ['axis', S1, -1], [1, 3]],
    ['tile', S2, 3],
    ['axis', ['tile', S1, 2], -2],
]
# views of one source with plates (3,2)
VIEWS = [
    S0, _I(S0, 0), _I(S0, -1), _I(S0, ALL, 1), _I(S0, REV, REV), _I(S0, ['s', 1, None, None]), _I(S0, 'N'), _I(S0, 2, 0),
    ['take', S0, [2, 0, 0], -2], ['take', S0, [1, 1], -1], ['take', S0, 1, -2], ['cat', -2, [S0, S0]], _I(S0, 'E', 'N'), ['cat', -1, [_I(S0, 1), _I(S0, 0)]],
    _I(S0, ['s', None, None, 2], 1), _I(S0, ALL, 'N'), ['take', S0, [[0, 1], [2, 2]], -2], ['take', S0, [[0], [1]], -1],
    ['tile', S0, 2], ['tile', S0, [2, 1]], _I(S0, ['s', 2, 0, -1]), _I(S0, 1, 'N', REV), ['cat', -1, [S0, _I(S0, ALL, ['s', 1, None, None])]],
]


TILES = [1, 2, 3, [2], [1, 1], [2, 1], [1, 2], [2, 2], [3, 1], [2, 3], [1, 1, 2], [2, 1, 1], [1, 2, 1], [2, 2, 1], [2, 1, 2], [1, 3, 2], [2, 2, 2]]


def run(ctx, case):
    ctx.traces = 0
    fam, kind = case[:2]
    if fam in ('idx', 'take'):
        shape, prior = tuple(case[2]), case[3]
        exprs = [_I(S0, *es) for es in case[4]] if fam == 'idx' else [['take', S0, t, case[4]] for t in case[5]]
        for k, expr in enumerate(exprs):
            ids = apply_ids(expr, [np.arange(int(np.prod(shape))).reshape(shape)])
            masks = some_masks(ids.shape, kind, ctx.tier, k)
            if ctx.tier == 'quick' and (prior != 'full' or kind != 'ard'):
                masks = masks[:1] + masks[1 + (k % 2)::3][:2]
            for mask in masks:
                m = Model(ctx, kind, [shape], prior, 0)
                if m.add(expr, mask):
                    m.compare('%s %s mask %s' % (kind, expr, None if mask is None else mask.astype(int).tolist()))
    elif fam in ('axis', 'tile'):
        _, kind, shape, prior, ax = case
        shape = tuple(shape)
        expr = [fam, S0, ax]
        ids = apply_ids(expr, [np.zeros(shape, int)])
        for mask in some_masks(ids.shape, kind, ctx.tier, 0):
            m = Model(ctx, kind, [shape], prior, 0)
            if m.add(expr, mask):
                m.compare('%s %s mask %s' % (kind, expr, None if mask is None else mask.astype(int).tolist()))
    elif fam == 'cat':
        _, kind, ax, prior, shp = case
        shp = [tuple(s) for s in shp]
        expr = ['cat', ax, [['src', i] for i in range(len(shp))]]
        ids = apply_ids(expr, [np.zeros(s, int) for s in shp])
        masks = some_masks(ids.shape, kind, ctx.tier, len(shp))
        if ctx.tier == 'quick' and (prior != 'full' or kind != 'ard'):
            masks = masks[:1] + masks[1::2][:3] + masks[-2:]
        for mask in masks:
            m = Model(ctx, kind, shp, prior, 0)
            if m.add(expr, mask):
                m.compare('%s concatenate %s along %d mask %s' % (kind, shp, ax, None if mask is None else mask.astype(int).tolist()))
    elif fam == 'compose':
        _, kind, prior, i = case
        expr = COMPOSE[i]
        shp = [(3, 2), (2,), (1,)]
        ids = apply_ids(expr, [np.zeros(s, int) for s in shp])
        for mask in some_masks(ids.shape, kind, ctx.tier, i)[:(None if prior == 'full' else 3)]:
            m = Model(ctx, kind, shp, prior, 1)
            if m.add(expr, mask):
                m.compare('%s %s mask %s' % (kind, expr, None if mask is None else mask.astype(int).tolist()))
    else:
        _, kind, i, j = case
        for prior in ('full', 'none'):
            for k in range(4):
                m = Model(ctx, kind, [(3, 2)], prior, 2)
                ok = True
                for n, v in enumerate((VIEWS[i], VIEWS[j])):
                    ids = apply_ids(v, [np.zeros((3, 2), int)])
                    mask = None if not (k >> n) & 1 else np.array([(q + k + n) % 2 == 0 for q in range(ids.size)]).reshape(ids.shape)
                    ok = ok and m.add(v, mask, n)
                if ok:
                    m.compare('%s views %s and %s masks %d' % (kind, VIEWS[i], VIEWS[j], k))
