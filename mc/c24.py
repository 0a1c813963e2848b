"""C24: what is drawn is the node's current distribution."""
import itertools
import numpy as np
from scipy import stats
from bayespy import nodes as bn
from bayespy import plot as bp
from bayespy.inference import VB
from . import engine

ID = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of node kinds x plate layouts x axis arguments x preceding operations on the real plotting functions; the drawn artists are read back and compared with the moments'
RULE = ('every plotting function (pdf, contour, plot and its aliases, hinton, discrete timeseries, mixture ellipses, covariance ellipses, marginal matrix, plotters through node and '
        'engine) x every supported node kind x plates x time/row/column axis x scale x state (initial, updated, observed in part): every line, band, square, rectangle, '
        'ellipse and contour grid that is drawn encodes the mean, uncertainty or density of the plate element at its place, all elements are drawn exactly once, and '
        'drawing changes no node')
BOUND = dict(quick='plates and shapes with up to three axes of lengths 1-3, all axis arguments, two states of every node', thorough='three states, four axes')
CASE_TIMEOUT = 300


# ------------------------------------------------------------------ nodes

def gaussian(plates, shape, st, salt=0):
    x = bn.GaussianARD(0.3, 2.0, shape=shape, plates=plates)
    if st == 'prior':
        return x
    r = engine.rng('c24', plates, shape, salt)
    if st == 'random':
        x.initialize_from_parameters(r.randn(*(plates + shape)), 0.5 + r.rand(*(plates + shape)))
    else:           # one of the elements observed, the others updated from data
        m = np.zeros(plates, dtype=bool)
        m.ravel()[-1] = True
        y = bn.GaussianARD(x, 3.0, ndim=len(shape)) if shape else bn.GaussianARD(x, 3.0)
        y.observe(r.randn(*(plates + shape)))
        x.update()
        x.observe(r.randn(*(plates + shape)), mask=m)
    return x


def meanstd(x):
    """Mean and standard deviation of every element (explicit)."""
    u = [np.asarray(a) for a in x.get_moments()]
    sh = tuple(x.get_shape(0))
    n = len(x.dims[0])
    m = np.broadcast_to(u[0], sh)
    full = np.broadcast_to(u[1], tuple(x.plates) + tuple(x.dims[0]) * 2)
    sd = np.zeros(sh)
    for i in np.ndindex(*sh):
        p, k = i[:len(sh) - n], i[len(sh) - n:]
        sd[i] = np.sqrt(max(full[p + k + k] - m[i] ** 2, 0))
    return m, sd


def make(kind, plates, st):
    """-> node, and (mean, std or None) arrays in the order plates + variable axes"""
    r = engine.rng('c24', kind, plates)
    if kind.startswith('gauss'):
        x = gaussian(plates, dict(gauss0=(), gauss1=(2,), gauss2=(3, 2))[kind], st)
        m, s = meanstd(x)
        return x, m, s
    if kind == 'gmc':
        x = bn.GaussianMarkovChain(np.zeros(2), np.identity(2), np.array([[.9, .2], [-.1, .8]]), np.ones(2), n=4, plates=plates)
        if st != 'prior':
            y = bn.GaussianARD(x, 2.0, ndim=1)
            y.observe(r.randn(*(plates + (4, 2))))
            x.update()
        u = [np.asarray(a) for a in x.get_moments()]
        m = np.broadcast_to(u[0], plates + (4, 2))
        v = np.broadcast_to(u[1], plates + (4, 2, 2))
        return x, m, np.sqrt(np.einsum('...ii->...i', v) - m ** 2)
    if kind == 'bern':
        x = bn.Bernoulli(0.3, plates=plates)
        if st != 'prior':
            x.initialize_from_parameters(0.1 + 0.8 * r.rand(*plates))
        return x, np.broadcast_to(x.get_moments()[0], plates), None
    if kind == 'bernmix':
        z = bn.Categorical([.4, .6], plates=plates)
        x = bn.Mixture(z, bn.Bernoulli, [.2, .9])
        if st != 'prior':
            z.initialize_from_random()
            x.update()
        return x, np.broadcast_to(x.get_moments()[0], plates), None
    if kind == 'gamma':
        x = bn.Gamma(2.0, 3.0, plates=plates)
        if st != 'prior':
            x.initialize_from_parameters(1 + r.rand(*plates), 1 + r.rand(*plates))
        return x, np.broadcast_to(x.get_moments()[0], plates), None
    if kind == 'beta':
        x = bn.Beta([2.0, 3.0], plates=plates)
        if st != 'prior':
            x.initialize_from_parameters(1 + 4 * r.rand(*(plates + (2,))))
        return x, np.broadcast_to(np.exp(np.asarray(x.get_moments()[0])[..., 0]), plates), None
    if kind == 'dirichlet':
        x = bn.Dirichlet([2.0, 3.0, 1.0], plates=plates)
        if st != 'prior':
            x.initialize_from_parameters(1 + 4 * r.rand(*(plates + (3,))))
        return x, np.broadcast_to(np.exp(np.asarray(x.get_moments()[0])), plates + (3,)), None
    if kind == 'categorical':
        x = bn.Categorical([.2, .5, .3], plates=plates)
        if st != 'prior':
            x.initialize_from_parameters(r.dirichlet([1, 1, 1], size=plates))
        return x, np.broadcast_to(x.get_moments()[0], plates + (3,)), None
    if kind == 'array':
        x = r.randn(*plates)
        return x, x, None
    raise ValueError(kind)


# ------------------------------------------------------------------ reading a figure back

def newfig():
    bp.pyplot.close('all')
    return bp.pyplot.figure()


def position(ax):
    g = ax.get_subplotspec().get_geometry()
    assert g[2] == g[3]
    return g[0], g[1], g[2]


def band(ax):
    """{x: (low, high)} of the filled area"""
    out = {}
    cs = [c for c in ax.collections]
    if not cs:
        return None
    assert len(cs) == 1, 'more than one band'
    for p in cs[0].get_paths():
        for x, y in p.vertices:
            k = round(float(x), 9)
            lo, hi = out.get(k, (np.inf, -np.inf))
            out[k] = (min(lo, y), max(hi, y))
    return out


def squares(ax):
    """[(centre x, centre y, width, height, filled, colour)] without the background"""
    from matplotlib.colors import to_rgba
    out = []
    for p in ax.patches:
        v = p.get_path().transformed(p.get_patch_transform()).vertices
        x0, y0 = v.min(axis=0)
        x1, y1 = v.max(axis=0)
        col = tuple(p.get_facecolor())[:3] if p.get_fill() else tuple(p.get_edgecolor())[:3]
        if p.get_fill() and np.allclose(col, to_rgba('gray')[:3]):
            continue
        out.append(((x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0, bool(p.get_fill()), col))
    return out


def snapshot(n):
    if not hasattr(n, 'get_moments'):
        return [np.array(n)]
    out = [np.array(u) for u in n.get_moments()]
    if hasattr(n, 'phi'):
        out += [np.array(p) for p in n.phi] + [np.array(n.observed), np.array(n.g)]
    return out


def unchanged(ctx, n, before):
    after = snapshot(n)
    ctx.ok(len(after) == len(before) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(after, before)),
           'drawing changes the node')


# ------------------------------------------------------------------ pdf, contour

def scalar_node(k):
    r = engine.rng('c24', k)
    if k == 'gamma':
        return bn.Gamma(2.0, 3.0), np.linspace(.1, 3, 7), lambda x: stats.gamma.pdf(x, 2.0, scale=1 / 3.)
    if k == 'gamma-upd':
        t = bn.Gamma(2.0, 3.0)
        y = bn.GaussianARD(1.0, t, plates=(4,))
        d = r.randn(4)
        y.observe(d)
        t.update()
        return t, np.linspace(.1, 3, 7), lambda x: stats.gamma.pdf(x, 4.0, scale=1 / (3 + .5 * np.sum((d - 1) ** 2)))
    if k == 'gauss':
        return bn.GaussianARD(.5, 4.0), np.linspace(-1, 2, 5), lambda x: stats.norm.pdf(x, .5, .5)
    if k == 'beta':
        return bn.Beta([2.0, 3.0]), np.linspace(.1, .9, 5), lambda x: stats.beta.pdf(x, 2, 3)
    if k == 'mixture':
        return (bn.Mixture(0, bn.GaussianARD, [1.0, 5.0], [4.0, 1.0]), np.linspace(-1, 2, 6), lambda x: stats.norm.pdf(x, 1, .5))
    if k == 'function':
        return (lambda x: -x ** 2), np.linspace(-1, 2, 6), lambda x: np.exp(-x ** 2)
    if k == 'poisson':
        return bn.Poisson(2.5), np.arange(5), lambda x: stats.poisson.pmf(x, 2.5)
    if k == 'binomial':
        return bn.Binomial(4, .3), np.arange(5), lambda x: stats.binom.pmf(x, 4, .3)
    raise ValueError(k)


def f_pdf(ctx, case):
    _, k, where, named = case
    z, x, ref = scalar_node(k)
    fig = newfig()
    other = None
    if where == 'axes':
        other = fig.add_subplot(2, 2, 1)
        target = fig.add_subplot(2, 2, 3)
        fig.add_subplot(2, 2, 4)
        kw = dict(axes=target)
    elif where == 'fig':
        fig2 = bp.pyplot.figure()
        bp.pyplot.figure(fig.number)
        kw = dict(fig=fig2)
    else:
        kw = {}
    if named == 'arg':
        kw['name'] = 'theta'
    elif named == 'node' and hasattr(z, 'name'):
        z.name = 'mynode'
    before = snapshot(z) if hasattr(z, 'get_moments') else None
    bp.pdf(z, x, **kw)
    ctx.op()
    if where == 'fig':
        ctx.ok(not fig.axes and len(fig2.axes) == 1, 'pdf: drawn into the given figure')
        target = fig2.axes[0]
    elif where == 'none':
        ctx.ok(len(fig.axes) == 1, 'pdf: one set of axes')
        target = fig.axes[0]
    else:
        ctx.ok(len(fig.axes) == 3 and not other.lines, 'pdf: drawn into the given axes', str(len(fig.axes)))
    if not ctx.ok(len(target.lines) == 1, 'pdf: one line', str(len(target.lines))):
        return
    ctx.close(target.lines[0].get_xdata(), x, 'pdf: grid')
    ctx.close(target.lines[0].get_ydata(), ref(x), 'pdf: density')
    want = 'theta' if named == 'arg' else ('mynode' if named == 'node' and hasattr(z, 'name') else None)
    if want:
        ctx.ok(want in target.get_title() and want in target.get_xlabel(), 'pdf: title', target.get_title())
    if before is not None:
        unchanged(ctx, z, before)


class ContourRecorder:
    """Records the grids given to matplotlib's contour functions (and draws)."""

    def __enter__(self):
        from matplotlib.axes import Axes
        self.calls, self.saved, self.cls = [], {}, Axes
        for f in ('contour', 'contourf'):
            self.saved[f] = getattr(Axes, f)

            def rec(ax, *args, _f=f, **kw):
                self.calls.append((ax, [np.array(a) for a in args]))
                return self.saved[_f](ax, *args, **kw)
            setattr(Axes, f, rec)
        return self

    def __exit__(self, *a):
        for f, g in self.saved.items():
            setattr(self.cls, f, g)


def grid_is(ctx, args, x, y, dens, what):
    """The three arrays describe the function dens on the full grid of x and y."""
    X, Y, P = args[:3]
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if not ctx.ok(X.shape == Y.shape == P.shape and X.ndim == 2, what + ': grid shape', '%s %s %s' % (X.shape, Y.shape, P.shape)):
        return
    regular = ((np.allclose(X, X[:1]) and np.allclose(Y, Y[:, :1]) and np.allclose(X[0], x) and np.allclose(Y[:, 0], y)) or
               (np.allclose(X, X[:, :1]) and np.allclose(Y, Y[:1]) and np.allclose(X[:, 0], x) and np.allclose(Y[0], y)))
    ctx.ok(regular, what + ': the grid is that of the given points', 'X=%s' % np.round(X, 3).tolist())
    ctx.close(P, dens(X, Y), what + ': density on the grid')


def plane_node(k):
    mvn = lambda m, C: (lambda X, Y: stats.multivariate_normal.pdf(np.stack([X, Y], axis=-1), m, C))
    if k == 'gauss':
        L = np.array([[2., .5], [.5, 1.]])
        return bn.Gaussian([1., 2.], L), mvn([1, 2], np.linalg.inv(L))
    if k == 'ard':
        return bn.GaussianARD([1., 2.], [3., .5], ndim=1), mvn([1, 2], np.diag([1 / 3., 2.]))
    if k == 'mixture':
        L = np.array([[2., .5], [.5, 1.]])
        return (bn.Mixture(1, bn.Gaussian, [[5., 5.], [1., 2.]], [np.identity(2), L]), mvn([1, 2], np.linalg.inv(L)))
    if k == 'function':
        return (lambda XY: -XY[..., 0] ** 2 - .3 * XY[..., 1]), lambda X, Y: np.exp(-X ** 2 - .3 * Y)
    raise ValueError(k)


def f_contour(ctx, case):
    _, k, nx, ny, n, where = case
    z, dens = plane_node(k)
    x, y = np.linspace(0, 2, nx), np.linspace(1, 2.5, ny)
    fig = newfig()
    kw = {}
    target = None
    if where == 'axes':
        fig.add_subplot(2, 1, 1)
        target = kw['axes'] = fig.add_subplot(2, 1, 2)
    elif where == 'fig':
        kw['fig'] = fig
    before = snapshot(z) if hasattr(z, 'get_moments') else None
    with ContourRecorder() as rec:
        bp.contour(z, x, y, n=n, **kw)
    ctx.op()
    if not ctx.ok(len(rec.calls) == 1, 'contour: one plot'):
        return
    ax, args = rec.calls[0]
    ctx.ok(ax.figure is fig and (target is None or ax is target), 'contour: drawn into the given axes')
    grid_is(ctx, args, x, y, dens, 'contour')
    if n is not None:
        P = args[2]
        ctx.ok(len(args) == 4 and np.size(args[3]) == n and np.all(np.diff(args[3]) > 0) and args[3][0] > 0 and args[3][-1] < P.max(), 'contour: number of levels')
    if before is not None:
        unchanged(ctx, z, before)


# ------------------------------------------------------------------ plot

def f_plot(ctx, case):
    _, kind, plates, st, axis, scale, fn, how = case
    plates = tuple(plates)
    x, m, s = make(kind, plates, st)
    size = m.ndim
    f = dict(plot=bp.plot, timeseries=bp.timeseries, timeseries_gaussian=getattr(bp, 'timeseries_gaussian', None), plot_gaussian=bp.plot_gaussian,
             timeseries_normal=bp.timeseries_normal, plot_bernoulli=bp.plot_bernoulli, plot_gaussian_mc=bp.plot_gaussian_mc,
             timeseries_gaussian_mc=bp.timeseries_gaussian_mc)[fn]
    kw = {}
    if scale is not None:
        kw['scale'] = scale
    if axis is not None:
        kw['axis'] = axis
    axis = (-2 if fn.endswith('_mc') else -1) if axis is None else axis
    # reference: one series per element of the remaining axes, in order
    M = np.moveaxis(m, axis, 0) if size else m.reshape(1)
    rest = [n for n in M.shape[1:] if n > 1]
    M = M.reshape(M.shape[0], -1)
    S = None if s is None else (np.moveaxis(s, axis, 0) if size else s.reshape(1)).reshape(M.shape)
    N = M.shape[1]
    fig = newfig()
    given = None
    if how == 'axes':
        given = [fig.add_subplot(N, 2, 2 * i + 2) for i in range(N)]
        kw['axes'] = given
    elif how == 'fig':
        kw['fig'] = fig
        bp.pyplot.figure()
    before = snapshot(x)
    f(x, **kw)
    ctx.op()
    axs = fig.axes
    if not ctx.ok(len(axs) == N and (given is None or all(a is b for a, b in zip(axs, given))), 'plot: one set of axes per series', '%d, expected %d' % (len(axs), N)):
        return
    if given is None:
        pos = [position(a) for a in axs]
        ctx.ok(sorted(p[2] for p in pos) == list(range(N)) and all(p[0] * p[1] == N for p in pos), 'plot: subplots do not overlap', str(pos))
        if len(rest) == 2:
            ctx.ok(all(p[:2] == tuple(rest) for p in pos), 'plot: rows and columns follow the axes', str(pos))
        axs = [a for _, a in sorted(zip([p[2] for p in pos], axs), key=lambda t: t[0])]
    for i, ax in enumerate(axs):
        if not ctx.ok(len(ax.lines) == 1, 'plot: one line per series'):
            return
        ctx.close(ax.lines[0].get_xdata(), np.arange(M.shape[0]), 'plot: time')
        ctx.close(ax.lines[0].get_ydata(), M[:, i], 'plot: the line is the mean')
        b = band(ax)
        if S is None:
            ctx.ok(b is None, 'plot: no band without uncertainty')
        elif ctx.ok(b is not None, 'plot: band drawn'):
            k = 2 if scale is None else scale
            got = [b.get(round(float(t), 9), (np.nan, np.nan)) for t in range(M.shape[0])]
            ctx.close(got, np.stack([M[:, i] - k * S[:, i], M[:, i] + k * S[:, i]], axis=-1), 'plot: the band is the mean +- scaled deviation', rtol=1e-6)
        lo, hi = ax.get_ylim()
        if fn.startswith('timeseries') and given is None:
            ctx.ok(abs(lo + hi) < 1e-9 * max(1, abs(hi)), 'plot: centred at zero')
    unchanged(ctx, x, before)


def plot_cases(tier):
    P = [(), (3,), (1,), (2, 3), (3, 1), (2, 1, 3)]
    for kind in ('gauss0', 'gauss1', 'gauss2', 'bern', 'bernmix', 'gmc', 'array'):
        for plates in P:
            extra = dict(gauss1=1, gauss2=2, gmc=2).get(kind, 0)
            size = len(plates) + extra
            if size == 0 and kind == 'array':
                continue
            for st in ('prior', 'random', 'partial'):
                if (st == 'partial' and not kind.startswith('gauss')) or (kind == 'array' and st != 'random') or (st == 'partial' and not plates):
                    continue
                if tier == 'quick' and st == 'partial' and plates not in ((3,), (2, 3)):
                    continue
                for axis in [None] + list(range(-size, size)):
                    lens = list(plates) + dict(gauss1=[2], gauss2=[3, 2], gmc=[4, 2]).get(kind, [])
                    if size:
                        lens.pop(-1 if axis is None else axis)
                    if len([n for n in lens if n > 1]) > 2:
                        continue
                    fns = ['plot']
                    if axis is None or axis == 0:
                        fns += ['timeseries'] + dict(bern=['plot_bernoulli'], gmc=['plot_gaussian_mc', 'timeseries_gaussian_mc'],
                                                     gauss0=['timeseries_gaussian', 'plot_gaussian', 'timeseries_normal'], gauss1=['plot_gaussian', 'timeseries_gaussian']).get(kind, [])
                    for fn in fns:
                        if fn.endswith('_mc'):
                            if axis is not None:
                                continue
                            if len([n for n in list(plates) + [2] if n > 1]) > 2:
                                continue
                        if fn == 'plot_bernoulli' and kind != 'bern':
                            continue
                        for scale, how in [(None, 'none')] + ([(1.5, 'none'), (None, 'axes'), (None, 'fig')] if axis in (None, 0) else []):
                            if scale and kind == 'array':
                                continue
                            yield ['plot', kind, list(plates), st, axis, scale, fn, how]


# ------------------------------------------------------------------ hinton

def check_hinton(ctx, fig, blocks, S, exact, square=None):
    """blocks: {(subplot row, column): (matrix, uncertainty or None)}; exact: vmax known"""
    axs = fig.axes
    if not ctx.ok(len(axs) == len(blocks), 'hinton: one diagram per block', '%d, expected %d' % (len(axs), len(blocks))):
        return
    R = 1 + max(k[0] for k in blocks)
    C = 1 + max(k[1] for k in blocks)
    consts = []
    seen = set()
    for ax in axs:
        if len(blocks) == 1:
            rc = (0, 0)
        else:
            g = position(ax)
            if not ctx.ok(g[:2] == (R, C), 'hinton: layout of the diagrams', str(g)):
                return
            rc = divmod(g[2], C)
        if not ctx.ok(rc not in seen and rc in blocks, 'hinton: diagrams at different places', str(rc)):
            return
        seen.add(rc)
        W, E = blocks[rc]
        sq = squares(ax)
        filled, hollow = {}, {}
        for x, y, w, h, fill, col in sq:
            key = (int(round(y)) - 1, int(round(x)) - 1)
            ctx.ok(abs(w - h) < 1e-6 and abs(x - round(x)) < 1e-6 and abs(y - round(y)) < 1e-6, 'hinton: squares at the cells')
            d = filled if fill else hollow
            ctx.ok(key not in d, 'hinton: one square per element', str(key))
            d[key] = (w * h, col)
        want = set(np.ndindex(*W.shape))
        if not ctx.ok(set(filled) == want, 'hinton: every element drawn', '%s, expected shape %s' % (sorted(filled), W.shape)):
            return
        ctx.ok(ax.yaxis_inverted(), 'hinton: first row on top')
        for i in want:
            a, col = filled[i]
            w = W[i]
            if abs(w) > 1e-9:
                consts.append(a / abs(w))
                ctx.ok(np.allclose(col, (1, 1, 1) if w > 0 else (0, 0, 0)), 'hinton: colour shows the sign', '%s %r' % (col, w))
            else:
                ctx.ok(a < 1e-6, 'hinton: zero is empty')
        if E is None:
            ctx.ok(not hollow, 'hinton: no uncertainty drawn')
        else:
            if not ctx.ok(set(hollow) == want, 'hinton: uncertainty of every element drawn'):
                return
            for i in want:
                t = abs(W[i]) + E[i]
                if t > 1e-9:
                    consts.append(hollow[i][0] / t)
    c = np.array(consts)
    if len(c):
        ctx.close(c, np.full(len(c), 1.0 if exact else c[0]), 'hinton: area proportional to the value', rtol=1e-6)
        top = max(np.max(np.abs(W) + (0 if E is None else E)) for W, E in blocks.values())
        ctx.ok(c[0] * top <= 1 + 1e-6 and (exact or c[0] * top > .999), 'hinton: the largest element fills its cell', str(c[0] * top))


def to_blocks(m, s, rows, cols):
    """Reference: move the row and column axes to the end, the others make the grid of diagrams."""
    n = m.ndim
    if n == 0:
        return {(0, 0): (m.reshape(1, 1), None if s is None else s.reshape(1, 1))}
    rows = None if rows is None else rows % n
    cols = None if cols is None else cols % n
    keep = [i for i in range(n) if m.shape[i] > 1 or i in (rows, cols)]
    if cols is None:
        c = [i for i in keep if i != rows]
        cols = c[-1] if c else None
    if rows is None:
        r = [i for i in keep if i != cols]
        rows = r[-1] if r else None
    rest = [i for i in keep if i not in (rows, cols)]
    out = {}
    for i in np.ndindex(*[m.shape[a] for a in rest]):
        ix = [0] * n
        for a in range(n):
            if a in (rows, cols):
                ix[a] = slice(None)
            elif a in rest:
                ix[a] = i[rest.index(a)]
        W, E = m[tuple(ix)], (None if s is None else s[tuple(ix)])
        if rows is not None and cols is not None and rows > cols:
            W, E = W.T, (None if E is None else E.T)
        shape = (1 if rows is None else m.shape[rows], 1 if cols is None else m.shape[cols])
        W, E = W.reshape(shape), (None if E is None else E.reshape(shape))
        k = len(rest)
        rr = [a for a in range(k) if (k - a) % 2 == 0]
        cc = [a for a in range(k) if (k - a) % 2 == 1]
        pos = tuple(int(np.ravel_multi_index([i[a] for a in q], [m.shape[rest[a]] for a in q])) if q else 0 for q in (rr, cc))
        out[pos] = (W, E)
    return out


def f_hinton(ctx, case):
    _, kind, plates, st, rows, cols, scale, fn = case
    plates = tuple(plates)
    x, m, s = make(kind, plates, st)
    kw = {}
    if rows is not None:
        kw['rows'] = rows
    if cols is not None:
        kw['cols'] = cols
    if scale is not None:
        kw['scale'] = scale
    fig = newfig()
    before = snapshot(x)
    getattr(bp, fn)(x, **kw)
    ctx.op()
    exact = kind in ('beta', 'dirichlet', 'bern', 'categorical')
    if s is not None:
        k = 1 if scale is None else scale
        E = None if k == 0 else k * s
    else:
        E = None
    if exact:
        blocks = {(0, 0): (np.atleast_2d(m) if m.ndim < 2 else m, None)}
    else:
        blocks = to_blocks(m, E, rows, cols)
    check_hinton(ctx, fig, blocks, s, exact)
    unchanged(ctx, x, before)


def hinton_cases(tier):
    P = [(), (3,), (1,), (2, 3), (3, 1), (1, 2), (2, 1, 3), (2, 3, 2)]
    for kind in ('gauss0', 'gauss1', 'gauss2', 'gmc', 'gamma', 'beta', 'dirichlet', 'array', 'bern', 'categorical'):
        for plates in P:
            extra = dict(gauss1=1, gauss2=2, gmc=2, dirichlet=1, categorical=1).get(kind, 0)
            size = len(plates) + extra
            if kind in ('beta', 'dirichlet', 'bern', 'categorical') and size > 2:
                continue
            if size > 4 or (kind == 'array' and size == 0):
                continue
            for st in ('prior', 'random', 'partial'):
                if st == 'partial' and not (kind.startswith('gauss') and plates):
                    continue
                if kind == 'array' and st != 'random':
                    continue
                if kind in ('bern', 'categorical'):
                    yield ['hinton', kind, list(plates), st, None, None, None, '%s_hinton' % dict(bern='bernoulli').get(kind, kind)]
                    continue
                yield ['hinton', kind, list(plates), st, None, None, None, 'hinton']
                if kind in ('beta', 'dirichlet') or (st == 'partial' and tier == 'quick'):
                    continue
                if kind.startswith('gauss') or kind == 'gmc':
                    yield ['hinton', kind, list(plates), st, None, None, 0, 'hinton']
                    yield ['hinton', kind, list(plates), st, None, None, 2.5, 'gaussian_hinton']
                if size >= 2 and (st == 'random' or tier != 'quick'):
                    for r, c in itertools.permutations(range(size), 2):
                        yield ['hinton', kind, list(plates), st, r, c - size, None, 'hinton']
                    for a in range(size):
                        yield ['hinton', kind, list(plates), st, a, None, None, 'hinton']
                        yield ['hinton', kind, list(plates), st, None, a - size, None, 'hinton']


def f_badaxis(ctx, case):
    _, kind, plates, rows, cols = case
    x, m, s = make(kind, tuple(plates), 'random')
    newfig()
    try:
        bp.hinton(x, rows=rows, cols=cols)
    except Exception:
        ctx.ok(True, 'x')
    else:
        ctx.ok(False, 'hinton: axis out of range accepted')
    ctx.op()


# ------------------------------------------------------------------ discrete time series

def f_cmc(ctx, case):
    _, plates, K, T, st = case
    plates = tuple(plates)
    r = engine.rng('c24', 'cmc', plates, K, T)
    z = bn.CategoricalMarkovChain(r.dirichlet(np.ones(K)), r.dirichlet(np.ones(K), size=(K,)), states=T, plates=plates)
    if st == 'updated':
        y = bn.Mixture(z, bn.GaussianARD, np.arange(K), 2.0)
        y.observe(r.randn(*(plates + (T,))))
        z.update()
    # marginals by the moments
    u0, u1 = [np.asarray(a) for a in z.get_moments()]
    u0 = np.broadcast_to(u0, plates + (K,))
    u1 = np.broadcast_to(u1, plates + (T - 1, K, K))
    m = np.concatenate([u0[..., None, :], np.sum(u1, axis=-2)], axis=-2)
    fig = newfig()
    before = snapshot(z)
    bp.timeseries_categorical_mc(z)
    ctx.op()
    full = m.reshape((1,) * (2 - len(plates)) + m.shape)
    blocks = {(i, j): (full[i, j].T, None) for i in range(full.shape[0]) for j in range(full.shape[1])}
    check_hinton(ctx, fig, blocks, None, True)
    unchanged(ctx, z, before)


# ------------------------------------------------------------------ ellipses

def on_ellipse(ell):
    """Points of the drawn ellipse."""
    t = np.linspace(0, 2 * np.pi, 13)
    return ell.get_patch_transform().transform(np.stack([np.cos(t), np.sin(t)], axis=-1))


def f_ellipse(ctx, case):
    _, which, i, scale = case
    C = [np.array([[2., .5], [.5, 1.]]), np.array([[1., -.8], [-.8, 1.5]]), np.diag([3., 1.]), np.diag([1., 3.]), np.identity(2), np.array([[.5, -.1], [-.1, 2.]])][i]
    m = np.array([1., -2.])
    kw = {} if scale is None else dict(scale=scale)
    e = bp.ellipse_from_cov(m, C, **kw) if which == 'cov' else bp.ellipse_from_precision(m, np.linalg.inv(C), **kw)
    ctx.op()
    d = on_ellipse(e) - m
    q = np.einsum('ni,ij,nj->n', d, np.linalg.inv(C), d)
    k = 2 if scale is None else scale
    ctx.close(q, np.full(len(q), (k / 2.) ** 2), 'ellipse: contour of the covariance', rtol=1e-6)


def f_mix2d(ctx, case):
    _, K, N, alpha, scale, obs, st, loc = case
    r = engine.rng('c24', 'mix', K, N)
    mu = bn.Gaussian(np.zeros(2), np.identity(2), plates=(K,))
    Lam = bn.Wishart(4, np.identity(2), plates=(K,))
    a = bn.Dirichlet(np.ones(K))
    z = bn.Categorical(a, plates=(N,))
    x = bn.Mixture(z, bn.Gaussian, mu, Lam)
    data = r.randn(N, 2) * [1, 3] + [0, 1]
    mask = None
    if obs == 'all':
        x.observe(data)
        mask = np.ones(N, dtype=bool)
    elif obs == 'part':
        mask = np.arange(N) % 2 == 0
        x.observe(data, mask=mask)
    if st == 'updated':
        z.initialize_from_random() if N else None
        mu.initialize_from_random()
        for n in (mu, Lam, z, a):
            n.update()
    if loc == 'random':
        mu.initialize_from_parameters(r.randn(K, 2), np.array([np.diag([2., 3.])] * K))
        for n in (Lam,):
            n.initialize_from_value(np.array([[[2. + k, (-1) ** k * .7], [(-1) ** k * .7, 1.]] for k in range(K)]))
    fig = newfig()
    ax = fig.add_subplot(1, 1, 1)
    kw = {} if scale is None else dict(scale=scale)
    before = snapshot(x)
    bp.gaussian_mixture_2d(x, alpha=a if alpha else None, axes=ax, **kw)
    ctx.op()
    from matplotlib.patches import Ellipse
    ells = [p for p in ax.get_children() if isinstance(p, Ellipse)]
    if not ctx.ok(len(ells) == K, 'mixture: one ellipse per component', str(len(ells))):
        return
    m = np.broadcast_to(mu.get_moments()[0], (K, 2))
    L = np.broadcast_to(Lam.get_moments()[0], (K, 2, 2))
    k = 2 if scale is None else scale
    peak = np.sqrt(np.linalg.det(L))
    if alpha:
        lp = np.broadcast_to(a.get_moments()[0], (K,))
        p = np.exp(lp) / np.sum(np.exp(lp))
        vis = peak * p / np.max(peak * p)
    else:
        vis = np.ones(K)
    for i, e in enumerate(ells):
        d = on_ellipse(e) - m[i]
        q = np.einsum('ni,ij,nj->n', d, L[i], d)
        ctx.close(q, np.full(len(q), float(k) ** 2), 'mixture: ellipse of the component', rtol=1e-6)
        ctx.close(e.get_alpha(), vis[i], 'mixture: visibility shows the weight')
    pts = [l for l in ax.lines]
    if mask is None:
        ctx.ok(not pts, 'mixture: no data drawn')
    elif ctx.ok(len(pts) == 1, 'mixture: data drawn'):
        ctx.close(pts[0].get_xydata(), data[mask], 'mixture: the observed data')
    unchanged(ctx, x, before)


# ------------------------------------------------------------------ marginals of Gaussian-gamma

def f_marg(ctx, case):
    _, D, st, fn = case
    r = engine.rng('c24', 'gg', D)
    A = r.randn(D, D)
    L = A.dot(A.T) + np.identity(D)
    m, a, b = r.randn(D), 3.0, 2.0
    x = bn.GaussianGamma(m, L, a, b)
    if st == 'updated':
        y = bn.GaussianARD(x, np.ones(1), plates=(2,)) if False else bn.Gaussian(x, np.identity(D), plates=(2,))
        d = r.randn(2, D)
        y.observe(d)
        x.update()
        Ln = L + 2 * np.identity(D)
        mn = np.linalg.solve(Ln, L.dot(m) + d.sum(axis=0))
        a, b = a + D, b + .5 * (m.dot(L).dot(m) + np.sum(d ** 2) - mn.dot(Ln).dot(mn))
        m, L = mn, Ln
    C = np.linalg.inv(L) * b / a
    bp.pyplot.close('all')
    before = snapshot(x)
    with ContourRecorder() as rec:
        axes = x.plotmatrix() if fn == 'node' else bp.plotmatrix(x)
    ctx.op()
    unchanged(ctx, x, before)
    if not ctx.ok(np.shape(axes) == (D + 1, D + 1), 'marginals: layout'):
        return
    for i in range(D):
        l = axes[i, i].lines
        if ctx.ok(len(l) == 1, 'marginals: one line'):
            g = np.asarray(l[0].get_xdata())
            ctx.close(l[0].get_ydata(), stats.t.pdf(g, 2 * a, loc=m[i], scale=np.sqrt(C[i, i])), 'marginals: density of an element', rtol=1e-6)
            ctx.ok(g[0] < m[i] < g[-1], 'marginals: range')
    g = axes[D, D].lines
    if ctx.ok(len(g) == 1, 'marginals: one line'):
        gx, gy = [np.asarray(v) for v in g[0].get_data()]
        pos = gx > 0
        ctx.ok(np.sum(pos) > 50 and gx[pos][0] < a / b < gx[-1], 'marginals: range')
        ctx.close(gy[pos], stats.gamma.pdf(gx[pos], a, scale=1 / b), 'marginals: density of the precision', rtol=1e-6)
    got = {}
    for ax, args in rec.calls:
        for i in range(D):
            for j in range(D):
                if axes[i, j] is ax:
                    got[i, j] = args
    if not ctx.ok(set(got) == set((i, j) for i in range(D) for j in range(D) if i != j), 'marginals: all pairs drawn', str(sorted(got))):
        return
    # panels (i, j) and (j, i) show the pair with the axes exchanged
    for i in range(D):
        for j in range(i):
            for key, (p, q) in (((i, j), (i, j)), ((j, i), (j, i))):
                X, Y, P = got[key][:3]
                dens = stats.multivariate_t.pdf(np.stack([X, Y], axis=-1), loc=m[[p, q]], shape=C[np.ix_([p, q], [p, q])], df=2 * a)
                ctx.close(P, dens, 'marginals: joint density of two elements', rtol=1e-6)


# ------------------------------------------------------------------ plotters

def f_plotter(ctx, case):
    _, how, sched = case
    r = engine.rng('c24', 'plotter')
    mu = bn.GaussianARD(0, 1, plates=(3,), name='mu', plotter=bp.FunctionPlotter())
    tau = bn.Gamma(2, 2, name='tau', plotter=bp.PDFPlotter(np.linspace(.1, 3, 5)))
    G = bn.GaussianARD(0, 1, shape=(2,), name='G', plotter=bp.ContourPlotter(np.linspace(-1, 1, 4), np.linspace(-2, 1, 5)))
    H = bn.GaussianARD(0, 1, plates=(2, 3), name='H', plotter=bp.HintonPlotter())
    W = bn.GaussianARD(0, 1, name='W')
    y = bn.GaussianARD(bn.Add(mu, H, W), tau, plates=(2, 3), name='y')
    y.observe(r.randn(2, 3))
    w = bn.GaussianARD(G, 2.0, ndim=1, plates=(2, 2), name='w') if False else bn.GaussianARD(G, 2.0, plates=(3, 2)[:1] + (), ndim=1, name='w')
    w.observe(r.randn(3, 2))
    Q = VB(y, w, mu, tau, G, H, W)
    for n in (mu, tau, G, H):
        ctx.ok(n.has_plotter(), 'plotter: registered')
    ctx.ok(not W.has_plotter(), 'plotter: none registered')
    newfig()
    bp.pyplot.close('all')
    nodes = dict(mu=mu, tau=tau, G=G, H=H)

    def verify(n, fig, rec):
        ctx.ok(n.name in fig._suptitle.get_text() if fig._suptitle is not None else False, 'plotter: figure named after the node')
        if n is mu:
            m, s = meanstd(mu)
            ctx.close(fig.axes[0].lines[0].get_ydata(), m, 'plotter: line shows the current mean')
            b = band(fig.axes[0])
            ctx.close([b[float(t)] for t in range(3)], np.stack([m - 2 * s, m + 2 * s], axis=-1), 'plotter: band shows the current deviation', rtol=1e-6)
        elif n is tau:
            ctx.close(fig.axes[0].lines[0].get_ydata(), stats.gamma.pdf(np.linspace(.1, 3, 5), float(np.ravel(tau.phi[1])[0]), scale=-1 / float(np.ravel(tau.phi[0])[0])),
                      'plotter: current density')
        elif n is G:
            m, s = meanstd(G)
            if ctx.ok(len(rec.calls) > 0, 'plotter: contour drawn'):
                grid_is(ctx, rec.calls[-1][1], np.linspace(-1, 1, 4), np.linspace(-2, 1, 5), lambda X, Y: stats.norm.pdf(X, m[0], s[0]) * stats.norm.pdf(Y, m[1], s[1]), 'plotter')
        else:
            m, s = meanstd(H)
            check_hinton(ctx, fig, to_blocks(m, s, None, None), s, False)

    if how == 'engine':
        # plots show the state at the time of plotting; one figure per node, reused
        figs = {}
        for op in sched:
            with ContourRecorder() as rec:
                if op == 'update':
                    Q.update(repeat=1, verbose=False, tol=-1)
                elif op == 'plot all':
                    Q.plot()
                else:
                    Q.plot(op if len(op) < 3 else nodes[op])
            ctx.op()
            drawn = [] if op == 'update' else (list(nodes) if op == 'plot all' else [op])
            cur = set(bp.pyplot.get_fignums())
            for name in drawn:
                n = nodes[name]
                f = figs.get(name)
                if f is None:
                    new = cur - set(v.number for v in figs.values())
                    f = [bp.pyplot.figure(k) for k in new if bp.pyplot.figure(k)._suptitle is not None and bp.pyplot.figure(k)._suptitle.get_text().find(name) >= 0]
                    if not ctx.ok(len(f) == 1, 'plotter: one new figure per node', '%s %d' % (name, len(f))):
                        return
                    f = figs[name] = f[0]
                verify(n, f, rec)
            ctx.ok(cur == set(v.number for v in figs.values()), 'plotter: one figure per node', '%s' % sorted(cur))
    elif how == 'update':
        names = sched
        with ContourRecorder() as rec:
            Q.update(repeat=2, verbose=False, tol=-1, plot=True if names == ['all'] else [(n if i % 2 else nodes[n]) for i, n in enumerate(names)])
        ctx.op(2)
        want = list(nodes) if names == ['all'] else names
        figs = [bp.pyplot.figure(k) for k in bp.pyplot.get_fignums()]
        if ctx.ok(len(figs) == len(set(want)), 'plotter: one figure per plotted node', str(len(figs))):
            # the plot of a node is made right after its own update, so it shows its final state
            for name in set(want):
                f = [g for g in figs if name in g._suptitle.get_text()]
                if ctx.ok(len(f) == 1, 'plotter: figure of the node'):
                    verify(nodes[name], f[0], rec)
    else:
        for name in sched:
            n = nodes[name]
            fig = bp.pyplot.figure()
            with ContourRecorder() as rec:
                n.plot(fig=fig) if how == 'node-fig' else n.plot()
            ctx.op()
            verify(n, fig, rec)
            Q.update(repeat=1, verbose=False, tol=-1)
        try:
            W.plot()
        except Exception:
            ctx.ok(True, 'x')
        else:
            ctx.ok(False, 'plotter: node without plotter drawn')
    ctx.state(*[snapshot(n) for n in nodes.values()])


def f_override(ctx, case):
    """Arguments given at the call override those stored in the plotter; stored ones stay."""
    _, stored, given = case
    x = gaussian((3,), (), 'random')
    p = bp.Plotter(bp.plot, **({} if stored is None else dict(scale=stored)))
    m, s = meanstd(x)
    for g in (given, None):
        fig = newfig()
        p(x, fig=fig, **({} if g is None else dict(scale=g)))
        ctx.op()
        k = g if g is not None else (stored if stored is not None else 2)
        b = band(fig.axes[0])
        ctx.close([b[float(t)] for t in range(3)], np.stack([m - k * s, m + k * s], axis=-1), 'plotter: arguments', rtol=1e-6)


def f_terms(ctx, case):
    """Bound contributions per node and iteration."""
    _, n, diff = case
    r = engine.rng('c24', 'terms')
    mu = bn.GaussianARD(0, 1, name='mu')
    tau = bn.Gamma(2, 2, name='tau')
    y = bn.GaussianARD(mu, tau, plates=(4,), name='y')
    y.observe(r.randn(4))
    Q = VB(mu, tau, y)
    terms = []
    for _ in range(n):
        Q.update(repeat=1, verbose=False, tol=-1)
        terms.append({k.name: float(v) for k, v in Q.compute_lowerbound_terms().items()})
    fig = newfig()
    Q.plot_iteration_by_nodes(diff=diff)
    ctx.op(n)
    ax = fig.axes[0]
    names = [t.get_text() for t in ax.get_legend().get_texts()]
    ctx.ok(sorted(names) == ['mu', 'tau', 'y'], 'terms: legend')
    for line, name in zip(ax.lines, names):
        xs, ys = np.asarray(line.get_xdata()), np.asarray(line.get_ydata())
        ok = np.isfinite(ys)
        ref = np.array([t[name] for t in terms])
        if diff:
            ctx.close(ys[ok], np.diff(ref), 'terms: contributions', atol=1e-7)
            ctx.close(xs[ok], np.arange(2, n + 1), 'terms: iterations')
        else:
            ctx.close(ys[ok], ref, 'terms: contributions', atol=1e-7)
            ctx.close(xs[ok], np.arange(1, n + 1), 'terms: iterations')


# ------------------------------------------------------------------ arrays

def f_array(ctx, case):
    _, fn, shape = case
    A = engine.rng('c24', 'array', tuple(shape)).randn(*shape)
    fig = newfig()
    ax = fig.add_subplot(1, 1, 1)
    if fn == 'matrix':
        bp.matrix(A, axes=ax)
        im = ax.images[0]
        ctx.close(im.get_array(), np.atleast_2d(A), 'matrix: values')
        v = np.max(np.abs(A))
        ctx.close(im.get_clim(), (-v, v), 'matrix: colours centred at zero')
    elif fn == 'matrixplot':
        bp.matrixplot(A, axes=ax)
        ctx.close(ax.images[0].get_array(), A, 'matrixplot: values')
    elif fn == 'sparse':
        import scipy.sparse as sp
        bp.matrixplot(sp.csr_matrix(A), axes=ax)
        ctx.close(ax.images[0].get_array(), A, 'matrixplot: values')
    elif fn == 'animation':
        B = np.stack([A, 2 * A, -A])
        an = bp.matrix_animation(B, fig=newfig())
        ax = an._fig.axes[0]
        for t in (1, 2, 0):
            an._func(t)
            ctx.close(ax.images[0].get_array(), B[t], 'animation: frame')
            ctx.ok(str(t) in ax.get_title(), 'animation: title')
        an._draw_was_started = True
    elif fn == 'contourplot':
        x1, x2 = np.linspace(0, 1, shape[1]), np.linspace(3, 4, shape[0])
        with ContourRecorder() as rec:
            bp.contourplot(x1, x2, A.ravel(), axes=ax)
            bp.contourplot(x1, x2, A.ravel(), axes=ax, filled=False)
        for _, args in rec.calls:
            grid_is(ctx, args, x1, x2, lambda X, Y: A, 'contourplot')
    elif fn == 'errorplot':
        y, lo, up = A[0], np.abs(A[1]), 2 * np.abs(A[1])
        x = np.arange(len(y)) * 2. + 1
        for kw, l, u in ((dict(error=lo), lo, lo), (dict(lower=lo), lo, lo), (dict(upper=up), up, up), (dict(lower=lo, upper=up), lo, up),
                         (dict(error=lo, upper=up), lo, up), (dict(error=lo, lower=up), up, lo)):
            for xx in (None, x):
                ax.clear()
                bp.errorplot(y=y, x=xx, axes=ax, **kw)
                X = np.arange(len(y)) if xx is None else xx
                ctx.close(ax.lines[0].get_xydata(), np.stack([X, y], axis=-1), 'errorplot: line')
                b = band(ax)
                ctx.close([b[float(t)] for t in X], np.stack([y - l, y + u], axis=-1), 'errorplot: band', rtol=1e-6)
                ctx.op()
    ctx.op()


# ------------------------------------------------------------------

def cases(tier):
    for k in ('gamma', 'gamma-upd', 'gauss', 'beta', 'mixture', 'function', 'poisson', 'binomial'):
        for where in ('none', 'axes', 'fig'):
            for named in ('none', 'arg', 'node'):
                yield ['pdf', k, where, named]
    for k in ('gauss', 'ard', 'mixture', 'function'):
        for nx, ny in itertools.product((2, 3, 5), repeat=2):
            for n, where in ((None, 'none'), (3, 'none'), (None, 'axes'), (None, 'fig')):
                yield ['contour', k, nx, ny, n, where]
    for c in plot_cases(tier):
        yield c
    for c in hinton_cases(tier):
        yield c
    for kind, plates in (('gauss0', [2, 3]), ('gamma', [2, 3]), ('array', [2, 3])):
        for a in (2, 5, -3, -7):
            yield ['badaxis', kind, plates, a, None]
            yield ['badaxis', kind, plates, None, a]
    for plates in ((), (2,), (1,), (2, 3)):
        for K in (2, 3):
            for T in (2, 4):
                for st in ('prior', 'updated'):
                    yield ['cmc', list(plates), K, T, st]
    for which in ('cov', 'prec'):
        for i in range(6):
            for scale in (None, 1, 3):
                yield ['ellipse', which, i, scale]
    for K in (1, 2, 3):
        for alpha in (False, True):
            for scale in (None, 1):
                for obs in ('none', 'part', 'all'):
                    for st in ('prior', 'updated'):
                        for loc in ('as is', 'random'):
                            yield ['mix2d', K, 4, alpha, scale, obs, st, loc]
    for D in (1, 2, 3):
        for st in ('prior', 'updated'):
            for fn in ('node', 'function'):
                yield ['marg', D, st, fn]
    ops = ['update', 'plot all', 'mu', 'H']
    for d in (1, 2, 3):
        for s in itertools.product(ops, repeat=d):
            yield ['plotter', 'engine', list(s)]
    for s in [['all']] + [list(c) for k in (1, 2, 3, 4) for c in itertools.combinations(('mu', 'tau', 'G', 'H'), k)]:
        yield ['plotter', 'update', s]
    for how in ('node', 'node-fig'):
        for s in itertools.permutations(('mu', 'tau', 'G', 'H')):
            yield ['plotter', how, list(s)]
    for stored in (None, 1, 3):
        for given in (None, 1.5):
            yield ['override', stored, given]
    for n in (1, 2, 3) + ((99, 100, 101, 200) if True else ()):
        for diff in (False, True):
            yield ['terms', n, diff]
    for shape in ((2, 3), (3, 2), (2, 2), (1, 3), (3, 1)):
        for fn in ('matrix', 'matrixplot', 'sparse', 'animation'):
            yield ['array', fn, list(shape)]
        if min(shape) > 1:
            for fn in ('contourplot', 'errorplot'):
                yield ['array', fn, list(shape)]
    yield ['array', 'matrix', [3]]


FN = dict(pdf=f_pdf, contour=f_contour, plot=f_plot, hinton=f_hinton, badaxis=f_badaxis, cmc=f_cmc, ellipse=f_ellipse, mix2d=f_mix2d, marg=f_marg,
          plotter=f_plotter, override=f_override, terms=f_terms, array=f_array)


def run(ctx, case):
    try:
        FN[case[0]](ctx, case)
    finally:
        bp.pyplot.close('all')
    ctx.outcomes.add(case[0])
