"""C06: a masked element is exactly an absent observation."""
import itertools
import numpy as np
from bayespy import nodes as bn
from . import unroll, zoo, engine

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of missing-data masks and fillers against the model without the missing observations'
RULE = ('every boolean mask of the observed plates (all 2^n, one or two axes, incl. masks that broadcast) x fillers for the masked values '
        'x plate layouts of the latent variables, compared factor by factor with the element-by-element model in which the missing '
        'observations do not exist; for the model zoo: all masks x fillers give identical runs')
BOUND = dict(quick='23 templates, all 2^6 masks of 2x3 plates (chains: 2^4 per sequence), 4 layouts, fillers alternating over masks; every latent variable observed in part (all one-, all-but-one-, some three-element patterns); zoo: all masks of <=6 plates; constants beside the missing observations (known means, precisions, offsets): all masks of 3 and 2x2 plates, constants undefined (nan, inf, huge) where the observation is missing',
             thorough='all layouts of the latent variables for every mask, every filler for every mask')
ASSUMPTIONS = ['masked values of discrete variables are themselves inside the support']
CASE_TIMEOUT = 300
FILLS = {'gauss': ('nan', 'huge', 'swap'), }
CONT = ('gauss', 'gauss_const', 'ard_full', 'ard_unit', 'mvn', 'mvn_const', 'mixture', 'dot', 'matvec', 'gate', 'gaussgamma', 'concat_gauss', 'hmm', 'hmm_tv', 'gmc', 'gmc_tv', 'gmc_mix', 'gmc_mix2')


def layouts(name, tier):
    f, free = unroll.FAM[name]
    if name.startswith(('gmc', 'hmm')):
        sh = [(), (1,), (2,)]
        if tier == 'quick':
            return [[()] * len(free), [(2,)] * len(free), [(2,)] + [()] * (len(free) - 1), [()] + [(2,)] * (len(free) - 1)]
        return [list(x) for x in itertools.product(sh, repeat=len(free))]
    if tier != 'quick':
        sh = [(), (2, 1), (3,), (1, 3), (2, 3)]
        return [list(x) for x in itertools.product(sh, repeat=len(free))]
    base = [(), (3,), (2, 1), (2, 3)]
    out = []
    for i in range(4):
        out.append([base[(i + j) % 4] for j in range(len(free))])
    return out


def cases(tier):
    for name in unroll.FAM:
        for lay in layouts(name, tier):
            chain = name.startswith(('gmc', 'hmm'))
            for row in itertools.product((0, 1), repeat=2 if chain else 3):
                yield ['tmpl', name, [list(l) for l in lay], list(row)]
        lays = layouts(name, tier)
        for lay in (lays[::2] if tier == 'quick' else lays):
            for k in PART.get(name, ()):
                yield ['part', name, [list(l) for l in lay], k]
    for name in zoo.ZOO:
        if name == 'concentration':      # its inner fixed-point iteration is slow; dirichlet_multinomial covers the same messages
            continue
        yield ['zoo', name]
    for name in UNDEF:
        yield ['undef', name]


def run(ctx, case):
    if case[0] == 'tmpl':
        f_tmpl(ctx, case)
    elif case[0] == 'part':
        f_part(ctx, case)
    elif case[0] == 'undef':
        f_undef(ctx, case)
    else:
        f_zoo(ctx, case)


def f_tmpl(ctx, case):
    _, name, lay, row = case
    f, free = unroll.FAM[name]
    chain = name.startswith(('gmc', 'hmm'))
    axes = (2,) if chain else (2, 3)
    vs = f()
    sinks = [v.name for v in vs if v.obs is not None]
    layout = {k: tuple(l) for k, l in zip(free, lay)}
    for v in vs:
        if not v.parents and v.name not in layout:
            layout[v.name] = ()
    for s in sinks:
        layout[s] = axes
    t = unroll.T(name, vs, axes, layout)
    shape = axes + (4,) if chain else axes
    n = 4 if chain else 3
    lat = t.latent()
    ctx.traces = 0
    masks = []
    if chain:
        # first row pattern: the two first steps given by the case; the other sequence takes 3 patterns
        for tail in itertools.product((0, 1), repeat=2):
            for other in ((1, 1, 1, 1), (0, 0, 0, 0), (0, 1, 1, 0)):
                masks.append(np.array([tuple(row) + tail, other], dtype=bool))
        masks.append(np.array(tuple(row) + (1, 0), dtype=bool))                     # broadcast over sequences
        masks.append(np.array([[row[0]], [row[1]]], dtype=bool))                      # whole sequences
    else:
        for r2 in itertools.product((0, 1), repeat=3):
            masks.append(np.array([row, r2], dtype=bool))
        masks.append(np.array(row, dtype=bool))
        masks.append(np.array([row], dtype=bool))
        masks.append(np.array([[row[0]], [row[1]]], dtype=bool))
        if row[0] == row[1] == row[2]:
            masks.append(np.array(bool(row[0])))
            masks.append(np.array([bool(row[0])]))
    for mi, m in enumerate(masks):
        for si, s in enumerate(sinks):
            if len(sinks) > 1 and si == 1 and mi % 2:
                continue
            mk = {s: m}
            if len(sinks) > 1 and si == 1:
                mk = {x: m for x in sinks}
            fills = ['swap']
            if name in CONT:
                fills = [['nan'], ['huge'], ['nan'], ['swap']][mi % 4]
            elif mi % 2 == 0:
                fills = ['first']
            if ctx.tier != 'quick':
                fills = ['nan', 'huge', 'swap'] if name in CONT else ['swap', 'first']
            for fill in fills:
                P = t.plated(masks=mk, fill=fill)
                U = t.unrolled(masks=mk)
                unroll.compare(ctx, t, P, U, 'missing data', lat + lat[::-1], label='%s mask %s fill %s' % (layout, m.astype(int).tolist(), fill))
                # observed elements keep their values
                for o in sinks:
                    v = t.by[o]
                    full = np.broadcast_to(mk[o], P[o].plates) if o in mk else np.ones(P[o].plates, bool)
                    if full.any():
                        ref = t.plated(init=False)
                        for a, b, d in zip(P[o].get_moments(), ref[o].get_moments(), P[o].dims):
                            A = np.broadcast_to(a, P[o].plates + d)[full]
                            B = np.broadcast_to(b, P[o].plates + d)[full]
                            ctx.close(A, B, 'observed element changed', 1e-12, 1e-12)
                ctx.traces += 1
                ctx.state(name, [P[k].get_moments() for k in lat])


def pos(r):
    return r.rand() + .3


# values for the latent variables which are observed in part
PART = dict(
    gauss=dict(mu=lambda r: r.randn(), tau=pos),
    gauss_const=dict(mu=lambda r: r.randn(), tau=pos),
    gamma_chain=dict(b=pos, tau=pos),
    ard_full=dict(mu=lambda r: r.randn(2), alpha=lambda r: r.rand(2) + .3),
    ard_unit=dict(mu=lambda r: r.randn(2), tau=lambda r: r.rand(1) + .3),
    mvn=dict(mu=lambda r: r.randn(2), L=lambda r: zoo.spd(r, 2)),
    dirichlet=dict(p=lambda r: zoo.simplex(r, 3)),
    beta=dict(p=lambda r: .1 + .8 * r.rand()),
    mixture=dict(Z=lambda r: r.randint(0, 2), mu=lambda r: r.randn(2), tau=lambda r: r.rand(2) + .3),
    cat_mixture=dict(Z=lambda r: r.randint(0, 2), al=lambda r: zoo.simplex(r, 2), P=lambda r: zoo.simplex(r, 3, 2)),
    dot=dict(Cc=lambda r: r.randn(2), X=lambda r: r.randn(2), tau=pos),
    matvec=dict(W=lambda r: r.randn(2, 2), b=lambda r: r.randn(2)),
    gate=dict(Z=lambda r: r.randint(0, 2), X=lambda r: r.randn(2)),
    concat_gauss=dict(u=lambda r: r.randn(1), v=lambda r: r.randn(2)),
    gmc=dict(A=lambda r: .5 * r.randn(1, 2, 2), nu=lambda r: r.rand(1, 2) + .3),
    hmm=dict(A=lambda r: zoo.simplex(r, 2, 1, 2)),
)


def part_masks(shape, tier):
    n = int(np.prod(shape))
    for bits in itertools.product((0, 1), repeat=n):
        if tier == 'quick' and n > 4 and sum(bits) not in (1, n - 1) and not (sum(bits) == 3 and bits[0]):
            continue
        yield np.array(bits, dtype=bool).reshape(shape)


def f_part(ctx, case):
    """a latent variable of which only some elements are observed, with observations below and above it"""
    _, name, lay, k = case
    f, free = unroll.FAM[name]
    chain = name.startswith(('gmc', 'hmm'))
    axes = (2,) if chain else (2, 3)
    vs = f()
    sinks = [v.name for v in vs if v.obs is not None]
    layout = {a: tuple(l) for a, l in zip(free, lay)}
    for v in vs:
        if not v.parents and v.name not in layout:
            layout[v.name] = axes if v.name == k else ()
    for s in sinks:
        layout[s] = axes
    t = unroll.T(name, vs, axes, layout)
    lat = t.latent()
    ctx.traces = 0
    o = t.outer[k]
    inner = t.by[k].inner
    idxs = list(t.indices(k))
    at = lambda idx: tuple(idx[len(axes) - len(o):])
    vals = {idx: np.asarray(PART[name][k](engine.rng(name, k, at(idx)))) for idx in idxs}
    d = np.shape(vals[idxs[0]])
    for mi, m in enumerate(part_masks(o, ctx.tier)):
        full = np.zeros(o + d, dtype=vals[idxs[0]].dtype)
        for idx in idxs:
            full[at(idx)] = vals[idx]
        if full.dtype.kind == 'f' and k in ('mu', 'X', 'Cc', 'W', 'b', 'u', 'v') and name != 'gamma_chain' and mi % 2:
            full[~m] = 1e5
        mk = None
        if mi % 3 == 2:       # some of the observations are missing too
            dm = np.ones(axes + ((4,) if chain else ()), bool)
            dm[0, 0] = False
            dm[1] = mi % 2 == 0
            mk = {sinks[0]: dm}
        P = t.plated(masks=mk)
        U = t.unrolled(masks=mk)
        P[k].observe(full, mask=m.reshape(m.shape + (1,) * len(inner)) if inner else m)
        for idx in idxs:
            if m[at(idx)] and (k, idx) in U:
                U[k, idx].observe(vals[idx])
        unroll.compare(ctx, t, P, U, 'partly observed', lat + lat[::-1], label='%s %s %s' % (k, layout, m.astype(int).tolist()))
        ctx.traces += 1
        ctx.state(name, k, [P[x].get_moments() for x in lat])


def zoo_masks(name):
    out = []
    for node, sh in zoo.OBSPLATES[name].items():
        n = int(np.prod(sh))
        for bits in itertools.product((0, 1), repeat=n):
            if n > 4 and sum(bits) in (2, 4) and bits[0]:
                continue
            out.append((node, np.array(bits, dtype=bool).reshape(sh)))
    return out


def perturb(data, mask, k):
    """other values at the masked positions (inside the support: values of other elements)"""
    out = []
    for x in data:
        x = np.array(x)
        y = x.copy()
        if mask.ndim <= x.ndim and mask.shape == x.shape[:mask.ndim]:
            flat = x[~mask]
            if x.dtype.kind == 'f' and k == 1:
                y[~mask] = np.nan
            elif x.dtype.kind == 'f':
                y[~mask] = -7e5
            elif len(flat):
                y[~mask] = np.roll(flat, 1, axis=0) if k == 0 else flat[::-1]
        out.append(y)
    return out


def trace(m, latent):
    out = [m.bound()]
    for k in latent * 2:
        m.n[k].update()
        out.append(m.bound())
    for k in latent:
        out += [np.array(np.broadcast_to(u, m.n[k].plates + d)) for u, d in zip(m.n[k].get_moments(), m.n[k].dims)]
    return out


def f_zoo(ctx, case):
    """zoo models: what stands at masked positions does not matter, nor how the mask is given, nor observing in two steps"""
    name = case[1]
    ctx.traces = 0
    for node, mask in zoo_masks(name):
        if name == 'factor_bias':
            mask = np.repeat(mask[:, :1], 2, axis=1)
        m0 = zoo.build(name, masks={node: mask}, init='params')
        a = trace(m0, m0.latent)
        mk = mask[..., 0] if name == 'factor_bias' else mask
        for k in (0, 1):
            m = zoo.build(name, init='params')
            # start again from a model that never saw data: observe only the masked data
            m.n[node].unobserve()
            data = perturb(m.obs[node][0], mk, k)
            if name in ('dirichlet_multinomial', 'beta_binomial'):
                data = list(m.obs[node][0])       # the support differs by element
            m.n[node].observe(*data, mask=mk if k == 0 else mk.tolist())
            b = trace(m, m0.latent)
            ctx.traces += 1
            ctx.op(len(b))
            for x, y in zip(b, a):
                if not ctx.close(x, y, 'the values at masked positions matter', 1e-9, 1e-9, '%s mask %s fill %d' % (node, mask.astype(int).tolist(), k)):
                    break
        ctx.state(name, a)


# constants (covariates, known precisions) standing beside the observations: undefined where the observation is missing
_c = lambda fill, m, *d: np.where(m.reshape(m.shape + (1,) * len(d)), np.arange(1., 1 + m.size * int(np.prod(d))).reshape(m.shape + d) / 3, fill)
_S = lambda fill, m: np.where(m[..., None, None], np.array([[2., .5], [.5, 1.]]) * (1 + np.arange(m.size).reshape(m.shape))[..., None, None], fill)


def _tau():
    return bn.Gamma(1.2, .7)


def _mu(*shape):
    return bn.GaussianARD(.3, .8, shape=shape)


UNDEF = {
    'mean': lambda c, m: (lambda t: ([t], bn.GaussianARD(_c(c, m), t)))(_tau()),
    'precision': lambda c, m: (lambda u: ([u], bn.GaussianARD(u, _c(c, m))))(_mu()),
    'offset': lambda c, m: (lambda u, t: ([u, t], bn.GaussianARD(bn.Add(u, _c(c, m)), t)))(_mu(), _tau()),
    'vector mean': lambda c, m: (lambda t: ([t], bn.GaussianARD(_c(c, m, 2), t, ndim=1)))(bn.Gamma(1.2, .7, plates=(2,))),
    'vector precision': lambda c, m: (lambda u: ([u], bn.GaussianARD(u, _c(c, m, 2), ndim=1)))(_mu(2)),
    'gaussian mean': lambda c, m: (lambda L: ([L], bn.Gaussian(_c(c, m, 2), L)))(bn.Wishart(3, np.eye(2))),
    'gaussian precision': lambda c, m: (lambda u: ([u], bn.Gaussian(u, _S(c, m))))(_mu(2)),
    'gamma shape': lambda c, m: (lambda t: ([t], bn.Gamma(_c(c, m), t)))(_tau()),
}


def f_undef(ctx, case):
    """undefined constants beside missing observations reach nothing"""
    name = case[1]
    ctx.traces = 0
    for plates in ((3,), (2, 2)):
        for bits in itertools.product((0, 1), repeat=int(np.prod(plates))):
            m = np.array(bits, bool).reshape(plates)
            runs = []
            for fill in (1., np.nan, np.inf, 1e200):
                if fill != 1. and name in ('gaussian precision', 'gamma shape'):
                    fill = {np.inf: 7., 1e200: 1e5}.get(fill, fill)
                    if np.isnan(fill):
                        continue
                f = fill * np.eye(2) if name == 'gaussian precision' else fill
                try:
                    lat, y = UNDEF[name](f, m)
                except ValueError:        # refusing an undefined constant is fine
                    continue
                dat = 0.4 + np.arange(np.prod(plates + y.dims[0])).reshape(plates + y.dims[0]) / 4
                y.observe(dat, mask=m)
                tr = []
                for _ in range(2):
                    for v in lat:
                        v.update()
                    tr.append([float(y.lower_bound_contribution())] + [float(v.lower_bound_contribution()) for v in lat])
                    tr += [np.copy(u) for v in lat for u in v.get_moments()]
                    ctx.op(len(lat))
                runs.append((fill, tr))
                ctx.traces += 1
            for fill, tr in runs[1:]:
                for a, b in zip(tr, runs[0][1]):
                    ctx.close(np.asarray(a), np.asarray(b), 'constants beside missing observations', 1e-9, 1e-12, '%s=%s mask %s' % (name, fill, m.astype(int).tolist()))
            ctx.state(name, plates, bits, runs[0][1])
