"""C05: plates mean replication."""
import itertools
import numpy as np
from . import unroll, engine

ID = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of plate layouts against the model written out element by element'
RULE = ('every assignment of outer plate shapes {absent, 1, n}^axes to the enumerated variables/constants of each template x child plates '
        '{inferred, explicit (all axes)}; each is updated by a two-sweep schedule and every factor and bound term is compared with the '
        'element-by-element model')
BOUND = dict(quick='23 templates, two plate axes (7 layouts per variable, all combinations), schedules of two sweeps',
             thorough='additionally three axes (15 layouts) for two enumerated variables, and axes of length 1')
ASSUMPTIONS = ['axis lengths 2 and 3 (distinct), values generic']
CASE_TIMEOUT = 300


def axes_of(name, tier):
    out = [(2, 3)]
    if name.startswith(('gmc', 'hmm')):
        out = [(2,)] if tier == 'quick' else [(2,), (2, 3)]
    return out


def cases(tier):
    for name, (f, free) in unroll.FAM.items():
        for axes in axes_of(name, tier):
            sh = unroll.shapes(axes)
            for first in sh:
                for second in sh:
                    yield [name, list(axes), [list(first), list(second)]]
    # three axes
    for name, (f, free) in unroll.FAM.items():
        if name.startswith(('gmc', 'hmm')):
            continue
        axes = (2, 3, 2)
        sh = unroll.shapes(axes)
        lst = sh if tier == 'thorough' else [s for s in sh if len(s) == 3 or len(s) == 0]
        for first in lst:
            yield [name, list(axes), [list(first)]]


def run(ctx, case):
    name, axes, pre = case
    axes = tuple(axes)
    f, free = unroll.FAM[name]
    sh = unroll.shapes(axes)
    rest = free[len(pre):]
    ctx.traces = 0
    three = len(axes) == 3
    for tail in itertools.product(sh, repeat=len(rest)):
        if three:
            if ctx.tier == 'quick' and len(rest) > 1:
                # keep the product small: the others are absent except one
                if sum(t != () for t in tail) > 1 or any(len(t) not in (0, 3) for t in tail):
                    continue
        lay = {k: tuple(x) for k, x in zip(free, list(map(tuple, pre)) + list(tail))}
        vs = f()
        # the remaining roots (not enumerated) are shared, without plates
        for v in vs:
            if not v.parents and v.name not in lay:
                lay[v.name] = ()
        sinks = [v.name for v in vs if v.obs is not None]
        for explicit in ((False, True) if not three or ctx.tier == 'thorough' else (bool(len(pre[0])),)):
            l2 = dict(lay)
            if explicit:
                for s in sinks:
                    l2[s] = axes
            t = unroll.T(name, vs, axes, l2)
            # the inferred plates of every node are the broadcast of its parents
            P = t.plated()
            for v in vs:
                if v.const is None:
                    want = t.outer[v.name] + v.inner
                    got = P[v.name].plates
                    if name.startswith('hmm') and v.name == 'mu' and len(want) > 1:
                        continue
                    ctx.ok(tuple(got) == tuple(want), 'plates', '%s of %s: %s, expected %s in %s' % (v.name, name, got, want, lay))
            U = t.unrolled()
            lat = t.latent()
            ok = unroll.compare(ctx, t, P, U, 'replication', lat + lat[::-1], label=str(l2), whole=True)
            ctx.traces += 1
            ctx.state(name, [P[k].get_moments() for k in lat])
