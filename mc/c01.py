"""C01: the bound never decreases, under every update schedule up to a depth."""
import itertools
import numpy as np
from . import zoo

ID = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of update schedules'
RULE = ('all update sequences of length d over the latent nodes of each zoo model (stateless re-execution), '
        'x 3 initialisations x missing-data masks x {direct, engine} x data changes; distinct = distinct '
        '(model, init, mask, data change, first operation) families, each enumerating all its tails')
BOUND = dict(quick='~29 models, <=5 latent nodes, all schedules of length 3 (n<=3: 4), all single/none/alternating masks',
             thorough='schedules of length 5 (n<=3: 6), all masks of <=6 plates')
ASSUMPTIONS = ['data values are fixed generic numbers per VERIF_SEED', 'rounding tolerance 1e-8 relative']
CASE_TIMEOUT = 600
INITS = ('prior', 'value', 'params')
# fixed-point iterations with their own stopping tolerance
LOOSE = {'concentration': 1e-5, 'gamma_shape': 1e-6}


def masks_for(name, tier):
    """List of (dict name->nested bool list) to explore."""
    out = [None]
    pl = zoo.OBSPLATES[name]
    for node, shape in pl.items():
        n = int(np.prod(shape))
        if tier == 'thorough' and n <= 6:
            bits = [b for b in itertools.product([0, 1], repeat=n) if 0 in b]
        else:
            bits = [tuple(int(j != i) for j in range(n)) for i in range(n)]
            bits += [tuple(int(j % 2 == 0) for j in range(n)), tuple(int(j == n - 1) for j in range(n))]
        seen = set()
        for b in bits:
            if b not in seen:
                seen.add(b)
                out.append({node: np.reshape(np.array(b), shape).tolist()})
    return out


def latents(name, init):
    return list(zoo.build(name, init=init).latent)


def cases(tier):
    for name in zoo.ZOO:
        lat = latents(name, 'prior')
        n = len(lat)
        d = (4 if n <= 3 else 3) if tier == 'quick' else (6 if n <= 3 else 5)
        for init in INITS:
            for first in lat:
                yield ['sched', name, init, None, d, first]
        for mask in masks_for(name, tier)[1:]:
            for init in (('prior',) if tier == 'quick' else INITS):
                for first in lat:
                    yield ['sched', name, init, mask, 2 if tier == 'quick' else 3, first]
        for init in INITS:
            yield ['engine', name, init, None]
        for mi, mask in enumerate(masks_for(name, 'quick')):
            yield ['newdata', name, mask]


def bound(m):
    return m.bound()


def check_step(ctx, name, prev, cur, what):
    tol = LOOSE.get(name, 1e-8)
    if np.isnan(cur):
        ctx.ok(False, 'nan bound', what)
    elif np.isneginf(prev) or np.isnan(prev):
        ctx.ok(True, 'start')
    else:
        ctx.ok(cur >= prev - tol * max(1.0, abs(prev)), 'bound decreased', '%s: %.12g -> %.12g' % (what, prev, cur))


def state(m):
    return [m.n[k].get_moments() for k in m.latent]


def run_schedule(ctx, name, m, sched, start=None):
    prev = bound(m) if start is None else start
    for i, k in enumerate(sched):
        m.n[k].update()
        cur = bound(m)
        ctx.op()
        check_step(ctx, name, prev, cur, 'update %s (step %d of %s)' % (k, i, '-'.join(sched)))
        prev = cur
    ctx.state(name, state(m))
    ctx.outcomes.add((name, round(prev, 6) if np.isfinite(prev) else prev))


def run(ctx, case):
    fam, name = case[0], case[1]
    if fam == 'sched':
        _, _, init, mask, d, first = case
        masks = {k: np.array(v, dtype=bool) for k, v in (mask or {}).items()}
        lat = zoo.build(name, masks=masks, init=init).latent
        ctx.traces = 0
        for tail in itertools.product(lat, repeat=d - 1):
            m = zoo.build(name, masks=masks, init=init)
            run_schedule(ctx, name, m, (first,) + tail)
            ctx.traces += 1
        # finish: sweep to (near) convergence in both directions, still monotone
        m = zoo.build(name, masks=masks, init=init)
        run_schedule(ctx, name, m, [first] + list(lat) * 2 + list(lat)[::-1] * 3)
    elif fam == 'engine':
        _, _, init, _ = case
        lat = zoo.build(name, init=init).latent
        ctx.traces = 0
        perms = list(itertools.permutations(lat, min(len(lat), 3)))
        for p in perms:
            m = zoo.build(name, init=init)
            vb = m.vb()
            vb.update(*[m.n[k] for k in p], repeat=3, tol=-1, verbose=False)
            vb.update(*[k for k in p[::-1]], repeat=2, tol=-1, verbose=False)
            L = vb.L[:vb.iter]
            ctx.op(len(p) * 5)
            ctx.traces += 1
            ctx.ok(vb.iter == 5 and len(L) == 5, 'iterations', vb.iter)
            ctx.ok(np.all(np.isfinite(L)) or np.any(np.isneginf(L)), 'finite history', L)
            for i in range(1, len(L)):
                check_step(ctx, name, L[i - 1], L[i], 'engine iteration %d order %s' % (i, p))
            ctx.close(vb.compute_lowerbound(), L[-1] if np.isfinite(L[-1]) else vb.compute_lowerbound(), 'reported bound', 1e-10, 1e-10)
            ctx.close(m.bound(), vb.compute_lowerbound(), 'sum of terms', 1e-9, 1e-9)
            ctx.state(name, state(m))
    elif fam == 'newdata':
        _, _, mask = case
        masks = {k: np.array(v, dtype=bool) for k, v in (mask or {}).items()}
        lat = zoo.build(name).latent
        ctx.traces = 0
        for k0 in lat:
            # update, swap data between complete and masked observation, then run a schedule
            m = zoo.build(name, init='params')
            m.n[k0].update()
            for k in list(lat):
                m.n[k].update()
            for obs, (data, _) in list(m.obs.items()):
                new = [np.asarray(x)[::-1].copy() for x in data]
                if name in ('beta_binomial', 'dirichlet_multinomial'):
                    new = [np.asarray(x) for x in data]
                mk = masks.get(obs, True)
                if name == 'factor_bias' and mk is not True:
                    mk = mk[..., 0]
                if mk is True:
                    m.n[obs].observe(*new)
                else:
                    m.n[obs].observe(*new, mask=mk)
            m.latent = list(lat)
            run_schedule(ctx, name, m, [k0] + list(lat) + list(lat)[::-1])
            ctx.traces += 1
