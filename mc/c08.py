"""C08: save/load at any point continues inference exactly."""
import itertools, os, shutil, tempfile
import numpy as np
import h5py
from bayespy.inference import VB
from bayespy import nodes as bn
from . import zoo, engine

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of save points (every operation boundary) x restore targets against the uninterrupted run'
RULE = ('every zoo model x initialisation x save point (every node update boundary of the run) x restore target '
        '{fresh, differently initialised and already run, same model after more updates, other data, no data}; every subset of loaded nodes; '
        'every autosave interval; the continued run is compared number by number with the uninterrupted one')
BOUND = dict(quick='29 models, save at 0..2 iterations + every node boundary, 2 further iterations; all node subsets (<=5 nodes: all, else <=2 and all-but-one)',
             thorough='save at 0..4 iterations, all initialisations, all masks of c01')
ASSUMPTIONS = ['the HDF5 library itself is trusted', 'the process is not killed while it writes the file (the library makes no such promise)']
CASE_TIMEOUT = 300
TARGETS = ('fresh', 'used', 'same', 'otherdata', 'nodata')


def node_sets(names):
    n = len(names)
    if n <= 5:
        return [c for k in range(1, n + 1) for c in itertools.combinations(names, k)]
    return [(a,) for a in names] + list(itertools.combinations(names, 2)) + [tuple(x for x in names if x != a) for a in names]


def cases(tier):
    for name in zoo.ZOO:
        inits = ('prior', 'params') if tier == 'quick' else ('prior', 'value', 'params')
        for init in inits:
            for k in (0, 1, 2) if tier == 'quick' else range(5):
                yield ['full', name, init, k]
        yield ['masked', name, 'params', 1]
        yield ['subset', name, 'params', 1]
        for interval in (1, 2, 3):
            yield ['auto', name, 'params', interval]
        yield ['node', name, 'params', 1]
        yield ['unobserved', name, 'params', 1]
    for which in ('userdata', 'callback', 'default file', 'names', 'missing'):
        yield ['misc', which]


def moms(m):
    return {k: [np.array(u) for u in n.get_moments()] for k, n in m.n.items()}


def pars(m):
    return {k: [np.array(u) for u in n.get_parameters()] for k, n in m.n.items() if hasattr(n, 'get_parameters')}


def terms(vb, m):
    return {k: np.array(vb.l[n][:int(vb.iter)]) for k, n in m.n.items()}


def same(ctx, a, b, what, names=None, rtol=1e-12):
    for k in (names if names is not None else a):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            sh = np.broadcast_shapes(np.shape(x), np.shape(y))
            if not ctx.close(np.broadcast_to(y, sh), np.broadcast_to(x, sh), what, rtol, 1e-12, '%s[%d]' % (k, i)):
                return False
    return True


def samebook(ctx, vb, ref, what):
    ctx.ok(int(vb.iter) == ref['iter'], what + ': iteration count', '%s vs %s' % (vb.iter, ref['iter']))
    ctx.close(np.array(vb.L[:ref['iter']]), ref['L'], what + ': bound history', 1e-12, 1e-12)
    ctx.close(np.array(vb.cputime[:ref['iter']]), ref['cpu'], what + ': cpu history', 1e-12, 1e-12)


def book(vb):
    i = int(vb.iter)
    return dict(iter=i, L=np.array(vb.L[:i]), cpu=np.array(vb.cputime[:i]))


def go(vb, k, nodes=()):
    if k:
        vb.update(*nodes, repeat=k, tol=-np.inf, verbose=False)


def masks_of(name):
    out = {}
    for node, sh in zoo.OBSPLATES[name].items():
        n = int(np.prod(sh))
        out[node] = np.array([(j % 3) != 1 for j in range(n)]).reshape(sh)
    return out


def target(name, init, kind, masks=None):
    """a model to load into"""
    other = dict(prior='params', value='prior', params='value')[init]
    if kind == 'fresh':
        m = zoo.build(name, masks=masks, init='prior')
        vb = m.vb()
    elif kind == 'used':
        m = zoo.build(name, masks=masks, init=other)
        vb = m.vb()
        go(vb, 3)
    elif kind == 'nodata':
        m = zoo.build(name, masks=masks, init='prior', observe=False)
        vb = m.vb()
    elif kind == 'otherdata':
        m = zoo.build(name, masks=masks, init=other)
        for obs, (data, mask) in m.obs.items():
            new = [np.asarray(x)[::-1].copy() for x in data] if name not in ('beta_binomial', 'dirichlet_multinomial') else data
            m.n[obs].observe(*new)
        vb = m.vb()
        go(vb, 1)
    return m, vb


def run(ctx, case):
    d = tempfile.mkdtemp(prefix='verif_c08_')
    try:
        globals()['f_' + case[0]](ctx, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def continue_and_compare(ctx, m, vb, ref_m, ref_vb, what, nodes=()):
    """ref has already continued; run m the same way"""
    go(vb, 2, [m.n[k] for k in nodes])
    ctx.op(2)
    i = int(ref_vb.iter)
    ctx.ok(int(vb.iter) == i, what + ': iteration count after continuing', '%s vs %s' % (vb.iter, i))
    ctx.close(np.array(vb.L[:i]), np.array(ref_vb.L[:i]), what + ': bounds after continuing', 1e-10, 1e-10)
    same(ctx, moms(ref_m), moms(m), what + ': moments after continuing', rtol=1e-10)


def f_full(ctx, case, d, masks=None):
    _, name, init, k = case
    fn = os.path.join(d, 'a.h5')
    ctx.traces = 0
    ref = zoo.build(name, masks=masks, init=init)
    lat = list(ref.latent)
    # boundaries inside the next iteration: after j single-node updates
    for j in range(len(lat) + 1):
        if masks is not None and j not in (0, len(lat)):
            continue
        A = zoo.build(name, masks=masks, init=init)
        vbA = A.vb()
        go(vbA, k)
        for x in lat[:j]:
            A.n[x].update()
        before = (moms(A), pars(A), A.bound(), book(vbA), terms(vbA, A))
        vbA.save(filename=fn)
        ctx.op()
        same(ctx, before[0], moms(A), 'saving changes the node')
        ctx.close(A.bound(), before[2], 'saving changes the bound', 1e-13)
        fn2 = os.path.join(d, 'b%d.h5' % j)
        shutil.copy(fn, fn2)
        go(vbA, 2)      # the uninterrupted run
        afterA = moms(A)
        for kind in TARGETS:
            if kind == 'same':
                B, vbB = A, vbA
                if j % 2:
                    for x in lat[::-1]:
                        A.n[x].update()
                save_ref = (book(vbA), moms(A))
                refL = np.array(vbA.L[:int(vbA.iter)])
                refiter = int(vbA.iter)
            else:
                B, vbB = target(name, init, kind, masks)
            vbB.load(filename=fn2)
            ctx.op()
            ctx.traces += 1
            w = 'loaded'
            same(ctx, before[0], moms(B), w + ': moments')
            same(ctx, before[1], pars(B), w + ': parameters')
            ctx.close(B.bound(), before[2], w + ': bound', 1e-11, 1e-10, kind)
            samebook(ctx, vbB, before[3], w)
            t = terms(vbB, B)
            for x in before[4]:
                ctx.close(t[x], before[4][x], w + ': bound terms', 1e-12, 1e-12, x)
            if kind != 'same':
                continue_and_compare(ctx, B, vbB, A, vbA, w)
            else:
                go(vbB, 2)
                i = refiter
                ctx.ok(int(vbB.iter) == i, w + ': iteration count after continuing', kind)
                ctx.close(np.array(vbB.L[:i]), refL, w + ': bounds after continuing', 1e-10, 1e-10, kind)
                same(ctx, afterA, moms(B), w + ': moments after continuing', rtol=1e-10)
        ctx.state(name, [before[0][x] for x in sorted(before[0])])


def f_masked(ctx, case, d):
    f_full(ctx, case, d, masks=masks_of(case[1]))


def f_subset(ctx, case, d):
    _, name, init, k = case
    fn = os.path.join(d, 'a.h5')
    A = zoo.build(name, init=init)
    vbA = A.vb()
    go(vbA, k)
    vbA.save(filename=fn)
    a = moms(A); pa = pars(A); bk = book(vbA); ta = terms(vbA, A)
    names = list(A.n)
    ctx.traces = 0
    for sub in node_sets(names):
        for nodes_only in (False, True):
            for how in ('vb', 'names'):
                if how == 'names' and len(sub) > 1 and nodes_only:
                    continue
                B, vbB = target(name, init, 'used')
                b0 = moms(B); pb0 = pars(B); bk0 = book(vbB)
                args = [B.n[x] for x in sub] if how == 'vb' else list(sub)
                vbB.load(*args, filename=fn, nodes_only=nodes_only)
                ctx.op(); ctx.traces += 1
                mb, pb = moms(B), pars(B)
                rest = [x for x in names if x not in sub]
                same(ctx, a, mb, 'loaded subset', sub)
                same(ctx, b0, mb, 'nodes outside the subset', rest)
                same(ctx, {x: pa[x] for x in sub if x in pa}, pb, 'loaded subset: parameters', [x for x in sub if x in pa])
                same(ctx, {x: pb0[x] for x in rest if x in pb0}, pb, 'parameters outside the subset', [x for x in rest if x in pb0])
                samebook(ctx, vbB, bk0 if nodes_only else bk, 'subset, nodes_only=%s' % nodes_only)
                if not nodes_only:
                    for x in sub:
                        ctx.close(np.array(vbB.l[B.n[x]][:bk['iter']]), ta[x], 'subset bound terms', 1e-12, 1e-12)
                # inference goes on, as in a model that has these factors
                C, vbC = target(name, init, 'used')
                for x in sub:
                    if x in pa and x in C.latent and init != 'value':
                        C.n[x].set_parameters([np.copy(p) for p in pa[x]])
                it = int(vbB.iter)
                go(vbB, 1)
                ctx.ok(int(vbB.iter) == it + 1, 'continuing after a partial load')
                if all(x in C.latent for x in sub if x in pa) and all(x in pa for x in sub):
                    # (loading an observed node is a no-op here: same data)
                    go(vbC, 1)
                    same(ctx, moms(C), moms(B), 'partial load, continued', rtol=1e-8)
        # a file with only this subset
        fs = os.path.join(d, 's.h5')
        vbA.save(*[A.n[x] for x in sub], filename=fs)
        B, vbB = target(name, init, 'fresh')
        b0 = moms(B)
        vbB.load(*sub, filename=fs)
        same(ctx, a, moms(B), 'saved subset', sub)
        same(ctx, b0, moms(B), 'nodes outside the saved subset', [x for x in names if x not in sub])
        go(vbB, 1)
        ctx.ok(int(vbB.iter) == bk['iter'] + 1, 'continuing after loading a saved subset')
        ctx.state(name, sub)


def f_auto(ctx, case, d):
    """autosaved file == state at the end of that iteration"""
    _, name, init, interval = case
    ctx.traces = 0
    for total in (interval, interval + 1, 2 * interval):
        fn = os.path.join(d, 'auto%d.h5' % total)
        A = zoo.build(name, init=init)
        vbA = A.vb(autosave_filename=fn, autosave_iterations=interval)
        if interval == 2:
            vbA = A.vb()
            vbA.set_autosave(fn, iterations=interval)
        go(vbA, total)
        last = (total // interval) * interval
        R = zoo.build(name, init=init)
        vbR = R.vb()
        go(vbR, last)
        B, vbB = target(name, init, 'used')
        vbB.load(filename=fn)
        ctx.op(); ctx.traces += 1
        ctx.ok(int(vbB.iter) == last, 'autosave: iteration count', '%s, expected %s' % (vbB.iter, last))
        ctx.close(np.array(vbB.L[:last]), np.array(vbR.L[:last]), 'autosave: bounds', 1e-11, 1e-11)
        same(ctx, moms(R), moms(B), 'autosave: moments', rtol=1e-11)
        if total == last + 1 or total == last:
            go(vbR, 2)
            continue_and_compare(ctx, B, vbB, R, vbR, 'autosave')
        ctx.state(name, interval, total)
    # no autosave before the interval is full
    fn = os.path.join(d, 'never.h5')
    A = zoo.build(name, init=init)
    vbA = A.vb(autosave_filename=fn, autosave_iterations=interval)
    go(vbA, interval - 1)
    ctx.ok(not os.path.exists(fn), 'autosave before its interval')
    # only some nodes
    sub = list(A.n)[:1]
    fn = os.path.join(d, 'some.h5')
    A = zoo.build(name, init=init)
    vbA = A.vb()
    vbA.set_autosave(fn, iterations=interval, nodes=sub)
    go(vbA, interval)
    B, vbB = target(name, init, 'used')
    b0 = moms(B)
    vbB.load(*sub, filename=fn)
    same(ctx, moms(A), moms(B), 'autosave of some nodes', sub)
    same(ctx, b0, moms(B), 'autosave of some nodes: others', list(A.n)[1:])


def f_node(ctx, case, d):
    """save/load of single nodes"""
    _, name, init, k = case
    A = zoo.build(name, init=init)
    vbA = A.vb()
    go(vbA, k)
    a, pa = moms(A), pars(A)
    ctx.traces = 0
    for x in A.n:
        fn = os.path.join(d, '%s.h5' % x)
        A.n[x].save(fn)
        for kind in ('fresh', 'used', 'otherdata'):
            B, vbB = target(name, init, kind)
            b0 = moms(B)
            B.n[x].load(fn)
            ctx.op(); ctx.traces += 1
            same(ctx, a, moms(B), 'node load', [x])
            same(ctx, b0, moms(B), 'node load: others', [y for y in A.n if y != x])
            if x in pa:
                same(ctx, pa, pars(B), 'node load: parameters', [x])
        if x in pa:
            L = A.n[x].lower_bound_contribution()
            B, vbB = target(name, init, 'used')
            for y in A.n:
                A.n[y].save(os.path.join(d, 'n.h5'))
                B.n[y].load(os.path.join(d, 'n.h5'))
            ctx.close(B.n[x].lower_bound_contribution(), L, 'node load: bound', 1e-11, 1e-11)
        ctx.state(name, x)


def f_unobserved(ctx, case, d):
    """what is observed is part of the saved state"""
    _, name, init, k = case
    ctx.traces = 0
    mk = masks_of(name)
    base = zoo.build(name, init=init)
    for obs in base.obs:
        for how in ('unobserve', 'partial'):
            if name == 'concentration' and how == 'unobserve':
                continue        # very slow fixed-point iterations, nothing specific
            A = zoo.build(name, init=init)
            data = A.obs[obs][0]
            if how == 'unobserve':
                A.n[obs].unobserve()
            else:
                m = mk[obs][..., 0] if name == 'factor_bias' else mk[obs]
                A.n[obs].observe(*data, mask=m)
            A.n[obs].update()
            vbA = A.vb()
            go(vbA, k)
            fn = os.path.join(d, 'a.h5')
            vbA.save(filename=fn)
            L0, a = A.bound(), moms(A)
            B = zoo.build(name, init='params')
            vbB = B.vb()
            go(vbB, 1)
            vbB.load(filename=fn)
            ctx.op(); ctx.traces += 1
            same(ctx, a, moms(B), 'observed status: moments')
            ctx.close(B.bound(), L0, 'observed status: bound', 1e-10, 1e-10, how)
            for n in A.n:
                ctx.close(np.broadcast_to(B.n[n].get_mask(), B.n[n].plates) + 0., np.broadcast_to(A.n[n].get_mask(), A.n[n].plates) + 0., 'observed status: mask')
            go(vbA, 2)
            continue_and_compare(ctx, B, vbB, A, vbA, 'observed status')
        ctx.state(name, obs)


def f_misc(ctx, case, d):
    which = case[1]
    fn = os.path.join(d, 'a.h5')

    def mk():
        mu = bn.GaussianARD(0, 1, name='mu'); t = bn.Gamma(1, 1, name='tau')
        Y = bn.GaussianARD(mu, t, plates=(4,), name='Y')
        Y.observe([1., 2., 0., 3.])
        return mu, t, Y
    if which == 'userdata':
        ud = dict(seed=3, w=np.arange(3.), label='abc')
        vb = VB(*mk(), user_data=ud)
        for k in range(3):
            vb.save(filename=fn)
            got = VB.load_user_data(fn)
            ctx.ok(sorted(got) == sorted(ud), 'user data keys', got)
            ctx.close(got['w'], ud['w'], 'user data')
            ctx.ok(int(got['seed']) == 3, 'user data scalar')
            v = got['label'].item() if hasattr(got['label'], 'item') else got['label']
            ctx.ok(v in (b'abc', 'abc'), 'user data string', v)
            vb2 = VB(*mk())
            vb2.load(filename=fn)
            ctx.ok(int(vb2.iter) == k, 'iterations')
            go(vb, 1)
            ctx.op()
            ctx.state(k)
        vb.set_autosave(fn, iterations=1)
        go(vb, 1)
        ctx.close(VB.load_user_data(fn)['w'], ud['w'], 'user data in an automatic save')
    elif which == 'callback':
        c = [0]
        def cb():
            c[0] += 1
            return np.array([c[0], 2. * c[0]])
        vb = VB(*mk(), callback=cb)
        for k in range(4):
            vb.save(filename=fn)
            vb2 = VB(*mk(), callback=lambda: np.array([-1., -2.]))
            vb2.load(filename=fn)
            if k == 0:
                ctx.ok(vb2.callback_output is None, 'callback output before any iteration')
            else:
                ctx.close(vb2.callback_output, np.array([[1, 2, 3, 4][:k], [2, 4, 6, 8][:k]], float), 'callback output')
                go(vb2, 1)
                ctx.close(vb2.callback_output, np.array([[1, 2, 3, 4][:k] + [-1], [2, 4, 6, 8][:k] + [-2]], float), 'callback output continued')
            go(vb, 1)
            ctx.op(); ctx.state(k)
    elif which == 'default file':
        A = mk()
        vb = VB(*A, autosave_filename=fn)
        go(vb, 2)
        vb.save()
        ctx.ok(os.path.exists(fn), 'default file used')
        mo = [np.array(u) for u in A[0].get_moments()]
        go(vb, 2)
        vb.load()
        ctx.close(A[0].get_moments()[0], mo[0], 'default file load', 1e-12)
        ctx.ok(int(vb.iter) == 2, 'iterations')
        vb = VB(*mk())
        go(vb, 1)
        vb.set_autosave(os.path.join(d, 'z.h5'))
        vb.save()
        ctx.ok(os.path.exists(os.path.join(d, 'z.h5')), 'set_autosave file used')
        ctx.op(); ctx.state(0)
    elif which == 'names':
        mu = bn.GaussianARD(0, 1); Y = bn.GaussianARD(mu, 1, plates=(4,), name='Y')
        Y.observe([1., 2., 0., 3.])
        vb = VB(mu, Y)
        for f in (lambda: vb.save(filename=fn), lambda: mu.save(fn)):
            try:
                f()
                ctx.ok(False, 'unnamed nodes must be refused')
            except Exception:
                ctx.ok(True, 'refused')
        L = vb.compute_lowerbound()
        go(vb, 1)
        ctx.ok(vb.L[0] >= L, 'still usable')
        ctx.op(); ctx.state(0)
    elif which == 'missing':
        A = mk()
        vb = VB(*A)
        go(vb, 1)
        vb.save(A[0], filename=fn)
        B = mk()
        vb2 = VB(*B)
        for args in ((), ('tau',), ('tau', 'mu')):
            try:
                vb2.load(*args, filename=fn)
                ctx.ok(False, 'loading a node the file does not contain', args)
            except Exception:
                ctx.ok(True, 'refused')
        vb2.load('mu', filename=fn)
        ctx.close(B[0].get_moments()[0], A[0].get_moments()[0], 'contained node', 1e-12)
        ctx.op(); ctx.state(0)
