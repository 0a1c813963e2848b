"""C11: linear-algebra nodes propagate exact Gaussian moments and messages."""
import itertools
import numpy as np
from scipy.special import psi
from bayespy import nodes as bn
from . import engine, zoo

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of key patterns, input kinds and plate layouts against dense Bayesian linear regression'
RULE = ('every SumMultiply pattern of 1-3 inputs over keys {i,j} (all orders, all outputs) x {random, constant, unit-length axis, '
        'Gaussian-gamma} inputs x plate layouts x masks; Dot, Add, ConcatGaussian and compositions: output moments, posterior of every '
        'input given the others and the bound term equal those of the explicit dense design matrix')
BOUND = dict(quick='keys {i,j} (sizes 2,3), 1-2 inputs: all patterns; 3 inputs (up to three Gaussian-gamma): all patterns with <=4 axes; 4-6 plate layouts per pattern (2x3), 3 masks',
             thorough='3 keys, all layouts {(),(3,),(2,1),(2,3)} for every input, all patterns of 3 inputs')
ASSUMPTIONS = ['inputs are independent in the approximation (separate factors)', 'generic values']
CASE_TIMEOUT = 300
SIZE = dict(i=2, j=3, k=2)
PL = (2, 3)
LAY = [(), (3,), (2, 1), (2, 3), (1, 3), (1, 1)]


# ------------------------------------------------------------------------------------------ enumeration
def keysets(keys, maxlen=2):
    out = ['']
    for n in range(1, maxlen + 1):
        for p in itertools.permutations(keys, n):
            out.append(''.join(p))
    return out


def patterns(n, keys='ij', maxax=6):
    ks = keysets(keys)
    for ins in itertools.product(ks, repeat=n):
        if sum(map(len, ins)) > maxax:
            continue
        # rename symmetric patterns: first key that appears is i (only when all keys have the same role)
        used = sorted(set(''.join(ins)))
        for out in keysets(used) if used else ['']:
            yield list(ins), out


def kindsets(n, tier):
    base = [['g'] * n]
    if n == 2:
        base += [['g', 'c'], ['c', 'g'], ['G', 'g'], ['g', 'G'], ['G', 'c'], ['c', 'G'], ['G', 'G'], ['1', 'g'], ['g', '1']]
    if n == 1:
        base += [['G']]
    if n == 3:
        base += [['g', 'c', 'g'], ['G', 'g', 'c'], ['g', '1', 'g'], ['G', 'G', 'g'], ['g', 'G', 'G'], ['G', 'G', 'G']]
    return base


def cases(tier):
    for n in (1, 2, 3):
        pats = list(patterns(n, maxax=6 if (n < 3 or tier == 'thorough') else 4))
        for q, (ins, out) in enumerate(pats):
            for kq, kinds in enumerate(kindsets(n, tier)):
                if any(k == '1' and not s for k, s in zip(kinds, ins)):
                    continue
                if n == 3 and tier == 'quick' and kq and (q + kq) % 3:
                    continue
                if 'G' in kinds and (len(out) > 1):
                    continue
                yield ['sm', ins, out, kinds]
    if tier == 'thorough':
        for ins, out in patterns(2, 'ijk', 4):
            yield ['sm', ins, out, ['g', 'g']]
    for n in (2, 3):
        for lays in itertools.product(LAY[:4], repeat=n):
            yield ['dot', [list(l) for l in lays]]
    for shape in ((), (2,), (2, 3)):
        for n in (2, 3):
            for kinds in itertools.product('gc', repeat=n):
                if 'g' in kinds:
                    yield ['add', list(shape), list(kinds)]
    for shape in ((), (2,)):
        for kinds in (['gggg', 'gcgg', 'ggcgg'] if tier == 'quick' else [''.join(k) for n in (4, 5) for k in itertools.product('gc', repeat=n) if 'g' in k]):
            yield ['add', list(shape), list(kinds)]
    for dims in ((1, 2), (2, 1), (2, 2), (1, 1, 2), (1, 2, 1, 1)):
        for kinds in itertools.product('gc', repeat=len(dims)):
            if 'g' in kinds:
                yield ['concat', list(dims), list(kinds)]
    for i in range(len(COMPO)):
        yield ['compo', i]


# ------------------------------------------------------------------------------------------ dense reference
def prime(keys):
    return keys.upper()


def esum(terms, out):
    """einsum with broadcasting of unit axes and of axes that occur nowhere"""
    ops, subs = [], []
    for arr, s in terms:
        ops.append(arr)
        subs.append(s)
    return np.einsum(','.join(subs) + '->' + out, *ops)


class Inp:
    """one input: node or constant, with exact moments per plate element"""

    def __init__(self, kind, keys, lay, r, sizes):
        self.kind, self.keys, self.lay = kind, keys, tuple(lay)
        self.size = dict(sizes)
        shape = tuple((1 if kind == '1' else sizes[k]) for k in keys)
        self.shape = shape
        lay = self.lay
        self.d = int(np.prod(shape))
        if kind == 'c':
            self.value = np.asarray(r.randn(*(lay + shape)))
            self.node = self.value
            return
        if kind == 'G':
            self.node = None
            d = self.d
            self.mu = r.randn(*lay, *shape)
            self.Lam = zoo.spd(r, d, *lay) if d else None
            self.a = np.asarray(1.5 + r.rand(*lay))
            self.b = np.asarray(1.0 + r.rand(*lay))
            if len(shape) == 1:
                self.node = bn.GaussianGamma(self.mu, self.Lam, self.a, self.b, plates=lay)
            else:
                raise KeyError
            return
        self.m0 = np.asarray(r.randn(*(lay + shape)))
        self.a0 = np.asarray(r.rand(*(lay + shape)) + .4)
        self.node = bn.GaussianARD(self.m0, self.a0, shape=shape, plates=lay)
        self.node.initialize_from_parameters(r.randn(*(lay + shape)), r.rand(*(lay + shape)) + .5)

    def at(self, arr, trail, p):
        """element of an array with plates self.lay at the plate position p of the full plates"""
        lay = self.lay
        idx = tuple(0 if n == 1 else i for n, i in zip(lay, p[len(p) - len(lay):])) if lay else ()
        return arr[idx]

    def moments(self):
        """(x, xx, tau, logtau) with plates self.lay"""
        if self.kind == 'c':
            x = self.value.reshape(self.lay + (self.d,))
            return x, np.einsum('...i,...j->...ij', x, x), np.ones(self.lay), np.zeros(self.lay)
        u = self.node.get_moments()
        nd = len(self.shape)
        x = np.broadcast_to(u[0], self.lay + self.shape).reshape(self.lay + (self.d,))
        xx = np.broadcast_to(u[1], self.lay + self.shape * 2).reshape(self.lay + (self.d, self.d))
        if self.kind == 'G':
            return x, xx, np.broadcast_to(u[2], self.lay), np.broadcast_to(u[3], self.lay)
        return x, xx, np.ones(self.lay), np.zeros(self.lay)

    def expand(self, x, p, sizes, second):
        """moment of one plate element as an array over the (full-size) keys; unit axes repeated"""
        sh = self.shape * (2 if second else 1)
        full = tuple(sizes[k] for k in self.keys) * (2 if second else 1)
        return np.broadcast_to(np.asarray(x).reshape(sh), full)


def reference(inps, out, sizes, p):
    """exact mean and second moment of the output at one plate element"""
    t1, t2 = [], []
    tau, lt = 1.0, 0.0
    for a in inps:
        x, xx, t, l = a.moments()
        t1.append((a.expand(a.at(x, 1, p), p, sizes, False), a.keys))
        t2.append((a.expand(a.at(xx, 2, p), p, sizes, True), a.keys + prime(a.keys)))
        tau *= a.at(t, 0, p)
        lt += a.at(l, 0, p)
    return esum(t1, out), esum(t2, out + prime(out)), tau, lt


def message(inps, n, out, sizes, p, y, T):
    """E[A^T T A], E[A^T T y], with T diagonal over the output keys (array over the output keys)"""
    me = inps[n]
    oth = [a for k, a in enumerate(inps) if k != n]
    outsh = tuple(sizes[k] for k in out)
    Td = np.zeros(outsh + outsh)
    for o in itertools.product(*[range(s) for s in outsh]):
        Td[o + o] = np.asarray(T)[o]
    t1 = [(np.asarray(T) * np.asarray(y), out)]
    t2 = [(Td, out + prime(out))]
    tau = 1.0
    for a in oth:
        x, xx, t, l = a.moments()
        t1.append((a.expand(a.at(x, 1, p), p, sizes, False), a.keys))
        t2.append((a.expand(a.at(xx, 2, p), p, sizes, True), a.keys + prime(a.keys)))
        tau *= a.at(t, 0, p)
    for k in me.keys:
        t1.append((np.ones(sizes[k]), k))
        t2.append((np.ones((sizes[k], sizes[k])), k + prime(k)))
    b = esum(t1, me.keys)
    M = esum(t2, me.keys + prime(me.keys))
    # unit axes of the input: the same variable element serves every position
    for ax, (k, s) in enumerate(zip(me.keys, me.shape)):
        if s == 1 and sizes[k] != 1:
            b = b.sum(axis=ax, keepdims=True)
            M = M.sum(axis=ax, keepdims=True).sum(axis=ax + len(me.keys), keepdims=True)
    return M.reshape(me.d, me.d), b.reshape(me.d), tau


def masks_for(tier, k):
    ms = [None, np.array([[1, 0, 1], [0, 1, 1]], bool), np.array([[0], [1]], bool), np.array([1, 0, 0], bool), np.zeros((2, 3), bool)]
    return ms if tier == 'thorough' else [ms[0], ms[1 + k % 4]]


def layouts(n, k, tier):
    if tier == 'thorough' and n <= 2:
        return list(itertools.product(LAY, repeat=n))
    out = []
    for q in range(4 if n < 3 else 3):
        out.append(tuple(LAY[(k + q + (q + 1) * j) % 4] for j in range(n)))
    return out


def f_sm(ctx, case):
    _, ins, out, kinds = case
    n = len(ins)
    ctx.traces = 0
    salt = sum(map(ord, ''.join(ins) + out + ''.join(kinds)))
    if any(k == 'G' and len(s) != 1 for k, s in zip(kinds, ins)):
        return _skip(ctx)
    gg = 'G' in kinds
    # size of every key: unit-length inputs broadcast against the others
    sizes = {}
    for k in set(''.join(ins)):
        full = any(k in s and kd != '1' for s, kd in zip(ins, kinds))
        sizes[k] = SIZE[k] if full else 1
    pat = ','.join(ins) + '->' + out
    for li, lays in enumerate(layouts(n, salt, ctx.tier)):
        for mi, mask in enumerate(masks_for(ctx.tier, salt + li)):
            r = engine.rng('c11', ins, out, kinds, li, mi)
            inps = [Inp(k, s, l, r, dict(SIZE)) for k, s, l in zip(kinds, ins, lays)]
            if (li + mi) % 2 == 0:
                F = bn.SumMultiply(pat if out else (pat if li else pat[:-2]), *[a.node for a in inps])
            else:
                num = dict(i=4, j=0, k=7)
                args = []
                for a in inps:
                    args += [a.node, [num[c] for c in a.keys]]
                if out or li % 2:
                    args.append([num[c] for c in out])
                F = bn.SumMultiply(*args)
            check_node(ctx, F, inps, out, sizes, mask, r, '%s %s plates %s mask %s' % (pat, kinds, lays, None if mask is None else mask.astype(int).tolist()), gg)


def _skip(ctx):
    ctx.evals += 1
    ctx.nontrivial = True


def check_node(ctx, F, inps, out, sizes, mask, r, label, gg=False):
    outsh = tuple(sizes[k] for k in out)
    plates = np.broadcast_shapes(*[a.lay for a in inps])
    if not ctx.ok(tuple(F.plates) == plates, 'plates', '%s: %s' % (label, F.plates)):
        return
    ctx.ok(tuple(F.dims[0]) == outsh, 'dims', '%s: %s' % (label, F.dims))

    def check_moments():
        u = [np.broadcast_to(x, F.plates + d) for x, d in zip(F.get_moments(), F.dims)]
        ctx.op()
        want = [[], [], [], []]
        for p in np.ndindex(*plates):
            for w, v in zip(want, reference(inps, out, sizes, p)):
                w.append(v)
        for i in range(4 if gg else 2):
            ctx.close(u[i], np.array(want[i]).reshape(u[i].shape), 'moment %d of the output' % i, 1e-9, 1e-9, label)
    check_moments()
    if gg and out:
        # vectors with an own scale have no direct Gaussian child: continue through an inner product with a constant
        h = Inp('c', out, (), r, sizes)
        F, inps, out, outsh = bn.SumMultiply('%s,%s' % (out, out), F, h.node), inps + [h], '', ()
        check_moments()
    T = np.asarray(r.rand(*outsh) + .5)
    y = np.asarray(r.randn(*(PL + outsh)))
    Y = bn.GaussianARD(F, T, ndim=len(out), plates=PL)
    if mask is None:
        Y.observe(y)
    else:
        Y.observe(y, mask=mask)
    m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)

    def check_bound():
        L = 0.0
        for p in np.ndindex(*PL):
            if m[p]:
                mean, sec, tau, lt = reference(inps, out, sizes, p)
                diag = np.einsum('ii->i', np.asarray(sec).reshape(int(np.prod(outsh)), -1)).reshape(outsh)
                # E[log N(y | F, tau T)]; Gaussian-gamma inputs report E[tau F] and E[tau F^2]
                L += np.sum(.5 * np.log(T) - .5 * np.log(2 * np.pi) - .5 * T * (tau * y[p] ** 2 - 2 * y[p] * mean + diag)) + .5 * lt * int(np.prod(outsh))
        ctx.close(np.sum(Y.lower_bound_contribution()), L, 'bound term of the child', 1e-8, 1e-8, label)
    if mask is None or m.any():
        check_bound()
    for rep in range(1 if ctx.tier == 'quick' else 2):
        for n, a in enumerate(inps):
            if a.kind == 'c':
                continue
            # natural parameters of the exact conditional
            P = {q: [0.0, 0.0, 0.0, 0.0] for q in np.ndindex(*a.lay)}
            for p in np.ndindex(*PL):
                if not m[p]:
                    continue
                q = tuple(0 if s == 1 else i for s, i in zip(a.lay, p[len(p) - len(a.lay):])) if a.lay else ()
                M, b, tau = message(inps, n, out, sizes, p, y[p], T)
                # other Gaussian-gamma inputs already put their tau inside the moments
                P[q][0] = P[q][0] + b
                P[q][1] = P[q][1] + M
                P[q][2] += tau * np.sum(T * y[p] ** 2)
                P[q][3] += .5 * int(np.prod(outsh))
            a.node.update()
            ctx.op()
            x, xx, tau_, lt_ = a.moments()
            for q in np.ndindex(*a.lay):
                if a.kind == 'G':
                    L0 = a.Lam[q]
                    mu0 = a.mu[q].reshape(-1)
                    V = L0 + P[q][1]
                    v = L0 @ mu0 + P[q][0]
                    aa = a.a[q] + P[q][3]
                    mu = np.linalg.solve(V, v)
                    bb = a.b[q] + .5 * (mu0 @ L0 @ mu0 + P[q][2]) - .5 * mu @ V @ mu
                    t = aa / bb
                    ctx.close(x[q], t * mu, 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n))
                    ctx.close(xx[q], np.linalg.inv(V) + t * np.outer(mu, mu), 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n))
                    ctx.close(tau_[q], t, 'posterior of an input', 1e-8, 1e-9, '%s input %d tau' % (label, n))
                    ctx.close(lt_[q], psi(aa) - np.log(bb), 'posterior of an input', 1e-8, 1e-9, '%s input %d log tau' % (label, n))
                else:
                    a0 = a.a0[q].reshape(-1)
                    V = np.diag(a0) + P[q][1]
                    v = a0 * a.m0[q].reshape(-1) + P[q][0]
                    mu = np.linalg.solve(V, v)
                    C = np.linalg.inv(V)
                    if not ctx.close(x[q], mu, 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n)):
                        return
                    ctx.close(xx[q], C + np.outer(mu, mu), 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n))
        check_moments()
        if m.any():
            check_bound()
    ctx.traces += 1
    ctx.state([a.moments()[:2] for a in inps])


def f_dot(ctx, case):
    lays = [tuple(l) for l in case[1]]
    ctx.traces = 0
    for k, mask in enumerate(masks_for('thorough', 0)):
        r = engine.rng('c11dot', lays, k)
        inps = [Inp('g', 'i', l, r, dict(SIZE)) for l in lays]
        F = bn.Dot(*[a.node for a in inps])
        check_node(ctx, F, inps, '', dict(SIZE), mask, r, 'Dot plates %s mask %d' % (lays, k))


# ------------------------------------------------------------------------------------------ sums and concatenations
def lin_check(ctx, F, blocks, shape, mask, r, label, full):
    """F = sum_k A_k x_k with known matrices A_k (F flattened); `full`: child with a full precision matrix"""
    d = int(np.prod(shape))
    plates = np.broadcast_shapes(*[a.lay for a, A in blocks])
    ctx.ok(tuple(F.plates) == plates, 'plates', '%s %s' % (label, F.plates))

    def ref(p):
        mean = sum(A @ a.at(a.moments()[0], 1, p) for a, A in blocks)
        cov = 0
        for a, A in blocks:
            x, xx, _, _ = a.moments()
            x, xx = a.at(x, 1, p), a.at(xx, 2, p)
            cov = cov + A @ (xx - np.outer(x, x)) @ A.T
        return mean, cov

    def check_moments():
        u = [np.broadcast_to(x, F.plates + dd) for x, dd in zip(F.get_moments(), F.dims)]
        ctx.op()
        for p in np.ndindex(*plates):
            mean, cov = ref(p)
            ctx.close(u[0][p].reshape(-1), mean, 'moment 0 of the output', 1e-9, 1e-9, label)
            ctx.close(u[1][p].reshape(d, d), cov + np.outer(mean, mean), 'moment 1 of the output', 1e-9, 1e-9, label)
    check_moments()
    if full:
        T = zoo.spd(r, d)
        Y = bn.Gaussian(F, T, plates=PL)
    else:
        t = np.asarray(r.rand(*shape) + .5)
        T = np.diag(t.reshape(-1))
        Y = bn.GaussianARD(F, t, ndim=len(shape), plates=PL)
    y = r.randn(*(PL + tuple(shape)))
    if mask is None:
        Y.observe(y)
    else:
        Y.observe(y, mask=mask)
    m = np.ones(PL, bool) if mask is None else np.broadcast_to(mask, PL)
    yf = y.reshape(PL + (d,))

    def check_bound():
        if not m.any():
            return
        L = 0.0
        for p in np.ndindex(*PL):
            if m[p]:
                mean, cov = ref(p)
                e = yf[p] - mean
                L += .5 * np.linalg.slogdet(T)[1] - .5 * d * np.log(2 * np.pi) - .5 * (e @ T @ e + np.trace(T @ cov))
        ctx.close(np.sum(Y.lower_bound_contribution()), L, 'bound term of the child', 1e-8, 1e-8, label)
    check_bound()
    for rep in range(2):
        for n, (a, A) in enumerate(blocks):
            if a.kind == 'c':
                continue
            acc = {q: [np.diag(a.a0[q].reshape(-1)), a.a0[q].reshape(-1) * a.m0[q].reshape(-1)] for q in np.ndindex(*a.lay)}
            for p in np.ndindex(*PL):
                if not m[p]:
                    continue
                q = tuple(0 if s == 1 else i for s, i in zip(a.lay, p[len(p) - len(a.lay):])) if a.lay else ()
                rest = yf[p] - sum(B @ o.at(o.moments()[0], 1, p) for k, (o, B) in enumerate(blocks) if k != n)
                acc[q][0] = acc[q][0] + A.T @ T @ A
                acc[q][1] = acc[q][1] + A.T @ T @ rest
            a.node.update()
            ctx.op()
            x, xx, _, _ = a.moments()
            for q in np.ndindex(*a.lay):
                mu = np.linalg.solve(acc[q][0], acc[q][1])
                if not ctx.close(x[q], mu, 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n)):
                    return
                ctx.close(xx[q], np.linalg.inv(acc[q][0]) + np.outer(mu, mu), 'posterior of an input', 1e-8, 1e-9, '%s input %d' % (label, n))
        check_moments()
        check_bound()
    ctx.traces += 1
    ctx.state([a.moments()[:2] for a, A in blocks])


def f_add(ctx, case):
    _, shape, kinds = case
    keys = 'ij'[:len(shape)] if shape != [3] else 'j'
    ctx.traces = 0
    n = len(kinds)
    lays = list(itertools.product(LAY[:4], repeat=n)) if n == 2 or (n == 3 and ctx.tier == 'thorough') else layouts(n, len(shape), 'quick') + layouts(n, len(shape) + 1, 'quick')
    for li, lay in enumerate(lays):
        for mi, mask in enumerate(masks_for('quick', li)):
            r = engine.rng('c11add', shape, kinds, li, mi)
            inps = [Inp(k, keys, l, r, dict(SIZE)) for k, l in zip(kinds, lay)]
            F = bn.Add(*[a.node for a in inps])
            d = int(np.prod(shape))
            lin_check(ctx, F, [(a, np.eye(d)) for a in inps], tuple(shape), mask, r,
                      'Add %s shape %s plates %s mask %s' % (kinds, shape, lay, None if mask is None else mask.astype(int).tolist()), full=(len(shape) == 1 and li % 2 == 0))


def f_concat(ctx, case):
    _, dims, kinds = case
    ctx.traces = 0
    n = len(dims)
    lays = list(itertools.product(LAY[:4], repeat=n)) if n == 2 or (n == 3 and ctx.tier == 'thorough') else layouts(n, 0, 'quick') + layouts(n, 1, 'quick') + layouts(n, 2, 'quick')
    for li, lay in enumerate(lays):
        for mi, mask in enumerate(masks_for('quick', li)):
            r = engine.rng('c11cat', dims, kinds, li, mi)
            inps = [Inp(k, 'i', l, r, dict(i=d)) for k, l, d in zip(kinds, lay, dims)]
            F = bn.ConcatGaussian(*[a.node for a in inps])
            D = sum(dims)
            blocks = []
            s = 0
            for a, d in zip(inps, dims):
                A = np.zeros((D, d))
                A[s:s + d] = np.eye(d)
                s += d
                blocks.append((a, A))
            lin_check(ctx, F, blocks, (D,), mask, r, 'ConcatGaussian %s %s plates %s mask %s' % (dims, kinds, lay, None if mask is None else mask.astype(int).tolist()), full=(li % 2 == 0))


# ------------------------------------------------------------------------------------------ compositions
def H(r, *sh):
    return r.randn(*sh)


def c0(r, lay):
    a, b = [Inp('g', 'i', l, r, dict(SIZE)) for l in lay[:2]]
    h, g = H(r, 3, 2), H(r, 3, 2)
    F = bn.Add(bn.SumMultiply('ji,i->j', h, a.node), bn.SumMultiply('i,ji->j', b.node, g))
    return F, [(a, h), (b, g)], (3,)


def c1(r, lay):
    a, b = [Inp('g', 'i', l, r, dict(SIZE)) for l in lay[:2]]
    h = H(r, 3, 2)
    F = bn.SumMultiply('ji,i->j', h, bn.Add(a.node, b.node))
    return F, [(a, h), (b, h)], (3,)


def c2(r, lay):
    a, b = [Inp('g', 'i', l, r, dict(SIZE)) for l in lay[:2]]
    h = H(r, 3, 4)
    F = bn.SumMultiply('ji,i->j', h, bn.ConcatGaussian(a.node, b.node))
    return F, [(a, h[:, :2]), (b, h[:, 2:])], (3,)


def c3(r, lay):
    a, b, c = [Inp('g', 'i', l, r, dict(SIZE)) for l in lay[:3]]
    F = bn.ConcatGaussian(bn.Add(a.node, b.node), c.node)
    E1 = np.vstack([np.eye(2), np.zeros((2, 2))])
    return F, [(a, E1), (b, E1), (c, E1[::-1][:, ::-1])], (4,)


def c4(r, lay):
    a = Inp('g', 'ij', lay[0], r, dict(SIZE))
    b = Inp('g', 'i', lay[1], r, dict(SIZE))
    h = H(r, 3)
    F = bn.Add(bn.SumMultiply('ij,j->i', a.node, h), b.node)
    A = np.kron(np.eye(2), h[None, :])
    return F, [(a, A), (b, np.eye(2))], (2,)


def c6(r, lay):
    a, b = [Inp('g', 'i', l, r, dict(SIZE)) for l in lay[:2]]
    g = H(r, 2)
    F = bn.Add(bn.Dot(a.node, g), bn.Dot(g, b.node))
    return F, [(a, g[None]), (b, g[None])], ()


def c7(r, lay):
    a, b = [Inp('g', '', l, r, dict(SIZE)) for l in lay[:2]]
    g = H(r, 3)
    F = bn.Add(bn.SumMultiply(',j->j', a.node, g), bn.SumMultiply('j,->j', g ** 2, b.node))
    return F, [(a, g[:, None]), (b, g[:, None] ** 2)], (3,)


COMPO = [c0, c1, c2, c3, c4, c6, c7]


def f_compo(ctx, case):
    f = COMPO[case[1]]
    ctx.traces = 0
    for li, lay in enumerate(itertools.product(LAY[:4], repeat=3 if f is c3 else 2)):
        for mi, mask in enumerate(masks_for('quick', li)):
            r = engine.rng('c11compo', case[1], li, mi)
            F, blocks, shape = f(r, lay)
            lin_check(ctx, F, blocks, shape, mask, r, '%s plates %s mask %d' % (f.__name__, lay, mi), full=(len(shape) == 1 and li % 2 == 0))


def run(ctx, case):
    globals()['f_' + case[0]](ctx, case)
