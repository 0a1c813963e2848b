"""C21: array and linear-algebra utilities against plain dense definitions."""
import functools
import itertools
import math
import numpy as np
from scipy import special, stats
from bayespy.utils import linalg, misc, random as brandom, optimize as bopt
from . import engine

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of array ranks, axis lengths, broadcasting and axis arguments on the real functions, against plain loops'
RULE = ('for every function: every tuple of plate shapes over axis lengths {absent, 1, n} up to the stated rank, core sizes, axis/ndim/keepdims '
        'arguments; the reference loops over the elements of the broadcast plates and applies the textbook definition; every argument is '
        'compared with a copy taken before the call; incompatible shapes and indices must raise')
BOUND = dict(quick='plate ranks 0-3 (0-2 for the solvers, sums of products and recursions), cores up to 3x3, ndim 0-2', thorough='plate ranks 0-3 everywhere')
ASSUMPTIONS = ['documented in-place functions (put) may modify their first argument', 'rounding 1e-9 relative for well-conditioned random inputs']
CASE_TIMEOUT = 600

LENS = (2, 3, 2, 3)


def shapes(rank, lens=LENS):
    """All shapes up to the rank; axis -1-k has length 1 or lens[k]."""
    out = []
    for r in range(rank + 1):
        out += [tuple(s) for s in itertools.product(*[(1, lens[k]) for k in reversed(range(r))])]
    return out


def bshape(*shs):
    n = max([len(s) for s in shs], default=0)
    out = []
    for k in range(n, 0, -1):
        ls = {s[-k] for s in shs if len(s) >= k}
        ls.discard(1)
        if len(ls) > 1:
            raise ValueError('incompatible')
        out.append(ls.pop() if ls else 1)
    return tuple(out)


def at(a, idx, nd):
    """Element of the plates of a (nd core axes) at the broadcast index."""
    p = a.shape[:a.ndim - nd]
    i = idx[len(idx) - len(p):]
    return a[tuple(0 if n == 1 else j for n, j in zip(p, i))]


def pmap(f, nds, *arrays):
    arrays = [np.asarray(a) for a in arrays]
    P = bshape(*[a.shape[:a.ndim - n] for a, n in zip(arrays, nds)])
    out = None
    for i in np.ndindex(*P):
        v = np.asarray(f(*[at(a, i, n) for a, n in zip(arrays, nds)]))
        if out is None:
            out = np.empty(P + v.shape, dtype=v.dtype)
        out[i] = v
    return out


def full(a, shape):
    """a broadcast to shape by explicit indexing"""
    a = np.asarray(a)
    out = np.empty(shape, dtype=a.dtype)
    for i in np.ndindex(*shape):
        out[i] = at(a, i, 0)
    return out


def spd(r, plates, D):
    X = r.randn(*plates, D, D + 2)
    return np.einsum('...ij,...kj->...ik', X, X) + .3 * np.eye(D)


def same(x, y):
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray):
        return x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == 'f')
    return True


def copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(copy(a) for a in x)
    return x


class T:
    """One table of calls to one function."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def eq(self, call, ref, args=(), what='', rtol=1e-9, atol=1e-10, loose_shape=False):
        ctx, name = self.ctx, self.name
        ctx.op()
        before = copy(list(args))
        try:
            with np.errstate(all='ignore'):
                got = call(*args)
        except Exception as e:
            ctx.fail('%s raises' % name, '%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))
            return None
        ctx.ok(same(before, list(args)), '%s modifies its arguments' % name, what)
        with np.errstate(all='ignore'):
            want = ref() if callable(ref) else ref
        gs, ws = (got, want) if isinstance(want, tuple) and not self.tuple_value else ((got,), (want,))
        if len(gs) != len(ws):
            ctx.fail('%s wrong number of results' % name, what)
            return got
        for g, w in zip(gs, ws):
            if self.plain:
                ctx.ok(g == w, '%s wrong' % name, '%s: got %r, expected %r' % (what, g, w))
                continue
            g, w = np.asarray(g), np.asarray(w)
            if loose_shape:
                try:
                    g = full(g, w.shape) if g.ndim <= w.ndim and bshape(g.shape, w.shape) == w.shape else g
                except ValueError:
                    pass
            ctx.close(g, w, '%s wrong' % name, rtol=rtol, atol=atol, msg=what)
        ctx.state(name, what)
        return got

    plain = False
    tuple_value = False

    def vals(self):
        """results are plain Python values"""
        self.plain = self.tuple_value = True
        return self

    def rej(self, call, what):
        self.ctx.op()
        try:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                got = call()
        except (Exception,):
            self.ctx.ok(True, self.name)
            return
        self.ctx.fail('%s accepts invalid arguments' % self.name, '%s -> %s' % (what, np.shape(got)))


TABLES = {}


def table(*variants):
    def deco(f):
        for v in (variants or (None,)):
            TABLES[f.__name__ + ('' if v is None else '-%s' % (v,))] = (f, v)
        return f
    return deco


def pairs(rank):
    for a, b in itertools.product(shapes(rank), repeat=2):
        yield a, b


CORES = {0: [()], 1: [(1,), (2,), (3,)], 2: [(1, 2), (2, 1), (2, 2)]}


def prod(s):
    return int(np.prod(s, dtype=int))


# ---------------------------------------------------------------- linalg

@table(0, 1, 2)
def chol(ctx, r, R, nd):
    for p in shapes(R) + [(0,), (2, 0)]:
        for core in CORES[nd] + ([(0,)] if nd == 1 else []):
            D = prod(core)
            C = (np.abs(r.randn(*p)) + .5) if nd == 0 else spd(r, p, D).reshape(p + core + core)
            C = np.asarray(C)
            m = C.reshape(p + (D, D)) if nd else None
            w = 'plates %s core %s' % (p, core)
            t = T(ctx, 'linalg.chol ndim=%d' % nd)
            if nd == 0:
                t.eq(lambda C: linalg.chol(C, ndim=0) ** 2, C, [C], w)
                t.eq(lambda C: linalg.chol_logdet(linalg.chol(C, ndim=0), ndim=0), np.log(C), [C], w)
                t.eq(lambda C: linalg.logdet_cov(C, ndim=0), np.log(C), [C], w)
                t.eq(lambda C: linalg.chol_inv(linalg.chol(C, ndim=0), ndim=0), 1 / C, [C], w)
                t.eq(lambda C: linalg.inv(C, ndim=0), 1 / C, [C], w)
                continue

            def upper(C):
                U = np.asarray(linalg.chol(C, ndim=nd))
                assert U.shape == C.shape
                U = np.triu(U.reshape(p + (D, D)))
                return np.einsum('...ji,...jk->...ik', U, U)
            t.eq(upper, m, [C], w)
            U = linalg.chol(C, ndim=nd)
            ld = np.zeros(p)
            Ci = np.zeros(p + (D, D))
            for i in np.ndindex(*p):
                ld[i] = np.linalg.slogdet(m[i])[1]
                Ci[i] = np.linalg.inv(m[i])
            T(ctx, 'linalg.chol_logdet').eq(lambda U: linalg.chol_logdet(U, ndim=nd), ld, [U], w)
            T(ctx, 'linalg.logdet_cov').eq(lambda C: linalg.logdet_cov(C, ndim=nd), ld, [C], w)
            T(ctx, 'linalg.chol_inv').eq(lambda U: linalg.chol_inv(U, ndim=nd), Ci.reshape(C.shape), [U], w)
            if nd == 1:
                T(ctx, 'linalg.logdet_chol').eq(lambda U: linalg.logdet_chol(U), ld, [U], w)
                T(ctx, 'linalg.inv').eq(lambda C: linalg.inv(C), Ci, [C], w)
                S = np.einsum('...ij,...jk->...ik', np.triu(r.randn(*p, D, D)) , np.eye(D))
                T(ctx, 'linalg.logdet_tri').eq(lambda S: linalg.logdet_tri(S),
                                               lambda: sum(math.log(abs(S[i][k, k])) for i in np.ndindex(*p) for k in range(D)), [S], w)
            if D > 0 and 0 not in p:
                # one element of the plates is not positive definite
                for bad in list(np.ndindex(*p))[-1:]:
                    C2 = C.copy()
                    B2 = C2.reshape(p + (D, D))
                    B2[bad] = -B2[bad]
                    T(ctx, 'linalg.chol').rej(lambda: linalg.chol(C2, ndim=nd), 'not positive definite ' + w)
    if nd == 1:
        T(ctx, 'linalg.chol').rej(lambda: linalg.chol(np.ones((2, 3))), 'not square')
        T(ctx, 'linalg.chol').rej(lambda: linalg.chol(np.ones((4, 2, 3))), 'not square')


@table(*[(nd, m) for nd in (0, 1, 2) for m in (False, True)])
def chol_solve(ctx, r, R, v):
    nd, matrix = v
    if nd == 0 and matrix:
        return
    t = T(ctx, 'linalg.chol_solve ndim=%d%s' % (nd, ' matrix' if matrix else ''))
    for pu, pb in pairs(R if nd < 2 else min(R, 2)):
        for core in (CORES[nd] if nd == 1 else CORES[nd][:2]) + ([(0,)] if nd == 1 else []):
            D = prod(core)
            w = 'U %s b %s core %s' % (pu, pb, core)
            if nd == 0:
                c = np.abs(r.randn(*pu)) + .5 if pu else np.float64(.8)
                b = np.asarray(r.randn(*pb))
                t.eq(lambda U, b: linalg.chol_solve(U, b, ndim=0), lambda: b / c, [np.sqrt(c), b], w)
                continue
            C = spd(r, pu, D)
            U = linalg.chol(C.reshape(pu + core + core), ndim=nd)
            if matrix:
                for cm in ([(1,), (2,), (4,)] if nd == 1 else [(1, 3), (2, 2)]):
                    M = prod(cm)
                    b = r.randn(*pb, D, M)
                    ref = lambda: pmap(lambda C, b: np.linalg.solve(C, b), (2, 2), C, b)
                    t.eq(lambda U, b: linalg.chol_solve(U, b, ndim=nd, matrix=True), lambda: ref().reshape(bshape(pu, pb) + core + cm),
                         [U, b.reshape(pb + core + cm)], w + ' columns %s' % (cm,))
            else:
                b = r.randn(*pb, D)
                ref = lambda: pmap(lambda C, b: np.linalg.solve(C, b), (2, 1), C, b)
                t.eq(lambda U, b: linalg.chol_solve(U, b, ndim=nd), lambda: ref().reshape(bshape(pu, pb) + core),
                     [U, b.reshape(pb + core)], w)
                if nd == 1 and D:
                    out = np.zeros(bshape(pu, pb) + core)

                    def call(U, b):
                        res = linalg.chol_solve(U, b, out=out)
                        return res, out
                    t.eq(call, lambda: (ref(), ref()), [U, b], w + ' out=')
    if nd == 1:
        U = linalg.chol(spd(r, (3,), 2))
        t.rej(lambda: linalg.chol_solve(U, r.randn(2, 2), matrix=matrix and False), 'plates 3 and 2')
        if not matrix:
            t.rej(lambda: linalg.chol_solve(U, r.randn(3, 4)), 'length 4 for a 2x2 matrix')


@table()
def solve_triangular(ctx, r, R, _):
    t = T(ctx, 'linalg.solve_triangular')
    for pu, pb in pairs(R):
        for D in (1, 2, 3):
            for lower in (False, True):
                for trans in ('N', 'T'):
                    A = (np.tril if lower else np.triu)(r.randn(*pu, D, D)) + 2 * np.eye(D)
                    b = r.randn(*pb, D)
                    t.eq(lambda A, b: linalg.solve_triangular(A, b, lower=lower, trans=trans),
                         lambda: pmap(lambda A, b: np.linalg.solve(A.T if trans == 'T' else A, b), (2, 1), A, b), [A, b],
                         'U %s b %s D %d lower %s trans %s' % (pu, pb, D, lower, trans))


@table(0, 1, 2)
def inner(ctx, r, R, nd):
    t = T(ctx, 'linalg.inner ndim=%d' % nd)
    for n in (1, 2, 3):
        for ps in itertools.product(shapes(R if n < 3 else 1), repeat=n):
            for core in CORES[nd]:
                xs = [np.asarray(r.randn(*p, *core)) for p in ps]
                t.eq(lambda *xs: linalg.inner(*xs, ndim=nd),
                     lambda: pmap(lambda *c: sum(np.prod([x[i] for x in c]) for i in np.ndindex(*core)), (nd,) * n, *xs), xs,
                     'plates %s core %s' % (ps, core))


@table(0, 1, 2)
def outer(ctx, r, R, nd):
    t = T(ctx, 'linalg.outer ndim=%d' % nd)
    for pa, pb in pairs(R):
        for ca, cb in itertools.product(CORES[nd], repeat=2):
            a, b = np.asarray(r.randn(*pa, *ca)), np.asarray(r.randn(*pb, *cb))
            t.eq(lambda a, b: linalg.outer(a, b, ndim=nd), lambda: pmap(lambda x, y: np.multiply.outer(x, y), (nd, nd), a, b), [a, b],
                 'plates %s %s cores %s %s' % (pa, pb, ca, cb))
    if nd:
        t.rej(lambda: linalg.outer(np.float64(1.), np.ones((2,) * nd), ndim=nd), 'scalar')
        t.rej(lambda: linalg.outer(np.ones((2,) * nd), np.float64(1.), ndim=nd), 'scalar')
        t.rej(lambda: linalg.outer(np.ones((3,) + (2,) * nd), np.ones((4,) + (2,) * nd), ndim=nd), 'plates 3 and 4')
    else:
        t.rej(lambda: linalg.outer(np.ones(2), np.ones(2), ndim=-1), 'ndim=-1')


@table()
def matmul(ctx, r, R, _):
    for pa, pb in pairs(R):
        for K, L, M in itertools.product((1, 2, 3), repeat=3):
            a, b = r.randn(*pa, K, L), r.randn(*pb, L, M)
            ref = lambda: pmap(lambda x, y: np.array([[sum(x[i, k] * y[k, j] for k in range(L)) for j in range(M)] for i in range(K)]), (2, 2), a, b)
            w = '%s %s' % (a.shape, b.shape)
            T(ctx, 'linalg.dot').eq(linalg.dot, ref, [a, b], w)
            T(ctx, 'linalg.mmdot').eq(linalg.mmdot, ref, [a, b], w)
            if K == M:
                T(ctx, 'linalg.tracedot').eq(linalg.tracedot, lambda: np.trace(ref(), axis1=-2, axis2=-1), [a, b], w)
            v = r.randn(*pb, L)
            T(ctx, 'linalg.mvdot').eq(linalg.mvdot, lambda: pmap(lambda x, y: x @ y, (2, 1), a, v), [a, v], '%s %s' % (a.shape, v.shape))
            if L > 1:
                bad = r.randn(*pb, L + 2, M)
                T(ctx, 'linalg.dot').rej(lambda: linalg.dot(a, bad), '%s %s' % (a.shape, bad.shape))
        a, b = np.asarray(r.randn(*pa)), np.asarray(r.randn(*pb))
        T(ctx, 'linalg.mmdot ndim=0').eq(lambda a, b: linalg.mmdot(a, b, ndim=0), lambda: pmap(lambda x, y: x * y, (0, 0), a, b), [a, b], str((pa, pb)))
        T(ctx, 'linalg.mvdot ndim=0').eq(lambda a, b: linalg.mvdot(a, b, ndim=0), lambda: pmap(lambda x, y: x * y, (0, 0), a, b), [a, b], str((pa, pb)))
        for ca, cb in itertools.product(CORES[2], repeat=2):
            a, b = r.randn(*pa, *ca, *cb), r.randn(*pb, *cb)
            T(ctx, 'linalg.mvdot ndim=2').eq(lambda a, b: linalg.mvdot(a, b, ndim=2),
                                             lambda: pmap(lambda x, y: np.tensordot(x, y, 2), (4, 2), a, b), [a, b], '%s %s' % (a.shape, b.shape))
    for ps in itertools.product(shapes(1), repeat=3):
        a, b, c = r.randn(*ps[0], 2, 3), r.randn(*ps[1], 3, 1), r.randn(*ps[2], 1, 2)
        T(ctx, 'linalg.dot').eq(linalg.dot, lambda: pmap(lambda x, y, z: x @ y @ z, (2, 2, 2), a, b, c), [a, b, c], str(ps))
    T(ctx, 'linalg.dot').rej(lambda: linalg.dot(np.ones(3), np.ones((3, 2))), 'vector')
    T(ctx, 'linalg.dot').rej(lambda: linalg.dot(np.ones((3, 2)), np.ones(2)), 'vector')


@table()
def transposes(ctx, r, R, _):
    for p in shapes(R + 1):
        x = r.randn(*p, 3, 2)
        w = str(x.shape)
        ref = lambda: pmap(lambda m: np.array([[m[j, i] for j in range(3)] for i in range(2)]), (2,), x)
        T(ctx, 'misc.T').eq(misc.T, ref, [x], w)
        T(ctx, 'linalg.transpose').eq(linalg.transpose, ref, [x], w)
        q = r.randn(*p, 2, 2)
        T(ctx, 'misc.symm').eq(misc.symm, lambda: pmap(lambda m: .5 * (m + m.T), (2,), q), [q], w)
        T(ctx, 'misc.diagonal').eq(misc.diagonal, lambda: pmap(lambda m: np.array([m[0, 0], m[1, 1]]), (2,), q), [q], w)
        T(ctx, 'linalg.transpose ndim=0').eq(lambda x: linalg.transpose(x, ndim=0), x, [x], w)
        y = r.randn(*p, 1, 2, 3, 2)
        T(ctx, 'linalg.transpose ndim=2').eq(lambda x: linalg.transpose(x, ndim=2), lambda: pmap(lambda m: np.transpose(m, (2, 3, 0, 1)), (4,), y), [y], w)


@table(1, 2, 3, 4)
def block_banded_solve(ctx, r, R, N):
    t = T(ctx, 'linalg.block_banded_solve')
    for D in (1, 2):
        for pa, pb, py in itertools.product(shapes(R if N < 4 else 1), repeat=3):
            B = r.randn(*pb, N - 1, D, D) * .4
            A = spd(r, pa, D)[..., None, :, :] * np.ones((N, 1, 1)) + 1.5 * np.eye(D) + spd(r, pa + (N,), D)
            y = r.randn(*py, N, D)
            P = bshape(pa, pb)

            def dense(A, B):
                X = np.zeros((N * D, N * D))
                for n in range(N):
                    X[n * D:(n + 1) * D, n * D:(n + 1) * D] = A[n]
                for n in range(N - 1):
                    X[n * D:(n + 1) * D, (n + 1) * D:(n + 2) * D] = B[n]
                    X[(n + 1) * D:(n + 2) * D, n * D:(n + 1) * D] = B[n].T
                return X

            def ref():
                X = pmap(dense, (3, 3), A, B)
                V = pmap(lambda X: np.array([np.linalg.inv(X)[n * D:(n + 1) * D, n * D:(n + 1) * D] for n in range(N)]), (2,), X)
                C = pmap(lambda X: np.array([np.linalg.inv(X)[n * D:(n + 1) * D, (n + 1) * D:(n + 2) * D] for n in range(N - 1)]).reshape(N - 1, D, D), (2,), X)
                x = pmap(lambda X, y: np.linalg.solve(X, y.ravel()).reshape(N, D), (2, 2), X, y)
                return V, C, x, pmap(lambda X: np.linalg.slogdet(X)[1], (2,), X)
            X = pmap(dense, (3, 3), A, B)
            if X.size and np.min(np.linalg.eigvalsh(X)) < .05:
                ctx.state('skipped: not positive definite')
                continue
            t.eq(linalg.block_banded_solve, ref, [A, B, y], 'A %s B %s y %s N %d D %d' % (pa, pb, py, N, D), rtol=1e-7, atol=1e-8)
    A, B, y = np.ones((N, 1, 1)), np.zeros((N - 1, 1, 1)), np.ones((N, 1))
    t.rej(lambda: linalg.block_banded_solve(np.ones((N + 1, 1, 1)), B, y), 'A too long')
    t.rej(lambda: linalg.block_banded_solve(A, np.zeros((N, 1, 1)), y), 'B too long')
    t.rej(lambda: linalg.block_banded_solve(A, B, np.ones((N, 2))), 'y too wide')
    t.rej(lambda: linalg.block_banded_solve(np.ones((N, 1, 2)), B, y), 'A not square')


# ---------------------------------------------------------------- products and sums

def naive_sum_product(xs, keep, keepdims):
    P = bshape(*[x.shape for x in xs])
    n = len(P)
    osh = tuple(P[k] for k in range(n) if k in keep)
    out = np.zeros(osh)
    for i in np.ndindex(*P):
        out[tuple(i[k] for k in range(n) if k in keep)] += math.prod(float(at(x, i, 0)) for x in xs)
    if keepdims:
        out = out.reshape(tuple(P[k] if k in keep else 1 for k in range(n)))
    return out


@table(1, 2, 3)
def sum_multiply(ctx, r, R, n):
    for ps in itertools.product(shapes({1: R + 1, 2: R, 3: 1}[n]), repeat=n):
        xs = [np.asarray(r.randn(*p)) for p in ps]
        d = max(len(p) for p in ps)
        axes = [None] + list(range(-d, d))
        for k in range(d + 1):
            for c in itertools.combinations(range(d), k):
                axes.append(c)
                axes.append(tuple(a - d for a in c))
                if k == 2:
                    axes.append((c[1], c[0]))
                    axes.append((c[0], c[1] - d))
        for ax in dict.fromkeys(axes):
            given = None if ax is None else {a % d for a in (ax if isinstance(ax, tuple) else (ax,))} if d else set()
            for sumaxis in (True, False):
                if ax is None:
                    keep = set() if sumaxis else set(range(d))
                else:
                    keep = set(range(d)) - given if sumaxis else given
                for kd in (False, True):
                    w = 'shapes %s axis %s sumaxis %s keepdims %s' % (ps, ax, sumaxis, kd)
                    T(ctx, 'misc.sum_multiply').eq(lambda *xs: misc.sum_multiply(*xs, axis=ax, sumaxis=sumaxis, keepdims=kd),
                                                  lambda: naive_sum_product(xs, keep, kd), xs, w)
                    if isinstance(ax, tuple):
                        kw = dict(axes_to_sum=list(ax)) if sumaxis else dict(axes_to_keep=list(ax))
                        T(ctx, 'misc.sum_product').eq(lambda *xs: misc.sum_product(*xs, keepdims=kd, **kw),
                                                     lambda: naive_sum_product(xs, keep, kd), xs, w)
        T(ctx, 'misc.multiply').eq(misc.multiply, lambda: pmap(lambda *v: np.prod(v), (0,) * n, *xs), xs, str(ps))
    T(ctx, 'misc.sum_multiply').rej(lambda: misc.sum_multiply(), 'no arrays')
    T(ctx, 'misc.sum_multiply').rej(lambda: misc.sum_multiply(np.ones((2, 3)), np.ones((2, 2)), axis=0), 'shapes (2,3) (2,2)')
    T(ctx, 'misc.sum_multiply').rej(lambda: misc.sum_multiply(np.ones((2, 3)), axis=(2,), sumaxis=False), 'axis 2 kept of 2')


@table(*[(n, nd) for n in (1, 2, 3) for nd in (0, 1)])
def sum_multiply_to_plates(ctx, r, R, v):
    n, nd = v
    t = T(ctx, 'misc.sum_multiply_to_plates')
    R = R if n < 3 else min(R, 2) - (ctx.tier == 'quick')
    for ps in itertools.product(shapes(R), repeat=n):
        cores = [(3,), (1,)][:1] if nd else [()]
        for core in cores:
            xs = [np.asarray(r.randn(*p, *core)) for p in ps]
            pp = bshape(*ps)
            for fr in [None] + [f for f in shapes(R) if bshape(f, pp) == f]:
                P = pp if fr is None else fr
                for to in shapes(R):
                    if len(to) > len(P) or bshape(to, P) != P:
                        if fr is None and bshape(to, P) and bshape(to, P) == to and 0:
                            continue
                        continue

                    def ref():
                        fullx = pmap(lambda *c: functools.reduce(np.multiply, c), (nd,) * n, *xs)
                        fullx = full(fullx, P + core)
                        out = np.zeros(to + core)
                        for i in np.ndindex(*P):
                            j = i[len(i) - len(to):]
                            out[tuple(0 if m == 1 else k for m, k in zip(to, j))] += fullx[i]
                        return out
                    t.eq(lambda *xs: misc.sum_multiply_to_plates(*xs, to_plates=to, from_plates=fr, ndim=nd), ref, xs,
                         'plates %s to %s from %s ndim %d' % (ps, to, fr, nd), loose_shape=True)


@table()
def plate_shapes(ctx, r, R, _):
    t = T(ctx, 'misc.broadcasted_shape').vals()
    alt = shapes(R) + [s for s in shapes(R, (4, 5, 4, 5))]
    for n in (1, 2, 3):
        for ss in itertools.product(alt if n < 3 else shapes(2) + [(4,)], repeat=n):
            try:
                want = bshape(*ss)
            except ValueError:
                t.rej(lambda: misc.broadcasted_shape(*ss), str(ss))
                T(ctx, 'misc.broadcasted_shape_from_arrays').rej(lambda: misc.broadcasted_shape_from_arrays(*[np.ones(s) for s in ss]), str(ss))
            else:
                t.eq(misc.broadcasted_shape, want, ss, str(ss))
                T(ctx, 'misc.broadcasted_shape_from_arrays').vals().eq(lambda *ss: misc.broadcasted_shape_from_arrays(*[np.ones(s) for s in ss]), want, ss, str(ss))
            m = max(len(s) for s in ss)
            pad = [(1,) * (m - len(s)) + s for s in ss]
            T(ctx, 'misc.make_equal_length').vals().eq(lambda *ss: [tuple(s) for s in misc.make_equal_length(*ss)], pad, ss, str(ss))
            T(ctx, 'misc.multiply_shapes').vals().eq(misc.multiply_shapes, tuple(math.prod(c) for c in zip(*pad)), ss, str(ss))
            xs = [np.asarray(r.randn(*s)) for s in ss]
            T(ctx, 'misc.make_equal_ndim').eq(lambda *xs: tuple(misc.make_equal_ndim(*xs)), lambda: tuple(x.reshape(p) for x, p in zip(xs, pad)), xs, str(ss))
    for sub, fs in itertools.product(alt, repeat=2):
        try:
            want = bshape(sub, fs) == fs
        except ValueError:
            want = False
        T(ctx, 'misc.is_shape_subset').vals().eq(misc.is_shape_subset, want, (sub, fs), '%s %s' % (sub, fs))
    for fs in shapes(R):
        for n in (1, 2):
            for ss in itertools.product(alt, repeat=n):
                try:
                    ok = all(bshape(s, fs) == fs for s in ss)
                except ValueError:
                    ok = False
                t = T(ctx, 'misc.broadcasting_multiplier')
                if not ok:
                    t.rej(lambda: misc.broadcasting_multiplier(fs, *ss), '%s %s' % (fs, ss))
                else:
                    pad = [(1,) * (len(fs) - len(s)) + s for s in ss]
                    t.vals().eq(misc.broadcasting_multiplier, math.prod(f for k, f in enumerate(fs) if all(p[k] == 1 for p in pad)), (fs,) + ss, '%s %s' % (fs, ss))
    for x, to in itertools.product(alt, repeat=2):
        ok = all(b in (1, a) or a == 1 for a, b in zip(x[::-1], to[::-1]))
        t = T(ctx, 'misc.axes_to_collapse').vals()
        if not ok:
            t.rej(lambda: misc.axes_to_collapse(x, to), '%s %s' % (x, to))
        else:
            t.eq(misc.axes_to_collapse, tuple(-k for k in range(len(x), 0, -1) if x[-k] != 1 and (k > len(to) or to[-k] == 1)), (x, to), '%s %s' % (x, to))


def naive_sum_to(x, s):
    out = np.zeros(s)
    for i in np.ndindex(*x.shape):
        j = i[len(i) - len(s):]
        out[tuple(0 if m == 1 else k for m, k in zip(s, j))] += x[i]
    return out


@table()
def reshaping(ctx, r, R, _):
    alt = shapes(R + 1) + shapes(2, (4, 5))
    for a, s in itertools.product(alt, repeat=2):
        x = np.asarray(r.randn(*a))
        w = '%s to %s' % (a, s)
        ok = len(s) <= len(a) and all(m in (1, n) for m, n in zip(s[::-1], a[::-1]))
        if ok:
            T(ctx, 'misc.sum_to_shape').eq(lambda x: misc.sum_to_shape(x, s), lambda: naive_sum_to(x, s), [x], w)
        elif len(s) <= len(a):
            T(ctx, 'misc.sum_to_shape').rej(lambda: misc.sum_to_shape(x, s), w)
        ok = len(a) <= len(s) and all(n in (1, m) for m, n in zip(s[::-1], a[::-1]))
        if ok:
            T(ctx, 'misc.repeat_to_shape').eq(lambda x: misc.repeat_to_shape(x, s), lambda: full(x, s), [x], w)
        else:
            T(ctx, 'misc.repeat_to_shape').rej(lambda: misc.repeat_to_shape(x, s), w)
    for a in alt:
        x = np.asarray(r.randn(*a))
        d = len(a)
        for k in range(d + 3):
            w = '%s %d' % (a, k)
            T(ctx, 'misc.atleast_nd').eq(lambda x: misc.atleast_nd(x, k), lambda: x.reshape((1,) * max(0, k - d) + a), [x], w)
            T(ctx, 'misc.add_leading_axes').eq(lambda x: misc.add_leading_axes(x, k), lambda: x.reshape((1,) * k + a), [x], w)
            T(ctx, 'misc.add_trailing_axes').eq(lambda x: misc.add_trailing_axes(x, k), lambda: x.reshape(a + (1,) * k), [x], w)
            for ax in range(-d - 1, d + 1):
                q = ax if ax >= 0 else ax + d + 1
                T(ctx, 'misc.add_axes').eq(lambda x: misc.add_axes(x, num=k, axis=ax), lambda: x.reshape(a[:q] + (1,) * k + a[q:]), [x], '%s axis %d num %d' % (a, ax, k))
            if k <= d:
                if all(n == 1 for n in a[:d - k]):
                    T(ctx, 'misc.squeeze_to_dim').eq(lambda x: misc.squeeze_to_dim(x, k), lambda: x.reshape(a[d - k:]), [x], w)
                else:
                    T(ctx, 'misc.squeeze_to_dim').rej(lambda: misc.squeeze_to_dim(x, k), w)
            T(ctx, 'misc.sum_to_dim').eq(lambda x: misc.sum_to_dim(x, k), lambda: naive_sum_to(x, a[max(0, d - k):]), [x], w)
        q = 0
        while q < d and a[q] == 1:
            q += 1
        T(ctx, 'misc.squeeze').eq(misc.squeeze, lambda: x.reshape(a[q:]), [x], str(a))
        for f, to in itertools.product(range(-d, d), repeat=2):
            def ref():
                order = [k for k in range(d) if k != f % d]
                order.insert(to % d, f % d)
                out = np.empty([a[k] for k in order])
                for i in np.ndindex(*a):
                    out[tuple(i[k] for k in order)] = x[i]
                return out
            T(ctx, 'misc.moveaxis').eq(lambda x: misc.moveaxis(x, f, to), ref, [x], '%s from %d to %d' % (a, f, to))
        for f, to in ((d, 0), (0, d), (-d - 1, 0), (0, -d - 1)):
            T(ctx, 'misc.moveaxis').rej(lambda: misc.moveaxis(x, f, to), '%s from %d to %d' % (a, f, to))
        for i in (itertools.product(*[range(n) for n in a])):
            for s in shapes(R + 1):
                try:
                    if len(s) and bshape(s, a) != a and len(s) <= len(a):
                        continue
                except ValueError:
                    continue
                m = min(len(s), d)
                want = tuple(0 if n == 1 else j for n, j in zip(s[len(s) - m:], i[d - m:]))
                if all(n in (1, o) for n, o in zip(s[::-1], a[::-1])):
                    T(ctx, 'misc.safe_indices').vals().eq(lambda i, s: tuple(int(k) for k in misc.safe_indices(i, s)), want, (i, s), '%s %s' % (i, s))
        T(ctx, 'misc.nested_iterator').vals().eq(lambda a: list(misc.nested_iterator(a)), list(np.ndindex(*a)), (a,), str(a))


@table()
def axes(ctx, r, R, _):
    for p in shapes(R):
        for nds in [(), (0,), (1,), (2,), (1, 1), (2, 1), (1, 2), (0, 1), (1, 0), (2, 2), (1, 1, 1)]:
            cores = [{0: (), 1: (3,), 2: (2, 3)}[k] for k in nds]
            x = np.asarray(r.randn(*p, *[n for c in cores for n in c]))
            flat = tuple(prod(c) for c in cores)
            w = 'plates %s ndims %s' % (p, nds)
            T(ctx, 'misc.flatten_axes').eq(lambda x: misc.flatten_axes(x, *nds), lambda: x.reshape(p + flat), [x], w)
            y = np.asarray(r.randn(*p, *flat))
            T(ctx, 'misc.reshape_axes').eq(lambda y: misc.reshape_axes(y, *cores), lambda: y.reshape(p + tuple(n for c in cores for n in c)), [y], w)
            if flat:
                T(ctx, 'misc.reshape_axes').rej(lambda: misc.reshape_axes(y, *cores[:-1], (7,)), w)
    T(ctx, 'misc.flatten_axes').rej(lambda: misc.flatten_axes(np.ones((2, 3)), 2, 1), 'too many axes')
    T(ctx, 'misc.reshape_axes').rej(lambda: misc.reshape_axes(np.ones(2), (2,), (1,)), 'too many axes')
    for n in (1, 2, 3):
        for ls in itertools.product((0, 1, 2, 3), repeat=n):
            owner = [k for k, m in enumerate(ls) for _ in range(m)]
            for i in range(-len(owner) - 2, len(owner) + 2):
                t = T(ctx, 'misc.find_set_index').vals()
                if -len(owner) <= i < len(owner):
                    t.eq(lambda i, ls: int(misc.find_set_index(i, ls)), owner[i], (i, ls), '%d %s' % (i, ls))
                else:
                    t.rej(lambda: misc.find_set_index(i, ls), '%d %s' % (i, ls))
    for sh in [(), (1,), (3,), (2, 2), (1, 3), (2, 1, 2)]:
        n = prod(sh)
        I = np.zeros(sh + sh)
        for i in np.ndindex(*sh):
            I[i + i] = 1
        T(ctx, 'misc.identity').eq(lambda: misc.identity(*sh), I, [], str(sh))
        T(ctx, 'misc.trues').eq(lambda: misc.trues(sh), np.full(sh, True), [], str(sh))
        T(ctx, 'misc.nans').eq(lambda: misc.nans(sh), np.full(sh, np.nan), [], str(sh))
    for l in itertools.product((0, 1, 2), repeat=4):
        seen = []
        for v in l:
            if v not in seen:
                seen.append(v)
        T(ctx, 'misc.unique').vals().eq(lambda *l: misc.unique(list(l)), seen, l, str(l))
        T(ctx, 'misc.first').vals().eq(lambda *l: misc.first(list(l)), next((i for i, v in enumerate(l) if v), None), l, str(l))
        T(ctx, 'misc.zipper_merge').vals().eq(lambda *l: misc.zipper_merge(l[:2], l[2:], 'ab'), [l[0], l[2], 'a', l[1], l[3], 'b'], l, str(l))
    for a, b in itertools.product(range(0, 12), range(1, 6)):
        T(ctx, 'misc.ceildiv').vals().eq(misc.ceildiv, int(math.ceil(a / b)), (a, b), '%d %d' % (a, b))
    fs = [lambda v: v + 1, lambda v: 2 * v, lambda v: v * v]
    for k in range(4):
        for sel in itertools.product(range(3), repeat=k):
            def ref():
                v = 1.5
                for i in sel:
                    v = fs[i](v)
                return v
            T(ctx, 'misc.composite_function').eq(lambda: misc.composite_function([fs[i] for i in sel])(1.5), ref, [], str(sel))
    for x, want in [(1, True), (np.int32(1), True), (1., False), (np.array(3), True), (np.array([3]), False), (True, False), ('a', False)]:
        T(ctx, 'misc.is_scalar_integer').vals().eq(lambda: bool(misc.is_scalar_integer(x)), want, [], repr(x))
    for x, want in [(1, True), (np.array([1, 2]), True), (np.array([True]), True), (1., False), (np.array([1.]), False)]:
        T(ctx, 'misc.isinteger').vals().eq(lambda: bool(misc.isinteger(x)), want, [], repr(x))
    for x, want in [(1, True), (1.5, True), ([1], True), (np.ones(2), True), (None, False), ({}, False)]:
        T(ctx, 'misc.is_numeric').vals().eq(lambda: bool(misc.is_numeric(x)), want, [], repr(x))
    for sh in shapes(2):
        x = np.full(sh, 2.5)
        if x.size == 1:
            T(ctx, 'misc.array_to_scalar').eq(misc.array_to_scalar, 2.5, [x], str(sh))
    T(ctx, 'misc.grid').eq(misc.grid, np.array([[a, b] for b in (3., 4., 5.) for a in (1., 2.)]), [np.array([1., 2.]), np.array([3., 4., 5.])], '2x3')


@table()
def put(ctx, r, R, _):
    def naive(x, ind, y, ax, f):
        x = x.copy()
        yb = np.broadcast_to(y, x.shape[:ax] + np.shape(ind) + x.shape[ax + 1:])
        k = np.ndim(ind)
        for i in np.ndindex(*yb.shape):
            j = i[:ax] + (int(np.asarray(ind)[i[ax:ax + k]]),) + i[ax + k:]
            x[j] = f(x[j], yb[i])
        return x
    inds = [np.array(2), np.array([0]), np.array([2, 2, 0]), np.array([1, -1, 1, -3]), np.array([[0, 1], [1, 1]]), np.array([[2], [-1], [0]])]
    for d in (1, 2, 3):
        for ax in range(-d, d):
            for ind in inds:
                sh = [2, 4, 2][:d]
                q = ax % d
                sh[q] = 3
                want_sh = tuple(sh[:q]) + ind.shape + tuple(sh[q + 1:])
                for ysh in sorted({tuple(s) for m in range(len(want_sh) + 1) for s in itertools.product(*[{1, n} for n in want_sh[len(want_sh) - m:]])}):
                    y = np.asarray(r.randn(*ysh))
                    for f in (np.add, np.multiply):
                        x = r.randn(*sh)
                        w = 'x %s indices %s y %s axis %d %s' % (sh, ind.tolist(), ysh, ax, f.__name__)
                        want = naive(x, ind, y, q, f)
                        x2 = x.copy()
                        T(ctx, 'misc.put').eq(lambda ind, y: misc.put(x2, ind, y, axis=ax, ufunc=f), want, [ind, y], w)
                        ctx.ok(np.allclose(x2, want), 'misc.put result not stored in x', w)
                    # adjoint of take
                    if ax < 0:
                        yb = np.asarray(y)
                        # axes of y that exist, padded on the left
                        m = -ax - 1 + ind.ndim
                        if yb.ndim < m:
                            continue
                        for length in (3, 4, None):
                            nonneg = np.all(ind >= 0)
                            L = length
                            if length is None:
                                L = int(max(v if v >= 0 else -v - 1 for v in ind.ravel())) + 1
                            tail = yb.shape[yb.ndim + ax + 1:] if ax < -1 else ()
                            head = yb.shape[:yb.ndim - m]
                            x0 = np.zeros(head + (L,) + tail)
                            ind_ok = ind
                            if not nonneg and length is None:
                                continue
                            T(ctx, 'misc.put_simple').eq(lambda y, ind: misc.put_simple(y, ind, axis=ax, length=length),
                                                        lambda: naive(x0, ind_ok, yb, x0.ndim + ax, np.add), [yb, ind],
                                                        'indices %s y %s axis %d length %s' % (ind.tolist(), ysh, ax, length))
    T(ctx, 'misc.put').rej(lambda: misc.put(np.zeros(3), [3], 1.), 'index 3 of 3')
    T(ctx, 'misc.put').rej(lambda: misc.put(np.zeros((3, 2)), [0], 1., axis=2), 'axis 2')
    T(ctx, 'misc.put').rej(lambda: misc.put(np.zeros((3, 2)), [0], 1., axis=-3), 'axis -3')
    T(ctx, 'misc.put').rej(lambda: misc.put(np.zeros(3), [0, 1], np.ones(3)), 'three values for two indices')


@table()
def diagonals(ctx, r, R, _):
    pool = {0: [()], 1: [(1,), (3,)], 2: [(1, 2), (2, 3)], 3: [(2, 1, 2)]}
    for p in shapes(R):
        for nd in range(4):
            for core in pool[nd]:
                for nf in range(nd + 1):
                    tail = core[nd - nf:]
                    x = np.asarray(r.randn(*p, *core, *tail))

                    def ref():
                        out = np.zeros(p + core + core)
                        lead = core[:nd - nf]
                        for i in np.ndindex(*p):
                            for k in np.ndindex(*lead):
                                for a in np.ndindex(*tail):
                                    for b in np.ndindex(*tail):
                                        out[i + k + a + k + b] = x[i + k + a + b]
                        return out
                    w = 'plates %s core %s ndim %d from/to %d' % (p, core, nd, nf)
                    T(ctx, 'misc.make_diag').eq(lambda x: misc.make_diag(x, ndim=nd, ndim_from=nf), ref, [x], w)
                    if nf == 0:
                        T(ctx, 'misc.diag').eq(lambda x: misc.diag(x, ndim=nd), ref, [x], w)
                    y = np.asarray(r.randn(*p, *core, *core))

                    def ref2():
                        out = np.zeros(p + core + tail)
                        lead = core[:nd - nf]
                        for i in np.ndindex(*p):
                            for k in np.ndindex(*lead):
                                for a in np.ndindex(*tail):
                                    for b in np.ndindex(*tail):
                                        out[i + k + a + b] = y[i + k + a + k + b]
                        return out
                    T(ctx, 'misc.get_diag').eq(lambda y: misc.get_diag(y, ndim=nd, ndim_to=nf), ref2, [y], w)
    x = np.ones((2, 3))
    for f in (lambda: misc.make_diag(x, ndim=-1), lambda: misc.make_diag(x, ndim=1, ndim_from=-1), lambda: misc.make_diag(x, ndim=1, ndim_from=2),
              lambda: misc.make_diag(x, ndim=2, ndim_from=1), lambda: misc.make_diag(np.ones(3), ndim=1, ndim_from=1),
              lambda: misc.get_diag(x, ndim=-1), lambda: misc.get_diag(x, ndim=1, ndim_to=2), lambda: misc.get_diag(x, ndim=1, ndim_to=-1),
              lambda: misc.get_diag(x), lambda: misc.get_diag(np.ones(3))):
        T(ctx, 'misc.make_diag/get_diag').rej(f, 'invalid')


@table()
def joining(ctx, r, R, _):
    for n in (1, 2, 3):
        for ps in itertools.product(shapes(R if n < 3 else 1), repeat=n):
            P = bshape(*ps)
            xs = [np.asarray(r.randn(*p)) for p in ps]
            T(ctx, 'misc.broadcast').eq(lambda *xs: tuple(misc.broadcast(*xs)), lambda: tuple(full(x, P) for x in xs), xs, str(ps))
            # block_diag: blocks (1x2), (2x1), (2x2)
            bl = [(1, 2), (2, 1), (2, 2)][:n]
            ys = [r.randn(*p, *c) for p, c in zip(ps, bl)]

            def bd(*c):
                out = np.zeros((sum(b[0] for b in bl), sum(b[1] for b in bl)))
                i = j = 0
                for b in c:
                    out[i:i + b.shape[0], j:j + b.shape[1]] = b
                    i += b.shape[0]
                    j += b.shape[1]
                return out
            T(ctx, 'misc.block_diag').eq(misc.block_diag, lambda: pmap(bd, (2,) * n, *ys), ys, str(ps))
            zs = [r.randn(*p, k + 1) for k, p in enumerate(ps)]
            T(ctx, 'misc.concatenate').eq(misc.concatenate, lambda: pmap(lambda *c: np.concatenate(c), (1,) * n, *zs), zs, str(ps))
            T(ctx, 'misc.concatenate axis=-2').eq(lambda *zs: misc.concatenate(*zs, axis=-2),
                                                 lambda: np.moveaxis(pmap(lambda *c: np.concatenate(c), (1,) * n, *zs), -1, 0 if False else -1)[..., :, None] * np.ones(2),
                                                 [z[..., :, None] * np.ones(2) for z in zs], str(ps))
            T(ctx, 'misc.broadcast ignoring').eq(lambda *zs: tuple(misc.broadcast(*zs, ignore_axis=-1)),
                                                lambda: tuple(full(z, P + z.shape[-1:]) for z in zs), zs, str(ps))
    for f in (lambda: misc.broadcast(np.ones(2), np.ones(3)), lambda: misc.broadcast(np.ones(2), ignore_axis=0), lambda: misc.broadcast(np.ones(2), ignore_axis=(-1, -1)),
              lambda: misc.concatenate(np.ones((2, 2)), np.ones((3, 2))), lambda: misc.block_diag(np.ones((2, 1, 1)), np.ones((3, 1, 1)))):
        T(ctx, 'misc.broadcast').rej(f, 'invalid')
    for n in (1, 2, 3, 4):
        for ds in itertools.product((1, 2), repeat=n):
            for form in ('array', 'scalar'):
                if form == 'scalar' and set(ds) != {1}:
                    continue
                D = [r.randn(d, d) if form == 'array' else float(r.randn()) for d in ds]
                B = [r.randn(a, b) if form == 'array' else float(r.randn()) for a, b in zip(ds[:-1], ds[1:])]

                def ref():
                    M = sum(ds)
                    o = np.concatenate([[0], np.cumsum(ds)]).astype(int)
                    A = np.zeros((M, M))
                    for k in range(n):
                        A[o[k]:o[k + 1], o[k]:o[k + 1]] = D[k]
                    for k in range(n - 1):
                        A[o[k]:o[k + 1], o[k + 1]:o[k + 2]] = B[k]
                        A[o[k + 1]:o[k + 2], o[k]:o[k + 1]] = np.transpose(np.atleast_2d(B[k]))
                    return A
                T(ctx, 'misc.block_banded').eq(misc.block_banded, ref, [D, B], str(ds))
                T(ctx, 'misc.block_banded').rej(lambda: misc.block_banded(D, B + B[:1] + [np.ones((ds[-1], ds[-1]))]), str(ds))
                if n > 1:
                    T(ctx, 'misc.block_banded').rej(lambda: misc.block_banded(D, [np.ones((3, 3))] + B[1:]), str(ds))
                    T(ctx, 'misc.block_banded').rej(lambda: misc.block_banded([np.ones((1, 2))] + D[1:], B), str(ds))


# ---------------------------------------------------------------- numerics

@table()
def logsumexp(ctx, r, R, _):
    vals = [0., -.7, 1.3, 800., -800., -np.inf, np.inf]

    def lse(v):
        v = list(v)
        m = max(v)
        if m == np.inf or m == -np.inf:
            return m
        return m + math.log(sum(math.exp(x - m) for x in v))
    arrays = [np.array(v) for n in (1, 2, 3) for v in itertools.product(vals, repeat=n)]
    for v in arrays:
        for ax in (None, 0, -1):
            for kd in (False, True):
                T(ctx, 'misc.logsumexp').eq(lambda v: misc.logsumexp(v, axis=ax, keepdims=kd), np.reshape(lse(v), (1,) if kd else ()), [v], '%s axis %s keepdims %s' % (v.tolist(), ax, kd))
        if np.isfinite(lse(v)):
            T(ctx, 'misc.normalized_exp').eq(misc.normalized_exp, (np.array([math.exp(x - lse(v)) if x > -np.inf else 0. for x in v]), np.array([lse(v)])), [v], str(v.tolist()))
    for x in vals:
        T(ctx, 'misc.logsumexp').eq(lambda x: misc.logsumexp(x), x, [np.float64(x)], 'scalar %s' % x)
    for sh in shapes(R + 1):
        x = np.asarray(r.choice(vals[:6], size=sh))
        d = len(sh)
        axs = [None] + list(range(-d, d)) + [c for k in (2, 3) for c in itertools.combinations(range(d), k)] + [(-1, 0)][:d > 1]
        for ax in axs:
            for kd in (False, True):
                def ref():
                    red = set(range(d)) if ax is None else {a % d for a in (ax if isinstance(ax, tuple) else (ax,))}
                    keep = [k for k in range(d) if k not in red]
                    out = np.empty([sh[k] for k in keep])
                    for i in np.ndindex(*out.shape):
                        sl = [slice(None)] * d
                        for k, j in zip(keep, i):
                            sl[k] = j
                        out[i] = lse(np.ravel(x[tuple(sl)]))
                    return out.reshape([1 if k in red else sh[k] for k in range(d)]) if kd else out
                T(ctx, 'misc.logsumexp').eq(lambda x: misc.logsumexp(x, axis=ax, keepdims=kd), ref, [x], '%s axis %s keepdims %s' % (sh, ax, kd))
        if d:
            x = r.randn(*sh) * 3

            def norm(v):
                e = [math.exp(a) for a in v]
                return np.array([a / sum(e) for a in e])
            T(ctx, 'misc.normalized_exp').eq(misc.normalized_exp, lambda: (pmap(norm, (1,), x), pmap(lambda v: np.array([lse(v)]), (1,), x)), [x], str(sh))
    for sh in shapes(R + 1):
        x = np.asarray(r.randn(*sh))
        x = np.where(r.rand(*sh) < .3, np.nan, x) if sh else x
        d = len(sh)
        for ax in [None] + list(range(-d, d)):
            for kd in (False, True):
                def ref():
                    red = set(range(d)) if ax is None else {ax % d}
                    keep = [k for k in range(d) if k not in red]
                    out = np.empty([sh[k] for k in keep])
                    for i in np.ndindex(*out.shape):
                        sl = [slice(None)] * d
                        for k, j in zip(keep, i):
                            sl[k] = j
                        vs = [v for v in np.ravel(x[tuple(sl)]) if v == v]
                        out[i] = sum(vs) / len(vs) if vs else np.nan
                    return out.reshape([1 if k in red else sh[k] for k in range(d)]) if kd else out
                T(ctx, 'misc.mean').eq(lambda x: misc.mean(x, axis=ax, keepdims=kd), ref, [x], '%s axis %s keepdims %s' % (sh, ax, kd))
                y = np.asarray(r.randn(*sh))
                z = np.asarray(r.randn(*sh))
                if not kd:
                    T(ctx, 'misc.rmse').eq(lambda y, z: misc.rmse(y, z, axis=ax), lambda: np.sqrt(np.mean((y - z) ** 2, axis=ax)), [y, z], '%s %s' % (sh, ax))


@table()
def special_functions(ctx, r, R, _):
    xs = np.concatenate([-np.logspace(6, -2, 40), [0.], np.logspace(-2, 2, 30), np.linspace(-3, 0, 31)])
    T(ctx, 'misc.invpsi').eq(lambda x: special.psi(misc.invpsi(x)), xs, [xs], 'grid', rtol=1e-9, atol=1e-10)
    for x in xs:
        T(ctx, 'misc.invpsi').eq(lambda x: special.psi(misc.invpsi(x)), x, [np.float64(x)], 'scalar %r' % x, rtol=1e-9, atol=1e-10)
    ys = np.linspace(2., 30., 57)
    T(ctx, 'misc.invgamma').eq(lambda y: np.real(misc.invgamma(special.gamma(y))), ys, [ys], 'grid', rtol=5e-2)
    for sh in shapes(R):
        for d in (1, 2, 3, 4):
            a = np.asarray(r.rand(*sh) + d)

            def ref():
                return pmap(lambda v: sum(special.digamma(v - .5 * k) for k in range(d)), (0,), a)
            T(ctx, 'misc.multidigamma').eq(lambda a: misc.multidigamma(a, d), ref, [a], '%s %d' % (sh, d))
            h = 1e-5
            T(ctx, 'misc.multidigamma').eq(lambda a: misc.multidigamma(a, d), lambda: (special.multigammaln(a + h, d) - special.multigammaln(a - h, d)) / (2 * h)
                                          if a.ndim else np.asarray((special.multigammaln(a + h, d) - special.multigammaln(a - h, d)) / (2 * h)), [a], 'derivative %s %d' % (sh, d), rtol=1e-5)
    p = np.array([1e-12, 1e-3, .2, .5, .9, 1 - 1e-6])
    lo = np.log(p) - np.log1p(-p)
    T(ctx, 'random.logodds_to_probability').eq(brandom.logodds_to_probability, p, [lo], 'grid')
    ext = np.array([-2000., -745., 745., 2000., np.inf, -np.inf])
    T(ctx, 'random.logodds_to_probability').eq(brandom.logodds_to_probability, np.array([0, 0, 1, 1, 1, 0.]), [ext], 'extremes')
    # coordinates: each pair of points against the spherical law of cosines
    def hav(c1, c2):
        u = [np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]) for la, lo in
             [np.deg2rad(c1), np.deg2rad(c2)]]
        return 6372795 * np.arctan2(np.linalg.norm(np.cross(*u)), np.dot(*u))
    pts = [(0., 0.), (60.2, 24.9), (-33., 151.), (89., -170.), (0., 180.)]
    for n, m in itertools.product((1, 2, 5), (1, 3, 5)):
        c1, c2 = np.array(pts[:n]).T, np.array(pts[-m:]).T
        T(ctx, 'misc.dist_haversine').eq(lambda a, b: misc.dist_haversine(a, b), lambda: np.array([[hav(p, q) for q in pts[-m:]] for p in pts[:n]]), [c1, c2], '%dx%d' % (n, m), rtol=1e-6, atol=1e-2)
        for rad in (1., 10.):
            T(ctx, 'misc.dist_haversine').eq(lambda a, b: misc.dist_haversine(a, b, radius=rad), lambda: rad / 6372795 * np.array([[hav(p, q) for q in pts[-m:]] for p in pts[:n]]), [c1, c2], '%dx%d radius %g' % (n, m, rad), rtol=1e-6, atol=1e-8)
    # optimisation helpers
    A = spd(r, (), 3)
    b = r.randn(3)
    f = lambda x: (.5 * x @ A @ x - b @ x, A @ x - b)
    T(ctx, 'optimize.minimize').eq(lambda x: bopt.minimize(f, x), np.linalg.solve(A, b), [np.zeros(3)], 'quadratic', rtol=1e-4, atol=1e-4)
    for k in (1, 2, 3, 20):
        # k steps of conjugate gradients never raise a convex function; on a quadratic of dimension three, three reach the minimum
        T(ctx, 'optimize.minimize').eq(lambda x: f(bopt.minimize(f, x, maxiter=k))[0] < f(x)[0], True, [np.ones(3)], 'at most %d steps' % k)
    for eps in (1e-5, 1e-7):
        T(ctx, 'misc.gradient').eq(lambda x: misc.gradient(lambda x: f(x)[0], x, epsilon=eps), A @ np.ones(3) - b, [np.ones(3)], 'quadratic, step %g' % eps, rtol=1e-3, atol=1e-3)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        T(ctx, 'optimize.check_gradient').eq(lambda x: bopt.check_gradient(f, x, verbose=False)[1] < 1e-5, True, [r.randn(3)], 'right gradient')
        T(ctx, 'optimize.check_gradient').eq(lambda x: bopt.check_gradient(lambda x: (f(x)[0], f(x)[1] + [0, .1, 0]), x, verbose=False)[1] > 1e-3, True, [r.randn(3)], 'wrong gradient')
    T(ctx, 'misc.gradient').eq(lambda x: misc.gradient(lambda x: f(x)[0], x), A @ np.ones(3) - b, [np.ones(3)], 'quadratic', rtol=1e-4, atol=1e-4)


@table()
def command_line(ctx, r, R, _):
    t = T(ctx, 'misc.parse_command_line_arguments').vals()
    man = [('name', str, 'a'), ('age', int, 'b'), ('Is-On', None, 'c')]
    opts = [[('phone', str, 'd'), ('big-flag', None, 'e')], [('x', float, 'f')], []]
    flat = man + sum(opts, [])
    choice = {'name': ['John Doe', ''], 'age': ['42', '-1'], 'Is-On': [True, False], 'phone': ['-', None], 'big-flag': [True, False, None], 'x': ['1e-3', None]}

    def word(n, v):
        n = n.lower()
        return '--%s%s' % ('' if v else 'no-', n) if isinstance(v, bool) else '--%s=%s' % (n, v)
    for nopt in range(4):
        names = [a[0] for a in man] + [a[0] for o in opts[:nopt] for a in o]
        for vals in itertools.product(*[choice[n] for n in names]):
            given = [(n, v) for n, v in zip(names, vals) if v is not None]
            orders = [given, given[::-1]] + ([given[i:] + given[:i] for i in range(1, len(given))] if nopt == 3 else [])
            for o in orders:
                argv = [word(n, v) for n, v in o]
                conv = {a[0]: (a[1] if a[1] else (lambda v: v)) for a in flat}
                want = tuple([{n.replace('-', '_'): conv[n](v) for n, v in given if n in [a[0] for a in g]} for g in [man] + opts[:nopt]])
                t.eq(lambda argv: misc.parse_command_line_arguments(man, *opts[:nopt], argv=argv), want, [argv], str(argv))
    full_ = ['--name=a', '--age=3', '--is-on']
    for bad in ([full_[i] for i in range(3) if i != k] for k in range(3)):
        t.rej(lambda: misc.parse_command_line_arguments(man, *opts, argv=bad), str(bad))
    for extra in (['--age=4'], ['--name=b'], ['--no-is-on'], ['--is-on'], ['--unknown'], ['--unknown=3'], ['--age'], ['--x=abc'], ['--is-on=1'], ['--no-x']):
        def f():
            try:
                return misc.parse_command_line_arguments(man, *opts, argv=full_ + extra)
            except SystemExit:
                raise ValueError
        t.rej(f, str(extra))
    t.rej(lambda: misc.parse_command_line_arguments(man, man[:1], argv=full_), 'names that are not unique')


@table()
def covariance_functions(ctx, r, R, _):
    """Gaussian-process covariances: every kind of input (none, scalar, vector, matrix; one set, the same twice, two), and gradients by differences"""
    import io, contextlib
    from bayespy.utils.covfunc import covariance as cf

    def quiet(f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)

    def dense(K):
        return np.asarray(K.todense()) if hasattr(K, 'todense') else np.asarray(K)
    ins = {'scalar': np.array(.7), 'one': r.randn(1), 'vector': r.randn(3), '3x1': r.randn(3, 1), '2x2': r.randn(2, 2), '3x2': r.randn(3, 2), '4x2': r.randn(4, 2)}
    col = lambda x: x.reshape(-1, 1) if x.ndim < 2 else x
    se = lambda a, l, x, y: np.array([[a ** 2 * math.exp(-.5 * sum((p - q) ** 2) / l ** 2) for q in col(y)] for p in col(x)])
    h = 1e-6
    for a, l in itertools.product((1., .5, 2.5), (1., .4, 3.)):
        for wrap in (float, np.array, lambda v: np.array([v])):
            for kx, x in ins.items():
                w = 'amplitude %g length %g inputs %s' % (a, l, kx)
                n = col(x).shape[0]
                T(ctx, 'covfunc_se').eq(lambda x: quiet(cf.covfunc_se, wrap(a), wrap(l), x), a ** 2 * np.ones(n), [x], w + ' variance')
                T(ctx, 'covfunc_delta').eq(lambda x: quiet(cf.covfunc_delta, wrap(a), x), a ** 2 * np.ones(n), [x], w + ' variance')
                T(ctx, 'covfunc_se gradients').eq(lambda x: tuple(quiet(cf.covfunc_se, wrap(a), wrap(l), x, gradient=True)[1]), (2 * a * np.ones(n), np.zeros(n)), [x], w + ' variance')
                T(ctx, 'covfunc_se').eq(lambda x: quiet(cf.covfunc_se, wrap(a), wrap(l), x, x), se(a, l, x, x), [x], w + ' with itself')
                T(ctx, 'covfunc_delta').eq(lambda x: dense(quiet(cf.covfunc_delta, wrap(a), x, x)), a ** 2 * np.eye(n), [x], w + ' with itself')
                T(ctx, 'covfunc_delta gradients').eq(lambda x: dense(quiet(cf.covfunc_delta, wrap(a), x, x, gradient=True)[1][0]), 2 * a * np.eye(n), [x], w + ' with itself')
                for ky, y in ins.items():
                    if ky == kx or col(x).shape[1] != col(y).shape[1]:
                        continue
                    T(ctx, 'covfunc_se').eq(lambda x, y: quiet(cf.covfunc_se, wrap(a), wrap(l), x, y), se(a, l, x, y), [x, y], '%s and %s' % (w, ky))
                    T(ctx, 'covfunc_delta').eq(lambda x, y: dense(quiet(cf.covfunc_delta, wrap(a), x, y)), np.zeros((n, col(y).shape[0])), [x, y], '%s and %s' % (w, ky))
                    T(ctx, 'covfunc_zeros').eq(lambda x, y: dense(cf.covfunc_zeros(x, y)), np.zeros((n, col(y).shape[0])), [x, y], '%s and %s' % (w, ky))
                    grads = ((se(a + h, l, x, y) - se(a - h, l, x, y)) / (2 * h), (se(a, l + h, x, y) - se(a, l - h, x, y)) / (2 * h))
                    T(ctx, 'covfunc_se gradients').eq(lambda x, y: tuple(quiet(cf.covfunc_se, wrap(a), wrap(l), x, y, gradient=True)[1]), grads, [x, y], '%s and %s' % (w, ky), rtol=1e-5, atol=1e-7)
                T(ctx, 'covfunc_zeros').eq(lambda x: cf.covfunc_zeros(x), np.zeros(n), [x], w)
                T(ctx, 'covfunc_zeros').eq(lambda x: len(cf.covfunc_zeros(x, x, gradient=True)[1]), 0, [x], w)
    for d in (1, 2, 3, 4, 7):
        j = d // 2 + 3
        ref = lambda x: (1 - x) ** (j + 2) * ((j * j + 4 * j + 3) * x * x + (3 * j + 6) * x + 3) / 3
        x = np.array([0., .01, .25, .5, .8, .99])
        d1 = (ref(x + h) - ref(x - h)) / (2 * h)
        d2 = (ref(x + 1e-4) - 2 * ref(x) + ref(x - 1e-4)) / 1e-8
        T(ctx, 'gp_cov_pp2').eq(lambda x: cf.gp_cov_pp2(x, d), ref(x), [x], 'dimension %d' % d)
        T(ctx, 'gp_cov_pp2').eq(lambda x: tuple(cf.gp_cov_pp2(x, d, gradient=True)), (ref(x), d1), [x], 'dimension %d' % d, rtol=1e-5, atol=1e-7)
        for k, want in enumerate((ref(x), d1, d2)):
            T(ctx, 'gp_cov_pp2_new').eq(lambda x: cf.gp_cov_pp2_new(x, d, derivative=k), want, [x], 'dimension %d derivative %d' % (d, k), rtol=1e-4, atol=1e-4 if k == 2 else 1e-6)


@table()
def densities(ctx, r, R, _):
    for D in (1, 2, 3):
        for p, q in pairs(R):
            V = spd(r, p, D)
            mu = r.randn(*q, D)
            y = r.randn(*q, D)
            ld = pmap(lambda V: np.linalg.slogdet(V)[1], (2,), V)
            quad = lambda a, b: pmap(lambda x, V, y: x @ V @ y, (1, 2, 1), a, V, b)
            want = lambda: pmap(lambda y, m, V: stats.multivariate_normal.logpdf(y, m, np.linalg.inv(V)), (1, 1, 2), y, mu, V)
            w = 'D %d plates %s %s' % (D, p, q)
            args = [quad(y, y), quad(y, mu), quad(mu, mu)]
            T(ctx, 'random.gaussian_logpdf').eq(lambda a, b, c, l: brandom.gaussian_logpdf(a, b, c, l, D), want, args + [ld], w, rtol=1e-7)
            T(ctx, 'misc.gaussian_logpdf').eq(lambda a, b, c, l: misc.gaussian_logpdf(a, b, c, l, D), want, args + [-ld], w, rtol=1e-7)
            T(ctx, 'random.gaussian_entropy').eq(lambda l: brandom.gaussian_entropy(l, D), lambda: pmap(lambda V: stats.multivariate_normal.entropy(np.zeros(D), np.linalg.inv(V)), (2,), V), [ld], w)
            a, b = np.asarray(r.rand(*p) + .5), np.asarray(r.rand(*q) + .5)
            x = np.asarray(r.rand(*q) + .1)
            if D == 1:
                T(ctx, 'random.gamma_logpdf').eq(lambda *z: brandom.gamma_logpdf(*z), lambda: pmap(lambda x, a, b: stats.gamma.logpdf(x, a, scale=1 / b), (0, 0, 0), x, a, b),
                                                [b * x, np.log(x), a * np.log(x), a * np.log(b), special.gammaln(a)], w)
                T(ctx, 'random.gamma_entropy').eq(lambda *z: brandom.gamma_entropy(*z), lambda: pmap(lambda a, b: stats.gamma.entropy(a, scale=1 / b), (0, 0), a, b),
                                                 [a, np.log(b), special.gammaln(a), special.psi(a), a * special.psi(a)], w)
            # t distribution from a Gaussian-gamma by quadrature free identities
            Cov = pmap(np.linalg.inv, (2,), V)

            def tt(mu, Cov, a, b):
                m, S, nu = brandom.gaussian_gamma_to_t(mu, Cov, a, b, ndim=1)
                z2 = pmap(lambda y, m, S: (y - m) @ np.linalg.solve(S, y - m), (1, 1, 2), y, m, S)
                return brandom.t_logpdf(z2, pmap(lambda S: np.linalg.slogdet(S)[1], (2,), S), nu, D)
            for nd in (0, 1, 2):
                Cd = r.randn(*np.broadcast_shapes(p, q), *(2 * nd * (D,)))
                T(ctx, 'random.gaussian_gamma_to_t').eq(lambda C, a, b: tuple(brandom.gaussian_gamma_to_t(mu, C, a, b, ndim=nd)), lambda: (mu, pmap(lambda C, a, b: C * b / a, (2 * nd, 0, 0), Cd, a, b), 2 * a), [Cd, a, b], '%s ndim %d' % (w, nd))
            T(ctx, 'random.t_logpdf').eq(tt, lambda: pmap(lambda y, m, C, a, b: stats.multivariate_t.logpdf(y, m, C * b / a, df=2 * a), (1, 1, 2, 0, 0), y, mu, Cov, a, b), [mu, Cov, a, b], w, rtol=1e-7)


@table(1, 2, 3, 4)
def alpha_beta(ctx, r, R, N):
    t = T(ctx, 'random.alpha_beta_recursion')
    for D in (1, 2, 3) if N < 4 else (1, 2):
        for p, q in pairs(R):
            for kind in ('random', 'impossible', 'offset'):
                l0, lP = r.randn(*p, D), r.randn(*q, N, D, D)
                if kind == 'impossible':
                    if D == 1:
                        continue
                    l0[..., 0] = -np.inf
                    lP[..., -1, 1, 0] = -np.inf
                if kind == 'offset':
                    l0, lP = l0 - 900., lP + 500.

                def ref(l0, lP):
                    lse = lambda v: (max(v) + math.log(sum(math.exp(x - max(v)) for x in v)))
                    paths = list(itertools.product(range(D), repeat=N + 1))
                    sc = [l0[z[0]] + sum(lP[n, z[n], z[n + 1]] for n in range(N)) for z in paths]
                    Z = lse(sc)
                    z0, zz = np.zeros(D), np.zeros((N, D, D))
                    for z, s in zip(paths, sc):
                        w = math.exp(s - Z)
                        z0[z[0]] += w
                        for n in range(N):
                            zz[n, z[n], z[n + 1]] += w
                    return np.concatenate([z0, zz.ravel(), [-Z]])

                def call(l0, lP):
                    z0, zz, g = brandom.alpha_beta_recursion(l0, lP)
                    P = bshape(p, q)
                    assert np.shape(z0) == P + (D,) and np.shape(zz) == P + (N, D, D) and np.shape(g) == P, (np.shape(z0), np.shape(zz), np.shape(g))
                    return np.concatenate([z0, zz.reshape(P + (-1,)), g[..., None]], axis=-1)
                t.eq(call, lambda: pmap(ref, (1, 3), l0, lP), [l0, lP], 'p0 %s P %s D %d N %d %s' % (p, q, D, N, kind), rtol=1e-8)
    t.rej(lambda: brandom.alpha_beta_recursion(np.zeros(2), np.zeros((N, 3, 3))), '2 and 3 states')
    t.rej(lambda: brandom.alpha_beta_recursion(np.zeros((2, 2)), np.zeros((3, N, 2, 2))), 'plates 2 and 3')


def cases(tier):
    return [dict(table=k) for k in TABLES]


def run(ctx, case):
    f, v = TABLES[case['table']]
    r = engine.rng('c21', case['table'])
    R = 3
    if ctx.tier == 'quick' and case['table'].split('-')[0] in ('block_banded_solve', 'sum_multiply', 'sum_multiply_to_plates', 'chol_solve', 'alpha_beta', 'inner'):
        R = 2
    f(ctx, r, R, v)
