"""Contracts on e2cnn.diffops and R2Diffop (C10).

Steerability and completeness of the angular operators are proved for symbolic order, frequencies, axis and element.  The operators are homogeneous polynomials of symbolic degree; the
irrep solutions see them only through homogenized_cheby, transform_polynomial, multiply_polynomials and laplacian_power, which are replaced by their contracts (values on the unit circle,
which determine a homogeneous polynomial).  The contracts of these functions are established for the real code by `polynomials`: coefficients and matrices symbolic, listed degrees."""
import contextlib, itertools, math
from fractions import Fraction as Fr
from math import comb
import numpy as np
from . import sym, zoo, ded_groups as dg, ded_kernels as dk, ded_layers as dl
from .core import Fail, Undecided
from .sym import S, prove, shims, lift, NP
from .ded_groups import mm, elem, flips
from .ded_kernels import CLS, FAM, setup, image, chosen, concrete, SIZES, DIMS, LISTS, FakeGroup, FakeRepr

DM = 'e2cnn.diffops.'


def mods():
    import e2cnn.diffops.irreps_basis as a, e2cnn.diffops.utils as b, e2cnn.diffops.basis as c, e2cnn.diffops.steerable_basis as d, e2cnn.diffops.r2 as e
    return [a, b, c, d, e]


class Size:
    """absolute value of a coefficient that is not a rounding error"""
    def __init__(self, v): self.v = v

    def __lt__(self, o):
        if isinstance(o, (int, float)) and 0 <= o <= 1e-6: return False
        raise Undecided('coefficients compared with %r' % (o,))


class Poly:
    """a homogeneous polynomial, known by its values on the unit circle"""
    def __init__(self, f): self.f = f
    def __mul__(self, o): return Poly(lambda a: self.f(a) * (o.f(a) if isinstance(o, Poly) else o))
    __rmul__ = __mul__
    def __add__(self, o): return Poly(lambda a: self.f(a) + (o.f(a) if isinstance(o, Poly) else o))
    __radd__ = __add__
    def __neg__(self): return Poly(lambda a: -self.f(a))
    def __sub__(self, o): return self + (-o)
    def __abs__(self): return Size(self)


class NpDiff(sym.NpShim):
    """arrays of coefficients; a symbolic number of them is held by one entry, the polynomial"""
    def _shape(self, a):
        s = a[0] if len(a) and isinstance(a[0], (tuple, list)) else a[:1]
        return tuple(1 if isinstance(n, S) and n.n().value() is None else int(n) for n in s)
    def empty(self, *a, **k): return super().empty(self._shape(a))
    def zeros(self, *a, **k): return super().zeros(self._shape(a))

    def abs(self, x):
        x = np.asarray(x)
        if x.dtype != object: return np.abs(x)
        out = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape): out[i] = Size(x[i]) if isinstance(x[i], (Poly, S)) and not (isinstance(x[i], S) and x[i].n().value() is not None) else abs(float(x[i] if not isinstance(x[i], S) else x[i].n().value()))
        return out

    def sum(self, x, *a, **k): return np.sum(x, *a, **k)


def one(p):
    r = np.empty(1, object); r[0] = p
    return r


def cheby(n, kind='t'):
    """homogenized_cheby by its contract: real and imaginary part of (x + i y)^n (conjugate for negative n)"""
    kind = kind.lower()
    if kind == 't': return one(Poly(lambda a: (lift(n) * a).cos()))
    if kind == 'u': return one(Poly(lambda a: (lift(n) * a).sin()))
    raise ValueError(kind)


def product(a, b): return one((a[0] if isinstance(a[0], Poly) else Poly(lambda x, v=a[0]: lift(v))) * (b[0] if isinstance(b[0], Poly) else b[0]))


def transform(known):
    """transform_polynomial by its contract: the polynomial v -> P(M^T v)"""
    def f(coefficients, matrix):
        for s in (1, -1, 0):
            for name, ax in known:
                a = s * ax
                w = [[a.cos(), -a.sin()], [a.sin(), a.cos()]]
                if all(not (lift(matrix[i][j]) - w[i][j]).n().t for i in (0, 1) for j in (0, 1)):
                    out = np.empty(coefficients.shape, object)
                    for i in np.ndindex(*out.shape):
                        p = coefficients[i]
                        out[i] = Poly(lambda x, p=p, a=a: (p.f(x - a) if isinstance(p, Poly) else lift(p)))
                    return out
        raise Undecided('transformation by a matrix that is not a rotation by a known angle')
    return f


@contextlib.contextmanager
def env(offsets=None, known=(), **extra):
    k = dict(extra)
    if offsets is not None: k['offset_iterator'] = offsets
    k.update(homogenized_cheby=cheby, transform_polynomial=transform(known), multiply_polynomials=product, laplacian_power=lambda q: one(Poly(lambda a: lift(1))))
    with dg.env(), shims([m for m in mods() if not m.__name__.endswith('.utils')], np=NpDiff(), SO2=dg.standin('SO2', dg.so2), **k): yield


def solution(kind, g, ri, ro, axis, **kw):
    import e2cnn.diffops.irreps_basis as ib
    K = getattr(ib, CLS[kind])
    if kind == 'C': return K(g, ri, ro, **kw)
    if kind == 'SO2': return K(g, ri, ro)
    if kind == 'O2': return K(g, ri, ro, axis=axis)
    return K(g, ri, ro, axis=axis, **kw)


def sample(B, A):
    """values of the operators (as polynomials) at the angles"""
    C = B.coefficients
    out = np.empty(tuple(C[0].shape[:2]) + (len(C), A.shape[1]), object)
    for o, i, b, p in np.ndindex(*out.shape):
        if C[b].shape[2] != 1: raise Undecided('polynomial of unexpected form')
        v = C[b][o, i, 0]
        out[o, i, b, p] = v.f(A[0, p]) if isinstance(v, Poly) else lift(v)
    return out


def rebuild(t, kind, m, ci, co, top):
    """the real operators for a concrete model"""
    from checks import c10
    sp, a, b = concrete(kind, m, ci, co)
    if top > 24: raise Undecided('model too large to replay')
    return sp, a, b, c10.build_basis(sp, a, b, 1, None if kind in ('SO2', 'O2') else top, None) if kind != 'F' else build_f(sp, a, b, top)


def build_f(sp, a, b, top):
    from e2cnn.kernels import EmptyBasisException
    from e2cnn.diffops import DiscretizationArgs
    try: return sp.gs.build_diffop_basis(a, b, max_power=1, maximum_frequency=top, discretization=DiscretizationArgs())
    except EmptyBasisException: return None


def commutes(t, sp, a, b, B, E):
    from checks.c10 import peval
    if B is None: return
    rng = t.rng()
    for c in B.coefficients:
        for e in E:
            for v in rng.randn(3, 2):
                v = v / np.linalg.norm(v)
                t.close(peval(c, sp.M(e) @ v), np.asarray(b(e)) @ peval(c, v) @ np.linalg.inv(np.asarray(a(e))), 'operator does not commute with the group action', 1e-6, g=e, space=sp.key, inp=a.name, out=b.name)


def counts(t, sp, a, b, B, top):
    from checks.c10 import dimension
    by = {}
    for c in (B.coefficients if B is not None else []): by.setdefault(c.shape[-1] - 1, []).append(c.reshape(-1) / np.abs(c).max())
    for n in range(min(top, 12) + 1):
        got, want = by.get(n, []), dimension(sp, a, b, n)
        # one power of the Laplacian: orders with a solution of frequency n - 4 or below are not complete
        if n >= 4: continue
        t.check(len(got) == want, 'number of operators of an order differs from the dimension of the solution space', space=sp.key, inp=a.name, out=b.name, order=n, got=len(got), expected=want)
        if got: t.check(np.linalg.matrix_rank(np.stack(got), tol=1e-6) == len(got), 'operators are linearly dependent', order=n)


def run_steer(t, kind, ci, co):
    def replay(m):
        fs = [abs(int(v)) for k, v in m.items() if k.startswith('mu')] + [3]
        sp, a, b, B = rebuild(t, kind, m, ci, co, min(max(fs + [int(m.get('F', 0))]), 12))
        commutes(t, sp, a, b, B, sp.elements()[:40])

    def stub(c, F, sel, single):
        cnt, calls = [0], [0]

        def offsets(base_frequency, N, maximum_offset=None, maximum_frequency=None, non_negative=False):
            calls[0] += 1
            if sel is not None and calls[0] - 1 not in ((sel,) if single else (sel, (sel + 1) % 4)): return
            for _ in range(2 if not cnt[0] and sel is None and not single else 1):
                cnt[0] += 1
                j = c.int('t%d' % cnt[0])
                mu = lift(base_frequency) + j * N
                c.assume(F - mu); c.assume(F + mu)
                if non_negative: c.assume(mu)
                yield j
        return offsets
    for f in flips(kind):
        for sel in chosen(kind, ci, co):
            for whole in (False, True):
                def steer(c):
                    from vk import ded_spaces as ds
                    from e2cnn.diffops import DiscretizationArgs
                    F = c.int('F', 0)
                    axis = c.pi * c.real('axis')
                    with env(stub(c, F, sel, whole), [('axis', axis)]), (ds.env() if whole else contextlib.nullcontext()):
                        N, g, ri, ro = setup(c, kind, ci, co)
                        if whole and kind == 'D': sym.require(N > 1)
                        kw = {} if kind in ('SO2', 'O2') else {('maximum_frequency' if whole else 'max_frequency'): F}
                        try:
                            if whole:
                                sp = ds.space(c, kind if N is None or bool(lift(N) > 1) else 'T' if kind == 'C' else None, N, g, axis)
                                B = sp.build_diffop_basis(ri, ro, 1, DiscretizationArgs(), **kw)
                            else: B = solution(kind, g, ri, ro, axis, **kw)
                        except dk.empty():
                            c.holds(True, 'empty basis'); return
                        c.holds(tuple(B.shape) == (ro.size, ri.size), 'reported shape')
                        phi = c.pi * c.real('phi')
                        e = elem(c, kind, 2 if kind == 'F' else N, 'a', f)
                        A = np.empty((1, 2), object); A[0, 0] = phi; A[0, 1] = image(c, kind, N, e, phi, axis)
                        K = sample(B, A)
                        c.holds(B.dim == K.shape[2], 'dimension')
                        o, i = ro(e), ri(e)
                        for b in range(B.dim): c.eq(K[:, :, b, 1], mm(mm(o, K[:, :, b, 0]), np.asarray(i).T), 'the operator commutes with the group action')
                prove(t, '%s %s in %s out %s flip %d%s' % ('operator basis' if whole else 'diffops.' + CLS[kind], kind, ci, co, f, '' if sel is None else ' loops %d' % sel), [], steer, replay)


# ---------------------------------------------------------------- polynomials
def pval(c, coeffs, x, y):
    """sum_k c_k x^(n-k) y^k"""
    n = len(coeffs) - 1
    out = lift(0)
    for k in range(n + 1): out = out + lift(coeffs[k]) * x ** (n - k) * y ** k
    return out


@contextlib.contextmanager
def uenv(**extra):
    import e2cnn.diffops.utils as u
    with shims([u], np=NpPoly(), **extra): yield u


class NpPoly(NpDiff):
    """as NpDiff, all lengths concrete"""
    def _shape(self, a):
        s = a[0] if len(a) and isinstance(a[0], (tuple, list)) else a[:1]
        return tuple(int(n) for n in s)


def vec(c, name, n):
    r = np.empty(n, object)
    for i in range(n): r[i] = c.real('%s%d' % (name, i))
    return r


def binomial(a, b, n, c):
    """coefficients of (a x + b y)^n, by repeated multiplication"""
    p = [lift(1)]
    for _ in range(n):
        q = [lift(0)] * (len(p) + 1)
        for i, v in enumerate(p):
            q[i] = q[i] + v * a; q[i + 1] = q[i + 1] + v * b
        p = q
    return p


def polynomials(t):
    from checks import c10
    def replay(m): c10.utils(t, 0)

    for n in range(-16, 17):
        def ch(c):
            with uenv() as u: T, U = u.homogenized_cheby(n, 't'), u.homogenized_cheby(n, 'u')
            x, y = c.real('x'), c.real('y')
            re, im = lift(1), lift(0)
            for _ in range(abs(n)): re, im = re * x - im * y, re * y + im * x
            if n < 0: im = -im
            c.holds(len(T) == abs(n) + 1 and len(U) == abs(n) + 1, 'degree')
            c.eq(pval(c, T, x, y), re, 'homogenized_cheby t is the real part of (x + i y)^n')
            c.eq(pval(c, U, x, y), im, 'homogenized_cheby u is the imaginary part of (x + i y)^n')
        prove(t, 'homogenized_cheby %d' % n, [DM + 'utils.homogenized_cheby'], ch, replay)
    for n in range(0, 10):
        def la(c):
            with uenv() as u: L = u.laplacian_power(n)
            x, y = c.real('x'), c.real('y')
            w = lift(1)
            for _ in range(n): w = w * (x * x + y * y)
            c.holds(len(L) == 2 * n + 1, 'degree')
            c.eq(pval(c, L, x, y), w, 'laplacian_power is the power of x^2 + y^2')
        prove(t, 'laplacian_power %d' % n, [DM + 'utils.laplacian_power'], la, replay)
    for n, m in itertools.product(range(7), range(7)):
        def mul(c):
            a, b = vec(c, 'a', n + 1), vec(c, 'b', m + 1)
            with uenv() as u: p = u.multiply_polynomials(a, b)
            x, y = c.real('x'), c.real('y')
            c.holds(len(p) == n + m + 1, 'degree')
            c.eq(pval(c, p, x, y), pval(c, a, x, y) * pval(c, b, x, y), 'product of polynomials')
        prove(t, 'multiply_polynomials %d %d' % (n, m), [DM + 'utils.multiply_polynomials'], mul, replay)
    for n in range(0, 7):
        def ex(c):
            a, b = c.real('a'), c.real('b')
            with uenv() as u: p = u.expand_binomial(a, b, n)
            c.eq(list(p), binomial(a, b, n, c), 'binomial expansion')
        prove(t, 'expand_binomial %d' % n, [DM + 'utils.expand_binomial'], ex, replay)
    for n, sh in [(0, (1, 1)), (1, (2, 1)), (2, (1, 1)), (3, (1, 2)), (4, (1, 1)), (5, (1, 1))]:
        def tr(c):
            M = np.empty((2, 2), object)
            for i in np.ndindex(2, 2): M[i] = c.real('m%d%d' % i)
            P = np.empty(sh + (n + 1,), object)
            for i in np.ndindex(*P.shape): P[i] = c.real('p%d%d%d' % i)
            P0 = P.copy()
            with uenv() as u: Q = u.transform_polynomial(P, M)
            x, y = c.real('x'), c.real('y')
            u_, v_ = M[0, 0] * x + M[1, 0] * y, M[0, 1] * x + M[1, 1] * y
            c.holds(Q.shape == P.shape, 'shape')
            for i in np.ndindex(*sh): c.eq(pval(c, Q[i], x, y), pval(c, P[i], u_, v_), 'the transformed polynomial is the composition with the transposed matrix')
            c.eq(P, P0, 'the coefficients given are not modified')
        prove(t, 'transform_polynomial %d %s' % (n, sh), [DM + 'utils.transform_polynomial'], tr, replay)
    for n in range(0, 5):
        def evp(c):
            cs = []
            for q in range(2):
                P = np.empty((2, 1, n + q + 1), object)
                for i in np.ndindex(*P.shape): P[i] = c.real('p%d%d%d%d' % ((q,) + i))
                cs.append(P)
            pts = np.empty((2, 2), object)
            for i in np.ndindex(2, 2): pts[i] = c.real('v%d%d' % i)
            with uenv() as u: R = u.eval_polys(cs, pts)
            for q, i, p in itertools.product(range(2), range(2), range(2)): c.eq(R[q][i, 0, p], pval(c, cs[q][i, 0], pts[0, p], pts[1, p]), 'value of a polynomial at a point')
        prove(t, 'eval_polys %d' % n, [DM + 'utils.eval_polys'], evp, replay)


# ---------------------------------------------------------------- composition
def ireps(c, deg):
    """opaque irrep solutions: arbitrary coefficients of listed degrees"""
    from e2cnn.diffops.basis import DiffopBasis, DiscretizationArgs

    class Opaque(DiffopBasis):
        def __init__(self, group, in_irrep, out_irrep, discretization=DiscretizationArgs(), **kw):
            self.i, self.o, self.kw = getattr(in_irrep, 'name', in_irrep), getattr(out_irrep, 'name', out_irrep), kw
            cs = []
            for b in range(DIMS.get((self.i, self.o), 0)):
                P = np.empty((SIZES[self.o], SIZES[self.i], deg(self.i, self.o, b) + 1), object)
                for x in np.ndindex(*P.shape): P[x] = c.real('K_%s%s_%d_%d%d%d' % (self.i, self.o, b, *x))
                cs.append(P)
            super().__init__(cs, discretization)
        def __getitem__(self, b): return dict(frequency='%s%s%d' % (self.i, self.o, b), order=deg(self.i, self.o, b), idx=b)
        def __eq__(self, o): return isinstance(o, Opaque) and (self.i, self.o) == (o.i, o.o)
        def __hash__(self): return hash((self.i, self.o))
    return Opaque


def composed(t):
    """SteerableDiffopBasis and TensorBasis: every operator of every pair of irreps, in the basis of the representations, times every power of the Laplacian up to the limit, exactly once, and described"""
    def replay(m):
        from checks import c10
        for i in (1, 4, 7): c10.operators(t, i % len(zoo.spaces(2)))
    deg = lambda i, o, b: (len(i + o) + b) % 3 if (i, o) != ('v', 'v') else b
    for (ins, outs), power in itertools.product(LISTS, (None, 0, 1, 2)):
        for ca, cb in itertools.product((0, 1), (0, 1)):
            if ca + cb and (len(ins) + len(outs) > 3 or power == 2): continue
            if power == 2 and len(ins) + len(outs) > 3: continue
            def comp(c):
                from e2cnn.diffops.steerable_basis import SteerableDiffopBasis
                from e2cnn.diffops.basis import TensorBasis, DiscretizationArgs
                with dg.env(), shims(mods(), np=NpPoly()):
                    g = FakeGroup(SIZES)
                    ri, ro = FakeRepr(c, g, ins, ca, 'i'), FakeRepr(c, g, outs, cb, 'o')
                    D = DiscretizationArgs()
                    try: B = SteerableDiffopBasis(ireps(c, deg), ri, ro, D) if power is None else TensorBasis(ireps(c, deg), ri, ro, power, D)
                    except dk.empty():
                        c.holds(not any((i, o) in DIMS for i in ins for o in outs), 'empty only without solutions'); return
                    x, y = c.real('x'), c.real('y')
                    W = {}
                    pi = 0
                    for ii, i in enumerate(ins):
                        po = 0
                        for oo, o in enumerate(outs):
                            for b in range(DIMS.get((i, o), 0)):
                                d = deg(i, o, b)
                                E = np.empty((ro.size, ri.size), object); E[...] = lift(0)
                                for a1, a2 in np.ndindex(SIZES[o], SIZES[i]):
                                    E[po + a1, pi + a2] = pval(c, [c.real('K_%s%s_%d_%d%d%d' % (i, o, b, a1, a2, q)) for q in range(d + 1)], x, y)
                                M = mm(mm(ro.change_of_basis, E), ri.change_of_basis_inv)
                                L = lift(1)
                                for p in range(1 if power is None else power + 1):
                                    W[ii, oo, b, p] = (d + 2 * p, np.vectorize(lambda v: v * L, otypes=[object])(M))
                                    L = L * (x * x + y * y)
                            po += SIZES[o]
                        pi += SIZES[i]
                    c.holds(B.dim == len(W) == len(B) == len(B.coefficients), 'number of operators')
                    c.holds(tuple(B.shape) == (ro.size, ri.size), 'reported shape')
                    c.holds(B.maximum_order == max(o for o, _ in W.values()), 'maximum order')
                    Ls = list(B); c.holds(len(Ls) == B.dim, 'iteration yields every operator')
                    seen = set()
                    for n in range(B.dim):
                        d = B[n]
                        c.holds(d == Ls[n], 'indexing and iteration agree')
                        k = (d['in_irrep_idx'], d['out_irrep_idx'], d['inner_idx'], d.get('power', 0) if power is not None else 0)
                        c.holds(k in W and k not in seen, 'every operator of every pair of irreps with every power once'); seen.add(k)
                        c.holds((d['in_irrep'], d['out_irrep'], d['idx'], d['frequency'], tuple(d['shape'])) == (ins[k[0]], outs[k[1]], n, '%s%s%d' % (ins[k[0]], outs[k[1]], k[2]), (SIZES[outs[k[1]]], SIZES[ins[k[0]]])), 'description')
                        c.holds(d['order'] == W[k][0] == B.coefficients[n].shape[2] - 1, 'described order')
                        for q in np.ndindex(ro.size, ri.size): c.eq(pval(c, B.coefficients[n][q], x, y), W[k][1][q], 'operator in the basis of the representations, times the power of the Laplacian')
            prove(t, '%s %s -> %s%s%s' % ('SteerableDiffopBasis' if power is None else 'TensorBasis power %d' % power, '+'.join(ins), '+'.join(outs), ' A' if ca else '', ' B' if cb else ''), [], comp, replay, maxpaths=2000)


# ---------------------------------------------------------------- discretisation
def wname(points, n, x0, i, j): return 'w_%s_%s_%s_%d_%d' % ('|'.join('%g' % p for p in points), n, x0, i, j)


def weights_stub(c):
    """sympy's finite_diff_weights by its contract: result[m][i][j] is the weight of point j in the derivative of order m at x0 with the first i + 1 points (arbitrary numbers here)"""
    def f(order, x_list, x0=0):
        order, pts = int(order), [float(p) for p in x_list]
        return [[[c.real(wname(pts, m, x0, i, j)) if j <= i else 0 for j in range(len(pts))] for i in range(len(pts))] for m in range(order + 1)]
    return f


@contextlib.contextmanager
def denv(c):
    import e2cnn.diffops.utils as u
    with uenv(finite_diff_weights=weights_stub(c), _DIFFOP_CACHE={}, _1D_KERNEL_CACHE={}) as u: yield u


def grid(n, d): return [(q - (n - 1) / 2) * d for q in range(n)]


def stencils(t):
    from checks import c10
    def replay(m):
        for k in (2, 3, 4, 5): c10.stencils(t, k)

    def w1(c, n, pts): return [c.real(wname(pts, n, 0, len(pts) - 1, j)) for j in range(len(pts))]

    def d1(c):
        with denv(c) as u:
            for _ in range(2):
                for k, d, shift in ((3, 1, 0), (3, 2, 0), (2, 1, 0), (4, 1, 0), (3, 1, .5), (5, 1, 0), (1, 1, 0), (4, 3, 0)):
                    P = [p + shift for p in grid(k, d)]
                    for n in (2, 0, 1, 3, 4):
                        if n >= k: continue
                        for arg in (P, np.array(P)):
                            c.eq(list(u.discretize_1d_monomial(n, arg)), w1(c, n, P), 'the weights are those of the derivative of this order on these points, whatever was asked before')
    prove(t, 'discretize_1d_monomial', [DM + 'utils.discretize_1d_monomial', DM + 'utils.fd_weights'], d1, replay)

    def d2(c):
        with denv(c) as u:
            for (ka, da), (kb, db) in itertools.product(((3, 1), (2, 1), (3, 2), (4, 1)), repeat=2):
                A, B = grid(ka, da), grid(kb, db)
                for nx, ny in itertools.product(range(min(ka, 3)), range(min(kb, 3))):
                    R = u.discretize_2d_monomial(nx, ny, (A, B))
                    W = np.empty((ka, kb), object)
                    for i, j in np.ndindex(ka, kb): W[i, j] = w1(c, nx, A)[i] * w1(c, ny, B)[j]
                    c.eq(R, W, 'the stencil of a monomial is the outer product of the one-dimensional ones')
    prove(t, 'discretize_2d_monomial', [DM + 'utils.discretize_2d_monomial'], d2, replay)
    for hist in ([(3, 1, 2)], [(3, 1, 1), (3, 2, 1)], [(4, 1, 3)], [(2, 1, 1), (4, 1, 1)], [(1, 1, 0), (5, 1, 0), (2, 1, 0)], [(3, 1, 1), (3, 1, 2)]):
        def dh(c):
            from e2cnn.nn.modules.r2_conv.r2diffop import get_grid_coords
            with denv(c) as u:
                for again in range(2):
                    for h, (k, d, n) in enumerate(hist):
                        P = get_grid_coords(k, d)
                        C = vec(c, 'c%d_' % h, n + 1)
                        C0, P0 = C.copy(), P.copy()
                        R = u.discretize_homogeneous_polynomial(P, C, None)
                        X = grid(k, d)
                        W = np.empty((k, k), object)
                        for i, j in np.ndindex(k, k):
                            W[i, j] = lift(0)
                            for q in range(n + 1): W[i, j] = W[i, j] + C[q] * w1(c, n - q, X)[i] * w1(c, q, X)[j]
                        # a zero coefficient may be left out: then it is known to be zero on this path
                        R = np.asarray(R, object)
                        c.holds(R.shape == (k * k,), 'one value per point')
                        for i in range(k * k): c.eq(c_sub(c, R[i]), c_sub(c, W.reshape(-1)[i]), 'the stencil is the combination of the stencils of the monomials, for all coefficients')
                        c.eq(C, C0, 'the coefficients are not modified'); c.holds(bool(np.array_equal(P, P0)), 'the points are not modified')
        prove(t, 'discretize_homogeneous_polynomial %s' % (hist,), [DM + 'utils.discretize_homogeneous_polynomial'], dh, replay)
    for ang_, msk in itertools.product((None, 'angle', 0.), (None, (1, 1), (0, 1), (1, 0))):
        def sm(c):
            from e2cnn.diffops.basis import DiffopBasis, DiscretizationArgs
            import e2cnn.diffops.basis as db
            off = c.pi * c.real('off') if ang_ == 'angle' else ang_
            pts = np.arange(6.).reshape(2, 3)
            P = np.empty((2, 3), object)
            for i in np.ndindex(2, 3): P[i] = c.real('v%d%d' % i)
            def disc(points, coefficients, smoothing=None, phi='ga', method='fd'):
                c.holds(points is pts or bool(np.array_equal(points, pts)), 'the points are passed on')
                c.holds((smoothing, phi, method) == ('s', 'p', 'm'), 'the discretisation parameters are passed on')
                out = np.empty(3, object)
                for q in range(3): out[q] = pval(c, coefficients, P[0, q], P[1, q])
                return out
            with dg.env(), shims(mods(), np=NpPoly(), SO2=dg.standin('SO2', dg.so2), discretize_homogeneous_polynomial=disc):
                cs = []
                for b in range(2):
                    A = np.empty((2, 1, b + 2), object)
                    for i in np.ndindex(*A.shape): A[i] = c.real('p%d%d%d%d' % ((b,) + i))
                    cs.append(A)
                B = type('B', (DiffopBasis,), dict(__getitem__=lambda s, i: None, __eq__=lambda s, o: s is o, __hash__=lambda s: 1))(cs, DiscretizationArgs('m', 's', off, 'p'))
                R = B.sample_masked(pts, None if msk is None else np.array(msk, bool)) if msk is not None else B.sample(pts)
                sel = [b for b in range(2) if msk is None or msk[b]]
                c.holds(np.shape(R) == (2, 1, len(sel), 3), 'shape of the sampled operators')
                o = lift(0 if off is None else off)
                for n, b in enumerate(sel):
                    for i, q in itertools.product(range(2), range(3)):
                        x, y = P[0, q] * o.cos() + P[1, q] * o.sin(), P[1, q] * o.cos() - P[0, q] * o.sin()
                        c.eq(R[i, 0, n, q], pval(c, cs[b][i, 0], x, y), 'sampling discretises the selected operators, turned by the angle offset')
        prove(t, 'DiffopBasis.sample_masked offset %s mask %s' % (ang_, msk), [DM + 'basis.DiffopBasis.sample_masked'], sm, replay)


def c_sub(c, e):
    """under the equalities of the path: coefficients found to be zero"""
    e = lift(e)
    zero = {n: lift(0) for n in e.symbols() if n.startswith('c') and c.run.entails(c.run.syms[n].z == 0)}
    return e.sub(zero) if zero else e


def accuracy(t):
    from checks import c10
    def replay(m):
        from e2cnn.diffops import utils as u
        n, a, k = (int(m.get(q, 0)) for q in 'nak')
        g = lambda k, n: k - n + (k - n) % 2
        if a >= 1 and n >= 0:
            r = u.required_points(n, a)
            t.check(g(r, n) >= a and g(r - 1, n) < a, 'required_points is not the least number of points reaching the accuracy', order=n, accuracy=a, got=r)
        if k >= a >= 1:
            o = u.largest_possible_order(k, a)
            t.check(g(k, o) >= a and g(k, o + 1) < a, 'largest_possible_order is not the largest order with the accuracy', points=k, accuracy=a, got=o)
        if k >= n >= 0: t.check(u.guaranteed_accuracy(k, n) == g(k, n), 'guaranteed_accuracy', points=k, order=n)
    par = lambda x: x % 2

    def req(c):
        n, a = c.int('n', 0), c.int('a', 1)
        g = lambda k: k - n + (k - n) % 2
        with uenv() as u: r = u.required_points(n, a)
        c.ge(g(r), a, 'required_points reaches the accuracy'); c.gt(a, g(r - 1), 'one point less does not')
    prove(t, 'required_points', [DM + 'utils.required_points'], req, replay)

    def lar(c):
        k, a = c.int('k', 1), c.int('a', 1)
        c.assume(k - a)
        with uenv() as u: o = u.largest_possible_order(k, a)
        g = lambda n: k - n + (k - n) % 2
        c.ge(o, 0, 'order'); c.ge(g(o), a, 'largest_possible_order keeps the accuracy'); c.gt(a, g(o + 1), 'one order more does not')
    prove(t, 'largest_possible_order', [DM + 'utils.largest_possible_order'], lar, replay)

    def gua(c):
        k, n = c.int('k', 1), c.int('n', 0)
        c.assume(k - n)
        with uenv() as u: v = u.guaranteed_accuracy(k, n)
        c.eq(v, k - n + (k - n) % 2, 'the accuracy of a symmetric stencil is the number of points beyond the order, rounded up to even')
    prove(t, 'guaranteed_accuracy', [DM + 'utils.guaranteed_accuracy'], gua, replay)
    for n in range(1, 9):
        def sp(c):
            d = c.real('d')
            with uenv() as u: p = u.symmetric_points(n, d)
            c.eq(list(p), [d * Fr(2 * q - n + 1, 2) for q in range(n)], 'symmetric points, for all dilations')
        prove(t, 'symmetric_points %d' % n, [DM + 'utils.symmetric_points'], sp, lambda m: c10.stencils(t, n))

    def par(c):
        import e2cnn.nn.modules.r2_conv.r2diffop as r
        o, p = c.int('order', 0), c.int('power', 0)
        with shims([r], min=lambda a, b: a if a <= b else b):
            for mp in (p, None):
                for cf in (None, lambda d: d['x']):
                    g, f, P = r.compute_basis_params(3, 2, cf, o, mp, False, 'ga', None, .25)
                    c.holds(bool(np.array_equal(g, r.get_grid_coords(3, 2))), 'grid of the kernel')
                    h = lift(o) // 2
                    c.eq(P['max_power'], h if mp is None or bool(h <= mp) else mp, 'power of the Laplacian within the order')
                    c.eq(P['maximum_frequency'], o, 'frequency up to the order')
                    D = P['discretization']
                    c.holds((D.method, D.smoothing, D.angle_offset, D.phi) == ('fd', None, .25, 'ga'), 'discretisation parameters')
                    q = c.int('q', 0)
                    for x in (True, False): c.holds(bool(f(dict(order=q, x=x))) == (bool(q <= o) and (x or cf is None)), 'exactly the operators up to the order that the filter accepts are kept')
    def rpar(m):
        import e2cnn.nn.modules.r2_conv.r2diffop as r
        o, p, q = (int(m.get(x, 0)) for x in ('order', 'power', 'q'))
        for mp in (p, None):
            for cf in (None, lambda d: d['x']):
                g, f, P = r.compute_basis_params(3, 2, cf, o, mp, False, 'ga', None, .25)
                D = P['discretization']
                t.check(P['max_power'] == min(o // 2, o if mp is None else mp) and P['maximum_frequency'] == o and (D.method, D.smoothing, D.angle_offset, D.phi) == ('fd', None, .25, 'ga'), 'parameters of the basis', order=o, power=mp, got=P)
                for x in (True, False): t.check(bool(f(dict(order=q, x=x))) == (q <= o and (x or cf is None)), 'operators kept', order=o, q=q, x=x)
    prove(t, 'compute_basis_params', ['e2cnn.nn.modules.r2_conv.r2diffop.compute_basis_params'], par, rpar)


# ---------------------------------------------------------------- the layer
def layer_tasks(ctx):
    from e2cnn import nn
    from .ded_torch import irr
    ft = zoo.fieldtype
    fn = [dl.RC + 'r2diffop.R2Diffop.forward', dl.RC + 'r2diffop.R2Diffop.expand_parameters']
    C2, C4, D2 = zoo.Space('R', 2), zoo.Space('R', 4), zoo.Space('FR', 2)
    T = lambda s: s.G.trivial_representation
    P = []
    lay = [('C2', C2, [T(C2), irr(C2, 1)[0]], [irr(C2, 1)[0], T(C2)]), ('C4', C4, irr(C4, 1), irr(C4, 0, 2)), ('D2', D2, [D2.G.quotient_representation((None, 2))], [D2.G.irrep(1, 1), T(D2)])]
    for q, (key, sp, i, o) in enumerate(lay):
        for md, pd, st, dl_, g in itertools.product(('zeros', 'reflect', 'replicate', 'circular'), (0, 1, (1, 2), (2, 0)), (1, 2, 3), (1, 2), (1, 2)):
            if q and (g == 2 or st == 3 or dl_ == 2): continue
            if md != 'zeros' and pd == 0: continue
            if g == 2 and (st == 3 or dl_ == 2): continue
            fi, fo = ft(sp, i * g), ft(sp, o * g)
            kw = dict(kernel_size=3, stride=st, padding=pd, dilation=dl_, padding_mode=md, groups=g, bias=not (st == 2 and pd == 0), maximum_order=2)
            P.append(('R2Diffop[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2Diffop(fi, fo, **kw), fi, (5, 6) if dl_ == 2 else (3, 4), lambda k, x, F, b, kw=kw: dl.spec_conv(k, x, F, b, kw['stride'], kw['padding'], kw['dilation'], kw['groups'], kw['padding_mode'])))
    for c in range(0, len(P), 20):
        @ctx.task('contract.plain convolution[%d]' % (c // 20), kind='deductive')
        def _(t, part=P[c:c + 20]):
            for nm, make, fi, size, spec in part: dl.prove(t, nm + '.forward', fn, dl.plain_contract(make, fi, size, spec))
    Sp = zoo.spaces(2)
    rots = lambda sp: [e for e in sp.grid_elements() if np.linalg.det(sp.M(e)) > 0]
    OPT = [dict(kernel_size=3, maximum_order=2), dict(kernel_size=3), dict(maximum_order=2), dict(maximum_order=3, accuracy=2), dict(kernel_size=5, maximum_order=3), dict(kernel_size=3, maximum_order=1), dict(kernel_size=5, maximum_order=4, maximum_power=1), dict(kernel_size=3, maximum_order=2, maximum_offset=1),
           dict(kernel_size=4, maximum_order=2), dict(kernel_size=3, maximum_order=2, bias=False), dict(kernel_size=3, maximum_order=2, angle_offset=math.pi / 2), dict(kernel_size=3, maximum_order=2, basis_filter=lambda d: d['frequency'] != 1), dict(kernel_size=2, maximum_order=1), dict(kernel_size=3, maximum_order=2, recompute=True)]
    for i, sp in enumerate(Sp):
        @ctx.task('contract.stencil %d:%s' % (i, sp.key), kind='deductive')
        def _(t, i=i):
            sp = zoo.spaces(2)[i]
            rs = zoo.reps(sp.G, sp.spec, np.random.RandomState(17 + i), 1, 8, orthogonal=False)
            ch = dl.chunks(rs, 9); q = i
            for a, b in itertools.product(ch, ch):
                q += 1
                if q % 2: continue
                kw = dict(OPT[(q // 2) % len(OPT)])
                g = 2 if q % 10 == 0 and sum(r.size for r in a) < 6 else 1
                kw['groups'] = g
                if q % 6 == 0: kw['dilation'] = 2
                cond = max([np.linalg.cond(np.asarray(r.change_of_basis)) for r in a + b] + [1.])
                fi, fo = ft(sp, a * g), ft(sp, b * g)
                try: m = nn.R2Diffop(fi, fo, **kw)
                except ValueError as e:
                    if 'empty' in str(e): continue
                    raise
                dl.prove(t, 'R2Diffop[%s: %s -> %s, %s].expand_parameters' % (sp.key, [r.name for r in a], [r.name for r in b], dl.layers.describe(kw)), fn[1:],
                         dl.filter_contract(lambda: nn.R2Diffop(fi, fo, **kw), sp, a * g, b * g, m.kernel_size, False, g, 2e-5 * cond ** 2, elements=rots(sp)))
    S1, S2, D4 = zoo.Space('R', -1, maxf=2), zoo.Space('FR', -1, maxf=2), zoo.Space('FR', 4)
    L = []
    for key, sp, a, b in [('C4', C4, irr(C4, 1), irr(C4, 0, 1)), ('C4:reg', C4, [T(C4)], [C4.G.regular_representation]), ('D4', D4, [T(D4)], [D4.G.irrep(1, 1), T(D4)]), ('SO2', S1, irr(S1, 1), irr(S1, 0, 2)), ('O2', S2, irr(S2, (1, 1)), irr(S2, (1, 0), (1, 2)))]:
        fi, fo = ft(sp, a), ft(sp, b)
        for kw in [dict(padding=1), dict(padding=2, padding_mode='circular'), dict(padding=1, padding_mode='reflect'), dict(padding=1, stride=2), dict(dilation=2, padding=2), dict(padding=1, padding_mode='circular')]:
            kw = dict(kw, kernel_size=3, maximum_order=2)
            L.append(('R2Diffop[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2Diffop(fi, fo, **kw), sp, a, b, fi, kw == dict(padding=1, padding_mode='circular', kernel_size=3, maximum_order=2)))
    for c in range(0, len(L), 6):
        @ctx.task('contract.equivariance[%d]' % (c // 6), kind='deductive')
        def _(t, part=L[c:c + 6]):
            for nm, make, sp, a, b, fi, circ in part:
                try: make()
                except ValueError as e:
                    if 'empty' in str(e): continue
                    raise
                dl.prove(t, nm, fn, dl.equi_contract(make, sp, a, b, 3, fi, elements=rots(sp), circular=circ))

    @ctx.task('contract.sampling points', kind='deductive')
    def _(t):
        from e2cnn.nn.modules.r2_conv import r2diffop
        dl.prove(t, 'get_grid_coords', [dl.RC + 'r2diffop.get_grid_coords'], dl.grid_contract(r2diffop.get_grid_coords, range(1, 10)))


def build_c10(ctx):
    for kind in CLS:
        for ci, co in dk.pairs(kind):
            ctx.task('contract steerability[%s %s %s]' % (kind, ci, co), 'proof')(lambda t, kind=kind, ci=ci, co=co: run_steer(t, kind, ci, co))
            ctx.task('contract complete[%s %s %s]' % (kind, ci, co), 'proof')(lambda t, kind=kind, ci=ci, co=co: dk.run_c07(t, kind, ci, co, DIFF))
    ctx.task('contract polynomials', 'proof')(polynomials)
    ctx.task('contract composition', 'proof')(composed)
    ctx.task('contract stencils', 'proof')(stencils)
    ctx.task('contract accuracy', 'proof')(accuracy)
    layer_tasks(ctx)


class DIFF:
    """driver of the completeness contract for the operators"""
    env = staticmethod(lambda offsets, axis: env(offsets, [('axis', axis)]))
    solution, sample, origin, label = staticmethod(solution), staticmethod(sample), False, 'operators '

    @staticmethod
    def replay(t, kind, ci, co, m, mu0):
        sp, a, b, B = rebuild(t, kind, m, ci, co, max(3, min(mu0, 12)))
        counts(t, sp, a, b, B, 12)
