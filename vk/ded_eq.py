"""Contracts on equality and on the caches (C12).

Equality: two objects are built by the real constructors from symbolic arguments and compared by the real __eq__ on every feasible path; on the paths on which they are equal, what they do (samples at a
symbolic point, coefficients, matrices) is proved equal, and on the paths on which they are not, their arguments are proved different.  Numbers that occur in names are split into "the same symbol" and
"different" beforehand, because names are compared as strings.
Caches: a cached function is called for one symbolic request and then for another; the second result is proved to be what the request itself determines.  What the cache stores is the result of the
function behind it, which is replaced by its contract (a record of the arguments it was given).  A dictionary is replaced by an association list compared by ==: the contract of dict for keys whose hashes
agree when the keys are equal (the bounded tasks compare the hashes)."""
import contextlib, itertools, math, os
import numpy as np
from . import sym, ded_groups as dg, ded_kernels as dk, ded_diffops as dd, ded_reps as dr, ded_spaces as ds
from .core import Fail, Undecided
from .sym import S, prove, shims, lift, NP
from .ded_kernels import FAM, CLS, setup, halved


class Table:
    """dict by equality of the keys"""
    def __init__(self, factory=None): self.d, self.factory = [], factory

    def find(self, k):
        for i, (q, v) in enumerate(self.d):
            if bool(q == k): return i

    def __contains__(self, k): return self.find(k) is not None

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            if self.factory is None: raise KeyError(k)
            self.d.append((k, self.factory())); i = len(self.d) - 1
        return self.d[i][1]

    def __setitem__(self, k, v):
        i = self.find(k)
        if i is None: self.d.append((k, v))
        else: self.d[i] = (self.d[i][0], v)

    def get(self, k, default=None):
        i = self.find(k)
        return default if i is None else self.d[i][1]

    def setdefault(self, k, v):
        if k not in self: self[k] = v
        return self[k]

    def pop(self, k, *a):
        i = self.find(k)
        if i is None:
            if a: return a[0]
            raise KeyError(k)
        return self.d.pop(i)[1]

    def __delitem__(self, k): self.pop(k)
    def __len__(self): return len(self.d)
    def __iter__(self): return iter([k for k, _ in self.d])
    def keys(self): return [k for k, _ in self.d]
    def values(self): return [v for _, v in self.d]
    def items(self): return list(self.d)
    def clear(self): self.d = []
    def update(self, o):
        for k, v in o.items(): self[k] = v


def tables(module):
    """module-level dictionaries of the module, replaced by empty association lists"""
    import collections
    out = {}
    for k, v in vars(module).items():
        if k.startswith('__') or k in ('INTERP',): continue
        if type(v) is dict: out[k] = Table()
        elif isinstance(v, collections.defaultdict): out[k] = Table(Table if v.default_factory is dict or v.default_factory is not None and isinstance(v.default_factory(), dict) else v.default_factory)
    return out


def retable(o):
    """the dictionaries held by an object, replaced by association lists"""
    import collections
    for k, v in list(vars(o).items()):
        if isinstance(v, collections.defaultdict): setattr(o, k, Table(Table if isinstance(v.default_factory(), dict) else v.default_factory))
    return o


class Bytes:
    """bytes of an array of symbols"""
    def __init__(self, a): self.a = a
    def __eq__(self, o): return isinstance(o, Bytes) and self.a.shape == o.a.shape and all(bool(lift(x) == lift(y)) for x, y in zip(self.a.flat, o.a.flat))
    def __hash__(self): return 11


class SA(np.ndarray):
    """array of symbols whose bytes are compared symbol by symbol"""
    def tobytes(self, *a): return Bytes(np.asarray(self))
    tostring = tobytes


def sarr(x): return np.asarray(x, object).view(SA)


# ---------------------------------------------------------------- irrep solutions
def eq_solutions(t, kind, which):
    """bounded: the real classes for small groups, nearby arguments, pairwise"""
    import importlib
    from e2cnn.kernels import EmptyBasisException
    import e2cnn.group as G
    ib = importlib.import_module('e2cnn.%s.irreps_basis' % which)
    K = getattr(ib, CLS[kind])
    rng = t.rng()
    ang = np.concatenate([rng.uniform(0, 6.28, (1, 7)), [[np.nan]]], axis=1)
    for N in ((2,) if kind == 'F' else (1, 2, 4, 5) if kind == 'C' else (2, 3, 4) if kind == 'D' else (3,)):
        g = {'C': G.cyclic_group, 'F': G.cyclic_group, 'D': G.dihedral_group, 'SO2': G.so2_group, 'O2': G.o2_group}[kind](N)
        irr = [v for k, v in sorted(g.irreps.items())][:5]
        L = []
        for a, b in itertools.product(irr, irr):
            for ax in ((0., .4, math.pi / 2) if kind in ('D', 'O2', 'F') else (None,)):
                for kw in ((dict(max_frequency=2), dict(max_frequency=3), dict(max_offset=1), dict(max_frequency=0)) if kind in 'CDF' else ({},)):
                    k2 = dict(kw)
                    if ax is not None: k2['axis'] = ax
                    try: x, y = K(g, a, b, **k2), K(g, a, b, **k2)
                    except EmptyBasisException: continue
                    t.at(kind=kind, N=N, inp=a.name, out=b.name, args=k2)
                    t.check(bool(x == y) and not (x != y) and x == x, 'two solutions built from the same arguments are not equal')
                    t.check(hash(x) == hash(y), 'equal solutions have different hashes')
                    if which == 'kernels': f = x.sample(ang)
                    else: f = [np.asarray(q) for q in x.coefficients]
                    L.append((x, f, (a.name, b.name, k2)))
        for (x, f, p), (y, h, q) in itertools.combinations(L, 2):
            t.at(kind=kind, N=N, a=p, b=q)
            e = bool(x == y)
            t.check(e == bool(y == x) == (not (x != y)), 'equality is not symmetric')
            if not e: continue
            same = len(f) == len(h) and all(np.shape(u) == np.shape(v) and np.allclose(np.nan_to_num(u), np.nan_to_num(v), atol=1e-6) for u, v in zip(f, h))
            t.check(same, 'solutions that compare equal have different values', a=p, b=q)
            t.check(hash(x) == hash(y), 'equal solutions have different hashes')


def plans(kind, ci, co):
    """(offsets per loop, the loop that yields them or None for all) for the first and for the second object"""
    if kind in ('SO2', 'O2'): return [((1, None), (1, None))]
    loops = 4 if (kind, ci, co) == ('C', '2', '2') else 2 if kind in 'CD' and '2' in (ci, co) else 1
    out = [((1, i), (1, j)) for i in range(loops) for j in range(loops)] + [((2, 0), (2, 0)), ((1, 0), (2, 0))]
    if loops == 2 and kind == 'C': out += [((1, None), (1, None))]
    return out


def run_solutions(t, kind, which, pairs):
    mod = dk if which == 'kernels' else dd

    def replay(m): eq_solutions(t, kind, which)

    def stub(c, plan, tag, F):
        """offset_iterator by its contract: n arbitrary offsets in the loops of the plan"""
        cnt, calls = [0], [0]
        n, loop = plan

        def offsets(base_frequency, N, maximum_offset=None, maximum_frequency=None, non_negative=False):
            calls[0] += 1
            if loop is not None and calls[0] - 1 != loop: return
            for _ in range(n):
                cnt[0] += 1
                j = c.int('%s%d' % (tag, cnt[0]))
                mu = lift(base_frequency) + j * N
                c.assume(F - mu); c.assume(F + mu)
                if non_negative: c.assume(mu)
                yield j
        return offsets
    for ci, co in pairs:
        for n1, n2 in plans(kind, ci, co):
            def eq(c):
                F = c.int('F', 0)
                a1, a2 = c.pi * c.real('a1'), c.pi * c.real('a2')
                known = [('a1', a1), ('a2', a2)]
                def make(n, tag, ax):
                    kk = dict(offsets=stub(c, n, tag, F))
                    with (mod.env(kk['offsets']) if which == 'kernels' else mod.env(kk['offsets'], known)):
                        return mod.solution(kind, g, ri, ro, ax, **({} if kind in ('SO2', 'O2') else dict(max_frequency=F)))
                with dg.env(): N, g, ri, ro = setup(c, kind, ci, co)
                try: x = make(n1, 't', a1); y = make(n2, 's', a2); x2 = make(n1, 't', a1)
                except dk.empty():
                    c.holds(True, 'empty basis'); return
                with (mod.env() if which == 'kernels' else mod.env(None, known)):
                    c.holds(bool(x == x) and bool(x == x2) and not (x != x2), 'solutions built from the same arguments are equal')
                    c.holds(not (x == None) and not (x == 0), 'not equal to something else')
                    if not bool(x == y):
                        c.holds(bool(x != y), '!= is the negation of =='); return
                    c.holds(not (x != y), '!= is the negation of ==')
                    c.holds(x.dim == y.dim and tuple(x.shape) == tuple(y.shape), 'equal solutions have the same size')
                    A = np.empty((1, 2), object); A[0, 0] = c.pi * c.real('phi'); A[0, 1] = float('nan')
                    if which == 'kernels': u, v = x.sample(A), y.sample(A)
                    else: u, v = dd.sample(x, A[:, :1]), dd.sample(y, A[:, :1])
                    c.eq(u, v, 'equal solutions have equal values')
                    for i in range(x.dim):
                        p, q = x[i], y[i]
                        c.holds(set(p) == set(q), 'descriptions have the same entries')
                        c.eq(p['frequency'], q['frequency'], 'equal solutions describe the same frequencies')
            prove(t, '%s.%s in %s out %s, offsets %s and %s' % (which, CLS[kind], ci, co, n1, n2), [], eq, replay, maxpaths=1500)


# ---------------------------------------------------------------- profiles and combined bases
def run_profiles(t):
    from checks import c12
    def replay(m): radial(t, m); c12.equality(t, 'kernelbases', 1)

    def radial(t, m):
        from e2cnn.kernels import GaussianRadialProfile as P
        vals = [([1.], [.5]), ([1.], [.6]), ([1.2], [.5]), ([1., 2.], [.5, .6]), ([2., 1.], [.6, .5]), ([1., 2.], [.6, .5]), ([1., 1.], [.5, .5])]
        r = np.array([[0., .7, 1., 2.5]])
        for a, b in itertools.product(vals, vals):
            x, y = P(list(a[0]), list(a[1])), P(list(b[0]), list(b[1]))
            t.at(a=a, b=b)
            f, h = x.sample(r), y.sample(r)
            same = f.shape == h.shape and np.allclose(f, h)
            t.check(bool(x == y) == (a == b) and (not (x == y) or same), 'equality of radial profiles', a=a, b=b)
            if a == b: t.check(hash(x) == hash(y), 'equal profiles have different hashes')
    for n, m in ((1, 1), (2, 2), (1, 2), (3, 3)):
        def gauss(c):
            from e2cnn.kernels.basis import GaussianRadialProfile
            with dk.env():
                def mk(tag, n):
                    R, s = [c.real('%sr%d' % (tag, i), 0) for i in range(n)], [c.real('%ss%d' % (tag, i)) for i in range(n)]
                    for v in s: c.assume(v, '>')
                    return GaussianRadialProfile(R, s), R, s
                (x, Rx, sx), (y, Ry, sy), (z, _, _) = mk('x', n), mk('y', m), mk('x', n)
                c.holds(bool(x == z), 'profiles built from the same arguments are equal')
                A = np.empty((1, 1), object); A[0, 0] = c.real('r', 0)
                if bool(x == y):
                    c.holds(x.dim == y.dim, 'equal profiles have the same size')
                    c.eq(Rx, Ry, 'equal profiles have the same radii'); c.eq(sx, sy, 'equal profiles have the same widths')
                    c.eq(x.sample(A), y.sample(A), 'equal profiles have equal values')
                elif n == m: c.holds(not all(bool(a == b) for a, b in zip(Rx + sx, Ry + sy)), 'profiles with the same arguments are equal')
        prove(t, 'GaussianRadialProfile %d and %d rings' % (n, m), [], gauss, replay)


class Rep:
    """a representation as the bases see it; equality by its contract: the same list of irreps and the same change of basis"""
    def __init__(self, c, g, irreps, tag, cob):
        self.group, self.irreps, self.name = g, list(irreps), 'r'
        self.size = n = sum(g.irreps[x].size for x in irreps)
        self.change_of_basis, self.change_of_basis_inv = NP.eye(n), NP.eye(n)
        if cob:
            for i in np.ndindex(n, n): self.change_of_basis[i] = c.real('P%s%d%d' % (tag, *i))
            # the inverse is a function of the matrix
            for i in np.ndindex(n, n): self.change_of_basis_inv[i] = None
        self.cob = cob
        self.c = c

    def inverse(self):
        n = self.size
        if self.cob:
            for i in np.ndindex(n, n): self.change_of_basis_inv[i] = sym.fn('inverse%d%d' % i, *[self.change_of_basis[q] for q in np.ndindex(n, n)])
        return self

    def __eq__(self, o): return isinstance(o, Rep) and self.irreps == o.irreps and self.cob == o.cob and all(bool(lift(a) == lift(b)) for a, b in zip(self.change_of_basis.flat, o.change_of_basis.flat))
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return 3


def parts(c, KernelBasis):
    class Part(KernelBasis):
        """a basis known by one symbol; equal symbols mean the same basis"""
        def __init__(self, group, in_irrep=None, out_irrep=None, dim=None, tag=None, **kw):
            self.i, self.o = getattr(in_irrep, 'name', in_irrep), getattr(out_irrep, 'name', out_irrep)
            self.id = tag
            if in_irrep is None: super().__init__(dim, (1, 1))
            else: super().__init__(dk.DIMS.get((self.i, self.o), 0), (dk.SIZES[self.o], dk.SIZES[self.i]))

        def sample(self, pts, out=None):
            sh = self.shape + (self.dim, pts.shape[1])
            if out is None: out = np.empty(sh, object)
            for x in np.ndindex(*sh): out[x] = sym.fn('K_%s_%s_%d_%d_%d_%d' % (self.i, self.o, *x), self.id)
            return out

        def __getitem__(self, b): return dict(idx=b, frequency=b, radius=1.)
        def __eq__(self, o): return isinstance(o, Part) and (self.i, self.o, self.dim) == (o.i, o.o, o.dim) and bool(lift(self.id) == lift(o.id))
        def __ne__(self, o): return not (self == o)
        def __hash__(self): return 5
    return Part


def run_combined(t):
    from checks import c12
    def replay(m): c12.equality(t, 'kernelbases', 1)

    def polar(c):
        from e2cnn.kernels.basis import PolarBasis, KernelBasis
        Part = parts(c, KernelBasis)
        with dk.env():
            r1, r2, a1, a2 = [Part(None, dim=d, tag=c.real(n)) for n, d in (('r1', 2), ('r2', 2), ('a1', 3), ('a2', 3))]
            x, y, z = PolarBasis(r1, a1), PolarBasis(r2, a2), PolarBasis(r1, a1)
            c.holds(bool(x == z) and not (x != z), 'bases built from the same parts are equal')
            if bool(x == y):
                P = np.empty((2, 1), object); P[0, 0] = c.real('p', 1); P[1, 0] = lift(0)
                c.eq(x.sample(P), y.sample(P), 'equal bases have equal values')
            else: c.holds(not (bool(r1 == r2) and bool(a1 == a2)), 'bases with equal parts are equal')
    prove(t, 'PolarBasis', [], polar, replay, strict=False)
    pairs = [((('u', 'v'), ('v',)), (('u', 'v'), ('v',))), ((('u', 'v'), ('v',)), (('v', 'u'), ('v',))), ((('v',), ('u',)), (('v',), ('u',))), ((('u',), ('v', 'u')), (('u',), ('u', 'v'))), ((('u', 'w'), ('v',)), (('u', 'u'), ('v',))), ((('u',), ('v', 'v')), (('u',), ('v',)))]
    for (l1, l2), cob in itertools.product(pairs, ((0, 0), (1, 0), (0, 1))):
        if sum(cob) and (max(len(q) for q in l1 + l2) > 2 or sum(dk.SIZES[q] for q in (l1[0] if cob[0] else l1[1])) > 2): continue
        def steer(c):
            from e2cnn.kernels.steerable_basis import SteerableKernelBasis
            from e2cnn.kernels.basis import KernelBasis
            Part = parts(c, KernelBasis)
            with dk.env():
                g = dk.FakeGroup(dk.SIZES)
                mk = lambda l, tag: (Rep(c, g, l[0], tag + 'i', cob[0]), Rep(c, g, l[1], tag + 'o', cob[1]))
                (i1, o1), (i2, o2) = mk(l1, '1'), mk(l2, '2')
                eqs = bool(i1 == i2), bool(o1 == o2)         # decided before the inverses are named
                for r in (i1, o1, i2, o2): r.inverse()
                t1, t2 = c.real('t1'), c.real('t2')
                try: x, y, z = SteerableKernelBasis(Part, i1, o1, tag=t1), SteerableKernelBasis(Part, i2, o2, tag=t2), SteerableKernelBasis(Part, i1, o1, tag=t1)
                except dk.empty():
                    c.holds(True, 'empty'); return
                c.holds(bool(x == z) and not (x != z), 'bases built from the same arguments are equal')
                if bool(x == y):
                    c.holds(x.dim == y.dim and tuple(x.shape) == tuple(y.shape), 'equal bases have the same size')
                    A = np.empty((1, 1), object); A[0, 0] = c.real('phi')
                    c.eq(x.sample(A), y.sample(A), 'equal bases have equal values')
                    L1, L2 = list(x), list(y)
                    for p, q in zip(L1, L2): c.holds(all(p[k] == q[k] for k in ('in_irrep', 'out_irrep', 'in_irrep_idx', 'out_irrep_idx', 'inner_idx')), 'equal bases have the same descriptions')
                else: c.holds(not (all(eqs) and bool(t1 == t2)), 'bases with equal arguments are equal')
        prove(t, 'SteerableKernelBasis %s and %s%s' % (l1, l2, cob), [], steer, replay, strict=False)


def run_diff(t):
    from checks import c12
    def replay(m): c12.equality(t, 'diffopbases', 1)

    def parts_(c):
        from e2cnn.diffops.basis import DiffopBasis, DiscretizationArgs
        class Part(DiffopBasis):
            def __init__(self, group, in_irrep, out_irrep, discretization=DiscretizationArgs(), tag=None, **kw):
                self.i, self.o, self.id = getattr(in_irrep, 'name', in_irrep), getattr(out_irrep, 'name', out_irrep), tag
                cs = []
                for b in range(dk.DIMS.get((self.i, self.o), 0)):
                    P = np.empty((dk.SIZES[self.o], dk.SIZES[self.i], 2), object)
                    for x in np.ndindex(*P.shape): P[x] = sym.fn('K_%s%s_%d_%d%d%d' % (self.i, self.o, b, *x), tag)
                    cs.append(P)
                super().__init__(cs, discretization)
            def __getitem__(self, b): return dict(frequency=b, order=1, idx=b)
            def __eq__(self, o): return isinstance(o, Part) and (self.i, self.o) == (o.i, o.o) and bool(lift(self.id) == lift(o.id))
            def __ne__(self, o): return not (self == o)
            def __hash__(self): return 5
        return Part

    def fields(c, d1, d2):
        c.holds(d1.method == d2.method and d1.phi == d2.phi, 'equal bases are discretised by the same method')
        for q in ('smoothing', 'angle_offset'):
            a, b = getattr(d1, q), getattr(d2, q)
            c.holds((a is None) == (b is None), 'equal bases are discretised with the same settings')
            if a is not None: c.eq(a, b, 'equal bases are discretised with the same settings')
    from e2cnn.diffops.basis import DiscretizationArgs as DA
    discs = [(lambda c, q: DA(), lambda c, q: DA(angle_offset=c.real('o2'))), (lambda c, q: DA(angle_offset=c.real('o1')), lambda c, q: DA(angle_offset=c.real('o2'))),
             (lambda c, q: DA(smoothing=c.real('s1'), method='gauss'), lambda c, q: DA(smoothing=c.real('s2'), method='gauss')), (lambda c, q: DA(method='gauss'), lambda c, q: DA()), (lambda c, q: DA(phi='ga', method='rbffd'), lambda c, q: DA(phi='phs3', method='rbffd'))]
    for k, (f1, f2) in enumerate(discs):
        for p1, p2 in ((0, 0), (1, 1), (0, 1), (2, 1)):
            def lap(c):
                from e2cnn.diffops.basis import LaplaceProfile
                with dg.env(), shims(dd.mods(), np=dd.NpPoly()):
                    d1, d2 = f1(c, 0), f2(c, 1)
                    x, y, z = LaplaceProfile(p1, d1), LaplaceProfile(p2, d2), LaplaceProfile(p1, f1(c, 0))
                    c.holds(bool(x == z) and not (x != z), 'profiles built from the same arguments are equal')
                    if bool(x == y):
                        c.holds(p1 == p2 and x.dim == y.dim, 'equal profiles have the same powers')
                        fields(c, x.disc, y.disc)
                    else: c.holds(p1 != p2 or not bool(d1 == d2), 'profiles with equal arguments are equal')
            prove(t, 'LaplaceProfile %d %d discretisation %d' % (p1, p2, k), [], lap, replay, strict=False)
        for l1, l2, whole in itertools.product([(('u',), ('v',)), (('v', 'u'), ('u',))], [(('u',), ('v',)), (('u', 'v'), ('u',))], (0, 1)):
            def ten(c):
                from e2cnn.diffops.basis import TensorBasis
                from e2cnn.diffops.steerable_basis import SteerableDiffopBasis
                Part = parts_(c)
                with dg.env(), shims(dd.mods(), np=dd.NpPoly()):
                    g = dk.FakeGroup(dk.SIZES)
                    cob = l1 == l2 == (('u',), ('v',)) and k < 2
                    mk = lambda l, tag: (Rep(c, g, l[0], tag + 'i', cob), Rep(c, g, l[1], tag + 'o', 0))
                    (i1, o1), (i2, o2) = mk(l1, '1'), mk(l2, '2')
                    eqs = bool(i1 == i2) and bool(o1 == o2)
                    for r in (i1, o1, i2, o2): r.inverse()
                    t1, t2 = c.real('t1'), c.real('t2')
                    bool(t1 == t2)                   # decided before the values are named
                    d1, d2 = f1(c, 0), f2(c, 1)
                    if whole: x, y, z = TensorBasis(Part, i1, o1, 1, d1, tag=t1), TensorBasis(Part, i2, o2, 1, d2, tag=t2), TensorBasis(Part, i1, o1, 1, d1, tag=t1)
                    else: x, y, z = SteerableDiffopBasis(Part, i1, o1, d1, tag=t1), SteerableDiffopBasis(Part, i2, o2, d2, tag=t2), SteerableDiffopBasis(Part, i1, o1, d1, tag=t1)
                    c.holds(bool(x == z) and not (x != z), 'bases built from the same arguments are equal')
                    if bool(x == y):
                        c.holds(x.dim == y.dim and tuple(x.shape) == tuple(y.shape), 'equal bases have the same size')
                        fields(c, x.disc, y.disc)
                        for p, q in zip(x.coefficients, y.coefficients): c.eq(p, q, 'equal bases consist of the same operators')
                    else: c.holds(not (eqs and bool(t1 == t2) and bool(d1 == d2)), 'bases with equal arguments are equal')
            prove(t, '%s %s and %s discretisation %d' % ('TensorBasis' if whole else 'SteerableDiffopBasis', l1, l2, k), [], ten, replay, strict=False)


# ---------------------------------------------------------------- groups, representations, field types
def run_groups(t):
    from checks import c12
    def replay(m): c12.equality(t, 'groups', 1)
    for k1, k2 in itertools.product(dg.KINDS, dg.KINDS):
        def eq(c):
            with dg.env():
                N1, N2 = c.int('N1', 1), c.int('N2', 1)
                bool(N1 == N2)
                x, y, z = dg.mk(k1, N1), dg.mk(k2, N2), dg.mk(k1, N1)
                c.holds(bool(x == z) and not (x != z), 'a group is equal to the group built again')
                e = bool(x == y)
                c.holds(e == bool(y == x), 'equality symmetric')
                if e:
                    c.holds(k1 == k2, 'equal groups are of the same kind')
                    if k1 in 'CD': c.eq(N1, N2, 'equal groups have the same order')
                elif k1 == k2: c.holds(not bool(N1 == N2), 'groups of the same order are equal')
        prove(t, 'equality of groups %s %s' % (k1, k2), [], eq, replay)
    # caches of the groups
    import e2cnn.group.groups.cyclicgroup as cm, e2cnn.group.groups.dihedralgroup as dm, e2cnn.group.groups.so2group as sm, e2cnn.group.groups.o2group as om

    def hist(m): real_groups(t); c12.history(t, 'groups', 0, 4, 1)
    for kind, mod, name in (('C', cm, 'CyclicGroup'), ('D', dm, 'DihedralGroup')):
        def gen(c):
            with dg.env(), shims([mod], **dict(tables(mod), **{name: dg.standin(name, {'C': dg.cyclic, 'D': dg.dihedral}[kind])})):
                Ns = [c.int('N%d' % i, 1) for i in range(3)]
                for a, b in itertools.combinations(Ns, 2): bool(a == b)
                f = getattr(dg.real(name), '_generator')
                got = [f(n) for n in Ns]
                for g, n in zip(got, Ns):
                    c.holds(isinstance(g, dg.real(name)), 'an instance of the group')
                    c.eq(g.order(), n if kind == 'C' else 2 * n, 'the order asked for')
                    c.holds(f(n) == g, 'asked for again, the group is equal')
        prove(t, '%s._generator' % name, [], gen, hist, strict=False)
    for kind, mod, name in (('SO2', sm, 'SO2'), ('O2', om, 'O2')):
        for start in (0, 1):
            def gen(c):
                K = dg.real(name)
                old = K.__dict__.get('_build_representations')

                def build(self): self.built = self._maximum_frequency
                def make(F=10):
                    g = {'SO2': dg.so2, 'O2': dg.o2}[kind](F); g.built = F
                    return g
                M = c.int('M', 0)
                inst = make(M) if start else None
                inst0 = inst
                cached = {k: inst for k, v in vars(mod).items() if k.startswith('_') and not k.startswith('__') and (v is None or isinstance(v, K))}
                K._build_representations = build
                try:
                    with dg.env(), shims([mod], **dict(cached, **{name: dg.standin(name, make)})):
                        fs = [c.int('f%d' % i, 0) for i in (1, 2)]
                        got = []
                        for f in fs:
                            g = K._generator(f); got.append(g)
                            c.holds(isinstance(g, K), 'an instance of the group')
                            c.zholds(lift(g._maximum_frequency).z() >= f.z(), 'all frequencies asked for are available')
                            c.eq(g.built, g._maximum_frequency, 'the irreps up to the maximum frequency are built')
                            if inst0 is not None: c.zholds(lift(g._maximum_frequency).z() >= M.z(), 'no frequency is lost')
                        c.holds(bool(got[0] == got[1]), 'the same group every time')
                        if inst0 is not None: c.holds(bool(got[0] == inst0), 'the same group as before')
                finally:
                    if old is None: del K._build_representations
                    else: K._build_representations = old
            prove(t, '%s._generator from %s' % (name, 'an existing instance' if start else 'nothing'), [], gen, hist, strict=False)


def run_reps(t):
    from checks import c12
    def replay(m): clash(t); c12.equality(t, 'representations', 1)

    def clash(t):
        import e2cnn.group as G
        g = G.dihedral_group(3)
        irr = sorted(g.irreps)
        rng = t.rng()
        lists = [[irr[0], irr[1]], [irr[1], irr[0]], [irr[0], irr[0]], [irr[1], irr[1]], [irr[-1]], [irr[0]]]
        L = []
        for l in lists:
            n = sum(g.irreps[q].size for q in l)
            for A in (np.eye(n), np.eye(n)[::-1].copy(), np.eye(n) + np.triu(np.ones((n, n)), 1), np.eye(n) * 2):
                for nl in (['norm'], ['norm', 'pointwise']): L.append(((l, A.tolist(), nl), lambda l=l, A=A, nl=nl: G.Representation(g, 'same', list(l), A.copy(), list(nl))))
        R = [(k, f(), f()) for k, f in L]
        for (k, x, x2), (q, y, _) in itertools.product(R, R):
            t.at(a=k, b=q)
            t.check(bool(x == x2), 'repeating a request gives an unequal object'); t.check(hash(x) == hash(x2), 'equal representations have different hashes')
            if bool(x == y):
                t.check(x.size == y.size and all(np.allclose(x(e), y(e)) for e in g.elements) and x.supported_nonlinearities == y.supported_nonlinearities, 'representations that behave differently compare equal', a=k, b=q)
            else: t.check(k != q, 'equal arguments give unequal representations')
    lists = [['one'], ['p'], ['p', 'q'], ['q', 'p'], ['p', 'p'], ['u']]
    for l1, l2 in itertools.product(lists, lists):
        n1, n2 = [sum(dr.SIZES[q] for q in l) for l in (l1, l2)]
        for p1, p2 in itertools.product(itertools.permutations(range(n1)), itertools.permutations(range(n2))):
            if n1 != n2 and (p1, p2) != (tuple(range(n1)), tuple(range(n2))): continue
            def eq(c):
                with dr.env():
                    w = dr.World(c, {k: dr.SIZES[k] for k in sorted(set(l1 + l2 + ['one']))})
                    from e2cnn.group import Representation
                    A1, I1 = dr.invertible(c, 'A', n1, p1); A2, I2 = dr.invertible(c, 'B', n2, p2)
                    for nl1, nl2 in ((['norm'], ['norm']), (['norm'], ['norm', 'pointwise'])):
                        mk = lambda l, A, I, nl: Representation(w.g, 'same', list(l), A.copy(), list(nl), change_of_basis_inv=I.copy())
                        x, y, z = mk(l1, A1, I1, nl1), mk(l2, A2, I2, nl2), mk(l1, A1, I1, nl1)
                        c.holds(bool(x == z) and not (x != z), 'representations built from the same arguments are equal')
                        c.holds(not (x == 'same') and not (x == None), 'not equal to something else')
                        if bool(x == y):
                            c.holds(list(x.irreps) == list(y.irreps), 'equal representations have the same irreps')
                            c.holds(x.supported_nonlinearities == y.supported_nonlinearities, 'equal representations support the same nonlinearities')
                            c.eq(x.change_of_basis, y.change_of_basis, 'equal representations have the same change of basis')
                        elif l1 == l2 and nl1 == nl2:
                            c.holds(not all(bool(lift(a) == lift(b)) for a, b in zip(A1.flat, A2.flat)), 'equal arguments give equal representations')
            prove(t, 'Representation.__eq__ %s and %s pivots %s %s' % (l1, l2, p1, p2), [], eq, replay)


def run_fields(t, lengths):
    from checks import c12
    def replay(m): c12.equality(t, 'fieldtypes', 1)
    words = [w for n in (1, 2, 3) for w in itertools.product('abx', repeat=n)]

    def contract(w1, w2, same_space):
        def eq(c):
            from e2cnn.nn import FieldType
            import e2cnn.nn.field_type as fm
            with dr.env(), ds.env():
                N = c.int('N', 2); g = dg.cyclic(N)
                a1 = c.pi * c.real('a1')
                from e2cnn.group import Representation
                from e2cnn import gspaces as gs
                s1, s2 = gs.Rot2dOnR2(fibergroup=g), gs.Rot2dOnR2(fibergroup=g)
                one = g.trivial_representation
                def mk(name, v):
                    A, I = np.empty((1, 1), object), np.empty((1, 1), object); A[0, 0] = v; I[0, 0] = lift(v).inv() if isinstance(v, S) else lift(1) / v
                    return Representation(g, name, ['irrep_0'], A, ['norm'], change_of_basis_inv=I)
                x1, x2, y = c.real('x1'), c.real('x2'), c.real('y')
                for v in (x1, x2, y): c.assume(v, '>')
                # two representations called x, and others
                D1, D2 = dict(a=one, b=mk('b', y), x=mk('x', x1)), dict(a=one, b=mk('b', y), x=mk('x', x2))
                R1, R2 = [D1[q] for q in w1], [D2[q] for q in w2]
                f, h, f2 = FieldType(s1, R1), FieldType(s2, R2), FieldType(s1, list(R1))
                c.holds(bool(f == f2) and not (f != f2), 'types built from the same arguments are equal')
                same = w1 == w2 and ('x' not in w1 or bool(x1 == x2))
                c.holds(bool(f == h) == same, 'types are equal exactly when their fields are the same, in order')
                c.holds(bool(f != h) == (not same), '!= is the negation of ==')
                c.holds(not (f == 1) and not (f == None), 'not equal to something else')
        return eq
    for w1, w2 in itertools.product([w for w in words if len(w) in lengths], words):
        if len(w1) != len(w2) and abs(len(w1) - len(w2)) > 1: continue
        if len(w1) == 3 and len(w2) == 3 and sorted(w1) != sorted(w2) and w1[:2] != w2[:2]: continue
        prove(t, 'FieldType.__eq__ %s %s' % (''.join(w1), ''.join(w2)), [], contract(w1, w2, 1), replay)


# ---------------------------------------------------------------- caches of bases
def real_groups(t):
    """bounded: sequences of requests for the groups, each sequence in a pristine process"""
    from . import core
    def seq(kind, fs):
        import e2cnn.group as G
        out, first = [], None
        for f in fs:
            g = {'SO2': G.so2_group, 'O2': G.o2_group, 'C': G.cyclic_group, 'D': G.dihedral_group}[kind](f)
            first = first or g
            if kind == 'SO2': names = ['irrep_%d' % j for j in range(f + 1)]
            elif kind == 'O2': names = ['irrep_0,0'] + ['irrep_1,%d' % j for j in range(f + 1)]
            else: names = []
            out.append((g.order(), sorted(set(names) - set(g.irreps)), g == first if kind in ('SO2', 'O2') else True, len(g.irreps)))
        return out
    for kind in ('SO2', 'O2', 'C', 'D'):
        for fs in ([1, 2, 3], [3, 1, 4], [2, 3], [5, 6, 7, 5], [1, 3, 2, 4, 8]):
            t.at(group=kind, requests=fs)
            for f, (o, missing, same, n) in zip(fs, core.isolated(seq, kind, fs)):
                t.check(o == {'C': f, 'D': 2 * f}.get(kind, -1), 'a request for a group returns a group of another order', order=o)
                t.check(not missing and same, 'irreps are missing from a group requested after another', missing=missing)
                if kind == 'C': t.check(n == f // 2 + 1, 'irreps of a group requested after another')


def real_memory(t):
    """bounded: the same requests for bases on one space and on fresh ones"""
    from checks import c12
    from e2cnn.kernels import EmptyBasisException
    from e2cnn.diffops import DiscretizationArgs as DA
    rng = t.rng()
    gx, gy = np.meshgrid(np.arange(-3., 4), np.arange(3., -4, -1)); grid = np.stack([gx.ravel(), gy.ravel()])
    ks = [dict(maximum_frequency=2), dict(maximum_frequency=3), dict(maximum_offset=1), dict(maximum_frequency=3, maximum_offset=1), dict(maximum_offset=2)]
    for sp in (('R', 4, 0.), ('F', 1, .4), ('FR', 3, 0.), ('R', -1, 0.)):
        make = lambda: c12.S(*sp)
        rep = lambda s: c12.space_reps(s)
        R = [('k', i, j, r, g, k) for i, j in ((0, 1), (1, 0), (-1, 0), (-2, 0), (0, -1)) for r, g in (([0., 1.], [.4, .5]), ([1., 0.], [.4, .5]), ([0., 1.], [.5, .4]), ([0., 1.2], [.4, .5]), ([1.], [.5]), ([0., 1.], .5), ([0., 1.004], [.4, .5])) for k in ks]
        R += [('d', i, j, p, DA(angle_offset=o), k) for i, j in ((0, 1), (1, 0), (-1, 0), (-2, 0)) for p in (0, 1) for o in (None, .4, .5) for k in ks[:3]]
        def ask(s, q):
            a, b = rep(s)[q[1]], rep(s)[q[2]]
            try:
                if q[0] == 'k': B = s.build_kernel_basis(a, b, list(q[4]) if isinstance(q[4], list) else q[4], list(q[3]), **q[5]); return B.sample(c12.PTS)
                B = s.build_diffop_basis(a, b, q[3], q[4], **q[5]); return B.sample(grid)
            except EmptyBasisException: return np.zeros(1)
            except (AssertionError, ValueError): return np.zeros(2)
        shared = make()
        for q in [R[i] for i in rng.permutation(len(R))]:
            t.at(space=sp, request=q)
            x, y = ask(shared, q), ask(make(), q)
            t.check(x.shape == y.shape, 'a basis depends on what was requested before'); t.close(x, y, 'a basis depends on what was requested before', 1e-8)


def real_blocks(t):
    """bounded: blocks requested one after the other, converted in between"""
    import torch
    from checks import c12
    from e2cnn.nn.modules.r2_conv.basisexpansion_singleblock import block_basisexpansion as f, SingleBlockBasisExpansion as K
    from e2cnn.kernels import EmptyBasisException
    rng = t.rng()
    P = [np.array([[0., 1., -1.], [0., .5, 1.]]), np.array([[0., 1., -1.], [0., .5, 1.004]]), np.array([[1., 0., -1.], [0., .5, 1.]]), np.array([[0., 1.], [0., .5]]), np.array([[0., 0., .5], [1., -1., 1.]])]
    F = [lambda a: True, lambda a: a['frequency'] != 1, lambda a: a['radius'] > 0]
    for sp in (('R', 4, 0.), ('F', 1, .4), ('FR', 3, 0.), ('T',)):
        s = c12.S(*sp); r = c12.space_reps(s)
        B = []
        for i, j in ((0, 0), (0, 1), (-1, 0), (-2, 0)):
            try: B.append(s.build_kernel_basis(r[i], r[j], [.4, .5], [0., 1.], maximum_frequency=2))
            except EmptyBasisException: pass
        R = [(b, p, m) for b in range(len(B)) for p in range(len(P)) for m in range(len(F))]
        def ask(g, q):
            try: return g(B[q[0]], P[q[1]].copy(), F[q[2]])
            except EmptyBasisException: return None
        held = []
        for q in [R[i] for i in rng.permutation(len(R))] + [R[i] for i in rng.permutation(len(R))]:
            t.at(space=sp, request=q)
            x, y = ask(f, q), ask(K, q)
            t.check((x is None) == (y is None), 'a block depends on what was requested before')
            if x is None: continue
            t.check(x.sampled_basis.dtype == y.sampled_basis.dtype and x.sampled_basis.shape == y.sampled_basis.shape and torch.equal(x.sampled_basis, y.sampled_basis), 'a block depends on what was requested before')
            t.check(x.get_basis_names() == y.get_basis_names(), 'a block depends on what was requested before')
            for z, dt in held: t.check(z.sampled_basis.dtype == dt, 'a later request changes a block')
            if rng.rand() < .5: x.double(); held = (held + [(x, torch.float64)])[-4:]


def run_memory(t, part):
    from checks import c12
    def replay(m): real_memory(t)
    spaces = [('C', 0), ('F', 1), ('O2', 1)]

    def snapshot(x): return [v for v in x] if isinstance(x, (list, tuple, np.ndarray)) else x
    KW = [({}, {}), (dict(maximum_frequency='f1'), dict(maximum_frequency='f2')), (dict(maximum_frequency='f1'), dict(maximum_offset='f2')), (dict(maximum_offset='f1'), dict(maximum_offset='f2')), (dict(maximum_frequency='f1', maximum_offset='o1'), dict(maximum_offset='o2', maximum_frequency='f2')), (dict(maximum_frequency='f1'), {})]
    for (kind, _), (k1, k2), (n1, n2), reps in itertools.product(spaces, KW, ((1, 1), (2, 2), (1, 2)), ('same', 'clash', 'swap')):
        if part or kind != 'C' and ((n1, n2) != (1, 1) or reps == 'swap'): continue
        def mem(c):
            with dr.env(), ds.env():
                N, g = ds.group(c, kind)
                sp = retable(ds.space(c, kind, N, g, c.pi * c.real('axis')))
                from e2cnn.group import Representation
                id = 'irrep_0' if kind in ('C', 'F') else 'irrep_0,0'
                def mk(name, v):
                    A, I = np.empty((1, 1), object), np.empty((1, 1), object); A[0, 0] = v; I[0, 0] = v.inv()
                    return Representation(g, name, [id], A, ['norm'], change_of_basis_inv=I)
                vs = [c.real('v%d' % i) for i in range(3)]
                for v in vs: c.assume(v, '>')
                p, q, p2 = mk('p', vs[0]), mk('q', vs[1]), mk('p', vs[2])
                r1, r2 = {'same': ((p, q), (p, q)), 'clash': ((p, q), (p2, q)), 'swap': ((p, q), (q, p))}[reps]
                log = []

                def generator(in_repr, out_repr, rings, sigma, **kw):
                    log.append(dict(i=in_repr, o=out_repr, rings=snapshot(rings), sigma=snapshot(sigma), kw=dict(kw)))
                    return log[-1]

                def dgenerator(in_repr, out_repr, max_power, discretization, **kw):
                    log.append(dict(i=in_repr, o=out_repr, power=max_power, disc=discretization, kw=dict(kw)))
                    return log[-1]
                sp._basis_generator, sp._diffop_basis_generator = generator, dgenerator
                def args(n, k, j):
                    R = [c.real('R%d%d' % (j, i), 0) for i in range(n)]
                    s = [c.real('s%d%d' % (j, i)) for i in range(n)]
                    for v in s: c.assume(v, '>')
                    return R, s, {a: c.int(b, 0) for a, b in k.items()}
                A1, A2 = args(n1, k1, 1), args(n2, k2, 2)
                def check(got, r, A, what):
                    c.holds(isinstance(got, dict) and 'rings' in got, what + ': a kernel basis')
                    c.holds(bool(got['i'] == r[0]) and bool(got['o'] == r[1]), what + ': for the representations asked for')
                    c.eq(got['rings'], A[0], what + ': for the rings asked for'); c.eq(got['sigma'], A[1], what + ': for the widths asked for')
                    c.holds(set(got['kw']) == set(A[2]), what + ': with the settings asked for')
                    for k in A[2]: c.eq(got['kw'][k], A[2][k], what + ': with the settings asked for')
                a = sp.build_kernel_basis(r1[0], r1[1], list(A1[1]), list(A1[0]), **A1[2])
                check(a, r1, A1, 'first request')
                lr, ls = list(A2[0]), list(A2[1])
                b = sp.build_kernel_basis(r2[0], r2[1], ls, lr, **A2[2])
                check(b, r2, A2, 'second request')
                c.holds(len(lr) == len(A2[0]) and all(x is y for x, y in zip(lr, A2[0])), 'the arguments are not changed')
                check(sp.build_kernel_basis(r1[0], r1[1], list(A1[1]), list(A1[0]), **A1[2]), r1, A1, 'first request repeated')
        prove(t, 'build_kernel_basis %s %s then %s, %d and %d rings, %s' % (kind, k1, k2, n1, n2, reps), [], mem, replay, strict=False)
    from e2cnn.diffops.basis import DiscretizationArgs as DA
    for (kind, _), (k1, k2), reps in itertools.product(spaces[:2], KW, ('same', 'swap')):
        if not part: continue
        def mem(c):
            with dr.env(), ds.env():
                N, g = ds.group(c, kind)
                sp = retable(ds.space(c, kind, N, g, c.pi * c.real('axis')))
                one = g.trivial_representation
                from e2cnn.group import Representation
                A, I = np.empty((1, 1), object), np.empty((1, 1), object); v = c.real('v'); c.assume(v, '>'); A[0, 0] = v; I[0, 0] = v.inv()
                p = Representation(g, 'p', [one.name], A, ['norm'], change_of_basis_inv=I)
                r1, r2 = {'same': ((p, one), (p, one)), 'swap': ((p, one), (one, p))}[reps]
                sp._diffop_basis_generator = lambda in_repr, out_repr, max_power, discretization, **kw: dict(i=in_repr, o=out_repr, power=max_power, disc=discretization, kw=dict(kw))
                sp._basis_generator = lambda in_repr, out_repr, rings, sigma, **kw: dict(i=in_repr, o=out_repr, rings=rings, kw=dict(kw))
                def args(k, j): return c.int('P%d' % j, 0), DA(angle_offset=c.real('off%d' % j), smoothing=c.real('sm%d' % j)), {a: c.int(b, 0) for a, b in k.items()}
                def check(got, r, A, what):
                    c.holds(isinstance(got, dict) and 'power' in got, what + ': an operator basis')
                    c.holds(bool(got['i'] == r[0]) and bool(got['o'] == r[1]), what + ': for the representations asked for')
                    c.eq(got['power'], A[0], what + ': for the powers asked for'); c.eq([got['disc'].angle_offset, got['disc'].smoothing], [A[1].angle_offset, A[1].smoothing], what + ': with the discretisation asked for')
                    c.holds(got['disc'].method == A[1].method and got['disc'].phi == A[1].phi, what + ': with the discretisation asked for')
                    c.holds(set(got['kw']) == set(A[2]), what + ': with the settings asked for')
                    for k in A[2]: c.eq(got['kw'][k], A[2][k], what + ': with the settings asked for')
                A1, A2 = args(k1, 1), args(k2, 2)
                kb = sp.build_kernel_basis(r1[0], r1[1], [lift(1)], [lift(1)], **A1[2])
                check(sp.build_diffop_basis(r1[0], r1[1], A1[0], A1[1], **A1[2]), r1, A1, 'first request')
                check(sp.build_diffop_basis(r2[0], r2[1], A2[0], A2[1], **A2[2]), r2, A2, 'second request')
                c.holds('rings' in sp.build_kernel_basis(r1[0], r1[1], [lift(1)], [lift(1)], **A1[2]), 'kernel and operator bases are not confused')
        prove(t, 'build_diffop_basis %s %s then %s, %s' % (kind, k1, k2, reps), [], mem, replay, strict=False)


def run_blocks(t):
    from checks import c12
    def replay(m): real_blocks(t)
    import e2cnn.nn.modules.r2_conv.basisexpansion_singleblock as bm

    class Part:
        """a basis known by one symbol"""
        def __init__(self, id, dim): self.id, self.dim = id, dim
        def __len__(self): return self.dim
        def __iter__(self):
            for i in range(self.dim): yield dict(idx=i)
        def __eq__(self, o): return isinstance(o, Part) and self.dim == o.dim and bool(lift(self.id) == lift(o.id))
        def __hash__(self): return 5

    class Block:
        """SingleBlockBasisExpansion by its contract: a function of the basis, the points and the elements selected"""
        def __init__(self, basis, points, basis_filter=None):
            self.basis, self.points, self.mask = basis, np.array(points), [bool(basis_filter(a)) for a in basis]
            self._buffers = {'sampled_basis': 'as built'}
    masks = [(1, 1, 1), (1, 0, 1), (0, 1, 0)]
    for n1, n2 in ((1, 1), (2, 2), (1, 2)):
        for m1, m2, rec in itertools.product(masks, masks, ((0, 0), (1, 0), (0, 1))):
            if (n1, n2) != (1, 1) and (m1 != m2 or sum(rec)): continue
            def blk(c):
                with shims([bm], SingleBlockBasisExpansion=Block, **tables(bm)):
                    def pts(tag, n): return sarr([[c.real('%s%d%d' % (tag, i, j)) for j in range(n)] for i in range(2)])
                    P1, P2 = pts('p', n1), pts('q', n2)
                    b1, b2 = Part(c.real('b1'), 3), Part(c.real('b2'), 3)
                    f1, f2 = (lambda a: bool(m1[a['idx']])), (lambda a: bool(m2[a['idx']]))
                    def check(x, b, P, m, what):
                        c.eq(x.basis.id, b.id, what + ': for the basis asked for'); c.eq(x.points, np.asarray(P), what + ': at the points asked for')
                        c.holds(x.mask == [bool(v) for v in m], what + ': for the elements selected')
                        c.holds(x._buffers == {'sampled_basis': 'as built'}, what + ': as it was built')
                    x = bm.block_basisexpansion(b1, P1, f1, bool(rec[0]))
                    check(x, b1, P1, m1, 'first request')
                    x._buffers['sampled_basis'] = 'converted'            # what Module.double(), .half() or .to() do
                    y = bm.block_basisexpansion(b2, P2, f2, bool(rec[1]))
                    check(y, b2, P2, m2, 'second request')
                    z = bm.block_basisexpansion(b1, P1, f1, bool(rec[0]))
                    check(z, b1, P1, m1, 'first request repeated')
                    c.holds(x._buffers['sampled_basis'] == 'converted', 'later requests leave the block alone')
            prove(t, 'block_basisexpansion %d and %d points, elements %s %s, recompute %s' % (n1, n2, m1, m2, rec), [], blk, replay, strict=False)


def real_discretised(t):
    """the discretisation of a polynomial and of a derivative, alone and after others"""
    import importlib
    from vk import core
    def ask(kind, arg):
        import e2cnn.diffops.utils as u
        if kind == 1: return np.asarray(u.discretize_1d_monomial(arg[0], np.array(arg[1])))
        n, d, co = arg
        g = dd.grid(n, d); gx, gy = np.meshgrid(g, [-v for v in g])
        return u.discretize_homogeneous_polynomial(np.stack([gx.ravel(), gy.ravel()]), np.array(co))
    R = [(1, (k, tuple(dd.grid(n, d)))) for k in (0, 1, 2) for n in (3, 5) for d in (1., 2.)] + [(2, (n, d, co)) for n in (3, 5) for d in (1., 2.) for co in ((1., 0.), (0., 1.), (1., 2., 0.), (1., 0., 1.))]
    rng = t.rng()
    alone = [core.isolated(ask, *r) for r in R]
    def run(order): return [ask(*R[i]) for i in order]
    for _ in range(3):
        o = list(rng.permutation(len(R))) * 2
        for i, g in zip(o, core.isolated(run, o)):
            t.at(request=R[i]); t.close(g, alone[i], 'the result depends on what was built before', 1e-7)



def real_disk(t):
    """discretisations stored on disk and loaded in other processes: the results are those of a process without any"""
    import contextlib, io, shutil, tempfile
    from vk import core
    from e2cnn import gspaces, nn, diffops
    import torch
    def quiet(f, *a):
        with contextlib.redirect_stdout(io.StringIO()): return f(*a)
    def ask(n, d, co):
        import e2cnn.diffops.utils as u
        g = dd.grid(n, d); gx, gy = np.meshgrid(g, [-v for v in g])
        return np.array(u.discretize_homogeneous_polynomial(np.stack([gx.ravel(), gy.ravel()]), np.array(co)))
    R = [(n, d, co) for n in (3, 5) for d in (1., 2.) for co in ((1., 0.), (0., 1.), (1., 2., 0.), (1., 0., 1.))]
    alone = [core.isolated(ask, *r) for r in R]
    rng = t.rng()
    root = tempfile.mkdtemp(prefix='vkd_')
    here = os.getcwd()
    def session(path, load, order, store):
        os.chdir(root)
        if load: quiet(diffops.load_cache, *path)
        out = [ask(*R[i]) for i in order]
        if store: quiet(diffops.store_cache, *path)
        return out + [ask(*R[i]) for i in order]
    def layer(cache):
        os.chdir(root)
        torch.manual_seed(0)
        gs = gspaces.Rot2dOnR2(4)
        f = nn.FieldType(gs, [gs.trivial_repr, gs.irrep(1)])
        l = quiet(lambda: nn.R2Diffop(f, f, 3, cache=cache) if hasattr(nn, 'R2Diffop') else nn.R2DiffOp(f, f, 3, cache=cache))
        torch.manual_seed(1)
        for p in l.parameters(): p.data = torch.randn(p.shape)
        return l.expand_parameters()[0].detach().numpy()
    try:
        for path in ((), (os.path.join(root, 'a', 'b.pickle'),), ('plain.pickle',)):
            for k in range(4):
                o = list(rng.permutation(len(R))[:9])
                got = core.isolated(session, path, k != 0, o, k != 3)
                for i, g in zip(o + o, got):
                    t.at(request=R[i], path=path, session=k)
                    t.close(g, alone[i], 'the discretisation depends on what was stored on disk', 1e-7)
        want = core.isolated(layer, False)
        for k in ('store', 'load', True, True):
            t.at(cache=k); t.close(core.isolated(layer, k), want, 'the layer depends on what was stored on disk', 1e-6)
    finally:
        os.chdir(here); shutil.rmtree(root, ignore_errors=True)


def run_discretised(t):
    def replay(m): real_discretised(t)
    import e2cnn.diffops.utils as um

    def one(c):
        calls = []
        def fw(n, points):
            calls.append(1)
            return sarr([sym.fn('w%d' % i, n, *points) for i in range(len(points))])
        with shims([um], fd_weights=fw, **tables(um)):
            n1, n2 = c.int('n1', 0, 1), c.int('n2', 0, 1)
            p, q = sarr([c.real('p%d' % i) for i in range(2)]), sarr([c.real('q%d' % i) for i in range(2)])
            n1 == n2 and all(bool(x == y) for x, y in zip(p, q))          # decided before the weights are named
            r = um.discretize_1d_monomial(n1, p); c.eq(r, fw(n1, p), 'weights for the derivative and the points asked for')
            s = um.discretize_1d_monomial(n2, q); c.eq(s, fw(n2, q), 'weights for the derivative and the points asked for')
            c.eq(um.discretize_1d_monomial(n1, p), fw(n1, p), 'the first request repeated')
    prove(t, 'discretize_1d_monomial', [], one, replay, strict=False)
    for nx, ny in ((2, 2), (3, 2)):
        for a, b in (((1, 1), (1, 1)), ((1, 0, 1), (1, 1, 0)), ((1, 1), (1, 0, 1))):
            def two(c):
                def mono(n_x, n_y, points): return np.array([[sym.fn('M%d%d_%d%d' % (n_x, n_y, i, j), *points[0], *points[1]) for j in range(nx)] for i in range(ny)], dtype=object)
                class NpD(dd.NpPoly):
                    """axes of a grid of symbolic spacing"""
                    def unique(self, x):
                        out = []
                        for v in np.asarray(x).flat:
                            if not any(not (lift(v) - lift(w)).n().t for w in out): out.append(v)
                        return sarr(out)
                    def array_equal(self, x, y): return True
                with shims([um], np=NpD(), discretize_2d_monomial=mono, **tables(um)):
                    def pts(tag):
                        xs, ys = [c.real('%sx%d' % (tag, i)) for i in range(nx)], [c.real('%sy%d' % (tag, i)) for i in range(ny)]
                        gx = [[x for x in xs] for _ in ys]; gy = [[y for _ in xs] for y in ys]
                        return sarr([sum(gx, []), sum(gy, [])]), xs, ys
                    P, px, py = pts('p'); Q, qx, qy = pts('q')
                    def poly(tag, m):
                        v = [c.real('%s%d' % (tag, i)) if u else lift(0) for i, u in enumerate(m)]
                        for w, u in zip(v, m):
                            if u: c.assume(w, '>')
                        return sarr(v)
                    A, B = poly('a', a), poly('b', b)
                    all(bool(x == y) for x, y in zip(px + py, qx + qy))          # decided before the kernels are named
                    def want(co, xs, ys):
                        n = len(co) - 1
                        out = np.zeros(nx * ny, object)
                        for k in range(n + 1):
                            if not lift(co[k]).n().t: continue
                            out = out + co[k] * mono(n - k, k, (sarr(xs), sarr(ys))).reshape(-1)
                        return out
                    f = um.discretize_homogeneous_polynomial
                    c.eq(np.asarray(f(P, A)), want(A, px, py), 'first request'); c.eq(np.asarray(f(Q, B)), want(B, qx, qy), 'second request'); c.eq(np.asarray(f(P, A)), want(A, px, py), 'first request repeated')
            prove(t, 'discretize_homogeneous_polynomial %dx%d %s then %s' % (nx, ny, a, b), [], two, replay, strict=False)
    # the memory on disk: any order of storing, asking, loading
    for what in ('ask store ask load ask', 'ask load ask', 'ask store forget load ask', 'ask store ask store ask load ask', 'ask store ask forget ask load ask'):
        def disk(c):
            files = {}
            class Path:
                def __init__(self, real): self.real = real
                def __getattr__(self, k): return getattr(self.real, k)
                def exists(self, p): return str(p) in files
                isfile = exists
            class Os:
                path = Path(os.path)
                def __getattr__(self, k): return getattr(os, k)
                def makedirs(self, *a, **kw): pass
                mkdir = makedirs
                def replace(self, a, b): files[str(b)] = files.pop(str(a))
                rename = replace
            class Handle:
                def __init__(self, p): self.p = str(p)
                def __enter__(self): return self
                def __exit__(self, *a): return False
                def close(self): pass
                def flush(self): pass
            class Pickle:
                HIGHEST_PROTOCOL = DEFAULT_PROTOCOL = 5
                def dump(self, o, f, *a, **kw): files[f.p] = self.copy(o)
                def load(self, f): return self.copy(files[f.p])
                def copy(self, o):
                    if isinstance(o, Table):
                        r = Table(o.factory); r.d = [(k, self.copy(v)) for k, v in o.d]; return r
                    if isinstance(o, dict): return {k: self.copy(v) for k, v in o.items()}
                    if isinstance(o, (tuple, list)): return type(o)(self.copy(v) for v in o)
                    return o.copy() if isinstance(o, np.ndarray) else o
            class NpD(dd.NpPoly):
                def unique(self, x):
                    out = []
                    for v in np.asarray(x).flat:
                        if not any(not (lift(v) - lift(w)).n().t for w in out): out.append(v)
                    return sarr(out)
                def array_equal(self, x, y): return True
            def mono(n_x, n_y, points): return np.array([[sym.fn('M%d%d_%d%d' % (n_x, n_y, i, j), *points[0], *points[1]) for j in range(2)] for i in range(2)], dtype=object)
            def opened(p, *a, **kw): return Handle(p)
            had = 'open' in vars(um)
            with shims([um], np=NpD(), discretize_2d_monomial=mono, os=Os(), pickle=Pickle(), **tables(um)):
                um.open, um.print = opened, lambda *a, **kw: None
                try:
                    def pts(tag):
                        xs, ys = [c.real('%sx%d' % (tag, i)) for i in range(2)], [c.real('%sy%d' % (tag, i)) for i in range(2)]
                        return sarr([[xs[0], xs[1], xs[0], xs[1]], [ys[0], ys[0], ys[1], ys[1]]]), xs, ys
                    P, px, py = pts('p'); Q, qx, qy = pts('q')
                    A, B = [sarr([c.real('%s%d' % (g, i)) for i in range(2)]) for g in 'ab']
                    for v in (*A, *B): c.assume(v, '>')
                    all(bool(x == y) for x, y in zip(px + py, qx + qy))
                    def want(co, xs, ys): return co[0] * mono(1, 0, (sarr(xs), sarr(ys))).reshape(-1) + co[1] * mono(0, 1, (sarr(xs), sarr(ys))).reshape(-1)
                    R = [(P, A, px, py), (Q, B, qx, qy)]
                    asked = 0
                    for w in what.split():
                        if w == 'ask':
                            for k in ((0,), (1,), (1, 0))[min(asked, 2)]:
                                p, co, xs, ys = R[k]
                                c.eq(np.asarray(um.discretize_homogeneous_polynomial(p, co)), want(co, xs, ys), 'request %d' % k)
                            asked += 1
                        elif w == 'store': um.store_cache('somewhere/file')
                        elif w == 'load': um.load_cache('somewhere/file')
                        else:
                            for k, v in tables(um).items(): vars(um)[k] = Table()
                    for k in (0, 1):
                        p, co, xs, ys = R[k]
                        c.eq(np.asarray(um.discretize_homogeneous_polynomial(p, co)), want(co, xs, ys), 'request %d at the end' % k)
                finally:
                    if not had: vars(um).pop('open', None)
                    vars(um).pop('print', None)
        prove(t, 'store_cache, load_cache: %s' % what, [], disk, lambda m: real_disk(t), strict=False)


def build_c12(ctx):
    for which in ('kernels', 'diffops'):
        for kind in ('C', 'D', 'SO2', 'O2', 'F'):
            P = list(itertools.product(FAM[kind], FAM[kind]))
            for q in [[x] for x in P] if kind in 'CD' else [P]:
                ctx.task('contract equality %s %s %s' % (which, CLS[kind], 'all' if len(q) > 1 else '%s %s' % q[0]), 'proof')(lambda t, which=which, kind=kind, q=q: run_solutions(t, kind, which, q))
            ctx.task('solutions %s %s' % (which, CLS[kind]))(lambda t, which=which, kind=kind: eq_solutions(t, kind, which))
    for name, f in (('profiles', run_profiles), ('combined bases', run_combined), ('operator bases', run_diff), ('groups', run_groups), ('representations', run_reps), ('field types 1', lambda t: run_fields(t, (1, 2))), ('field types 2', lambda t: run_fields(t, (3,))),
                    ('memory of bases 1', lambda t: run_memory(t, 0)), ('memory of bases 2', lambda t: run_memory(t, 1)), ('memory of blocks', run_blocks), ('memory of discretisations', run_discretised)):
        ctx.task('contract ' + name, 'proof')(f)
    for name, f in (('requests for groups', real_groups), ('requests for bases', real_memory), ('requests for blocks', real_blocks), ('requests for discretisations', real_discretised), ('discretisations on disk', real_disk)): ctx.task(name)(f)
