"""Contracts on e2cnn.kernels: steerability (C06) and completeness (C07) of the angular solutions for symbolic order, frequencies, axis, element and angle.

offset_iterator is used through its contract ("yields exactly the integers j within the limits", proved in C07 for the real code):
in C06 the loop over offsets is run for two arbitrary offsets, in C07 for exactly the offsets that give a fixed arbitrary frequency.
The angular solutions are then composed: SteerableKernelBasis and PolarBasis are run on opaque irrep solutions and opaque changes of basis (arbitrary symbols) for listed numbers of irreps."""
import math
import numpy as np
from . import sym, groups as gr, ded_groups as dg
from fractions import Fraction as Fr
from .core import Fail, Undecided
from .sym import S, prove, shims, lift, NP
from .ded_groups import mk, mm, eye2, elem, ang, flips


def mods():
    import e2cnn.kernels.irreps_basis as a, e2cnn.kernels.utils as b, e2cnn.kernels.basis as c, e2cnn.kernels.steerable_basis as d, e2cnn.kernels.r2 as e
    return [a, b, c, d, e]


import contextlib


@contextlib.contextmanager
def env(offsets=None, **extra):
    """numeric shims; offset_iterator replaced by its contract when offsets is given"""
    k = dict(extra)
    if offsets is not None: k['offset_iterator'] = offsets
    with dg.env(), shims(mods(), **k): yield


FAM = {'C': ['0', 'half', '2'], 'SO2': ['0', '2'], 'D': ['0', 'flip', 'half', 'hflip', '2'], 'O2': ['0', 'flip', '2'], 'F': ['0', '1']}      # one-dimensional irreps by frequency 0 or N/2 and reflection sign; '2': the two-dimensional ones
CLS = {'C': 'R2DiscreteRotationsSolution', 'D': 'R2FlipsDiscreteRotationsSolution', 'SO2': 'R2ContinuousRotationsSolution', 'O2': 'R2FlipsContinuousRotationsSolution', 'F': 'R2FlipsSolution'}


def ident(kind, case, k, h):
    """identifier of the irrep of the family: k an arbitrary frequency, N = 2 h"""
    if kind == 'F': return (int(case),)
    w = {'0': 0, 'flip': 0, 'half': h, 'hflip': h, '2': k}[case]
    if kind in ('C', 'SO2'): return (w,)
    return (1 if case in ('flip', 'hflip', '2') else 0, w)


def irrep(c, kind, case, g, N, nm):
    k = h = None
    if case == '2' and kind != 'F':
        k = c.int(nm, 1)
        if kind in 'CD': c.assume(N - 2 * k, '>')
    if case in ('half', 'hflip'): h = c.int('h', 1)
    return g.irrep(*ident(kind, case, k, h))


def halved(*cases): return any(x in ('half', 'hflip') for x in cases)


def setup(c, kind, ci, co):
    N = None
    if kind in 'CD': N = 2 * c.int('h', 1) if halved(ci, co) else c.int('N', 1)
    if kind == 'F': g = dg.cyclic(2)
    else: g = mk(kind, N)
    return N, g, irrep(c, kind, ci, g, N, 'n'), irrep(c, kind, co, g, N, 'm')


def solution(kind, g, ri, ro, axis, **kw):
    import e2cnn.kernels.irreps_basis as ib
    K = getattr(ib, CLS[kind])
    if kind == 'C': return K(g, ri, ro, **kw)
    if kind == 'SO2': return K(g, ri, ro)
    if kind == 'O2': return K(g, ri, ro, axis=axis)
    return K(g, ri, ro, axis=axis, **kw)


def image(c, kind, N, e, phi, axis):
    """angle of g.x for a point x at angle phi"""
    if kind == 'F': return phi if not e else 2 * axis - phi
    th = ang(kind, N, e)
    if kind in ('C', 'SO2') or not e[0]: return phi + th
    return th + 2 * axis - phi


def empty():
    import e2cnn.kernels.basis as b
    return b.EmptyBasisException


class Space:
    """minimal concrete planar space for a replay: a symmetry space of the library and the isometries its elements should act by"""
    def __init__(self, kind, N, axis, top):
        from e2cnn import gspaces as gs
        self.kind = kind
        if kind == 'C': self.gs = gs.Rot2dOnR2(N) if N > 1 else gs.TrivialOnR2()
        elif kind == 'D':
            if N == 1: raise Undecided('D_1 is replayed as a flip space only')
            self.gs = gs.FlipRot2dOnR2(N=N, axis=axis)
        elif kind == 'SO2': self.gs = gs.Rot2dOnR2(N=-1, maximum_frequency=top)
        elif kind == 'O2': self.gs = gs.FlipRot2dOnR2(N=-1, maximum_frequency=top, axis=axis)
        else: self.gs = gs.Flip2dOnR2(axis=axis)
        self.G, self.N, self.axis = self.gs.fibergroup, N, axis

    def M(self, e):
        if self.kind == 'F': return gr.rot(2 * self.axis * e) @ (gr.FL if e else np.eye(2))
        if self.kind == 'C': return gr.rot(gr.TAU * e / self.N)
        if self.kind == 'SO2': return gr.rot(e)
        a = e[1] * gr.TAU / self.N if self.kind == 'D' else e[1]
        return gr.rot(a + 2 * self.axis * e[0]) @ (gr.FL if e[0] else np.eye(2))

    def elements(self):
        if self.kind == 'F': return [0, 1]
        if self.kind == 'C': return list(range(self.N))
        if self.kind == 'D': return [(f, i) for f in (0, 1) for i in range(self.N)]
        A = gr.angles()
        return A if self.kind == 'SO2' else [(f, a) for f in (0, 1) for a in A]


def concrete(kind, m, ci, co):
    N = None
    if kind in 'CD': N = 2 * int(m['h']) if 'h' in m else int(m['N'])
    if N is not None and N > 150: raise Undecided('model too large to replay')
    top = max(3, int(m.get('n', 0)), int(m.get('m', 0)))
    if top > 100: raise Undecided('model too large to replay')
    axis = float(m.get('axis', 0.)) * math.pi
    sp = Space(kind, N, axis, top)
    sp.key = '%s%s axis %.3f' % (kind, N, axis); sp.spec = (kind, N)
    def ir(case, nm):
        id = ident(kind, case, int(m.get(nm, 0)), int(m.get('h', 0)))
        return sp.G.irrep(*id)
    return sp, ir(ci, 'n'), ir(co, 'm')


def chosen(kind, ci, co): return range(4) if (kind, ci, co) == ('C', '2', '2') else [None]


def run_c06(t, kind, ci, co):
    from checks import c06

    def replay(m):
        sp, a, b = concrete(kind, m, ci, co)
        fs = [abs(int(v)) for k, v in m.items() if k.startswith('mu')]
        F = min(max(fs + [3]), 300)
        kw = {} if kind in ('SO2', 'O2') else dict(maximum_frequency=F)
        B = c06.basis(t, sp, a, b, [0., 1.], [0.6, 0.5], **kw)
        if B is None: return
        P = np.concatenate([t.rng().uniform(-2, 2, (2, 12)), np.zeros((2, 1)), np.eye(2)], axis=1)
        c06.constraint(t, sp, a, b, B, P, sp.elements()[:60])

    def stub(c, F, sel, single):
        """offset_iterator by its contract: arbitrary offsets within the limit, in the selected loops"""
        cnt, calls = [0], [0]

        def offsets(base_frequency, N, maximum_offset=None, maximum_frequency=None, non_negative=False):
            calls[0] += 1
            if sel is not None and calls[0] - 1 not in ((sel,) if single else (sel, (sel + 1) % 4)): return
            for _ in range(2 if not cnt[0] and sel is None and not single else 1):
                cnt[0] += 1
                j = c.int('t%d' % cnt[0])
                mu = lift(base_frequency) + j * N
                c.assume(F - mu); c.assume(F + mu)
                if non_negative: c.assume(mu)
                yield j
        return offsets

    # sel: loops over the offsets that yield arbitrary offsets in a run (the others yield none); all pairs of consecutive loops are covered
    for f in flips(kind):
        for sel in chosen(kind, ci, co):
            def steer(c):
                F = c.int('F', 0)
                with env(stub(c, F, sel, False)):
                    N, g, ri, ro = setup(c, kind, ci, co)
                    axis = c.pi * c.real('axis')
                    try: B = solution(kind, g, ri, ro, axis, **({} if kind in ('SO2', 'O2') else dict(max_frequency=F)))
                    except empty():
                        c.holds(True, 'empty basis')
                        return
                    c.holds(B.shape == (ro.size, ri.size), 'reported shape')
                    phi = c.pi * c.real('phi')
                    e = elem(c, kind, 2 if kind == 'F' else N, 'a', f)
                    A = np.empty((1, 3), object); A[0, 0] = phi; A[0, 1] = image(c, kind, N, e, phi, axis); A[0, 2] = float('nan')
                    K = B.sample(A)
                    c.holds(K.shape == (ro.size, ri.size, B.dim, 3), 'sampled shape')
                    o, i = ro(e), ri(e)
                    for b in range(B.dim):
                        # rho_in orthogonal (C03), so its inverse is its transpose
                        c.eq(K[:, :, b, 1], mm(mm(o, K[:, :, b, 0]), np.asarray(i).T), 'steerability constraint')
                        c.eq(K[:, :, b, 2], mm(mm(o, K[:, :, b, 2]), np.asarray(i).T), 'steerability constraint at the origin')
                    out = np.empty(K.shape, object); out[...] = 7
                    K2 = B.sample(A, out=out)
                    c.eq(out, K, 'the given array is filled'); c.eq(K2, K, 'sampling into a given array')
                    c.eq(A[0, 0], phi, 'the points are not modified')
            prove(t, '%s in %s out %s flip %d%s' % (CLS[kind], ci, co, f, '' if sel is None else ' loops %d' % sel), [], steer, replay)

            def whole(c):
                """the basis as users build it: polar combination with a Gaussian ring, points of the plane"""
                from vk import ded_spaces as ds
                F = c.int('F', 0)
                with env(stub(c, F, sel, True)), ds.env():
                    N, g, ri, ro = setup(c, kind, ci, co)
                    if kind == 'D': sym.require(N > 1)      # there is no space for D_1
                    axis = c.pi * c.real('axis')
                    R, sg, r = c.real('R', 0), c.real('sg'), c.real('r')
                    c.assume(sg, '>'); c.assume(r - Fr(1, 10 ** 8), '>')
                    sp = ds.space(c, kind if N is None or bool(lift(N) > 1) else 'T' if kind == 'C' else None, N, g, axis)
                    try: B = sp.build_kernel_basis(ri, ro, [sg], [R], **({} if kind in ('SO2', 'O2') else dict(maximum_frequency=F)))
                    except empty():
                        c.holds(True, 'empty basis')
                        return
                    phi = c.pi * c.real('phi')
                    e = elem(c, kind, 2 if kind == 'F' else N, 'a', f)
                    psi = image(c, kind, N, e, phi, axis)
                    P = np.empty((2, 3), object)
                    P[:, 0] = r * phi.cos(), r * phi.sin()
                    P[:, 1] = r * psi.cos(), r * psi.sin()
                    P[:, 2] = lift(0), lift(0)
                    P0 = P.copy()
                    K = B.sample(P)
                    c.holds(K.shape == (ro.size, ri.size, B.dim, 3) and tuple(B.shape) == (ro.size, ri.size), 'sampled shape')
                    o, i = ro(e), ri(e)
                    for b in range(B.dim):
                        c.eq(K[:, :, b, 1], mm(mm(o, K[:, :, b, 0]), np.asarray(i).T), 'steerability constraint on the plane')
                        c.eq(K[:, :, b, 2], mm(mm(o, K[:, :, b, 2]), np.asarray(i).T), 'steerability constraint at the origin of the plane')
                    c.eq(P, P0, 'the points are not modified')
            prove(t, 'kernel basis of %s in %s out %s flip %d%s' % (kind, ci, co, f, '' if sel is None else ' loop %d' % sel), [], whole, replay)


# ---------------------------------------------------------------- composition
class FakeGroup:
    """group of which only the sizes of the irreps matter"""
    def __init__(self, sizes):
        import types
        self.irreps = {k: types.SimpleNamespace(size=n, name=k) for k, n in sizes.items()}

    def __eq__(self, o): return self is o
    def __hash__(self): return 7


class FakeRepr:
    def __init__(self, c, g, irreps, cob, tag):
        self.group, self.irreps, self.name = g, list(irreps), tag
        self.size = n = sum(g.irreps[x].size for x in irreps)
        self.change_of_basis, self.change_of_basis_inv = NP.eye(n), NP.eye(n)
        if cob:
            for a, nm in ((self.change_of_basis, 'P'), (self.change_of_basis_inv, 'Q')):
                for i in np.ndindex(n, n): a[i] = c.real('%s%s%d%d' % (nm, tag, *i))
            # not the identity (the identity is the other case)
            c.assume(self.change_of_basis[0, 0] - 1, '>'); c.assume(1 - self.change_of_basis_inv[0, 0], '>')

    def __eq__(self, o): return self is o
    def __hash__(self): return hash(self.name)


SIZES = dict(u=1, v=2, w=1)
# number of solutions per (in, out) pair of irreps; absent: empty basis
DIMS = {('u', 'u'): 1, ('u', 'v'): 2, ('v', 'u'): 2, ('v', 'v'): 3, ('w', 'v'): 1, ('w', 'w'): 2}
LISTS = [(('u',), ('v',)), (('u', 'v'), ('v', 'u')), (('v', 'u', 'v'), ('u', 'w')), (('w', 'u'), ('u', 'u', 'v')), (('w', 'v'), ('w',)), (('w',), ('u',))]


def opaque_class(c):
    from e2cnn.kernels.basis import KernelBasis
    class Opaque(KernelBasis):
        """irrep solutions known only by arbitrary values"""
        def __init__(self, group, in_irrep, out_irrep, **kw):
            self.i, self.o, self.kw = getattr(in_irrep, 'name', in_irrep), getattr(out_irrep, 'name', out_irrep), kw
            super().__init__(DIMS.get((self.i, self.o), 0), (SIZES[self.o], SIZES[self.i]))

        def value(self, o, i, b, p): return c.real('K_%s%s_%d%d%d_%d' % (self.i, self.o, o, i, b, p))

        def sample(self, angles, out=None):
            sh = self.shape + (self.dim, angles.shape[1])
            if out is None: out = np.empty(sh, object)
            assert out.shape == sh
            for x in np.ndindex(*sh): out[x] = self.value(*x)
            return out

        def __getitem__(self, b): return dict(frequency='%s%s%d' % (self.i, self.o, b), idx=b)
        def __eq__(self, o): return isinstance(o, Opaque) and (self.i, self.o) == (o.i, o.o)
        def __hash__(self): return hash((self.i, self.o))
    return Opaque


def composed(t):
    """SteerableKernelBasis: element (ii, oo, b) is  B . E_oo K_b E_ii . A^-1, every solution of every pair of irreps exactly once, with its description.
    With K_b(g.x) = psi_oo(g) K_b(x) psi_ii(g)^-1 and rho = C (+ psi) C^-1 this gives the constraint for the representations; C invertible gives completeness and independence."""
    def replay(m):
        from checks import c06, c07
        from vk import zoo
        for i in (1, 6, 12):
            sp = zoo.spaces(2)[i % len(zoo.spaces(2))]
            R = zoo.reps(sp.G, sp.spec, t.rng(), 1, 8, orthogonal=False)
            for a in R[:6]:
                for b in R[:6]:
                    kw = {} if sp.spec[0] in ('SO2', 'O2') else dict(maximum_frequency=3)
                    B = c06.basis(t, sp, a, b, [1., 2.], [.5, .4], **kw)
                    if B is None: continue
                    c06.constraint(t, sp, a, b, B, t.rng().uniform(-2, 2, (2, 9)), sp.elements(t.rng())[:6])
                    c07.describe(t, sp, a, b, B, [1., 2.], [.5, .4], 3 if kw else None)
    for ins, outs in LISTS:
        for ca in (0, 1):
            for cb in (0, 1):
                if ca + cb and len(ins) + len(outs) > 4: continue
                def comp(c):
                    from e2cnn.kernels.steerable_basis import SteerableKernelBasis
                    with env():
                        g = FakeGroup(SIZES)
                        ri, ro = FakeRepr(c, g, ins, ca, 'i'), FakeRepr(c, g, outs, cb, 'o')
                        try: B = SteerableKernelBasis(opaque_class(c), ri, ro)
                        except empty():
                            c.holds(not any((i, o) in DIMS for i in ins for o in outs), 'empty only without solutions'); return
                        A = np.empty((1, 2), object); A[0, 0] = c.real('x'); A[0, 1] = c.real('y')
                        K = B.sample(A)
                        want = []
                        pi = 0
                        for ii, i in enumerate(ins):
                            po = 0
                            for oo, o in enumerate(outs):
                                for b in range(DIMS.get((i, o), 0)):
                                    E = np.empty((ro.size, ri.size, 2), object); E[...] = lift(0)
                                    for x in np.ndindex(SIZES[o], SIZES[i], 2): E[po + x[0], pi + x[1], x[2]] = c.real('K_%s%s_%d%d%d_%d' % (i, o, x[0], x[1], b, x[2]))
                                    M = np.stack([mm(mm(ro.change_of_basis, E[..., p]), ri.change_of_basis_inv) for p in (0, 1)], axis=-1)
                                    want.append(((ii, oo, b), M))
                                po += SIZES[o]
                            pi += SIZES[i]
                        c.holds(B.dim == len(want) and len(B) == len(want), 'number of elements')
                        c.holds(tuple(B.shape) == (ro.size, ri.size) and K.shape == (ro.size, ri.size, B.dim, 2), 'reported shape')
                        L = list(B)
                        c.holds(len(L) == B.dim, 'iteration yields every element')
                        seen = set()
                        W = dict(want)
                        for n in range(B.dim):
                            d = B[n]
                            c.holds(d == L[n], 'indexing and iteration agree')
                            k = (d['in_irrep_idx'], d['out_irrep_idx'], d['inner_idx'])
                            c.holds(k in W and k not in seen, 'every solution of every pair of irreps once'); seen.add(k)
                            c.holds((d['in_irrep'], d['out_irrep'], d['idx'], d['frequency'], tuple(d['shape'])) == (ins[k[0]], outs[k[1]], n, '%s%s%d' % (ins[k[0]], outs[k[1]], k[2]), (SIZES[outs[k[1]]], SIZES[ins[k[0]]])), 'description')
                            c.eq(K[:, :, n, :], W[k], 'element is the solution in the representation basis')
                        out = np.empty(K.shape, object); out[...] = 5
                        B.sample(A, out=out)
                        c.eq(out, K, 'the given array is filled')
                prove(t, 'SteerableKernelBasis %s -> %s%s%s' % ('+'.join(ins), '+'.join(outs), ' A' if ca else '', ' B' if cb else ''), [], comp, replay, maxpaths=2000)


def polar(t):
    """PolarBasis and GaussianRadialProfile: element (ring, b) at (r cos phi, r sin phi) is exp(-(r-R)^2 / 2 s^2) K_b(phi); at the origin the angular part is sampled at nan"""
    def replay(m):
        from e2cnn.kernels import GaussianRadialProfile, PolarBasis
        from vk import zoo
        from checks import c06, c07
        sp = zoo.spaces(2)[3]
        a = sp.G.regular_representation if hasattr(sp.G, 'regular_representation') and sp.G.order() > 0 else sp.G.trivial_representation
        B = c06.basis(t, sp, a, a, [.5, 2.], [.5, .4], maximum_frequency=3)
        c07.describe(t, sp, a, a, B, [.5, 2.], [.5, .4], 3)
        c06.constraint(t, sp, a, a, B, t.rng().uniform(-2, 2, (2, 9)), sp.elements(t.rng())[:6])
    from e2cnn.kernels.basis import KernelBasis

    def pol(c):
        from e2cnn.kernels.basis import GaussianRadialProfile, PolarBasis
        with env():
            R = [c.real('R%d' % i, 0) for i in range(3)]; sg = [c.real('s%d' % i) for i in range(3)]
            for x in sg: c.assume(x, '>')
            mu = [c.int('mu%d' % i) for i in range(2)]

            class Ang(KernelBasis):
                """arbitrary angular functions of integer frequency"""
                def __init__(self): super().__init__(2, (2, 3))
                def at(self, o, i, b, a):
                    return c.real('o%d%d%d' % (o, i, b)) if not isinstance(a, S) and math.isnan(a) else c.real('p%d%d%d' % (o, i, b)) * (mu[b] * a).cos() + c.real('q%d%d%d' % (o, i, b)) * (mu[b] * a).sin()
                def sample(self, angles, out=None):
                    sh = self.shape + (2, angles.shape[1])
                    if out is None: out = np.empty(sh, object)
                    for x in np.ndindex(*sh): out[x] = self.at(*x[:3], angles[0, x[3]])
                    return out
                def __getitem__(self, b): return dict(frequency=b, idx=b)
                def __hash__(self): return 1
            ang = Ang()
            B = PolarBasis(GaussianRadialProfile(R, sg), ang)
            c.holds(B.dim == 6 and len(B) == 6 and tuple(B.shape) == (2, 3), 'dimension')
            P = np.empty((2, 3), object)
            rs, ph = [], []
            for i in range(2):
                r = c.real('r%d' % i); c.assume(r - Fr(1, 10 ** 8), '>'); f = c.pi * c.real('phi%d' % i)
                P[:, i] = r * f.cos(), r * f.sin(); rs.append(r); ph.append(f)
            P[:, 2] = lift(0), lift(0); rs.append(lift(0)); ph.append(float('nan'))
            K = B.sample(P)
            c.holds(K.shape == (2, 3, 6, 3), 'sampled shape')
            L = list(B)
            c.holds(len(L) == 6, 'iteration yields every element')
            seen = set()
            for n in range(6):
                d = B[n]
                c.holds(all(L[n][k] is d[k] or L[n][k] == d[k] for k in d) and set(L[n]) == set(d), 'indexing and iteration agree')
                k = (d['idx1'], d['idx2']); c.holds(k not in seen and d['idx'] == n, 'each ring with each angular solution once'); seen.add(k)
                c.eq([d['radius'], d['sigma']], [R[k[0]], sg[k[0]]], 'described ring'); c.holds(d['frequency'] == k[1], 'described angular part')
                for x in np.ndindex(2, 3, 3):
                    r = rs[x[2]]
                    prof = (-((R[k[0]] - r) ** 2) / (2 * sg[k[0]] ** 2)).exp()
                    c.eq(K[x[0], x[1], n, x[2]], prof * ang.at(x[0], x[1], k[1], ph[x[2]]), 'value of the polar combination')
            out = np.empty(K.shape, object); out[...] = 5
            K2 = B.sample(P, out=out)
            for x in np.ndindex(*K.shape):
                c.eq(out[x], K[x], 'the given array is filled'); c.eq(K2[x], K[x], 'result with a given array')
    prove(t, 'PolarBasis', [], pol, replay)


def pairs(kind): return [(a, b) for a in FAM[kind] for b in FAM[kind]]


def build_c06(ctx):
    for kind in CLS:
        for ci, co in pairs(kind): ctx.task('contract steerability[%s %s %s]' % (kind, ci, co), 'proof')(lambda t, kind=kind, ci=ci, co=co: run_c06(t, kind, ci, co))
    ctx.task('contract composition', 'proof')(composed)
    ctx.task('contract polar', 'proof')(polar)


# ---------------------------------------------------------------- C07
class KERNELS:
    """driver of the completeness contract for the kernels"""
    env = staticmethod(lambda offsets, axis: env(offsets))
    solution, sample, origin, label = staticmethod(solution), staticmethod(lambda B, A: B.sample(A)), True, ''


def run_c07(t, kind, ci, co, drv=KERNELS):
    from checks import c07

    def replay(m):
        sp, a, b = concrete(kind, m, ci, co)
        mu0 = int(m['mu0']) if 'mu0' in m else int(m.get('r', 0)) + int(m.get('Q', 0)) * (sp.spec[1] or 1)
        if mu0 > 60: raise Undecided('model too large to replay')
        if drv is not KERNELS: return drv.replay(t, kind, ci, co, m, mu0)
        F = c07.maxfreq(sp, a, b) if kind in ('SO2', 'O2') else max(mu0, 1)
        B = c07.basis(t, sp, a, b, [1., 2.5], [.5, 1.], **({} if kind in ('SO2', 'O2') else dict(maximum_frequency=F)))
        t.at(space=sp.key, in_repr=a.name, out_repr=b.name, F=F)
        want = c07.nullity(sp, a, b, F)
        t.check((0 if B is None else B.dim) == 2 * want, 'number of elements differs from the dimension of the solution space', got=0 if B is None else B.dim, expected=2 * want)
        if B is None: return
        phi = np.arange(64) * gr.TAU / 64 + 0.05
        Z = B.sample(np.concatenate([np.stack([np.cos(phi), np.sin(phi)]) * r for r in (.7, 1.4, 2.2)], axis=1)).transpose(2, 0, 1, 3).reshape(B.dim, -1)
        t.check(np.linalg.matrix_rank(Z / np.linalg.norm(Z, axis=1, keepdims=True), tol=1e-6) == B.dim, 'elements are linearly dependent')
        if F < 30: c07.describe(t, sp, a, b, B, [1., 2.5], [.5, 1.], F)

    for zero in (True, False):
        def complete(c):
            # mu0 = r + Q N with 0 <= r < N
            def frequency(N):
                if zero: return lift(0), lift(0), lift(0)
                if N is None:
                    m = c.int('mu0', 1); return m, m, lift(0)
                r, Q = c.int('r', 0), c.int('Q', 0)
                c.assume(N - r, '>'); c.assume(r + Q * N - 1)
                return r + Q * N, r, Q

            def steps(y, N):
                """j with y = j N, or None; -2 N < y < 2 N"""
                y = lift(y)
                if N is None: return 0 if y == 0 else None
                if not (c.run.entails(sym.cleared(lift(2 * N) - y) > 0) and c.run.entails(sym.cleared(lift(2 * N) + y) > 0)): raise Undecided('residue not bounded')
                for j in (0, 1, -1):
                    if y == j * N: return j
                return None

            def offsets(base_frequency, N, maximum_offset=None, maximum_frequency=None, non_negative=False):
                # exactly the offsets with |base + j N| = mu0
                for s in ((1,) if zero else (1, -1)):
                    if s < 0 and non_negative: continue
                    if kind == 'F': yield s * mu[0]; continue
                    j = steps(s * mu[1] - base_frequency, N)
                    if j is not None: yield s * mu[2] + j
            axis = c.pi * c.real('axis')
            with drv.env(offsets, axis):
                N, g, ri, ro = setup(c, kind, ci, co)
                mu = frequency(N)
                mu0 = mu[0]
                try: B = drv.solution(kind, g, ri, ro, axis, **({} if kind in ('SO2', 'O2') else dict(max_frequency=mu0)))
                except empty(): B = None
                ex = lambda case, nm: [0] if case in ('0', 'flip') else [lift(N) // 2] if halved(case) else [S.sym(nm, 'int'), -S.sym(nm, 'int')]
                if kind == 'F':
                    want = 1 if not zero else (1 if ci == co else 0)
                else:
                    cnt = 0
                    for a in ex(ci, 'n'):
                        for b in ex(co, 'm'):
                            for d in ([0] if zero else [mu[1], -mu[1]]):
                                if steps(a + b + d, N) is not None: cnt += 1
                    if kind in ('C', 'SO2'): want = cnt
                    elif zero and ci != '2' and co != '2': want = 1 if ci == co else 0
                    else:
                        c.holds(cnt % 2 == 0, 'dimension is an integer'); want = cnt // 2
                # elements of frequency mu0
                mine = []
                for i in range(B.dim if B is not None else 0):
                    fr = lift(B[i]['frequency'])
                    c.holds(B[i]['idx'] == i, 'index in the description')
                    # for the continuous groups the frequencies are fixed by the irreps: keep those that are +-mu0
                    if bool(fr == mu0) or bool(fr == -mu0): mine.append(i)
                    else: c.holds(kind in ('SO2', 'O2'), 'frequency of an element is base + offset * N')
                c.holds(len(mine) == want, 'number of elements of a frequency equals the dimension of the solution space')
                if not mine: return
                phi, de = c.real('phi'), c.real('delta')
                A = np.empty((1, 4 if drv.origin else 3), object); A[0, 0] = phi; A[0, 1] = phi + de; A[0, 2] = phi - de
                if drv.origin: A[0, 3] = float('nan')
                K = drv.sample(B, A)
                G = [[None] * len(mine) for _ in mine]
                for x, i in enumerate(mine):
                    c.eq(K[:, :, i, 1] + K[:, :, i, 2], 2 * (mu0 * de).cos() * K[:, :, i, 0], 'the element has the described frequency')
                    if zero and drv.origin: c.eq(K[:, :, i, 3], K[:, :, i, 0], 'an invariant element keeps its value at the origin')
                    for y, j in enumerate(mine):
                        p = S({})
                        for o in np.ndindex(ro.size, ri.size): p = p + lift(K[o][i, 0]) * lift(K[o][j, 0])
                        # average over the circle: the terms that do not depend on the angle
                        p = p.n()
                        av = S({k: v for k, v in p.t.items() if k[0] is None or not any(s == 'phi' for mo, _ in k[0] for s, _ in mo)})
                        v = av.n().value()
                        if v is None: raise Undecided('Gram matrix is not constant: ' + av.show())
                        G[x][y] = v
                c.holds(fdet(G) != 0, 'elements of a frequency are linearly independent (Gram determinant)')
        prove(t, '%sdimension %s in %s out %s %s' % (drv.label, kind, ci, co, 'frequency 0' if zero else 'frequency > 0'), [], complete, replay, maxpaths=600)


def fdet(G):
    """determinant over the rationals"""
    G = [list(r) for r in G]; n = len(G); d = Fr(1)
    for i in range(n):
        p = next((r for r in range(i, n) if G[r][i] != 0), None)
        if p is None: return Fr(0)
        if p != i: G[i], G[p] = G[p], G[i]; d = -d
        d *= G[i][i]
        for r in range(i + 1, n):
            f = G[r][i] / G[i][i]
            if f: G[r] = [x - f * y for x, y in zip(G[r], G[i])]
    return d


def iterator(t):
    """offset_iterator yields exactly the integers j with |base + j N| <= F, |j| <= O (and base + j N >= 0 when asked), each once"""
    def replay(m):
        from e2cnn.kernels.utils import offset_iterator
        N, b = int(m['N']), int(m['base'])
        F, O = m.get('F'), m.get('O')
        if max(abs(int(x)) for x in (N, b, F or 0, O or 0)) > 3000: raise Undecided('model too large')
        for nn in (False, True):
            got = sorted(offset_iterator(b, N, O, F, nn))
            rng_ = range(-9000, 9001)
            want = [j for j in rng_ if (O is None or abs(j) <= O) and (F is None or abs(b + j * N) <= F) and (not nn or b + j * N >= 0)]
            if len(got) > 9000: raise Undecided('model too large')
            t.check(got == want, 'offsets', base=b, N=N, max_offset=O, max_frequency=F, non_negative=nn, got=got[:20], expected=want[:20])
    for lim in ('F', 'O', 'FO'):
        for nn in (False, True):
            def it(c):
                from e2cnn.kernels.utils import offset_iterator
                N, b = c.int('N', 1), c.int('base')
                F = c.int('F', 0) if 'F' in lim else None
                O = c.int('O', 0) if 'O' in lim else None
                if F is None: c.assume(10000 - O)
                made = []

                def srange(lo, hi=None, step=1):
                    if hi is None: lo, hi = 0, lo
                    if step != 1: raise Undecided('range with a step')
                    lo, hi = lift(lo), lift(hi)
                    if not (lo.n().is_int() and hi.n().is_int()): raise Undecided('range bounds not visibly integers')
                    j = c.int('j%d' % len(made))
                    made.append((lo, hi, j))
                    if not CUR_le(j, lo, hi): return
                    yield j

                def CUR_le(j, lo, hi):
                    c.assume(j - lo); c.assume(hi - j, '>')
                    return True
                # arbitrary j0 within the limits
                with env(None, range=srange):
                    which = c.int('which', 0, 1)
                    gen = list(offset_iterator(b, N, O, F, nn)) if which == 0 else None
                    if gen is not None:
                        c.holds(len(gen) == 1, 'one value per step')
                        j = lift(gen[0]); mu = b + j * N
                        for lo, hi, x in made: c.mulpos(x - lo, N); c.mulpos(hi - 1 - x, N)
                        if F is not None: c.ge(F, mu, 'frequency within the limit'); c.ge(mu, -F, 'frequency within the limit')
                        if O is not None: c.ge(O, j, 'offset within the limit'); c.ge(j, -O, 'offset within the limit')
                        if nn: c.ge(mu, 0, 'frequency not negative')
                        c.eq(j, made[0][2], 'the loop variable is yielded')
                        return
                    # completeness: the range contains every admissible offset
                    j0 = c.int('j0'); mu = b + j0 * N
                    if F is not None: c.assume(F - mu); c.assume(F + mu)
                    if O is not None: c.assume(O - j0); c.assume(O + j0)
                    if nn: c.assume(mu)
                    b2 = []
                    def rec(lo, hi=None, step=1):
                        b2.append((lift(lo), lift(hi))); return iter(())
                with env(None, range=rec):
                    list(offset_iterator(b, N, O, F, nn))
                    c.holds(len(b2) == 1, 'one loop')
                    lo, hi = b2[0]
                    # case split for the solver: multiples of N
                    if j0 < lo: c.mulpos(lo - 1 - j0, N)
                    elif j0 >= hi: c.mulpos(j0 - hi, N)
                    c.ge(j0, lo, 'no admissible offset below the range'); c.gt(hi, j0, 'no admissible offset above the range')
            prove(t, 'offset_iterator limits %s%s' % (lim, ' non-negative' if nn else ''), [], it, replay)


def build_c07(ctx):
    ctx.task('contract offset_iterator', 'proof')(iterator)
    for kind in CLS:
        for ci, co in pairs(kind): ctx.task('contract complete[%s %s %s]' % (kind, ci, co), 'proof')(lambda t, kind=kind, ci=ci, co=co: run_c07(t, kind, ci, co))
    ctx.task('contract composition', 'proof')(composed)
    ctx.task('contract polar', 'proof')(polar)
