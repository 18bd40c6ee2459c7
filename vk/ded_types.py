"""Contracts on FieldType and on what GSpace delegates to its fibre group (C18, C08), for an arbitrary group.

The representations are those of the contracts of C04: irreps with free symbolic matrices, arbitrary invertible changes of basis.  The space is an instance of GSpace of which only the fibre group, the
action on images (opaque) and restriction are known.  Stand-ins: tensors handed to FieldType.transform are boxes around arrays of symbols (moving them between devices or changing their precision is the
identity: floats are reals)."""
import contextlib, itertools
import numpy as np
from . import sym, ded_reps as dr
from .core import Fail, Undecided
from .ded_reps import World, rep, blk, SIZES, perms


class Arr(np.ndarray):
    """array of symbols: a sparse or dense matrix, or the pixels of an image"""
    def todense(self): return self
    def toarray(self): return self
    tocsr = tocoo = todense
    def astype(self, *a, **k): return self


def arr(x): return np.asarray(x).view(Arr)


class Box:
    """a torch tensor of symbols"""
    is_cuda, device, dtype, requires_grad = False, 'cpu', 'float', False

    def __init__(self, a): self.a = arr(a); self.shape = self.a.shape; self.ndim = self.a.ndim
    def numpy(self): return self.a
    def me(self, *a, **k): return self
    detach = cpu = to = float = contiguous = type = me
    def clone(self): return Box(self.a.copy())
    def size(self, *a): return self.a.shape[a[0]] if a else self.a.shape
    @property
    def data(self): return self


class Torch:
    float32 = float = 'float'
    def __getattr__(self, k):
        import torch
        return getattr(torch, k)
    def box(self, a, *x, **k): return Box(a.a if isinstance(a, Box) else a)
    FloatTensor = tensor = as_tensor = from_numpy = box


class NpT(type(sym.NP)):
    float32 = float64 = float
    def ascontiguousarray(self, a, *x, **k): return arr(np.asarray(a).copy())


class Sparse(dr._Sparse):
    block_diag = staticmethod(lambda blocks, *a, **k: arr(dr.block_diag(blocks)))


def dense(x):
    if isinstance(x, Box): return np.asarray(x.a)
    if hasattr(x, 'numpy'): x = x.numpy()
    return np.asarray(x.todense() if hasattr(x, 'todense') else x)


@contextlib.contextmanager
def env(c):
    import e2cnn.nn.field_type as m
    if getattr(c, 'concrete', 0):
        yield; return
    with sym.shims([m], sparse=Sparse(), torch=Torch(), np=NpT()): yield


def any_space():
    """an arbitrary space: GSpace itself with an arbitrary fibre group"""
    from e2cnn.gspaces import GSpace
    class AnySpace(GSpace):
        def __init__(self, g, name='X'):
            self.fibergroup, self.dimensionality, self.name, self.basespace = g, 2, name, 'R^2'
        def __eq__(self, o): return self is o
        __hash__ = object.__hash__
    AnySpace.__abstractmethods__ = frozenset()
    return AnySpace


def build(ctx):
    LAY = [[['one']], [['u'], ['one']], [['p', 'one'], ['u'], ['p', 'one']], [['u', 'p'], ['one'], ['q']]]

    def fields(c, w, lay):
        seen, out = {}, []
        for i, names in enumerate(lay):
            key = tuple(names)
            if key not in seen: seen[key] = rep(c, w, names, 'r%d' % i, tuple(reversed(range(sum(SIZES[n] for n in names)))))
            out.append(seen[key])
        return out

    def types(t, lay):
        def contract(c):
            from e2cnn.nn import FieldType
            with env(c):
                w = World(c, SIZES); gs = any_space()(w.g)
                rs = fields(c, w, lay); R = [r for r, _, _ in rs]
                def expect(ft, idx, what):
                    c.holds(ft.gspace is gs and ft.fibergroup is w.g, what + ': space'); c.holds(len(ft.representations) == len(idx) and all(x is R[i] for x, i in zip(ft.representations, idx)), what + ': fields in order')
                    c.holds(ft.size == sum(R[i].size for i in idx), what + ': size'); c.holds(list(ft.irreps) == [n for i in idx for n in lay[i]], what + ': irreps')
                    c.holds(list(ft.fields_names()) == [R[i].name for i in idx], what + ': names')
                    for e in 'ab':
                        want = blk([rs[i][1] @ w.diag(lay[i], e) @ rs[i][2] for i in idx])
                        c.eq(dense(ft.representation(e)), want, what + ': the representation is the direct sum of the fields')
                    c.holds(ft.representation.group is w.g and ft.representation.size == ft.size, what + ': representation')
                    for nm, k in (('change_of_basis', 1), ('change_of_basis_inv', 2)):
                        c.eq(dense(getattr(ft, nm)), blk([rs[i][k] for i in idx]), what + ': ' + nm)
                        c.eq(dense(getattr(ft, 'get_dense_' + nm)()), blk([rs[i][k] for i in idx]), what + ': dense ' + nm)
                n = len(lay)
                ft = FieldType(gs, list(R))
                expect(ft, range(n), 'type')
                expect(ft, range(n), 'type, asked again')
                order = sorted(range(n), key=lambda i: (R[i].size, i))
                expect(ft.sorted(), order, 'sorted')
                expect(ft, range(n), 'type after sorting')
                expect(ft + ft, list(range(n)) * 2, 'sum')
                k = FieldType(gs, list(R))
                c.holds(ft == k and hash(ft) == hash(k), 'equal types have equal hashes')
                w.g.testing_elements = lambda *a, **kw: ['x', 'y']
                c.holds(list(ft.testing_elements) == ['x', 'y'] and list(gs.testing_elements) == ['x', 'y'], 'testing elements are those of the group')
        dr.prove(t, 'FieldType %s' % lay, contract)

    def transform(t, lay):
        def contract(c):
            from e2cnn.nn import FieldType
            with env(c):
                w = World(c, SIZES)
                rs = fields(c, w, lay); R = [r for r, _, _ in rs]
                n = sum(r.size for r in R); conc = getattr(c, 'concrete', 0)
                x = np.empty((2, n, 1, 2), float if conc else object)
                for i in np.ndindex(*x.shape): x[i] = c.real('x%d_%d_%d_%d' % i)
                calls = []
                class Space(any_space()):
                    def _basespace_action(self, input, element):
                        calls.append(element); return np.asarray(input)[..., ::-1] * 2        # any linear map of the pixels
                gs = Space(w.g)
                ft = FieldType(gs, list(R))
                if conc:
                    import torch
                    xt = torch.tensor(x)
                else: xt = Box(x.copy())
                for e in 'aba':
                    del calls[:]
                    rho = blk([a @ w.diag(l, e) @ ai for (_, a, ai), l in zip(rs, lay)])
                    want = np.empty(x.shape, object)
                    for b, o, i, j in np.ndindex(*x.shape): want[b, o, i, j] = 2 * sum((rho[o, k] * x[b, k, i, 1 - j] for k in range(n)), 0)
                    y = ft.transform(xt, e)
                    if conc and not np.allclose(np.asarray(dense(y), float), want.astype(float), rtol=1e-4, atol=1e-4 * np.abs(want.astype(float)).max()): raise Fail('transform: not the field moved and mixed by the element')
                    elif not conc: c.eq(dense(y), want, 'transform: the field is moved and mixed by the element')
                    c.holds(calls == [e], 'transform: the space acts by the element'); c.eq(dense(xt), x, 'transform: input untouched')
        dr.prove(t, 'FieldType.transform %s' % lay, contract)

    def restrict(t, lay):
        def contract(c):
            from e2cnn.nn import FieldType
            with env(c):
                w = World(c, SIZES); h = World(c, SIZES)
                rs = fields(c, w, lay); R = [r for r, _, _ in rs]
                got = []
                sub = {id(r): dr.rep(c, h, lay[i], 's%d' % i, tuple(range(r.size)))[0] for i, r in enumerate(R)}
                w.g.restrict_representation = lambda i, r: (got.append(i), sub[id(r)])[1]
                class Space(any_space()):
                    def restrict(self, i):
                        got.append(i); return target, None, None
                gs, target = Space(w.g), any_space()(h.g, 'Y')
                ft = FieldType(gs, list(R))
                f2 = ft.restrict('some')
                c.holds(f2.gspace is target and len(f2.representations) == len(R) and all(x is sub[id(r)] for x, r in zip(f2.representations, R)), 'restrict: every field is replaced by its restriction, in order')
                c.holds(set(got) == {'some'}, 'restrict: to the subgroup asked for'); c.holds(ft.gspace is gs and all(x is y for x, y in zip(ft.representations, R)), 'restrict: the type is unchanged')
        dr.prove(t, 'FieldType.restrict %s' % lay, contract)

    def delegate(t):
        def contract(c):
            w = World(c, SIZES); g = w.g; gs = any_space()(g)
            log = []
            g.irrep = lambda *a: log.append(('irrep',) + a) or 'I'
            g.quotient_representation = lambda *a: log.append(('quotient',) + a) or 'Q'
            g.induced_representation = lambda *a: log.append(('induced',) + a) or 'J'
            c.holds(gs.irrep(1, 2) == 'I' and gs.quotient_repr((None, 3)) == 'Q' and gs.induced_repr((None, 3), 'r') == 'J', 'representations asked of the space are those of its group')
            c.holds(log == [('irrep', 1, 2), ('quotient', (None, 3)), ('induced', (None, 3), 'r')], 'with the arguments given')
            c.holds(gs.trivial_repr is g.irreps['one'] and gs.irreps is g.irreps and gs.representations is g.representations, 'trivial representation, irreps, representations of the group')
            type(g).regular_representation = property(lambda self: 'R')
            c.holds(gs.regular_repr == 'R', 'regular representation of the group')
        dr.prove(t, 'GSpace', contract)

    for lay in LAY:
        k = ';'.join(','.join(x) for x in lay)
        ctx.task('contract.FieldType of an arbitrary group [%s]' % k, kind='deductive')(lambda t, lay=lay: types(t, lay))
        ctx.task('contract.FieldType.transform [%s]' % k, kind='deductive')(lambda t, lay=lay: transform(t, lay))
        ctx.task('contract.FieldType.restrict [%s]' % k, kind='deductive')(lambda t, lay=lay: restrict(t, lay))
    ctx.task('contract.GSpace delegations', kind='deductive')(delegate)
