"""C18: typed tensors and field types keep data and type consistent."""
from vk import groups as gr, zoo, mods, catalog
import numpy as np, math, copy, itertools
PROPERTY = 'C18'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the arithmetic, slicing, splitting and concatenation of GeometricTensor executed on symbolic tensors, every channel proved to be the stated one; offsets of FieldType '
               'proved with symbolic field sizes. Bounded layer: random operation sequences compared with raw tensors and a list-of-blocks oracle.')
TRUSTED = ['torch indexing and elementwise arithmetic']
ASSUMPTIONS = ['transform()/transform_fibers() compute in float32 (their documented result type)']
BOUND = 'spaces of vk/zoo.py, up to 7 fields, index expressions over all axes, 2 to 6 dimensional tensors'


def same(t, gt, rs, data, what, **k):
    """typed tensor holds exactly these fields and data"""
    t.check(list(gt.type.representations) == list(rs) and gt.type.size == sum(r.size for r in rs), what + ': wrong type', got=[r.name for r in gt.type.representations], expected=[r.name for r in rs], **k)
    t.check(gt.tensor.shape[1] == gt.type.size, what + ': channels do not match the type', **k)
    t.close(gt.tensor, data, what + ': wrong data', 1e-6, **k)
    t.check(tuple(gt.shape) == tuple(gt.tensor.shape) == tuple(gt.size()), what + ': shape')


def chans(rs, idx):
    pos = mods.offsets(rs)
    return [c for i in idx for c in range(*pos[i])]


def fieldtypes(t, i, lv):
    import torch
    from e2cnn import nn
    import e2cnn.group as g
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    E = E if len(E) <= 6 else [E[j] for j in rng.choice(len(E), 6, replace=False)]
    R = [r for r in mods.allreps(sp, rng) if r.size <= 8]
    for k in range(6 if lv == 1 else 25):
        n = int(rng.randint(1, 8)); rs = zoo.mixed(R, rng, n)
        L = list(rs); ft = nn.FieldType(sp.gs, L)
        t.at(space=sp.key, fields=[r.name for r in rs])
        pos = mods.offsets(rs)
        t.check(ft.representations == rs and len(ft) == n and list(iter(ft)) == rs and ft.size == pos[-1][1], 'sequence of fields')
        t.check(ft.fields_names() == [r.name for r in rs] and ft.gspace == sp.gs and ft.fibergroup == sp.G, 'names / group')
        t.check([int(a) for a in ft.fields_start] == [p[0] for p in pos] and [int(a) for a in ft.fields_end] == [p[1] for p in pos], 'offsets of the fields')
        t.check(list(ft.irreps) == [x for r in rs for x in r.irreps], 'irreps')
        C = zoo.blkdiag([np.asarray(r.change_of_basis) for r in rs]); Ci = zoo.blkdiag([np.asarray(r.change_of_basis_inv) for r in rs])
        t.close(ft.change_of_basis.todense(), C, 'change of basis', 1e-9); t.close(ft.change_of_basis_inv.todense(), Ci, 'inverse change of basis', 1e-9)
        t.close(ft.get_dense_change_of_basis(), C, 'dense change of basis', 1e-5); t.close(ft.get_dense_change_of_basis_inv(), Ci, 'dense inverse change of basis', 1e-5)
        rep = ft.representation
        for e in E: t.close(rep(e), zoo.rho(rs, e), 'representation of the type is not the direct sum of its fields', 1e-6, g=e)
        t.check(rep.size == ft.size and rep.group == sp.G, 'size of the representation of the type')
        # derived types
        idx = [int(j) for j in rng.randint(0, n, int(rng.randint(1, 6)))]
        t.check(ft.index_select(idx).representations == [rs[j] for j in idx] and ft.index_select(idx).gspace == sp.gs, 'index_select')
        for bad in ([n], [-1], idx + [n + 3]): t.raises(lambda: ft.index_select(bad), 'index_select out of range')
        labels = [str(j) for j in rng.randint(0, 3, n)]
        gl = ft.group_by_labels(labels)
        t.check(set(gl) == set(labels) and all(gl[l].representations == [rs[j] for j in range(n) if labels[j] == l] for l in gl), 'group_by_labels')
        so = ft.sorted()
        t.check([id(r) for r in so.representations] == [id(rs[j]) for j in sorted(range(n), key=lambda j: rs[j].size)], 'sorted')
        rs2 = zoo.mixed(R, rng, int(rng.randint(1, 4))); f2 = zoo.fieldtype(sp, rs2)
        t.check((ft + f2).representations == rs + rs2 and ft.representations == rs and f2.representations == rs2, 'sum of types')
        # equality
        t.check(nn.FieldType(sp.gs, list(rs)) == ft and hash(nn.FieldType(sp.gs, list(rs))) == hash(ft), 'equal arguments, unequal types')
        t.check(not (nn.FieldType(sp.gs, rs + [R[0]]) == ft) and nn.FieldType(sp.gs, rs + [R[0]]) != ft, 'types of different length are equal')
        if rs != rs[::-1]: t.check(nn.FieldType(sp.gs, rs[::-1]) != ft, 'order of the fields is ignored by the equality')
        t.check(ft != 3 and ft != None, 'equality with other objects')
        # mutation of the argument / results
        L.append(R[0]); t.check(ft.representations == rs and ft.size == pos[-1][1], 'the type shares the list it was built from')
        t.raises(lambda: nn.FieldType(sp.gs, []), 'empty type')
        # restriction
        ids = catalog.restrict_ids(sp)
        if ids:
            id_ = ids[int(rng.randint(len(ids)))]
            fr = ft.restrict(id_); sub, par, _ = sp.gs.restrict(id_)
            t.check(fr.gspace == sub and len(fr) == n and [r.size for r in fr.representations] == [r.size for r in rs], 'restricted type')
            for h in list(sub.testing_elements)[:4]: t.close(zoo.rho(fr.representations, h), zoo.rho(rs, par(h)), 'restricted fields', 1e-6, h=h, id=id_)
        other = zoo.Space('R', 11)
        t.raises(lambda: nn.FieldType(sp.gs, [other.G.irrep(1)]), 'representation of another group')
        t.raises(lambda: ft + zoo.fieldtype(other, [other.G.irrep(1)]), 'sum of types of different spaces')


def index_exprs(rng, n, nd, shape):
    """random basic index expressions: (python index for the typed tensor, per-axis spec)"""
    def ax(m, field=False):
        k = int(rng.randint(6))
        if k == 0: return slice(None)
        if k == 1: return int(rng.randint(-m, m))
        if k == 2:
            a = int(rng.randint(0, m)); b = int(rng.randint(a + 1, m + 1)); return slice(a, b)
        if k == 3: return slice(None, None, int(rng.randint(1, 4)))
        if k == 4: return slice(-int(rng.randint(1, m + 1)), None)
        a = int(rng.randint(0, m))
        return slice(a, None, 2) if not field or rng.rand() < .5 else slice(None, None, -1)
    full = [ax(shape[0])] + [ax(n, True)] + [ax(s) for s in shape[2:]]
    m = int(rng.randint(1, nd + 1))
    kind = int(rng.randint(4))
    if kind == 0: return tuple(full), full
    if kind == 1: return tuple(full[:m]), full[:m] + [slice(None)] * (nd - m)
    if kind == 2:
        j = int(rng.randint(0, nd)); q = int(rng.randint(j + 1, nd + 1))     # ellipsis replaces axes j..q (at least one)
        return tuple(full[:j]) + (Ellipsis,) + tuple(full[q:]), full[:j] + [slice(None)] * (q - j) + full[q:]
    return full[0], [full[0]] + [slice(None)] * (nd - 1)


def apply_index(x, rs, spec):
    """oracle: returns (data, fields); integers keep the axis"""
    fields = range(len(rs))
    s = spec[1]
    f = [fields[s]] if isinstance(s, int) else list(fields[s])
    y = x
    for a, sp_ in enumerate(spec):
        if a == 1: y = y[:, chans(rs, f)]
        else:
            i = [range(x.shape[a])[sp_]] if isinstance(sp_, int) else list(range(x.shape[a])[sp_])
            y = np.take(y, i, axis=a)
    return y, [rs[j] for j in f]


def tensors(t, i, lv):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 1)
    E = E if len(E) <= 4 else [E[j] for j in rng.choice(len(E), 4, replace=False)]
    R = [r for r in mods.allreps(sp, rng) if r.size <= 6]
    for k in range(5 if lv == 1 else 20):
        n = int(rng.randint(1, 8)); rs = zoo.mixed(R, rng, n); ft = zoo.fieldtype(sp, rs)
        nd = int(rng.choice([2, 3, 4, 4, 4, 5]))
        shape = [int(rng.randint(1, 5)), ft.size] + [int(rng.randint(1, 6)) for _ in range(nd - 2)]
        mk = lambda: rng.randn(*shape).astype('float32')
        a, b = mk(), mk()
        t.at(space=sp.key, fields=[r.name for r in rs], shape=shape)
        ga, gb = zoo.geo(torch.as_tensor(a.copy()), ft), zoo.geo(torch.as_tensor(b.copy()), nn.FieldType(sp.gs, list(rs)))
        A, B = a.astype(float), b.astype(float)
        unchanged = lambda what: (t.close(ga.tensor, a, what + ' changed its operand', 0.), t.close(gb.tensor, b, what + ' changed its operand', 0.), t.check(ga.type == ft and gb.type == ft, what + ' changed the type of its operand'))
        same(t, ga + gb, rs, A + B, 'sum'); same(t, ga - gb, rs, A - B, 'difference'); unchanged('+/-')
        for c in (2.5, -1., 0.):
            same(t, ga * c, rs, A * c, 'scaling'); same(t, c * ga, rs, A * c, 'scaling from the left')
            same(t, ga * torch.tensor(c), rs, A * c, 'scaling by a tensor'); same(t, ga * torch.tensor([c]), rs, A * c, 'scaling by a one-element tensor')
        unchanged('*')
        # in place
        for op, f in [('+=', lambda g: g.__iadd__(gb)), ('-=', lambda g: g.__isub__(gb)), ('*=', lambda g: g.__imul__(1.5)), ('*= tensor', lambda g: g.__imul__(torch.tensor([1.5])))]:
            raw = torch.as_tensor(a.copy()); g = zoo.geo(raw, ft); r = f(g)
            exp = {'+=': A + B, '-=': A - B}.get(op, A * 1.5)
            t.check(r is g and g.tensor is raw, op + ' is not in place'); same(t, g, rs, exp, op)
        unchanged('in-place operators (second operand)')
        if n > 1 or True:
            orev = zoo.fieldtype(sp, rs + [R[0]])
            go = zoo.geo(torch.zeros([shape[0], orev.size] + shape[2:]), orev)
            for op in ('__add__', '__sub__', '__iadd__', '__isub__'): t.raises(lambda: getattr(ga, op)(go), op + ' of different types', AssertionError)
            if rs != rs[::-1]:
                gr_ = zoo.geo(torch.as_tensor(a.copy()), zoo.fieldtype(sp, rs[::-1]))
                for op in ('__add__', '__sub__', '__iadd__', '__isub__'): t.raises(lambda: getattr(ga, op)(gr_), op + ' of types with other field order', AssertionError)
            unchanged('rejected operation')
        for bad in (torch.ones(ft.size), torch.as_tensor(a)):
            if bad.numel() != 1:
                t.raises(lambda: ga * bad, 'scaling by a non-scalar', AssertionError); t.raises(lambda: ga.__imul__(bad), 'scaling by a non-scalar', AssertionError)
        # construction
        for d in (-1, 1):
            if ft.size + d > 0: t.raises(lambda: zoo.geo(torch.zeros([2, ft.size + d] + shape[2:]), ft), 'tensor whose channels do not match its type')
        t.raises(lambda: zoo.geo(torch.zeros(ft.size), ft), 'one-dimensional tensor'); t.raises(lambda: zoo.geo(a, ft), 'numpy array')
        # split
        for _ in range(3):
            br = sorted(int(j) for j in rng.choice(np.arange(1, n), int(rng.randint(0, n)), replace=False)) if n > 1 else []
            for arg in ([list(br)] + ([None] if _ == 0 else [tuple(br)] if False else [])):
                bb = list(range(1, n)) if arg is None else br
                keep = list(arg) if arg is not None else None
                parts = ga.split(arg)
                t.check(arg is None or arg == keep, 'split changed its argument')
                ends = bb + [n]; st = 0
                t.check(len(parts) == len(ends), 'number of parts', breaks=bb)
                for p, e in zip(parts, ends):
                    same(t, p, rs[st:e], A[:, chans(rs, range(st, e))], 'split', breaks=bb); st = e
                j = nn.tensor_directsum(parts)
                same(t, j, rs, A, 'concatenation of the parts')
        t.raises(lambda: ga.split([n + 1]), 'break out of range') if True else None
        if n > 2: t.raises(lambda: ga.split([2, 1]), 'decreasing breaks')
        unchanged('split')
        # slicing
        for _ in range(8 if lv == 1 else 20):
            ix, spec = index_exprs(rng, n, nd, shape)
            t.at(space=sp.key, fields=[r.name for r in rs], shape=shape, index=ix)
            exp, ef = apply_index(A, rs, spec)
            g = ga[ix]
            same(t, g, ef, exp, 'slicing')
        unchanged('slicing')
        for bad in ((slice(None), n), (slice(None), -n - 1), (slice(None), slice(n, None)), (slice(None), slice(n + 3, n + 5))):
            t.raises(lambda: ga[bad], 'field index out of range', Exception)
        t.raises(lambda: ga[tuple([0] * (nd + 1))], 'too many indices')
        # direct sums
        parts, exp, fr = [], [], []
        for _ in range(int(rng.randint(1, 4))):
            q = zoo.mixed(R, rng, int(rng.randint(1, 4))); fq = zoo.fieldtype(sp, q); d = rng.randn(*([shape[0], fq.size] + shape[2:])).astype('float32')
            parts.append(zoo.geo(torch.as_tensor(d.copy()), fq)); exp.append(d); fr += q
        lst = list(parts); js = nn.tensor_directsum(parts)
        t.check(parts == lst, 'direct sum changed its argument'); same(t, js, fr, np.concatenate(exp, 1), 'direct sum')
        for p, d in zip(parts, exp): t.close(p.tensor, d, 'direct sum changed an operand', 0.)
        wrong = zoo.geo(torch.zeros([shape[0] + 1, ft.size] + shape[2:]), ft)
        t.raises(lambda: nn.tensor_directsum([ga, wrong]), 'direct sum of different batch sizes')
        o = zoo.Space('R', 11); fo = zoo.fieldtype(o, [o.G.irrep(1)])
        t.raises(lambda: nn.tensor_directsum([ga, zoo.geo(torch.zeros([shape[0], 2] + shape[2:]), fo)]), 'direct sum over different spaces')
        if nd > 2:
            sh2 = list(shape); sh2[2] += 1
            t.raises(lambda: nn.tensor_directsum([ga, zoo.geo(torch.zeros(sh2), ft)]), 'direct sum of different grids')
        # moving, restricting
        g64 = ga.to(torch.float64)
        t.check(g64.tensor.dtype == torch.float64 and ga.tensor.dtype == torch.float32, 'to(dtype)'); same(t, g64, rs, A, 'to')
        same(t, ga.to('cpu'), rs, A, 'to(device)')
        ids = catalog.restrict_ids(sp)
        if ids:
            id_ = ids[int(rng.randint(len(ids)))]; g = ga.restrict(id_)
            t.check(g.type == ft.restrict(id_), 'restricted type'); t.close(g.tensor, a, 'restriction changed the data', 0.)
        if nd == 4:
            for e in E:
                g = ga.transform_fibers(e)
                t.check(g.type == ft, 'type of a transformed tensor'); t.close(g.tensor, mods.fib(a, rs, e), 'transform_fibers', 1e-4, g=e)
            if shape[2] == shape[3]:
                for e in sp.grid_elements()[:5]:
                    g = ga.transform(e); t.check(g.type == ft, 'type'); t.close(g.tensor, zoo.act(a.astype(float), zoo.rho(rs, e), sp.M(e)), 'transform', 1e-4, g=e)
            unchanged('transform')
    t.sample(dict(space=sp.key, shape=shape, index=ix))


def exhaustive(t, _):
    """all start/stop/step slices of the field axis for a type with fields of different sizes"""
    import torch
    sp = zoo.Space('R', 4); G = sp.G
    rs = [G.irrep(1), G.trivial_representation, G.regular_representation, G.irrep(2), G.irrep(1)]
    ft = zoo.fieldtype(sp, rs); n = len(rs)
    x = np.arange(2 * ft.size * 2 * 2).reshape(2, ft.size, 2, 2).astype('float32'); g = zoo.geo(torch.as_tensor(x), ft)
    for a, b, s in itertools.product([None] + list(range(-7, 8)), [None] + list(range(-7, 8)), [None, 1, 2, 3, 5, -1, -2]):
        sl = slice(a, b, s); idx = list(range(n))[sl]
        t.at(index=sl)
        if not idx: t.raises(lambda: g[:, sl], 'empty selection of fields'); continue
        y = g[:, sl]
        same(t, y, [rs[j] for j in idx], x[:, chans(rs, idx)], 'slicing the field axis')
    for j in range(-n, n): same(t, g[:, j], [rs[j]], x[:, chans(rs, [j % n])], 'selecting one field')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    key = lambda i: '%d:%s' % (i, S[i].key)
    ctx.cases('fieldtypes', range(len(S)), lambda t, i: fieldtypes(t, i, lv), key)
    ctx.cases('tensors', range(len(S)), lambda t, i: tensors(t, i, lv), key)
    ctx.cases('field slices', [0], exhaustive)
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c18(ctx)
    from vk import ded_types
    ded_types.build(ctx)
