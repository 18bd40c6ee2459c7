"""C08: action on the plane and on fields; restriction and equality of symmetry spaces."""
from vk import groups as gr, zoo
import numpy as np, math
PROPERTY = 'C08'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: rotate_array, the base-space actions, restrict, featurefield_action, transform and equality of the spaces executed on a symbolic order, axis, angle and element, images being opaque '
               'up to the isometry applied to them. Bounded layer: exact pixel permutations for every grid-preserving element; smooth test functions for the others; restriction to every subgroup identifier.')
TRUSTED = ['numpy.rot90', 'scipy.ndimage.rotate (interpolation)']
ASSUMPTIONS = ['non-grid angles are resampled by spline interpolation; agreement there is checked up to interpolation error on smooth fields']
BOUND = 'spaces of vk/zoo.py, fields up to 16 channels, images 1..9 pixels wide (grid elements), 41 pixels (other angles)'


def fields(sp, rng, n=3):
    R = zoo.reps(sp.G, sp.spec, rng, 1, 8)
    return [zoo.mixed(R, rng, k) for k in (1, 2, n)]


def grid(t, i):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    E = sp.grid_elements()
    G = sp.G
    for rs in fields(sp, rng):
        ft = zoo.fieldtype(sp, rs)
        for n in (1, 2, 3, 5, 8, 9):
            x = torch.as_tensor(rng.randn(2, ft.size, n, n).astype('float32'))
            x0 = x.clone()
            gt = zoo.geo(x, ft)
            for e in E:
                t.at(space=sp.key, fields=[r.name for r in rs], n=n, g=e)
                rho = zoo.rho(rs, e)
                o = zoo.act(x.double(), rho, sp.M(e))
                y = ft.transform(x, e)
                t.close(y, o, 'transformed field is not the moved and mixed field', 2e-5)
                t.close(gt.transform(e).tensor, o, 'GeometricTensor.transform differs', 2e-5)
                t.check(gt.transform(e).type == ft, 'type changed by a transformation')
                t.close(gt.transform_fibers(e).tensor, torch.einsum('oi,bixy->boxy', torch.as_tensor(rho), x.double()), 'transform_fibers does not mix the channels by the representation', 2e-5)
                z = sp.gs.featurefield_action(x.numpy().astype(float), ft.representation, e)
                t.close(z, o, 'featurefield_action differs', 1e-7)
                t.check(torch.equal(x, x0), 'input modified')
                t.check(y.dtype == x.dtype and y.shape == x.shape, 'dtype or shape changed')
                # result must not alias the input
                y.add_(1.)
                t.check(torch.equal(x, x0), 'transformed field shares memory with the input')
            t.at(space=sp.key, n=n)
            t.close(ft.transform(x, G.identity), x, 'identity changes the field', 1e-6)
        n = 5
        x = rng.randn(2, ft.size, n, n)
        for g in E:
            for h in E:
                t.at(space=sp.key, g=g, h=h)
                a = sp.gs.featurefield_action(sp.gs.featurefield_action(x, ft.representation, h), ft.representation, g)
                b = sp.gs.featurefield_action(x, ft.representation, G.combine(g, h))
                t.close(a, b, 'transforming twice differs from transforming by the product', 1e-7)


def smooth(n, f):
    c = (n - 1) / 2.
    r, q = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    X, Y = (q - c) / c, (c - r) / c
    return f(X, Y)


def angles(t, i):
    """arbitrary elements: transformed smooth bump = bump at the moved position, mixed by the representation"""
    sp = zoo.spaces(2)[i]; rng = t.rng()
    n = 41
    r = sp.G.trivial_representation
    R = zoo.reps(sp.G, sp.spec, rng, 1, 6)
    r2 = R[min(1, len(R) - 1)]
    v = rng.randn(r2.size)
    p0 = np.array([0.35, 0.2])
    bump = lambda p: smooth(n, lambda X, Y: np.exp(-((X - p[0]) ** 2 + (Y - p[1]) ** 2) / (2 * 0.15 ** 2)))
    x = bump(p0)[None, None] * v[None, :, None, None]
    E = sp.elements(rng, 4)
    for e in E[:40]:
        t.at(space=sp.key, g=e)
        y = sp.gs.featurefield_action(x, r2, e)
        o = bump(sp.M(e) @ p0)[None, None] * (np.asarray(r2(e)) @ v)[None, :, None, None]
        t.check(np.abs(y - o).max() < 0.03 * max(1, np.abs(v).max()), 'the element does not move the plane by its isometry', err=float(np.abs(y - o).max()))


def ids(sp):
    if sp.kind == 'T': return [1]
    if sp.kind == 'F': return [1, 2]
    if sp.spec[0] == 'SO2': return [1, 2, 3, 4, 8]
    if sp.spec[0] == 'O2': return [i for i in gr.subgroup_ids(sp.spec) if True]
    return gr.subgroup_ids(sp.spec)


def restriction(t, i):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 6)
    rs = zoo.mixed(R, rng, 3)
    ft = zoo.fieldtype(sp, rs)
    n = 41
    p0 = np.array([0.35, 0.2])
    bump = lambda p: smooth(n, lambda X, Y: np.exp(-((X - p[0]) ** 2 + (Y - p[1]) ** 2) / (2 * 0.15 ** 2)))
    for id in ids(sp):
        t.at(space=sp.key, id=id)
        sub, par, chi = sp.gs.restrict(id)
        sg, par0, chi0 = sp.G.subgroup(id)
        t.check(sub.fibergroup == sg, 'restricted space has another symmetry group', got=sub.fibergroup.name)
        fr = ft.restrict(id)
        t.check(fr.gspace == sub and fr.size == ft.size and len(fr) == len(ft), 'restricted field type')
        H = gr.sub_elements(sp.spec, id, sg, rng)
        if len(H) > 8: H = [H[k] for k in sorted(rng.choice(len(H), 8, replace=False))]
        x = rng.randn(1, ft.size, 7, 7)
        for h in H:
            t.at(space=sp.key, id=id, h=h)
            g = par(h)
            t.check(sp.G.equal(g, par0(h)), 'embedding of the restricted space')
            c = chi(g)
            t.check(c is not None and sg.equal(c, h), 'map back of the restricted space', got=c)
            M = sp.M(g)
            tr = sub.trivial_repr
            if np.allclose(M, np.round(M), atol=1e-9):
                a = sub._basespace_action(x, h) if False else sub.featurefield_action(x, fr.representation, h)
                b = zoo.act(x, zoo.rho(rs, g), M)
                t.close(a, b, 'restricted space moves fields differently from the embedded element', 1e-6)
            else:
                y = sub.featurefield_action(bump(p0)[None, None], tr, h)
                t.check(np.abs(y[0, 0] - bump(M @ p0)).max() < 0.03, 'restricted space moves the plane differently from the embedded element')
        gt = zoo.geo(torch.as_tensor(x.astype('float32')), ft)
        gr_ = gt.restrict(id)
        t.check(gr_.type == fr and torch.equal(gr_.tensor, gt.tensor), 'restricting a tensor changed the data or gave another type')
        # and once more (two-step restriction keeps the geometry)
        sp2 = sub
        s2 = gr.sub_spec(sp.spec, id)
        if s2[0] in ('C', 'D') and type(sub).__name__ != 'TrivialOnR2':
            id2s = [1, 2] if s2[0] == 'F' else gr.subgroup_ids(s2)
        elif s2[0] == 'F': id2s = [1, 2]
        else: id2s = []
        for id2 in id2s[:6]:
            sub2, par2, _ = sub.restrict(id2)
            ssp = ('C', 2) if s2[0] == 'F' else s2
            for h in gr.sub_elements(ssp, id2)[:6]:
                M = sp.M(par(par2(h)))
                t.at(space=sp.key, id=id, id2=id2, h=h)
                y = sub2.featurefield_action(bump(p0)[None, None], sub2.trivial_repr, h)
                t.check(np.abs(y[0, 0] - bump(M @ p0)).max() < 0.03, 'twice restricted space moves the plane differently')


def equality(t, _):
    S, S2 = zoo.spaces(2), zoo.spaces(2)
    for i, a in enumerate(S):
        for j, b in enumerate(S2):
            t.at(a=a.key, b=b.key)
            same = i == j
            t.check(bool(a.gs == b.gs) == same, 'spaces compare equal although they act differently' if not same else 'equal spaces compare different')
            if same: t.check(hash(a.gs) == hash(b.gs), 'equal spaces have different hashes')
            ra, rb = a.G.trivial_representation, b.G.trivial_representation
            if same: t.check(zoo.fieldtype(a, [ra]) == zoo.fieldtype(b, [rb]) and hash(zoo.fieldtype(a, [ra])) == hash(zoo.fieldtype(b, [rb])), 'equal field types')
            else: t.check(not zoo.fieldtype(a, [ra]) == zoo.fieldtype(b, [rb]), 'field types on different spaces compare equal')
    # spaces reached by restriction equal the ones built directly
    from e2cnn import gspaces as gs
    d = gs.FlipRot2dOnR2(8, axis=0.3)
    for id, want in (((None, 4), gs.Rot2dOnR2(4)), ((None, 1), gs.TrivialOnR2()), ((0, 1), gs.Flip2dOnR2(axis=0.3)), ((0, 2), gs.FlipRot2dOnR2(2, axis=0.3))):
        t.at(id=id)
        t.check(d.restrict(id)[0] == want, 'restricted space differs from the one built directly')
    for id in ((1, 1), (3, 1)):
        t.check(not d.restrict(id)[0] == gs.Flip2dOnR2(axis=0.3), 'restriction to another axis compares equal to the original axis')


def build(ctx):
    S = zoo.spaces(2)
    nm = lambda k: '%d:%s' % (k, S[k].key)
    ctx.cases('grid', range(len(S)), grid, nm)
    ctx.cases('angles', range(len(S)), angles, nm)
    ctx.cases('restrict', range(len(S)), restriction, nm)
    ctx.cases('equality', [0], equality)
    try:
        from vk import ded_spaces
    except ImportError:
        return
    ded_spaces.build_c08(ctx)
