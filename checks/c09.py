"""C09: steerable convolutions are equivariant for all weights, equal plain convolutions, invariant bias."""
from vk import groups as gr, zoo, layers
import numpy as np, math
PROPERTY = 'C09'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the layers are executed on symbolic weights, biases and inputs; the expanded filter is proved steerable at every tap, the output to be the convolution with it, and equivariance and bias '
               'invariance follow as identities of linear forms. Bounded layer: all unit weight vectors of many more configurations, and the layer output compared with a nested-loop convolution.')
TRUSTED = ['numpy', 'torch conv2d/conv_transpose2d (compared with a nested-loop reference on sampled inputs)']
ASSUMPTIONS = ['float32 rounding treated as a tolerance', 'representation names are unique within a field type', 'configurations are sampled']
BOUND = 'spaces of vk/zoo.py, up to 3 fields x 3 groups per side, kernels 1..7, strides 1..3, dilations 1..2, sampled options'


def one(t, sp, rs_in, rs_out, cfg, rng, transposed):
    import torch
    from e2cnn import nn
    fi, fo = zoo.fieldtype(sp, rs_in), zoo.fieldtype(sp, rs_out)
    t.at(space=sp.key, inp=[r.name for r in rs_in], out=[r.name for r in rs_out], cfg=layers.describe(cfg), transposed=transposed)
    cls = nn.R2ConvTransposed if transposed else nn.R2Conv
    k = cfg['kernel_size']; g = cfg['groups']
    try:
        m = cls(fi, fo, **cfg)
    except ValueError as e:
        if 'empty' in str(e): return 0
        raise
    if m.basisexpansion.dimension() == 0: return 0
    zoo.randomise(m, rng)
    E = sp.grid_elements()
    pts = None
    # --- filter constraint on every unit weight
    w = m.weights.detach().clone()
    D = w.shape[0]
    sel = range(D) if D <= 40 else sorted(rng.choice(D, 40, replace=False))
    gi, go = rs_in[:len(rs_in) // g] if not transposed else rs_in, rs_out if not transposed else rs_out[:len(rs_out) // g]
    rin = {e: (zoo.rho(gi, e), zoo.rho(go, e), sp.M(e)) for e in E}
    cond = max([np.linalg.cond(np.asarray(r.change_of_basis)) for r in set(rs_in + rs_out)] + [1.])
    tol = 2e-5 * cond ** 2
    total = 0.
    with torch.no_grad():
        fl = []
        for i in list(sel) + [None]:
            v = w if i is None else torch.eye(D)[i]
            m.weights.data.copy_(v)
            f, b = m.expand_parameters()
            if transposed: f = f.transpose(0, 1)
            fl.append(f.numpy().astype(float))
        f = np.stack(fl)     # n,o,i,k,k
        t.check(f.shape[1:] == (sum(r.size for r in go), sum(r.size for r in gi), k, k), 'filter has the wrong shape', got=f.shape)
        scale = np.abs(f).max(axis=(1, 2, 3, 4), keepdims=True) + 1e-12
        for e in E:
            ri, ro, M = rin[e]
            # K(M p) = ro K(p) ri^-1 ; zoo.move(y)(p) = y(M^-1 p) -> K = ro . move(K) . ri^-1
            rhs = np.einsum('ab,nbcxy,cd->nadxy', ro, zoo.move(f, M), np.linalg.inv(ri))
            t.close(f / scale, rhs / scale, 'expanded filter violates the discrete steerability constraint', tol, g=e)
        total = float(np.abs(f).max())
        t.check(total > 1e-6, 'all filters are zero')
        # --- bias
        f, b = m.expand_parameters()
        triv = sum(1 for r in rs_out for irr in r.irreps if sp.G.irreps[irr].is_trivial())
        if cfg['bias'] and triv:
            t.check(m.bias is not None and m.bias.numel() == triv, 'number of bias parameters')
            for e in sp.elements(rng, 2):
                t.close(zoo.rho(rs_out, e) @ b.numpy().astype(float), b, 'bias is not invariant under the output representation', tol, g=e)
            eb = []
            bb = m.bias.detach().clone()
            for i in range(triv):
                m.bias.data.copy_(torch.eye(triv)[i]); eb.append(m.expand_parameters()[1].numpy().astype(float).copy())
            m.bias.data.copy_(bb)
            t.check(np.linalg.matrix_rank(np.stack(eb), tol=1e-4) == triv, 'bias parameters are redundant')
            t.close(np.stack(eb).T @ bb.numpy(), b, 'bias is not linear in its parameters', 1e-5)
        else:
            t.check(m.bias is None and b is None, 'unexpected bias')
        # --- forward against the naive convolution
        n = layers.input_size(cfg, transposed)
        if n is None: return 1
        f, b = m.expand_parameters()
        m.weights.grad = None
        sizes = [(n, n), (n + 1, n + 2)] if not transposed else [(n, n), (n, n + 1)]
        for hw in sizes:
            x = rng.randn(2, fi.size, *hw).astype('float32')
            xt = torch.as_tensor(x.copy())
            if transposed:
                if (min(hw) - 1) * cfg['stride'] + cfg['dilation'] * (k - 1) + 1 - 2 * cfg['padding'] < 1: continue
                y = m(zoo.geo(xt, fi)); ref = layers.ref_conv_t(x, f, b, cfg['stride'], cfg['padding'], cfg['dilation'], g, cfg.get('output_padding', 0))
            else:
                y = m(zoo.geo(xt, fi)); ref = layers.ref_conv(x, f, b, cfg['stride'], cfg['padding'], cfg['dilation'], g, cfg.get('padding_mode', 'zeros'))
            t.check(y.type == fo, 'output type')
            t.check(np.array_equal(xt.numpy(), x), 'the layer changed its input')
            sc = np.abs(ref).max() + 1e-9
            t.close(y.tensor.numpy() / sc, ref / sc, 'layer differs from the plain convolution with its expanded filter', 3e-5, size=hw)
        # --- equivariance of the layer itself
        if not cfg.get('output_padding'):
            x = rng.randn(1, fi.size, n, n)
            y0 = m(zoo.geo(torch.as_tensor(x.astype('float32')), fi)).tensor.numpy().astype(float)
            sc = np.abs(y0).max() + 1e-9
            for e in E:
                xe = zoo.act(x, zoo.rho(rs_in, e), sp.M(e))
                ye = m(zoo.geo(torch.as_tensor(xe.astype('float32')), fi)).tensor.numpy().astype(float)
                t.close(ye / sc, zoo.act(y0, zoo.rho(rs_out, e), sp.M(e)) / sc, 'layer does not commute with the group element', 4 * tol, g=e)
            if not transposed and cfg.get('padding_mode') == 'circular' and cfg['stride'] == 1 and y0.shape[-1] == n:
                yr = m(zoo.geo(torch.as_tensor(np.roll(x, (2, 1), (2, 3)).astype('float32')), fi)).tensor.numpy()
                t.close(yr / sc, np.roll(y0, (2, 1), (2, 3)) / sc, 'layer does not commute with grid translations', 1e-4)
    t.sample('%s %s -> %s %s' % (sp.key, [r.name for r in rs_in], [r.name for r in rs_out], layers.describe(cfg)))
    return 1


def run(t, a):
    i, transposed = a
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 8, orthogonal=False)
    # restricted representations as well
    done = 0
    n = 60 if t.thorough else (14 if sp.spec[0] in 'CD' else 10)
    for j, cfg in enumerate(layers.conv_cfgs(rng, n, transposed, 7)):
        rs_in, rs_out = layers.mktypes(sp, R, rng, cfg['groups'])
        if sum(r.size for r in rs_in) * sum(r.size for r in rs_out) > 900: continue
        done += one(t, sp, rs_in, rs_out, cfg, rng, transposed)
    t.check(done > 0, 'no configuration could be built')


def rect(t, i):
    """different paddings along the two axes, every padding mode: the layer is the plain convolution with its filter"""
    import torch, itertools
    from e2cnn import nn
    S = zoo.spaces(1); sp = S[i]; rng = t.rng()
    R = [r for r in zoo.reps(sp.G, sp.spec, rng, 1, 4)]
    n = 0
    for mode, p, k, s, d, g in itertools.product(('zeros', 'reflect', 'replicate', 'circular'), ((1, 2), (2, 0), (0, 1)), (1, 3), (1, 2), (1, 2), (1, 2)):
        rs_in, rs_out = layers.mktypes(sp, R, rng, g, 2)
        if sum(r.size for r in rs_in) * sum(r.size for r in rs_out) > 100: continue
        fi, fo = zoo.fieldtype(sp, rs_in), zoo.fieldtype(sp, rs_out)
        t.at(space=sp.key, mode=mode, padding=p, kernel=k, stride=s, dilation=d, groups=g, inp=[r.name for r in rs_in], out=[r.name for r in rs_out])
        try: m = nn.R2Conv(fi, fo, k, padding=p, padding_mode=mode, stride=s, dilation=d, groups=g)
        except ValueError as e:
            if 'empty' in str(e): continue
            raise
        zoo.randomise(m, rng)
        with torch.no_grad():
            f, b = m.expand_parameters()
            x = rng.randn(2, fi.size, 6, 8).astype('float32')
            ref = layers.ref_conv(x, f, b, s, p, d, g, mode); sc = np.abs(ref).max() + 1e-9
            for tr in (True, False):
                m.train(tr)
                t.close(m(zoo.geo(torch.as_tensor(x.copy()), fi)).tensor.numpy() / sc, ref / sc, 'layer differs from the plain convolution with its expanded filter', 3e-5, training=tr)
        n += 1
    t.check(n > 5, 'too few layers')


def rejected(t, _):
    """ill-typed requests are refused"""
    import torch
    from e2cnn import nn
    S = zoo.spaces(1)
    a, b = S[3], S[4]
    fa, fb = zoo.fieldtype(a, [a.G.regular_representation]), zoo.fieldtype(b, [b.G.regular_representation])
    for cls in (nn.R2Conv, nn.R2ConvTransposed):
        t.at(cls=cls.__name__)
        t.raises(lambda: cls(fa, fb, 3), 'convolution between different symmetry spaces')
        m = cls(fa, zoo.fieldtype(a, [a.G.trivial_representation]), 3)
        x = torch.randn(1, fb.size, 5, 5)
        t.raises(lambda: m(zoo.geo(x, fb)), 'input of another type')
        f3 = zoo.fieldtype(a, [a.G.regular_representation, a.G.trivial_representation])
        t.raises(lambda: cls(f3, f3, 3, groups=2), 'grouped convolution whose groups have different fields')


def build(ctx):
    S = zoo.spaces(2)
    ctx.cases('conv', [(k, False) for k in range(len(S))], run, lambda a: '%d:%s' % (a[0], S[a[0]].key))
    ctx.cases('convT', [(k, True) for k in range(len(S))], run, lambda a: '%d:%s' % (a[0], S[a[0]].key))
    S1 = zoo.spaces(1)
    ctx.cases('rect', range(0, len(S1), 3), rect, lambda i: '%d:%s' % (i, S1[i].key))
    ctx.cases('rejected', [0], rejected)
    try:
        from vk import ded_layers
    except ImportError:
        return
    ded_layers.build_c09(ctx)
