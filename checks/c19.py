"""C19: predicted output shapes equal the shapes produced."""
from vk import zoo, mods, catalog, layers
import numpy as np
PROPERTY = 'C19'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: evaluate_output_shape of every module executed on symbolic input sizes and settings and proved equal to the size formula of the operation, for all sizes '
               'and settings. Bounded layer: prediction compared with the tensor actually produced, for a catalogue of modules over many input sizes.')
TRUSTED = ['documented output-size formulas of the torch operators (compared with the produced tensors in the bounded layer)']
ASSUMPTIONS = ['Python integers are unbounded; floor/ceil of quotients of sizes below 2^53 are exact']
BOUND = 'catalogue of vk/catalog.py over the spaces of vk/zoo.py, input sizes 1..13 (all heights/widths pairs of a sample of them)'
SIZES = [(1, 1), (2, 3), (3, 2), (4, 4), (5, 5), (5, 8), (6, 7), (7, 5), (7, 7), (8, 6), (9, 9), (10, 4), (11, 12), (13, 13)]


def ints(t, p, what):
    t.check(isinstance(p, (tuple, list)) and len(p) == 4, 'prediction is not a shape', predicted=p, module=what)
    t.check(all(type(v) is int for v in p), 'prediction is not made of plain integers', predicted=[type(v).__name__ for v in p], module=what)


def accepts(m, h, w):
    """torch's pooling operators accept these sizes: the window fits in the padded input and, dilated, never lies in the padding alone"""
    from e2cnn import nn
    if type(m) not in (nn.PointwiseMaxPool, nn.NormMaxPool, nn.PointwiseAvgPool): return False
    two = lambda v: tuple(v) if isinstance(v, (tuple, list)) else (v, v)
    k, p, d = two(m.kernel_size), two(m.padding), two(getattr(m, 'dilation', 1))
    return all(2 * p[i] <= k[i] and n >= d[i] and n + 2 * p[i] >= d[i] * (k[i] - 1) + 1 for i, n in enumerate((h, w)))


def run(t, e, rng, sizes, modes=(True, False)):
    import torch
    m = e['make']()
    name = type(m).__name__
    ran = 0
    for training in modes:
        m.train(training)
        for h, w in (e['sizes'] or sizes):
            b = int(rng.choice([1, 2, 3]))
            if e['tags'].get('bn') and training: b = 3
            t.at(module=name, cfg=e['cfg'], fields=[[r.name for r in f.representations] for f in e['ins']], size=(b, h, w), training=training)
            xs = catalog.inputs(e, rng, h, w, b)
            try:
                y = m(*xs)
            except (RuntimeError, ValueError) as ex:
                t.check(not accepts(m, h, w), 'the module fails on an input for which a shape is predicted', error=str(ex)[:200])
                continue       # torch refuses this size for this setting
            ran += 1
            shp = [tuple(x.tensor.shape) for x in xs]
            p = m.evaluate_output_shape(*shp)
            ints(t, p, name)
            t.check(tuple(p) == tuple(y.tensor.shape), 'predicted shape differs from the produced one', predicted=p, produced=tuple(y.tensor.shape))
            p2 = m.evaluate_output_shape(*[x.tensor.shape for x in xs])
            t.check(tuple(p2) == tuple(p), 'prediction is not a function of the input shape')
            t.check(y.type == m.out_type and y.tensor.shape[1] == m.out_type.size, 'type of the output is not the declared one')
    t.check(ran >= 1 or e['tags'].get('conv'), 'the module ran on no input size at all', module=name, cfg=e['cfg'])
    return ran


def space(t, i, lv):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    L = catalog.everything(sp, rng, lv, conv=6 if lv == 1 else 14)
    n = 0
    for e in L: n += run(t, e, rng, SIZES if lv == 2 else [SIZES[j] for j in sorted(rng.choice(len(SIZES), 6, replace=False))] + [(13, 13)], (True, False) if lv == 2 else (bool(rng.randint(2)),))
    t.check(n > len(L), 'too few modules ran')
    t.sample(dict(space=sp.key, modules=len(L), runs=n))


def grid(t, i):
    """exhaustive settings for the size-changing modules on a small field type, with every size 1..12"""
    import torch, itertools
    from e2cnn import nn
    sp = zoo.Space('R', 4); ft = zoo.fieldtype(sp, [sp.G.regular_representation]); rng = t.rng()
    tr = zoo.fieldtype(sp, [sp.G.trivial_representation])
    E = []
    if i == 0:
        for k, s, p, d, c in itertools.product((1, 2, 3), (None, 1, 2, 3), (0, 1), (1, 2, 3), (False, True)):
            if 2 * p > k: continue
            kw = dict(kernel_size=k, stride=s, padding=p, dilation=d, ceil_mode=c)
            for cls in (nn.PointwiseMaxPool, nn.NormMaxPool): E.append(catalog.entry(cls.__name__, lambda cls=cls, kw=kw: cls(ft, **kw), [ft], kw))
        for k, s, p, d, c in itertools.product(((2, 3), (3, 1), (4, 2)), (None, (1, 2), (3, 2)), ((0, 1), (1, 0)), ((1, 2), (3, 1), (2, 3)), (False, True)):
            if any(2 * a > b for a, b in zip(p, k)): continue
            kw = dict(kernel_size=k, stride=s, padding=p, dilation=d, ceil_mode=c)
            for cls in (nn.PointwiseMaxPool, nn.NormMaxPool): E.append(catalog.entry(cls.__name__, lambda cls=cls, kw=kw: cls(ft, **kw), [ft], kw))
    if i == 1:
        for k, s, p, c in itertools.product((1, 2, 3, 4), (None, 1, 2, 3), (0, 1, 2), (False, True)):
            if 2 * p > k: continue
            kw = dict(kernel_size=k, stride=s, padding=p, ceil_mode=c)
            E.append(catalog.entry('PointwiseAvgPool', lambda kw=kw: nn.PointwiseAvgPool(ft, **kw), [ft], kw))
            kw2 = dict(kernel_size=k, stride=s or 1, padding=p, ceil_mode=c, sigma=.6)
            E.append(catalog.entry('PointwiseMaxPoolAntialiased', lambda kw=kw2: nn.PointwiseMaxPoolAntialiased(ft, **kw), [ft], kw2))
        for sg, s, p in itertools.product((.3, .5, .66, 1., 1.4), (1, 2, 3, (2, 1)), (None, 0, 1, 2)):
            kw = dict(sigma=sg, stride=s, padding=p)
            E.append(catalog.entry('PointwiseAvgPoolAntialiased', lambda kw=kw: nn.PointwiseAvgPoolAntialiased(ft, **kw), [ft], kw))
    if i == 2:
        modes = ('zeros', 'reflect', 'replicate', 'circular')
        for j, (k, s, p, d) in enumerate(itertools.product((1, 2, 3, 4, 5), (1, 2, 3), (0, 1, 2, (1, 2), (2, 0)), (1, 2, 3))):
            kw = dict(kernel_size=k, stride=s, padding=p, dilation=d)
            if j % 2: kw['padding_mode'] = modes[1 + (j // 2) % 3]
            E.append(catalog.entry('R2Conv', lambda kw=kw: nn.R2Conv(tr, tr, **kw), [tr], kw, conv=True))
    if i == 3:
        for k, s, p, d, op in itertools.product((1, 2, 3, 4, 5), (1, 2, 3), (0, 1, 2), (1, 2), (0, 1, 2)):
            if op >= max(s, d): continue
            kw = dict(kernel_size=k, stride=s, padding=p, dilation=d, output_padding=op)
            E.append(catalog.entry('R2ConvTransposed', lambda kw=kw: nn.R2ConvTransposed(tr, tr, **kw), [tr], kw, conv=True))
    if i == 4:
        for sf, mode, al in itertools.product((1, 2, 3, 4, 1.5, 2.5, 1.25, 0.5, 1.1, 1.7, 3.3), ('nearest', 'bilinear'), (False, True)):
            kw = dict(scale_factor=sf, mode=mode, align_corners=al)
            E.append(catalog.entry('R2Upsampling', lambda kw=kw: nn.R2Upsampling(ft, **kw), [ft], kw))
        for sz, mode in itertools.product((1, 4, 7, (3, 5), (9, 2)), ('nearest', 'bilinear')):
            kw = dict(size=sz, mode=mode)
            E.append(catalog.entry('R2Upsampling', lambda kw=kw: nn.R2Upsampling(ft, **kw), [ft], kw))
            for cls in (nn.PointwiseAdaptiveAvgPool, nn.PointwiseAdaptiveMaxPool): E.append(catalog.entry(cls.__name__, lambda cls=cls, sz=sz: cls(ft, output_size=sz), [ft], dict(output_size=sz)))
        for k, s, p, d, m in itertools.product((3, 5), (1, 2, 3), (0, 1, 2, (1, 2)), (1, 2), ('zeros', 'reflect', 'replicate', 'circular')):
            kw = dict(kernel_size=k, stride=s, padding=p, dilation=d, maximum_order=1, padding_mode=m)
            E.append(catalog.entry('R2Diffop', lambda kw=kw: nn.R2Diffop(tr, tr, **kw), [tr], kw, conv=True))
    sz = [(n, n) for n in range(1, 13)] + [(5, 8), (9, 4)]
    E = [e for e in E if not (e['tags'].get('conv') and catalog.empty(e['make']))]
    n = sum(run(t, e, rng, sz, (True,)) for e in E)
    t.check(n > 4 * len(E), 'too few runs')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    ctx.cases('catalogue', range(len(S)), lambda t, i: space(t, i, lv), lambda i: '%d:%s' % (i, S[i].key))
    ctx.cases('settings', range(5), grid, lambda i: ['maxpools', 'avgpools', 'conv', 'convtransposed', 'upsampling'][i])
    try:
        from vk import ded_shapes
    except ImportError:
        return
    ded_shapes.build_c19(ctx)
