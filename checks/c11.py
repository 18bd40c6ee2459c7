"""C11: training, evaluation and exported forms of a layer agree."""
from vk import zoo, mods, catalog, layers
import numpy as np, copy
PROPERTY = 'C11'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the training-mode output, the evaluation-mode output and the exported module of each configuration are executed on symbolic weights and inputs and proved to be the '
               'same expression, and the mode-switch contract of train() is proved over its history states. Bounded layer: random histories of train / eval / update / save+load / deepcopy / export '
               'on every exportable and convolution-like module, compared with a fresh layer in training mode carrying the same parameters.')
TRUSTED = ['torch functional operators (max_pool2d, conv2d, batch_norm, interpolate) and their torch.nn module forms', 'torch state_dict machinery']
ASSUMPTIONS = ['states are saved and loaded in evaluation mode, as documented', 'parameters change only in training mode, as documented', 'float32 rounding treated as a tolerance']
BOUND = 'catalogue of vk/catalog.py over the spaces of vk/zoo.py; histories of up to 10 operations; input sizes 1..13'
SIZES = [(7, 7), (13, 13), (5, 8), (9, 4), (8, 8), (3, 3), (2, 2), (1, 1)]


def size_of(e, rng): return (e['sizes'] or SIZES)[0]


def raw(m, xs):
    import torch
    with torch.no_grad(): return m(*xs).tensor.detach().clone()


def params(m): return {k: v.detach().clone() for k, v in m.named_parameters()}


def setp(m, P):
    import torch
    with torch.no_grad():
        for k, v in m.named_parameters(): v.copy_(P[k])
    return m


def load(t, m, sd):
    try: m.load_state_dict(sd)
    except RuntimeError as ex: t.check(False, 'a saved state cannot be loaded into an identical layer', error=str(ex)[:300])


def reference(e, P, xs):
    """fresh layer, never evaluated, in training mode with the given parameters"""
    m = setp(e['make'](), P); m.train()
    return raw(m, xs)


def history(t, e, rng, n, wrap=False):
    import torch
    from e2cnn import nn
    m = e['make'](); top = m
    if wrap: top = nn.SequentialModule(m); top = top if rng.rand() < .5 else nn.ModuleList([m])
    log, P = [], params(m)
    h = w = None
    for cand in ([s for s in SIZES if s[0] == s[1]] + SIZES):
        try:
            raw(e['make'](), catalog.inputs(e, rng, *cand, 1)); h, w = cand; break
        except RuntimeError: continue
    if h is None: return 0
    done = 0
    for k in range(n):
        ops = ['eval', 'eval', 'train', 'copy', 'noop']
        if m.training: ops += ['update', 'update', 'sgd', 'grad', 'loadp']
        else: ops += ['save', 'save_other', 'export', 'grad']
        op = str(rng.choice(ops)); log.append(op)
        t.at(layer=e['name'], cfg=e['cfg'], fields=[[r.name for r in f.representations] for f in e['ins'] + [m.out_type]], history=log, wrapped=type(top).__name__)
        if op == 'eval': top.eval() if rng.rand() < .5 else top.train(False)
        elif op == 'train': top.train() if rng.rand() < .5 else top.train(True)
        elif op == 'copy':
            # torch copies modules holding non-leaf buffers (evaluation mode) only without their graph: copied in training mode
            tr = m.training; top.train()
            try: top2 = copy.deepcopy(top)
            except RuntimeError: log[-1] = 'nocopy'; top.train(tr)
            else: top2.train(tr); m = top2 if top is m else next(iter(top2.children())); top = top2
        elif op == 'update': zoo.randomise(m, rng)
        elif op == 'loadp':
            P2 = {k2: torch.as_tensor(rng.randn(*v.shape).astype('float32')) for k2, v in params(m).items()}
            with torch.no_grad():
                for k2, v in m.named_parameters(): v.data = P2[k2].clone()
        elif op in ('sgd', 'grad'):
            y = m(*catalog.inputs(e, rng, h, w, 1)).tensor
            if op == 'sgd':
                opt = torch.optim.SGD(m.parameters(), lr=.1); opt.zero_grad(); (y ** 2).sum().backward()
                before = params(m); opt.step()
                t.check(any(not torch.equal(before[k2], v) for k2, v in params(m).items()) or float(y.detach().abs().max()) == 0, 'a training step changes nothing')
        elif op == 'export':
            m.export(); t.check(not m.training, 'export leaves the layer in training mode')
        elif op in ('save', 'save_other'):
            sd = {k2: v.clone() for k2, v in m.state_dict().items()}
            m2 = e['make'](); zoo.randomise(m2, rng)
            if op == 'save': m2.eval()       # else: loaded into a freshly built layer, then evaluated
            load(t, m2, sd)
            m2.eval(); P2 = params(m2)
            for k2, v in params(m).items(): t.check(torch.equal(v, P2[k2]), 'parameters lost by saving and loading', parameter=k2)
            m = top = m2
            wrap = False
        P = params(m)
        t.check(all(bool(torch.isfinite(v).all()) for v in P.values()), 'parameters are not finite')
        xs = catalog.inputs(e, rng, h, w, int(rng.choice([1, 2])))
        y, ref = raw(m, xs), reference(e, P, xs)
        t.close(y, ref, 'output after this history differs from the training-mode output with the current parameters', 1e-4, mode='train' if m.training else 'eval')
        P3 = params(m)
        t.check(all(torch.equal(P[k2], P3[k2]) for k2 in P), 'using the layer changes its parameters')
        done += 1
    return done


def conv_histories(t, i, lv):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    L = catalog.convs(sp, rng, 6 if lv == 1 else 16) + catalog.convs(sp, rng, 4 if lv == 1 else 8, transposed=True) + catalog.diffops(sp, rng, 2 if lv == 1 else 5)
    n = 0
    for e in L:
        n += history(t, e, rng, 7 if lv == 1 else 14, wrap=rng.rand() < .3)
    t.check(n > 0, 'no history executed')
    t.sample(dict(space=sp.key, layers=len(L), states=n))


def warm(m, e, rng, h, w):
    """give the layer generic parameters and running statistics"""
    import torch
    zoo.randomise(m, rng, .7)
    m.train()
    if e['tags'].get('bn'):
        for _ in range(2): raw(m, catalog.inputs(e, rng, h, w, 3))
    return m


def plain(net):
    from e2cnn.nn import EquivariantModule
    return not any(isinstance(q, EquivariantModule) for q in net.modules())


def export_case(t, e, rng, sizes):
    import torch
    from e2cnn import nn
    h, w = (e['sizes'] or [(9, 9)])[0]
    m = warm(e['make'](), e, rng, h, w)
    t.at(module=e['name'], cfg=e['cfg'], fields=[[r.name for r in f.representations] for f in e['ins']])
    if rng.rand() < .5: m.eval()
    net = m.export()
    t.check(plain(net), 'the exported network still contains equivariant modules', net=net)
    t.check(not m.training, 'export leaves the module in training mode')
    t.check(not any(q.training for q in net.modules() if not list(q.children()) and isinstance(q, (torch.nn.modules.dropout._DropoutNd, torch.nn.modules.batchnorm._BatchNorm))), 'parts of the exported network are in training mode')
    if rng.rand() < .5: net.eval()
    net2 = copy.deepcopy(net).double()
    n = 0
    for h, w in (e['sizes'] or sizes):
        xs = catalog.inputs(e, rng, h, w, int(rng.choice([1, 2])))
        big = float(rng.choice([1., 1., 30., 1e-3]))
        xs = [zoo.geo(x.tensor * big, x.type) for x in xs]
        t.at(module=e['name'], cfg=e['cfg'], fields=[[r.name for r in f.representations] for f in e['ins']], size=(h, w))
        try: y = raw(m, [zoo.geo(x.tensor.clone(), x.type) for x in xs])
        except (RuntimeError, ValueError): y = None
        try:
            with torch.no_grad(): z = net(xs[0].tensor.clone())
        except (RuntimeError, ValueError): z = None
        t.check((y is None) == (z is None), 'only one of the module and its export runs on this size', module_runs=y is not None, export_runs=z is not None)
        if y is None: continue
        n += 1
        t.close(z, y, 'exported network computes another function', 2e-4)
    t.check(n > 0 or e['tags'].get('conv'), 'ran on no size')
    # exporting again, and the module after exporting, give the same function
    hw = next(iter(e['sizes'] or [(9, 9)])); x = catalog.inputs(e, rng, *hw, 2)[0]
    try: y = raw(m, [zoo.geo(x.tensor.clone(), x.type)])
    except (RuntimeError, ValueError): return n
    with torch.no_grad(): z1, z2 = m.export()(x.tensor.clone()), m.export().eval()(x.tensor.clone())
    t.close(z1, y, 'second export computes another function', 2e-4); t.close(z2, y, 'second export computes another function', 2e-4)
    # the export is a function of its own: changing its parameters does not touch the module
    return n


def exports(t, i, lv):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    n, k = 0, 0
    for _ in range(1 if lv == 1 else 3):
        S = catalog.sets(sp, rng)
        L = catalog.convs(sp, rng, 6) + catalog.convs(sp, rng, 4, transposed=True) + catalog.diffops(sp, rng, 2)
        for _ in range(3): L += [e for e in catalog.pointwise_like(sp, rng, S) + catalog.spatial(sp, rng, S) + catalog.structural(sp, rng, S) if e['tags'].get('export')]
        L += catalog.chains(sp, rng, S, 3)
        for e in L:
            n += export_case(t, e, rng, SIZES); k += 1
    # lists
    import torch
    from e2cnn import nn
    L = [e for e in L if e['tags'].get('export')][:4]
    ms = [warm(e['make'](), e, rng, *(e['sizes'] or [(9, 9)])[0]) for e in L]
    ml = nn.ModuleList(ms); ex = ml.export()
    t.check(len(ex) == len(ms) and plain(ex), 'exported list')
    for e, m, x in zip(L, ms, ex):
        xs = catalog.inputs(e, rng, *(e['sizes'] or [(9, 9)])[0], 2)
        try: y = raw(m, [zoo.geo(q.tensor.clone(), q.type) for q in xs])
        except RuntimeError: continue
        with torch.no_grad(): t.close(x(xs[0].tensor.clone()), y, 'exported list computes another function', 2e-4, module=e['name'])
    t.check(n > k, 'too few runs'); t.sample(dict(space=sp.key, modules=k, runs=n))


def settings(t, i):
    """export settings on small types, exhaustively"""
    import itertools
    from e2cnn import nn
    sp = zoo.Space('R', 4); ft = zoo.fieldtype(sp, [sp.G.regular_representation] * 2); rng = t.rng(); tr = zoo.fieldtype(sp, [sp.G.trivial_representation] * 2)
    E = []
    def add(cls, f, **kw): E.append(catalog.entry(cls.__name__, lambda: cls(*f, **kw), [f[0]], kw, conv='Conv' in cls.__name__))
    if i == 0:
        for k, s, p, d, c in itertools.product((1, 2, 3, (2, 3)), (None, 1, 2, (2, 1)), (0, 1, (1, 0)), (1, 2, (1, 2)), (False, True)):
            if (p != 0) and k == 1: continue
            add(nn.PointwiseMaxPool, [ft], kernel_size=k, stride=s, padding=p, dilation=d, ceil_mode=c)
    if i == 1:
        for k, s, p, c, sg in itertools.product((2, 3, (2, 3)), (1, 2, 3, (2, 1)), (0, 1), (False, True), (.4, .6, 1.)):
            add(nn.PointwiseMaxPoolAntialiased, [ft], kernel_size=k, stride=s, padding=p, ceil_mode=c, sigma=sg)
        for sz in (1, 2, 5, (3, 2)):
            add(nn.PointwiseAdaptiveAvgPool, [ft], output_size=sz); add(nn.PointwiseAdaptiveMaxPool, [ft], output_size=sz)
    if i == 2:
        for k, s, p, d, m, b, g in itertools.product((1, 3, 4), (1, 2), (0, 1, (1, 2)), (1, 2), ('zeros', 'reflect', 'replicate', 'circular'), (True, False), (1, 2)):
            add(nn.R2Conv, [tr, tr], kernel_size=k, stride=s, padding=p, dilation=d, padding_mode=m, bias=b, groups=g)
    if i == 3:
        for k, s, p, d, op, b, g in itertools.product((1, 3, 4), (1, 2, 3), (0, 1), (1, 2), (0, 1), (True, False), (1, 2)):
            if op < max(s, d): add(nn.R2ConvTransposed, [tr, tr], kernel_size=k, stride=s, padding=p, dilation=d, output_padding=op, bias=b, groups=g)
    if i == 4:
        for sf, m, al in itertools.product((2, 3, 1.5, 2.5), ('nearest', 'bilinear'), (False, True)): add(nn.R2Upsampling, [ft], scale_factor=sf, mode=m, align_corners=al)
        for sz, m, al in itertools.product((4, 7, (3, 5)), ('nearest', 'bilinear'), (False, True)): add(nn.R2Upsampling, [ft], size=sz, mode=m, align_corners=al)
        for al, ip in itertools.product((.2, 1., 3.), (False, True)): add(nn.ELU, [ft], alpha=al, inplace=ip); add(nn.ReLU, [ft], inplace=ip)
        for mo, af, eps in itertools.product((.1, .5, None), (True, False), (1e-5, .5)):
            E.append(catalog.entry('InnerBatchNorm', lambda mo=mo, af=af, eps=eps: nn.InnerBatchNorm(ft, eps=eps, momentum=mo, affine=af), [ft], dict(momentum=mo, affine=af, eps=eps), bn=True))
        for k, s, p, d, m, b in itertools.product((3, 5), (1, 2), (0, 1, (1, 2)), (1, 2), ('zeros', 'reflect', 'circular', 'replicate'), (True, False)):
            E.append(catalog.entry('R2Diffop', lambda kw=dict(kernel_size=k, stride=s, padding=p, dilation=d, padding_mode=m, bias=b, maximum_order=2): nn.R2Diffop(tr, tr, **kw), [tr], dict(k=k, stride=s, padding=p, dilation=d, mode=m, bias=b), conv=True))
        for p, ip in itertools.product((.1, .7), (False, True)):
            m = nn.PointwiseDropout(ft, p, ip); ex = m.export(); x = zoo.randx(ft, rng, 4, 40); ex.train()
            y = ex(x.clone()); q = float((y == 0).float().mean())
            t.check(abs(q - p) < .05, 'exported dropout has another rate', p=p, observed=q)
            t.close(y[y != 0], (x / (1 - p))[y != 0], 'exported dropout has another scale')
    E = [e for e in E if not (e['tags'].get('conv') and catalog.empty(e['make']))]
    n = sum(export_case(t, e, rng, [(7, 7), (8, 5)] if len(E) > 150 else SIZES[:6]) for e in E)
    t.check(n >= len(E) > 0, 'too few runs', runs=n, modules=len(E))


def states(t, i, lv):
    """state_dict round trips of every module in the catalogue"""
    import torch
    sp = zoo.spaces(2)[i]; rng = t.rng(); n = 0
    for e in catalog.everything(sp, rng, lv, conv=2):
        h, w = (e['sizes'] or [(9, 9)])[0]
        try: m = warm(e['make'](), e, rng, h, w)
        except RuntimeError: continue
        m.eval()
        t.at(module=e['name'], cfg=e['cfg'], fields=[[r.name for r in f.representations] for f in e['ins']])
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        xs = catalog.inputs(e, rng, h, w, 2)
        try: y = raw(m, [zoo.geo(x.tensor.clone(), x.type) for x in xs])
        except (RuntimeError, ValueError): continue
        for fresh in (0, 1, 2):
            m2 = e['make']()
            if fresh == 0: m2.eval()
            if fresh == 2: m2.eval(); m2.train(); m2.eval()
            load(t, m2, sd); m2.eval()
            t.close(raw(m2, [zoo.geo(x.tensor.clone(), x.type) for x in xs]), y, 'loading the state does not reproduce the output', 1e-5, fresh=fresh)
            for k, v in m2.state_dict().items(): t.check(torch.equal(v, sd[k]) or e['tags'].get('conv') or 'filter' in k or 'expanded' in k, 'state changed by loading', key=k)
        # deepcopies are independent
        m.train()
        try: m3 = copy.deepcopy(m)
        except RuntimeError: m3 = None
        m.eval()
        if m3 is not None:
            zoo.randomise(m3, rng)
            if e['tags'].get('bn'): raw(m3, catalog.inputs(e, rng, h, w, 3))
            m3.eval()
        t.close(raw(m, [zoo.geo(x.tensor.clone(), x.type) for x in xs]), y, 'training a copy changes the original', 1e-6)
        # mode switches alone change nothing
        m.train(); m.eval()
        t.close(raw(m, [zoo.geo(x.tensor.clone(), x.type) for x in xs]), y, 'switching modes changes the evaluation-mode output', 1e-5)
        n += 1
    t.check(n > 5, 'too few modules')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    key = lambda i: '%d:%s' % (i, S[i].key)
    ctx.cases('histories', range(len(S)), lambda t, i: conv_histories(t, i, lv), key)
    ctx.cases('exports', range(len(S)), lambda t, i: exports(t, i, lv), key)
    ctx.cases('settings', range(5), settings, lambda i: ['maxpool', 'antialiased', 'conv', 'convtransposed', 'others'][i])
    ctx.cases('states', range(len(S)), lambda t, i: states(t, i, lv), key)
    try:
        from vk import ded_modes
    except ImportError:
        return
    ded_modes.build_c11(ctx)
