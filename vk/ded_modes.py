"""C11: the mode switch of the convolution-like layers as a state machine over symbolic parameters, and export() of every exportable module against the module, on symbolic tensors (vk.tsym)."""
import itertools
import numpy as np
import torch
from collections import OrderedDict
from . import zoo, mods, sym
from .core import Undecided, Fail
from .sym import lift
from .tsym import K, prove, get, mk, ST, OFF
from .ded_torch import NN, irr, run, outarr, spec_pool

PRM = ('weights', 'bias')


def fresh(k, make, tag, cache):
    """a new layer with arbitrary parameters, in training mode"""
    m = make()
    setp(k, m, tag, cache, rebind=True)
    return m


def values(k, m, tag, cache):
    out = OrderedDict()
    for n, p in m.named_parameters() if k.num else named(m):
        key = tag + '/' + n.replace('.', '/')
        if key not in cache:
            with OFF(): sh = tuple(p.shape)
            cache[key] = k.array(key, sh)
        out[n] = cache[key]
    return out


def named(m):
    for mn, q in m.named_modules():
        for n, p in q._parameters.items():
            if p is not None: yield (mn + '.' if mn else '') + n, p


def setp(k, m, tag, cache, rebind=False):
    """the parameters get the (arbitrary) values called tag: bound before first use, written in place or through .data afterwards"""
    V = values(k, m, tag, cache)
    for mn, q in m.named_modules():
        for n in list(q._parameters):
            p = q._parameters[n]
            if p is None: continue
            v = k.tensor(V[(mn + '.' if mn else '') + n])
            if rebind is True:
                q._parameters[n] = torch.nn.Parameter(v, requires_grad=False) if k.num else v
            elif rebind == 'data': p.data = v
            else:
                p.copy_(v)


def sig(k, m, ref):
    """abstract state: mode, buffers present, which of them equal those of a reference layer evaluated with the current parameters, simple attributes"""
    b = []
    for n, q in m.named_buffers():
        r = dict(ref.named_buffers()).get(n)
        same = None
        if r is not None and q is not None:
            x, y = k.arr(q), k.arr(r)
            same = x.shape == y.shape and (np.allclose(x, y, atol=1e-4) if k.num else all(not (lift(u) - lift(v)).n().t for u, v in zip(x.flat, y.flat)))
        b.append((n, q is None, same))
    at = [(n, repr(v)) for n, v in sorted(m.__dict__.items()) if isinstance(v, (bool, int, float, str, type(None)))]
    return (tuple(sorted(b, key=repr)), tuple(at), tuple(sorted(n for n in m.__dict__ if not n.startswith('__'))))


def machine_contract(make, ft, size, wrap=None, depth=9):
    def contract(k):
        from e2cnn import nn
        from e2cnn.nn import GeometricTensor
        cache = {}
        x = k.array('x', (1, ft.size) + size)
        X = lambda: GeometricTensor(k.tensor(x), ft)
        want = {}

        def reference(tag):
            """training-mode output of a layer never evaluated, and a layer evaluated once, with these parameters"""
            if tag not in want:
                r = fresh(k, make, tag, cache); r.train()
                with k.running(): y = k.arr(r(X()).tensor)
                e = fresh(k, make, tag, cache)
                with k.running(): e.train(); e.eval()
                want[tag] = (y, e)
            return want[tag]

        def play(path):
            m = fresh(k, make, 'p0', cache); tag = 'p0'; n = 0
            top = m
            if wrap == 'seq': top = nn.SequentialModule(m)
            if wrap == 'list': top = nn.ModuleList([m])
            with k.running():
                for op in path:
                    if op == 'train': top.train()
                    elif op == 'train1': top.train(True)
                    elif op == 'eval': top.eval()
                    elif op == 'train0': top.train(False)
                    elif op == 'forward': m(X())
                    elif op == 'export': top.export()
                    elif op in ('update', 'data'):
                        n += 1; tag = 'p%d' % (n % 3 + 1 if n < 4 else n)
                        setp(k, m, tag, cache, rebind=True if op == 'never' else ('data' if op == 'data' else False))
                    elif op in ('load', 'load_other'):
                        sd = OrderedDict((q, v.clone()) for q, v in m.state_dict().items())
                        m2 = fresh(k, make, 'q', cache)
                        if op == 'load': m2.train(); m2.eval()
                        m2.load_state_dict(sd)
                        m2.eval(); m = m2; top = m2
                        if wrap == 'seq': top = nn.SequentialModule(m)
                        if wrap == 'list': top = nn.ModuleList([m])
            return m, tag

        seen = {}
        todo = [()]
        while todo:
            path = todo.pop(0)
            m, tag = play(path)
            y0, e = reference(tag)
            s = sig(k, m, e) + (m.training,)
            what = 'after every history the output is the training-mode output with the current parameters'
            with k.running(): y = k.arr(m(X()).tensor)
            k.eq(y, y0, what)
            with k.running(): k.eq(k.arr(m(X()).tensor), y0, what + ', also when asked again')
            for n, p in named(m):
                k.eq(k.arr(p), cache[tag + '/' + n.replace('.', '/')], 'using, saving, loading or switching the layer does not change its parameters')
            if s in seen or len(path) >= depth: continue
            seen[s] = path
            ops = ['train', 'train1', 'eval', 'train0', 'forward']
            if m.training: ops += ['update', 'data']
            else: ops += ['load', 'load_other', 'export']
            todo += [path + (o,) for o in ops]
        k.holds(all(len(p) < depth for p in seen.values()), 'the reachable states close')
    return contract


def trains(m, on):
    m.train(); m.train(on)


def export_contract(make, ft, size, pos=('running_var',), batch=1, starts=('train', 'eval', 'evaltrain')):
    """export() computes what the module computes in evaluation mode"""
    def contract(k):
        from e2cnn.nn import GeometricTensor, EquivariantModule
        x = k.array('x', (batch, ft.size) + size)
        X = lambda: k.tensor(x)
        for start in starts:
            m = make()
            k.params(m, pos=pos, names=PRM + ('weight', 'running_mean', 'running_var'))
            with k.running():
                if start == 'evaltrain': m.eval()
                m.train()
                if start == 'eval': m.eval()
                net = m.export()
                k.holds(not m.training, 'export leaves the module in evaluation mode')
                k.holds(not any(isinstance(q, EquivariantModule) for q in net.modules()), 'the exported network has no equivariant parts')
                k.holds(not any(q.training for q in net.modules() if isinstance(q, (torch.nn.modules.dropout._DropoutNd, torch.nn.modules.batchnorm._BatchNorm))), 'no part of the exported network is in training mode')
                y = k.arr(m(GeometricTensor(X(), ft)).tensor)
                xt = X(); z = net(xt)
                k.eq(k.arr(z), y, 'the exported network computes the function of the module')
                k.eq(k.arr(m(GeometricTensor(X(), ft)).tensor), y, 'the module computes the same after exporting')
                net.eval()
                k.eq(k.arr(net(X())), y, 'the exported network in evaluation mode'); k.eq(k.arr(m.export()(X())), y, 'a second export')
    return contract


def build_c11(ctx):
    from e2cnn import nn
    C2, C3, C4, D2, D4 = zoo.Space('R', 2), zoo.Space('R', 3), zoo.Space('R', 4), zoo.Space('FR', 2), zoo.Space('FR', 4)
    S1, S2 = zoo.Space('R', -1, maxf=3), zoo.Space('FR', -1, maxf=3)
    T = lambda s: s.G.trivial_representation
    reg = lambda s: s.G.regular_representation
    ft = zoo.fieldtype
    conv = [('C4:irr1,triv->triv,irr1', C4, irr(C4, 1, 0), irr(C4, 0, 1)), ('C2:reg->reg,irr1', C2, [reg(C2)], [reg(C2)] + irr(C2, 1)), ('O2:00,11->10,11', S2, irr(S2, (0, 0), (1, 1)), irr(S2, (1, 0), (1, 1))),
            ('SO2:0,1->1,0', S1, irr(S1, 0, 1), irr(S1, 1, 0)), ('D2:quot,triv->irr01,triv', D2, [D2.G.quotient_representation((None, 2)), T(D2)], [D2.G.irrep(0, 1), T(D2)]), ('C3:irr1->irr1 (no bias component)', C3, irr(C3, 1), irr(C3, 1))]
    fns = [NN + 'modules.r2_conv.r2convolution.R2Conv', NN + 'modules.r2_conv.r2_transposed_convolution.R2ConvTransposed', NN + 'modules.r2_conv.r2diffop.R2Diffop']
    layers = []
    for q, (key, sp, i, o) in enumerate(conv):
        fi, fo = ft(sp, i), ft(sp, o)
        for b in (True, False):
            if not b and q > 1: continue
            layers.append(('R2Conv[%s%s]' % (key, '' if b else ',no bias'), fi, lambda fi=fi, fo=fo, b=b: nn.R2Conv(fi, fo, 3, padding=1, bias=b), (2, 2)))
            layers.append(('R2ConvTransposed[%s%s]' % (key, '' if b else ',no bias'), fi, lambda fi=fi, fo=fo, b=b: nn.R2ConvTransposed(fi, fo, 3, padding=1, bias=b), (2, 2)))
            if sp.spec[0] in ('C', 'D') or True:
                layers.append(('R2Diffop[%s%s]' % (key, '' if b else ',no bias'), fi, lambda fi=fi, fo=fo, b=b: nn.R2Diffop(fi, fo, kernel_size=3, padding=1, bias=b, maximum_order=2), (2, 2)))
    for q, (nm, fi, make, size) in enumerate(layers):
        for wrap in (None, 'seq', 'list'):
            if wrap and q > 2: continue
            @ctx.task('contract.train/eval %s%s' % (nm, ',' + wrap if wrap else ''), kind='deductive')
            def _(t, fi=fi, make=make, size=size, wrap=wrap): prove(t, 'train, eval, state_dict, load_state_dict, export, forward', fns, machine_contract(make, fi, size, wrap))
    # exports
    E = []
    add = lambda nm, f, mk_, size, fn, **kw: E.append((nm, f, mk_, size, fn, kw))
    tr = ft(C2, [T(C2)] * 2); fl = ft(C2, [T(C2), irr(C2, 1)[0]] * 2)
    for st, pd, dl, md, b, g in itertools.product((1, 2), (0, 1, (1, 2)), (1, 2), ('zeros', 'reflect', 'replicate', 'circular'), (True, False), (1, 2)):
        if b and g == 2 and md != 'zeros' or (not b and dl == 2): continue
        kw = dict(kernel_size=3, stride=st, padding=pd, dilation=dl, padding_mode=md, bias=b, groups=g)
        add('R2Conv %s' % kw, fl, lambda kw=kw: nn.R2Conv(fl, fl, **kw), (3, 4) if dl == 1 else (5, 5), 'R2Conv.export', starts=('train',))
    for st, pd, dl, op, b, g in itertools.product((1, 2), (0, 1), (1, 2), (0, 1), (True, False), (1, 2)):
        if op >= max(st, dl) or (not b and g == 2): continue
        kw = dict(kernel_size=3, stride=st, padding=pd, dilation=dl, output_padding=op, bias=b, groups=g)
        add('R2ConvTransposed %s' % kw, fl, lambda kw=kw: nn.R2ConvTransposed(fl, fl, **kw), (2, 3), 'R2ConvTransposed.export', starts=('train',))
    for st, pd, dl, md, b in itertools.product((1, 2), (0, 1, (1, 2)), (1, 2), ('zeros', 'reflect', 'circular'), (True, False)):
        if not b and st == 2: continue
        kw = dict(kernel_size=3, maximum_order=2, stride=st, padding=pd, dilation=dl, padding_mode=md, bias=b)
        add('R2Diffop %s' % kw, fl, lambda kw=kw: nn.R2Diffop(fl, fl, **kw), (5, 6) if dl == 2 else (3, 4), 'R2Diffop.export', starts=('train',))
    for key, sp, i, o in conv:
        fi, fo = ft(sp, i), ft(sp, o)
        add('R2Conv ' + key, fi, lambda fi=fi, fo=fo: nn.R2Conv(fi, fo, 3, padding=1), (2, 3), 'R2Conv.export')
        add('R2ConvTransposed ' + key, fi, lambda fi=fi, fo=fo: nn.R2ConvTransposed(fi, fo, 3, padding=1, stride=2), (2, 2), 'R2ConvTransposed.export')
        add('R2Diffop ' + key, fi, lambda fi=fi, fo=fo: nn.R2Diffop(fi, fo, kernel_size=3, padding=1, maximum_order=2), (2, 3), 'R2Diffop.export')
    rg = ft(C3, [reg(C3)] * 2); qt = ft(D4, [D4.G.quotient_representation((None, 2)), T(D4), T(D4), D4.G.quotient_representation((0, 2))])
    mixed = ft(C3, [T(C3), reg(C3), reg(C3)]); runs = ft(D2, [T(D2), T(D2), D2.G.quotient_representation((None, 2)), reg(D2), reg(D2)])
    for key, f in (('C3:reg,reg', rg), ('C3:1,3,3', mixed), ('D2:1,1,2,4,4', runs), ('D4:4,1,1,4', qt)):
        if key != 'D4:4,1,1,4':
            for af, mo in itertools.product((True, False), (.1, None)): add('InnerBatchNorm %s affine=%s momentum=%s' % (key, af, mo), f, lambda f=f, af=af, mo=mo: nn.InnerBatchNorm(f, affine=af, momentum=mo, eps=.25), (1, 2), 'InnerBatchNorm.export', batch=2)
        for ip in (False, True):
            add('ReLU %s inplace=%s' % (key, ip), f, lambda f=f, ip=ip: nn.ReLU(f, inplace=ip), (1, 2), 'ReLU.export')
            for al in (.5, 2.): add('ELU %s alpha=%s inplace=%s' % (key, al, ip), f, lambda f=f, ip=ip, al=al: nn.ELU(f, alpha=al, inplace=ip), (1, 2), 'ELU.export')
            add('PointwiseDropout %s inplace=%s' % (key, ip), f, lambda f=f, ip=ip: nn.PointwiseDropout(f, .25, ip), (1, 2), 'PointwiseDropout.export')
        add('IdentityModule ' + key, f, lambda f=f: nn.IdentityModule(f), (1, 2), 'IdentityModule.export')
    add('GroupPooling C3:reg,reg', rg, lambda: nn.GroupPooling(rg), (1, 2), 'GroupPooling.export')
    q4 = ft(D4, [D4.G.quotient_representation((None, 2)), D4.G.quotient_representation((0, 1)), D4.G.quotient_representation((None, 2))])
    add('GroupPooling D4:quotients', q4, lambda: nn.GroupPooling(q4), (1, 2), 'GroupPooling.export')
    add('RestrictionModule C4', ft(C4, irr(C4, 1, 0) + [reg(C4)]), lambda: nn.RestrictionModule(ft(C4, irr(C4, 1, 0) + [reg(C4)]), 2), (1, 2), 'RestrictionModule.export')
    pt = ft(C3, [reg(C3)])
    for ks, st, pd, dl, ce in itertools.product((2, 3, (2, 3)), (None, 1, 2, (2, 1)), (0, 1, (1, 0)), (1, 2, (1, 2)), (False, True)):
        if (ks == 3 and dl == 2) or (ks == (2, 3) and st == 1): continue
        kw = dict(kernel_size=ks, stride=st, padding=pd, dilation=dl, ceil_mode=ce)
        add('PointwiseMaxPool %s' % kw, pt, lambda kw=kw: nn.PointwiseMaxPool(pt, **kw), (5, 6), 'PointwiseMaxPool.export', starts=('train',))
    for ks, st, pd, ce, sg in itertools.product((2, 3), (1, 2, (2, 1)), (0, 1), (False, True), (.4, .6)):
        kw = dict(kernel_size=ks, stride=st, padding=pd, ceil_mode=ce, sigma=sg)
        add('PointwiseMaxPoolAntialiased %s' % kw, ft(C3, [T(C3)]), lambda kw=kw: nn.PointwiseMaxPoolAntialiased(ft(C3, [T(C3)]), **kw), (5, 4), 'PointwiseMaxPoolAntialiased.export')
    for sz in (1, 2, (3, 2)):
        add('PointwiseAdaptiveAvgPool %s' % (sz,), pt, lambda sz=sz: nn.PointwiseAdaptiveAvgPool(pt, sz), (4, 5), 'PointwiseAdaptiveAvgPool.export')
        add('PointwiseAdaptiveMaxPool %s' % (sz,), pt, lambda sz=sz: nn.PointwiseAdaptiveMaxPool(pt, sz), (4, 5), 'PointwiseAdaptiveMaxPool.export')
    for kw in [dict(scale_factor=2), dict(scale_factor=3), dict(scale_factor=1.5), dict(scale_factor=2.5), dict(size=7), dict(size=(3, 5))]:
        for md, al in itertools.product(('nearest', 'bilinear'), (False, True)):
            kw2 = dict(kw, mode=md, align_corners=al)
            add('R2Upsampling %s' % kw2, pt, lambda kw2=kw2: nn.R2Upsampling(pt, **kw2), (2, 3), 'R2Upsampling.export')

    def chain(*ms):
        def f():
            fs = [rg]; out = []
            for q in ms:
                m = q(fs[-1]); out.append(m); fs.append(m.out_type)
            return nn.SequentialModule(*out)
        return f
    cv = lambda f: nn.R2Conv(f, rg, 3, padding=1)
    for nm, c in (('conv,bn,relu', [cv, lambda f: nn.InnerBatchNorm(f, eps=.25), nn.ReLU]), ('relu,conv,pool', [lambda f: nn.ReLU(f, inplace=True), cv, lambda f: nn.PointwiseMaxPool(f, 2)]), ('bn,dropout,gpool', [lambda f: nn.InnerBatchNorm(f, eps=.25), nn.PointwiseDropout, nn.GroupPooling])):
        add('SequentialModule ' + nm, rg, chain(*c), (2, 2), 'SequentialModule.export')
    names = {'R2Conv': fns[0], 'R2ConvTransposed': fns[1], 'R2Diffop': fns[2], 'InnerBatchNorm': NN + 'modules.batchnormalization.inner.InnerBatchNorm', 'ReLU': NN + 'modules.nonlinearities.relu.ReLU', 'ELU': NN + 'modules.nonlinearities.elu.ELU',
             'PointwiseDropout': NN + 'modules.dropout.pointwise.PointwiseDropout', 'IdentityModule': NN + 'modules.identity_module.IdentityModule', 'GroupPooling': NN + 'modules.invariantmaps.gpool.GroupPooling', 'RestrictionModule': NN + 'modules.restriction_module.RestrictionModule',
             'PointwiseMaxPool': NN + 'modules.pooling.pointwise_max.PointwiseMaxPool', 'PointwiseMaxPoolAntialiased': NN + 'modules.pooling.pointwise_max.PointwiseMaxPoolAntialiased', 'PointwiseAdaptiveAvgPool': NN + 'modules.pooling.pointwise_adaptive_avg.PointwiseAdaptiveAvgPool',
             'PointwiseAdaptiveMaxPool': NN + 'modules.pooling.pointwise_adaptive_max.PointwiseAdaptiveMaxPool', 'R2Upsampling': NN + 'modules.r2upsampling.R2Upsampling', 'SequentialModule': NN + 'modules.sequential_module.SequentialModule'}
    for c, group in itertools.groupby(sorted(E, key=lambda e: e[4]), key=lambda e: e[4]):
        group = list(group)
        for q in range(0, len(group), 12):
            @ctx.task('contract.%s[%d]' % (c, q // 12), kind='deductive')
            def _(t, part=group[q:q + 12], c=c):
                for nm, f, make, size, fn, kw in part:
                    prove(t, '%s: %s' % (c, nm), [names[c.split('.')[0]] + '.export', names[c.split('.')[0]] + '.forward'], export_contract(make, f, size, **kw))

    @ctx.task('contract.ModuleList.export', kind='deductive')
    def _(t):
        from e2cnn.nn import GeometricTensor
        def contract(k):
            ms = [nn.ReLU(rg), nn.R2Conv(rg, rg, 3, padding=1), nn.InnerBatchNorm(rg, eps=.25), nn.GroupPooling(rg)]
            ml = nn.ModuleList(ms)
            k.params(ml, pos=('running_var',), names=PRM + ('weight', 'running_mean', 'running_var'))
            x = k.array('x', (2, rg.size, 1, 2))
            with k.running():
                ml.train(); ex = ml.export()
                k.holds(len(ex) == len(ms) and not any(m.training for m in ms), 'one network per module')
                for m, e in zip(ms, ex): k.eq(k.arr(e(k.tensor(x))), k.arr(m(GeometricTensor(k.tensor(x), rg)).tensor), 'each exported network computes its module')
        prove(t, 'ModuleList.export', [NN + 'modules.module_list.ModuleList.export'], contract)
