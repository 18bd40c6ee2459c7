"""A catalogue of module instances over the public API: every module class with a spread of settings, for C11, C17, C19 and C12.

An entry is dict(name, make() -> fresh module, ins = [in field types], cfg, tags).  make() builds an identical module each time."""
import math
import numpy as np
from . import zoo, mods, layers, groups as gr


def entry(name, make, ins, cfg=None, minsize=1, square=False, sizes=None, **tags):
    return dict(name=name, make=make, ins=ins, cfg=cfg or {}, minsize=minsize, square=square, sizes=sizes, tags=tags)


def empty(make):
    """the basis for these settings is empty: R2Conv refuses them at construction, the others when used"""
    try:
        return make().basisexpansion.dimension() == 0
    except ValueError as e:
        if 'empty' in str(e): return True
        raise


def convs(sp, rng, n, R=None, transposed=False):
    from e2cnn import nn
    R = R or [r for r in zoo.reps(sp.G, sp.spec, rng, 1, 6)]
    cls = nn.R2ConvTransposed if transposed else nn.R2Conv
    out = []
    for c in layers.conv_cfgs(rng, n, transposed):
        i, o = layers.mktypes(sp, R, rng, c['groups'], 2)
        fi, fo = zoo.fieldtype(sp, i), zoo.fieldtype(sp, o)
        kw = dict(c)

        def make(fi=fi, fo=fo, kw=kw, cls=cls):
            return cls(fi, fo, initialize=True, **kw)
        if empty(make): continue
        out.append(entry(cls.__name__, make, [fi], layers.describe(c), conv=True, cls=cls, raw=kw, export=True, fo=fo))
    return out


def diffops(sp, rng, n):
    from e2cnn import nn
    R = [r for r in zoo.reps(sp.G, sp.spec, rng, 1, 4) if r.size <= 4]
    out = []
    for k in range(n):
        i, o = zoo.mixed(R, rng, int(rng.randint(1, 3))), zoo.mixed(R, rng, int(rng.randint(1, 3)))
        kw = [dict(kernel_size=3, maximum_order=2), dict(kernel_size=5, maximum_order=2), dict(accuracy=2, maximum_order=2), dict(kernel_size=3, maximum_order=1)][int(rng.randint(4))]
        kw = dict(kw, padding=int(rng.randint(3)), stride=int(rng.choice([1, 2])), dilation=int(rng.choice([1, 2])), bias=bool(rng.rand() < .6), padding_mode=str(rng.choice(['zeros', 'reflect', 'circular'])))
        if rng.rand() < .2: kw['padding'] = (1, 2)
        fi, fo = zoo.fieldtype(sp, i), zoo.fieldtype(sp, o)

        def make(fi=fi, fo=fo, kw=kw):
            return nn.R2Diffop(fi, fo, initialize=True, **kw)
        if empty(make): continue
        out.append(entry('R2Diffop', make, [fi], kw, conv=True, cls=nn.R2Diffop, raw=kw, export=True, fo=fo))
    return out


def sets(sp, rng):
    R = [r for r in mods.allreps(sp, rng) if r.size <= 6]
    E = sp.elements(rng, 2)
    return dict(all=R, pw=[r for r in R if 'pointwise' in r.supported_nonlinearities], norm=[r for r in R if 'norm' in r.supported_nonlinearities],
                induced=[r for r in R if any(n.startswith('induced_norm') for n in r.supported_nonlinearities)], gated=[r for r in R if 'gated' in r.supported_nonlinearities],
                orth=[r for r in R if mods.is_orth(mods.mats(r, E))])


def pick(R, rng, n=5):
    return zoo.mixed(R, rng, int(rng.randint(1, n))) if R else []


def pool_cfg(rng, dil=True):
    k = int(rng.choice([1, 2, 3, 4]))
    c = dict(kernel_size=k, stride=[None, 1, 2, 3][int(rng.randint(4))], padding=int(rng.randint(2)), ceil_mode=bool(rng.rand() < .5))
    if dil: c['dilation'] = int(rng.choice([1, 1, 2]))
    if c['padding'] * 2 > k: c['padding'] = 0
    if rng.rand() < .3:
        c.update(kernel_size=(2, 3), stride=[(1, 2), (2, 1), (3, 2)][int(rng.randint(3))], padding=(1, 1))
        if dil: c['dilation'] = (1, 2)
    return c


def pointwise_like(sp, rng, S):
    """nonlinearities, dropout, batch norm, masks: shape preserving or channel changing"""
    from e2cnn import nn
    out = []

    def add(name, cls, rs, *a, **k):
        if not rs: return
        tags = {q: k.pop(q) for q in ('export', 'bn', 'random') if q in k}
        ft = zoo.fieldtype(sp, rs)
        out.append(entry(name, lambda ft=ft, cls=cls, a=a, k=k: cls(ft, *a, **k), [ft], dict(k, args=a), cls=cls, **tags))
    add('ReLU', nn.ReLU, pick(S['pw'], rng), export=True, inplace=bool(rng.rand() < .3))
    add('ELU', nn.ELU, pick(S['pw'], rng), export=True, alpha=float(rng.uniform(.3, 2)), inplace=bool(rng.rand() < .3))
    add('Pointwise', nn.PointwiseNonLinearity, pick(S['pw'], rng), str(rng.choice(['p_relu', 'p_elu', 'p_sigmoid', 'p_tanh'])))
    add('Norm', nn.NormNonLinearity, pick(S['norm'], rng), str(rng.choice(['n_relu', 'n_sigmoid'])), bias=bool(rng.rand() < .5))
    add('Norm', nn.NormNonLinearity, pick(S['norm'], rng), 'squash', bias=False)
    add('InducedNorm', nn.InducedNormNonLinearity, pick(S['induced'], rng), str(rng.choice(['n_relu', 'n_sigmoid'])), bias=bool(rng.rand() < .5))
    rs = pick(S['gated'], rng, 4)
    if rs:
        n = len(rs); tr = sp.G.trivial_representation
        add('Gated1', nn.GatedNonLinearity1, [tr] * n + rs, drop_gates=bool(rng.rand() < .5))
        fg, fx = zoo.fieldtype(sp, [tr] * n), zoo.fieldtype(sp, rs)
        out.append(entry('Gated2', lambda fg=fg, fx=fx: nn.GatedNonLinearity2((fg, fx)), [fg, fx], two=True))
    if sp.spec[0] in 'CD':
        rs = [r for r in pick([r for r in S['pw'] if 'concatenated' in r.supported_nonlinearities and r.size <= 4], rng, 3)]
        if sp.G.order() <= 8: add('Concatenated', nn.ConcatenatedNonLinearity, rs, str(rng.choice(['c_relu', 'c_sigmoid', 'c_tanh'])))
        if sp.kind == 'R' and sp.N > 2: add('VectorField', nn.VectorFieldNonLinearity, [sp.G.regular_representation] * int(rng.randint(1, 3)))
    add('FieldDropout', nn.FieldDropout, pick(S['all'], rng), p=float(rng.choice([.2, .5])), random=True)
    add('PointwiseDropout', nn.PointwiseDropout, pick(S['pw'], rng), p=float(rng.choice([.2, .5])), random=True, export=True)
    bn = dict(momentum=[.1, .3, None][int(rng.randint(3))], affine=bool(rng.rand() < .7), eps=float(rng.choice([1e-5, 1e-2])))
    srt = lambda rs: sorted(rs, key=lambda r: (r.size, r.name))
    add('InnerBatchNorm', nn.InnerBatchNorm, srt(pick(S['pw'], rng)), bn=True, export=True, **bn)
    add('NormBatchNorm', nn.NormBatchNorm, pick([r for r in S['norm'] if not mods.has_trivial(r, sp)], rng), bn=True, **bn)
    add('InducedNormBatchNorm', nn.InducedNormBatchNorm, pick([r for r in S['induced'] if not mods.has_trivial(r, sp)], rng), bn=True, **bn)
    add('GNormBatchNorm', nn.GNormBatchNorm, pick(S['all'], rng), bn=True, **bn)
    if sp.spec[0] in 'CD' and sp.G.order() > 1:
        # gates and gated fields induced from the same subgroup
        ids = [1] if sp.spec[0] == 'C' else [(None, 1), (0, 1)]
        for j, id in enumerate(ids):
            sg, _, _ = sp.G.subgroup(id)
            q = sp.G.quotient_representation(id)
            pool = [sp.G.induced_representation(id, psi) for psi in list(sg.irreps.values())[:3]]
            pool = [p for p in pool if any(nl.startswith('induced_gated') for nl in p.supported_nonlinearities)]
            rs = [pool[i % len(pool)] for i in range(len(out) % 2 + 1)] if pool else []
            for drop in (True, False):
                ft = zoo.fieldtype(sp, [q] * len(rs) + rs)
                gates = ['gate'] * len(rs) + ['gated'] * len(rs)
                if rs: out.append(entry('InducedGated1', lambda ft=ft, gates=gates, drop=drop: nn.InducedGatedNonLinearity1(ft, gates=gates, drop_gates=drop), [ft], dict(drop_gates=drop, subgroup=str(id)), cls=nn.InducedGatedNonLinearity1))
    return out


def spatial(sp, rng, S):
    from e2cnn import nn
    out = []

    def add(name, cls, rs, **k):
        if not rs: return
        tags = {q: k.pop(q) for q in ('export', 'minsize', 'square', 'sizes') if q in k}
        ft = zoo.fieldtype(sp, rs)
        out.append(entry(name, lambda ft=ft, cls=cls, k=k: cls(ft, **k), [ft], k, cls=cls, **tags))
    add('NormMaxPool', nn.NormMaxPool, pick(S['orth'], rng), **pool_cfg(rng))
    add('PointwiseMaxPool', nn.PointwiseMaxPool, pick(S['pw'], rng), export=True, **pool_cfg(rng))
    c = pool_cfg(rng, False); c.pop('stride')
    add('PointwiseMaxPoolAntialiased', nn.PointwiseMaxPoolAntialiased, pick(S['pw'], rng), export=True, stride=int(rng.choice([1, 2, 3])), sigma=float(rng.choice([.4, .6, 1.])), **c)
    add('PointwiseAvgPool', nn.PointwiseAvgPool, pick(S['all'], rng), **pool_cfg(rng, False))
    a = dict(sigma=float(rng.choice([.4, .66, 1.])), stride=int(rng.choice([1, 2, 3])))
    if rng.rand() < .5: a['padding'] = [0, 1, (1, 2)][int(rng.randint(3))]
    if rng.rand() < .3: a['stride'] = (2, 1)
    add('PointwiseAvgPoolAntialiased', nn.PointwiseAvgPoolAntialiased, pick(S['all'], rng), **a)
    osz = [int(rng.randint(1, 5)), (int(rng.randint(1, 5)), int(rng.randint(1, 5)))][int(rng.randint(2))]
    add('PointwiseAdaptiveAvgPool', nn.PointwiseAdaptiveAvgPool, pick(S['pw'], rng), output_size=osz, export=True)
    add('PointwiseAdaptiveMaxPool', nn.PointwiseAdaptiveMaxPool, pick(S['pw'], rng), output_size=osz, export=True)
    mode = str(rng.choice(['bilinear', 'nearest']))
    u = dict(mode=mode)
    if rng.rand() < .5: u['scale_factor'] = [2, 3, 1.5, 2.5][int(rng.randint(4))]
    else: u['size'] = [int(rng.randint(3, 12)), (int(rng.randint(3, 12)), int(rng.randint(3, 12)))][int(rng.randint(2))]
    if mode == 'bilinear' and rng.rand() < .5: u['align_corners'] = True
    add('R2Upsampling', nn.R2Upsampling, pick(S['all'], rng), export=True, **u)
    s = int(rng.randint(4, 9))
    add('MaskModule', nn.MaskModule, pick(S['all'], rng), S=s, margin=float(rng.choice([0., 1., 20.])), sizes=[(s, s)])
    add('GroupPooling', nn.GroupPooling, [S['pw'][0]] * int(rng.randint(1, 4)), export=True)
    add('GroupPooling', nn.GroupPooling, pick(S['pw'], rng))
    add('NormPool', nn.NormPool, pick(S['orth'], rng))
    add('InducedNormPool', nn.InducedNormPool, pick(S['induced'], rng))
    return out


def structural(sp, rng, S):
    """containers over simple modules; branching / merging are exercised separately by C17"""
    from e2cnn import nn
    from e2cnn.nn import FieldType
    out = []
    rs = zoo.mixed(S['all'], rng, int(rng.randint(2, 6)))
    ft = zoo.fieldtype(sp, rs)
    out.append(entry('Identity', lambda: nn.IdentityModule(ft), [ft], export=True))
    perm = [int(i) for i in rng.permutation(len(rs))]
    out.append(entry('Reshuffle', lambda: nn.ReshuffleModule(ft, perm), [ft], dict(permutation=perm)))
    out.append(entry('Disentangle', lambda: nn.DisentangleModule(ft), [ft]))
    ids = restrict_ids(sp)
    if ids:
        id = ids[int(rng.randint(len(ids)))]
        out.append(entry('Restriction', lambda: nn.RestrictionModule(ft, id), [ft], dict(id=id), export=True))
    return out


def restrict_ids(sp):
    """subgroup identifiers accepted by the space's restrict()"""
    k, N = sp.kind, sp.N
    if k == 'T': return []
    if k == 'R': return gr.divisors(N) if N > 0 else [1, 2, 3, 4, 8]
    if k == 'F': return [1]
    if N > 0: return gr.subgroup_ids(('D', N))
    return [(None, 1), (None, 2), (None, 4), (0., 1), (math.pi / 4, 4), (0.3, 2), (None, -1), (.5, -1)]


def chains(sp, rng, S, n=2):
    """sequential networks: conv - bn - nonlinearity - pool - ... - invariant map; all parts exportable"""
    from e2cnn import nn
    out = []
    G = sp.G
    finite = sp.spec[0] in 'CD' and G.order() <= 8
    for k in range(n):
        f0 = zoo.fieldtype(sp, [G.trivial_representation] * int(rng.randint(1, 3)))
        r1 = [G.regular_representation] * 2 if finite else [G.trivial_representation] * 2
        f1 = zoo.fieldtype(sp, r1)
        ks, pad = int(rng.choice([1, 3])), int(rng.randint(2))
        mode = str(rng.choice(['zeros', 'reflect', 'circular']))
        tr, ceil = int(rng.randint(3)), bool(rng.rand() < .5)
        drop = float(rng.choice([.2, .5]))

        def make(f0=f0, f1=f1, ks=ks, pad=pad, mode=mode, tr=tr, ceil=ceil, drop=drop, k=k):
            from collections import OrderedDict
            L = [nn.R2Conv(f0, f1, ks, padding=pad, padding_mode=mode), nn.InnerBatchNorm(f1), nn.ReLU(f1) if tr else nn.ELU(f1), nn.PointwiseDropout(f1, drop)]
            if tr == 0: L.append(nn.PointwiseMaxPool(f1, 2, ceil_mode=ceil))
            if tr == 1: L.append(nn.PointwiseMaxPoolAntialiased(f1, 2, 2))
            if tr == 2: L += [nn.R2Upsampling(f1, 2), nn.R2ConvTransposed(f1, f1, 3, stride=2, output_padding=1, padding=1)]
            L += [nn.R2Conv(f1, f1, 1), nn.GroupPooling(f1)] if finite else [nn.IdentityModule(f1)]
            if k % 2: return nn.SequentialModule(OrderedDict(('l%d' % j, l) for j, l in enumerate(L)))
            return nn.SequentialModule(*L)
        out.append(entry('Sequential', make, [f0], dict(kernel=ks, padding=pad, mode=mode, variant=tr), minsize=6, export=True, bn=True, random=True))
    return out


def everything(sp, rng, level=1, conv=4):
    S = sets(sp, rng)
    out = convs(sp, rng, conv) + convs(sp, rng, max(2, conv // 2), transposed=True) + diffops(sp, rng, 2)
    for _ in range(1 if level == 1 else 3):
        out += pointwise_like(sp, rng, S) + spatial(sp, rng, S) + structural(sp, rng, S)
    out += chains(sp, rng, S, 2)
    return out


def inputs(e, rng, h, w, b=2):
    return [zoo.geo(zoo.randx(ft, rng, b, h, w), ft) for ft in e['ins']]
