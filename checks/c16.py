"""C16: dropout treats fields as units and is the identity in evaluation."""
from vk import zoo, mods
import numpy as np, copy
PROPERTY = 'C16'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: FieldDropout/PointwiseDropout.forward executed on symbolic tensors with a symbolic keep-mask: every output entry is proved to be x times the mask entry of its own '
               'field, position and sample. Bounded layer: many draws on concrete tensors, exact two-valuedness per field and statistics of the kept units within 6 standard deviations.')
TRUSTED = ['torch uniform_ / F.dropout draw independent uniform numbers']
ASSUMPTIONS = ['the random generator is trusted; independence is only tested statistically (bounded)']
BOUND = 'spaces of vk/zoo.py, up to 6 fields per type, probabilities 0, .1, .3, .5, .8, 1, about 10^5 draws per setting'


def units(x, y, rs, p, t, field=True):
    """keep decisions of the units (B, nunits, H, W); checks that each unit is 0 or x/(1-p) as a whole"""
    out = []
    for (a, b) in mods.offsets(rs):
        xf, yf = x[:, a:b], y[:, a:b]
        dead = yf == 0
        kept = np.isclose(yf, xf / (1 - p) if p < 1 else xf, rtol=1e-5, atol=0)
        t.check((dead | kept).all(), 'an entry is neither dropped nor scaled by 1/(1-p)', p=p)
        if field:
            t.check((dead.all(1) | kept.all(1)).all(), 'a field is dropped only in part', size=b - a, p=p)
            out.append(kept.all(1)[:, None])
        else: out.append(kept)
    return np.concatenate(out, 1)


def stat(t, K, p, msg):
    """K: (B, U, H, W) booleans which must be independent Bernoulli(1-p)"""
    q = 1 - p
    n = K.size
    if p in (0., 1.):
        # float32 draws of exactly 0 have probability 2^-24 each
        t.check((K.mean() > 1 - 1e-3) if p == 0. else (not K.any()), msg + ': p=%g' % p)
        return
    sd = (p * q / n) ** .5
    t.check(abs(K.mean() - q) < 6 * sd, msg + ': wrong rate', rate=K.mean(), expected=q)
    # per unit
    m = K.mean((0, 2, 3)); s1 = (p * q / (n / K.shape[1])) ** .5
    t.check((np.abs(m - q) < 6.5 * s1).all(), msg + ': wrong rate for some field', rates=m, expected=q)
    # pairwise agreement along every axis: P(equal) = p^2+q^2 for independent units
    e = p * p + q * q
    for ax in range(4):
        for lag in (1, 2):
            if K.shape[ax] <= lag: continue
            A, B = np.take(K, range(K.shape[ax] - lag), ax), np.take(K, range(lag, K.shape[ax]), ax)
            k = (A == B)
            t.check(abs(k.mean() - e) < 8 * (e * (1 - e) / k.size) ** .5 + 1e-9 if e < 1 else True, msg + ': units are not independent', axis=ax, lag=lag, agreement=k.mean(), expected=e)


def field(t, sp, level):
    import torch
    from e2cnn import nn
    rng = t.rng()
    R = mods.allreps(sp, rng, 1, 6)
    trials = 5 if level == 1 else 14
    for i in range(trials):
        rs = zoo.mixed(R, rng, int(rng.randint(1, 7)))
        if i == 0: rs = sorted(rs, key=lambda r: r.size)
        if i == 1 and len(R) > 1: rs = [R[0], R[-1], R[0], R[-1], R[-1]]
        ft = zoo.fieldtype(sp, rs)
        for p in ([.5, .3] if i else [0., .1, .3, .5, .8, 1.]):
            t.at(space=sp.key, fields=[r.name for r in rs], p=p)
            x = torch.as_tensor(rng.randn(6, ft.size, 30, 30).astype('float32'))
            x = x + .1 * torch.sign(x)
            t.sample(dict(space=sp.key, fields=[r.name for r in rs], p=p))
            for lay, v in mods.variants(x):
                for inplace in (False, True):
                    m = nn.FieldDropout(ft, p=p, inplace=inplace)
                    t.check(m.in_type == ft and m.out_type == ft, 'types')
                    v0 = v.clone()
                    w = v if lay != 'slice' else v
                    inp = zoo.geo(w, ft)
                    y = m(inp)
                    t.check(y.type == ft, 'type of the output')
                    if inplace:
                        t.check(torch.equal(w, y.tensor), 'in-place dropout must modify its input', layout=lay)
                        w.copy_(v0)
                        # compare the result, which may alias the input
                        y2 = m(zoo.geo(w.clone(), ft)).tensor
                    else:
                        t.check(torch.equal(w, v0), 'dropout changed its input', layout=lay)
                        y2 = y.tensor
                    K = units(x.numpy(), y2.numpy(), rs, p, t)
                    if lay in ('contiguous', 'channels_last'): stat(t, K, p, 'field dropout (%s%s)' % (lay, ', in place' if inplace else ''))
                    # a second draw differs
                    if 0 < p < 1:
                        K2 = units(x.numpy(), m(zoo.geo(x.clone(), ft)).tensor.numpy(), rs, p, t)
                        e = p * p + (1 - p) ** 2
                        t.check(abs((K2 == K).mean() - e) < 8 * (e * (1 - e) / K.size) ** .5, 'successive draws are correlated')
                    m.eval()
                    z = m(zoo.geo(x.clone(), ft))
                    t.check(torch.equal(z.tensor, x) and z.type == ft, 'not the identity in evaluation')
                    m.train()
                    K3 = units(x.numpy(), m(zoo.geo(x.clone(), ft)).tensor.numpy(), rs, p, t)
                    if 0 < p < 1: t.check(not K3.all(), 'no dropout after switching back to training')
        # other dtypes, sizes, and gradients: d out / d in is the same mask
        m = nn.FieldDropout(ft, p=.4)
        xd = torch.as_tensor(rng.randn(2, ft.size, 3, 7)).requires_grad_(True)
        y = m(zoo.geo(xd, ft)).tensor
        t.check(y.dtype == xd.dtype, 'dtype changed')
        y.sum().backward()
        mask = np.where(y.detach().numpy() == 0, 0., 1 / .6)
        t.close(xd.grad, mask, 'gradient is not the mask', 1e-5)
    for p in (-.1, 1.1, 2., -1.):
        t.raises(lambda: nn.FieldDropout(ft, p=p), 'probability outside [0,1]')
    other = zoo.fieldtype(sp, rs + [R[0]])
    t.raises(lambda: nn.FieldDropout(ft)(zoo.geo(zoo.randx(other, rng), other)), 'input of another type')


def pointwise(t, sp, level):
    import torch
    from e2cnn import nn
    rng = t.rng()
    R = [r for r in mods.allreps(sp, rng, 1, 6)]
    E = sp.elements(rng, 3)
    P = []
    for r in R:
        m = mods.accepts(nn.PointwiseDropout, zoo.fieldtype(sp, [r]))
        if m is None: continue
        # what it accepts must be sent to itself by permuting entries up to sign: zeroing entries stays within the type
        P.append(r)
    for i in range(3 if level == 1 else 8):
        rs = zoo.mixed(P, rng, int(rng.randint(1, 5)))
        ft = zoo.fieldtype(sp, rs)
        for p in ([.5, .3] if i else [0., .1, .5, .8, 1.]):
            x = torch.as_tensor(rng.randn(6, ft.size, 25, 25).astype('float32'))
            x = x + .1 * torch.sign(x)
            for inplace in (False, True):
                t.at(space=sp.key, fields=[r.name for r in rs], p=p, inplace=inplace)
                m = nn.PointwiseDropout(ft, p=p, inplace=inplace)
                w = x.clone()
                y = m(zoo.geo(w, ft))
                t.check(y.type == ft, 'type of the output')
                if inplace: t.check(torch.equal(w, y.tensor), 'in-place dropout must modify its input')
                else: t.check(torch.equal(w, x), 'dropout changed its input')
                K = units(x.numpy(), y.tensor.numpy(), rs, p, t, field=False)
                stat(t, K, p, 'pointwise dropout')
                m.eval()
                t.check(torch.equal(m(zoo.geo(x.clone(), ft)).tensor, x), 'not the identity in evaluation')
                m.train()
                K = units(x.numpy(), m(zoo.geo(x.clone(), ft)).tensor.numpy(), rs, p, t, field=False)
                if 0 < p < 1: t.check(not K.all(), 'no dropout after switching back to training')
                e = copy.deepcopy(m).export()
                t.check(torch.equal(e(x.clone()), x), 'the exported dropout in evaluation is not the identity')
                if p > 0: e.train(); units(x.numpy(), e(x.clone()).detach().numpy(), rs, p, t, field=False)
    for p in (-.1, 1.1, 2., -1.):
        t.raises(lambda: nn.PointwiseDropout(ft, p=p), 'probability outside [0,1]')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(lv)
    ctx.cases('field', S, lambda t, s: field(t, s, lv), str)
    ctx.cases('pointwise', S, lambda t, s: pointwise(t, s, lv), str)
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c16(ctx)
