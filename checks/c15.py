"""C15: pooling, invariant maps, upsampling and masking respect the symmetry."""
from vk import groups as gr, zoo, mods
import numpy as np, math
PROPERTY = 'C15'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: forward() on symbolic tensors. Bounded layer: every layer compared with a nested-loop definition and with the action of every group element on the '
               'fibres and of the grid elements on the plane.')
TRUSTED = ['torch pooling/interpolate kernels (compared with nested-loop definitions on sampled inputs)']
ASSUMPTIONS = ['float32 rounding treated as a tolerance', 'inputs without ties between fields of equal norm']
BOUND = 'spaces of vk/zoo.py, windows 1..4, strides 1..3, paddings 0..1, dilations 1..2, ceil_mode'


def pair(v): return v if isinstance(v, tuple) else (v, v)


def osize(n, k, s, p, d, ceil):
    o = (n + 2 * p - d * (k - 1) - 1)
    o = -(-o // s) + 1 if ceil else o // s + 1
    if ceil and (o - 1) * s >= n + p: o -= 1
    return o


def windows(h, w, k, s, p, d, ceil):
    (kh, kw), (sh, sw), (ph, pw), (dh, dw) = map(pair, (k, s, p, d))
    oh, ow = osize(h, kh, sh, ph, dh, ceil), osize(w, kw, sw, pw, dw, ceil)
    W = {}
    for i in range(oh):
        for j in range(ow):
            W[i, j] = [(i * sh - ph + a * dh, j * sw - pw + b * dw) for a in range(kh) for b in range(kw)]
    return oh, ow, W


def inside(c, h, w): return [(a, b) for a, b in c if 0 <= a < h and 0 <= b < w]


def maxpool(x, **k):
    h, w = x.shape[2:]; oh, ow, W = windows(h, w, **k)
    y = np.zeros(x.shape[:2] + (oh, ow))
    for (i, j), c in W.items(): y[:, :, i, j] = np.max([x[:, :, a, b] for a, b in inside(c, h, w)], 0)
    return y


def normpool(x, rs, **k):
    h, w = x.shape[2:]; oh, ow, W = windows(h, w, **k)
    y = np.zeros(x.shape[:2] + (oh, ow))
    for (p, q) in mods.offsets(rs):
        nr = np.sqrt((x[:, p:q] ** 2).sum(1))
        for (i, j), c in W.items():
            c = inside(c, h, w)
            for b in range(len(x)):
                v = [nr[b, u, z] for u, z in c]
                u, z = c[int(np.argmax(v))]
                y[b, p:q, i, j] = x[b, p:q, u, z]
    return y


def avgpool(x, k, s, p, d, ceil):
    h, w = x.shape[2:]; oh, ow, W = windows(h, w, k, s, p, d, ceil)
    (ph, pw) = pair(p)
    y = np.zeros(x.shape[:2] + (oh, ow))
    for (i, j), c in W.items():
        n = len([1 for a, b in c if -ph <= a < h + ph and -pw <= b < w + pw])      # padding counts, positions beyond it do not
        y[:, :, i, j] = sum(x[:, :, a, b] for a, b in inside(c, h, w)) / n if inside(c, h, w) else 0.
    return y


def gauss(size, sigma):
    c = (size - 1) / 2.
    g = np.array([[math.exp(-((i - c) ** 2 + (j - c) ** 2) / (2 * sigma ** 2)) for i in range(size)] for j in range(size)])
    return g / g.sum()


def blur(x, f, s, p):
    (sh, sw), (ph, pw) = pair(s), pair(p)
    x = np.pad(x, ((0, 0), (0, 0), (ph, ph), (pw, pw)))
    k = len(f)
    oh, ow = (x.shape[2] - k) // sh + 1, (x.shape[3] - k) // sw + 1
    y = np.zeros(x.shape[:2] + (oh, ow))
    for a in range(k):
        for b in range(k): y += f[a, b] * x[:, :, a:a + (oh - 1) * sh + 1:sh, b:b + (ow - 1) * sw + 1:sw]
    return y


def adaptive(x, size, fn):
    h, w = x.shape[2:]; oh, ow = size
    y = np.zeros(x.shape[:2] + (oh, ow))
    for i in range(oh):
        for j in range(ow):
            a, b = i * h // oh, -(-(i + 1) * h // oh)
            c, d = j * w // ow, -(-(j + 1) * w // ow)
            y[:, :, i, j] = fn(x[:, :, a:b, c:d])
    return y


def upsample(x, oh, ow, mode, align, scale=None):
    h, w = x.shape[2:]
    y = np.zeros(x.shape[:2] + (oh, ow))
    sy = 1. / scale if scale else h / oh
    sx = 1. / scale if scale else w / ow

    def src(i, n, o, s):
        if mode == 'nearest': return None
        if align: return i * (n - 1) / (o - 1) if o > 1 else 0.
        return max((i + .5) * s - .5, 0.)
    for i in range(oh):
        for j in range(ow):
            if mode == 'nearest': y[:, :, i, j] = x[:, :, min(int(math.floor(i * sy + 1e-9)), h - 1), min(int(math.floor(j * sx + 1e-9)), w - 1)]; continue
            a, b = src(i, h, oh, sy), src(j, w, ow, sx)
            a0, b0 = min(int(a), h - 1), min(int(b), w - 1); a1, b1 = min(a0 + 1, h - 1), min(b0 + 1, w - 1)
            fa, fb = a - a0, b - b0
            y[:, :, i, j] = (1 - fa) * ((1 - fb) * x[:, :, a0, b0] + fb * x[:, :, a0, b1]) + fa * ((1 - fb) * x[:, :, a1, b0] + fb * x[:, :, a1, b1])
    return y


def data(rng, ft, h, w): return rng.randn(2, ft.size, h, w).astype('float32').astype(float)


def value(t, m, ft, rs, x, exp, what, tol=2e-5):
    y = mods.frozen(t, m, x, ft)
    t.close(y, exp, what + ' does not compute the stated value', tol)
    return y


def equi(t, m, ft, rs, ro, sp, E, G, rng, n, what, tol=3e-4):
    """fibres: all elements; plane: the grid elements (n chosen so that the sampling grid is symmetric)"""
    x = data(rng, ft, n, n); y = mods.out(m, x, ft)
    for e in E: t.close(mods.out(m, mods.fib(x, rs, e), ft), mods.fib(y, ro, e), what + ' does not commute with channel mixing', tol, g=e)
    if y.shape[2] == y.shape[3]:
        for e in G:
            M = sp.M(e)
            t.close(mods.out(m, zoo.act(x, zoo.rho(rs, e), M), ft), zoo.act(y, zoo.rho(ro, e), M), what + ' does not commute with the grid element', tol, g=e, size=n)


def spatial(t, i):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 1); G = sp.grid_elements()
    E = E if len(E) <= 6 else [E[j] for j in rng.choice(len(E), 6, replace=False)]
    R = [r for r in mods.allreps(sp, rng) if r.size <= 6]
    pw = [r for r in R if 'pointwise' in r.supported_nonlinearities]
    orth = [r for r in R if mods.is_orth(mods.mats(r, E + G))]
    N = 6 if not t.thorough else 24
    for k in range(N):
        cfg = dict(kernel_size=int(rng.choice([1, 2, 3, 4])), stride=[None, 1, 2, 3][int(rng.randint(4))], padding=int(rng.randint(2)), dilation=int(rng.choice([1, 1, 2])), ceil_mode=bool(rng.rand() < .4))
        if cfg['padding'] * 2 > cfg['kernel_size']: cfg['padding'] = 0
        if k == 2: cfg['kernel_size'] = (2, 3); cfg['stride'] = (1, 2); cfg['padding'] = (1, 1); cfg['dilation'] = (1, 1)
        if k == 3: cfg['stride'] = (2, 1); cfg['padding'] = (0, 0)
        st = cfg['stride'] if cfg['stride'] is not None else cfg['kernel_size']
        K = dict(k=cfg['kernel_size'], s=st, p=cfg['padding'], d=cfg['dilation'], ceil=cfg['ceil_mode'])
        h, w = int(rng.randint(7, 10)), int(rng.randint(7, 10))
        sq = not isinstance(cfg['kernel_size'], tuple) and not isinstance(cfg['stride'], tuple)
        # a size whose sampling grid is symmetric
        def sym(extra=0):
            for n in range(7, 16):
                q = n + 2 * pair(K['p'])[0] - pair(K['d'])[0] * (pair(K['k'])[0] - 1) - 1
                if q % pair(K['s'])[0] == 0: return n
        if pw:
            rs = zoo.mixed(pw, rng, int(rng.randint(1, 4))); ft = zoo.fieldtype(sp, rs); x = data(rng, ft, h, w)
            t.at(space=sp.key, fields=[r.name for r in rs], cfg=cfg, size=(h, w), cls='PointwiseMaxPool')
            m = nn.PointwiseMaxPool(ft, **cfg)
            value(t, m, ft, rs, x, maxpool(x, **K), 'PointwiseMaxPool')
            if sq: equi(t, m, ft, rs, rs, sp, E, G, rng, sym(), 'PointwiseMaxPool')
            c2 = dict(cfg, dilation=1, sigma=float(rng.choice([.6, .4, 1.])), ceil_mode=False)
            if cfg['dilation'] == 1 or True:
                t.at(space=sp.key, fields=[r.name for r in rs], cfg=c2, size=(h, w), cls='PointwiseMaxPoolAntialiased')
                m = nn.PointwiseMaxPoolAntialiased(ft, **c2)
                fs = 2 * int(round(4 * c2['sigma'])) + 1
                p = pair(K['p'])
                exp = blur(maxpool(x, **dict(K, s=1, d=1, ceil=False)), gauss(fs, c2['sigma']), st, tuple(q + (fs - 1) // 2 for q in p))
                value(t, m, ft, rs, x, exp, 'PointwiseMaxPoolAntialiased')
                if sq:
                    for n in range(7, 16):
                        if (n + 2 * p[0] - K['k'] + 1 + 2 * p[0] + fs - 1 - fs) % pair(st)[0] == 0: break
                    equi(t, m, ft, rs, rs, sp, E, G, rng, n, 'PointwiseMaxPoolAntialiased')
            for cls, fn in ((nn.PointwiseAdaptiveMaxPool, lambda v: v.max((2, 3))), (nn.PointwiseAdaptiveAvgPool, lambda v: v.mean((2, 3)))):
                size = [1, 2, (3, 2), 4, (1, 4), 3][k % 6]
                t.at(space=sp.key, fields=[r.name for r in rs], output_size=size, size=(h, w), cls=cls.__name__)
                m = cls(ft, size)
                value(t, m, ft, rs, x, adaptive(x, pair(size), fn), cls.__name__)
                if isinstance(size, int): equi(t, m, ft, rs, rs, sp, E, G, rng, 8, cls.__name__)
        # layers accepting any representation
        rs = zoo.mixed(R, rng, int(rng.randint(1, 4))); ft = zoo.fieldtype(sp, rs); x = data(rng, ft, h, w)
        c = {q: v for q, v in cfg.items() if q != 'dilation'}
        t.at(space=sp.key, fields=[r.name for r in rs], cfg=c, size=(h, w), cls='PointwiseAvgPool')
        m = nn.PointwiseAvgPool(ft, **c)
        value(t, m, ft, rs, x, avgpool(x, K['k'], K['s'], K['p'], 1, K['ceil']), 'PointwiseAvgPool')
        if sq:
            for n in range(7, 16):
                if (n + 2 * pair(K['p'])[0] - K['k']) % pair(st)[0] == 0: break
            equi(t, m, ft, rs, rs, sp, E, G, rng, n, 'PointwiseAvgPool')
        sigma = float(rng.choice([.4, .6, .66, 1.])); s = [1, 2, (2, 2), 3][k % 4]; pad = [None, None, 0, 2, (1, 2)][int(rng.randint(5))]
        t.at(space=sp.key, fields=[r.name for r in rs], sigma=sigma, stride=s, padding=pad, size=(h, w), cls='PointwiseAvgPoolAntialiased')
        m = nn.PointwiseAvgPoolAntialiased(ft, sigma, s, padding=pad)
        fs = 2 * int(round(3 * sigma)) + 1
        pd = pair(pad if pad is not None else (fs - 1) // 2)
        value(t, m, ft, rs, x, blur(x, gauss(fs, sigma), s, pd), 'PointwiseAvgPoolAntialiased')
        if pd[0] == pd[1]:
            for n in range(7, 16):
                if (n + 2 * pd[0] - fs) % pair(s)[0] == 0: break
            equi(t, m, ft, rs, rs, sp, E, G, rng, n, 'PointwiseAvgPoolAntialiased')
        # upsampling
        mode = ['bilinear', 'nearest'][k % 2]; al = bool(rng.rand() < .5)
        kw = dict(scale_factor=int(rng.choice([1, 2, 3]))) if rng.rand() < .6 else dict(size=[9, (9, 11), 14][int(rng.randint(3))])
        t.at(space=sp.key, fields=[r.name for r in rs], cfg=kw, mode=mode, align=al, size=(h, w), cls='R2Upsampling')
        m = nn.R2Upsampling(ft, mode=mode, align_corners=al, **kw)
        oh, ow = (h * kw['scale_factor'], w * kw['scale_factor']) if 'size' not in kw else pair(kw['size'])
        value(t, m, ft, rs, x, upsample(x, oh, ow, mode, al), 'R2Upsampling', 1e-4)
        if oh == ow or 'size' not in kw:
            if mode == 'bilinear' or 'size' not in kw: equi(t, m, ft, rs, rs, sp, E, G, rng, 7, 'R2Upsampling')
        # norm max pool: orthogonal fields
        if orth:
            rs = zoo.mixed(orth, rng, int(rng.randint(1, 5))); ft = zoo.fieldtype(sp, rs); x = data(rng, ft, h, w)
            t.at(space=sp.key, fields=[r.name for r in rs], cfg=cfg, size=(h, w), cls='NormMaxPool')
            m = nn.NormMaxPool(ft, **cfg)
            value(t, m, ft, rs, x, normpool(x, rs, **K), 'NormMaxPool')
            if sq: equi(t, m, ft, rs, rs, sp, E, G, rng, sym(), 'NormMaxPool')
        # mask
        rs = zoo.mixed(R, rng, 2); ft = zoo.fieldtype(sp, rs); S = int(rng.randint(3, 12)); mg = float(rng.choice([0., 10., 30.]))
        t.at(space=sp.key, S=S, margin=mg, cls='MaskModule')
        m = nn.MaskModule(ft, S, margin=mg); x = data(rng, ft, S, S); y = mods.frozen(t, m, x, ft)
        c = (S - 1) / 2; rad = c * (1 - mg / 100)
        rr = np.array([[math.hypot(a - c, b - c) for b in range(S)] for a in range(S)])
        ins = rr <= rad - 1e-6; far = rr > rad + 1e-6
        t.check(np.array_equal(y[:, :, ins], x[:, :, ins]), 'points inside the disk are changed by the mask')
        fac = y / x
        t.check((np.abs(fac[:, :, far]) < 1).all() and (fac[:, :, far] >= 0).all(), 'points outside the disk are not damped')
        t.close(fac, np.broadcast_to(fac[:1, :1], fac.shape), 'the mask differs between channels or samples', 1e-4)
        for v in np.unique(np.round(rr, 6)):
            f = fac[0, 0][np.abs(rr - v) < 1e-5]
            t.close(f, np.full_like(f, f[0]), 'the mask is not rotation invariant', 1e-4)
        order = np.argsort(rr.reshape(-1)); ff = fac[0, 0].reshape(-1)[order]
        t.check((np.diff(ff) < 1e-4).all(), 'the mask does not decay with the distance')
        # exp(-(r^2 - R^2)/4) is the documented smooth decay to zero: at distance > R by 4 pixels it is below 2%
        dp = rr > math.sqrt(rad ** 2 + 16)
        t.check((np.abs(fac[:, :, dp]) < .02).all(), 'points far outside the disk are not masked')
        for e in G: t.close(mods.out(m, zoo.act(x, zoo.rho(rs, e), sp.M(e)), ft), zoo.act(y, zoo.rho(rs, e), sp.M(e)), 'mask does not commute with the grid element', 1e-4, g=e)
        t.raises(lambda: mods.out(m, data(rng, ft, S, S + 1), ft), 'mask accepts another grid size')


def invariant(t, i):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    R = mods.allreps(sp, rng)
    MM = {r.name: mods.mats(r, E) for r in R}
    sub = lambda r: next((int(n.split('_')[-1]) for n in r.supported_nonlinearities if n.startswith('induced_norm')), None)
    pools = {nn.GroupPooling: [r for r in R if 'pointwise' in r.supported_nonlinearities], nn.NormPool: [r for r in R if mods.is_orth(MM[r.name])], nn.InducedNormPool: [r for r in R if sub(r)]}
    F = {nn.GroupPooling: lambda v, r: v.max(1), nn.NormPool: lambda v, r: np.sqrt((v ** 2).sum(1)),
         nn.InducedNormPool: lambda v, r: np.sqrt((v.reshape(v.shape[0], -1, sub(r), *v.shape[2:]) ** 2).sum(2)).max(1)}
    for cls, pool in pools.items():
        if not pool: continue
        for k in range(5 if not t.thorough else 20):
            rs = zoo.mixed(pool, rng, int(rng.randint(1, 6))); ft = zoo.fieldtype(sp, rs)
            t.at(space=sp.key, fields=[r.name for r in rs], cls=cls.__name__)
            m = cls(ft); x = data(rng, ft, 2, 3); x[0, :, 0, 0] = 0; x[1, :, 1, 1] *= -1
            t.check(m.out_type.representations == [sp.gs.trivial_repr] * len(rs), 'output type is not one invariant scalar per field')
            y = mods.frozen(t, m, x, ft)
            exp = np.stack([F[cls](x[:, a:b], r) for r, (a, b) in zip(rs, mods.offsets(rs))], 1)
            t.close(y, exp, cls.__name__ + ' does not compute the stated invariant of each field', 1e-5)
            for e in E: t.close(mods.out(m, mods.fib(x, rs, e), ft), y, cls.__name__ + ' output is changed by the group action', 2e-4, g=e)
    # rejection
    for r in R:
        ft = zoo.fieldtype(sp, [r]); x = data(rng, ft, 1, 2)
        for cls in (nn.GroupPooling, nn.InducedNormPool, nn.PointwiseMaxPool, nn.PointwiseAdaptiveMaxPool, nn.PointwiseMaxPoolAntialiased):
            t.at(space=sp.key, repr=r.name, cls=cls.__name__)
            m = mods.accepts(cls, ft, *([2] if 'Pointwise' in cls.__name__ else []))
            if m is None:
                t.check(cls is nn.InducedNormPool or not (r.name == 'regular' or r.is_trivial()), cls.__name__ + ' rejects regular or trivial fields'); continue
            if cls is not nn.InducedNormPool: t.check(mods.is_perm(MM[r.name]), cls.__name__ + ' accepts a representation that does not permute the channels')
            else:
                y = mods.out(m, x, ft)
                for e in E: t.close(mods.out(m, mods.fib(x, [r], e), ft), y, 'InducedNormPool output is changed by the group action', 2e-4, g=e)


def build(ctx):
    S = zoo.spaces(2)
    ctx.cases('spatial', range(len(S)), spatial, lambda a: '%d:%s' % (a, S[a].key))
    ctx.cases('invariant', range(len(S)), invariant, lambda a: '%d:%s' % (a, S[a].key))
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c15(ctx)
