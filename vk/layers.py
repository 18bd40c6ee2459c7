"""Random but reproducible layer configurations and naive reference implementations shared by the bounded layers."""
import math
import numpy as np
from . import zoo


def conv_cfgs(rng, n, transposed=False, maxk=5):
    out = []
    for i in range(n):
        k = int(rng.choice([1, 2, 3, 3, 4, 5, 5, 7][:6 if maxk < 7 else 8]))
        c = dict(kernel_size=k, stride=int(rng.choice([1, 1, 2, 3])), dilation=int(rng.choice([1, 1, 2])), padding=int(rng.choice([0, 1, 2, k // 2])),
                 bias=bool(rng.rand() < .7), groups=int(rng.choice([1, 1, 1, 2, 3])))
        opt = rng.randint(0, 8)
        if opt == 1: c['frequencies_cutoff'] = float(rng.choice([-1., -2., -3., 1., 1.5, 3.]))
        if opt == 2: c['maximum_offset'] = int(rng.randint(0, 3))
        if opt == 3 and k > 1: c['rings'] = [0., (k - 1) / 2. * c['dilation'] * .7]; c['sigma'] = [.3, .8]
        if opt == 4: c['sigma'] = .7
        if opt == 5: c['recompute'] = True
        if opt == 6: c['basis_filter'] = lambda d: d['frequency'] != 1
        if opt == 7: c['frequencies_cutoff'] = lambda r: 2 if r > .5 else 0
        if not transposed:
            m = rng.randint(0, 6)
            if m < 3: c['padding_mode'] = ['reflect', 'replicate', 'circular'][m]
            if rng.rand() < .15: c['padding'] = (1, 1)
        elif rng.rand() < .25 and c['stride'] > 1: c['output_padding'] = 1
        out.append(c)
    return out


def describe(c):
    return {k: (v if not callable(v) else '<fn>') for k, v in c.items()}


def mktypes(sp, R, rng, groups, nf=3):
    """field types with repeated and interleaved representations"""
    i, o = zoo.mixed(R, rng, int(rng.randint(1, nf + 1))), zoo.mixed(R, rng, int(rng.randint(1, nf + 1)))
    return i * groups, o * groups


PADS = {'zeros': 'constant', 'reflect': 'reflect', 'replicate': 'edge', 'circular': 'wrap'}


def ref_conv(x, w, b, stride, padding, dilation, groups, mode='zeros'):
    """plain nested-loop cross-correlation in float64"""
    x, w = np.asarray(x, float), np.asarray(w, float)
    p = padding if isinstance(padding, tuple) else (padding, padding)
    if max(p): x = np.pad(x, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])), mode=PADS[mode])
    B, C, H, W = x.shape
    O, Ig, kh, kw = w.shape
    ho, wo = (H - dilation * (kh - 1) - 1) // stride + 1, (W - dilation * (kw - 1) - 1) // stride + 1
    y = np.zeros((B, O, ho, wo))
    Og = O // groups
    for g in range(groups):
        xs, ws = x[:, g * Ig:(g + 1) * Ig], w[g * Og:(g + 1) * Og]
        for a in range(kh):
            for c in range(kw):
                xx = xs[:, :, a * dilation:a * dilation + (ho - 1) * stride + 1:stride, c * dilation:c * dilation + (wo - 1) * stride + 1:stride]
                y[:, g * Og:(g + 1) * Og] += np.einsum('oi,bixy->boxy', ws[:, :, a, c], xx)
    if b is not None: y += np.asarray(b, float).reshape(1, -1, 1, 1)
    return y


def ref_conv_t(x, w, b, stride, padding, dilation, groups, output_padding=0):
    x, w = np.asarray(x, float), np.asarray(w, float)
    B, C, H, W = x.shape
    I, Og, kh, kw = w.shape
    Ig = I // groups
    fh, fw = (H - 1) * stride + dilation * (kh - 1) + 1 + output_padding, (W - 1) * stride + dilation * (kw - 1) + 1 + output_padding
    y = np.zeros((B, Og * groups, fh, fw))
    for g in range(groups):
        for a in range(kh):
            for c in range(kw):
                y[:, g * Og:(g + 1) * Og, a * dilation:a * dilation + (H - 1) * stride + 1:stride, c * dilation:c * dilation + (W - 1) * stride + 1:stride] += \
                    np.einsum('io,bixy->boxy', w[g * Ig:(g + 1) * Ig, :, a, c], x[:, g * Ig:(g + 1) * Ig])
    y = y[:, :, padding:fh - padding or None, padding:fw - padding or None] if padding else y
    if b is not None: y = y + np.asarray(b, float).reshape(1, -1, 1, 1)
    return y


def input_size(cfg, transposed=False, want_symmetric=True, base=6):
    """an input size for which the sampling grid of the layer is symmetric"""
    p = cfg['padding'] if not isinstance(cfg['padding'], tuple) else cfg['padding'][0]
    for n in range(base, base + 12):
        span = n + 2 * p - cfg['dilation'] * (cfg['kernel_size'] - 1) - 1
        if transposed:
            if (n - 1) * cfg['stride'] + cfg['dilation'] * (cfg['kernel_size'] - 1) + 1 - 2 * p >= 1: return n
            continue
        if cfg.get('padding_mode') == 'reflect' and p >= n: continue
        if cfg.get('padding_mode') == 'circular' and p > n: continue
        if span >= 0 and (not want_symmetric or span % cfg['stride'] == 0): return n
    return None


def weights_matrix(be, shape=None):
    """all expanded filters, one per learnable weight: array (dim, out, in, taps) obtained from the real expansion"""
    import torch
    D = be.dimension()
    with torch.no_grad():
        return np.stack([be(torch.eye(D)[i]).numpy().astype(float) for i in range(D)]) if D else None
