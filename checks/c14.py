"""C14: batch normalisation is equivariant and tracks its statistics faithfully."""
from vk import groups as gr, zoo, mods
import numpy as np, math, copy
PROPERTY = 'C14'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: forward() of the batch-norm layers executed on symbolic tensors. Bounded layer: histories of training steps, evaluation, resets and changed '
               'parameters, each compared with statistics computed from the raw data in float64.')
TRUSTED = ['torch BatchNorm3d kernel (compared with the definition on sampled inputs)']
ASSUMPTIONS = ['float32 rounding treated as a tolerance', 'representation names are unique within a field type and contain no dot (torch buffer names)']
BOUND = 'spaces of vk/zoo.py, up to 5 fields, histories of 6 operations'


def sub(r, prefix='induced_norm'):
    k = [int(n.split('_')[-1]) for n in r.supported_nonlinearities if n.startswith(prefix)]
    return k[0] if k else None


def parts(cls, r, sp):
    """list of (columns basis matrix B (size x d), trivial?) : the parts of a field that are scaled as a whole, as projections on the field"""
    if cls == 'inner': return [('perm', np.eye(r.size), None)]
    if cls in ('norm', 'induced'): return [('norm', np.eye(r.size), None)]
    out, p = [], 0
    C, Ci = np.asarray(r.change_of_basis), np.asarray(r.change_of_basis_inv)
    for n in r.irreps:
        irr = sp.G.irreps[n]
        out.append(('triv' if irr.is_trivial() else 'irr', C[:, p:p + irr.size], Ci[p:p + irr.size])); p += irr.size
    return out


def stats(cls, x, r, sp):
    """statistics of the raw field data x (B,size,H,W): list of (mean, biased variance, count) per part"""
    res = []
    for kind, B, Bi in parts(cls, r, sp):
        if kind == 'perm':
            v = x; n = v.size
            res.append((v.mean(), v.var(), n))
        elif kind == 'norm':
            s = r.size if cls == 'norm' else sub(r)
            n = x.size // s
            res.append((0., (x ** 2).sum() / n / s, n))
        else:
            y = np.einsum('ij,bjhw->bihw', Bi, x)
            n = y.size // y.shape[1]
            mu = y.mean() if kind == 'triv' else 0.
            res.append((mu, ((y - mu) ** 2).mean(), n))
    return res


def model_eval(cls, xs, rs, sp, st, eps, train):
    """what the layer must compute with statistics st[field][part] = (mean, var) and parameters (weight, bias)"""
    out = []
    for x, r, ss in zip(xs, rs, st):
        y = np.zeros_like(x)
        for (kind, B, Bi), (mu, var, w, b) in zip(parts(cls, r, sp), ss):
            if kind == 'perm': y += (x - mu) / math.sqrt(var + eps) * w + b
            elif kind == 'norm': y += x / math.sqrt(var + eps) * w
            else:
                v = np.einsum('ij,bjhw->bihw', Bi, x)
                v = (v - mu) / math.sqrt(var + eps) * w + b
                y += np.einsum('ji,bihw->bjhw', B, v)
        out.append(y)
    return np.concatenate(out, 1)


def floats(m):
    """learnable parameters and running statistics, by the name they are stored under (eps and index buffers excluded)"""
    P = {n: p for n, p in m.named_parameters() if p.requires_grad}
    B = {n: b for n, b in m.named_buffers() if b.is_floating_point() and 'running' in n}
    return P, B


def split(x, rs):
    return [x[:, a:b] for a, b in mods.offsets(rs)]


def equiv(t, m, ft, rs, sp, rng, E, what, tol=3e-4):
    import torch
    training = m.training
    x = rng.randn(3, ft.size, 3, 3) * 2 + 1
    m0 = copy.deepcopy(m)
    y = mods.out(copy.deepcopy(m0), x, ft)
    for e in E:
        mm = copy.deepcopy(m0)
        xe = mods.fib(x, rs, e)
        M = sp.M(e)
        grid = np.allclose(M, np.round(M), atol=1e-9)
        if grid: xe = zoo.move(xe, M)
        ye = mods.out(mm, xe, ft)
        ref = mods.fib(y, rs, e)
        if grid: ref = zoo.move(ref, M)
        t.close(ye, ref, what + ' does not commute with the group element', tol, g=e, training=training)
        P, B = floats(mm); m1 = copy.deepcopy(m0); mods.out(m1, x, ft); _, B1 = floats(m1)
        for n in B: t.close(B[n], B1[n], 'statistics recorded differ for transformed data', tol, g=e, buffer=n)
    # in evaluation every position can be transformed differently
    if not training:
        ex = [E[int(rng.randint(len(E)))] for _ in range(3)]
        xe = np.concatenate([mods.fib(x[i:i + 1], rs, e) for i, e in enumerate(ex)])
        ref = np.concatenate([mods.fib(y[i:i + 1], rs, e) for i, e in enumerate(ex)])
        t.close(mods.out(copy.deepcopy(m0), xe, ft), ref, what + ' mixes samples in evaluation', tol)


def one(t, sp, cls, rs, rng, momentum, affine, eps, track=True):
    import torch
    from e2cnn import nn
    C = {'inner': nn.InnerBatchNorm, 'norm': nn.NormBatchNorm, 'induced': nn.InducedNormBatchNorm, 'gnorm': nn.GNormBatchNorm}[cls]
    ft = zoo.fieldtype(sp, rs)
    t.at(space=sp.key, cls=C.__name__, fields=[r.name for r in rs], momentum=momentum, affine=affine, eps=eps, track=track)
    kw = dict(eps=eps, momentum=momentum, affine=affine)
    if cls == 'inner' and not track: kw['track_running_stats'] = False
    m = C(ft, **kw)
    what = C.__name__
    t.check(m.training, 'not in training mode after construction')
    init = {k: v.clone() for k, v in m.state_dict().items()}
    E = sp.elements(rng, 2)
    E = E if len(E) <= 6 else [E[i] for i in rng.choice(len(E), 6, replace=False)]
    np_ = [len(parts(cls, r, sp)) for r in rs]
    # expected running statistics
    run = [[[0., 1.] for _ in range(n)] for n in np_]
    W = [[[1., 0.] for _ in range(n)] for n in np_]
    count = 0
    if affine:
        P, _ = floats(m)
        nw = sum(np_); nb = {'inner': nw, 'norm': 0, 'induced': 0, 'gnorm': sum(sum(k[0] == 'triv' for k in parts(cls, r, sp)) for r in rs)}[cls]
        t.check(sum(p.numel() for p in P.values()) == nw + nb, 'number of learnable parameters')
    else: t.check(len(floats(m)[0]) == 0, 'parameters without affine')
    with torch.no_grad():
        for p, q in floats(m)[0].items():
            base = 1. if abs(float(q.mean()) - 1) < 1e-9 else 0.
            t.check(bool((q == base).all()), 'initial parameters')

    def expect_stats():
        return [[(mu, v, w, b) for (mu, v), (w, b) in zip(f, g)] for f, g in zip(run, W)]

    def do_train(x):
        nonlocal count
        count += 1
        f = momentum if momentum is not None else 1. / count
        new = []
        for k, (xf, r) in enumerate(zip(split(x, rs), rs)):
            cur = []
            for j, (mu, var, n) in enumerate(stats(cls, xf, r, sp)):
                u = var * n / (n - 1) if n > 1 else var
                run[k][j][0] = (1 - f) * run[k][j][0] + f * mu
                run[k][j][1] = (1 - f) * run[k][j][1] + f * u
                if cls == 'inner': cur.append((mu, var))
                elif cls == 'gnorm': cur.append((mu, u))
                else: cur.append((0., run[k][j][1]))
            new.append(cur)
        exp = model_eval(cls, split(x, rs), rs, sp, [[(a, b, w, c) for (a, b), (w, c) in zip(q, g)] for q, g in zip(new, W)], eps, True)
        y = mods.out(m, x, ft)
        t.close(y, exp, what + ' in training does not normalise with the statistics of the batch', 4e-4, step=count)

    def do_eval(x, note):
        m.eval()
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        y = mods.frozen(t, m, x, ft, tol=1e-4)
        for k, v in m.state_dict().items(): t.check(torch.equal(v, sd[k]), 'evaluation changes the state', entry=k)
        if track: t.close(y, model_eval(cls, split(x, rs), rs, sp, expect_stats(), eps, False), what + ' in evaluation does not use the stored statistics: ' + note, 4e-4, steps=count)
        m.train()

    newx = lambda: (rng.randn(3, ft.size, 2, 3) * rng.uniform(.5, 3, (1, ft.size, 1, 1)) + rng.randn(1, ft.size, 1, 1)).astype('float32').astype(float)
    if track: do_eval(newx(), 'initial')
    if cls in ('norm', 'induced', 'gnorm', 'inner') and track:
        x = newx(); xx = x.copy(); do_train(x); do_train(newx()); do_eval(newx(), 'after two steps'); do_train(newx()); do_eval(newx(), 'after three steps')
    # parameters: each weight scales exactly one part of one field, each bias shifts one invariant part
    if affine and track:
        m.eval(); x = newx(); base = mods.out(m, x, ft)
        blocks = mods.offsets(rs)
        seen = set()
        for n, p in floats(m)[0].items():
            for i in range(p.numel()):
                old = float(p.view(-1)[i])
                with torch.no_grad(): p.view(-1)[i] = old + .5
                y = mods.out(m, x, ft)
                with torch.no_grad(): p.view(-1)[i] = old
                d = y - base
                hit = [k for k, (a, b) in enumerate(blocks) if np.abs(d[:, a:b]).max() > 1e-5]
                t.check(len(hit) == 1, 'a parameter influences %d fields' % len(hit), parameter=n, index=i)
                k = hit[0]; r = rs[k]; dk = d[:, blocks[k][0]:blocks[k][1]]
                const = np.abs(dk - dk[:1, :, :1, :1]).max() < 1e-4
                if const and (abs(old) < .25):
                    # a shift: invariant vector
                    v = dk[0, :, 0, 0]
                    for e in E: t.close(np.asarray(r(e)) @ v, v, 'a bias shifts a field along a non-invariant direction', 1e-4, g=e, parameter=n)
                    j = [q for q, (kd, B, Bi) in enumerate(parts(cls, r, sp)) if kd == 'perm' or (kd == 'triv' and np.linalg.norm(v - .5 * B[:, 0]) < 1e-4)]
                    t.check(len(j) == 1 and (k, j[0], 'b') not in seen, 'bias is not attached to one invariant part', parameter=n); seen.add((k, j[0], 'b'))
                else:
                    ss = expect_stats()
                    js = []
                    for q in range(np_[k]):
                        a = [list(z) for z in ss[k]]; c = [list(z) for z in ss[k]]
                        c[q][2] += .5
                        diff = model_eval(cls, [x[:, blocks[k][0]:blocks[k][1]]], [r], sp, [c], eps, False) - model_eval(cls, [x[:, blocks[k][0]:blocks[k][1]]], [r], sp, [a], eps, False)
                        if np.abs(diff - dk).max() < 1e-3 * (1 + np.abs(dk).max()): js.append(q)
                    t.check(len(js) == 1, 'a weight does not scale one part of a field as a whole', parameter=n, index=i)
                    t.check((k, js[0], 'w') not in seen, 'two weights scale the same part', parameter=n); seen.add((k, js[0], 'w'))
        m.train()
    # random parameters and statistics: equivariance in both modes
    with torch.no_grad():
        P, B = floats(m)
        for n, p in P.items(): p.copy_(torch.as_tensor(rng.randn(*p.shape)))
        for n, b in B.items(): b.copy_(torch.as_tensor(rng.uniform(.2, 3, tuple(b.shape)) if 'var' in n else rng.randn(*b.shape)))
    if track:
        m.eval(); equiv(t, m, ft, rs, sp, rng, E, what)
    m.train(); equiv(t, m, ft, rs, sp, rng, E, what)
    # resets
    if track:
        keep = {n: p.detach().clone() for n, p in floats(m)[0].items()}
        m.reset_running_stats()
        for k, v in m.state_dict().items():
            if k in keep: t.check(torch.equal(v, keep[k]), 'resetting the statistics changes the parameters', entry=k)
            else: t.check(torch.equal(v, init[k]), 'resetting the statistics does not restore them', entry=k)
        mods.out(m, newx(), ft)
    m.reset_parameters()
    for k, v in m.state_dict().items(): t.check(torch.equal(v, init[k]), 'resetting does not restore the initial state', entry=k)
    # single-value batches
    if cls != 'inner':
        x = rng.randn(1, ft.size, 1, 1); y = mods.out(m, x, ft)
        t.check(np.isfinite(y).all(), 'a batch with a single position gives non-finite values')
    t.sample('%s %s %s' % (what, sp.key, [r.name for r in rs]))
    return 1


def run(t, i):
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = [r for r in mods.allreps(sp, rng) if r.size <= 8 and '.' not in r.name]
    E = sp.elements(rng, 2)
    MM = {r.name: mods.mats(r, E) for r in R}
    pools = dict(inner=[r for r in R if 'pointwise' in r.supported_nonlinearities],
                 norm=[r for r in R if 'norm' in r.supported_nonlinearities and not mods.has_trivial(r, sp)],
                 induced=[r for r in R if sub(r) and not mods.has_trivial(r, sp)],
                 gnorm=R)
    n = 0
    for cls, pool in pools.items():
        if not pool: continue
        for k in range(4 if not t.thorough else 12):
            rs = zoo.mixed(pool, rng, int(rng.randint(1, 6)))
            n += one(t, sp, cls, rs, rng, [.1, None, .3, .9][k % 4], bool(k != 2), [1e-5, 1e-3, 1e-5, .1][k % 4], track=not (cls == 'inner' and k == 3))
    t.check(n > 0, 'nothing accepted')


def accept(t, i):
    """types on which the layer would not be equivariant are rejected"""
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    for r in mods.allreps(sp, rng):
        if '.' in r.name: continue
        ft = zoo.fieldtype(sp, [r]); ms = mods.mats(r, E)
        for cls in (nn.InnerBatchNorm, nn.NormBatchNorm, nn.InducedNormBatchNorm, nn.GNormBatchNorm):
            t.at(space=sp.key, repr=r.name, cls=cls.__name__)
            m = mods.accepts(cls, ft)
            if m is None:
                t.check(cls is not nn.GNormBatchNorm, 'GNormBatchNorm rejects a representation')
                continue
            if cls is nn.InnerBatchNorm: t.check(mods.is_perm(ms), 'InnerBatchNorm accepts a representation that does not permute the channels')
            if cls is nn.NormBatchNorm: t.check(mods.is_orth(ms) and not mods.has_trivial(r, sp), 'NormBatchNorm accepts a field with an invariant part or a non-orthogonal one')
            if cls is nn.InducedNormBatchNorm: t.check(mods.is_orth(ms) and not mods.has_trivial(r, sp), 'InducedNormBatchNorm accepts a field with an invariant part')
            m.train(); equiv(t, m, ft, [r], sp, rng, E[:5], cls.__name__)
            m.eval(); equiv(t, m, ft, [r], sp, rng, E[:5], cls.__name__)


def build(ctx):
    S = zoo.spaces(2)
    ctx.cases('history', range(len(S)), run, lambda a: '%d:%s' % (a, S[a].key))
    ctx.cases('accept', range(len(S)), accept, lambda a: '%d:%s' % (a, S[a].key))
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c14(ctx)
