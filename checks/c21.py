"""C21: weight initialisation has the scale it promises."""
from vk import zoo, layers, mods, catalog
import numpy as np, math
PROPERTY = 'C21'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the standard deviations computed for a basis expansion are proved to satisfy the normalisation identity for symbolic counts; deltaorthonormal_init executed on a symbolic '
               'weight tensor. Bounded layer: variances estimated from many draws and compared with the counts of the reported basis, delta-orthogonal filters checked for orthogonality.')
TRUSTED = ['torch.randn / scipy.stats.ortho_group draw from the stated distributions']
ASSUMPTIONS = ['statistical decisions within 6.5 standard deviations']
BOUND = 'spaces of vk/zoo.py, up to 4 fields per side, 1200 draws per layer'


def expected_var(info):
    """variance of every weight: 1 shared equally among the different input irreps reaching an output irrep, then among the filters"""
    per = {}
    for a in info: per.setdefault(a['out_irreps_position'], {}).setdefault(a['in_irrep'], []).append(a['idx'])
    v = np.zeros(len(info))
    for o, d in per.items():
        for irr, idx in d.items():
            for i in idx: v[i] = 1. / (len(d) * len(idx))
    return v, per


def he(t, sp, e, rng, draws):
    import torch
    from e2cnn.nn import init
    m = e['make'](); be = m.basisexpansion
    info = [dict(a) for a in be.get_basis_info()]; D = be.dimension()
    t.at(space=sp.key, layer=e['name'], cfg=e['cfg'], inp=[r.name for r in m.in_type.representations], out=[r.name for r in m.out_type.representations])
    t.check(m.weights.shape == (D,) and bool(torch.isfinite(m.weights).all()) and bool((m.weights != 0).all()), 'weights of a new layer')
    v, per = expected_var(info)
    for o, d in per.items(): t.check(abs(sum(v[i] for ix in d.values() for i in ix) - 1) < 1e-9, 'oracle')
    with torch.no_grad(): F = np.stack([be(torch.eye(D)[i]).numpy().astype(float) for i in range(D)])
    n2 = (F ** 2).reshape(D, -1).sum(1); size = {r: x.size for r, x in sp.G.irreps.items()}
    t.check(all(abs(n2[i] / size[info[i]['out_irrep']] - 1) < 1e-3 for i in range(D)), 'a basis filter is not normalised', worst=max(abs(n2[i] / size[info[i]['out_irrep']] - 1) for i in range(D)))
    buf = {k: b.clone() for k, b in be.state_dict().items()}
    W = np.zeros((draws, D))
    for k in range(draws):
        w = torch.full((D,), float('nan'))
        r = init.generalized_he_init(w, be, cache=bool(k % 2))
        W[k] = w.numpy()
    t.check(np.isfinite(W).all(), 'initialisation left some weights unset')
    for k, b in be.state_dict().items(): t.check(torch.equal(b, buf[k]), 'initialisation changed the basis')
    for part, name in ((W[::2], 'uncached'), (W[1::2], 'cached')):
        n = len(part)
        z = part / np.sqrt(v)
        t.check((np.abs(z.mean(0)) < 6.5 / math.sqrt(n)).all(), 'weights are not centred (%s)' % name)
        s2 = (z ** 2).mean(0)
        t.check((np.abs(s2 - 1) < 7.5 * math.sqrt(2. / n)).all(), 'variance differs from the generalised He scale (%s)' % name, worst=s2[np.argmax(np.abs(s2 - 1))], name=info[int(np.argmax(np.abs(s2 - 1)))]['id'])
        tot = (z ** 2).mean()
        t.check(abs(tot - 1) < 7 * math.sqrt(2. / z.size), 'overall variance (%s)' % name, got=tot)
        k4 = (z ** 4).mean()
        t.check(abs(k4 - 3) < 8 * math.sqrt(96. / z.size) + .02, 'weights are not normal', kurtosis=k4)
        if D > 1:
            c = (z[:, 1:] * z[:, :-1]).mean(0)
            t.check((np.abs(c) < 7 / math.sqrt(n)).all(), 'weights are correlated')
    # reproducible; values independent of what the tensor held
    outs = []
    for fill in (0., 3.):
        torch.manual_seed(5); np.random.seed(5)
        w = torch.full((D,), fill); init.generalized_he_init(w, be); outs.append(w.clone())
    t.check(torch.equal(outs[0], outs[1]), 'initialisation is not reproducible')
    t.raises(lambda: init.generalized_he_init(torch.zeros(D + 1), be), 'tensor of the wrong size')
    t.raises(lambda: init.deltaorthonormal_init(torch.zeros(D + 1), be), 'tensor of the wrong size')


def newlayers(t, sp, rng, n):
    """weights of newly built layers have the same scale"""
    import torch
    L = [e for e in catalog.convs(sp, rng, 4) if e['make']().basisexpansion.dimension() <= 60][:2]
    for e in L:
        v, _ = expected_var([dict(a) for a in e['make']().basisexpansion.get_basis_info()])
        Z = np.stack([e['make']().weights.detach().numpy() for _ in range(n)]) / np.sqrt(v)
        t.at(space=sp.key, layer=e['name'], cfg=e['cfg'])
        t.check(abs((Z ** 2).mean() - 1) < 7 * math.sqrt(2. / Z.size), 'scale of the weights of new layers', got=(Z ** 2).mean())
        t.check(len(np.unique(np.round(Z[:, 0], 6))) > n * .9, 'weights of new layers are not random')
        m = e['tags']['cls'](e['ins'][0], e['tags']['fo'], initialize=False, **e['tags']['raw'])
        t.check(bool((m.weights == 0).all()), 'initialize=False')


def hes(t, i, lv):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    L = catalog.convs(sp, rng, 5 if lv == 1 else 15) + catalog.convs(sp, rng, 2, transposed=True) + catalog.diffops(sp, rng, 2)
    n = 0
    for e in L:
        if e['make']().basisexpansion.dimension() > 150: continue
        he(t, sp, e, rng, 600 if lv == 1 else 4000); n += 1
    t.check(n > 0, 'no layer examined')
    newlayers(t, sp, rng, 40)
    t.sample(dict(space=sp.key, layers=n))


def delta(t, i, lv):
    import torch
    from e2cnn import nn
    from e2cnn.nn import init
    sp = zoo.spaces(2)[i]; rng = t.rng(); G = sp.G
    R = [r for r in zoo.reps(G, sp.spec, rng, 1, 6) if r.size <= 6]
    R = [r for r in R if np.allclose(np.asarray(r.change_of_basis) @ np.asarray(r.change_of_basis).T, np.eye(r.size), atol=1e-6)]
    done = 0
    for c in range(7 if lv == 1 else 25):
        rs_i, rs_o = zoo.mixed(R, rng, int(rng.randint(1, 5))), zoo.mixed(R, rng, int(rng.randint(1, 5)))
        if c == 0: rs_o = rs_i
        k = int(rng.choice([1, 3, 5]))
        fi, fo = zoo.fieldtype(sp, rs_i), zoo.fieldtype(sp, rs_o)
        t.at(space=sp.key, inp=[r.name for r in rs_i], out=[r.name for r in rs_o], kernel=k)
        try:
            m = nn.R2Conv(fi, fo, k, bias=False)
        except ValueError as ex:
            if 'empty' not in str(ex): raise
            continue
        be = m.basisexpansion; D = be.dimension()
        buf = {q: b.clone() for q, b in be.state_dict().items()}
        outs = []
        for rep in range(3):
            torch.manual_seed(11 + rep // 2); np.random.seed(11 + rep // 2)
            w = torch.full((D,), [float('nan'), 2., 0.][rep]); init.deltaorthonormal_init(w, be); outs.append(w.clone())
        t.check(all(bool(torch.isfinite(o).all()) for o in outs), 'initialisation left some weights unset')
        t.check(torch.equal(outs[0], outs[1]), 'initialisation is not reproducible')
        if bool((outs[0] != 0).any()) and D > 2: t.check(not torch.equal(outs[0], outs[2]) or D <= 2 or (outs[0].abs().sum() - outs[0].abs().max()) == 0 or set(np.round(outs[0].abs().tolist(), 5)) <= {0., 1.}, 'initialisation ignores the seed')
        for q, b in be.state_dict().items(): t.check(torch.equal(b, buf[q]), 'initialisation changed the basis')
        for w in outs[:1] + outs[2:]:
            with torch.no_grad(): F = be(w).numpy().astype(float).reshape(fo.size, fi.size, k, k)
            ctr = (k - 1) // 2
            off = F.copy(); off[:, :, ctr, ctr] = 0
            t.check(np.abs(off).max() < 1e-5, 'filter is not supported on the centre tap', off=np.abs(off).max())
            C = F[:, :, ctr, ctr]
            y = np.asarray(fo.change_of_basis_inv.todense()) @ C @ np.asarray(fi.change_of_basis.todense())
            # positions of the irreps
            def pos(rs):
                p, out = 0, {}
                for r in rs:
                    for x in r.irreps:
                        out.setdefault(x, []).append((p, p + G.irreps[x].size)); p += G.irreps[x].size
                return out
            pi_, po_ = pos(rs_i), pos(rs_o)
            rest = y.copy()
            for x in set(pi_) & set(po_):
                ri = [a for p in pi_[x] for a in range(*p)]; rr = [a for p in po_[x] for a in range(*p)]
                B = y[np.ix_(rr, ri)]; rest[np.ix_(rr, ri)] = 0
                gram = B @ B.T if len(rr) <= len(ri) else B.T @ B
                sc = np.trace(gram) / len(gram)
                t.check(sc > 1e-3, 'equal irreps are not connected', irrep=x)
                t.close(gram / sc, np.eye(len(gram)), 'mixing of equal irreps is not (semi-)orthogonal', 1e-4, irrep=x)
                done += 1
            t.check(np.abs(rest).max() < 1e-5, 'different irreps are mixed')
    t.check(done > 0, 'no delta-orthogonal filter examined')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    key = lambda i: '%d:%s' % (i, S[i].key)
    ctx.cases('he', range(len(S)), lambda t, i: hes(t, i, lv), key)
    ctx.cases('delta', range(len(S)), lambda t, i: delta(t, i, lv), key)
    try:
        from vk import ded_layers
    except ImportError:
        return
    ded_layers.build_c21(ctx)
