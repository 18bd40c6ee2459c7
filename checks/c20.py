"""C20: learnable weights correspond one-to-one with basis filters."""
from vk import groups as gr, zoo, layers, mods, catalog
import numpy as np, math
PROPERTY = 'C20'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: BasisExpansion.forward executed on a symbolic weight vector: every filter tap is proved to be the stated linear form of the weights, for all weights of a '
               'configuration. Bounded layer: reported names, indices and descriptions compared with the filter every single weight produces, and the span of the filters of each pair compared with '
               'an independent solution of the steerability constraint.')
TRUSTED = ['numpy linear algebra (rank decisions with relative threshold 1e-4)']
ASSUMPTIONS = ['representation names are unique within a field type', 'float32 rounding treated as a tolerance', 'linear independence is claimed for the sampled filters of the default frequency policy and for frequency limits the taps can resolve']
BOUND = 'spaces of vk/zoo.py, up to 4 fields per side, kernels 1..7; representations up to size 8'


def nz(a, tol=1e-5): return np.abs(a) > tol


def one(t, sp, e, rng):
    import torch
    m = e['make'](); be = m.basisexpansion; g = getattr(m, 'groups', 1)
    transposed = 'Transposed' in e['name']
    ri, ro = list(m.in_type.representations), list(m.out_type.representations)
    if g > 1:
        if transposed: ro = ro[:len(ro) // g]
        else: ri = ri[:len(ri) // g]
    t.at(space=sp.key, layer=e['name'], cfg=e['cfg'], inp=[r.name for r in ri], out=[r.name for r in ro])
    D = be.dimension()
    names, info = list(be.get_basis_names()), [dict(a) for a in be.get_basis_info()]
    t.check(len(names) == D and len(info) == D and m.weights.shape == (D,), 'number of weights, names and descriptions', D=D, names=len(names), info=len(info))
    t.check(len(set(names)) == D, 'names are not unique')
    for i in (range(D) if D <= 60 else sorted(rng.choice(D, 60, replace=False))):
        i = int(i)
        t.check(info[i]['id'] == names[i] and info[i]['idx'] == i, 'description does not match the name', i=i, id=info[i]['id'], name=names[i], idx=info[i]['idx'])
        for key in (i, names[i]):
            d = be.get_element_info(key)
            t.check(set(d) == set(info[i]) and all(np.array_equal(d[k], info[i][k]) if not callable(d[k]) else True for k in d), 'get_element_info differs from get_basis_info', key=key, a=d, b=info[i])
    F = layers.weights_matrix(be)              # D, out, in, taps
    t.check(F.shape[1:3] == (sum(r.size for r in ro), sum(r.size for r in ri)), 'shape of the filter')
    po, pi = mods.offsets(ro), mods.offsets(ri)
    G = sp.G
    blocks = {}
    for i, a in enumerate(info):
        o, n = a['out_field_position'], a['in_field_position']
        t.check(a['in_repr'] == ri[n].name and a['out_repr'] == ro[o].name, 'described representations are not those of the described fields', i=i, info=a)
        f = F[i].copy(); blk = f[po[o][0]:po[o][1], pi[n][0]:pi[n][1]].copy()
        t.check(nz(blk).any(), 'a weight has no effect', i=i, name=names[i])
        f[po[o][0]:po[o][1], pi[n][0]:pi[n][1]] = 0
        t.check(not nz(f).any(), 'a weight acts outside its pair of fields', i=i, name=names[i])
        # irreps
        so = sum(len(r.irreps) for r in ro[:o]); si = sum(len(r.irreps) for r in ri[:n])
        jo, ji = a['out_irreps_position'] - so, a['in_irreps_position'] - si
        t.check(jo == a['out_irrep_idx'] and ji == a['in_irrep_idx'] and 0 <= jo < len(ro[o].irreps) and 0 <= ji < len(ri[n].irreps), 'irrep positions', info=a)
        t.check(a['out_irrep'] == ro[o].irreps[jo] and a['in_irrep'] == ri[n].irreps[ji], 'described irreps are not those at the described positions', info=a)
        y = np.einsum('ab,bcp,cd->adp', np.asarray(ro[o].change_of_basis_inv), blk, np.asarray(ri[n].change_of_basis))
        u = sum(G.irreps[x].size for x in ro[o].irreps[:jo]); v = sum(G.irreps[x].size for x in ri[n].irreps[:ji])
        su, sv = G.irreps[ro[o].irreps[jo]].size, G.irreps[ri[n].irreps[ji]].size
        y[u:u + su, v:v + sv] = 0
        t.check(not nz(y, 1e-3).any(), 'a weight mixes other irreps than described', i=i, info=a)
        blocks.setdefault((o, n), []).append((i, blk))
    # linearity
    w1, w2 = rng.randn(D).astype('float32'), rng.randn(D).astype('float32')
    with torch.no_grad():
        for w in (w1, w2, 3. * w1 - w2, 0 * w1):
            t.close(be(torch.as_tensor(w)), np.einsum('d,dois->ois', w.astype(float), F), 'expanded filter is not linear in the weights', 2e-4)
    t.raises(lambda: be(torch.zeros(D + 1)), 'wrong number of weights'); t.raises(lambda: be(torch.zeros(1, D)), 'weights of the wrong shape')
    # every pair: the same filters in the same order as the two representations alone give
    ref = {}
    for o in range(len(ro)):
        for n in range(len(ri)):
            key = (ri[n].name, ro[o].name)
            if key not in ref:
                kw = {k: v for k, v in e['tags']['raw'].items() if k not in ('groups', 'bias')}
                fa, fb = zoo.fieldtype(sp, [ri[n]]), zoo.fieldtype(sp, [ro[o]])
                try:
                    b1 = e['tags']['cls'](fa, fb, initialize=False, bias=False, **kw).basisexpansion
                    ref[key] = [(a['id'], f) for a, f in zip(b1.get_basis_info(), layers.weights_matrix(b1))] if b1.dimension() else []
                except ValueError as ex:
                    if 'empty' not in str(ex): raise
                    ref[key] = []
            got = blocks.get((o, n), [])
            t.check(len(got) == len(ref[key]), 'number of filters of a pair depends on the other fields', pair=key, got=len(got), expected=len(ref[key]))
            for (i, blk), (id_, f) in zip(got, ref[key]):
                t.close(blk, f, 'filters of a pair depend on the other fields', 1e-5, pair=key)
                t.check(names[i].split('_', 1)[1].endswith(id_.split('_', 1)[1].split(')_', 1)[-1]), 'name of a filter depends on the other fields', a=names[i], b=id_)
    return D


def layer_cases(t, i, lv):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    L = catalog.convs(sp, rng, 7 if lv == 1 else 24) + catalog.convs(sp, rng, 3 if lv == 1 else 10, transposed=True) + catalog.diffops(sp, rng, 2 if lv == 1 else 6)
    n = 0
    for e in L:
        if e['make']().basisexpansion.dimension() > 400: continue
        n += one(t, sp, e, rng)
    t.check(n > 0, 'nothing examined')
    t.sample(dict(space=sp.key, layers=len(L), weights=n))


def steer(sp, ri, ro, kmax, kgrp=3):
    """independent solution of the steerability constraint: coefficients of the harmonics cos(k phi), sin(k phi), k<=kmax.
    returns basis: array (n, o, i, kmax+1, 2)"""
    E = sp.elements(None, 0) if sp.spec[0] in 'CD' else None
    if E is None:
        E = [0.9, 2.4] if sp.spec[0] == 'SO2' else [(0, 0.9), (1, 0.4), (1, 0.)]
    no, ni = ro.size, ri.size
    nh = 2 * kmax + 1
    H = [(0, 0)] + [(k, s) for k in range(1, kmax + 1) for s in (0, 1)]
    rows = []
    for e in E:
        M = sp.M(e); flip = np.linalg.det(M) < 0
        th = math.atan2(M[1, 0], M[0, 0])
        # phi(M x) = th + phi  or th - phi
        A = np.zeros((nh, nh))     # h(phi(Mx)) = A h(phi)
        for j, (k, s) in enumerate(H):
            c, sn = math.cos(k * th), math.sin(k * th)
            if k == 0: A[j, j] = 1; continue
            jc, js = 2 * k - 1, 2 * k
            sg = -1. if flip else 1.
            if s == 0: A[j, jc] += c; A[j, js] += -sn * sg       # cos(k th +- k phi)
            else: A[j, jc] += sn; A[j, js] += c * sg
        # sum_j K_j h_j(Mx) = ro sum_j K_j h_j ri^-1  ->  A^T K = ro K ri^-1
        Ro, Ri = np.asarray(ro(e)), np.linalg.inv(np.asarray(ri(e)))
        big = np.kron(np.eye(no * ni), A.T) - np.kron(np.kron(Ro, Ri.T), np.eye(nh))     # index (o,i,h)
        rows.append(big)
    u, s, vt = np.linalg.svd(np.concatenate(rows))
    null = vt[(s < 1e-8).sum() * -1:] if (s < 1e-8).any() else np.zeros((0, no * ni * nh))
    return null.reshape(-1, no, ni, nh), H


def rank(a, tol=1e-4):
    if a.size == 0: return 0
    s = np.linalg.svd(a, compute_uv=False)
    return int((s > tol * max(s[0], 1e-12)).sum()) if s[0] > 1e-9 else 0


def reach(t, i, lv):
    """span of the filters of a pair = sampled solutions of the constraint (rings x frequencies within the limit)"""
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = [r for r in zoo.reps(sp.G, sp.spec, rng, 1, 6) if r.size <= 6]
    done = 0
    for c in range(8 if lv == 1 else 30):
        ri, ro = R[int(rng.randint(len(R)))], R[int(rng.randint(len(R)))]
        k = int(rng.choice([3, 5, 5, 7]))
        rings = [[0., 1.], [0., 1., 2.], [0., 2.], [1.5]][int(rng.randint(4))] if k > 3 else [[0., 1.], [1.], [0., .8]][int(rng.randint(3))]
        sig = [.4 + .1 * j for j in range(len(rings))]
        fmax = [int(rng.randint(0, 4)) if r else 0 for r in rings]
        cut = dict(zip(rings, fmax))
        t.at(space=sp.key, inp=ri.name, out=ro.name, kernel=k, rings=rings, sigma=sig, limits=fmax)
        try:
            m = nn.R2Conv(zoo.fieldtype(sp, [ri]), zoo.fieldtype(sp, [ro]), k, rings=list(rings), sigma=list(sig), frequencies_cutoff=lambda r: cut[min(cut, key=lambda q: abs(q - r))], bias=False)
            F = layers.weights_matrix(m.basisexpansion)
        except ValueError as ex:
            if 'empty' not in str(ex): raise
            F = np.zeros((0, ro.size, ri.size, k * k))
        c0 = (k - 1) / 2
        yy, xx = np.meshgrid(np.arange(k), np.arange(k), indexing='ij')
        X, Y = (xx - c0).ravel(), (c0 - yy).ravel()
        rad, ang = np.hypot(X, Y), np.arctan2(Y, X)
        want = []
        kern, H = steer(sp, ri, ro, max(fmax))
        hv = np.stack([np.where(rad < 1e-9, 1. if q == 0 else 0., np.cos(q * ang) if s == 0 else np.sin(q * ang)) for q, s in H])
        for r, s, fm in zip(rings, sig, fmax):
            kk, HH = steer(sp, ri, ro, fm)
            h = np.stack([np.where(rad < 1e-9, 1. if q == 0 else 0., np.cos(q * ang) if sc == 0 else np.sin(q * ang)) for q, sc in HH])
            w = np.exp(-.5 * ((rad - r) / s) ** 2)
            for K in kk:
                f = np.einsum('oih,hp->oip', K, h * w[None])
                if np.abs(f).max() > 1e-4: want.append(f.ravel() / np.linalg.norm(f))
        want = np.stack(want) if want else np.zeros((0, F[0].size if len(F) else ro.size * ri.size * k * k))
        got = F.reshape(len(F), want.shape[1])
        got = got / np.maximum(np.linalg.norm(got, axis=1, keepdims=True), 1e-12)
        rg, rw, rb = rank(got, 1e-3), rank(want, 1e-3), rank(np.concatenate([got.reshape(-1, want.shape[1]), want]), 1e-3)
        t.check(rb == rw, 'a filter does not satisfy the steerability constraint within the limits', rank_filters=rg, rank_solutions=rw, rank_both=rb)
        t.check(rg == rw, 'not every admissible filter is reachable', rank_filters=rg, rank_solutions=rw)
        done += rg
    t.check(done > 0, 'no filter examined')


def indep(t, i, lv):
    """default frequency policy: distinct weights give linearly independent filters"""
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = [r for r in zoo.reps(sp.G, sp.spec, rng, 1, 6) if r.size <= 6]
    for c in range(6 if lv == 1 else 20):
        rs_i, rs_o = zoo.mixed(R, rng, int(rng.randint(1, 3))), zoo.mixed(R, rng, int(rng.randint(1, 3)))
        k = int(rng.choice([1, 3, 5, 7]))
        t.at(space=sp.key, inp=[r.name for r in rs_i], out=[r.name for r in rs_o], kernel=k)
        try:
            m = nn.R2Conv(zoo.fieldtype(sp, rs_i), zoo.fieldtype(sp, rs_o), k)
        except ValueError as ex:
            if 'empty' not in str(ex): raise
            continue
        F = layers.weights_matrix(m.basisexpansion)
        t.check(rank(F.reshape(len(F), -1), 1e-3) == len(F), 'distinct weights give linearly dependent filters', rank=rank(F.reshape(len(F), -1), 1e-3), weights=len(F))


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    key = lambda i: '%d:%s' % (i, S[i].key)
    ctx.cases('layers', range(len(S)), lambda t, i: layer_cases(t, i, lv), key)
    ctx.cases('reachable', range(len(S)), lambda t, i: reach(t, i, lv), key)
    ctx.cases('independent', range(len(S)), lambda t, i: indep(t, i, lv), key)
    try:
        from vk import ded_layers
    except ImportError:
        return
    ded_layers.build_c20(ctx)
