"""C13: nonlinearities commute with the group action and compute what they state."""
from vk import groups as gr, zoo, mods
import numpy as np, math
PROPERTY = 'C13'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: forward() of every nonlinearity executed on symbolic tensors (all inputs and parameters) per configuration. Bounded layer: every class that '
               'accepts a field type is run on all group elements of concrete types; value contract: own norm / own gate / stated scalar function.')
TRUSTED = ['torch elementwise kernels (exp, sigmoid, max)']
ASSUMPTIONS = ['float32 rounding treated as a tolerance', 'representation names are unique within a field type', 'supported_nonlinearities supplied by the caller for own bases are truthful',
               'induced gates and gated fields share the subgroup (documented requirement)']
BOUND = 'spaces of vk/zoo.py, representations up to size 24, up to 5 fields'


def relu(v): return np.maximum(v, 0)
def sig(v): return 1 / (1 + np.exp(-v))


def special(rng, ft, b=2, h=2, w=3):
    x = rng.randn(b, ft.size, h, w)
    x[0, :, 0, 0] = 0.           # zero vector
    x[0, :, 0, 1] *= 1e-3
    x[1, :, 0, 0] *= 30.
    return x.astype('float32').astype(float)


def equi(t, m, rs, ro, E, x, what, tol=2e-4, ref=None):
    y = mods.out(m, x, m.in_type) if ref is None else ref
    t.check(m.out_type.representations == ro if ro is not None else True, 'declared output type', what=what)
    ro = m.out_type.representations
    for e in E:
        ye = mods.out(m, mods.fib(x, rs, e), m.in_type)
        t.close(ye, mods.fib(y, ro, e), what + ' does not commute with the group element', tol, g=e)
    return y


def own(t, f, base, n, blocks, what):
    """f(i) = output after perturbing parameter/gate i.  Each i changes exactly one block, and each block has its own i."""
    owner = {}
    for i in range(n):
        d = np.abs(f(i) - base).max(axis=(0, 2, 3))
        hit = [j for j, (a, b) in enumerate(blocks) if d[a:b].max() > 1e-6]
        t.check(len(hit) == 1, '%s %d influences %d fields' % (what, i, len(hit)))
        t.check(hit[0] not in owner, 'two %ss influence the same field' % what)
        owner[hit[0]] = i
    t.check(len(owner) == len(blocks), 'some fields have no %s of their own' % what)
    return owner


def norm_like(t, cls, fn, bias, sub, rs, ft, E, rng, expect=False):
    """norm and induced-norm nonlinearities; sub(r) = sizes of the sub-fields"""
    import torch
    m = mods.accepts(cls, ft, function=fn, bias=bias)
    if m is None:
        if expect: t.check(False, cls.__name__ + ' rejects a type it supports')
        return 0
    x = special(rng, ft)
    what = '%s(%s)' % (cls.__name__, fn)
    F = {'n_relu': relu, 'n_sigmoid': sig, 'squash': lambda v: v / (1 + v)}[fn]
    blocks = mods.offsets(rs)
    nb = len(rs)
    lb = None
    if bias:
        t.check(m.log_bias.numel() == nb, 'number of biases')
        with torch.no_grad(): m.log_bias.copy_(torch.as_tensor(rng.uniform(-2, -1, m.log_bias.shape)))
        base = mods.out(m, x, ft)
        keep = m.log_bias.detach().clone()

        def f(i):
            with torch.no_grad():
                m.log_bias.copy_(keep); m.log_bias.view(-1)[i] += .5
            y = mods.out(m, x, ft)
            with torch.no_grad(): m.log_bias.copy_(keep)
            return y
        ow = own(t, f, base, nb, blocks, 'bias')
        lb = {j: math.exp(float(keep.view(-1)[i])) for j, i in ow.items()}
    y = mods.frozen(t, m, x, ft)
    exp = np.zeros_like(x)
    for j, (r, (a, b)) in enumerate(zip(rs, blocks)):
        k = sub(r)
        for p in range(a, b, k):
            nrm = np.sqrt((x[:, p:p + k] ** 2).sum(1, keepdims=True))
            v = F(nrm - lb[j] if bias else nrm)
            exp[:, p:p + k] = np.where(nrm > 1e-10, x[:, p:p + k] / np.maximum(nrm, 1e-10) * v, 0.)
    t.close(y, exp, what + ' does not rescale each field by the stated function of its own norm', 2e-4)
    equi(t, m, rs, rs, E, x, what, ref=y)
    return 1


def subsize(prefix):
    def f(r):
        k = [int(n.split('_')[-1]) for n in r.supported_nonlinearities if n.startswith(prefix)]
        return k[0] if k else None
    return f


def cheapc(sp, r, thorough):
    # the library decomposes the doubled representation numerically: keep that affordable
    n = sp.G.order() * 4 * r.size ** 2
    return r.size <= 12 and (sp.G.order() > 10 or n <= (2600 if thorough else 1100))


def accept(t, i):
    """whatever single-representation type a nonlinearity accepts, it is equivariant on it; what it must accept, it accepts"""
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    G = sp.G
    n = 0
    for r in mods.allreps(sp, rng):
        ft = zoo.fieldtype(sp, [r, r]); rs = [r, r]
        ms = mods.mats(r, E)
        t.at(space=sp.key, repr=r.name, size=r.size, flags=sorted(r.supported_nonlinearities))
        x = special(rng, ft)
        std = r.irreducible
        reg = r.name == 'regular'
        for cls in (nn.ReLU, nn.ELU, nn.PointwiseNonLinearity):
            m = mods.accepts(cls, ft)
            t.check(m is not None or not (reg or r.is_trivial()), cls.__name__ + ' rejects regular or trivial fields')
            if m is not None:
                t.check(mods.is_perm(ms), cls.__name__ + ' accepts a representation that does not permute the channels')
                equi(t, m, rs, rs, E, x, cls.__name__); n += 1
        n += norm_like(t, nn.NormNonLinearity, 'n_relu', True, lambda q: q.size, rs, ft, E, rng, expect=std or reg)
        m = mods.accepts(nn.InducedNormNonLinearity, ft)
        if m is not None: n += norm_like(t, nn.InducedNormNonLinearity, 'n_relu', True, subsize('induced_norm'), rs, ft, E, rng)
        cheap = sp.spec[0] in 'CD' and cheapc(sp, r, t.thorough)
        m = mods.accepts(nn.ConcatenatedNonLinearity, ft) if cheap else None
        t.check(m is not None or not reg or not cheap, 'ConcatenatedNonLinearity rejects regular fields')
        if m is not None:
            t.check(mods.is_sperm(ms), 'ConcatenatedNonLinearity accepts a representation that is not a signed permutation')
            equi(t, m, rs, None, E, x, 'ConcatenatedNonLinearity'); n += 1
            for cls in (nn.ReLU, nn.NormNonLinearity, nn.InducedNormNonLinearity):   # what the output type claims to support
                m2 = mods.accepts(cls, m.out_type)
                if m2 is not None: equi(t, m2, m.out_type.representations, None, E, special(rng, m.out_type), cls.__name__ + ' after ConcatenatedNonLinearity')
        if sp.kind == 'R' and sp.N > 2:
            m = mods.accepts(nn.VectorFieldNonLinearity, ft)
            t.check(m is not None or not reg, 'VectorFieldNonLinearity rejects regular fields')
        else: m = mods.accepts(nn.VectorFieldNonLinearity, ft)
        if m is not None: equi(t, m, rs, None, E, rng.randn(2, ft.size, 2, 3), 'VectorFieldNonLinearity'); n += 1
        f3 = zoo.fieldtype(sp, [G.trivial_representation, r])
        m = mods.accepts(nn.GatedNonLinearity1, f3, gates=['gate', 'gated'])
        t.check(m is not None or not (std or reg), 'GatedNonLinearity1 rejects irreps or regular fields')
        if m is not None: equi(t, m, [G.trivial_representation, r], [r], E, special(rng, f3), 'GatedNonLinearity1'); n += 1
        # a non-trivial field can not gate
        f4 = zoo.fieldtype(sp, [r, r])
        m = mods.accepts(nn.GatedNonLinearity1, f4, gates=['gate', 'gated'])
        if m is not None:
            t.check(r.size == 1 and all(np.allclose(q, 1) for q in ms), 'GatedNonLinearity1 accepts a non-invariant gate')
        m = mods.accepts(nn.GatedNonLinearity2, (zoo.fieldtype(sp, [r]), zoo.fieldtype(sp, [r])))
        if m is not None: t.check(r.size == 1 and all(np.allclose(q, 1) for q in ms), 'GatedNonLinearity2 accepts a non-invariant gate')
    t.check(n > 5, 'hardly any nonlinearity accepted anything')


def pick(R, rng, cond, n):
    c = [r for r in R if cond(r)]
    return zoo.mixed(c, rng, n) if c else []


def mixed(t, i):
    """types with several repeated / interleaved fields: value contract + equivariance"""
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    G = sp.G
    R = [r for r in mods.allreps(sp, rng) if r.size <= 8]
    MM = {r.name: mods.mats(r, E) for r in R}
    pw = lambda r: 'pointwise' in r.supported_nonlinearities
    nm = lambda r: 'norm' in r.supported_nonlinearities
    ind = lambda r: subsize('induced_norm')(r) is not None
    con = lambda r: 'concatenated' in r.supported_nonlinearities and cheapc(sp, r, t.thorough)
    trials = 3 if not t.thorough else 12
    for k in range(trials):
        # ---- pointwise
        rs = pick(R, rng, pw, int(rng.randint(1, 6)))
        if rs:
            ft = zoo.fieldtype(sp, rs); x = special(rng, ft)
            t.at(space=sp.key, fields=[r.name for r in rs], seed=k)
            a = float(rng.uniform(.3, 2))
            for name, m, F in [('ReLU', nn.ReLU(ft), relu), ('ReLU inplace', nn.ReLU(ft, inplace=True), relu), ('ELU', nn.ELU(ft, alpha=a), lambda v: np.where(v > 0, v, a * (np.exp(np.minimum(v, 0)) - 1))),
                               ('ELU inplace', nn.ELU(ft, alpha=a, inplace=True), lambda v: np.where(v > 0, v, a * (np.exp(np.minimum(v, 0)) - 1))),
                               ('p_relu', nn.PointwiseNonLinearity(ft, 'p_relu'), relu), ('p_elu', nn.PointwiseNonLinearity(ft, 'p_elu'), lambda v: np.where(v > 0, v, np.exp(np.minimum(v, 0)) - 1)),
                               ('p_sigmoid', nn.PointwiseNonLinearity(ft, 'p_sigmoid'), sig), ('p_tanh', nn.PointwiseNonLinearity(ft, 'p_tanh'), np.tanh)]:
                if 'inplace' in name:
                    v = torch.as_tensor(x.copy(), dtype=torch.float32); y = m(zoo.geo(v, ft)).tensor.numpy()
                    t.close(v, y, 'in-place variant leaves its input behind', 1e-6)
                else: y = mods.frozen(t, m, x, ft)
                t.close(y, F(x), name + ' does not apply the stated scalar function', 1e-5)
                equi(t, m, rs, rs, E, x, name)
        # ---- norm
        rs = pick(R, rng, nm, int(rng.randint(1, 6)))
        if rs:
            ft = zoo.fieldtype(sp, rs)
            t.at(space=sp.key, fields=[r.name for r in rs], seed=k)
            for fn, b in [('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('n_sigmoid', False), ('squash', False)]:
                norm_like(t, nn.NormNonLinearity, fn, b, lambda q: q.size, rs, ft, E, rng, expect=True)
            t.raises(lambda: nn.NormNonLinearity(ft, 'squash', bias=True), 'squash with a bias')
        rs = pick(R, rng, ind, int(rng.randint(1, 6)))
        if rs:
            ft = zoo.fieldtype(sp, rs)
            t.at(space=sp.key, fields=[r.name for r in rs], seed=k)
            for fn, b in [('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('squash', False)]:
                norm_like(t, nn.InducedNormNonLinearity, fn, b, subsize('induced_norm'), rs, ft, E, rng, expect=True)
        # ---- concatenated
        rs = pick(R, rng, con, int(rng.randint(1, 5))) if sp.spec[0] in 'CD' else []
        if rs:
            ft = zoo.fieldtype(sp, rs); x = special(rng, ft)
            t.at(space=sp.key, fields=[r.name for r in rs], seed=k)
            for fn, F in [('c_relu', relu), ('c_sigmoid', sig), ('c_tanh', np.tanh)]:
                m = nn.ConcatenatedNonLinearity(ft, fn)
                y = mods.frozen(t, m, x, ft)
                t.check(y.shape[1] == 2 * ft.size and [r.size for r in m.out_type.representations] == [2 * r.size for r in rs], 'output type of the concatenated nonlinearity')
                t.close(y[:, ::2], F(x), 'first half', 1e-5); t.close(y[:, 1::2], F(-x), 'second half', 1e-5)
                equi(t, m, rs, None, E, x, fn, ref=y)
        # ---- gated
        rs = zoo.mixed(R, rng, int(rng.randint(1, 5)))
        rs = [r for r in rs if 'gated' in r.supported_nonlinearities]
        if rs:
            n = len(rs)
            order = list(rng.permutation(2 * n)) if k else list(range(2 * n))      # first n are gates
            fields, labels = [], []
            q = iter(rs)
            for o in order:
                if o < n: fields.append(G.trivial_representation); labels.append('gate')
                else: fields.append(next(q)); labels.append('gated')
            ft = zoo.fieldtype(sp, fields)
            gated(t, sp, ft, fields, labels, E, rng, k)
            gated2(t, sp, rs, E, rng)
        # ---- induced gated
        if sp.spec[0] in 'CD': induced_gated(t, sp, E, rng, k)
        # ---- vector field
        if sp.kind == 'R' and sp.N > 2:
            nf = int(rng.randint(1, 4)); rs = [G.regular_representation] * nf
            ft = zoo.fieldtype(sp, rs); x = rng.randn(2, ft.size, 2, 3).astype('float32').astype(float)
            m = nn.VectorFieldNonLinearity(ft)
            y = mods.frozen(t, m, x, ft)
            v = x.reshape(2, nf, sp.N, 2, 3); mx = v.max(2); am = v.argmax(2) * gr.TAU / sp.N
            exp = np.stack([np.cos(am) * relu(mx), np.sin(am) * relu(mx)], 2).reshape(2, 2 * nf, 2, 3)
            t.close(y, exp, 'vector field is not (relu of the maximum) times its direction', 1e-5)
            equi(t, m, rs, [G.irrep(1)] * nf, E, x, 'VectorFieldNonLinearity', ref=y)


def setb(m, rng):
    import torch
    with torch.no_grad(): m.bias.copy_(torch.as_tensor(rng.randn(*m.bias.shape)))


def gated(t, sp, ft, fields, labels, E, rng, k, cls=None, q=1, sub=None):
    """gated nonlinearities in one tensor; q = size of a gate field, sub(r) = size of the gated sub-fields"""
    import torch
    from e2cnn import nn
    cls = cls or nn.GatedNonLinearity1
    sub = sub or (lambda r: r.size)
    t.at(space=sp.key, fields=[r.name for r in fields], labels=labels, cls=cls.__name__)
    pos = mods.offsets(fields)
    gi = [i for i, l in enumerate(labels) if l == 'gate']; di = [i for i, l in enumerate(labels) if l == 'gated']
    x = special(rng, ft)
    for drop in (True, False):
        m = cls(ft, gates=labels, drop_gates=drop)
        ro = [fields[i] for i in (di if drop else range(len(fields)))]
        t.check(m.out_type.representations == ro, 'output type of the gated nonlinearity', drop=drop)
        setb(m, rng); b = m.bias.detach().numpy().reshape(-1).astype(float)
        t.check(len(b) == len(gi), 'one bias per gate')
        y = mods.frozen(t, m, x, ft)
        opos = mods.offsets(ro)
        oblk = {i: opos[j] for j, i in enumerate(di if drop else range(len(fields)))}
        gblocks = [oblk[i] for i in di]

        def f(j):
            xx = x.copy(); a, bb = pos[gi[j]]; xx[:, a:bb] += .7
            yy = mods.out(m, xx, ft)
            if not drop:
                a, bb = oblk[gi[j]]; yy[:, a:bb] = y[:, a:bb]
            return yy
        ow = own(t, f, y, len(gi), gblocks, 'gate')
        for j, i in enumerate(di):
            g = gi[ow[j]]
            gate = sig(x[:, pos[g][0]:pos[g][1]] - b[ow[j]])     # B,q,h,w
            v = x[:, pos[i][0]:pos[i][1]]; s = sub(fields[i])
            exp = (v.reshape(v.shape[0], q, s, *v.shape[2:]) * gate[:, :, None]).reshape(v.shape) if q > 1 else v * gate
            t.close(y[:, oblk[i][0]:oblk[i][1]], exp, 'gated field is not scaled by the sigmoid of its own gate', 1e-5, field=i, drop=drop)
        if not drop:
            for j, g in enumerate(gi):
                t.close(y[:, oblk[g][0]:oblk[g][1]], sig(x[:, pos[g][0]:pos[g][1]] - b[j]), 'kept gates are not the activated gates', 1e-5)
        equi(t, m, fields, ro, E, x, cls.__name__, ref=y)
    # default labels: first half gates, second half gated
    if labels == ['gate'] * len(gi) + ['gated'] * len(di):
        m2 = cls(ft); m2.load_state_dict(m.state_dict() if not drop else m.state_dict(), strict=False)
        t.check(m2.out_type.representations == [fields[i] for i in di], 'default gates are the first half of the fields')
    t.raises(lambda: cls(zoo.fieldtype(sp, fields + fields[-1:]), gates=labels + ['gated']), 'more gated fields than gates')
    t.raises(lambda: cls(ft, gates=labels[:-1] + ['other']), 'unknown label')


def gated2(t, sp, rs, E, rng):
    from e2cnn import nn
    import torch
    G = sp.G; n = len(rs)
    fg, fx = zoo.fieldtype(sp, [G.trivial_representation] * n), zoo.fieldtype(sp, rs)
    t.at(space=sp.key, fields=[r.name for r in rs], cls='GatedNonLinearity2')
    m = nn.GatedNonLinearity2((fg, fx)); setb(m, rng); b = m.bias.detach().numpy().reshape(-1).astype(float)
    t.check(m.out_type == fx, 'output type')
    g, x = special(rng, fg), special(rng, fx)
    run = lambda g, x: m(zoo.geo(torch.as_tensor(g, dtype=torch.float32), fg), zoo.geo(torch.as_tensor(x, dtype=torch.float32), fx)).tensor.detach().numpy().astype(float)
    y = run(g, x)
    blocks = mods.offsets(rs)

    def f(j):
        gg = g.copy(); gg[:, j] += .7
        return run(gg, x)
    ow = own(t, f, y, n, blocks, 'gate')
    for j, (a, bb) in enumerate(blocks):
        t.close(y[:, a:bb], x[:, a:bb] * sig(g[:, ow[j]:ow[j] + 1] - b[ow[j]]), 'gated field is not scaled by the sigmoid of its own gate', 1e-5, field=j)
    for e in E: t.close(run(g, mods.fib(x, rs, e)), mods.fib(y, rs, e), 'GatedNonLinearity2 does not commute with the group element', 2e-4, g=e)
    t.raises(lambda: nn.GatedNonLinearity2((fg, zoo.fieldtype(sp, rs + rs[:1]))), 'more gated fields than gates')


def induced_gated(t, sp, E, rng, k):
    from e2cnn import nn
    G, spec = sp.G, sp.spec
    ids = [i for i in gr.subgroup_ids(spec) if 1 < G.subgroup(i)[0].order() < G.order()]
    if not ids: return
    id = ids[int(rng.randint(len(ids)))]
    sg, _, _ = G.subgroup(id)
    q = G.order() // sg.order()
    quo = G.quotient_representation(id)
    pool = [G.induced_representation(id, psi) for psi in list(sg.irreps.values())[:4]]
    pool = [p for p in pool if any(nl.startswith('induced_gated') for nl in p.supported_nonlinearities)]
    if not pool: return
    rs = zoo.mixed(pool, rng, int(rng.randint(1, 4)))
    n = len(rs)
    order = list(rng.permutation(2 * n)) if k else list(range(2 * n))
    it = iter(rs); fields, labels = [], []
    for o in order:
        if o < n: fields.append(quo); labels.append('gate')
        else: fields.append(next(it)); labels.append('gated')
    ft = zoo.fieldtype(sp, fields)
    gated(t, sp, ft, fields, labels, E, rng, k, nn.InducedGatedNonLinearity1, q, subsize('induced_gated'))


def rejected(t, _):
    from e2cnn import nn
    import torch
    sp = zoo.Space('R', 4); s2 = zoo.Space('R', 8)
    a, b = zoo.fieldtype(sp, [sp.G.regular_representation]), zoo.fieldtype(s2, [s2.G.regular_representation] )
    a2 = zoo.fieldtype(sp, [sp.G.regular_representation] * 2)
    for cls in (nn.ReLU, nn.ELU, nn.PointwiseNonLinearity, nn.NormNonLinearity, nn.ConcatenatedNonLinearity, nn.VectorFieldNonLinearity):
        t.at(cls=cls.__name__)
        m = cls(a2)
        t.raises(lambda: m(zoo.geo(torch.randn(1, 8, 2, 2), b)), 'input of another type accepted')
    for cls, bad in [(nn.PointwiseNonLinearity, 'relu'), (nn.NormNonLinearity, 'relu'), (nn.InducedNormNonLinearity, 'p_relu'), (nn.ConcatenatedNonLinearity, 'p_relu')]:
        t.raises(lambda: cls(a, bad), 'unknown function accepted')


def build(ctx):
    S = zoo.spaces(2)
    ctx.cases('accept', range(len(S)), accept, lambda a: '%d:%s' % (a, S[a].key))
    ctx.cases('mixed', range(len(S)), mixed, lambda a: '%d:%s' % (a, S[a].key))
    ctx.cases('rejected', [0], rejected)
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c13(ctx)
