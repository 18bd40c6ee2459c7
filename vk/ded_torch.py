"""Contracts on the torch modules (C11, C13-C18): forward() of the real modules executed on symbolic tensors (vk.tsym)."""
import math, itertools
from fractions import Fraction as Fr
import numpy as np
import torch
from . import zoo, mods, sym
from .core import Undecided, Fail
from .sym import lift, fn, S
from .tsym import K, prove, get, mk, srelu, smax, spos, ssqrt, smean, svar, ssum

NN = 'e2cnn.nn.'


def field_slices(rs):
    return mods.offsets(rs)


def exact(k, m):
    """matrix of a permutation-like representation with its exact entries"""
    m = np.asarray(m, float)
    r = np.round(m * 2) / 2
    if not np.allclose(m, r, atol=1e-7): return m if k.num else np.vectorize(lambda v: lift(float(v)), otypes=[object])(m)
    return r if k.num else np.vectorize(lambda v: lift(Fr(v)), otypes=[object])(r)


def rot2(k, a): c, s = k.cos(a), k.sin(a); return np.array([[c, -s], [s, c]], float if k.num else object)


def irrep_mat(k, r, f, t):
    """matrix of an irrep at (reflection f, rotation angle t): the contract proved in C03"""
    fr = r.attributes.get('frequency', 0); j = r.attributes.get('flip_frequency', 0)
    dt = float if k.num else object
    if r.size == 1:
        v = (k.cos(fr * t) if fr else (1. if k.num else lift(1))) * (-1 if (f and j) else 1)
        return np.array([[v]], dt)
    m = rot2(k, fr * t)
    return m @ np.array([[1, 0], [0, -1]], dt) if f else m


def rho_sym(k, rs, f, t):
    """block-diagonal action on fields that are irreps (or sums of irreps in the standard basis)"""
    n = sum(r.size for r in rs)
    M = np.zeros((n, n), float if k.num else object)
    if not k.num: M[...] = lift(0)
    p = 0
    for r in rs:
        G = r.group
        for i in r.irreps:
            q = G.irreps[i]
            M[p:p + q.size, p:p + q.size] = irrep_mat(k, q, f, t); p += q.size
    return M


def rho_el(k, rs, e):
    """block-diagonal action with the library's matrices (permutations)"""
    n = sum(r.size for r in rs)
    M = np.zeros((n, n), float if k.num else object)
    if not k.num: M[...] = lift(0)
    p = 0
    for r in rs:
        M[p:p + r.size, p:p + r.size] = exact(k, r(e)); p += r.size
    return M


def mix(k, M, x):
    """channel mixing of an array B,C,..."""
    x = np.asarray(x)
    if k.num: return np.einsum('oi,bi...->bo...', M, x)
    out = np.empty((x.shape[0], M.shape[0]) + x.shape[2:], object)
    for b in range(x.shape[0]):
        for q in np.ndindex(*x.shape[2:]):
            for o in range(M.shape[0]):
                tot = []
                for i in range(M.shape[1]):
                    if lift(M[o, i]).t: tot.append(lift(M[o, i]) * x[(b, i) + q])
                out[(b, o) + q] = ssum(tot)
    return out


def run(k, m, ft, x):
    """output array of the real module on the array x"""
    from e2cnn.nn import GeometricTensor
    if isinstance(ft, (tuple, list)):
        with k.running(): y = m(*[GeometricTensor(k.tensor(v), f) for v, f in zip(x, ft)])
    else:
        with k.running(): y = m(GeometricTensor(k.tensor(x), ft))
    return y


def outarr(k, y): return k.arr(y.tensor)


def angle(k, sp, name='g'):
    """an arbitrary rotation of the space's group"""
    kind, N = sp.spec
    if kind in ('SO2', 'O2'): return k.real(name)
    return 2 * k.pi * k.int(name, 0, N - 1) / N


def irr(sp, *ids):
    return [sp.G.irrep(*(i if isinstance(i, tuple) else (i,))) for i in ids]


# ================================================================= C13
F_SYM = {'n_relu': srelu, 'n_sigmoid': lambda v: fn('sigmoid', v), 'squash': lambda v: v / (1 + v)}


def layouts13():
    """(key, space, field list): sizes grouped and interleaved"""
    S1, S2 = zoo.Space('R', -1, maxf=3), zoo.Space('FR', -1, maxf=3)
    C4, D4, C5 = zoo.Space('R', 4), zoo.Space('FR', 4), zoo.Space('R', 5)
    yield 'SO2:0,1,2', S1, irr(S1, 0, 1, 2)
    yield 'SO2:1,0,2,0', S1, irr(S1, 1, 0, 2, 0)
    yield 'O2:00,11,10,12', S2, irr(S2, (0, 0), (1, 1), (1, 0), (1, 2))
    yield 'C4:reg,triv,irr1', C4, [C4.G.regular_representation, C4.G.trivial_representation, C4.G.irrep(1)]
    yield 'C5:irr2,triv,irr1', C5, irr(C5, 2, 0, 1)
    yield 'D4:irr11,01,quot', D4, [D4.G.irrep(1, 1), D4.G.irrep(0, 2), D4.G.quotient_representation((None, 2)), D4.G.irrep(1, 1)]


def own_rotation(k, rs, p, ang, sub=None):
    """rotation by ang in the plane (p, p+1) of every field; a field with one channel changes sign when p = 0"""
    n = sum(r.size for r in rs)
    M = np.eye(n) if k.num else np.vectorize(lambda v: lift(int(v)), otypes=[object])(np.eye(n))
    o = 0
    for r in rs:
        s = r.size if sub is None else sub(r)
        for q in range(o, o + r.size, s):
            if s == 1:
                if p == 0: M[q, q] = -1
            elif s > p + 1: M[q + p:q + p + 2, q + p:q + p + 2] = rot2(k, ang)
        o += r.size
    return M


def own_params(k, regions, n, isparam, need):
    """a parameter for every field: a bijection contained in the dependencies"""
    dep = {j: set() for j in range(n)}
    for j, v in regions: dep[j] |= {z for e in v for z in k.deps(e) if isparam(z)}
    if not need: return {}
    match = {}
    def aug(j, seen):
        for z in sorted(dep[j]):
            if z in seen: continue
            seen.add(z)
            if z not in match or aug(match[z], seen): match[z] = j; return True
        return False
    for j in range(n):
        if not aug(j, set()): raise Undecided('field %d has no parameter of its own' % j)
    return {j: z for z, j in match.items()}


def norm_contract(cls, fname, bias, sp, rs, sub=None, shape=(1, 2)):
    ft = zoo.fieldtype(sp, rs)
    st = {}
    S_ = [r.size if sub is None else sub(r) for r in rs]

    def contract(k):
        m = cls(ft, function=fname, bias=bias)
        k.params(m, skip=('eps',))
        x = k.array('x', (1, ft.size) + shape)
        y = outarr(k, run(k, m, ft, x))
        # 1. the rescaling of a field depends on its own entries (through the norm: 2.) and on its own parameter only
        regions = [(j, q, pix) for j, (a, b) in enumerate(field_slices(rs)) for q in range(a, b, S_[j]) for pix in np.ndindex(*shape)]
        val = lambda j, q, pix: [y[(0, c) + pix] for c in range(q, q + S_[j])]
        if not k.num: st.update(own_params(k, [(j, val(j, q, pix)) for j, q, pix in regions], len(rs), lambda z: z.startswith('log_bias'), bias))
        for j, q, pix in regions:
            names = {'x_0_%d_%d_%d' % ((c,) + pix) for c in range(q, q + S_[j])}
            k.indep(val(j, q, pix), lambda z: z in names or z == st.get(j), 'a field is rescaled by a function of itself and its own parameter')
        # 2. any rotation or reflection of single fields commutes: the rescaling is a function of the norm
        ang = k.real('turn')
        for p in range(max(S_)):
            R = own_rotation(k, rs, p, ang, sub)
            k.eq(outarr(k, run(k, m, ft, mix(k, R, x))), mix(k, R, y), 'commutes with every orthogonal map of single fields (plane %d)' % p)
        # 3. it is the stated function of the norm
        for j, (r, (a, b)) in enumerate(zip(rs, field_slices(rs))):
            s = S_[j]
            for q in range(a, b, s):
                for pix in np.ndindex(*shape):
                    v = [x[(0, c) + pix] for c in range(q, q + s)]
                    if k.num:
                        n = math.sqrt(sum(u * u for u in v))
                        if n < 1e-6: continue
                        bv = 0.
                        if st.get(j): bv = math.exp(k.env[st[j]])
                        f = {'n_relu': lambda u: max(u, 0.), 'n_sigmoid': lambda u: 1 / (1 + math.exp(-u)), 'squash': lambda u: u / (1 + u)}[fname](n - bv)
                        k.eq(np.array([y[(0, c) + pix] for c in range(q, q + s)]) * n, np.array(v) * f, 'the norm becomes the stated function of the norm')
                    else:
                        n = ssqrt(ssum([u * u for u in v]))
                        arg = n - (fn('exp', S.sym(st[j], 'real')) if st.get(j) else 0)
                        want = F_SYM[fname](arg)
                        eps = lift(float(torch.tensor(1e-10)))
                        big = spos(n - eps)
                        # where the norm exceeds eps: y * n = x * f; expressed with the indicator of norm > eps and max(norm, eps)
                        den = smax(n, eps)
                        k.eq([y[(0, c) + pix] for c in range(q, q + s)], [u * want * den.inv() * big for u in v], 'the norm becomes the stated function of the norm')
    return contract


def induced_sub(prefix):
    def f(r):
        return [int(n.split('_')[-1]) for n in r.supported_nonlinearities if n.startswith(prefix)][0]
    return f


def gated_contract(build, types, role, sub=None, shape=(1, 2), drop=True):
    """types: field lists of the inputs.  role: list of (input, field, 'gate'|'gated').  Every gated field is multiplied by the sigmoid of one gate of its own (sub-field by sub-field for induced gates)"""
    st = {}
    sp, rss = types
    fts = [zoo.fieldtype(sp, rs) for rs in rss]

    def contract(k):
        m = build(*fts)
        k.params(m)
        X = [k.array('x%d' % i, (2, f.size) + shape) for i, f in enumerate(fts)]
        G = run(k, m, fts if len(fts) > 1 else fts[0], X if len(fts) > 1 else X[0])
        y = outarr(k, G)
        sl = [field_slices(rs) for rs in rss]
        gates = [(i, f) for i, f, r in role if r == 'gate']
        gated = [(i, f) for i, f, r in role if r == 'gated']
        kept = [(i, f) for i, f, r in role if r == 'gated' or not drop]
        o, pos = 0, {}
        for i, f in kept: pos[i, f] = o; o += rss[i][f].size
        k.holds(y.shape[1] == o, 'size of the output')
        if y.shape[1] != o: return
        nm = lambda i, b, c, p: 'x%d_%d_%d_%d_%d' % ((i, b, c) + p)
        gi = {}      # channel of a gate -> gate
        for n, (i, f) in enumerate(gates):
            for c in range(*sl[i][f]): gi[i, c] = n
        def gate_of(z):
            q = z.split('_')
            return gi.get((int(q[0][1:]), int(q[2]))) if z[0] == 'x' else None
        if not k.num:
            # the gate and the bias each field uses, from the dependencies at every position
            vals = lambda n: [y[(b, pos[gated[n]] + c) + p] for b in range(2) for p in np.ndindex(*shape) for c in range(rss[gated[n][0]][gated[n][1]].size)]
            reg = [(n, vals(n)) for n in range(len(gated))]
            bi = own_params(k, reg, len(gated), lambda z: z.startswith('bias'), True)
            dep = {n: {gate_of(z) for e in v for z in k.deps(e) if gate_of(z) is not None} for n, v in reg}
            mt = {}
            def aug(n, seen):
                for g in sorted(dep[n]):
                    if g in seen: continue
                    seen.add(g)
                    if g not in mt or aug(mt[g], seen): mt[g] = n; return True
                return False
            for n in range(len(gated)):
                if not aug(n, set()): raise Undecided('field %d has no gate of its own' % n)
            st.update(bias=bi, gate={n: g for g, n in mt.items()})
        for n, (i, f) in enumerate(gated):
            r = rss[i][f]; s = r.size if sub is None else sub(r)
            a = sl[i][f][0]
            gi_, gf = gates[st['gate'][n]]
            g0 = sl[gi_][gf][0]
            bz = st['bias'][n]
            bv = k.env[bz] if k.num else S.sym(bz, 'real')
            for b in range(2):
                for p in np.ndindex(*shape):
                    want, got = [], []
                    for c in range(r.size):
                        gv = X[gi_][(b, g0 + c // s) + p] - bv
                        want.append(X[i][(b, a + c) + p] * (1 / (1 + math.exp(-gv)) if k.num else fn('sigmoid', gv)))
                        got.append(y[(b, pos[i, f] + c) + p])
                    k.eq(got, want, 'a gated field is multiplied by the sigmoid of its own gate')
        if not drop:
            # the gates themselves: each the sigmoid of (itself - a bias)
            for n, (i, f) in enumerate(gates):
                js = [q for q, g in st['gate'].items() if g == n]
                bz = st['bias'][js[0]]; bv = k.env[bz] if k.num else S.sym(bz, 'real')
                for b in range(2):
                    for p in np.ndindex(*shape):
                        gv = [X[i][(b, c) + p] - bv for c in range(*sl[i][f])]
                        k.eq([y[(b, pos[i, f] + c) + p] for c in range(len(gv))], [1 / (1 + math.exp(-v)) if k.num else fn('sigmoid', v) for v in gv], 'kept gates are the activated gates')
    return contract


def pointwise_contract(build, f_sym, f_num, sp, rs, inplace=False, shape=(1, 2)):
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = build(ft)
        x = k.array('x', (2, ft.size) + shape)
        from e2cnn.nn import GeometricTensor
        t = k.tensor(x); g = GeometricTensor(t, ft)
        with k.running(): y = m(g)
        F = np.vectorize(f_num, otypes=[float]) if k.num else np.vectorize(f_sym, otypes=[object])
        k.eq(outarr(k, y), F(x), 'the stated function of every entry')
        k.holds(y.type == ft, 'output type')
        k.eq(k.arr(t), F(x) if inplace else x, 'the input changes only in the in-place variant')
        for e in sp.elements(np.random.RandomState(1), 1):
            M = rho_el(k, rs, e)
            k.eq(outarr(k, run(k, m, ft, mix(k, M, x))), mix(k, M, F(x)), 'commutes with the group')
    return contract


def concat_contract(fname, f_sym, f_num, sp, rs, shape=(1, 1)):
    from e2cnn import nn
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = nn.ConcatenatedNonLinearity(ft, function=fname)
        x = k.array('x', (2, ft.size) + shape)
        y = outarr(k, run(k, m, ft, x))
        F = f_num if k.num else f_sym
        want = np.empty((2, 2 * ft.size) + shape, float if k.num else object)
        for i in np.ndindex(*x.shape):
            want[(i[0], 2 * i[1]) + i[2:]] = F(x[i]); want[(i[0], 2 * i[1] + 1) + i[2:]] = F(-x[i])
        k.eq(y, want, 'the two rectified halves')
        for e in sp.elements(np.random.RandomState(1), 1):
            k.eq(outarr(k, run(k, m, ft, mix(k, rho_el(k, rs, e), x))), mix(k, rho_el(k, m.out_type.representations, e), y), 'commutes with the group in the declared output type')
    return contract


def vector_contract(N, nf):
    from e2cnn import nn
    sp = zoo.Space('R', N)
    rs = [sp.G.regular_representation] * nf
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = nn.VectorFieldNonLinearity(ft)
        x = k.array('x', (1, ft.size, 1, 1))
        # precondition: the maximum of each field is attained once
        if not k.num:
            for f in range(nf):
                for i in range(N):
                    for j in range(i):
                        k.c.run.assume_z(k.c.run.syms['x_0_%d_0_0' % (f * N + i)].z != k.c.run.syms['x_0_%d_0_0' % (f * N + j)].z)
        y = outarr(k, run(k, m, ft, x))
        for e in sp.elements():
            M = rho_sym(k, m.out_type.representations, 0, 2 * k.pi * int(e) / N)
            k.eq(outarr(k, run(k, m, ft, mix(k, rho_el(k, rs, e), x))), mix(k, M, y), 'commutes with the group in the declared output type')
    return contract


def build_c13(ctx):
    from e2cnn import nn
    fns = [NN + 'modules.nonlinearities']
    num = dict(relu=lambda v: max(v, 0.), sigmoid=lambda v: 1 / (1 + math.exp(-v)), tanh=math.tanh, elu=lambda v: v if v > 0 else math.exp(v) - 1)
    sm = dict(relu=srelu, sigmoid=lambda v: fn('sigmoid', v), tanh=lambda v: fn('tanh', v), elu=lambda v: fn('elu', v, 1.))

    def reg(name, make):
        @ctx.task('contract.' + name, kind='deductive')
        def _(t): prove(t, name.split('[')[0] + '.forward', fns, make())

    for key, sp, rs in layouts13():
        for fname, bias in (('n_relu', True), ('n_relu', False), ('n_sigmoid', True), ('squash', False)):
            reg('NormNonLinearity[%s,%s,%s]' % (key, fname, bias), lambda sp=sp, rs=rs, fname=fname, bias=bias: norm_contract(nn.NormNonLinearity, fname, bias, sp, rs))
    C4, D4, C3, D3 = zoo.Space('R', 4), zoo.Space('FR', 4), zoo.Space('R', 3), zoo.Space('FR', 3)
    ind = lambda sp, sub, psi: sp.G.induced_representation(sub, psi)
    c2 = lambda sp, sub: sp.G.subgroup(sub)[0]
    I4a = lambda: ind(C4, 2, c2(C4, 2).irrep(1)); I4b = lambda: ind(C4, 1, c2(C4, 1).irrep(0))
    ID = lambda: ind(D4, (None, 4), c2(D4, (None, 4)).irrep(1)); ID2 = lambda: ind(D4, (0, 1), c2(D4, (0, 1)).irrep(1)); IDr = lambda: ind(D4, (0, 2), c2(D4, (0, 2)).irrep(1, 1))
    for key, sp, mk_rs in [('D4:4x', D4, lambda: [ID(), ID2(), ID()]), ('D4:reg', D4, lambda: [IDr(), ID(), IDr()]), ('C4', C4, lambda: [I4a(), I4b(), I4a()])]:
        for fname, bias in (('n_relu', True), ('squash', False)):
            reg('InducedNormNonLinearity[%s,%s,%s]' % (key, fname, bias), lambda sp=sp, mk_rs=mk_rs, fname=fname, bias=bias: norm_contract(nn.InducedNormNonLinearity, fname, bias, sp, mk_rs(), induced_sub('induced_norm')))
    # gates
    T = lambda sp: sp.G.trivial_representation
    for key, sp, rs, gt in [('grouped', D4, lambda: [T(D4), T(D4), D4.G.irrep(1, 1), D4.G.regular_representation], 'ggff'), ('default', C4, lambda: [T(C4), T(C4), T(C4), C4.G.irrep(1), T(C4), C4.G.irrep(1)], None),
                            ('interleaved', D4, lambda: [D4.G.irrep(1, 1), T(D4), D4.G.irrep(0, 2), T(D4), D4.G.irrep(1, 1), T(D4)], 'fgfgfg'), ('mixed', C3, lambda: [T(C3), C3.G.irrep(1), T(C3), T(C3), C3.G.irrep(1), C3.G.irrep(0)], 'gfgffg')]:
        for drop in (True, False):
            def make(sp=sp, rs=rs, gt=gt, drop=drop):
                R = rs(); g = gt or 'g' * (len(R) // 2) + 'f' * (len(R) // 2)
                names = None if gt is None else ['gate' if c == 'g' else 'gated' for c in g]
                return gated_contract(lambda f: nn.GatedNonLinearity1(f, gates=names, drop_gates=drop), (sp, [R]), [(0, i, 'gate' if c == 'g' else 'gated') for i, c in enumerate(g)], drop=drop)
            reg('GatedNonLinearity1[%s,%s]' % (key, drop), make)
            def make(sp=sp, gt=gt, drop=drop, key=key):
                sub = (None, 4) if sp is D4 else 1 if sp is C3 else 2
                q = sp.G.quotient_representation(sub); psi = c2(sp, sub)
                f1 = ind(sp, sub, psi.irrep(1)) if sp is not C3 else sp.G.regular_representation; f2 = ind(sp, sub, psi.trivial_representation); g = gt or 'gggfff'
                if sp is C3: f1 = f2 = ind(sp, 1, psi.irrep(0))
                R = []; n = 0
                for c in g:
                    R.append(q if c == 'g' else (f1, f2)[n % 2]); n += c == 'f'
                return gated_contract(lambda f: nn.InducedGatedNonLinearity1(f, gates=['gate' if c == 'g' else 'gated' for c in g], drop_gates=drop), (sp, [R]), [(0, i, 'gate' if c == 'g' else 'gated') for i, c in enumerate(g)],
                                      sub=induced_sub('induced_gated'), drop=drop, shape=(1, 1))
            reg('InducedGatedNonLinearity1[%s,%s]' % (key, drop), make)
    for key, sp, rs in [('grouped', D4, lambda: [D4.G.irrep(1, 1), D4.G.irrep(1, 1), D4.G.regular_representation]), ('interleaved', D4, lambda: [D4.G.irrep(1, 1), D4.G.irrep(0, 2), D4.G.irrep(1, 1), D4.G.irrep(1, 0)])]:
        def make(sp=sp, rs=rs):
            R = rs(); n = len(R)
            return gated_contract(lambda a, b: nn.GatedNonLinearity2((a, b)), (sp, [[T(sp)] * n, R]), [(0, i, 'gate') for i in range(n)] + [(1, i, 'gated') for i in range(n)])
        reg('GatedNonLinearity2[%s]' % key, make)
    # pointwise
    for key, sp, rs in [('D4', D4, lambda: [D4.G.regular_representation, T(D4), D4.G.quotient_representation((0, 2))]), ('C3', C3, lambda: [T(C3), C3.G.regular_representation])]:
        for f in ('relu', 'elu', 'sigmoid', 'tanh'): reg('PointwiseNonLinearity[%s,%s]' % (key, f), lambda f=f, sp=sp, rs=rs: pointwise_contract(lambda t: nn.PointwiseNonLinearity(t, 'p_' + f), sm[f], num[f], sp, rs()))
        for ip in (False, True):
            reg('ReLU[%s,%s]' % (key, ip), lambda ip=ip, sp=sp, rs=rs: pointwise_contract(lambda t: nn.ReLU(t, inplace=ip), sm['relu'], num['relu'], sp, rs(), ip))
            reg('ELU[%s,%s]' % (key, ip), lambda ip=ip, sp=sp, rs=rs: pointwise_contract(lambda t: nn.ELU(t, alpha=.7, inplace=ip), lambda v: fn('elu', v, .7), lambda v: v if v > 0 else .7 * (math.exp(v) - 1), sp, rs(), ip))
    for key, sp, rs in [('C4', C4, lambda: [C4.G.regular_representation, C4.G.irrep(2), T(C4)]), ('D3', D3, lambda: [D3.G.irrep(1, 0), D3.G.quotient_representation((0, 1))])]:
        for f in ('relu', 'tanh', 'sigmoid'): reg('ConcatenatedNonLinearity[%s,%s]' % (key, f), lambda f=f, sp=sp, rs=rs: concat_contract('c_' + f, sm[f], num[f], sp, rs()))
    for N, nf in ((3, 2), (4, 1), (5, 1)): reg('VectorFieldNonLinearity[%d,%d]' % (N, nf), lambda N=N, nf=nf: vector_contract(N, nf))


# ================================================================= C14
def state(k, m):
    return {n: (k.arr(v) if v.dtype in (torch.float32, torch.float64) else int(v)) for n, v in list(m.named_parameters()) + list(m.named_buffers()) if v is not None and (v.dtype.is_floating_point or v.numel() == 1)}


def tot(k, xs): return sum(xs) if k.num else ssum(list(xs))


def momentum_of(k, m, momentum, nb):
    return (Fr(1, nb) if not k.num else 1. / nb) if momentum is None else k.const(momentum)


def spec_inner(k, m, rs, x, st, training, mo, affine, track):
    eps = k.const(m.eps); y = x.copy(); new = dict(st)
    grp = {}
    for j, (r, (a, b)) in enumerate(zip(rs, field_slices(rs))): grp.setdefault(r.size, []).append((a, b))
    for s, fs in grp.items():
        pre = 'batch_norm_[%d].' % s
        if track and training:
            for q in ('running_mean', 'running_var'): new[pre + q] = new[pre + q].copy()
        for i, (a, b) in enumerate(fs):
            v = list(x[:, a:b].reshape(-1)); n = len(v)
            mean = tot(k, v) / n; var = tot(k, [(u - mean) * (u - mean) for u in v]) / n
            if training or not track: M, V = mean, var
            else: M, V = st[pre + 'running_mean'][i], st[pre + 'running_var'][i]
            if training and track:
                new[pre + 'running_mean'][i] = st[pre + 'running_mean'][i] * (1 - mo) + mean * mo
                new[pre + 'running_var'][i] = st[pre + 'running_var'][i] * (1 - mo) + var * mo * n / (n - 1)
            w, c = (st[pre + 'weight'][i], st[pre + 'bias'][i]) if affine else (1, 0)
            inv = 1 / k.sqrt(V + eps)
            for q in np.ndindex(*x[:, a:b].shape):
                q = (q[0], q[1] + a) + q[2:]
                y[q] = (x[q] - M) * inv * w + c
    return y, new


def spec_norm(k, m, rs, x, st, training, mo, affine, track, sub=None):
    eps = k.const(m.eps); y = x.copy(); new = dict(st)
    grp = {}
    for r, (a, b) in zip(rs, field_slices(rs)):
        key = r.size if sub is None else (r.size, sub(r))
        grp.setdefault(key, []).append((a, b))
    for key, fs in grp.items():
        s = key if sub is None else key[1]
        rv = '%s_running_var' % (key,)
        new[rv] = st[rv].copy()
        for i, (a, b) in enumerate(fs):
            v = [u * u for u in x[:, a:b].reshape(-1)]; n = len(v) // s
            cur = st[rv].reshape(-1)[i]
            if training:
                var = tot(k, v) / (n * s) * (Fr(n, n - 1) if not k.num else n / (n - 1)) if n > 1 else tot(k, v) / s
                cur = cur * (1 - mo) + var * mo
                new[rv].reshape(-1)[i] = cur
            f = (st['%s_weight' % (key,)].reshape(-1)[i] if affine else 1) / k.sqrt(cur + eps)
            for q in np.ndindex(*x[:, a:b].shape):
                q = (q[0], q[1] + a) + q[2:]
                y[q] = x[q] * f
    return y, new


def spec_gnorm(k, m, rs, x, st, training, mo, affine, track):
    eps = k.const(m.eps); y = x.copy(); new = dict(st)
    cnt = {}
    B, _, H, W = x.shape
    N = B * H * W
    c32 = lambda M: np.vectorize(lambda v: k.const(np.float32(v)), otypes=[float if k.num else object])(np.asarray(M))
    for r, (a, b) in zip(rs, field_slices(rs)):
        i = cnt.get(r.name, 0); cnt[r.name] = i + 1
        std = np.allclose(r.change_of_basis, np.eye(r.size))
        t = x[:, a:b] if std else mix(k, c32(r.change_of_basis_inv), x[:, a:b])
        out = t.copy()
        rv, rm = r.name + '_running_var', r.name + '_running_mean'
        if i == 0: new[rv], new[rm] = st[rv].copy(), st[rm].copy()
        p = 0; tr = 0
        for j, irr_ in enumerate(r.irreps):
            irr_ = r.group.irreps[irr_]; d = irr_.size
            triv = irr_.is_trivial()
            vals = t[:, p:p + d]
            if training:
                mean = tot(k, list(vals.reshape(-1))) / N if triv else 0
                var = tot(k, [u * u for u in vals.reshape(-1)]) / (N * d) - mean * mean
                if N > 1: var = var * N / (N - 1)
                new[rv][i, j] = st[rv][i, j] * (1 - mo) + var * mo
                if triv: new[rm][i, tr] = st[rm][i, tr] * (1 - mo) + mean * mo
            else: mean, var = (st[rm][i, tr] if triv else 0), st[rv][i, j]
            f = (st[r.name + '_weight'][i, j] if affine else 1) / k.sqrt(var + eps)
            c = st[r.name + '_bias'][i, tr] if affine and triv else 0
            for q in np.ndindex(*vals.shape):
                q = (q[0], q[1] + p) + q[2:]
                out[q] = (t[q] - mean) * f + c
            p += d; tr += triv
        y[:, a:b] = out if std else mix(k, c32(r.change_of_basis), out)
    return y, new


def bn_contract(build, spec, sp, rs, training, momentum, nb=0, affine=True, track=True, shape=(1, 2), act=None, batch=2):
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = build(ft, momentum)
        m.train(training)
        for n_, b in m.named_buffers():
            if n_.endswith('num_batches_tracked'): b.fill_(nb)
        k.params(m, pos=('running_var',), skip=[n for n, _ in m.named_buffers() if 'change_of_basis' in n or n.startswith('vars_')])
        st = state(k, m)
        x = k.array('x', (batch, ft.size) + shape)
        from e2cnn.nn import GeometricTensor
        t = k.tensor(x)
        with k.running(): y = m(GeometricTensor(t, ft))
        y = outarr(k, y)
        mo = momentum_of(k, m, momentum, nb + 1)
        want, new = spec(k, m, rs, x, st, training, mo, affine, track)
        k.eq(y, want, 'the stated normalisation' + (' of the batch' if training else ' by the stored statistics'))
        k.eq(k.arr(t), x, 'the input is left alone')
        after = state(k, m)
        k.holds(set(after) == set(st), 'the state keeps its entries')
        for n_ in st:
            if n_.endswith('num_batches_tracked'): k.holds(after[n_] == nb + (1 if training else 0), 'number of batches')
            elif 'running' in n_: k.eq(after[n_], new[n_], 'running statistics ' + ('updated by the stated momentum' if training else 'unchanged'))
            else: k.eq(after[n_], st[n_], 'parameters unchanged')
        # the layer commutes with the group (statistics of the moved batch included)
        for M in (act(k, sp, rs) if act else ()):
            m2 = build(ft, momentum); m2.train(training)
            for n_, b in m2.named_buffers():
                if n_.endswith('num_batches_tracked'): b.fill_(nb)
            k.params(m2, pos=('running_var',), skip=[n for n, _ in m2.named_buffers() if 'change_of_basis' in n or n.startswith('vars_')])
            k.eq(outarr(k, run(k, m2, ft, mix(k, M, x))), mix(k, M, y), 'commutes with the group')
            a2 = state(k, m2)
            for n_ in after:
                if 'running' in n_: k.eq(a2[n_], after[n_], 'statistics are invariant')
        # resetting restores the initial state
        with k.running(): m.reset_running_stats()
        for n_, v in state(k, m).items():
            if n_.endswith('num_batches_tracked'): k.holds(v == 0, 'reset counts no batch')
            elif n_.endswith('running_var'): k.eq(v, np.ones(v.shape), 'reset variance')
            elif n_.endswith('running_mean'): k.eq(v, np.zeros(v.shape), 'reset mean')
        with k.running(): m.reset_parameters()
        for n_, v in state(k, m).items():
            if n_.endswith('weight'): k.eq(v, np.ones(v.shape), 'reset weight')
            elif n_.endswith('bias'): k.eq(v, np.zeros(v.shape), 'reset bias')
    return contract


def act_sym(k, sp, rs):
    t = angle(k, sp)
    for f in ((0, 1) if sp.kind == 'FR' else (0,)): yield rho_sym(k, rs, f, t)


def act_perm(k, sp, rs):
    for e in sp.elements(np.random.RandomState(1), 1): yield rho_el(k, rs, e)


def build_c14(ctx):
    from e2cnn import nn
    fns = [NN + 'modules.batchnormalization']
    S1, S2, C4, D4, C3 = zoo.Space('R', -1, maxf=3), zoo.Space('FR', -1, maxf=3), zoo.Space('R', 4), zoo.Space('FR', 4), zoo.Space('R', 3)
    T = lambda sp: sp.G.trivial_representation
    modes = [('train', True, .1, 0), ('train', True, None, 0), ('train', True, None, 2), ('eval', False, .1, 3), ('eval', False, None, 0)]

    def reg(name, make):
        @ctx.task('contract.' + name, kind='deductive')
        def _(t): prove(t, name.split('[')[0] + '.forward', fns, make())
    ind = lambda sp, sub, *i: sp.G.induced_representation(sub, sp.G.subgroup(sub)[0].irrep(*i))
    fam = []
    for key, sp, rs in [('C3:reg,triv', C3, lambda: [C3.G.regular_representation, T(C3)]), ('D4:quot,triv,quot', D4, lambda: [D4.G.quotient_representation((None, 4)), T(D4), D4.G.quotient_representation((None, 4)), T(D4)])]:
        for aff in (True, False):
            fam.append(('InnerBatchNorm[%s,%s' % (key, aff), lambda t, mo, aff=aff: nn.InnerBatchNorm(t, momentum=mo, affine=aff), spec_inner, sp, rs, aff, act_perm, True))
    fam.append(('InnerBatchNorm[untracked', lambda t, mo: nn.InnerBatchNorm(t, momentum=mo, track_running_stats=False), spec_inner, C3, lambda: [T(C3), C3.G.regular_representation, T(C3)], True, act_perm, False))
    for key, sp, rs in [('SO2:1,2', S1, lambda: irr(S1, 1, 2)), ('O2:11,10,12,10', S2, lambda: irr(S2, (1, 1), (1, 0), (1, 2), (1, 0))), ('C4:2,1,2', C4, lambda: irr(C4, 2, 1, 2))]:
        for aff in (True, False):
            fam.append(('NormBatchNorm[%s,%s' % (key, aff), lambda t, mo, aff=aff: nn.NormBatchNorm(t, momentum=mo, affine=aff), spec_norm, sp, rs, aff, act_sym, True))
    for key, sp, rs in [('D4', D4, lambda: [ind(D4, (None, 4), 1), ind(D4, (0, 1), 1), ind(D4, (None, 4), 1)]), ('C4', C4, lambda: [ind(C4, 2, 1)] * 2)]:
        for aff in (True, False):
            fam.append(('InducedNormBatchNorm[%s,%s' % (key, aff), lambda t, mo, aff=aff: nn.InducedNormBatchNorm(t, momentum=mo, affine=aff), lambda *a: spec_norm(*a, sub=induced_sub('induced_norm')), sp, rs, aff, None, True))
    for key, sp, rs, ac in [('SO2:0,1,0', S1, lambda: irr(S1, 0, 1, 0), act_sym), ('O2:00,11,10', S2, lambda: irr(S2, (1, 1), (0, 0), (1, 0), (0, 0)), act_sym), ('C3:reg,triv,reg', C3, lambda: [C3.G.regular_representation, T(C3), C3.G.regular_representation], None)]:
        for aff in (True, False):
            fam.append(('GNormBatchNorm[%s,%s' % (key, aff), lambda t, mo, aff=aff: nn.GNormBatchNorm(t, momentum=mo, affine=aff), spec_gnorm, sp, rs, aff, ac, True))
    for nm, build, spec, sp, rs, aff, ac, tr in fam:
        for mn, training, mo, nb in modes:
            reg('%s,%s,%s,%s]' % (nm, mn, mo, nb), lambda build=build, spec=spec, sp=sp, rs=rs, aff=aff, ac=ac, tr=tr, training=training, mo=mo, nb=nb: bn_contract(build, spec, sp, rs(), training, mo, nb, aff, tr, act=ac))
    # a single value per channel
    for nm, build, spec, sp, rs, aff, ac, tr in fam:
        if nm[0] in 'NG' and aff: reg('%s,train,single]' % nm, lambda build=build, spec=spec, sp=sp, rs=rs, ac=ac: bn_contract(build, spec, sp, rs(), True, .3, 1, True, True, act=ac, batch=1, shape=(1, 1)))


# ================================================================= C15
def invariant_contract(build, spec, sp, rs, act, sub=None, shape=(1, 2)):
    """one value per field, equal to spec(own entries), unchanged by the action"""
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = build(ft)
        x = k.array('x', (2, ft.size) + shape)
        from e2cnn.nn import GeometricTensor
        t = k.tensor(x)
        with k.running(): y = m(GeometricTensor(t, ft))
        k.holds(all(r.is_trivial() for r in y.type.representations) and len(y.type) == len(rs), 'one invariant field per field')
        y = outarr(k, y)
        want = np.empty((2, len(rs)) + shape, float if k.num else object)
        for j, (r, (a, b)) in enumerate(zip(rs, field_slices(rs))):
            for n in range(2):
                for p in np.ndindex(*shape): want[(n, j) + p] = spec(k, r, [x[(n, c) + p] for c in range(a, b)])
        k.eq(y, want, 'the stated invariant of each field')
        k.eq(k.arr(t), x, 'the input is left alone')
        for M in act(k, sp, rs): k.eq(outarr(k, run(k, m, ft, mix(k, M, x))), y, 'unchanged by the group')
    return contract


def vmax(k, xs): return max(xs) if k.num else smax(*xs)
def vnorm(k, xs): return k.sqrt(tot(k, [v * v for v in xs]))


def act_planes(sub=None):
    def f(k, sp, rs):
        a = k.real('turn')
        for p in range(max(r.size if sub is None else sub(r) for r in rs)): yield own_rotation(k, rs, p, a, sub)
    return f


def induced_act(k, sp, rs):
    """rotations of single sub-fields (one angle) followed by any permutation of the sub-fields of a field: generated by cyclic shifts and swaps"""
    sub = induced_sub('induced_norm')
    yield from act_planes(sub)(k, sp, rs)
    for kind in ('shift', 'swap'):
        n = sum(r.size for r in rs)
        M = np.zeros((n, n), float if k.num else object)
        if not k.num: M[...] = lift(0)
        o = 0
        for r in rs:
            s = sub(r); q = r.size // s
            perm = [(i + 1) % q for i in range(q)] if kind == 'shift' else ([1, 0] + list(range(2, q)) if q > 1 else [0])
            for i in range(q):
                for c in range(s): M[o + perm[i] * s + c, o + i * s + c] = 1 if k.num else lift(1)
            o += r.size
        yield M


def norm_max_contract(sp, rs, size, kw, act=None):
    from e2cnn import nn
    ft = zoo.fieldtype(sp, rs)
    from .tsym import pool_cells, pair
    def contract(k):
        m = nn.NormMaxPool(ft, **kw)
        x = k.array('x', (1, ft.size) + size)
        y = outarr(k, run(k, m, ft, x))
        ks = pair(kw['kernel_size'])
        oh, ow, cells = pool_cells(size[0], size[1], ks, pair(kw.get('stride') or ks), pair(kw.get('padding', 0)), pair(kw.get('dilation', 1)), kw.get('ceil_mode', False))
        k.holds(y.shape == (1, ft.size, oh, ow), 'output size')
        for (a, b) in field_slices(rs):
            nr = lambda q: tot(k, [x[(0, c) + q] * x[(0, c) + q] for c in range(a, b)])
            for (i, j), v in cells.items():
                got = [y[0, c, i, j] for c in range(a, b)]
                if k.num:
                    best = max(v, key=nr)
                    k.eq(got, [x[(0, c) + best] for c in range(a, b)], 'the field of largest norm in the window')
                    continue
                src = [q for q in v if all(not (lift(g) - x[(0, c) + q]).n().t for g, c in zip(got, range(a, b)))]
                if not src:
                    # no field of the window is copied as a whole: look for values for which none equals the output
                    best = v[0]
                    k.eq(got, [x[(0, c) + best] for c in range(a, b)], 'the field of largest norm in the window')
                    raise Undecided('NormMaxPool: output is no field of its window')
                for q in v:
                    if q != src[0]: k.c.ge(ssqrt(nr(src[0])), ssqrt(nr(q)), 'the field of largest norm in the window')
                k.holds(True, 'a whole field of the window is returned')
        for M in (act(k, sp, rs) if act else ()): k.eq(outarr(k, run(k, m, ft, mix(k, M, x))), mix(k, M, y), 'commutes with the group')
    return contract


def rotate_pixels(x, M): return zoo.move(x, M)


GRID = [np.array([[0., -1.], [1., 0.]]), np.array([[1., 0.], [0., -1.]])]


def pool_contract(build, spec, sp, rs, size, grid=False, act=act_perm):
    """value spec per channel; commutes with the channel mixing, and with the rotation / reflection of the grid (generators) when the windows are symmetric"""
    ft = zoo.fieldtype(sp, rs)
    def contract(k):
        m = build(ft)
        x = k.array('x', (1, ft.size) + size)
        from e2cnn.nn import GeometricTensor
        t = k.tensor(x)
        with k.running(): g = m(GeometricTensor(t, ft))
        y = outarr(k, g)
        k.holds(g.type == ft, 'output type')
        k.eq(y, spec(k, m, x), 'the stated value of every window')
        k.eq(k.arr(t), x, 'the input is left alone')
        for M in (act(k, sp, rs) if act else ()): k.eq(outarr(k, run(k, m, ft, mix(k, M, x))), mix(k, M, y), 'commutes with the mixing of channels')
        if grid:
            for M in GRID: k.eq(outarr(k, run(k, m, ft, rotate_pixels(x, M))), rotate_pixels(y, M), 'commutes with the grid transformations')
    return contract


def spec_pool(f, kw, pad_value=None):
    from .tsym import pool_cells, pair
    def g(k, m, x):
        ks = pair(kw['kernel_size'])
        P, st = pair(kw.get('padding', 0)), pair(kw.get('stride') or ks)
        oh, ow, cells = pool_cells(x.shape[2], x.shape[3], ks, st, P, pair(kw.get('dilation', 1)), kw.get('ceil_mode', False))
        y = np.empty(x.shape[:2] + (oh, ow), x.dtype)
        for n, c in np.ndindex(*x.shape[:2]):
            for (i, j), v in cells.items():
                if f == 'max': y[n, c, i, j] = vmax(k, [x[(n, c) + q] for q in v])
                else:
                    # average over the window inside the padded image
                    h = min(i * st[0] - P[0] + ks[0], x.shape[2] + P[0]) - (i * st[0] - P[0]); w = min(j * st[1] - P[1] + ks[1], x.shape[3] + P[1]) - (j * st[1] - P[1])
                    y[n, c, i, j] = tot(k, [x[(n, c) + q] for q in v]) / (h * w)
        return y
    return g


def gauss(k, n, sigma):
    """normalised Gaussian, single precision constants"""
    r = np.arange(n) - (n - 1) / 2
    w = np.exp(-(r[:, None] ** 2 + r[None] ** 2) / (2 * sigma ** 2)); w /= w.sum()
    return w


def blur(k, x, w, stride, pad):
    n = w.shape[0]
    B, C, H, W = x.shape
    oh, ow = (H + 2 * pad[0] - n) // stride[0] + 1, (W + 2 * pad[1] - n) // stride[1] + 1
    y = np.empty((B, C, oh, ow), x.dtype)
    for b, c, i, j in np.ndindex(*y.shape):
        v = []
        for u in range(n):
            for z in range(n):
                p, q = i * stride[0] + u - pad[0], j * stride[1] + z - pad[1]
                if 0 <= p < H and 0 <= q < W: v.append(x[b, c, p, q] * (w[u, z] if k.num else lift(Fr(float(w[u, z])))))
        y[b, c, i, j] = tot(k, v)
    return y


def build_c15(ctx):
    from e2cnn import nn
    fns = [NN + 'modules']

    def reg(name, make, **kw):
        @ctx.task('contract.' + name, kind='deductive')
        def _(t): prove(t, name.split('[')[0] + '.forward', fns, make(), **kw)
    S1, S2, C4, D4, C3 = zoo.Space('R', -1, maxf=3), zoo.Space('FR', -1, maxf=3), zoo.Space('R', 4), zoo.Space('FR', 4), zoo.Space('R', 3)
    T = lambda sp: sp.G.trivial_representation
    ind = lambda sp, sub, *i: sp.G.induced_representation(sub, sp.G.subgroup(sub)[0].irrep(*i))
    perm = [('C3:reg,triv,reg', C3, lambda: [C3.G.regular_representation, T(C3), C3.G.regular_representation]), ('D4:reg,quot', D4, lambda: [D4.G.quotient_representation((None, 2)), D4.G.quotient_representation((None, 2)), D4.G.regular_representation]),
            ('D4:quot,triv,quot', D4, lambda: [D4.G.quotient_representation((None, 4)), T(D4), D4.G.quotient_representation((0, 2)), T(D4), D4.G.quotient_representation((None, 4))])]
    for key, sp, rs in perm: reg('GroupPooling[%s]' % key, lambda sp=sp, rs=rs: invariant_contract(nn.GroupPooling, lambda k, r, v: vmax(k, v), sp, rs(), act_perm))
    for key, sp, rs in perm + [(a, b, (lambda c=c: c)) for a, b, c in layouts13()]: reg('NormPool[%s]' % key, lambda sp=sp, rs=rs: invariant_contract(nn.NormPool, lambda k, r, v: vnorm(k, v), sp, rs(), act_planes()))
    sub = induced_sub('induced_norm')
    def spec_ind(k, r, v):
        s = sub(r)
        return vmax(k, [vnorm(k, v[i:i + s]) for i in range(0, len(v), s)])
    for key, sp, rs in [('D4', D4, lambda: [ind(D4, (None, 4), 1), ind(D4, (0, 1), 1), ind(D4, (None, 4), 1)]), ('C4', C4, lambda: [ind(C4, 2, 1), ind(C4, 1, 0), ind(C4, 2, 0)]), ('D4b', D4, lambda: [ind(D4, (0, 2), 1, 1), ind(D4, (0, 2), 1, 1), ind(D4, (None, 2), 1)])]:
        reg('InducedNormPool[%s]' % key, lambda sp=sp, rs=rs: invariant_contract(nn.InducedNormPool, spec_ind, sp, rs(), induced_act, shape=(1, 1)))

    @ctx.task('contract.MaxPoolChannels', kind='deductive')
    def _(t):
        def contract(k):
            for s, c in ((2, 3), (3, 1), (1, 2), (4, 2)):
                m = nn.MaxPoolChannels(s)
                x = k.array('x%d' % s, (2, s * c, 1, 2))
                with k.running(): y = m(k.tensor(x))
                k.eq(k.arr(y), np.array([[[[vmax(k, [x[n, j * s + i, 0, w] for i in range(s)]) for w in range(2)]] for j in range(c)] for n in range(2)]), 'the maximum of each group of channels')
        prove(t, 'MaxPoolChannels.forward', fns, contract)
    # spatial pooling
    irs = [('SO2:1,0', S1, lambda: irr(S1, 1, 0)), ('O2:11,10,11', S2, lambda: irr(S2, (1, 1), (1, 0), (1, 1)))]
    for key, sp, rs in irs:
        for i, (size, kw) in enumerate([((2, 2), dict(kernel_size=2)), ((1, 3), dict(kernel_size=(1, 2), stride=1)), ((2, 1), dict(kernel_size=(2, 1), padding=(1, 0), stride=(2, 1))), ((3, 1), dict(kernel_size=(2, 1), dilation=(2, 1), stride=1)), ((3, 1), dict(kernel_size=(2, 1), ceil_mode=True))]):
            if key.startswith('O2') and i in (0, 3): continue
            reg('NormMaxPool[%s,%d]' % (key, i), lambda sp=sp, rs=rs, size=size, kw=kw: norm_max_contract(sp, rs(), size, kw, act_sym if len(rs()) < 3 else None), maxpaths=2000)
    P = lambda: [C3.G.regular_representation, T(C3)]
    cases = [((4, 4), dict(kernel_size=2), True), ((3, 3), dict(kernel_size=3, stride=1, padding=1), True), ((4, 5), dict(kernel_size=(2, 3), stride=(2, 1), padding=(0, 1)), False), ((5, 4), dict(kernel_size=2, stride=2, ceil_mode=True), False), ((5, 5), dict(kernel_size=3, stride=2), True),
             ((4, 4), dict(kernel_size=2, stride=3, padding=1), False)]
    for i, (size, kw, grid) in enumerate(cases):
        reg('PointwiseMaxPool[%d]' % i, lambda size=size, kw=kw, grid=grid: pool_contract(lambda t: nn.PointwiseMaxPool(t, **kw), spec_pool('max', kw), C3, P(), size, grid))
        reg('PointwiseAvgPool[%d]' % i, lambda size=size, kw=kw, grid=grid: pool_contract(lambda t: nn.PointwiseAvgPool(t, **kw), spec_pool('avg', kw), C3, P(), size, grid))
        reg('PointwiseAvgPool[irreps,%d]' % i, lambda size=size, kw=kw, grid=grid: pool_contract(lambda t: nn.PointwiseAvgPool(t, **kw), spec_pool('avg', kw), S2, irr(S2, (1, 1), (1, 0)), size, grid, act_sym))
    kwd = dict(kernel_size=2, stride=1, dilation=2)
    reg('PointwiseMaxPool[dilated]', lambda: pool_contract(lambda t: nn.PointwiseMaxPool(t, **kwd), spec_pool('max', kwd), C3, P(), (3, 4)))
    for i, (size, sigma, stride, grid) in enumerate([((3, 3), .4, 1, True), ((3, 3), .4, 2, True), ((4, 3), .3, (2, 1), False), ((5, 5), .6, 2, True)]):
        def spec(k, m, x, sigma=sigma, stride=stride):
            n = 2 * int(round(3 * sigma)) + 1
            return blur(k, x, gauss(k, n, sigma), (stride, stride) if isinstance(stride, int) else stride, ((n - 1) // 2,) * 2)
        reg('PointwiseAvgPoolAntialiased[%d]' % i, lambda spec=spec, size=size, sigma=sigma, stride=stride, grid=grid: pool_contract(lambda t: nn.PointwiseAvgPoolAntialiased(t, sigma, stride), spec, S1, irr(S1, 1), size, grid, act_sym))
    for i, (size, kw, sigma, grid) in enumerate([((4, 4), dict(kernel_size=2, stride=2), .3, False), ((3, 3), dict(kernel_size=3, stride=2, padding=1), .4, True)]):
        def spec(k, m, x, kw=kw, sigma=sigma):
            n = 2 * int(round(4 * sigma)) + 1
            z = spec_pool('max', dict(kw, stride=1))(k, m, x)
            p = kw.get('padding', 0) + (n - 1) // 2
            return blur(k, z, gauss(k, n, sigma), (kw['stride'],) * 2, (p, p))
        reg('PointwiseMaxPoolAntialiased[%d]' % i, lambda spec=spec, size=size, kw=kw, sigma=sigma, grid=grid: pool_contract(lambda t: nn.PointwiseMaxPoolAntialiased(t, sigma=sigma, **kw), spec, C3, [T(C3), T(C3)], size, grid, None))
    for nm, cls, f in (('PointwiseAdaptiveAvgPool', nn.PointwiseAdaptiveAvgPool, lambda k, v: tot(k, v) / len(v)), ('PointwiseAdaptiveMaxPool', nn.PointwiseAdaptiveMaxPool, vmax)):
        for i, (size, o, grid) in enumerate([((4, 4), 2, True), ((3, 5), (2, 3), False), ((4, 4), 1, True), ((3, 3), 3, True), ((5, 5), 2, True)]):
            def spec(k, m, x, o=o, f=f):
                o = (o, o) if isinstance(o, int) else o
                H, W = x.shape[2:]
                y = np.empty(x.shape[:2] + o, x.dtype)
                for b, c, u, v in np.ndindex(*y.shape): y[b, c, u, v] = f(k, [x[b, c, p, q] for p in range(u * H // o[0], -(-(u + 1) * H // o[0])) for q in range(v * W // o[1], -(-(v + 1) * W // o[1]))])
                return y
            reg('%s[%d]' % (nm, i), lambda cls=cls, spec=spec, size=size, o=o, grid=grid: pool_contract(lambda t: cls(t, o), spec, C3, P(), size, grid))
    # upsampling: linear, the same on every channel
    def up(k, m, x, mode, size, scale, ac):
        """bilinear / nearest interpolation from its definition"""
        H, W = x.shape[2:]
        oh, ow = size if size else (int(math.floor(H * scale)), int(math.floor(W * scale)))
        def taps(o, n, on, sc):
            if mode == 'nearest': return [(min(int(math.floor(o * (1 / sc if sc else n / on))), n - 1), Fr(1))]
            if ac: p = Fr(o * (n - 1), on - 1) if on > 1 else Fr(0)
            else: p = max((o + Fr(1, 2)) * (1 / Fr(sc) if sc else Fr(n, on)) - Fr(1, 2), Fr(0))
            i = min(int(math.floor(p)), n - 1); w = p - i
            return [(i, 1 - w)] + ([(min(i + 1, n - 1), w)] if w else [])
        y = np.empty(x.shape[:2] + (oh, ow), x.dtype)
        for b, c, u, v in np.ndindex(*y.shape):
            y[b, c, u, v] = tot(k, [x[b, c, p, q] * (float(wp * wq) if k.num else lift(wp * wq)) for p, wp in taps(u, H, oh, scale) for q, wq in taps(v, W, ow, scale)])
        return y
    for i, (mode, size, scale, ac, inp, grid) in enumerate([('bilinear', None, 2, False, (3, 3), True), ('bilinear', None, 2, True, (3, 3), True), ('bilinear', (5, 5), None, True, (3, 3), True), ('bilinear', (4, 5), None, False, (3, 2), False), ('nearest', None, 2, False, (3, 3), True), ('nearest', None, 3, False, (2, 3), False), ('bilinear', None, 3, False, (2, 2), True)]):
        for key, sp, rs in irs[1:]:
            reg('R2Upsampling[%d]' % i, lambda i=i, mode=mode, size=size, scale=scale, ac=ac, inp=inp, grid=grid, sp=sp, rs=rs: pool_contract(lambda t: nn.R2Upsampling(t, scale_factor=scale, size=size, mode=mode, align_corners=ac), lambda k, m, x: up(k, m, x, mode, size, scale, ac), sp, rs()[:2], inp, grid, act_sym))
    # masks
    for n in (3, 4, 5):
        for margin in (0., 20.):
            def spec(k, m, x, n=n, margin=margin):
                c = (n - 1) / 2; R = (c - margin / 100 * c) ** 2
                y = x.copy()
                for q in np.ndindex(*x.shape):
                    r = (q[2] - c) ** 2 + (q[3] - c) ** 2
                    w = float(m.mask.detach().reshape(n, n)[q[2], q[3]])
                    if r <= R: w = 1
                    y[q] = x[q] * (w if k.num else get(w)[()])
                return y
            reg('MaskModule[%d,%g]' % (n, margin), lambda spec=spec, n=n, margin=margin: pool_contract(lambda t: nn.MaskModule(t, n, margin), spec, S2, irr(S2, (1, 1), (1, 0)), (n, n), True, act_sym))


# ================================================================= C16
def unit_keys(rs, shape, B, field):
    """unit -> list of entries (b, c, pixel)"""
    out = {}
    for b in range(B):
        for j, (a, z) in enumerate(field_slices(rs)):
            for p in np.ndindex(*shape):
                for c in range(a, z): out.setdefault((b, j) + p if field else (b, c) + p, []).append((b, c) + p)
    return out


def at(e, name, v):
    """the expression with a symbol replaced by 0 or 1"""
    d = {}
    for (a, m), c in lift(e).n().t.items():
        q = dict(m)
        if name in q:
            if v == 0: continue
            q.pop(name)
        key = (a, tuple(sorted(q.items())))
        w = d.get(key, (0, 0)); d[key] = (w[0] + c[0], w[1] + c[1])
    return S({q: c for q, c in d.items() if c[0] or c[1]})


def dropout_contract(build, sp, rs, field, inplace, train, shape=(1, 2), B=2, prep=None):
    from e2cnn.nn import GeometricTensor
    ft = zoo.fieldtype(sp, rs)

    def contract(k):
        p = k.real('p', 0); k.assume(1 - p)
        m = build(ft, p, inplace)
        m.train(train)
        x = k.array('x', (B, ft.size) + shape)
        U = unit_keys(rs, shape, B, field)
        if k.num: return replay(k, m, p, x, U)
        t = k.tensor(x)
        if prep: t = prep(t)
        g = GeometricTensor(t, ft)
        with k.running(): y = m(g)
        k.holds(y.type == ft, 'output type')
        Y = outarr(k, y)
        k.holds(Y.shape == x.shape, 'shape')
        k.eq(k.arr(t), Y if inplace else x, 'the input changes only in the in-place variant')
        if not train: k.eq(Y, x, 'identity in evaluation'); return
        used = {}
        for key, ent in U.items():
            ds = set()
            for e in ent: ds |= {z for z in k.deps(Y[e]) if z.startswith('unif')}
            ps = {}
            for e in ent: k.atoms(Y[e], ps)
            ps = {n: i for n, i in ps.items() if i[0] == 'pos'}
            if p == 1 and not ds: k.eq([Y[e] for e in ent], [0 * x[e] for e in ent], 'probability one drops everything'); continue
            if len(ds) != 1 or len(ps) != 1:
                k.c._fail('all entries of a unit share one draw', 'unit %s: draws %s' % (key, sorted(ds)), env=envof(k))
            u, (n, (f, args)) = next(iter(ds)), next(iter(ps.items()))
            if u in used: k.c._fail('distinct units have distinct draws', '%s and %s share %s' % (used[u], key, u), env=envof(k))
            used[u] = key
            # the unit is x times a function of the draw: the value on either side of the threshold
            a = args[0]; su = S.sym(u, 'real')
            co = (at(a, u, 1) - at(a, u, 0)).n(); b = at(a, u, 0).n()
            k.eq([a], [co * su + b], 'the decision compares the draw with a threshold')
            cv = co.value()
            if cv is None or cv == 0: raise Undecided('threshold form')
            thr = (b * -1 / lift(cv)).n()        # decision true iff u > thr (cv > 0) or u < thr (cv < 0)
            prob1 = 1 - thr if cv > 0 else thr
            v1 = [at(Y[e], n, 1) for e in ent]; v0 = [at(Y[e], n, 0) for e in ent]
            zero = all(not v.n().t for v in v0)
            kept, pr = (v1, prob1) if zero else (v0, 1 - prob1)
            k.eq(v0 if zero else v1, [0 * x[e] for e in ent], 'a dropped unit is zero')
            k.eq([pr], [1 - p], 'a unit is kept with probability 1 - p')
            if p < 1: k.eq(kept, [x[e] * (1 - p).inv() for e in ent], 'a kept unit is scaled by 1/(1-p)')
        k.holds(True, 'distinct units have distinct draws')

    def envof(k):
        import random as R
        r = R.Random(3); env = {n: round(r.choice((-1, 1)) * r.uniform(.5, 2), 3) for n, s in k.c.run.syms.items() if n.startswith('x_')}
        env.update(p=.5, pi=math.pi); return env

    def replay(k, m, p, x, U):
        T = 600 if train else 1
        keep = []
        if not train or (x != 0).all():
            for _ in range(T):
                t = torch.tensor(x, dtype=torch.float32)
                if prep: t = prep(t)
                y = m(GeometricTensor(t, ft)); Y = y.tensor.numpy().astype(float)
                k.holds(y.type == ft and Y.shape == x.shape, 'output type')
                k.eq(t.numpy(), Y if inplace else x, 'the input changes only in the in-place variant')
                if not train: k.eq(Y, x, 'identity in evaluation'); return
                row = []
                for key, ent in U.items():
                    v = np.array([Y[e] for e in ent]); w = np.array([x[e] for e in ent])
                    k.holds(bool((v == 0).all() or (p < 1 and np.allclose(v * (1 - p), w, rtol=1e-4, atol=1e-6))), 'all entries of a unit are dropped or scaled by 1/(1-p) together')
                    row.append(bool((v != 0).all()))
                keep.append(row)
            A = np.array(keep, float); q = 1 - p
            k.holds(bool((np.abs(A.mean(0) - q) <= 7 * math.sqrt(p * q / T) + 1e-3).all()), 'a unit is kept with probability 1 - p')
            if .05 < p < .95:
                e = p * p + q * q
                G = np.array([[(A[:, i] == A[:, j]).mean() for j in range(i)] for i in range(1, A.shape[1])], dtype=object)
                for row in G: k.holds(bool((np.abs(np.array(row, float) - e) <= 8 * math.sqrt(e * (1 - e) / T)).all()), 'distinct units are independent')
    return contract


def build_c16(ctx):
    from e2cnn import nn
    fns = [NN + 'modules.dropout']
    D4, S2, C3 = zoo.Space('FR', 4), zoo.Space('FR', -1, maxf=3), zoo.Space('R', 3)
    lay = [('O2:11,10,12', S2, irr(S2, (1, 1), (1, 0), (1, 2))), ('O2:11,12,10,00', S2, irr(S2, (1, 1), (1, 2), (1, 0), (0, 0))), ('D4:irr,reg,irr,triv,irr', D4, [D4.G.irrep(1, 1), D4.G.quotient_representation((None, 2)), D4.G.irrep(1, 1), D4.G.trivial_representation, D4.G.irrep(0, 0)]),
           ('C3:reg', C3, [C3.G.regular_representation] * 2), ('C3:triv,reg,triv', C3, [C3.G.trivial_representation, C3.G.regular_representation, C3.G.trivial_representation])]
    preps = [('', None), (',strided', lambda t: t.permute(2, 3, 0, 1).contiguous().permute(2, 3, 0, 1)), (',sliced', lambda t: torch.cat([t, t], 1)[:, :t.shape[1]])]
    for key, sp, rs in lay:
        for inplace in (False, True):
            for train in (True, False):
                for pn, prep in preps:
                    def reg(nm, cls, field):
                        @ctx.task('contract.%s[%s%s%s%s]' % (nm, key, ',inplace' if inplace else '', '' if train else ',eval', pn), kind='deductive')
                        def _(t, sp=sp, rs=rs, inplace=inplace, train=train, prep=prep): prove(t, nm + '.forward', fns, dropout_contract(lambda ft, p, i: cls(ft, p=p, inplace=i), sp, rs, field, inplace, train, prep=prep))
                    reg('FieldDropout', nn.FieldDropout, True)
                    if key.startswith('C3'): reg('PointwiseDropout', nn.PointwiseDropout, False)


# ================================================================= C17
def part_modules(k):
    """stand-ins for arbitrary parts: the caller is checked against what a part is known to do, here y = M x + v with arbitrary M, v per part"""
    from e2cnn import nn

    class Part(nn.EquivariantModule):
        def __init__(self, ins, out, tag):
            super().__init__()
            self.in_type, self.out_type = (tuple(ins) if len(ins) > 1 else ins[0]), out
            self.ins = ins
            self.M = [k.array('%s_M%d' % (tag, i), (out.size, f.size)) for i, f in enumerate(ins)]
            self.v = k.array(tag + '_v', (out.size,))

        def spec(self, *xs):
            y = sum(mix(k, M, x) for M, x in zip(self.M, xs))
            return y + self.v.reshape(1, -1, 1, 1)

        def forward(self, *xs):
            assert len(xs) == len(self.ins) and all(x.type == f for x, f in zip(xs, self.ins))
            return nn.GeometricTensor(k.tensor(self.spec(*[k.arr(x.tensor) for x in xs])), self.out_type)

        def evaluate_output_shape(self, *s): return (s[0][0], self.out_type.size) + tuple(s[0][2:])
    return Part


def pick(x, rs, idx):
    sl = field_slices(rs)
    return x[:, [c for i in idx for c in range(*sl[i])]]


def route_contract(sp, rs, labelings, reshuffle, prep=None):
    from e2cnn import nn
    from e2cnn.nn import GeometricTensor
    n = len(rs); ft = zoo.fieldtype(sp, rs)

    def contract(k):
        Part = part_modules(k)
        x = k.array('x', (1, ft.size, 1, 2))
        # three parts: to another type, two inputs, several fields
        cache = {}
        def part(ins, out, tag):
            key = (tag, tuple(tuple(r.name for r in f.representations) for f in ins))
            if key not in cache: cache[key] = Part(ins, out, '%s%d' % (tag, len(cache)))
            return cache[key]
        for labels in labelings:
            order = sorted(range(n), key=(lambda j: (labels[j], rs[j].size)[:reshuffle]) if reshuffle else (lambda j: ()))
            want = {l: [j for j in order if labels[j] == l] for l in labels}
            t = k.tensor(x)
            if prep: t = prep(t)
            B = nn.BranchingModule(ft, list(labels), reshuffle=reshuffle)
            with k.running(): y = B(GeometricTensor(t, ft))
            k.holds(set(y) == set(want), 'a branch per label')
            for l, idx in want.items():
                k.holds(y[l].type.representations == [rs[j] for j in idx] and y[l].type == B.out_type[l], 'type of a branch')
                k.eq(k.arr(y[l].tensor), pick(x, rs, idx), 'a branch carries the fields of its label in order')
            types = {l: zoo.fieldtype(sp, [rs[j] for j in idx]) for l, idx in want.items()}
            ls = sorted(want, key=lambda l: (len(want[l]), l), reverse=True)
            ms, exp = [], []
            if len(ls) > 1:
                p = part([types[ls[1]], types[ls[0]]], types[ls[0]], 'two'); ms.append((p, [ls[1], ls[0]]))
                exp.append(p.spec(pick(x, rs, want[ls[1]]), pick(x, rs, want[ls[0]])))
            for l in ls:
                p = part([types[l]], types[ls[-1]], 'one'); ms.append((p, l)); exp.append(p.spec(pick(x, rs, want[l])))
            # the same label again, with another part
            p = part([types[ls[-1]]], types[ls[-1]], 'again'); ms.append((p, ls[-1])); exp.append(p.spec(pick(x, rs, want[ls[-1]])))
            M = nn.MultipleModule(ft, list(labels), list(ms), reshuffle=reshuffle)
            ro = [r for m, _ in ms for r in m.out_type.representations]
            with k.running(): z = M(GeometricTensor(t, ft))
            k.holds(M.out_type.representations == ro and z.type == M.out_type, 'the output type lists the outputs of the parts in order')
            k.eq(outarr(k, z), np.concatenate(exp, 1), 'every label is processed by its part and lands at its declared position')
            k.eq(k.arr(t), x, 'the input is unchanged')
            G = nn.MergeModule(list(ms))
            with k.running(): z = G({l: GeometricTensor(k.tensor(pick(x, rs, idx)), types[l]) for l, idx in want.items()})
            k.eq(outarr(k, z), np.concatenate(exp, 1), 'merging the branches')
            k.holds(z.type.representations == ro, 'type of the merge')
    return contract


def build_c17(ctx):
    from e2cnn import nn
    from e2cnn.nn import GeometricTensor
    from e2cnn.group import disentangle
    from collections import OrderedDict
    fns = [NN + 'modules']
    D4, S2, C3, C4 = zoo.Space('FR', 4), zoo.Space('FR', -1, maxf=3), zoo.Space('R', 3), zoo.Space('R', 4)
    T = lambda s: s.G.trivial_representation
    lay = [('C3', C3, [C3.G.irrep(1), T(C3), C3.G.irrep(1), C3.G.regular_representation]), ('D4', D4, [T(D4), D4.G.irrep(1, 1), D4.G.irrep(1, 0), T(D4)]), ('C3one', C3, [T(C3)]), ('O2', S2, irr(S2, (1, 2), (0, 0), (1, 1)))]
    preps = [None, lambda t: t.permute(2, 3, 0, 1).contiguous().permute(2, 3, 0, 1)]
    for key, sp, rs in lay:
        labs = ['b', 'a', 'c10']
        # all labellings with at most three labels, up to nothing: every assignment
        al = [list(p) for p in itertools.product(labs, repeat=len(rs))]
        for rsh in (0, 1, 2):
            for q in range(0, len(al), 14):
                @ctx.task('contract.Branching+Merge+Multiple[%s,%d,%d]' % (key, rsh, q), kind='deductive')
                def _(t, sp=sp, rs=rs, rsh=rsh, q=q, al=al): prove(t, 'MultipleModule.forward', fns, route_contract(sp, rs, al[q:q + 14], rsh, preps[(q // 14) % 2]))

    # permutations: all of them
    for key, sp, rs in lay[:2]:
        @ctx.task('contract.ReshuffleModule[%s]' % key, kind='deductive')
        def _(t, sp=sp, rs=rs):
            ft = zoo.fieldtype(sp, rs)
            def contract(k):
                x = k.array('x', (1, ft.size, 1, 2))
                for perm in itertools.permutations(range(len(rs))):
                    m = nn.ReshuffleModule(ft, list(perm))
                    y = run(k, m, ft, x)
                    k.eq(outarr(k, y), pick(x, rs, perm), 'fields are moved as a whole to their new positions')
                    k.holds(m.out_type.representations == [rs[i] for i in perm] and y.type == m.out_type, 'type of the permuted fields')
            prove(t, 'ReshuffleModule.forward', fns, contract)
    # disentangling
    ind = lambda sp, sub, *i: sp.G.induced_representation(sub, sp.G.subgroup(sub)[0].irrep(*i))
    dl = [('C4', C4, [C4.G.regular_representation, T(C4), C4.G.quotient_representation(2), C4.G.regular_representation]), ('D4', D4, [D4.G.quotient_representation((None, 2)), D4.G.irrep(1, 1), D4.G.quotient_representation((None, 2)), ind(D4, (0, 2), 1, 1)]),
          ('C4b', C4, [T(C4), C4.G.irrep(2), T(C4)]), ('C4c', C4, [C4.G.quotient_representation(2), T(C4), C4.G.quotient_representation(2), C4.G.irrep(2), C4.G.irrep(2)])]
    for key, sp, rs in dl:
        @ctx.task('contract.DisentangleModule[%s]' % key, kind='deductive')
        def _(t, sp=sp, rs=rs):
            ft = zoo.fieldtype(sp, rs)
            def contract(k):
                m = nn.DisentangleModule(ft)
                x = k.array('x', (1, ft.size, 1, 2))
                y = run(k, m, ft, x); Y = outarr(k, y)
                ro = m.out_type.representations
                k.holds(y.type == m.out_type and sum(r.size for r in ro) == ft.size, 'output type')
                p = 0
                for r, (a, b) in zip(rs, field_slices(rs)):
                    D, parts = disentangle(r)
                    D = np.asarray(D, float)
                    k.holds([u.name for u in ro[p:p + len(parts)]] == [u.name for u in parts], 'blocks of the field'); p += len(parts)
                    k.eq(Y[:, a:b], mix(k, D if k.num else np.vectorize(lambda v: lift(float(v)), otypes=[object])(D), x[:, a:b]), 'the disentangling change of basis is applied field by field')
                for e in sp.elements():
                    big = zoo.rho(rs, e); small = zoo.rho(ro, e)
                    L = (lambda M: M) if k.num else (lambda M: np.vectorize(lambda v: lift(float(v)), otypes=[object])(np.asarray(M)))
                    k.eq(outarr(k, run(k, m, ft, mix(k, L(big), x))), mix(k, L(small), Y), 'commutes with the group in the declared output type')
            prove(t, 'DisentangleModule.forward', fns, contract)
    # identity, restriction
    for key, sp, rs, ids in [('D4', D4, lay[1][2], [(None, 4), (0, 2), (1, 1), (0, 1)]), ('O2', S2, irr(S2, (1, 2), (0, 0), (1, 1)), [(None, -1), (0., 2), (0., 1), (None, 3)]), ('C4', C4, dl[0][2], [2, 1])]:
        @ctx.task('contract.IdentityModule+RestrictionModule[%s]' % key, kind='deductive')
        def _(t, sp=sp, rs=rs, ids=ids):
            ft = zoo.fieldtype(sp, rs)
            def contract(k):
                x = k.array('x', (1, ft.size, 1, 2))
                y = run(k, nn.IdentityModule(ft), ft, x)
                k.eq(outarr(k, y), x, 'identity'); k.holds(y.type == ft, 'type of the identity')
                for id in ids:
                    m = nn.RestrictionModule(ft, id)
                    y = run(k, m, ft, x)
                    k.eq(outarr(k, y), x, 'restriction keeps the data')
                    sub, par, ch = sp.gs.restrict(id)
                    k.holds(y.type == m.out_type and m.out_type.gspace == sub and len(m.out_type.representations) == len(rs), 'type of the restriction')
                    H = list(sub.fibergroup.elements or [])[:16] if sub.fibergroup.order() > 0 else sub.fibergroup.testing_elements()
                    for h in H:
                        k.holds(np.allclose(zoo.rho(m.out_type.representations, h), zoo.rho(rs, par(h)), atol=1e-6), 'the restricted fields transform like the original ones under the subgroup')
            prove(t, 'RestrictionModule.forward', fns, contract)
    # sequences of arbitrary parts, built in the three ways
    for key, sp, rs in lay[:2]:
        @ctx.task('contract.SequentialModule[%s]' % key, kind='deductive')
        def _(t, sp=sp, rs=rs):
            fts = [zoo.fieldtype(sp, rs[i:i + 2]) for i in range(3)]
            def contract(k):
                Part = part_modules(k)
                for n in (1, 2, 3):
                    ps = [Part([fts[i % 3]], fts[(i + 1) % 3], 'p%d_%d' % (n, i)) for i in range(n)]
                    s3 = nn.SequentialModule()
                    for i, p in enumerate(ps): s3.add_module('z%d' % (9 - i), p)
                    x = k.array('x%d' % n, (1, fts[0].size, 1, 1))
                    want = x
                    for p in ps: want = p.spec(want)
                    for s in (nn.SequentialModule(*ps), nn.SequentialModule(OrderedDict(('m%d' % (9 - i), p) for i, p in enumerate(ps))), s3, nn.SequentialModule(nn.SequentialModule(*ps[:1]), *ps[1:]), nn.SequentialModule(*ps[:-1], nn.SequentialModule(ps[-1]))):
                        y = run(k, s, fts[0], x)
                        k.eq(outarr(k, y), want, 'a sequence is the composition of its parts in order')
                        k.holds(s.in_type == fts[0] and s.out_type == ps[-1].out_type and y.type == s.out_type, 'types of the sequence')
            prove(t, 'SequentialModule.forward', fns, contract)

    @ctx.task('contract.check_consecutive_numbers', kind='deductive')
    def _(t):
        from e2cnn.nn.modules.utils import check_consecutive_numbers as f
        def contract(k):
            for n in range(1, 7):
                l = [k.int('l%d_%d' % (n, i), 0, None) for i in range(n)]
                for a, b in zip(l, l[1:]): k.assume(b - a - 1)
                if k.num and not all(a < b for a, b in zip(l, l[1:])): continue
                got = bool(f(list(l)))
                k.holds(got == bool(l[-1] - l[0] == n - 1), 'an increasing list is reported consecutive exactly if it is')
        prove(t, 'check_consecutive_numbers', [NN + 'modules.utils.check_consecutive_numbers'], contract)


# ================================================================= C18
def build_c18(ctx):
    from e2cnn import nn
    from e2cnn.nn import GeometricTensor, FieldType, tensor_directsum
    fns = [NN + 'geometric_tensor.GeometricTensor']
    C3, D4, S2 = zoo.Space('R', 3), zoo.Space('FR', 4), zoo.Space('FR', -1, maxf=3)
    T = lambda s: s.G.trivial_representation
    lay = [('C3:2,1,3,2', C3, [C3.G.irrep(1), T(C3), C3.G.regular_representation, C3.G.irrep(1)]), ('D4:1,1,2', D4, [T(D4), D4.G.irrep(1, 0), D4.G.irrep(1, 1)]), ('O2:2', S2, irr(S2, (1, 1))), ('O2:1,2', S2, irr(S2, (0, 0), (1, 2)))]
    preps = {'': lambda t: t, ',strided': lambda t: t.transpose(0, 2).contiguous().transpose(0, 2), ',sliced': lambda t: torch.cat([t, t], 1)[:, t.shape[1]:]}

    def same(k, g, rs, want, what):
        k.holds(g.type.representations == list(rs) and g.type.size == sum(r.size for r in rs) == g.tensor.shape[1], what + ': the type describes the channels')
        k.eq(k.arr(g.tensor), want, what + ': the data')
        k.holds(tuple(g.shape) == tuple(want.shape) == tuple(g.size()), what + ': shape')

    for key, sp, rs in lay:
        for pn, prep in preps.items():
            @ctx.task('contract.arithmetic[%s%s]' % (key, pn), kind='deductive')
            def _(t, sp=sp, rs=rs, prep=prep):
                ft = zoo.fieldtype(sp, rs)
                def contract(k):
                    a, b = k.array('a', (2, ft.size, 2, 1)), k.array('b', (2, ft.size, 2, 1))
                    c = k.real('c')
                    raw = {}
                    def new(n, v):
                        raw[n] = prep(k.tensor(v)); return GeometricTensor(raw[n], zoo.fieldtype(sp, rs))
                    def unchanged(what):
                        k.eq(k.arr(raw['a']), a, what + ': operands unchanged'); k.eq(k.arr(raw['b']), b, what + ': operands unchanged')
                    with k.running():
                        A, B = new('a', a), new('b', b)
                        sc = k.tensor(np.array([c], object if not k.num else float))
                        same(k, A + B, rs, a + b, 'sum'); unchanged('sum')
                        same(k, A - B, rs, a - b, 'difference'); unchanged('difference')
                        same(k, A * sc, rs, a * c, 'scaling'); same(k, sc.reshape(()) * A if k.num else A * sc.reshape(()), rs, a * c, 'scaling by a scalar tensor'); unchanged('scaling')
                        for f in (2.5, -1., 0.): same(k, A * f, rs, a * k.const(f), 'scaling by a number'); same(k, f * A, rs, a * k.const(f), 'scaling by a number')
                        unchanged('scaling by a number')
                        for nm, op, want in (('+=', lambda g: g.__iadd__(B), a + b), ('-=', lambda g: g.__isub__(B), a - b), ('*=', lambda g: g.__imul__(sc), a * c), ('*= number', lambda g: g.__imul__(1.5), a * k.const(1.5))):
                            g = new('i', a); r = op(g)
                            k.holds(r is g, nm + ' returns its operand'); same(k, g, rs, want, nm); k.eq(k.arr(raw['i']), want, nm + ': in place')
                            unchanged(nm)
                        same(k, A.to(torch.float64), rs, a, 'to'); same(k, A.to('cpu'), rs, a, 'to')
                        same(k, tensor_directsum([A, B, A]), rs * 3, np.concatenate([a, b, a], 1), 'direct sum'); same(k, tensor_directsum([B]), rs, b, 'direct sum of one'); unchanged('direct sum')
                        oth = zoo.fieldtype(sp, rs[::-1] + rs[:1])
                        o = k.array('o', (2, oth.size, 2, 1)); O = GeometricTensor(prep(k.tensor(o)), oth)
                        same(k, tensor_directsum([O, A]), oth.representations + rs, np.concatenate([o, a], 1), 'direct sum of two types')
                        for bad in (lambda: A + O, lambda: A - O, lambda: A.__iadd__(O), lambda: A.__isub__(O)): k.holds(raises(bad), 'operands of different types are rejected')
                        if len(rs) > 1 and rs != rs[::-1]:
                            R = GeometricTensor(raw['a'], zoo.fieldtype(sp, rs[::-1]))
                            for bad in (lambda: A + R, lambda: A - R, lambda: A.__iadd__(R), lambda: A.__isub__(R)): k.holds(raises(bad), 'operands whose fields are in another order are rejected')
                        for d in (-1, 1):
                            if ft.size + d > 0: k.holds(raises(lambda: GeometricTensor(k.tensor(k.array('w%d' % (d + 1), (1, ft.size + d, 1, 1))), ft)), 'channels must match the type')
                        unchanged('rejected operations')
                prove(t, 'GeometricTensor arithmetic', fns, contract)

            @ctx.task('contract.split[%s%s]' % (key, pn), kind='deductive')
            def _(t, sp=sp, rs=rs, prep=prep):
                ft = zoo.fieldtype(sp, rs); n = len(rs)
                def contract(k):
                    a = k.array('a', (2, ft.size, 2))
                    with k.running():
                        tt = prep(k.tensor(a)); A = GeometricTensor(tt, ft)
                        for q in range(n):
                            for br in itertools.combinations(range(1, n), q):
                                arg = list(br); ps = A.split(arg)
                                k.holds(arg == list(br), 'the argument is unchanged')
                                ends = list(br) + [n]; st = 0
                                k.holds(len(ps) == len(ends), 'number of parts')
                                for p, e in zip(ps, ends): same(k, p, rs[st:e], pick(a, rs, range(st, e)), 'part'); st = e
                                same(k, tensor_directsum(ps), rs, a, 'joining the parts')
                        ps = A.split(None)
                        k.holds(len(ps) == n, 'number of fields')
                        for i, p in enumerate(ps): same(k, p, rs[i:i + 1], pick(a, rs, [i]), 'single field')
                        k.eq(k.arr(tt), a, 'the tensor is unchanged')
                prove(t, 'GeometricTensor.split', fns, contract)

            @ctx.task('contract.slicing[%s%s]' % (key, pn), kind='deductive')
            def _(t, sp=sp, rs=rs, prep=prep):
                ft = zoo.fieldtype(sp, rs); n = len(rs)
                rng = [None] + list(range(-n - 1, n + 2))
                def contract(k):
                    a = k.array('a', (2, ft.size, 3))
                    with k.running():
                        tt = prep(k.tensor(a)); A = GeometricTensor(tt, ft)
                        for u, v, w in itertools.product(rng, rng, (None, 1, 2, 3, -1, -2)):
                            sl = slice(u, v, w); idx = list(range(n))[sl]
                            if not idx: k.holds(raises(lambda: A[:, sl]), 'an empty selection of fields is rejected'); continue
                            same(k, A[:, sl], [rs[i] for i in idx], pick(a, rs, idx), 'slice of the fields')
                        for i in range(-n, n): same(k, A[:, i], [rs[i]], pick(a, rs, [i % n]), 'one field')
                        for i in (-n - 1, n, n + 3): k.holds(raises(lambda: A[:, i]), 'a field that does not exist is rejected')
                        ax = [slice(None), 0, -1, slice(1, None), slice(None, None, 2), slice(-1, None), slice(0, 1)]
                        for x, y, z in itertools.product(ax, [slice(None), 0, -1, slice(None, 1), slice(None, None, 2)], ax):
                            idx = [range(n)[y]] if isinstance(y, int) else list(range(n))[y]
                            want = pick(a, rs, idx)[[range(2)[x]] if isinstance(x, int) else x][:, :, [range(3)[z]] if isinstance(z, int) else z]
                            same(k, A[x, y, z], [rs[i] for i in idx], want, 'slices of all axes')
                        for z in ax:
                            c = [range(3)[z]] if isinstance(z, int) else z
                            same(k, A[..., z], rs, a[:, :, c], 'ellipsis')
                            b = [range(2)[z]] if isinstance(z, int) and z > -3 else z
                            same(k, A[z, ...], rs, a[b], 'ellipsis'); same(k, A[z], rs, a[b], 'batch index')
                            same(k, A[z, ..., z], rs, a[b][:, :, c], 'ellipsis in the middle')
                        k.eq(k.arr(tt), a, 'the tensor is unchanged')
                prove(t, 'GeometricTensor.__getitem__', fns, contract)

            @ctx.task('contract.transform[%s%s]' % (key, pn), kind='deductive')
            def _(t, sp=sp, rs=rs, prep=prep):
                ft = zoo.fieldtype(sp, rs)
                E = list(sp.elements()) if hasattr(sp, 'elements') else list(sp.G.testing_elements())
                def contract(k):
                    a = k.array('a', (2, ft.size, 2, 1))
                    b = k.array('b', (2, ft.size, 2, 1))
                    with k.running():
                        tt = prep(k.tensor(a)); A = GeometricTensor(tt, ft)
                        for e in E[:12]:
                            M = block([r(e) for r in rs])
                            want = np.empty(a.shape, object if not k.num else float)
                            for i, o, x, y in np.ndindex(*a.shape): want[i, o, x, y] = sum((k.const(float(np.float32(M[o, j]))) * a[i, j, x, y] for j in range(ft.size) if abs(M[o, j]) > 0), k.const(0.))
                            B = A.transform_fibers(e)
                            k.holds(B.type == ft and B.type.representations == list(rs), 'transform_fibers: type'); k.eq(k.arr(B.tensor), want, 'transform_fibers: the fibres are multiplied by the matrix of the element')
                            seen = []
                            class FT(FieldType):
                                """transform by its contract (proved for FieldType): an opaque tensor"""
                                def transform(self, input, element): seen.append((input, element)); return k.tensor(b)
                            f2 = FT(ft.gspace, list(rs))
                            B = GeometricTensor(tt, f2).transform(e)
                            k.holds(len(seen) == 1 and seen[0][1] == e and B.type is f2 or B.type == f2, 'transform: by the type and the element'); k.eq(k.arr(B.tensor), b, 'transform: the transformed tensor'); k.eq(k.arr(seen[0][0]), a, 'transform: of this tensor')
                        k.eq(k.arr(tt), a, 'operand unchanged')
                prove(t, 'GeometricTensor.transform', fns, contract)

            @ctx.task('contract.restrict[%s%s]' % (key, pn), kind='deductive')
            def _(t, sp=sp, rs=rs, prep=prep, key=key):
                ft = zoo.fieldtype(sp, rs)
                ids = {'C3': [1, 3], 'D4': [(None, 2), (0, 1), (1, 2), (None, 1)], 'O2': [(None, 4), (0., 3), (None, -1), (.5, 1)]}[key[:2]]
                def contract(k):
                    a = k.array('a', (1, ft.size, 2, 1))
                    with k.running():
                        tt = prep(k.tensor(a)); A = GeometricTensor(tt, ft)
                        for i in ids:
                            B = A.restrict(i)
                            k.holds(B.type == ft.restrict(i) and len(B.type) == len(ft) and [r.size for r in B.type] == [r.size for r in ft], 'restrict: type'); k.eq(k.arr(B.tensor), a, 'restrict: the data is unchanged')
                            k.holds(A.type == ft, 'restrict: operand unchanged')
                prove(t, 'GeometricTensor.restrict', fns, contract)

    @ctx.task('contract.FieldType offsets', kind='deductive')
    def _(t):
        import e2cnn.nn.field_type as m
        from e2cnn.group import directsum as group_directsum
        class Rep:
            """a representation known only by its group, name and (arbitrary) size"""
            def __init__(self, G, size, i): self.group, self.size, self.name, self.irreps = G, size, 'r%d' % i, [i]
        def contract(k):
            for n in range(1, 6):
                sizes = [k.int('s%d_%d' % (n, i), 1) for i in range(n)]
                if k.num: sizes = [max(1, int(s)) for s in sizes]
                reps = [Rep(C3.G, s, i) if not k.num else group_directsum([T(C3)] * min(s, 9), name='triv%d' % min(s, 9)) for i, s in enumerate(sizes)]
                if k.num: sizes = [r.size for r in reps]
                with (sym.shims([m]) if not k.num else torch.no_grad()):
                    ft = FieldType(C3.gs, list(reps))
                    st, en = list(ft.fields_start), list(ft.fields_end)
                    k.holds(len(st) == len(en) == n, 'one offset per field')
                    p = 0
                    for i in range(n):
                        k.eq([st[i]], [p], 'a field starts where the previous ones end'); p = p + sizes[i]
                        k.eq([en[i]], [p], 'a field ends after its size')
                    k.eq([ft.size], [p], 'the size is the sum of the sizes')
                    k.holds(ft.representations == reps and ft.irreps == [i for r in reps for i in r.irreps] and len(ft) == n and list(ft) == reps, 'the fields in order')
                    for perm in itertools.permutations(range(n)) if n < 5 else [(4, 0, 3, 1, 2)]:
                        f2 = ft.index_select(list(perm))
                        k.holds(f2.representations == [reps[i] for i in perm], 'index_select'); p = 0
                        for i, q in enumerate(perm): k.eq([list(f2.fields_start)[i]], [p], 'offsets of the selected fields'); p = p + sizes[q]
                    for lab in itertools.product('ab', repeat=n):
                        g = ft.group_by_labels(list(lab))
                        k.holds(set(g) == set(lab) and all(g[l].representations == [r for r, x in zip(reps, lab) if x == l] for l in g), 'group_by_labels')
                    k.holds((ft + ft).representations == reps + reps and ft.representations == reps, 'sum of types')
        prove(t, 'FieldType', [NN + 'field_type.FieldType'], contract, maxpaths=50)


def block(ms):
    import scipy.linalg
    return scipy.linalg.block_diag(*ms)


def raises(f):
    try: f()
    except (AssertionError, ValueError, IndexError, TypeError, RuntimeError): return True
    return False
