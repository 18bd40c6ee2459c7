"""Contracts on the convolution layers, the basis expansion and the initialisations (C09, C10, C20, C21), executed with symbolic weights, biases, filters and inputs (vk.tsym)."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
import torch
from . import zoo, mods, sym, layers
from .core import Undecided, Fail
from .sym import lift, S
from .tsym import K, prove, get, mk, ssum, cst, tiny, splitting
from .ded_torch import NN, irr, run, outarr, field_slices

RC = NN + 'modules.r2_conv.'


# ---------------------------------------------------------------- linear forms
def forms(k, a, names=None):
    """an array of linear forms of the symbols as the array of its coefficient arrays (constant first); concrete replay: one concrete array"""
    if k.num: return np.asarray(a, float)[None]
    a = np.asarray(a, object)
    col = {n: i + 1 for i, n in enumerate(names)} if names is not None else {}
    rows, fl = [], list(a.flat)
    for p, v in enumerate(fl):
        for (e, m), (re, im) in lift(v).n().t.items():
            if e is not None or im or len(m) > 1 or (m and m[0][1] != 1): raise Undecided('an entry is not a linear form of the parameters: %s' % lift(v).show()[:150])
            n = m[0][0] if m else None
            if n is not None and n not in col:
                if names is not None: raise Undecided('an entry depends on %s' % n)
                col[n] = len(col) + 1
            rows.append((0 if n is None else col[n], p, float(re)))
    out = np.zeros((len(col) + 1, len(fl)))
    for c, p, v in rows: out[c, p] = v
    k.last = {i: n for n, i in col.items()}
    return out.reshape((len(col) + 1,) + a.shape)


def same(k, A, B, name, tol=1e-5):
    """equality of arrays of linear forms (for all values of the symbols)"""
    if k.num: return k.eq(A, B, name, tol=20 * tol)
    d = np.abs(A - B)
    bad = d > tol
    if not bad.any():
        x = k.c.ledger.d.setdefault((name, 'nf'), [0, 0.]); x[0] += int(np.prod(A.shape[1:], dtype=int)); return
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    rs = np.random.RandomState(3)
    env = {n: float(np.round(rs.randn(), 3)) for n, s in k.c.run.syms.items() if n != 'pi' and not isinstance(s.info, tuple)}
    if i[0] in k.last: env[k.last[i[0]]] = 3.
    env['pi'] = math.pi
    k.c._fail(name, 'entry %s: coefficient of %s is %.6g, not %.6g' % (i[1:], k.last.get(i[0], '1'), A[i], B[i]), env=env)


# ---------------------------------------------------------------- C09: the layer is a plain convolution with its expanded filter
def pads(p): return p if isinstance(p, tuple) else (p, p)


def source(i, n, mode):
    """index read by padding at position i of an axis of n pixels"""
    if 0 <= i < n: return i
    if mode == 'zeros': return None
    if mode == 'replicate': return min(max(i, 0), n - 1)
    if mode == 'circular': return i % n
    return -i if i < 0 else 2 * (n - 1) - i        # reflect


def spec_conv(k, x, w, b, stride, padding, dilation, groups, mode):
    B, C, H, W = x.shape
    O, I, n, _ = w.shape
    ph, pw = pads(padding)
    ho, wo = (H + 2 * ph - dilation * (n - 1) - 1) // stride + 1, (W + 2 * pw - dilation * (n - 1) - 1) // stride + 1
    y = np.empty((B, O, ho, wo), object)
    for q, o, r, c in np.ndindex(*y.shape):
        g = o // (O // groups); tot = [] if b is None else [b[o]]
        for i in range(I):
            for u in range(n):
                for v in range(n):
                    rr, cc = source(r * stride + u * dilation - ph, H, mode), source(c * stride + v * dilation - pw, W, mode)
                    if rr is not None and cc is not None: tot.append(w[o, i, u, v] * x[q, g * I + i, rr, cc])
        y[q, o, r, c] = (sum(tot) if k.num else ssum([lift(t) for t in tot])) if tot else 0
    return y.astype(float) if k.num else y


def spec_convt(k, x, w, b, stride, padding, dilation, groups, out_pad):
    B, C, H, W = x.shape
    I, Og, n, _ = w.shape
    size = lambda h: (h - 1) * stride - 2 * padding + dilation * (n - 1) + out_pad + 1
    y = np.empty((B, Og * groups, size(H), size(W)), object)
    for q, o, r, c in np.ndindex(*y.shape):
        g, oo = divmod(o, Og); tot = [] if b is None else [b[o]]
        for i in range(g * (I // groups), (g + 1) * (I // groups)):
            for u in range(n):
                for v in range(n):
                    # pixel p of the input is spread to p*stride + tap*dilation - padding
                    a, d = r + padding - u * dilation, c + padding - v * dilation
                    if a % stride == 0 and d % stride == 0 and 0 <= a // stride < H and 0 <= d // stride < W: tot.append(w[i, oo, u, v] * x[q, i, a // stride, d // stride])
        y[q, o, r, c] = (sum(tot) if k.num else ssum([lift(t) for t in tot])) if tot else 0
    return y.astype(float) if k.num else y


def setup(k, m):
    """arbitrary weights and biases"""
    return k.params(m, names=('weights', 'bias'))


def plain_contract(make, fi, size, spec):
    def contract(k):
        m = make(); setup(k, m)
        x = k.array('x', (1, fi.size) + size)
        with k.running(): F, b = m.expand_parameters()
        F, b = k.arr(F), None if b is None else k.arr(b)
        want = spec(k, x, F, b)
        for mode in (True, False):
            with k.running(): m.train(mode)
            y = run(k, m, fi, x)
            k.holds(y.type == m.out_type, 'the output has the declared type')
            k.eq(outarr(k, y), want, 'forward is the plain convolution with the expanded filter and bias')
    return contract


# ---------------------------------------------------------------- C09: the expanded filter and bias
def filter_contract(make, sp, ri, ro, n, transposed=False, groups=1, tol=1e-5, elements=None):
    gi, go = (ri[:len(ri) // groups], ro) if not transposed else (ri, ro[:len(ro) // groups])
    E = elements if elements is not None else sp.grid_elements()

    def contract(k):
        m = make(); P = setup(k, m)
        with k.running(): F, b = m.expand_parameters()
        F = k.arr(F)
        if transposed: F = np.swapaxes(F, 0, 1)
        k.holds(F.shape == (sum(r.size for r in go), sum(r.size for r in gi), n, n), 'the filter has a tap per pixel of the kernel and a channel per field component')
        V = forms(k, F)
        for e in E:
            A, B = zoo.rho(go, e), np.linalg.inv(zoo.rho(gi, e))
            same(k, V, np.einsum('ab,nbcxy,cd->nadxy', A, zoo.move(V, sp.M(e)), B), 'the filter is steerable at every tap, for all weights', tol)
        has = m.bias is not None
        triv = sum(1 for r in ro for i in r.irreps if sp.G.irreps[i].is_trivial())
        if not has:
            k.holds(b is None, 'a layer without bias parameters adds nothing'); return
        with k.running():
            b = k.arr(b)
        k.holds(b.shape == (sum(r.size for r in ro),), 'the bias has an entry per output channel')
        k.holds(m.bias.numel() == triv, 'a bias parameter per invariant component')
        W = forms(k, b, None if k.num else ['bias_%d' % i for i in range(triv)])
        for e in sp.elements(np.random.RandomState(1), 4):
            same(k, W, np.einsum('ab,nb->na', zoo.rho(ro, e), W), 'the bias is invariant, for all parameters and group elements', tol)
        if not k.num:
            # in the irrep basis only the invariant components are shifted, one parameter each
            p, c = 0, 0
            for r in ro:
                Q = np.asarray(r.change_of_basis_inv)
                Z = np.einsum('ab,nb->na', Q, W[:, p:p + r.size]); q = 0
                want = np.zeros_like(Z)
                for i in r.irreps:
                    if sp.G.irreps[i].is_trivial(): want[c + 1, q] = 1.; c += 1
                    q += sp.G.irreps[i].size
                same(k, Z, want, 'every invariant component is shifted by its own parameter and nothing else is', tol)
                p += r.size
    return contract


def equi_contract(make, sp, ri, ro, n, fi, tol=2e-5, elements=None, circular=False):
    """the layer commutes with the group elements that preserve the pixel grid (and with translations under circular padding)"""
    E = elements if elements is not None else sp.grid_elements()

    def contract(k):
        m = make(); setup(k, m)
        x = k.array('x', (1, fi.size, n, n))
        act = lambda a, rs, e: zoo.move(chan(k, zoo.rho(rs, e), a), sp.M(e))
        y = outarr(k, run(k, m, fi, x))
        for e in E: k.eq(outarr(k, run(k, m, fi, act(x, ri, e))), act(y, ro, e), 'layer(g x) = g layer(x) for all inputs, weights and biases', stol=tol)
        if circular:
            for s in ((1, 0), (0, 1), (2, 3)): k.eq(outarr(k, run(k, m, fi, np.roll(x, s, (2, 3)))), np.roll(y, s, (2, 3)), 'the layer commutes with translations of the torus')
    return contract


def chan(k, M, x):
    if k.num: return np.einsum('oi,bixy->boxy', M, x)
    out = np.empty((x.shape[0], M.shape[0]) + x.shape[2:], object)
    for b, o, r, c in np.ndindex(*out.shape): out[b, o, r, c] = ssum([lift(float(M[o, i])) * x[b, i, r, c] for i in range(M.shape[1]) if abs(M[o, i]) > 1e-12])
    return out


def grid_contract(fn_, ks):
    """the sampling points of a kernel: tap (row, column) lies at dilation * (column - centre, centre - row)"""
    def contract(k):
        d = k.real('dilation')
        for n in ks:
            with sym.shims([__import__('sys').modules[fn_.__module__]]) if not k.num else __import__('contextlib').nullcontext(): g = fn_(n, d)
            g = np.asarray(g, float if k.num else object)
            k.holds(g.shape == (2, n * n), 'one point per tap')
            half = Fr(n - 1, 2) if not k.num else (n - 1) / 2
            want = np.empty((2, n * n), float if k.num else object)
            for r in range(n):
                for c in range(n): want[0, r * n + c], want[1, r * n + c] = d * (c - half), d * (half - r)
            k.eq(g, want, 'tap positions, for all dilations')
    return contract


def norm_contract(shape):
    """normalize_basis scales every filter as a whole: by one over the root of its mean squared norm per output channel when that is not negligible"""
    from e2cnn.nn.modules.r2_conv.basisexpansion_singleblock import normalize_basis

    def contract(k):
        B = k.array('b', shape); sz = k.array('s', (shape[0],), pos=True)
        with k.running(): R = k.arr(normalize_basis(k.tensor(B), k.tensor(sz)))
        k.holds(R.shape == shape, 'shape')
        for q in range(shape[0]):
            other = lambda z: z.startswith('b_%d_' % q) or z == 's_%d' % q
            k.indep(R[q].ravel(), other, 'the scale of a filter depends only on that filter')
            f = R[q].ravel(); g = B[q].ravel()
            for i in range(1, len(f)): k.eq([f[i] * g[0]], [f[0] * g[i]], 'a filter is scaled as a whole')
    return contract


OPTS = [dict(), dict(frequencies_cutoff=-2.), dict(frequencies_cutoff=-3.), dict(frequencies_cutoff=3.), dict(maximum_offset=1), dict(sigma=.7), dict(recompute=True), dict(basis_filter=lambda d: d['frequency'] != 1),
        dict(frequencies_cutoff=lambda r: 2 if r > .5 else 0), dict(rings=[0., .8], sigma=[.3, .8]), dict(bias=False)]


def chunks(rs, limit):
    out, cur = [], []
    for r in rs:
        if cur and sum(q.size for q in cur) + r.size > limit: out.append(cur); cur = []
        cur.append(r)
    return out + [cur]


def build_c09(ctx):
    from e2cnn import nn
    import sys
    ft = zoo.fieldtype
    C2, C3, C4, D2, D4 = zoo.Space('R', 2), zoo.Space('R', 3), zoo.Space('R', 4), zoo.Space('FR', 2), zoo.Space('FR', 4)
    T = lambda s: s.G.trivial_representation
    fconv, ftr = [RC + 'r2convolution.R2Conv'], [RC + 'r2_transposed_convolution.R2ConvTransposed']
    lay = [('C2', C2, [T(C2), irr(C2, 1)[0]], [irr(C2, 1)[0], T(C2)]), ('C4', C4, irr(C4, 1), irr(C4, 0, 2)), ('D2', D2, [D2.G.quotient_representation((None, 2))], [D2.G.irrep(1, 1), T(D2)])]
    # --- plain convolution
    P = []
    for q, (key, sp, i, o) in enumerate(lay):
        for md, pd, st, dl, g, n in itertools.product(('zeros', 'reflect', 'replicate', 'circular'), (0, 1, (1, 2), (2, 0), (0, 1)), (1, 2, 3), (1, 2), (1, 2), (1, 3)):
            if q and (g == 2 or st == 3 or dl == 2): continue
            if n == 1 and (dl == 2 or q == 1): continue
            if md != 'zeros' and pd == 0: continue
            if g == 2 and (st == 3 or dl == 2): continue
            fi, fo = ft(sp, i * g), ft(sp, o * g)
            kw = dict(kernel_size=n, stride=st, padding=pd, dilation=dl, padding_mode=md, groups=g, bias=not (st == 2 and pd == 0))
            P.append(('R2Conv[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2Conv(fi, fo, **kw), fi, (5, 6) if dl == 2 else (3, 4), lambda k, x, F, b, kw=kw: spec_conv(k, x, F, b, kw['stride'], kw['padding'], kw['dilation'], kw['groups'], kw['padding_mode']), fconv))
        for pd, st, dl, op, g, n in itertools.product((0, 1, 2), (1, 2, 3), (1, 2), (0, 1), (1, 2), (1, 3)):
            if op >= max(st, dl) or (n == 1 and dl == 2) or (q and (g == 2 or dl == 2)): continue
            fi, fo = ft(sp, i * g), ft(sp, o * g)
            if 1 * st - 2 * pd + dl * (n - 1) + op + 1 < 1: continue
            kw = dict(kernel_size=n, stride=st, padding=pd, dilation=dl, output_padding=op, groups=g)
            P.append(('R2ConvTransposed[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2ConvTransposed(fi, fo, **kw), fi, (2, 3), lambda k, x, F, b, kw=kw: spec_convt(k, x, F, b, kw['stride'], kw['padding'], kw['dilation'], kw['groups'], kw['output_padding']), ftr))
    for c in range(0, len(P), 24):
        @ctx.task('contract.plain convolution[%d]' % (c // 24), kind='deductive')
        def _(t, part=P[c:c + 24]):
            for nm, make, fi, size, spec, fns in part: prove(t, nm + '.forward', [fns[0] + '.forward', fns[0] + '.expand_parameters'], plain_contract(make, fi, size, spec))
    # --- steerable filters and invariant biases
    Sp = zoo.spaces(2)
    for i, sp in enumerate(Sp):
        for tr in (False, True):
            @ctx.task('contract.filter %s%d:%s' % ('transposed ' if tr else '', i, sp.key), kind='deductive')
            def _(t, i=i, tr=tr):
                sp = zoo.spaces(2)[i]
                rs = zoo.reps(sp.G, sp.spec, np.random.RandomState(17 + i), 1, 8, orthogonal=False)
                ch = chunks(rs, 9)
                cls = nn.R2ConvTransposed if tr else nn.R2Conv
                q = i
                for a, b in itertools.product(ch, ch):
                    q += 1
                    if tr and q % 2: continue
                    n = (3, 5, 3, 4, 1, 3, 2)[q % 7]; kw = dict(OPTS[(q // 2) % len(OPTS)])
                    if 'rings' in kw and n < 3: kw = {}
                    g = 2 if q % 5 == 0 and sum(r.size for r in a) < 6 else 1
                    kw['groups'] = g
                    if not tr and q % 6 == 0: kw['dilation'] = 2
                    cond = max([np.linalg.cond(np.asarray(r.change_of_basis)) for r in a + b] + [1.])
                    fi, fo = ft(sp, a * g), ft(sp, b * g)
                    try:
                        if cls(fi, fo, n, **kw).basisexpansion.dimension() == 0: continue
                    except ValueError as e:
                        if 'empty' in str(e): continue
                        raise
                    prove(t, '%s[%s: %s -> %s, kernel %d, %s].expand_parameters' % (cls.__name__, sp.key, [r.name for r in a], [r.name for r in b], n, layers.describe(kw)), [(ftr if tr else fconv)[0] + '.expand_parameters'],
                          filter_contract(lambda: cls(fi, fo, n, **kw), sp, a * g, b * g, n, tr, g, 1e-5 * cond ** 2))
    # --- whole layers
    S1, S2, D4a, F4 = zoo.Space('R', -1, maxf=2), zoo.Space('FR', -1, maxf=2), zoo.Space('FR', 4, axis=0.), zoo.Space('F', axis=math.pi / 4)
    L = []
    for key, sp, a, b in [('C4', C4, irr(C4, 1), irr(C4, 0, 1)), ('C4:reg', C4, [T(C4)], [C4.G.regular_representation]), ('D4', D4, [T(D4)], [D4.G.irrep(1, 1), T(D4)]), ('D4@0', D4a, [D4a.G.irrep(1, 1)], [D4a.G.irrep(0, 2)]), ('F', F4, irr(F4, 1), irr(F4, 0, 1)),
                          ('SO2', S1, irr(S1, 1), irr(S1, 0, 2)), ('O2', S2, irr(S2, (1, 1)), irr(S2, (1, 0), (1, 2)))]:
        fi, fo = ft(sp, a), ft(sp, b)
        for kw in [dict(kernel_size=3, padding=1), dict(kernel_size=3, padding=2, padding_mode='circular'), dict(kernel_size=3, padding=1, padding_mode='reflect'), dict(kernel_size=2, padding=1), dict(kernel_size=3, padding=1, stride=2), dict(kernel_size=3, dilation=2, padding=2), dict(kernel_size=1)]:
            L.append(('R2Conv[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2Conv(fi, fo, **kw), sp, a, b, 3, fi, kw.get('padding_mode') == 'circular' and kw['padding'] == 1))
        for kw in [dict(kernel_size=3, padding=1), dict(kernel_size=3, stride=2, padding=1), dict(kernel_size=2, stride=2)]:
            L.append(('R2ConvTransposed[%s,%s]' % (key, kw), lambda fi=fi, fo=fo, kw=kw: nn.R2ConvTransposed(fi, fo, **kw), sp, a, b, 2, fi, False))
        L.append(('R2Conv[%s,circular]' % key, lambda fi=fi, fo=fo: nn.R2Conv(fi, fo, 3, padding=1, padding_mode='circular'), sp, a, b, 3, fi, True))
    for c in range(0, len(L), 6):
        @ctx.task('contract.equivariance[%d]' % (c // 6), kind='deductive')
        def _(t, part=L[c:c + 6]):
            for nm, make, sp, a, b, n, fi, circ in part:
                try:
                    if make().basisexpansion.dimension() == 0: continue
                except ValueError as e:
                    if 'empty' in str(e): continue
                    raise
                prove(t, nm, [nm.split('[')[0] + '.forward'], equi_contract(make, sp, a, b, n, fi, circular=circ))

    @ctx.task('contract.sampling points', kind='deductive')
    def _(t):
        for mod in ('r2convolution', 'r2_transposed_convolution', 'r2diffop'):
            f = __import__(RC.replace('e2cnn.nn.', 'e2cnn.nn.') + mod, fromlist=['x'])
            prove(t, mod + '.get_grid_coords', [RC + mod + '.get_grid_coords'], grid_contract(f.get_grid_coords, range(1, 10)))

    @ctx.task('contract.normalize_basis', kind='deductive')
    def _(t):
        for sh in ((1, 1, 1, 3), (2, 1, 2, 2), (2, 2, 2, 2), (3, 2, 1, 1)):
            prove(t, 'normalize_basis%s' % (sh,), [RC + 'basisexpansion_singleblock.normalize_basis'], norm_contract(sh))


# ================================================================= C20
LABEL = ('in_repr', 'out_repr', 'in_irrep', 'in_irrep_idx', 'out_irrep', 'out_irrep_idx', 'radius', 'order', 'frequency', 'inner_idx')


def label(a): return tuple(repr(a.get(q)) for q in LABEL)


def expand(k, be, w):
    with k.running(): return k.arr(be(k.tensor(w)))


def expansion_contract(make, ri, ro):
    """every weight multiplies one stored filter, placed between one input field and one output field; for arbitrary stored filters and weights"""
    def contract(k):
        be = make().basisexpansion
        D = be.dimension()
        names, info = list(be.get_basis_names()), [dict(a) for a in be.get_basis_info()]
        k.holds(len(names) == D and len(info) == D and len(set(names)) == D, 'as many weights as names and descriptions, and the names differ')
        for i in range(D):
            k.holds(info[i]['id'] == names[i] and info[i]['idx'] == i, 'the i-th description is that of the i-th name')
            for q in (i, names[i]):
                d = be.get_element_info(q)
                k.holds(set(d) == set(info[i]) and all(repr(d[z]) == repr(info[i][z]) for z in d), 'asking for one description by index or by name gives the listed one')
        P = k.params(be)
        if not P: raise Undecided('the stored filters are not buffers of the expansion')
        n = [sum(r.size for r in ro), sum(r.size for r in ri)]
        po, pi = field_slices(ro), field_slices(ri)
        w = k.array('w', (D,))
        full = expand(k, be, w)
        if k.num: unit = [expand(k, be, np.eye(D)[j]) for j in range(D)]
        else:
            # the coefficient of every weight; anything but a linear form is not understood
            part = [{} for _ in range(D)]
            for x in np.ndindex(*full.shape):
                for (e, m), c in lift(full[x]).n().t.items():
                    ws = [(z, p) for z, p in m if z.startswith('w_')]
                    if e is not None or len(ws) != 1 or ws[0][1] != 1: raise Undecided('the filter is not linear in the weights: %s' % lift(full[x]).show()[:120])
                    part[int(ws[0][0][2:])].setdefault(x, {})[e, tuple(q for q in m if q[0] != ws[0][0])] = c
            unit = []
            for j in range(D):
                f = np.empty(full.shape, object); f[...] = lift(0)
                for x, d in part[j].items(): f[x] = S(d)
                unit.append(f)
            k.holds(True, 'the expanded filter is linear in the weights')
        blocks = {}
        for j, (a, F) in enumerate(zip(info, unit)):
            k.holds(list(F.shape[:2]) == n, 'a row per output channel and a column per input channel')
            o, i = a['out_field_position'], a['in_field_position']
            k.holds(ro[o].name == a['out_repr'] and ri[i].name == a['in_repr'], 'the described representations are those of the described fields')
            k.holds(a['out_irrep'] == ro[o].irreps[a['out_irrep_idx']] and a['in_irrep'] == ri[i].irreps[a['in_irrep_idx']], 'the described irreps are those of the described representations')
            k.holds(a['out_irreps_position'] == sum(len(r.irreps) for r in ro[:o]) + a['out_irrep_idx'] and a['in_irreps_position'] == sum(len(r.irreps) for r in ri[:i]) + a['in_irrep_idx'], 'the described positions among all irreps')
            rest = F.copy(); B = rest[po[o][0]:po[o][1], pi[i][0]:pi[i][1]].copy()
            rest[po[o][0]:po[o][1], pi[i][0]:pi[i][1]] = 0. if k.num else lift(0)
            k.holds(bool(np.abs(rest).max() < 1e-6) if k.num else not any(v.t for v in rest.flat), 'a weight acts only between its two fields')
            blocks.setdefault(label(a), []).append((j, B))
        keys = sorted(blocks)
        seen = {}
        for q in keys:
            for j, B in blocks[q][1:]: k.eq(B, blocks[q][0][1], 'the same description gives the same filter, whatever the positions of the fields')
            if not k.num:
                sy = set()
                ok = True
                for v in blocks[q][0][1].flat:
                    v = lift(v).n()
                    ok &= len(v.t) == 1 and all(c == (1, 0) and e is None and len(m) == 1 and m[0][1] == 1 for (e, m), c in v.t.items())
                    sy |= v.symbols()
                if not ok: raise Undecided('a filter is not read off the stored filters')
                k.holds(len(sy) == blocks[q][0][1].size and not any(z in seen for z in sy), 'different descriptions use different stored filters')
                for z in sy: seen[z] = q
        # one weight per description and pair of fields
        for q in keys: k.holds(len({(info[j]['out_field_position'], info[j]['in_field_position']) for j, _ in blocks[q]}) == len(blocks[q]), 'no two weights share a filter between the same fields')
        for q in keys:
            a = info[blocks[q][0][0]]
            k.holds(len(blocks[q]) == sum(r.name == a['out_repr'] for r in ro) * sum(r.name == a['in_repr'] for r in ri), 'every pair of fields with these representations has a weight for every filter')
        if k.num: k.eq(full, np.einsum('d,dois->ois', w, np.stack(unit)), 'the expanded filter is linear in the weights')
    return contract


def described_contract(make, sp, ri, ro, kernel, single, tol=2e-5, angular=None):
    """the filters themselves: those of the two representations alone, between the described irreps, with the described radius and frequency"""
    def contract(k):
        be = make().basisexpansion
        D = be.dimension(); info = [dict(a) for a in be.get_basis_info()]
        V = layers.weights_matrix(be)
        F = expand(k, be, k.array('w', (D,)))
        if not k.num:
            U = forms(k, F, ['w_%d' % j for j in range(D)])
            same(k, U[0], np.zeros(U[0].shape), 'zero weights give the zero filter', 1e-7)
            U = U[1:]
            same(k, U, V, 'the expanded filter is the weighted sum of the unit filters', 1e-6)
        else:
            k.eq(F, np.einsum('d,dois->ois', np.array([k.env.get('w_%d' % j, 0.) for j in range(D)]), V), 'the expanded filter is the weighted sum of the unit filters', 1e-3); U = V
        po, pi = field_slices(ro), field_slices(ri)
        one = {}
        for j, a in enumerate(info):
            o, i = a['out_field_position'], a['in_field_position']
            key = (a['in_repr'], a['out_repr'])
            if key not in one:
                b1 = single(ri[i], ro[o]).basisexpansion
                U1 = layers.weights_matrix(b1)
                one[key] = {label(q): (n, U1[n]) for n, q in enumerate(b1.get_basis_info())}
            B = U[j, po[o][0]:po[o][1], pi[i][0]:pi[i][1]]
            k.holds(label(a) in one[key], 'the two representations alone have the described filter')
            k.holds(bool(np.allclose(B, one[key][label(a)][1], atol=1e-5)), 'the filter is that of the two representations alone')
            Q = np.einsum('ab,bcp,cd->adp', np.asarray(ro[o].change_of_basis_inv), B, np.asarray(ri[i].change_of_basis))
            u, v = sum(sp.G.irreps[z].size for z in ro[o].irreps[:a['out_irrep_idx']]), sum(sp.G.irreps[z].size for z in ri[i].irreps[:a['in_irrep_idx']])
            su, sv = sp.G.irreps[a['out_irrep']].size, sp.G.irreps[a['in_irrep']].size
            R = Q.copy(); R[u:u + su, v:v + sv] = 0
            cond = np.linalg.cond(np.asarray(ro[o].change_of_basis)) * np.linalg.cond(np.asarray(ri[i].change_of_basis))
            k.holds(bool(np.abs(R).max() < tol * cond), 'the filter maps the described input irrep to the described output irrep')
            k.holds(bool(np.abs(Q).max() > 1e-3), 'a weight has an effect')
            if angular is not None:
                sg = angular(a['radius'])
                c0 = (kernel - 1) / 2
                yy, xx = np.meshgrid(np.arange(kernel), np.arange(kernel), indexing='ij')
                X, Y = (xx - c0).ravel(), (c0 - yy).ravel()
                rad, ang = np.hypot(X, Y), np.arctan2(Y, X)
                w = np.exp(-.5 * ((rad - a['radius']) / sg) ** 2); m = abs(a['frequency'])
                use = (w > 1e-6) & ((rad > 1e-9) | (m == 0))
                A = np.stack([w * np.cos(m * ang), w * np.sin(m * ang)], 1)[use]
                y = Q[u:u + su, v:v + sv].reshape(su * sv, -1)[:, use].T
                sol = np.linalg.lstsq(A, y, rcond=None)[0]
                k.holds(bool(np.abs(A @ sol - y).max() < 1e-3 * (1 + np.abs(y).max())), 'the filter has the described radius and angular frequency')
        # linear independence of what a pair gets is decided per configuration
        for key, d in one.items():
            M = np.stack([f.ravel() for _, f in d.values()])
            k.holds(sorted(n for n, _ in d.values()) == list(range(len(d))), 'descriptions within a pair differ')
            k.rank = np.linalg.matrix_rank(M / np.linalg.norm(M, axis=1, keepdims=True), tol=1e-3)
            k.holds(k.rank == len(M), 'the filters of a pair are linearly independent')
    return contract


def layouts20(sp):
    G = sp.G
    T = G.trivial_representation
    big = G.regular_representation if sp.spec[0] in 'CD' and G.order() <= 4 else G.irrep(1, 1) if sp.spec[0] in ('D', 'O2') else G.irrep(1)
    I1 = (G.irrep(1, 0) if sp.spec[0] in ('D', 'O2') else G.irrep(min(1, sp.spec[1] // 2) if sp.spec[0] == 'C' else 2))
    yield 'one', [big], [big]
    yield 'repeated', [big, big], [big]
    yield 'grouped', [T, T, big], [big, I1]
    yield 'interleaved', [T, big, T], [I1, T, I1]
    yield 'interleaved both', [big, T, big], [T, big, T]
    yield 'names in reverse order', [I1, big, T], [T, I1, big]
    yield 'three kinds', [T, I1, T, big], [I1, T]


def build_c20(ctx):
    from e2cnn import nn
    ft = zoo.fieldtype
    fns = [RC + 'basisexpansion_blocks.BlocksBasisExpansion', RC + 'basisexpansion_singleblock.SingleBlockBasisExpansion']
    sps = [(kind, N, ax) for kind, N, ax in (('R', 2, 0), ('R', 3, 0), ('R', 4, 0), ('R', -1, 0), ('F', 1, 0.), ('FR', 2, .4), ('FR', 3, math.pi / 6), ('FR', 4, math.pi / 2), ('FR', -1, 0.))]
    for kind, N, ax in sps:
        mk_sp = lambda kind=kind, N=N, ax=ax: zoo.Space(kind, N, axis=ax, maxf=3)
        for cls in ('R2Conv', 'R2ConvTransposed', 'R2Diffop'):
            @ctx.task('contract.expansion %s %s%d' % (cls, kind, N), kind='deductive')
            def _(t, mk_sp=mk_sp, cls=cls):
                sp = mk_sp(); C = getattr(nn, cls)
                for q, (key, a, b) in enumerate(layouts20(sp)):
                    for n, g, kw in ((3, 1, {}), (3, 2, dict(bias=False)), (2, 1, dict(recompute=True))):
                        if n == 2 and (cls == 'R2Diffop' or q % 2) or (g == 2 and q in (1, 5)): continue
                        k2 = dict(kw, groups=g)
                        if cls == 'R2Diffop': k2.update(kernel_size=n, maximum_order=2)
                        else: k2.update(kernel_size=n)
                        fi, fo = ft(sp, a * g), ft(sp, b * g)
                        make = lambda: C(fi, fo, **k2)
                        try:
                            if make().basisexpansion.dimension() == 0: continue
                        except ValueError as e:
                            if 'empty' in str(e): continue
                            raise
                        ri, ro = (a, b * g) if cls != 'R2ConvTransposed' else (a * g, b)
                        prove(t, '%s[%s,%s,%s,kernel %d,groups %d]' % (cls, sp.key, key, kw, n, g), fns, expansion_contract(make, ri, ro))
    Sp = zoo.spaces(2)
    for i, sp in enumerate(Sp):
        @ctx.task('contract.descriptions %d:%s' % (i, sp.key), kind='deductive')
        def _(t, i=i):
            sp = zoo.spaces(2)[i]
            rs = zoo.reps(sp.G, sp.spec, np.random.RandomState(5 + i), 1, 6, orthogonal=False)
            rnd = np.random.RandomState(40 + i)
            for c in range(6 if t.thorough else 3):
                cls = ('R2Conv', 'R2ConvTransposed', 'R2Diffop')[(c + i) % 3]
                a, b = zoo.mixed(rs, rnd, 3), zoo.mixed(rs, rnd, 3)
                a, b = a + a[:1], b + b[:1]
                n = 3 if cls == 'R2Diffop' else (3, 5)[c % 2]
                kw = dict(kernel_size=n)
                ang = None
                if cls == 'R2Diffop': kw['maximum_order'] = 2
                else: kw.update(sigma=.5, bias=False); ang = lambda r: .5
                C = getattr(nn, cls)
                single = lambda x, y: C(ft(sp, [x]), ft(sp, [y]), **kw)
                make = lambda: C(ft(sp, a), ft(sp, b), **kw)
                try:
                    if make().basisexpansion.dimension() == 0: continue
                except ValueError as e:
                    if 'empty' in str(e): continue
                    raise
                prove(t, '%s[%s: %s -> %s, kernel %d]' % (cls, sp.key, [r.name for r in a], [r.name for r in b], n), fns, described_contract(make, sp, a, b, n, single, angular=ang))


# ================================================================= C21
def stub(labels):
    from e2cnn.nn.modules.r2_conv.basisexpansion import BasisExpansion

    class Stub(BasisExpansion):
        """a basis expansion that only has descriptions"""
        def forward(self, w): raise NotImplementedError
        def get_basis_names(self): return [a['id'] for a in self.get_basis_info()]
        def get_element_info(self, n): return list(self.get_basis_info())[n if isinstance(n, int) else self.get_basis_names().index(n)]
        def dimension(self): return len(labels)
        def __hash__(self): return hash(tuple(labels))
        def __eq__(self, o): return isinstance(o, Stub)

        def get_basis_info(self):
            for q, (ip, op, i, o, r) in enumerate(labels):
                yield dict(in_irrep=i, out_irrep=o, in_irreps_position=ip, out_irreps_position=op, radius=float(r), frequency=0, inner_idx=q, id='w%d' % q, idx=q,
                           in_irrep_idx=ip, out_irrep_idx=op, in_field_position=ip, out_field_position=op, in_repr='r%d' % ip, out_repr='s%d' % op)
    return Stub()


def he_vars(info):
    per = {}
    for j, a in enumerate(info): per.setdefault(a['out_irreps_position'], {}).setdefault(a['in_irrep'], []).append(j)
    v = [None] * len(info)
    for o, d in per.items():
        for irr_, ix in d.items():
            for j in ix: v[j] = Fr(1, len(d) * len(ix))
    return v, per


def he_contract(make, cache):
    from e2cnn.nn import init

    def contract(k):
        be = make(); info = list(be.get_basis_info()); D = len(info)
        v, per = he_vars(info)
        k.holds(all(sum(v[j] for ix in d.values() for j in ix) == 1 for d in per.values()), 'the variances of the weights feeding an output irrep sum to one')
        if k.num:
            z = np.stack([np.asarray(draw(init.generalized_he_init, be, D, cache, s)) for s in range(1500)]) / np.sqrt(np.array(v, float))
            k.eq(np.sqrt((z ** 2).mean(0)), np.ones(D), 'standard deviation of every weight', .08)
            k.eq(1 + z.mean(0), np.ones(D), 'mean of every weight', .1)
            c = z.T @ z / len(z)
            k.eq(c, np.diag(np.diag(c)), 'weights are independent', .15)
            return
        old = k.array('old', (D,))
        tt = k.tensor(old)
        kk = {}
        import e2cnn.nn.init as I
        for q, d in vars(I).items():
            if isinstance(d, dict) and q.startswith('cache'): kk[q] = dict(d)
        with k.running(): init.generalized_he_init(tt, be, cache=cache)
        for q, d in kk.items(): getattr(I, q).clear(); getattr(I, q).update(d)
        r = k.arr(tt)
        used = set()
        k.holds(r.shape == (D,), 'shape')
        for j in range(D):
            e = lift(r[j]).n()
            if len(e.t) != 1: raise Undecided('weight %d is not a multiple of one draw: %s' % (j, e.show()[:100]))
            (a, m), c = next(iter(e.t.items()))
            dr = [s for s, p in m if s.startswith('norm!')]
            if a is not None or c[1] or len(dr) != 1 or dict(m)[dr[0]] != 1: raise Undecided('weight %d is not a multiple of one standard normal draw: %s' % (j, e.show()[:100]))
            k.holds(dr[0] not in used, 'every weight has its own draw'); used.add(dr[0])
            s2 = (e * e).n()
            z = S({(None, ((dr[0], 2),)): sym.ONE})
            k.eq([s2], [z * lift(v[j])], 'variance = 1 / (number of input irreps reaching the output irrep x filters from this irrep)')
    return contract


def draw(f, be, D, cache=None, seed=0):
    torch.manual_seed(seed); np.random.seed(seed % 2 ** 31)
    w = torch.full((D,), 7.)
    if cache is None: f(w, be)
    else: f(w, be, cache=cache)
    return w.numpy().astype(float)


class Ortho:
    """stand-in for scipy's Haar distribution on orthogonal matrices: an arbitrary matrix, recorded"""
    def __init__(self, k): self.k, self.log = k, []

    def __enter__(self):
        import scipy.stats as st
        self.o = st.ortho_group
        self.had = 'rvs' in vars(self.o); self.old = self.o.rvs
        def rvs(dim=None, size=1, random_state=None):
            n = len(self.log); a = self.k.array('W%d' % n, (int(dim), int(dim))); self.log.append((n, int(dim))); return a
        if not self.k.num: self.o.rvs = rvs
        return self

    def __exit__(self, *a):
        if not self.k.num:
            if self.had: self.o.rvs = self.old
            else: del self.o.rvs


def delta_contract(make, sp, ri, ro, kernel):
    from e2cnn.nn import init

    def contract(k):
        be = make().basisexpansion; info = list(be.get_basis_info()); D = len(info)
        ctr = (kernel * kernel - 1) // 2
        U = layers.weights_matrix(be)          # unit filters
        Q0, Q1 = (zoo.blkdiag([np.asarray(q) for q in z]) for z in ([r.change_of_basis_inv for r in ro], [r.change_of_basis for r in ri]))
        Y = np.einsum('ab,nbcp,cd->nadp', Q0, U, Q1)
        pos = lambda rs: [(i, sp.G.irreps[i].size) for r in rs for i in r.irreps]
        offs = lambda P: np.cumsum([0] + [z for _, z in P])
        pi, po = pos(ri), pos(ro); oi, oo = offs(pi), offs(po)
        if k.num:
            for s in range(3):
                w = draw(init.deltaorthonormal_init, be, D, seed=s)
                y = np.einsum('n,nadp->adp', w, Y)
                k.eq(np.delete(y, ctr, 2), np.zeros((y.shape[0], y.shape[1], y.shape[2] - 1)), 'only the centre tap', 1e-4)
                orth(k, y[:, :, ctr], pi, po, oi, oo)
            return
        tt = k.tensor(k.array('old', (D,)))
        with Ortho(k) as O, k.running(): init.deltaorthonormal_init(tt, be)
        w = [lift(v).n() for v in k.arr(tt)]
        k.holds(not any(z.startswith('old') for v in w for z in k.deps(v)), 'every weight is set')
        used = [j for j in range(D) if w[j].t]
        k.holds(all(info[j]['in_irrep'] == info[j]['out_irrep'] for j in used), 'only equal irreps are connected')
        k.holds(all(np.abs(np.delete(Y[j], ctr, 2)).max(initial=0.) < 1e-5 for j in used), 'only the centre tap is used')
        # every block: one entry of the mixing matrix times a multiple of an orthogonal matrix that depends on the output irrep only
        by = {}
        for j in used: by.setdefault((info[j]['out_irreps_position'], info[j]['in_irreps_position']), []).append(j)
        for x in sorted({i for i, _ in pi} & {i for i, _ in po}):
            A, B = [q for q, (i, _) in enumerate(po) if i == x], [q for q, (i, _) in enumerate(pi) if i == x]
            k.holds(all((a, b) in by for a in A for b in B), 'all equal irreps are connected')
            mats = set(); rowof, colof = {}, {}
            for a in A:
                R = {}
                for b in B:
                    js = by[a, b]
                    common = None
                    for j in js:
                        ws = {s for s in w[j].symbols() if s.startswith('W')}
                        common = ws if common is None else common | ws
                    if len(A) * len(B) == 1 and not common: wm = lift(1)
                    else:
                        if len(common) != 1: raise Undecided('a block does not use one entry of the mixing matrix')
                        n, r, c = next(iter(common))[1:].split('_'); mats.add(n)
                        k.holds(rowof.setdefault(a, r) == r and colof.setdefault(b, c) == c, 'the block (a, b) uses the entry (row of a, column of b)')
                        wm = S({(None, ((next(iter(common)), 1),)): sym.ONE})
                    R[b] = [(j, w[j] * wm.inv() if wm.value() is None else w[j]) for j in js]
                # the coefficients do not depend on the input irrep, and give a multiple of an orthogonal matrix
                first = R[B[0]]
                blk = lambda j, a=a: None
                for b in B:
                    cs = [c for _, c in R[b]]
                    k.holds(len(cs) == len(first), 'the same filters for all equal input irreps')
                    for c0, c1 in zip(cs, [c for _, c in first]): k.eq([c0], [c1], 'the coefficients within a block depend on the output irrep only')
                    Z = [Y[j][oo[a]:oo[a] + po[a][1], oi[b]:oi[b] + pi[b][1], ctr] for j, _ in R[b]]
                    n = po[a][1]
                    c2 = float(np.trace(Z[0] @ Z[0].T)) / n
                    k.scale = c2 if not hasattr(k, 'scale_%s' % (x,)) else getattr(k, 'scale_%s' % (x,)); setattr(k, 'scale_%s' % (x,), k.scale)
                    k.holds(abs(c2 - k.scale) < 1e-4 and c2 > 1e-3, 'all blocks of an irrep have the same scale')
                    for p in range(len(Z)):
                        for q in range(len(Z)):
                            k.holds(bool(np.allclose(Z[p] @ Z[q].T + Z[q] @ Z[p].T, (2 * c2 if p == q else 0) * np.eye(n), atol=1e-4)) and bool(np.allclose(Z[p].T @ Z[q] + Z[q].T @ Z[p], (2 * c2 if p == q else 0) * np.eye(n), atol=1e-4)), 'the filters of a block are orthogonal matrices (up to scale) and anticommute')
                    k.eq([ssum([(c * c).n() for c in cs])], [1], 'the squared coefficients of a block sum to one')
            k.holds(len(mats) <= 1, 'one mixing matrix per irrep'); k.holds(len(set(rowof.values())) == len(rowof) and len(set(colof.values())) == len(colof), 'every output irrep has its own row and every input irrep its own column of the orthogonal matrix')
            if mats:
                d = dict(O.log)[int(next(iter(mats)))]
                k.holds(d == max(len(A), len(B)), 'the mixing matrix is as large as the larger side, so that the used part is semi-orthogonal')
    return contract


def orth(k, y, pi, po, oi, oo):
    rest = y.copy()
    for x in sorted({i for i, _ in pi} & {i for i, _ in po}):
        R = [a for q, (i, z) in enumerate(po) if i == x for a in range(oo[q], oo[q] + z)]; C = [a for q, (i, z) in enumerate(pi) if i == x for a in range(oi[q], oi[q] + z)]
        B = y[np.ix_(R, C)]; rest[np.ix_(R, C)] = 0
        G = B @ B.T if len(R) <= len(C) else B.T @ B
        s = np.trace(G) / len(G)
        k.holds(s > 1e-3, 'equal irreps are connected')
        k.eq(G / s, np.eye(len(G)), 'mixing of equal irreps is (semi-)orthogonal', 1e-3)
    k.eq(rest, np.zeros(rest.shape), 'different irreps are not mixed', 1e-4)


def unit_contract(shape):
    """a filter that is not negligible is scaled to mean squared norm one per output channel"""
    from e2cnn.nn.modules.r2_conv.basisexpansion_singleblock import normalize_basis

    def contract(k):
        B = k.array('b', shape); sz = np.array([k.const(float(v)) for v in (1, 3)[:shape[0]]])
        tot = [sum((x * x for x in B[q].ravel()), 0) for q in range(shape[0])]
        for q in range(shape[0]):
            if k.num and tot[q] < 1e-3 * sz[q]: return
            k.assume(tot[q] - k.const(1e-3) * sz[q], '>')
        with k.running(), splitting(): R = k.arr(normalize_basis(k.tensor(B), k.tensor(sz)))
        for q in range(shape[0]): k.eq(R[q].ravel(), [x / k.sqrt(tot[q] / sz[q]) for x in B[q].ravel()], 'divided by the root of its mean squared norm per output channel')
    return contract


def build_c21(ctx):
    from e2cnn import nn
    ft = zoo.fieldtype

    @ctx.task('contract.normalised filters', kind='deductive')
    def _(t):
        for sh in ((1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 1, 2), (1, 1, 2, 2), (2, 2, 1, 1)): prove(t, 'normalize_basis%s' % (sh,), [RC + 'basisexpansion_singleblock.normalize_basis'], unit_contract(sh))
    I = NN + 'init.'

    # all descriptions of up to four weights: input irreps, positions and output positions
    def labellings(n):
        irs = ('a', 'b', 'c')
        for lab in itertools.product([(ip, op) for ip in range(3) for op in range(2)], repeat=n):
            # input positions 0 and 1 hold the same irrep, 2 another one
            yield [(ip, op, 'a' if ip < 2 else 'b', 'o%d' % (op % 2), 0) for ip, op in lab]
    L = [l for n in (1, 2, 3) for l in labellings(n)] + [l for q, l in enumerate(labellings(4)) if q % 5 == 0]
    for c in range(0, len(L), 60):
        for cache in (False, True):
            @ctx.task('contract.He variances, descriptions[%d]%s' % (c // 60, ' cached' if cache else ''), kind='deductive')
            def _(t, part=L[c:c + 60], cache=cache):
                for l in part: prove(t, 'generalized_he_init %s' % ([q[:3] for q in l],), [I + 'generalized_he_init', I + '_generalized_he_init_variances'], he_contract(lambda: stub(l), cache))
    Sp = zoo.spaces(2)
    for i, sp in enumerate(Sp):
        @ctx.task('contract.He %d:%s' % (i, sp.key), kind='deductive')
        def _(t, i=i):
            sp = zoo.spaces(2)[i]; rnd = np.random.RandomState(70 + i)
            rs = zoo.reps(sp.G, sp.spec, rnd, 1, 6)
            for c in range(6 if t.thorough else 3):
                a, b = zoo.mixed(rs, rnd, 3), zoo.mixed(rs, rnd, 3)
                for C, kw in ((nn.R2Conv, dict(kernel_size=(3, 5)[c % 2], groups=1 + c % 2)), (nn.R2ConvTransposed, dict(kernel_size=3, groups=1 + c % 2)), (nn.R2Diffop, dict(kernel_size=3, maximum_order=2))):
                    g = kw.get('groups', 1)
                    try: m = C(ft(sp, a * g), ft(sp, b * g), **kw)
                    except ValueError as e:
                        if 'empty' in str(e): continue
                        raise
                    if m.basisexpansion.dimension() == 0: continue
                    prove(t, 'generalized_he_init[%s %s: %s -> %s]' % (C.__name__, sp.key, [r.name for r in a], [r.name for r in b]), [I + 'generalized_he_init', I + '_generalized_he_init_variances'], he_contract(lambda: m.basisexpansion, bool(c % 2)))

        @ctx.task('contract.delta-orthogonal %d:%s' % (i, sp.key), kind='deductive')
        def _(t, i=i):
            sp = zoo.spaces(2)[i]; rnd = np.random.RandomState(90 + i)
            rs = zoo.reps(sp.G, sp.spec, rnd, 1, 6)
            for c in range(10 if t.thorough else 6):
                a, b = zoo.mixed(rs, rnd, int(rnd.randint(1, 4))), zoo.mixed(rs, rnd, int(rnd.randint(1, 4)))
                n = (3, 5, 1)[c % 3]
                try: C = nn.R2Conv(ft(sp, a), ft(sp, b), n)
                except ValueError as e:
                    if 'empty' in str(e): continue
                    raise
                if not {x for r in a for x in r.irreps} & {x for r in b for x in r.irreps}: continue
                prove(t, 'deltaorthonormal_init[%s: %s -> %s, kernel %d]' % (sp.key, [r.name for r in a], [r.name for r in b], n), [I + 'deltaorthonormal_init'], delta_contract(lambda: C, sp, a, b, n))
