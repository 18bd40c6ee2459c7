"""C07: completeness, independence, frequency limits."""
from vk import groups as gr, zoo
import numpy as np, math
from checks.c06 import basis
PROPERTY = 'C07'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: offset_iterator is proved to enumerate exactly the offsets within the limits for all integers; the solutions of an arbitrary frequency are proved complete and independent, and the '
               'composition with rings and irreps to use each once. Bounded layer: dimension of the solution space of the constraint on band-limited kernels (computed independently by linear algebra) against '
               'the number of elements, rank of the sampled basis, and per-element descriptions against the sampled values.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3', 'numpy linear algebra']
ASSUMPTIONS = ['floating point treated as real arithmetic']
BOUND = 'spaces of vk/zoo.py, frequencies up to 6, representations of size up to 8'


def generators(sp):
    k, N = sp.spec
    if sp.kind == 'T': return []
    if sp.kind == 'F': return [1]
    if k == 'C': return [1]
    if k == 'D': return [(0, 1), (1, 0)] if N > 1 else [(1, 0)]
    if k == 'SO2': return [1.0]      # an angle of infinite order generates a dense subgroup
    return [(0, 1.0), (1, 0.)]


def nullity(sp, a, b, F):
    """dimension of {K(phi) = sum_{|mu|<=F} ... : K(g phi) = rho_out K rho_in^-1 for the generators}, real matrices of band-limited functions"""
    ns, no = a.size, b.size
    # basis functions: 1, cos(mu phi), sin(mu phi); representation of M on them: f(M^-1 phi) ...
    nf = 2 * F + 1
    n = nf * ns * no
    rows = []
    for e in generators(sp):
        M = sp.M(e)
        det = np.linalg.det(M) > 0
        # M maps angle phi -> phi + th (rotation) or -phi + th (reflection)
        th = math.atan2(M[1, 0], M[0, 0])
        T = np.zeros((nf, nf))      # coefficients of f(M phi) in terms of coefficients of f
        T[0, 0] = 1
        for mu in range(1, F + 1):
            c, s = math.cos(mu * th), math.sin(mu * th)
            i, j = 2 * mu - 1, 2 * mu
            if det:
                # cos(mu(phi+th)) = c cos - s sin ; sin(mu(phi+th)) = s cos + c sin
                T[i, i], T[j, i], T[i, j], T[j, j] = c, -s, s, c
            else:
                # cos(mu(th-phi)) = c cos + s sin ; sin(mu(th - phi)) = s cos - c sin
                T[i, i], T[j, i], T[i, j], T[j, j] = c, s, s, -c
        R = np.kron(np.asarray(b(e)), np.linalg.inv(np.asarray(a(e))).T)   # vec row-major of rho_out K rho_in^-1
        rows.append(np.kron(T, np.eye(ns * no)) - np.kron(np.eye(nf), R))
    if not rows: return n
    A = np.concatenate(rows)
    s = np.linalg.svd(A, compute_uv=False)
    return n - int((s > 1e-7).sum())


def maxfreq(sp, a, b):
    f = lambda r: max(sp.G.irreps[n].attributes['frequency'] for n in r.irreps)
    return f(a) + f(b)


def describe(t, sp, a, b, B, rings, sigma, F):
    sg = [sigma] * len(rings) if isinstance(sigma, float) else list(sigma)
    L = list(B)
    t.check(len(B) == B.dim == len(L), 'length, dimension and iteration disagree', len=len(B), dim=B.dim, it=len(L))
    n = 64
    phi = np.arange(n) * gr.TAU / n + 0.1
    A, Bc = np.asarray(a.change_of_basis), np.asarray(b.change_of_basis_inv)
    posi = np.cumsum([0] + [sp.G.irreps[x].size for x in a.irreps]); poso = np.cumsum([0] + [sp.G.irreps[x].size for x in b.irreps])
    P1 = np.stack([np.cos(phi), np.sin(phi)])
    K1 = B.sample(P1)
    Kr = {r: B.sample(P1 * r) for r in (0.5, 2.)}
    seen = set()
    for i, d in enumerate(L):
        t.at(space=sp.key, in_repr=a.name, out_repr=b.name, element=i, description=d)
        d2 = B[i]
        t.check(set(d) == set(d2) and all(eq(d[k], d2[k]) for k in d), 'iteration and indexing describe the element differently', other=d2)
        t.check(d['idx'] == i, 'index', idx=d['idx'])
        k = K1[:, :, i, :]
        blk = np.einsum('po,oix,ij->pjx', Bc, k, A)
        ii, oo = d['in_irrep_idx'], d['out_irrep_idx']
        t.check(d['in_irrep'] == a.irreps[ii] and d['out_irrep'] == b.irreps[oo], 'described irreps')
        t.check(tuple(d['shape']) == (sp.G.irreps[d['out_irrep']].size, sp.G.irreps[d['in_irrep']].size), 'described shape')
        m = np.ones_like(blk, dtype=bool); m[poso[oo]:poso[oo + 1], posi[ii]:posi[ii + 1]] = False
        t.close(blk[m], 0 * blk[m], 'element has support outside the irreps it is described with', 1e-8)
        fr = abs(d['frequency'])
        ff = np.abs(np.fft.rfft(blk, axis=-1)).sum((0, 1)); ff /= max(ff.max(), 1e-30)
        nz = list(np.nonzero(ff > 1e-8)[0])
        t.check(nz == [fr], 'element does not have the described frequency', got=nz)
        if F is not None: t.check(fr <= F, 'element above the frequency limit', frequency=fr, limit=F)
        # radial profile
        jr, r0, s0 = None, d['radius'], d['sigma']
        t.check(any(np.isclose(r0, x) and np.isclose(s0, y) for x, y in zip(rings, sg)), 'described ring was not requested', radius=r0, sigma=s0)
        base = math.exp(-.5 * (1. - r0) ** 2 / s0 ** 2)
        for r, Kx in Kr.items():
            t.close(Kx[:, :, i, :] * base, k * math.exp(-.5 * (r - r0) ** 2 / s0 ** 2), 'element does not have the described radial profile', 1e-9)
        sig = (round(float(r0), 9), round(float(s0), 9), d['idx2'])
        t.check(sig not in seen, 'two elements share ring and angular part'); seen.add(sig)
        t.check(d['idx'] == d['idx1'] * (B.dim // len(rings)) + d['idx2'], 'ring/angular indices')
        t.check(rings[d['idx1']] == r0 and sg[d['idx1']] == s0, 'ring index')


def eq(x, y):
    try: return bool(np.all(x == y))
    except Exception: return False


def one(t, key):
    i = key
    sp = zoo.spaces(2)[i]
    rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 2 if t.thorough else 1, 8, orthogonal=False)
    cont = sp.spec[0] in ('SO2', 'O2')
    n = 64
    phi = np.arange(n) * gr.TAU / n + 0.05
    j = 0
    for a in R:
        for b in R:
            j += 1
            big = a.size * b.size
            if big > 40 and not t.thorough and (i + j) % 2: continue
            Fs = [maxfreq(sp, a, b)] if cont else ([0, 1, 3, 6] if big <= 6 or t.thorough else [2, [0, 1, 4, 3][j % 4]])
            for F in Fs:
                kw = {} if cont else dict(maximum_frequency=F)
                rings, sigma = [([1., 2.5], [0.5, 1.]), ([0., 1., 3.], 0.8), ([2.], 0.6)][j % 3]
                t.at(space=sp.key, in_repr=a.name, out_repr=b.name, F=F, rings=rings)
                B = basis(t, sp, a, b, rings, sigma, **kw)
                want = nullity(sp, a, b, F)
                got = 0 if B is None else B.dim
                t.check(got == want * len(rings), 'number of elements differs from the dimension of the solution space', got=got, expected=want * len(rings))
                if B is None: continue
                # independence of the angular parts at one radius per ring
                pts = np.concatenate([np.stack([np.cos(phi), np.sin(phi)]) * r for r in (0.7, 1.4, 2.2, 3.1)], axis=1)
                S = B.sample(pts).transpose(2, 0, 1, 3).reshape(B.dim, -1)
                t.check(np.linalg.matrix_rank(S / np.linalg.norm(S, axis=1, keepdims=True), tol=1e-6) == B.dim, 'elements are linearly dependent')
                if j % 2 == 0 or t.thorough: describe(t, sp, a, b, B, rings, sigma, F)


def offsets(t, i):
    """limits given as offsets, alone or together with a frequency limit: the elements are those of the frequency-limited basis (no redundancy),
    each with an offset within the limit, and every solution within a limit is there once the other is generous"""
    sp = zoo.spaces(2)[i]
    if sp.spec[0] in ('SO2', 'O2'): return
    rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 6)[:6]
    phi = np.arange(256) * gr.TAU / 256 + 0.05
    P = np.stack([np.cos(phi), np.sin(phi)])
    N = sp.spec[1] if sp.kind != 'F' else 1
    for a in R:
        for b in R:
            for mo in (0, 1, 2):
                for F in (None, 3):
                    kw = dict(maximum_offset=mo)
                    if F is not None: kw['maximum_frequency'] = F
                    t.at(space=sp.key, in_repr=a.name, out_repr=b.name, **kw)
                    B = basis(t, sp, a, b, [1.], 0.5, **kw)
                    big = basis(t, sp, a, b, [1.], 0.5, maximum_frequency=F if F is not None else maxfreq(sp, a, b) + (mo + 1) * N)
                    if B is None: continue
                    t.check(big is not None, 'offset-limited basis without frequency-limited counterpart')
                    S = B.sample(P).transpose(2, 0, 1, 3).reshape(B.dim, -1); S2 = big.sample(P).transpose(2, 0, 1, 3).reshape(big.dim, -1)
                    t.check(np.linalg.matrix_rank(S, tol=1e-6) == B.dim, 'elements are linearly dependent', dim=B.dim)
                    t.check(np.linalg.matrix_rank(np.concatenate([S, S2]), tol=1e-6) == big.dim, 'elements outside the frequency-limited space')
                    for d in B:
                        t.check(abs(d['offset']) <= mo, 'offset above the limit', d=d)
                        if F is not None: t.check(abs(d['frequency']) <= F, 'frequency above the limit', d=d)
                    # every element of the frequency-limited basis whose offset is within the limit is present
                    keep = [k for k, d in enumerate(big) if abs(d['offset']) <= mo]
                    t.check(len(keep) == B.dim, 'solutions within the offset limit missing or extra', got=B.dim, expected=len(keep))


def needs_limit(t, i):
    sp = zoo.spaces(2)[i]
    if sp.spec[0] in ('SO2', 'O2'): return
    r = sp.G.trivial_representation
    t.raises(lambda: sp.gs.build_kernel_basis(r, r, 0.5, [1.]), 'infinite basis requested without a limit')
    t.raises(lambda: sp.gs.build_kernel_basis(r, r, -0.5, [1.], maximum_frequency=2), 'negative sigma accepted')
    t.raises(lambda: sp.gs.build_kernel_basis(r, r, 0.5, [-1.], maximum_frequency=2), 'negative radius accepted')


def build(ctx):
    S = zoo.spaces(2)
    nm = lambda k: '%d:%s' % (k, S[k].key)
    ctx.cases('complete', range(len(S)), one, nm)
    ctx.cases('offsets', range(len(S)), offsets, nm)
    ctx.cases('limits', range(len(S)), needs_limit, nm)
    try:
        from vk import ded_kernels
    except ImportError:
        return
    ded_kernels.build_c07(ctx)
