"""C10: steerable differential operators are equivariant polynomials, complete and independent; stencils exact; the layer is a convolution."""
from vk import groups as gr, zoo, layers
from checks.c07 import generators
import numpy as np, math
from math import comb
PROPERTY = 'C10'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the operator solutions are executed with symbolic order, frequency, axis and angle and the commutation identity is discharged; the polynomial utilities and the stencils are proved on '
               'symbolic coefficients and points; the layer on symbolic weights and inputs. Bounded layer: number of operators of every order against the dimension of the solution space, stencils against exact '
               'derivatives of all monomials they can resolve.')
TRUSTED = ['numpy linear algebra', 'sympy finite_diff_weights is the code under check only through its result']
ASSUMPTIONS = ['only the finite-difference discretisation can run here (the RBF package is not installed)', 'floating point treated as a tolerance',
               'stencil orientation: the first axis of a k x k stencil is the x coordinate of the operator (as the existing tests pin it); reflections of the layer are not claimed']
BOUND = 'spaces of vk/zoo.py, orders up to 5, representations of size up to 6, stencils of 1..7 points per side'


def peval(c, v):
    """evaluate (o,i,n+1) homogeneous coefficients at v: sum_k c_k x^(n-k) y^k"""
    n = c.shape[-1] - 1
    return sum(c[..., k] * v[0] ** (n - k) * v[1] ** k for k in range(n + 1))


def psub(n, M):
    """T[k] = coefficients of (row0 . v)^(n-k) (row1 . v)^k, i.e. the polynomial x^(n-k) y^k composed with v -> M v"""
    T = np.zeros((n + 1, n + 1))
    for k in range(n + 1):
        p = np.array([1.])
        for _ in range(n - k): p = np.convolve(p, [M[0, 0], M[0, 1]])
        for _ in range(k): p = np.convolve(p, [M[1, 0], M[1, 1]])
        T[k, :len(p)] = p
    return T


def dimension(sp, a, b, n):
    """dimension of the space of (out,in)-matrices of homogeneous degree-n polynomials D with D(M v) = rho_out D(v) rho_in^-1"""
    N = a.size * b.size * (n + 1)
    rows = []
    for e in generators(sp):
        T = psub(n, sp.M(e))            # D(Mv) coefficients: c'_j = sum_k c_k T[k,j]
        R = np.kron(np.asarray(b(e)), np.linalg.inv(np.asarray(a(e))).T)
        rows.append(np.kron(np.eye(a.size * b.size), T.T) - np.kron(R, np.eye(n + 1)))
    if not rows: return N
    s = np.linalg.svd(np.concatenate(rows), compute_uv=False)
    return N - int((s > 1e-8).sum())


def build_basis(sp, a, b, power, F=None, offset=None):
    from e2cnn.kernels import EmptyBasisException
    kw = dict(max_power=power)
    if sp.spec[0] in 'CD':
        if F is not None: kw['maximum_frequency'] = F
        if offset is not None: kw['maximum_offset'] = offset
    from e2cnn.diffops import DiscretizationArgs
    kw['discretization'] = DiscretizationArgs()
    try: return sp.gs.build_diffop_basis(a, b, **kw)
    except EmptyBasisException: return None


def operators(t, i):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 6, orthogonal=False)
    found = 0; j = 0
    for a in R:
        for b in R:
            j += 1
            if a.size * b.size > 16 and (j % 3) and not t.thorough: continue
            for top in ((3, 4) if a.size * b.size <= 8 else (3,)):
                t.at(space=sp.key, inp=a.name, out=b.name, order=top)
                B = build_basis(sp, a, b, top // 2, top)
                by = {}
                if B is not None:
                    L = list(B)
                    t.check(len(L) == len(B) == B.dim == len(B.coefficients), 'length, dimension and iteration disagree')
                    for k, (c, d) in enumerate(zip(B.coefficients, L)):
                        t.at(space=sp.key, inp=a.name, out=b.name, element=k, description=d)
                        n = c.shape[-1] - 1
                        t.check(c.shape[:2] == (b.size, a.size) and tuple(B.shape) == (b.size, a.size), 'operator shape')
                        t.check(np.abs(c).max() > 1e-6, 'zero operator')
                        t.check(d['order'] == n and d['idx'] == k, 'described order or index', got=n)
                        d2 = B[k]
                        t.check(set(d) == set(d2) and all(np.all(d[q] == d2[q]) for q in d), 'iteration and indexing describe the operator differently', other=d2)
                        t.check(a.irreps[d['in_irrep_idx']] == d['in_irrep'] and b.irreps[d['out_irrep_idx']] == d['out_irrep'], 'described irreps')
                        Q = np.einsum('po,oik,ij->pjk', np.asarray(b.change_of_basis_inv), c, np.asarray(a.change_of_basis))
                        pi = np.cumsum([0] + [sp.G.irreps[x].size for x in a.irreps]); po = np.cumsum([0] + [sp.G.irreps[x].size for x in b.irreps])
                        mk = np.ones(Q.shape, bool); mk[po[d['out_irrep_idx']]:po[d['out_irrep_idx'] + 1], pi[d['in_irrep_idx']]:pi[d['in_irrep_idx'] + 1]] = False
                        t.close(Q[mk], 0 * Q[mk], 'operator acts outside the irreps it is described with', 1e-6)
                        t.check(n == abs(d['frequency']) + 2 * d['power'], 'order is not frequency plus twice the Laplacian power')
                        # the Laplacian power divides the operator: angular content exactly |frequency|
                        ph = np.arange(32) * gr.TAU / 32
                        v = np.stack([peval(c, (math.cos(p), math.sin(p))) for p in ph], -1)
                        ff = np.abs(np.fft.rfft(v, axis=-1)).sum((0, 1)); ff /= ff.max()
                        t.check(list(np.nonzero(ff > 1e-6)[0]) == [abs(d['frequency'])], 'operator does not have the described angular frequency', got=list(np.nonzero(ff > 1e-6)[0]))
                        for e in sp.elements(rng, 2):
                            Mv = np.einsum('oik,kj->oij', c, psub(n, sp.M(e)))
                            rhs = np.einsum('po,oik,ij->pjk', np.asarray(b(e)), c, np.linalg.inv(np.asarray(a(e))))
                            t.close(Mv, rhs, 'operator does not commute with the group action', 1e-6, g=e)
                        by.setdefault(n, []).append(c.reshape(-1))
                        found += 1
                for n in range(top + 1):
                    t.at(space=sp.key, inp=a.name, out=b.name, order=n, limit=top)
                    got = by.get(n, [])
                    want = dimension(sp, a, b, n)
                    t.check(len(got) == want, 'number of operators of this order differs from the dimension of the solution space', got=len(got), expected=want)
                    if got: t.check(np.linalg.matrix_rank(np.stack(got), tol=1e-6) == len(got), 'operators are linearly dependent')
    t.check(found > 0, 'no operator was built')


def offsets(t, i):
    sp = zoo.spaces(2)[i]; rng = t.rng()
    if sp.spec[0] in ('SO2', 'O2'): return t.check(True)
    R = zoo.reps(sp.G, sp.spec, rng, 1, 4)[:5]
    for a in R:
        for b in R:
            for mo in (0, 1):
                for F in (None, 3):
                    t.at(space=sp.key, inp=a.name, out=b.name, offset=mo, F=F)
                    B = build_basis(sp, a, b, 0, F, mo)
                    if B is None: continue
                    fm = max(abs(d['frequency']) for d in B)
                    big = build_basis(sp, a, b, 0, fm if F is None else F)
                    keep = [k for k, d in enumerate(big) if abs(d['offset']) <= mo]
                    t.check(all(abs(d['offset']) <= mo for d in B), 'offset above the limit')
                    by = {}
                    for c in B.coefficients: by.setdefault(c.shape[-1], []).append(c.reshape(-1))
                    for n, cs in by.items():
                        t.check(np.linalg.matrix_rank(np.stack(cs), tol=1e-6) == len(cs), 'operators are linearly dependent', order=n - 1)
                    if F is not None:
                        t.check(len(keep) == B.dim, 'operators within the offset limit missing or extra', got=B.dim, expected=len(keep))
                        t.check(fm <= F, 'frequency above the limit')


def stencils(t, k):
    """exactness of the finite-difference stencils on every monomial they can resolve"""
    from e2cnn.diffops import utils as du
    from e2cnn.nn.modules.r2_conv import r2diffop
    rng = t.rng()
    for dil in (1, 2):
        pts = r2diffop.get_grid_coords(k, dil)
        want = np.array([((c - (k - 1) / 2) * dil, ((k - 1) / 2 - r) * dil) for r in range(k) for c in range(k)]).T
        t.at(k=k, dilation=dil)
        t.close(pts, want, 'grid coordinates', 1e-12)
        ax = (np.arange(k) - (k - 1) / 2) * dil
        t.close(du.symmetric_points(k, dil), ax, 'symmetric points', 1e-12)
        for n in range(k):
            w = du.discretize_1d_monomial(n, ax)
            for d in range(k):
                t.close(float(np.dot(w, ax ** d)), float(math.factorial(n) if d == n else 0), '1d stencil is not exact', 1e-7, order=n, degree=d)
            for ny in range(k - n if not t.thorough else k):
                if n + ny > 6: continue
                c = np.zeros(n + ny + 1); c[ny] = 1.
                cr = rng.randn(n + ny + 1)
                cr[rng.rand(len(cr)) < .3] = 0.
                if any(q >= k or n + ny - q >= k for q in np.nonzero(cr)[0]): cr = c * 1.7
                for coef in (c, cr):
                    t.at(k=k, dilation=dil, coefficients=coef)
                    c0, p0 = coef.copy(), pts.copy()
                    s = du.discretize_homogeneous_polynomial(pts, coef, None)
                    t.check(np.array_equal(c0, coef) and np.array_equal(p0, pts), 'arguments modified')
                    t.check(s.shape == (k * k,), 'stencil shape')
                    S = s.reshape(k, k)
                    for dx in range(k):
                        for dy in range(k):
                            got = float(np.einsum('ab,a,b->', S, ax ** dx, ax ** dy))
                            exact = sum(coef[q] * math.factorial(dx) * math.factorial(dy) for q in range(len(coef)) if (len(coef) - 1 - q, q) == (dx, dy))
                            t.close(got, float(exact), 'stencil is not exact on a monomial it resolves', 1e-6, dx=dx, dy=dy)
                    # cached result is the same, and not an alias that a caller can spoil for others
                    t.close(du.discretize_homogeneous_polynomial(pts, coef, None), s, 'repeated discretisation differs', 1e-12)
        z = du.discretize_homogeneous_polynomial(pts, np.zeros(3), None)
        t.close(z, np.zeros(k * k), 'zero operator', 1e-12)
        t.raises(lambda: du.discretize_1d_monomial(k, ax), 'derivative of an order the grid cannot resolve')


def utils(t, _):
    from e2cnn.diffops import utils as du
    rng = t.rng()
    for n in range(0, 7):
        for m in range(0, 6):
            a, b = rng.randn(n + 1), rng.randn(m + 1)
            t.at(n=n, m=m)
            t.close(du.multiply_polynomials(a, b), np.convolve(a, b), 'product of polynomials', 1e-9)
        a = rng.randn(2, 3, n + 1); M = rng.randn(2, 2)
        got = du.transform_polynomial(a, M)
        for _ in range(4):
            v = rng.randn(2)
            t.close(peval(got, v), peval(a, M.T @ v), 'transformed polynomial is not the composition with the linear map', 1e-7, n=n)
        al, be = rng.randn(2)
        t.close(du.expand_binomial(al, be, n), [comb(n, q) * al ** (n - q) * be ** q for q in range(n + 1)], 'binomial expansion', 1e-9)
        for th in rng.uniform(-3, 3, 5):
            v = (math.cos(th), math.sin(th))
            t.close(peval(du.homogenized_cheby(n, 't'), v), math.cos(n * th), 'cos(n theta) polynomial', 1e-9, n=n)
            if n: t.close(peval(du.homogenized_cheby(n, 'u'), v), math.sin(n * th), 'sin(n theta) polynomial', 1e-9, n=n)
            if n:
                t.close(peval(du.homogenized_cheby(-n, 'u'), v), math.sin(-n * th), 'sin(-n theta) polynomial', 1e-9, n=-n)
                t.close(peval(du.homogenized_cheby(-n, 't'), v), math.cos(n * th), 'cos(-n theta) polynomial', 1e-9, n=-n)
            r = rng.uniform(.3, 2)
            t.close(peval(du.laplacian_power(n), (r * v[0], r * v[1])), r ** (2 * n), 'power of the Laplacian', 1e-8, n=n)
        cs = [rng.randn(2, 2, n + 1), rng.randn(2, 2, n + 3)]
        P = rng.randn(2, 5)
        t.close(du.eval_polys(cs, P), np.stack([np.stack([peval(c, P[:, q]) for q in range(5)], -1) for c in cs]), 'evaluation of polynomials', 1e-8)
    for order in range(0, 6):
        for acc in range(1, 7):
            t.at(order=order, accuracy=acc)
            k = du.required_points(order, acc)
            if k <= order: continue
            ax = np.array(du.symmetric_points(k)); w = du.discretize_1d_monomial(order, ax)
            exact = lambda w, ax, upto: all(abs(np.dot(w, ax ** d) - (math.factorial(order) if d == order else 0)) < 1e-6 * max(1., np.abs(ax ** d).sum() * np.abs(w).max()) for d in range(upto))
            # accuracy acc of a derivative of given order: exact for all degrees below order + acc (even accuracies on symmetric grids)
            t.check(exact(w, ax, order + (acc if k == order + acc - 1 or acc % 2 == 1 else acc)), 'required_points does not reach the requested accuracy', points=k)
    for k in range(1, 9):
        for acc in range(1, k + 1):
            o = du.largest_possible_order(k, acc)
            t.at(points=k, accuracy=acc)
            t.check(0 <= o < max(k, 1) or o == k - acc + 1, 'largest_possible_order out of range', got=o)
            t.check(du.required_points(o, acc) <= k if o < k else True, 'largest_possible_order needs more points than given', got=o)


def layer(t, i):
    import torch
    from e2cnn import nn
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 6, orthogonal=False)
    E = [e for e in sp.grid_elements() if np.linalg.det(sp.M(e)) > 0]
    done = 0
    for j in range(30 if t.thorough else 9):
        k = int(rng.choice([1, 3, 3, 5, 2, 4]))
        g = int(rng.choice([1, 1, 2]))
        ri, ro = layers.mktypes(sp, R, rng, g, 2)
        if sum(r.size for r in ri) * sum(r.size for r in ro) > 400: continue
        cfg = dict(stride=int(rng.choice([1, 1, 2])), dilation=int(rng.choice([1, 1, 2])), padding=int(rng.choice([0, k // 2, 1])), groups=g, bias=bool(rng.rand() < .7))
        if rng.rand() < .4: cfg['padding_mode'] = ['reflect', 'replicate', 'circular'][rng.randint(3)]
        how = rng.randint(3)
        if how == 0: cfg['kernel_size'] = k; mo = None
        elif how == 1:
            mo = int(rng.randint(0, 4)); cfg.update(maximum_order=mo, accuracy=2 if mo else 1)
        else:
            mo = int(rng.randint(0, k)); cfg.update(kernel_size=k, maximum_order=mo)
        if rng.rand() < .2: cfg['maximum_offset'] = 1
        if rng.rand() < .2: cfg['maximum_power'] = 0
        if rng.rand() < .2: cfg['angle_offset'] = math.pi / 2
        fi, fo = zoo.fieldtype(sp, ri), zoo.fieldtype(sp, ro)
        t.at(space=sp.key, inp=[r.name for r in ri], out=[r.name for r in ro], cfg=cfg)
        try: m = nn.R2Diffop(fi, fo, **cfg)
        except ValueError as e:
            if 'empty' in str(e): continue
            raise
        except AssertionError as e:
            if "Can't discretize" in str(e): continue    # more derivatives than points: refused with an explanation
            raise
        kk = m.kernel_size
        if how == 0: t.check(kk == k, 'kernel size')
        cfg = dict(cfg, kernel_size=kk)
        zoo.randomise(m, rng)
        D = m.weights.numel(); w = m.weights.detach().clone()
        n = layers.input_size(cfg)
        if n is None: continue
        with torch.no_grad():
            sel = range(D) if D <= 30 else sorted(rng.choice(D, 30, replace=False))
            fl = []
            for q in sel:
                m.weights.data.copy_(torch.eye(D)[q]); fl.append(m.expand_parameters()[0].numpy().astype(float))
                info = m.basisexpansion.get_element_info(int(q))
                if how and mo is not None: t.check(info['order'] <= mo, 'operator above the maximum order', info=info)
            m.weights.data.copy_(w)
            f = np.stack(fl); sc = np.abs(f).max(axis=(1, 2, 3, 4), keepdims=True) + 1e-12
            cond = max([np.linalg.cond(np.asarray(r.change_of_basis)) for r in set(ri + ro)] + [1.])
            for e in E:
                rhs = np.einsum('ab,nbcxy,cd->nadxy', zoo.rho(ro, e), zoo.move(f, sp.M(e)), np.linalg.inv(zoo.rho(ri[:len(ri) // g], e)))
                t.close(f / sc, rhs / sc, 'expanded stencil does not commute with the grid rotation', 5e-5 * cond ** 2, g=e)
            f, b = m.expand_parameters()
            if b is not None:
                for e in sp.elements(rng, 2): t.close(zoo.rho(ro, e) @ b.numpy().astype(float), b, 'bias is not invariant', 1e-4, g=e)
            x = rng.randn(2, fi.size, n, n + 1).astype('float32')
            y = m(zoo.geo(torch.as_tensor(x), fi))
            ref = layers.ref_conv(x, f, b, cfg['stride'], cfg['padding'], cfg['dilation'], g, cfg.get('padding_mode', 'zeros'))
            s = np.abs(ref).max() + 1e-9
            t.check(y.type == fo, 'output type')
            t.close(y.tensor.numpy() / s, ref / s, 'layer differs from the convolution with its expanded stencil', 3e-5)
            x = rng.randn(1, fi.size, n, n)
            y0 = m(zoo.geo(torch.as_tensor(x.astype('float32')), fi)).tensor.numpy().astype(float); s = np.abs(y0).max() + 1e-9
            for e in E:
                xe = zoo.act(x, zoo.rho(ri, e), sp.M(e))
                ye = m(zoo.geo(torch.as_tensor(xe.astype('float32')), fi)).tensor.numpy()
                t.close(ye / s, zoo.act(y0, zoo.rho(ro, e), sp.M(e)) / s, 'layer does not commute with the grid rotation', 2e-4 * cond ** 2, g=e)
        done += 1
    t.check(done > 0, 'no layer could be built')


def taps(t, i):
    """the filter of a weight is, up to its normalisation, the stencil of the operator it is described with"""
    import torch
    from e2cnn import nn
    from e2cnn.diffops import utils as du
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 1, 4)
    for j in range(4):
        a, b = zoo.mixed(R, rng, 2)
        t.at(space=sp.key, inp=a.name, out=b.name)
        try: m = nn.R2Diffop(zoo.fieldtype(sp, [a]), zoo.fieldtype(sp, [b]), kernel_size=3, maximum_order=2)
        except ValueError: continue
        B = build_basis(sp, a, b, 1, 2)
        ax = np.arange(3) - 1.
        V = {(p, q): np.outer(ax ** p, ax ** q) for p in range(3) for q in range(3)}
        for w in range(m.weights.numel()):
            d = m.basisexpansion.get_element_info(w)
            el = [c for c, e in zip(B.coefficients, B) if e['in_irrep_idx'] == d['in_irrep_idx'] and e['out_irrep_idx'] == d['out_irrep_idx'] and e['order'] == d['order'] and e['frequency'] == d['frequency'] and e['inner_idx'] == d['inner_idx']]
            t.check(len(el) == 1, 'description does not identify one operator', n=len(el))
            c = el[0]; n = c.shape[-1] - 1
            f = m.basisexpansion(torch.eye(m.weights.numel())[w]).detach().numpy().astype(float).reshape(b.size, a.size, 3, 3)
            # apply to all monomials of degree <= 2: moments are proportional to the coefficients
            got = np.stack([np.einsum('oixy,xy->oi', f, V[p, q]) / (math.factorial(p) * math.factorial(q)) for p in range(3) for q in range(3) if p + q <= 2], -1)
            want = np.stack([c[..., q] if p + q == n else np.zeros(c.shape[:2]) for p in range(3) for q in range(3) if p + q <= 2], -1)
            lam = (got * want).sum() / (want ** 2).sum()
            t.check(lam > 1e-6, 'filter is not a positive multiple of the operator', lam=lam)
            t.close(got / lam, want, 'filter does not discretise the operator it is described with', 1e-4, weight=w)


def build(ctx):
    S = zoo.spaces(2)
    nm = lambda k: '%d:%s' % (k, S[k].key)
    ctx.cases('operators', range(len(S)), operators, nm)
    ctx.cases('offsets', range(len(S)), offsets, nm)
    ctx.cases('stencils', range(1, 8), stencils)
    ctx.cases('utils', [0], utils)
    ctx.cases('layer', range(len(S)), layer, nm)
    ctx.cases('taps', range(len(S)), taps, nm)
    try:
        from vk import ded_diffops
    except ImportError:
        return
    ded_diffops.build_c10(ctx)
