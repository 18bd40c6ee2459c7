"""C03: irreducible representations."""
from vk import groups as gr, zoo
import numpy as np, math
PROPERTY = 'C03'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the matrix and character functions of every irrep class are executed on symbolic elements (and symbolic frequency / '
               'order); homomorphism, orthogonality, character identities are discharged as exponential-polynomial identities. '
               'Bounded layer: completeness, irreducibility and inequivalence by exact character sums on concrete groups.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3']
ASSUMPTIONS = ['floating point treated as real arithmetic (tolerance 1e-9 in the bounded layer)']
BOUND = 'cyclic orders 1..20,24,32,36,60; dihedral 1..13,15..24; frequencies up to 10 for SO(2)/O(2)'


def expected_names(spec):
    k, N = spec
    if k == 'C': return {'irrep_%d' % i for i in range(N // 2 + 1)}
    if k == 'SO2': return {'irrep_%d' % i for i in range(N + 1)}
    if k == 'D': return {'irrep_0,0'} | {'irrep_1,%d' % i for i in range(N // 2 + 1)} | ({'irrep_0,%d' % (N // 2)} if N % 2 == 0 else set())
    return {'irrep_0,0'} | {'irrep_1,%d' % i for i in range(N + 1)}


def check_rep(t, g, spec, r, E, tol=1e-8):
    S = E if len(E) <= 26 else [E[i] for i in sorted(t.rng(r.name).choice(len(E), 26, replace=False))]
    mats = {}
    for e in E:
        t.at(group=spec, irrep=r.name, e=e)
        m = np.asarray(r(e), dtype=float)
        t.check(m.shape == (r.size, r.size), 'matrix has the wrong shape', shape=m.shape)
        t.close(m @ m.T, np.eye(r.size), 'matrix not orthogonal', tol)
        t.close(float(r.character(e)), float(np.trace(m)), 'character is not the trace', tol)
        mats[e] = m
    t.close(r(g.identity), np.eye(r.size), 'identity not mapped to the identity', tol)
    for a in S:
        t.close(r(g.inverse(a)), mats[a].T, 'inverse not mapped to the inverse', tol)
        for b in S:
            t.at(group=spec, irrep=r.name, a=a, b=b)
            t.close(r(g.combine(a, b)), mats[a] @ mats[b], 'product not mapped to the product of matrices', tol)
    return mats


def irreps(t, spec):
    g = gr.make(spec)
    rng = t.rng()
    names = expected_names(spec)
    got = set(g.irreps.keys())
    if spec[0] in 'CD': t.check(got == names, 'set of irreps', got=got, expected=names)
    else: t.check(got >= names, 'advertised irreps missing', got=got, expected=names)
    E = gr.elements(spec, g, rng)
    I = zoo.irreps_of(g, spec)
    t.check({r.name for r in I} == names and len(I) == len(names), 'Group.irrep returns other irreps', got=[r.name for r in I])
    for r in I:
        t.check(g.irreps[r.name] is r or g.irreps[r.name] == r, 'name does not look up the irrep', name=r.name)
        t.check(r.name in g.representations, 'irrep not listed among the representations', name=r.name)
        t.check(r.group == g and r.irreducible and list(r.irreps) == [r.name], 'irrep flags', name=r.name)
        check_rep(t, g, spec, r, E)
        # declared frequencies describe the matrices
        k = r.attributes['frequency']
        for e in E:
            m = np.asarray(r(e), dtype=float)
            if spec[0] in ('C', 'SO2'): th, f = (e * gr.TAU / spec[1] if spec[0] == 'C' else e), 0
            else: th, f = (e[1] * gr.TAU / spec[1] if spec[0] == 'D' else e[1]), e[0]
            t.at(group=spec, irrep=r.name, e=e)
            if r.size == 2: o = gr.rot(k * th) @ (gr.FL if f else np.eye(2))
            else: o = np.array([[math.cos(k * th) * ((-1) ** (f * r.attributes.get('flip_frequency', 0)))]])
            t.close(m, o, 'irrep is not the one its frequencies describe', 1e-8)
    # trivial representation
    tr = g.trivial_representation
    t.check(tr.size == 1 and tr.is_trivial() and all(np.allclose(tr(e), 1) for e in E), 'trivial representation')
    t.check([r.name for r in I if r.is_trivial()] == [tr.name], 'exactly one irrep is trivial')
    # orthogonality relations: exact averages for finite groups, trigonometric quadrature (exact for these degrees) for continuous ones
    if spec[0] in 'CD': Q = E
    else:
        n = 4 * spec[1] + 5
        A = [i * gr.TAU / n for i in range(n)]
        Q = A if spec[0] == 'SO2' else [(f, a) for f in (0, 1) for a in A]
    ch = np.array([[np.trace(np.asarray(r(e))) for e in Q] for r in I])
    gramm = ch @ ch.T / len(Q)
    exp = np.diag([r.sum_of_squares_constituents for r in I]).astype(float)
    t.at(group=spec)
    t.close(gramm, exp, 'irreps equivalent to each other, reducible, or of another commutant type', 1e-8)
    for r in I:
        # commutant dimension = declared type
        ms = [np.asarray(r(e), dtype=float) for e in Q]
        A = np.concatenate([np.kron(m, np.eye(r.size)) - np.kron(np.eye(r.size), m.T) for m in ms])
        dim = r.size ** 2 - np.linalg.matrix_rank(A, tol=1e-8)
        t.check(dim == r.sum_of_squares_constituents, 'commutant dimension differs from the declared type', irrep=r.name, got=dim)
    if spec[0] in 'CD':
        t.check(sum(r.size ** 2 // r.sum_of_squares_constituents for r in I) == g.order(), 'irreps of the finite group are not complete')


def outside(t, spec):
    """elements of other groups are rejected; frequencies outside the advertised set are rejected"""
    g = gr.make(spec)
    k, N = spec
    bad = {'C': [(N // 2 + 1,), (-1,)], 'SO2': [(-1,)], 'D': [(0, N // 2 + 1), (2, 0), (-1, 0), (1, -1)] + [(0, k) for k in range(1, (N + 1) // 2)], 'O2': [(0, 1), (2, 0), (1, -1)]}[k]
    for b in bad:
        t.at(group=spec, id=b)
        t.raises(lambda: g.irrep(*b), 'irrep that does not exist was built')
    t.check({n for n in g.irreps} >= expected_names(spec), 'a refused request damaged the list of irreps')
    r = list(g.irreps.values())[-1]
    for e in {'C': [N, -1, (0, 0)], 'D': [(0, N), (2, 0), 0], 'SO2': [(0, 0.)], 'O2': [0., (2, 0.)]}[k]:
        t.at(group=spec, e=e)
        t.raises(lambda: r(e), 'irrep evaluated outside the group')


def grow(t, n):
    """raising the maximum frequency adds exactly the advertised irreps"""
    import e2cnn.group as G
    for mk, kind in ((G.so2_group, 'SO2'), (G.o2_group, 'O2')):
        for m in (3, n, n + 5):
            g = mk(m)
            spec = (kind, m)
            t.at(group=spec)
            t.check(set(g.irreps) >= expected_names(spec), 'advertised irreps missing', got=sorted(g.irreps))
            for nme in expected_names(spec):
                t.check(g.irreps[nme].name == nme and nme in g.representations, 'irrep not available', name=nme)
            rng = t.rng(kind, m)
            for r in list(zoo.irreps_of(g, spec))[-2:]:
                check_rep(t, g, spec, r, gr.elements(spec, g, rng))


def build(ctx):
    specs = gr.small_specs(ctx.thorough)
    ctx.cases('irreps', specs, irreps, gr.key)
    ctx.cases('outside', specs, outside, gr.key)
    ctx.cases('grow', [2, 7, 13, 30], grow)
    try:
        from vk import ded_groups
    except ImportError:
        return
    ded_groups.build_c03(ctx)
