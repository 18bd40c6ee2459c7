"""C04: constructed representations."""
from vk import groups as gr, zoo
import numpy as np, math
PROPERTY = 'C04'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: directsum, change_basis, disentangle, Representation.__call__/character, quotient and induced representations, the decomposition of tables of matrices and the induction SO(2)->O(2) are executed on free symbolic irrep matrices of an arbitrary group and '
               'symbolic invertible changes of basis. Bounded layer: regular, quotient, induced and decomposed representations evaluated on every element of concrete groups against their definition.')
TRUSTED = ['numpy/scipy linear algebra', 'compute_change_of_basis in the contract of the decomposition (checked by the bounded layer)']
ASSUMPTIONS = ['floating point treated as real arithmetic (tolerance 1e-6)']
BOUND = 'groups C1..C12,C16, D1..D8, SO(2), O(2); all subgroups; all irreps of the subgroup'
TOL = 1e-6


def consistent(t, g, spec, r, E, orthogonal=True):
    """recorded irreps + change of basis reconstruct the matrices; homomorphism; size; character; flags"""
    t.at(group=spec, repr=r.name)
    t.check(r.group == g, 'group')
    t.check(all(n in g.irreps for n in r.irreps), 'recorded irreps are not irreps of the group', irreps=r.irreps)
    t.check(r.size == sum(g.irreps[n].size for n in r.irreps) == r.change_of_basis.shape[0], 'size', size=r.size)
    C, Ci = np.asarray(r.change_of_basis), np.asarray(r.change_of_basis_inv)
    t.close(C @ Ci, np.eye(r.size), 'change of basis inverse', TOL)
    if orthogonal: t.close(C @ C.T, np.eye(r.size), 'change of basis not orthogonal', TOL)
    ms = {}
    for e in E:
        t.at(group=spec, repr=r.name, e=e)
        m = np.asarray(r(e), dtype=float)
        t.close(m, C @ zoo.rho([g.irreps[n] for n in r.irreps], e) @ Ci, 'irreps and change of basis do not reconstruct the matrix', TOL)
        t.close(float(r.character(e)), float(np.trace(m)), 'character is not the trace', TOL)
        if orthogonal: t.close(m @ m.T, np.eye(r.size), 'matrix not orthogonal', TOL)
        ms[e] = m
    t.close(r(g.identity), np.eye(r.size), 'identity', TOL)
    S = E if len(E) <= 12 else [E[i] for i in sorted(t.rng(r.name).choice(len(E), 12, replace=False))]
    for a in S:
        for b in S:
            t.at(group=spec, repr=r.name, a=a, b=b)
            t.close(r(g.combine(a, b)), ms[a] @ ms[b], 'not a homomorphism', TOL)
    triv = r.size == 1 and all(np.allclose(ms[e], 1) for e in E)
    std = np.allclose(C, np.eye(r.size))
    t.check(not r.is_trivial() or triv, 'is_trivial disagrees with the matrices')
    t.check(not (triv and std) or r.is_trivial(), 'trivial representation not flagged trivial')
    fixed = np.mean([np.trace(ms[e]) for e in E]) > 0.5 if spec[0] in 'CD' else None
    ct = any(g.irreps[n].is_trivial() for n in r.irreps)
    t.check(bool(r.contains_trivial()) == ct, 'contains_trivial disagrees with the recorded irreps')
    if fixed is not None: t.check(bool(r.contains_trivial()) == bool(fixed), 'contains_trivial disagrees with the matrices')
    if r.irreducible: t.check(len(r.irreps) == 1, 'irreducible flag on a reducible representation')
    if len(r.irreps) == 1 and np.allclose(C, np.eye(r.size)): t.check(r.irreducible, 'irrep not flagged irreducible')
    return ms


def elems(spec, g, rng): return gr.elements(spec, g, rng, 3)


def sums(t, spec):
    import e2cnn.group as G
    g = gr.make(spec); rng = t.rng(); E = elems(spec, g, rng)
    R = zoo.reps(g, spec, rng, 1, 8)
    for trial in range(10 if not t.thorough else 40):
        n = int(rng.randint(1, 5))
        rs = zoo.mixed(R, rng, n)
        Q = [None, zoo.ortho, zoo.invertible][trial % 3]
        size = sum(r.size for r in rs)
        Q = None if Q is None else Q(size, rng)
        Qc = None if Q is None else Q.copy()
        s = G.directsum(rs, change_of_basis=Q, name=zoo.uid('ds'))
        t.check(Q is None or np.array_equal(Q, Qc), 'caller matrix modified')
        ms = consistent(t, g, spec, s, E, orthogonal=trial % 3 != 2)
        Qm = np.eye(size) if Q is None else Q
        for e in E:
            t.at(group=spec, summands=[r.name for r in rs], e=e)
            t.close(ms[e], Qm @ zoo.rho(rs, e) @ np.linalg.inv(Qm), 'direct sum is not the (conjugated) block diagonal', TOL)
        common = set.intersection(*[set(r.supported_nonlinearities) for r in rs])
        t.check(s.supported_nonlinearities == common if Q is None else s.supported_nonlinearities <= common & ({'norm', 'gated'} if trial % 3 == 1 else {'gated'}), 'nonlinearities of a sum are the common ones its basis allows')
        # change basis again
        A = zoo.invertible(size, rng); Ac = A.copy()
        c = G.change_basis(s, A, zoo.uid('cb'), supported_nonlinearities=['norm'])
        t.check(np.array_equal(A, Ac), 'caller matrix modified')
        ms2 = consistent(t, g, spec, c, E, orthogonal=False)
        for e in E: t.close(ms2[e], A @ ms[e] @ np.linalg.inv(A), 'change of basis is not the conjugation', TOL)
        t.check(c.supported_nonlinearities == {'norm'}, 'requested nonlinearities')
        t.check(G.change_basis(s, A, zoo.uid('cb')).supported_nonlinearities == set(), 'a changed basis supports no nonlinearity by default')
    a, b = R[0], R[-1]
    s = a + b
    for e in E: t.close(s(e), zoo.rho([a, b], e), '+ is not the direct sum', TOL)


def disent(t, spec):
    import e2cnn.group as G
    g = gr.make(spec); rng = t.rng(); E = elems(spec, g, rng)
    R = [r for r in zoo.reps(g, spec, rng, 1, 8)]
    for trial in range(10 if not t.thorough else 40):
        rs = zoo.mixed(R, rng, int(rng.randint(1, 5)))
        size = sum(r.size for r in rs)
        P = np.eye(size)[rng.permutation(size)] if trial % 2 else None
        s = G.directsum(rs, change_of_basis=P, name=zoo.uid('de'))
        C, blocks = G.disentangle(s)
        t.at(group=spec, fields=[r.name for r in rs], perm=trial % 2)
        t.close(C @ C.T, np.eye(size), 'disentangling matrix is not orthogonal', TOL)
        t.check(np.array_equal(np.sort(C, axis=1)[:, -1], np.ones(size)) and C.sum() == size, 'disentangling matrix is not a permutation')
        t.check(sum(b.size for b in blocks) == size, 'blocks do not cover the representation')
        t.check(sorted(n for b in blocks for n in b.irreps) == sorted(s.irreps), 'irreps lost')
        t.check(len(blocks) >= len(rs), 'independent summands not separated', n=len(blocks))
        for e in E:
            t.close(C @ s(e) @ C.T, zoo.rho(blocks, e), 'recomposing the blocks does not give the representation back', TOL)
        for b in blocks:
            consistent(t, g, spec, b, E)
            t.check(set(b.supported_nonlinearities) == set(s.supported_nonlinearities), 'nonlinearities')


def regular(t, spec):
    g = gr.make(spec); E = gr.elements(spec, g)
    r = g.regular_representation
    ms = consistent(t, g, spec, r, E)
    L = list(g.elements)
    t.check(r.size == len(L), 'size of the regular representation')
    for e in E:
        t.at(group=spec, e=e)
        o = np.zeros((len(L), len(L)))
        for i, x in enumerate(L):
            o[[j for j, y in enumerate(L) if g.equal(y, g.combine(e, x))][0], i] = 1
        t.close(ms[e], o, 'regular representation is not the permutation action on the elements', TOL)
    from collections import Counter
    c = Counter(r.irreps)
    for n, i in g.irreps.items():
        t.check(c[n] == i.size // i.sum_of_squares_constituents, 'multiplicity in the regular representation', irrep=n)


def induced_def(t, g, spec, id, psi, r, E):
    sg, par, chi = g.subgroup(id)
    H = [par(h) for h in sg.elements]
    n = g.order() // sg.order()
    d = psi.size
    t.at(group=spec, subgroup=id, inducing=psi.name)
    t.check(r.size == n * d, 'size of the induced representation', size=r.size)
    ms = consistent(t, g, spec, r, E)
    # first block restricted to the subgroup is the inducing representation; blocks permute as the cosets
    for h in sg.elements:
        t.at(group=spec, subgroup=id, inducing=psi.name, h=h)
        t.close(ms[par(h)][:d, :d], psi(h), 'first block restricted to the subgroup is not the inducing representation', TOL)
        t.close(ms[par(h)][d:, :d], 0 * ms[par(h)][d:, :d], 'subgroup moves the first block', TOL)
    # coset of each block, read off the action on the first block
    cos = {}
    for e in E:
        col = ms[e][:, :d].reshape(n, d, d)
        nz = [j for j in range(n) if np.abs(col[j]).max() > 1e-6]
        t.check(len(nz) == 1, 'first block is spread over several blocks', e=e)
        cos[e] = nz[0]
        # e = r_j h -> block is rho(r_j-part); all elements of a left coset land in the same block
    for a in E:
        for h in H:
            t.check(cos[a] == cos[g.combine(a, h)], 'blocks are not the left cosets', a=a)
    t.check(len(set(cos.values())) == n, 'cosets missing')
    for e in E:
        B = ms[e].reshape(n, d, n, d).transpose(0, 2, 1, 3)
        nzp = (np.abs(B).max(axis=(2, 3)) > 1e-6)
        t.check((nzp.sum(0) == 1).all() and (nzp.sum(1) == 1).all(), 'induced matrix is not a block permutation', e=e)
        for a in E:
            j = cos[a]
            t.check(nzp[cos[g.combine(e, a)], j], 'blocks are not permuted as the cosets', e=e, a=a)
    # Mackey / Frobenius: character of the induced representation
    for e in E:
        s = 0.
        for x in E:
            y = g.combine(g.combine(g.inverse(x), e), x)
            h = chi(y)
            if h is not None: s += float(np.trace(psi(h)))
        t.at(group=spec, subgroup=id, inducing=psi.name, e=e)
        t.close(float(np.trace(ms[e])), s / sg.order(), 'character of the induced representation', TOL)
    return ms


def induced(t, spec):
    g = gr.make(spec); E = gr.elements(spec, g)
    for id in gr.subgroup_ids(spec):
        sg, par, chi = g.subgroup(id)
        t.at(group=spec, subgroup=id)
        q = g.quotient_representation(id)
        ms = induced_def(t, g, spec, id, sg.trivial_representation, q, E)
        for e in E: t.check(np.allclose(ms[e], np.round(ms[e]), atol=1e-6) and (ms[e] > -1e-6).all(), 'quotient representation is not a permutation', e=e)
        t.check(g.quotient_representation(id) == q, 'quotient representation differs on the second request')
        for psi in sg.irreps.values():
            t.at(group=spec, subgroup=id, inducing=psi.name)
            r = g.induced_representation(id, psi)
            induced_def(t, g, spec, id, psi, r, E)
        t.raises(lambda: g.induced_representation(id, sg.regular_representation), 'induction from a reducible representation accepted') if sg.order() > 1 else None


def induced_o2(t, k):
    g = gr.make(('O2', 6)); rng = t.rng()
    spec = ('O2', 6); E = gr.elements(spec, g, rng)
    sg, par, chi = g.subgroup((None, -1))
    psi = sg.irrep(k)
    r = g.induced_representation((None, -1), psi)
    d = psi.size
    ms = consistent(t, g, spec, r, E)
    t.check(r.size == 2 * d, 'size')
    for e in E:
        t.at(k=k, e=e)
        a = e[1]
        B = ms[e]
        if e[0] == 0:
            t.close(B[:d, :d], psi(a), 'first block restricted to SO(2) is not the inducing representation', TOL)
            t.close(B[d:, d:], psi(-a), 'second block is not the conjugate', TOL)
            t.close(B[:d, d:], 0 * B[:d, d:], 'rotations mix the cosets', TOL)
        else:
            t.close(B[:d, :d], 0 * B[:d, :d], 'reflections do not swap the cosets', TOL)
            t.close(B[d:, d:], 0 * B[:d, :d], 'reflections do not swap the cosets', TOL)
    if k == 0:
        q = g.quotient_representation((None, -1))
        for e in E: t.close(q(e), ms[e], 'quotient by SO(2) differs from inducing its trivial representation', TOL)
    t.raises(lambda: g.induced_representation((None, 4), g.subgroup((None, 4))[0].irrep(0)), 'infinite-dimensional induction accepted')


def decomposed(t, spec):
    """build_from_discrete_group_representation, build_quotient_representation: tables of matrices of a finite group are decomposed and recomposed"""
    from e2cnn.group import representation as R
    g = gr.make(spec); rng = t.rng(); E = gr.elements(spec, g); ir = list(g.irreps.values())
    tables = []
    for trial in range(3 if not t.thorough else 8):
        rs = [ir[i] for i in rng.randint(0, len(ir), int(rng.randint(1, 4)))]
        if trial == 0: rs = [ir[-1], ir[0], ir[-1]]
        n = sum(r.size for r in rs)
        Q = zoo.ortho(n, rng) if trial else np.eye(n)[rng.permutation(n)]
        tables.append((sorted(r.name for r in rs), {e: Q @ zoo.rho(rs, e) @ Q.T for e in g.elements}))
    if g.order() <= 8: tables.append((None, {e: np.asarray(g.regular_representation(e), dtype=float) for e in g.elements}))
    for names, tab in tables:
        before = {e: m.copy() for e, m in tab.items()}
        r = R.build_from_discrete_group_representation(tab, zoo.uid('dec'), g, ['norm'])
        t.at(group=spec, repr=names or 'regular')
        ms = consistent(t, g, spec, r, E)
        for e in g.elements:
            t.close(ms[e], before[e], 'decomposed representation does not give the matrices back', TOL)
            t.check(np.array_equal(tab[e], before[e]), 'caller matrices modified')
        t.check(names is None or sorted(r.irreps) == names, 'decomposition lists other irreps', irreps=r.irreps)
        t.check(set(r.supported_nonlinearities) == {'norm'}, 'requested nonlinearities')
    bad = dict(tables[0][1]); bad.pop(g.elements[-1])
    if bad: t.raises(lambda: R.build_from_discrete_group_representation(bad, zoo.uid('dec'), g, []), 'table without all elements accepted')


def quotient_builder(t, spec):
    from e2cnn.group import representation as R
    g = gr.make(spec); E = gr.elements(spec, g)
    for id in gr.subgroup_ids(spec):
        ir, C, Ci = R.build_quotient_representation(g, id)
        t.at(group=spec, subgroup=id)
        q = g.quotient_representation(id)
        for e in E: t.close(C @ zoo.rho(ir, e) @ Ci, q(e), 'build_quotient_representation is not the quotient representation', TOL)


def build(ctx):
    th = ctx.thorough
    fin = [('C', n) for n in list(range(1, 13)) + [16] + ([15, 18, 20, 24] if th else [])] + [('D', n) for n in list(range(1, 9)) + ([9, 10, 12] if th else [])]
    alls = fin + [('SO2', 6), ('O2', 6)]
    ctx.cases('sums', alls, sums, gr.key)
    ctx.cases('disentangle', alls, disent, gr.key)
    ctx.cases('regular', fin + [('C', 24), ('D', 12)], lambda t, s: regular(t, s), lambda s: gr.key(s) + ('+' if s in (('C', 24), ('D', 12)) else ''))
    ctx.cases('induced', fin, induced, gr.key)
    ctx.cases('decomposed', [('C', n) for n in (1, 2, 3, 4, 5, 6, 8, 12)] + [('D', n) for n in (1, 2, 3, 4, 6)], decomposed, gr.key)
    ctx.cases('quotient builder', [('C', 6), ('D', 4), ('D', 3)], quotient_builder, gr.key)
    ctx.cases('inducedO2', range(0, 7), induced_o2)
    try:
        from vk import ded_reps
    except ImportError:
        return
    ded_reps.build_c04(ctx)
    ded_reps.build_induction(ctx)
    ded_reps.build_decomposition(ctx)
