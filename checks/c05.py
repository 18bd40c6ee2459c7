"""C05: restriction."""
from vk import groups as gr, zoo
import numpy as np, math
PROPERTY = 'C05'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: _restrict_irrep of each group executed with symbolic frequency/order/axis; the identity restricted(h) = original(embed h) is '
               'discharged symbolically per path. Bounded layer: all irreps and composite representations of concrete groups.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3', 'numpy/scipy linear algebra']
ASSUMPTIONS = ['floating point treated as real arithmetic (tolerance 1e-7)']
BOUND = 'finite orders 1..16 (cyclic), 1..12 (dihedral), frequencies to 9 and listed subgroup orders for SO(2)/O(2)'
TOL = 1e-7


def check_restricted(t, spec, g, id, r, q, rng):
    sg, par, chi = g.subgroup(id)
    t.at(group=spec, id=id, repr=r.name)
    t.check(q.group == sg, 'restricted representation belongs to another group', got=q.group.name)
    t.check(q.size == r.size, 'size changed', got=q.size)
    t.check(all(n in sg.irreps for n in q.irreps), 'recorded irreps are not irreps of the subgroup', irreps=q.irreps)
    t.check(sum(sg.irreps[n].size for n in q.irreps) == q.size, 'recorded irreps do not add up to the size', irreps=q.irreps)
    for h in gr.sub_elements(spec, id, sg, rng):
        t.at(group=spec, id=id, repr=r.name, h=h)
        m = np.asarray(r(par(h)), dtype=float)
        t.close(q(h), m, 'restricted matrix differs from the original at the embedded element', TOL)
        D = zoo.rho([sg.irreps[n] for n in q.irreps], h)
        t.close(np.asarray(q.change_of_basis) @ D @ np.asarray(q.change_of_basis_inv), m, 'recorded irreps and change of basis do not reconstruct', TOL)
        t.close(float(q.character(h)), float(np.trace(m)), 'character', TOL)
    if q.is_trivial(): t.check('pointwise' in q.supported_nonlinearities, 'a trivial restriction supports pointwise nonlinearities')


def restrict(t, spec):
    g = gr.make(spec); rng = t.rng()
    R = zoo.irreps_of(g, spec) + [r for r in zoo.reps(g, spec, rng, 1, 10, orthogonal=False) if not r.irreducible]
    for id in gr.subgroup_ids(spec, t.thorough):
        for r in R:
            t.at(group=spec, id=id, repr=r.name)
            q = g.restrict_representation(id, r)
            check_restricted(t, spec, g, id, r, q, rng)
            q2 = r.restrict(id)
            t.check(q2 == q, 'Representation.restrict differs from Group.restrict_representation')
            t.check(set(r.supported_nonlinearities) <= set(q.supported_nonlinearities), 'nonlinearities lost')


def two(t, spec):
    """restricting in two steps agrees with restricting directly (same matrices at the same elements)"""
    g = gr.make(spec); rng = t.rng()
    R = zoo.irreps_of(g, spec, 5) + zoo.reps(g, spec, rng, 0, 8)[-2:]
    for id in gr.subgroup_ids(spec)[:16]:
        sg, par, chi = g.subgroup(id)
        s = gr.sub_spec(spec, id)
        if s[0] == 'F': s = ('C', 2)
        for r in R:
            q = r.restrict(id)
            for id2 in gr.subgroup_ids(s)[:10]:
                t.at(group=spec, id=id, id2=id2, repr=r.name)
                q2 = q.restrict(id2)
                sg2, par2, _ = sg.subgroup(id2)
                t.check(q2.group == sg2, 'group after two restrictions')
                for h in gr.sub_elements(s, id2, sg2)[:12]:
                    t.at(group=spec, id=id, id2=id2, repr=r.name, h=h)
                    o = gr.embed(spec, id, gr.embed(s, id2, h))
                    if spec[0] == 'O2': o = (int(o[0]), float(o[1]))
                    if spec[0] == 'SO2': o = float(o)
                    t.close(q2(h), r(o), 'two-step restriction disagrees with the original representation', TOL)


def grown(t, n):
    """irreps beyond the frequency the group was first built with"""
    import e2cnn.group as G
    for mk, kind in ((G.so2_group, 'SO2'), (G.o2_group, 'O2')):
        g = mk(3)
        for id in gr.subgroup_ids((kind, 3))[:8]: g.subgroup(id)
        g = mk(n)
        spec = (kind, n)
        for id in gr.subgroup_ids(spec)[:8]:
            for r in zoo.irreps_of(g, spec)[-2:]:
                t.at(group=spec, id=id, repr=r.name)
                check_restricted(t, spec, g, id, r, r.restrict(id), t.rng())


def build(ctx):
    th = ctx.thorough
    specs = [('C', n) for n in list(range(1, 17)) + [20, 24] + ([30, 36] if th else [])] + [('D', n) for n in list(range(1, 11)) + [12] + ([15, 16, 18, 20] if th else [])] + [('SO2', 9), ('O2', 9)]
    ctx.cases('restrict', specs, restrict, gr.key)
    ctx.cases('two', [s for s in specs if s[1] in (2, 3, 4, 6, 8, 9, 12)], two, gr.key)
    ctx.cases('grown', [12, 25], grown)
    try:
        from vk import ded_groups
    except ImportError:
        return
    ded_groups.build_c05(ctx)
    from vk import ded_reps
    ded_reps.build_c05(ctx)
