"""C02: subgroup embeddings."""
from vk import groups as gr
import numpy as np, math
PROPERTY = 'C02'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: parent/child maps of Group.subgroup executed on symbolic elements and orders. Bounded layer: every subgroup '
               'identifier of concrete groups, exhaustively, against the isometries the identifier describes.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3']
ASSUMPTIONS = ['angles are treated as mathematical reals in the deductive layer']
BOUND = 'finite orders as in C01; SO(2)/O(2) subgroups of order 1..24 and sampled axes'


def matsub(spec, id, e):
    s = gr.sub_spec(spec, id)
    return None


def one(t, spec):
    g = gr.make(spec)
    rng = t.rng()
    for id in gr.subgroup_ids(spec, t.thorough):
        t.at(group=spec, id=id)
        sg, par, chi = g.subgroup(id)
        s = gr.sub_spec(spec, id)
        expect = {'C': 'CyclicGroup', 'F': 'CyclicGroup', 'D': 'DihedralGroup', 'SO2': 'SO2', 'O2': 'O2'}[s[0]]
        t.check(type(sg).__name__ == expect, 'wrong kind of subgroup', got=type(sg).__name__)
        n = {'C': s[1], 'F': 2, 'D': 2 * s[1], 'SO2': -1, 'O2': -1}[s[0]]
        t.check(sg.order() == n, 'subgroup has the wrong order', got=sg.order(), expected=n)
        H = gr.sub_elements(spec, id, g, rng)
        img = []
        for e in H:
            t.at(group=spec, id=id, e=e)
            p = par(e)
            t.check(g.is_element(p), 'embedded element is not a member of the group', p=p)
            o = gr.embed(spec, id, e)
            t.close(gr.mat(spec, p), gr.mat(spec, o), 'embedding does not give the element the identifier describes', 1e-9, got=p, expected=o)
            back = chi(p)
            t.check(back is not None, 'member mapped to nothing', p=p)
            t.check(sg.is_element(back), 'map back does not return a subgroup element', back=back)
            t.check(sg.equal(back, e), 'map back does not return the element', back=back)
            img.append(p)
        for i, a in enumerate(H):
            for j, b in enumerate(H):
                t.at(group=spec, id=id, a=a, b=b)
                t.check(g.equal(par(sg.combine(a, b)), g.combine(img[i], img[j])), 'embedding is not a homomorphism')
                t.check(bool(g.equal(img[i], img[j])) == bool(sg.equal(a, b)), 'embedding is not injective')
        t.check(g.equal(par(sg.identity), g.identity), 'identity not embedded as the identity')
        # non-members, and members written differently (angles shifted by full turns)
        G = gr.elements(spec, g, rng)
        for x in G:
            t.at(group=spec, id=id, x=x)
            c = chi(x)
            member = contains(spec, id, x, img, g)
            t.check((c is not None) == member, 'map back is defined on the wrong elements', got=c, member=member)
            if c is not None:
                t.check(sg.is_element(c), 'map back does not return a subgroup element', back=c)
                t.close(gr.mat(spec, par(c)), gr.mat(spec, x), 'map back picks another element', 1e-7, got=c)
        if spec[0] in ('SO2', 'O2'):
            for e, p in zip(H, img):
                for sh in (gr.TAU, -gr.TAU, 2 * gr.TAU):
                    q = p + sh if spec[0] == 'SO2' else (p[0], p[1] + sh)
                    t.at(group=spec, id=id, q=q)
                    c = chi(q)
                    t.check(c is not None and sg.is_element(c) and sg.equal(c, e), 'same element written with another angle is mapped elsewhere', got=c, expected=e)


def contains(spec, id, x, img, g):
    s = gr.sub_spec(spec, id)
    if s[0] == 'O2': return True
    if s[0] == 'SO2': return x[0] == 0
    M = gr.mat(spec, x)
    els = [gr.embed(spec, id, e) for e in gr.sub_elements(spec, id)]
    return any(np.allclose(M, gr.mat(spec, e), atol=1e-9) for e in els)


def nested(t, spec):
    """embedding through an intermediate subgroup = embedding directly"""
    g = gr.make(spec)
    for id in gr.subgroup_ids(spec):
        sg, par, chi = g.subgroup(id)
        s = gr.sub_spec(spec, id)
        if s[0] == 'F': s = ('C', 2)
        for id2 in gr.subgroup_ids(s)[:14]:
            if gr.sub_spec(s, id2)[0] in ('SO2', 'O2') and s[0] not in ('O2',): continue
            sg2, par2, chi2 = sg.subgroup(id2)
            for e in gr.sub_elements(s, id2, sg2)[:30]:
                t.at(group=spec, id=id, id2=id2, e=e)
                x = par(par2(e))
                t.check(g.is_element(x), 'nested embedding leaves the group', x=x)
                o = gr.embed(spec, id, gr.embed(s, id2, e))
                t.close(gr.mat(spec, x), gr.mat(spec, o), 'nested embedding disagrees', 1e-8)
                c = chi(x)
                t.check(c is not None, 'nested embedding is not in the intermediate subgroup', x=x)
                c2 = chi2(c)
                t.check(c2 is not None and sg2.equal(c2, e), 'nested map back disagrees', got=c2)


def invalid(t, spec):
    """identifiers that denote no subgroup are rejected"""
    g = gr.make(spec)
    if spec[0] == 'C':
        bad = [d for d in range(1, 2 * spec[1] + 2) if spec[1] % d] + ['x', (None, 1)]
    else:
        N = spec[1]
        bad = [(None, d) for d in range(1, N + 3) if N % d] + [(a, d) for d in gr.divisors(N) for a in (N // d, -1, N // d + 1)] + [1, (0,), (0, 1, 1), (0.5, 1), (0, 0)]
    for b in bad:
        t.at(group=spec, id=b)
        t.raises(lambda: g.subgroup(b), 'identifier that denotes no subgroup accepted')


def build(ctx):
    specs = gr.small_specs(ctx.thorough)
    ctx.cases('embed', specs, one, gr.key)
    ctx.cases('nested', [s for s in specs if s[1] in (1, 2, 3, 4, 6, 8, 10, 12, 24) or s[0] in ('SO2', 'O2')], nested, gr.key)
    ctx.cases('invalid', [s for s in specs if s[0] in 'CD'], invalid, gr.key)
    try:
        from vk import ded_groups
    except ImportError:
        return
    ded_groups.build_c02(ctx)
