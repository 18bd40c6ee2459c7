"""C01: group laws."""
from vk import groups as gr
import itertools, math
PROPERTY = 'C01'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: combine/inverse/equal/is_element/order of the four group classes are executed on symbolic elements of a '
               'symbolic-order group (engine A) and the group laws are discharged as theorems over integers/reals. Bounded layer: '
               'the laws are evaluated exhaustively on concrete groups through the public API.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3']
ASSUMPTIONS = ['floating-point angles are treated as mathematical reals in the deductive layer; cycle_isclose tolerances are idealised to equality modulo the period']
BOUND = 'cyclic orders 1..20,24,32,36,60; dihedral 1..13,15..24; sampled angles for SO(2), O(2)'


def laws(t, spec):
    g = gr.make(spec)
    rng = t.rng()
    E = gr.elements(spec, g, rng)
    finite = spec[0] in 'CD'
    t.check(g.is_element(g.identity), 'identity is not an element')
    t.check(g.order() == (len(E) if finite else -1), 'order', order=g.order())
    if finite:
        L = list(g.elements)
        t.check(len(L) == len(E), 'element list has the wrong length', n=len(L))
        t.check(len(list(g.elements_names)) == len(E) and len(set(g.elements_names)) == len(E), 'element names')
        for a in L: t.check(g.is_element(a), 'listed element is not a member', e=a)
        for i in range(len(L)):
            for j in range(len(L)):
                t.check(bool(g.equal(L[i], L[j])) == (i == j), 'elements listed twice / equality', a=L[i], b=L[j])
        for a in E: t.check(any(g.equal(a, b) for b in L), 'element missing from the list', e=a)
    te = list(g.testing_elements())
    t.check(len(te) > 0 and all(g.is_element(e) for e in te), 'testing elements are not members')
    for a in E:
        t.at(group=spec, a=a)
        t.check(g.is_element(a), 'element rejected')
        t.check(g.equal(a, a), 'equality not reflexive')
        t.check(g.equal(g.combine(a, g.identity), a) and g.equal(g.combine(g.identity, a), a), 'identity is not neutral')
        i = g.inverse(a)
        t.check(g.is_element(i), 'inverse not a member', inv=i)
        t.check(g.equal(g.combine(a, i), g.identity) and g.equal(g.combine(i, a), g.identity), 'inverse does not undo', inv=i)
        t.close(gr.mat(spec, i), gr.mat(spec, a).T, 'inverse is not the inverse isometry', 1e-9)
    for a in E:
        for b in E:
            t.at(group=spec, a=a, b=b)
            c = g.combine(a, b)
            t.check(g.is_element(c), 'composition not a member', c=c)
            t.close(gr.mat(spec, c), gr.mat(spec, a) @ gr.mat(spec, b), 'composition is not the composed isometry', 1e-9)
            t.check(bool(g.equal(a, b)) == bool(g.equal(b, a)), 'equality not symmetric')
            import numpy as np
            same = np.allclose(gr.mat(spec, a), gr.mat(spec, b), atol=1e-8)
            t.check(bool(g.equal(a, b)) == same, 'equality disagrees with the isometries')
    lim = 26
    S = E if len(E) <= lim else [E[i] for i in sorted(rng.choice(len(E), lim, replace=False))]
    for a in S:
        for b in S:
            ab = g.combine(a, b)
            for c in S:
                t.at(group=spec, a=a, b=b, c=c)
                t.check(g.equal(g.combine(ab, c), g.combine(a, g.combine(b, c))), 'composition not associative')


def nonmembers(t, spec):
    g = gr.make(spec)
    N = spec[1]
    bad = {'C': [-1, N, N + 1, 2 * N, 0.5, None, (0, 0), 'e', [0]],
           'D': [(0, N), (1, N), (0, -1), (2, 0), (-1, 0), (0,), (0, 0, 0), 0, None, (0, 0.5), (0.5, 0), [0, 0], 'e'],
           'SO2': [None, (0, 0.), 'x', [0.]],
           'O2': [(2, 0.), (-1, 0.), (0,), (0, 0., 0.), 0., None, 'x', [0, 0.]]}[spec[0]]
    for b in bad:
        t.at(group=spec, value=b)
        t.check(not g.is_element(b), 'value outside the group accepted as a member')


def periodic(t, spec):
    """continuous groups: angles outside [0, 2pi) denote the same element"""
    g = gr.make(spec)
    rng = t.rng()
    A = gr.angles(rng, 10)
    mk = (lambda f, a: a) if spec[0] == 'SO2' else (lambda f, a: (f, a))
    flips = (0,) if spec[0] == 'SO2' else (0, 1)
    shifts = [gr.TAU, -gr.TAU, 3 * gr.TAU, -5 * gr.TAU]
    for f in flips:
        for a in A:
            for s in shifts:
                x, y = mk(f, a), mk(f, a + s)
                t.at(group=spec, x=x, y=y)
                t.check(g.equal(x, y) and g.equal(y, x), 'angles equal modulo a full turn are told apart')
                t.check(g.equal(g.inverse(x), g.inverse(y)), 'inverse does not respect equality')
                for f2 in flips:
                    for b in A[:6]:
                        z = mk(f2, b)
                        t.check(g.equal(g.combine(x, z), g.combine(y, z)) and g.equal(g.combine(z, x), g.combine(z, y)), 'composition does not respect equality', z=z)
            for d in (1e-3, 0.1, 1., math.pi, -1e-3, gr.TAU / 2 + 0.01):
                t.check(not g.equal(mk(f, a), mk(f, a + d)), 'different angles compare equal', a=a, d=d)
        if flips == (0, 1):
            for a in A: t.check(not g.equal((0, a), (1, a)), 'flip ignored by equality', a=a)


def build(ctx):
    specs = gr.small_specs(ctx.thorough)
    ctx.cases('laws', specs, laws, gr.key)
    ctx.cases('nonmembers', specs, nonmembers, gr.key)
    ctx.cases('periodic', [('SO2', 10), ('O2', 10)], periodic, gr.key)
    try:
        from vk import ded_groups
    except ImportError:
        return
    ded_groups.build_c01(ctx)
