"""Contracts on e2cnn.group: group laws (C01), subgroup maps (C02), irreps (C03), restriction of irreps (C05).

The methods of the four group classes are executed by engine A on groups of *symbolic* order N (symbolic elements, frequencies, axes, angles).
Class invariants assumed of an instance (established by the constructors, compared with the constructors' results for concrete orders by `invariants`):
  CyclicGroup(N):   N >= 1, len(elements) = N, identity = 0
  DihedralGroup(N): N >= 1, rotation_order = N, len(elements) = 2N, identity = (0,0), reflection = (1,0)
  SO2(F): identity 0.0, elements None;  O2(F): identity (0,0.0), reflection (1,0.0), elements None, rotation_order -1
  irreps: a dictionary from the name of an irrep to what self.irrep(...) builds for its frequencies"""
import math, re
import numpy as np
from . import sym, groups as gr
from .core import Fail, Undecided
from .sym import S, C, prove, shims, lift, require


def mods():
    import e2cnn.group.group as a, e2cnn.group.groups.cyclicgroup as b, e2cnn.group.groups.dihedralgroup as c, e2cnn.group.groups.so2group as d, e2cnn.group.groups.o2group as e, e2cnn.group.utils as f
    return [a, b, c, d, e, f]


class SymSeq:
    """the element list of a finite group of symbolic order: only its length is known"""
    def __init__(self, n): self.n = n
    def slen(self): return self.n
    def __len__(self): return int(self.n)
    def __iter__(self): raise Undecided('iteration over the elements of a group of symbolic order')


class Irreps(dict):
    """irreps built on demand from their (possibly symbolic) frequencies"""
    def __init__(self, g): super().__init__(); self.g = g

    def __missing__(self, name):
        m = re.fullmatch(r'irrep_(.+)', name)
        if not m: raise KeyError(name)
        ids = []
        for x in m.group(1).split(','):
            y = re.fullmatch(r'<(\d+)>', x)
            ids.append([e for i, e in sym.CUR.toks.values() if i == int(y.group(1))][0] if y else int(x))
        try: return self.g.irrep(*ids)
        except (AssertionError, ValueError): raise KeyError(name)

    def __contains__(self, name): return dict.__contains__(self, name)


def base(cls, name, continuous, abelian):
    from e2cnn.group.group import Group
    g = cls.__new__(cls)
    Group.__init__(g, name, continuous, abelian)
    g._irreps = Irreps(g)
    g._representations = Irreps(g)
    return g


def cyclic(N):
    K = real('CyclicGroup')
    assert N > 0
    g = base(K, 'C%s' % N, False, True)
    g.elements, g.identity = SymSeq(N), 0
    return g


def dihedral(N):
    K = real('DihedralGroup')
    assert N > 0
    g = base(K, 'D%s' % N, False, False)
    g.rotation_order, g.elements, g.identity, g.reflection = N, SymSeq(2 * N), (0, 0), (1, 0)
    return g


def so2(F=None):
    g = base(real('SO2'), 'SO(2)', True, True)
    g._maximum_frequency, g.identity = F, 0.0
    return g


def o2(F=None):
    g = base(real('O2'), 'O(2)', True, False)
    g.rotation_order, g._maximum_frequency, g.identity, g.reflection = -1, F, (0, 0.0), (1, 0.0)
    return g


REAL = {}


def real(n):
    if n not in REAL:
        import e2cnn.group as G
        REAL[n] = getattr(G, n)
    return REAL[n]


def standin(n, make):
    class M(type):
        def __call__(c, *a, **k): return make(*a, **k)
        def __instancecheck__(c, x): return isinstance(x, real(n))
        def __getattr__(c, k): return getattr(real(n), k)
    return M(n, (), {})


def env():
    """names replaced while a contract runs: constructors of the group classes accept symbolic orders"""
    for n in ('CyclicGroup', 'DihedralGroup', 'SO2', 'O2'): real(n)
    return shims(mods(), CyclicGroup=standin('CyclicGroup', cyclic), DihedralGroup=standin('DihedralGroup', dihedral), SO2=standin('SO2', so2), O2=standin('O2', o2))


def elem(c, kind, N, name, flip=None):
    """a symbolic element"""
    if kind == 'C': return c.int(name, 0, N - 1)
    if kind == 'F': return flip
    if kind == 'D': return (flip, c.int(name, 0, N - 1))
    if kind == 'SO2': return c.pi * c.real(name)          # angles are written as real multiples of pi (keeps the arithmetic linear)
    return (flip, c.pi * c.real(name))


def flips(kind): return (0, 1) if kind in ('D', 'O2', 'F') else (0,)


def mk(kind, N=None): return {'C': cyclic, 'D': dihedral, 'SO2': so2, 'O2': o2}[kind](N)


KINDS = ('C', 'D', 'SO2', 'O2')


def order(c, kind): return c.int('N', 1) if kind in 'CD' else None


def spec_of(kind, m): return (kind, int(m['N'])) if kind in 'CD' else (kind, 10)


# ------------------------------------------------------------------ C01
def build_c01(ctx):
    from checks import c01

    def run(t, kind):
        def replay(m):
            if kind in 'CD' and m['N'] > 3000: raise Undecided('model too large to replay')
            if kind in 'CD': c01.laws(t, (kind, int(m['N'])))
            else: c01.laws(t, (kind, 10)); c01.periodic(t, (kind, 10))
        fl = flips(kind)
        for f in fl:
            def unary(c):
                with env():
                    N = order(c, kind); g = mk(kind, N)
                    a = elem(c, kind, N, 'a', f)
                    c.holds(g.is_element(g.identity), 'identity is an element')
                    c.holds(g.is_element(a), 'is_element accepts every element')
                    c.holds(g.equal(a, a), 'equality reflexive')
                    c.holds(g.equal(g.combine(a, g.identity), a), 'right identity')
                    c.holds(g.equal(g.combine(g.identity, a), a), 'left identity')
                    i = g.inverse(a)
                    c.holds(g.is_element(i), 'inverse is an element')
                    c.holds(g.equal(g.combine(a, i), g.identity), 'a * inv(a) = e')
                    c.holds(g.equal(g.combine(i, a), g.identity), 'inv(a) * a = e')
            prove(t, 'unary laws, flip %d' % f, [], unary, replay)

            if kind in 'CD':
                def outside(c):
                    with env():
                        N = order(c, kind); g = mk(kind, N)
                        a = c.int('a')
                        x = a if kind == 'C' else (f, a)
                        r = g.is_element(x)
                        inside = bool(a >= 0) and bool(a < N)
                        c.holds(bool(r) == inside, 'is_element accepts exactly 0 <= a < N')
                prove(t, 'membership, flip %d' % f, [], outside, lambda m: (c01.nonmembers(t, spec_of(kind, m)), replay(m)))
            for f2 in fl:
                def binary(c):
                    with env():
                        N = order(c, kind); g = mk(kind, N)
                        a, b = elem(c, kind, N, 'a', f), elem(c, kind, N, 'b', f2)
                        p = g.combine(a, b)
                        c.holds(g.is_element(p), 'product is an element')
                        # the product is the composed isometry rot(theta) diag(1,-1)^flip
                        A, B, P = iso(kind, N, a), iso(kind, N, b), iso(kind, N, p)
                        c.eq(P, mm(A, B), 'product is the composed isometry')
                        I = iso(kind, N, g.inverse(p))
                        c.eq(mm(I, P), eye2(), 'inverse of the product undoes it')
                        e1, e2 = g.equal(a, b), g.equal(b, a)
                        c.holds(bool(e1) == bool(e2), 'equality symmetric')
                        if e1: c.eq(A, B, 'equal elements are the same isometry')
                        else:
                            # different elements differ as isometries: the difference of the angles is no full turn
                            if f == f2:
                                d = ang(kind, N, a) - ang(kind, N, b)
                                q = d / (2 * c.pi)
                                r = q % 1
                                c.holds(not (r == 0), 'different elements are different isometries')
                            else: c.holds(True, 'a rotation is no reflection')
                prove(t, 'binary laws, flips %d %d' % (f, f2), [], binary, replay)
                for f3 in fl:
                    def assoc(c):
                        with env():
                            N = order(c, kind); g = mk(kind, N)
                            x, y, z = elem(c, kind, N, 'a', f), elem(c, kind, N, 'b', f2), elem(c, kind, N, 'd', f3)
                            c.holds(g.equal(g.combine(g.combine(x, y), z), g.combine(x, g.combine(y, z))), 'associativity')
                    prove(t, 'associativity, flips %d %d %d' % (f, f2, f3), [], assoc, replay)
                if kind in ('SO2', 'O2'):
                    def cong(c):
                        with env():
                            g = mk(kind); k = c.int('k')
                            x, z = elem(c, kind, None, 'a', f), elem(c, kind, None, 'b', f2)
                            y = x + 2 * c.pi * k if kind == 'SO2' else (x[0], x[1] + 2 * c.pi * k)
                            c.holds(g.equal(x, y) and g.equal(y, x), 'angles equal modulo a full turn are the same element')
                            c.holds(g.equal(g.inverse(x), g.inverse(y)), 'inverse respects equality')
                            c.holds(g.equal(g.combine(x, z), g.combine(y, z)), 'left factor respects equality')
                            c.holds(g.equal(g.combine(z, x), g.combine(z, y)), 'right factor respects equality')
                    prove(t, 'congruence, flips %d %d' % (f, f2), [], cong, replay)
    for kind in KINDS: ctx.task('contract laws[%s]' % kind, 'proof')(lambda t, kind=kind: run(t, kind))
    ctx.cases('constructor invariants', list(range(1, 41)), invariants, str)


def invariants(t, N):
    """what the symbolic instances assume of the constructors"""
    K = real('CyclicGroup')
    g = K(N); t.at(N=N)
    t.check(len(g.elements) == N and g.identity == 0 and g.name == 'C%d' % N and not g.continuous, 'cyclic group invariant')
    g = real('DihedralGroup')(N)
    t.check(g.rotation_order == N and len(g.elements) == 2 * N and g.identity == (0, 0) and g.reflection == (1, 0) and not g.continuous, 'dihedral group invariant')
    g = real('SO2')(N)
    t.check(g.elements is None and g.identity == 0. and g.continuous, 'SO2 invariant')
    g = real('O2')(N)
    t.check(g.elements is None and g.identity == (0, 0.) and g.reflection == (1, 0.) and g.continuous, 'O2 invariant')


def ang(kind, N, e):
    pi = S.sym('pi', 'real')
    if kind == 'C': return 2 * pi * lift(e) / N
    if kind == 'SO2': return lift(e)
    if kind == 'D': return 2 * pi * lift(e[1]) / N
    return lift(e[1])


def iso(kind, N, e):
    th = ang(kind, N, e)
    s = -1 if kind in ('D', 'O2') and e[0] else 1
    c, d = th.cos(), th.sin()
    return np.array([[c, -s * d], [d, s * c]], dtype=object)


def mm(a, b): return np.asarray(a, object) @ np.asarray(b, object)


def eye2(n=2):
    r = np.empty((n, n), object); r[...] = 0
    for i in range(n): r[i, i] = 1
    return r


# ------------------------------------------------------------------ C02
# every way of choosing a subgroup: (group kind, subgroup kind).  The identifier is symbolic; orders are written N = m * ratio
SUBS = [('C', 'C'), ('D', 'C'), ('D', 'F'), ('D', 'D'), ('SO2', 'C'), ('O2', 'C'), ('O2', 'F'), ('O2', 'D'), ('O2', 'SO2'), ('O2', 'O2')]


def subgroup(c, kind, sub, part=None):
    """(group, N, identifier, subgroup order, oracle embedding) with symbolic parameters.
    part: 'even' (ratio = 2 s) or 'odd' (ratio = 2 s + 1, m = 2 n) parametrise the orders with N even; 'any' is unrestricted"""
    pi = c.pi
    if kind in 'CD':
        if part == 'odd': m = 2 * c.int('n', 1)
        else: m = c.int('m', 2 if sub == 'D' else 1) if sub != 'F' else 1
        ratio = 2 * c.int('s', 1) if part == 'even' else c.odd('ratio') if part == 'odd' else c.int('ratio', 1)
        N = ratio * m
        g = mk(kind, N)
        if kind == 'C': return g, N, m, m, lambda e: e * ratio
        if sub == 'C': return g, N, (None, m), m, lambda e: (0, e * ratio)
        ax = c.int('axis', 0, ratio - 1)
        if sub == 'F': return g, N, (ax, 1), 2, lambda e: (e, ax * e)
        return g, N, (ax, m), m, lambda e: (e[0], e[1] * ratio + e[0] * ax)
    g = mk(kind, 10)
    if sub in ('C', 'D'): m = c.int('m', 2 if sub == 'D' else 1)
    else: m = 1
    if kind == 'SO2': return g, None, m, m, lambda e: e * 2 * pi / m
    if sub == 'C': return g, None, (None, m), m, lambda e: (0, e * 2 * pi / m)
    if sub == 'SO2': return g, None, (None, -1), None, lambda e: (0, e)
    # axis in [0, 2 pi / m)
    u = c.real('axis', 0, 2)
    ax = u * pi / m
    if sub == 'F': return g, None, (ax, 1), 2, lambda e: (e, ax * e)
    if sub == 'D': return g, None, (ax, m), m, lambda e: (e[0], e[1] * 2 * pi / m + e[0] * ax)
    return g, None, (ax, -1), None, lambda e: (e[0], e[1] + e[0] * ax)


def sub_model(kind, sub, mdl):
    """the concrete group and identifier of a model"""
    if kind in 'CD':
        m = 2 * int(mdl['n']) if 'n' in mdl else int(mdl.get('m', 1)) if sub != 'F' else 1
        N = (2 * int(mdl['s']) if 's' in mdl else int(mdl['ratio'])) * m
        if N > 400: raise Undecided('model too large to replay')
        id = m if kind == 'C' else (None, m) if sub == 'C' else (int(mdl['axis']), m)
        return (kind, N), id
    m = int(mdl.get('m', 1))
    if kind == 'SO2': return (kind, 10), m
    if sub == 'SO2': return (kind, 10), (None, -1)
    if sub == 'C': return (kind, 10), (None, m)
    ax = mdl['axis'] * math.pi / m
    return (kind, 10), (ax, -1 if sub == 'O2' else m)


def build_c02(ctx):
    from checks import c02

    def run(t, kind, sub):
        def replay(m):
            spec, id = sub_model(kind, sub, m)
            old = gr.subgroup_ids
            try:
                gr.subgroup_ids = lambda *a, **k: [id]
                c02.one(t, spec)
            finally: gr.subgroup_ids = old
        sk = {'C': 'C', 'F': 'C', 'D': 'D', 'SO2': 'SO2', 'O2': 'O2'}[sub]
        for f in flips(sub):
            def unary(c):
                with env():
                    g, N, id, m, o = subgroup(c, kind, sub)
                    sg, par, chi = g.subgroup(id)
                    c.holds(isinstance(sg, real({'C': 'CyclicGroup', 'D': 'DihedralGroup', 'SO2': 'SO2', 'O2': 'O2'}[sk])), 'kind of the subgroup')
                    if m is not None: c.eq(sg.order() if sk == 'C' else sg.rotation_order, m, 'order of the subgroup')
                    a = elem(c, sub, m, 'a', f)
                    if kind in 'CD':
                        x = a[1] if isinstance(a, tuple) else a
                        if sub != 'F': c.mulpos(m - 1 - x, c.int('ratio'))
                    p = par(a)
                    c.holds(g.is_element(p), 'embedded element is an element')
                    c.eq(iso(kind, N, p), iso(kind, N, o(a)), 'embedding gives the element the identifier describes')
                    b = chi(p)
                    c.holds(b is not None, 'map back defined on the image')
                    c.holds(sg.is_element(b), 'map back gives an element of the subgroup')
                    c.holds(sg.equal(b, a), 'map back inverts the embedding')
                    if f == 0: c.holds(g.equal(par(sg.identity), g.identity), 'identity goes to identity')
            prove(t, '%s < %s unary, flip %d' % (sub, kind, f), [], unary, replay)
            for f2 in flips(sub):
                def binary(c):
                    with env():
                        g, N, id, m, o = subgroup(c, kind, sub)
                        sg, par, chi = g.subgroup(id)
                        a, b = elem(c, sub, m, 'a', f), elem(c, sub, m, 'b', f2)
                        c.holds(g.equal(par(sg.combine(a, b)), g.combine(par(a), par(b))), 'embedding is a homomorphism')
                        same = bool(sg.equal(a, b))
                        c.holds(bool(g.equal(par(a), par(b))) == same, 'embedding is injective and respects equality')
                prove(t, '%s < %s binary, flips %d %d' % (sub, kind, f, f2), [], binary, replay)
        for f in flips(kind):
            def back(c):
                """map back on an arbitrary element x of the group: defined exactly on the image"""
                with env():
                    g, N, id, m, o = subgroup(c, kind, sub)
                    sg, par, chi = g.subgroup(id)
                    x = elem(c, kind, N, 'x', f)
                    b = chi(x)
                    if b is not None:
                        c.holds(sg.is_element(b), 'map back gives an element of the subgroup')
                        c.holds(g.equal(par(b), x), 'element mapped back is the image of its pre-image')
                    else:
                        fl = flips(sub)
                        for f2 in fl:
                            y = elem(c, sub, m, 'y%d' % f2, f2)
                            if kind in 'CD' and sub != 'F': c.mulpos(m - 1 - (y[1] if isinstance(y, tuple) else y), c.int('ratio'))
                            c.holds(not g.equal(o(y), x), 'elements mapped to nothing are outside the subgroup')
            prove(t, '%s < %s map back, flip %d' % (sub, kind, f), [], back, replay)
    for kind, sub in SUBS: ctx.task('contract subgroup[%s<%s]' % (sub, kind), 'proof')(lambda t, kind=kind, sub=sub: run(t, kind, sub))


# ------------------------------------------------------------------ C03
def freqs(c, kind, N):
    """symbolic identifiers of the irreps of the group"""
    if kind in ('C', 'SO2'):
        k = c.int('k', 0)
        if kind == 'C': c.assume(N - 2 * k)
        return [(k,)]
    return None


def irrep_cases(kind):
    return {'C': ['k'], 'SO2': ['k'], 'D': ['0', 'flip', 'half', '1'], 'O2': ['0', '1']}[kind]


def irrep_id(c, kind, case, N):
    """identifier of an arbitrary irrep of the given family"""
    if kind == 'SO2': return (c.int('k', 0),)
    if kind == 'C':
        k = c.int('k', 0); c.assume(N - 2 * k); return (k,)
    if case == '0': return (0, 0)
    if kind == 'O2': return (1, c.int('k', 0))
    if case == 'flip': return (1, 0)
    if case == 'half': return (0, c.int('h', 1))       # N = 2 h
    k = c.int('k', 0); c.assume(N - 2 * k); return (1, k)


def grp(c, kind, case):
    if kind not in 'CD': return None
    if case == 'half': return 2 * c.int('h', 1)
    return c.int('N', 1)


def expected_matrix(kind, N, id, e):
    """the irrep its frequencies describe (independent of the code): rot(k theta) diag(1,-1)^flip, or (+-1) when the frequency is 0 or N/2"""
    k = id[-1]
    th = k * ang(kind, N, e)
    f = e[0] if kind in ('D', 'O2') else 0
    return th, f


def build_c03(ctx):
    from checks import c03

    def run(t, kind, case):
        def replay(m):
            N = int(m['N']) if 'N' in m else 2 * int(m['h']) if 'h' in m else None
            if N is not None and N > 300: raise Undecided('model too large to replay')
            if N is None:
                k = int(m.get('k', 1)); 
                if k > 60: raise Undecided('model too large to replay')
                c03.irreps(t, (kind, max(3, k)))
            else: c03.irreps(t, (kind, N))
        for f in flips(kind):
            for f2 in flips(kind):
                def laws(c):
                    with env():
                        N = grp(c, kind, case); g = mk(kind, N)
                        id = irrep_id(c, kind, case, N)
                        name = 'irrep_' + ','.join(str(x) for x in id)
                        r = g.irrep(*id)
                        c.holds(r.group is g and r.name == name, 'name and group')
                        c.eq(r.attributes['frequency'], id[-1], 'frequency attribute')
                        if kind in ('D', 'O2'): c.eq(r.attributes['flip_frequency'], id[0], 'flip frequency attribute')
                        a, b = elem(c, kind, N, 'a', f), elem(c, kind, N, 'b', f2)
                        A, B = r(a), r(b)
                        n = r.size
                        c.holds(A.shape == (n, n), 'shape')
                        c.eq(r(g.combine(a, b)), mm(A, B), 'homomorphism')
                        c.eq(mm(A, A.T), eye2(n), 'orthogonal')
                        c.eq(r(g.inverse(a)), np.asarray(A).T, 'inverse')
                        c.eq(r(g.identity), eye2(n), 'identity')
                        c.eq(r.character(a), sum(A[i, i] for i in range(n)), 'character is the trace')
                        # the size, type and matrix the frequencies describe
                        th, fl = expected_matrix(kind, N, id, a)
                        one = bool(id[-1] == 0) or (kind in 'CD' and bool(2 * id[-1] == N))
                        c.holds(n == (1 if one else 2), 'size')
                        c.holds(r.sum_of_squares_constituents == (2 if not one and kind in ('C', 'SO2') else 1), 'type (real or complex)')
                        s = -1 if fl else 1
                        if one: c.eq(A, [[th.cos() * (s if kind in ('D', 'O2') and id[0] else 1)]], 'matrix described by the frequencies')
                        else: c.eq(A, [[th.cos(), -s * th.sin()], [th.sin(), s * th.cos()]], 'matrix described by the frequencies')
                prove(t, 'irrep %s of %s, flips %d %d' % (case, kind, f, f2), [], laws, replay)
        if kind in ('SO2', 'O2'):
            for f in flips(kind):
                def period(c):
                    with env():
                        g = mk(kind); r = g.irrep(*irrep_id(c, kind, case, None)); j = c.int('j')
                        a = elem(c, kind, None, 'a', f)
                        b = a + 2 * c.pi * j if kind == 'SO2' else (f, a[1] + 2 * c.pi * j)
                        c.eq(r(a), r(b), 'equal elements have equal matrices')
                        c.eq(r.character(a), r.character(b), 'equal elements have equal characters')
                prove(t, 'irrep %s of %s period, flip %d' % (case, kind, f), [], period, replay)

    def refuse(t, kind):
        """identifiers that denote no irrep are rejected"""
        def no(c):
            with env():
                N = order(c, kind); g = mk(kind, N)
                k = c.int('k')
                for j in ((None,) if kind in ('C', 'SO2') else (0, 1)):
                    ok = bool(k >= 0) and (kind not in 'CD' or bool(2 * k <= N))
                    if j == 0: ok = bool(k == 0) or (ok and kind == 'D' and bool(2 * k == N))
                    try: g.irrep(*((k,) if j is None else (j, k))); r = True
                    except (AssertionError, ValueError): r = False
                    c.holds(r == ok, 'irreps exist exactly for the advertised frequencies')
        prove(t, 'refused identifiers of %s' % kind, [], no, lambda m: (c03.outside(t, spec_of(kind, m)), c03.irreps(t, spec_of(kind, m))))
    for kind in KINDS:
        for case in irrep_cases(kind): ctx.task('contract irreps[%s %s]' % (kind, case), 'proof')(lambda t, kind=kind, case=case: run(t, kind, case))
        ctx.task('contract refused irreps[%s]' % kind, 'proof')(lambda t, kind=kind: refuse(t, kind))


# ------------------------------------------------------------------ C05
def build_c05(ctx):
    from checks import c05

    @ctx.task('contract parity lemma', 'proof')
    def lemma(t):
        z = sym.z3(); m, r, s, n = z.Ints('m r s n'); sv = z.Solver(); sv.set('timeout', 20000)
        # m * r even -> r even or m even: instance with the parities as bits
        a, b, u, v = z.Ints('a b u v')
        sv.add(m == 2 * u + a, r == 2 * v + b, a >= 0, a <= 1, b >= 0, b <= 1, (a * b) % 2 == 0, z.Not(z.Or(a == 0, b == 0)))
        # (2u+a)(2v+b) = 2(2uv + ub + va) + ab, so m r is even iff a b is
        if sv.check() == z.unsat: t.proved('parity case split is exhaustive', [], 'z3')
        else: t.undischarged('parity case split is exhaustive', 'solver')

    def run(t, kind, sub, case):
        def replay(m):
            spec, id = sub_model(kind, sub, m)
            old = gr.subgroup_ids
            try:
                gr.subgroup_ids = lambda *a, **k: [id]
                c05.restrict(t, spec if spec[0] in 'CD' else (spec[0], max(9, min(40, int(m.get('k', 0))))))
            finally: gr.subgroup_ids = old
        # irreps of the finite groups: frequency below N/2, or N even and frequency N/2 (N = m * ratio is even iff ratio = 2 s, or ratio = 2 s + 1 and m = 2 n)
        finite = kind in 'CD'
        if not finite or case in ('0', 'flip'): parts = ['any']
        elif case == 'half': parts = ['even', 'odd']
        else: parts = ['any', 'even', 'odd']
        if sub == 'F': parts = [p for p in parts if p != 'odd']
        for f in flips(sub):
            for part in parts:
                def restr(c):
                    with env():
                        g, N, id, m, o = subgroup(c, kind, sub, part)
                        if finite and part != 'any':
                            h = S.sym('s', 'int') * (1 if sub == 'F' else m) if part == 'even' else c.int('ratio') * c.int('n')
                            rid = (h,) if kind == 'C' else (0 if case == 'half' else 1, h)
                        else:
                            rid = irrep_id(c, kind, case, N)
                            if finite and case not in ('0', 'flip'): c.assume(N - 2 * rid[-1], '>')
                        irr = g.irrep(*rid)
                        sg, par, chi = g.subgroup(id)
                        cob, names = g._restrict_irrep(irr.name, id)
                        irs = [sg.irreps[n] for n in names]
                        c.holds(sum(r.size for r in irs) == irr.size, 'the irreps fill the size')
                        cob = np.asarray(cob, object)
                        c.holds(cob.shape == (irr.size, irr.size), 'shape of the change of basis')
                        c.eq(mm(cob, cob.T), eye2(irr.size), 'change of basis orthogonal')
                        a = elem(c, sub, m, 'a', f)
                        D = eye2(irr.size); p = 0
                        for r in irs:
                            D[p:p + r.size, p:p + r.size] = r(a); p += r.size
                        c.eq(irr.representation(par(a)), mm(mm(cob, D), cob.T), 'restricted irrep = change of basis of the direct sum')
                prove(t, 'restrict irrep %s of %s to %s, %s, flip %d' % (case, kind, sub, part, f), [], restr, replay)
    for kind, sub in SUBS:
        for case in irrep_cases(kind):
            ctx.task('contract restrict[%s %s to %s]' % (kind, case, sub), 'proof')(lambda t, kind=kind, sub=sub, case=case: run(t, kind, sub, case))
