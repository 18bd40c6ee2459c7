"""Contracts on e2cnn.group.representation (C04) and Group.restrict_representation (C05).

The functions are executed by engine A for an *arbitrary* group: the group is a stand-in that knows nothing but its irreps, and the matrix of an irrep at an element is a matrix of
free symbols.  A change of basis is an arbitrary invertible matrix: every invertible matrix is P L D U with P a permutation, L, U unit triangular, D diagonal, so running
the contract for every P with symbolic L, D, U covers all of GL(n) (for the listed sizes) and keeps the inverse a polynomial in the symbols and 1/d.
Assumed contracts: numpy/scipy linear algebra (inv returns the inverse: computed exactly as adjugate / determinant; block_diag, matmul, connected_components run as they are)."""
import math, itertools, contextlib, zlib
import numpy as np
from . import sym, groups as gr, ded_groups as dg
from .core import Fail, Undecided
from .sym import S, shims, lift, NP
from .ded_groups import mm, eye2


def mods():
    import e2cnn.group.group as a, e2cnn.group.representation as b, e2cnn.group.irrep as c
    return [a, b, c]


def det(a):
    n = a.shape[0]
    if n == 1: return a[0, 0]
    tot = 0
    for j in range(n):
        x = a[0, j]
        if not isinstance(x, S) and x == 0 or isinstance(x, S) and not x.t: continue
        tot = tot + (-1) ** j * x * det(np.delete(np.delete(a, 0, 0), j, 1))
    return tot


def inverse(a):
    """contract of scipy.linalg.inv / numpy.linalg.inv"""
    a = np.asarray(a)
    if a.dtype != object: return np.linalg.inv(a)
    n = a.shape[0]
    # permutations of block diagonals: invert block by block
    d = lift(det(a)).n()
    if len(d.t) != 1: raise Undecided('inverse of a matrix whose determinant is not a unit of the symbols')
    di = d.inv()
    r = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            r[i, j] = ((-1) ** (i + j) * (det(m) if n > 1 else 1)) * di
    return r


def block_diag(blocks, format=None, dtype=None):
    b = [np.asarray(x.todense() if hasattr(x, 'todense') else x) for x in blocks]
    n, m = sum(x.shape[0] for x in b), sum(x.shape[1] for x in b)
    r = np.empty((n, m), object); r[...] = 0
    i = j = 0
    for x in b:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x; i += x.shape[0]; j += x.shape[1]
    return r


class _Lin:
    def __getattr__(self, k):
        import scipy.linalg
        return getattr(scipy.linalg, k)
    inv = staticmethod(inverse)


class _Sparse:
    def __getattr__(self, k):
        import scipy.sparse
        return getattr(scipy.sparse, k)
    block_diag = staticmethod(block_diag)


class _Sp:
    linalg, sparse = _Lin(), _Sparse()
    def __getattr__(self, k):
        import scipy
        return getattr(scipy, k)


class LooseNp(type(NP)):
    """allclose that is not decided by normal form is explored both ways without remembering the outcome (over-approximation)"""
    def allclose(self, a, b, **k):
        a, b = np.broadcast_arrays(np.asarray(a, object), np.asarray(b, object))
        ds = [(lift(x) - lift(y)).n() for x, y in zip(a.flat, b.flat)]
        if all(not d.t for d in ds): return True
        if any(d.value() is not None and d.t for d in ds): return False
        return sym.CUR.fresh('choice', 'int') == 0


def components(graph, *a, **k):
    """scipy's connected_components on a graph of decided truth values"""
    from scipy.sparse.csgraph import connected_components as cc
    return cc(np.vectorize(bool, otypes=[bool])(np.asarray(graph)), *a, **k)


@contextlib.contextmanager
def env(concrete=False, loose=False):
    if concrete:
        yield; return
    kw = dict(np=LooseNp()) if loose else {}
    with dg.env(), shims(mods(), sp=_Sp(), sparse=_Sparse(), linalg=_Lin(), connected_components=components, **kw): yield


# ---------------------------------------------------------------- an arbitrary group
def any_group():
    """an arbitrary group: the class Group itself, of which only irreps by name, representations by name, which irrep is trivial and membership are known"""
    from e2cnn.group import Group
    def unknown(self, *a, **k): raise Undecided('something of an arbitrary group that the contract does not fix')
    class AnyGroup(Group):
        def __init__(self):
            self._irreps, self._representations, self._subgroups, self.name = {}, {}, {}, 'G'
            self.continuous, self.abelian, self.elements, self.identity = True, False, None, 'e'
        trivial_representation = property(lambda self: self.irreps['one'])
        def is_element(self, e): return True
        def __eq__(self, o): return self is o
        __hash__ = object.__hash__
        combine = inverse = equal = subgroup = irrep = testing_elements = _restrict_irrep = unknown
    AnyGroup.__abstractmethods__ = frozenset()
    return AnyGroup


class Conc:
    """the same contract on numbers, with the real numerics: used to replay a counter-model"""
    concrete = True

    def __init__(self, model): self.m = dict(model or {})

    def real(self, name, lo=None, hi=None):
        if name not in self.m: self.m[name] = (zlib.crc32(name.encode()) % 1000) / 400. - 1.2
        return float(self.m[name])

    def assume(self, e, op='>='):
        if not sym.rel(e, op): raise sym.Infeasible()

    def eq(self, a, b, name):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape or not np.allclose(a, b, atol=1e-6, rtol=1e-6): raise Fail('%s: %s instead of %s' % (name, a.tolist(), b.tolist()), dict(values={k: v for k, v in self.m.items() if k != 'pi'}))

    def holds(self, c, name):
        if not c: raise Fail('%s: false' % name, dict(values={k: v for k, v in self.m.items() if k != 'pi'}))

    def zholds(self, c, name): self.holds(c, name)


def mat(c, name, n, m=None):
    m = n if m is None else m
    r = np.empty((n, m), object if not getattr(c, 'concrete', 0) else float)
    for i in range(n):
        for j in range(m): r[i, j] = c.real('%s_%d%d' % (name, i, j))
    return r


def invertible(c, name, n, perm):
    """(A, A^-1): A = P L D U"""
    conc = getattr(c, 'concrete', 0)
    z = (lambda: np.eye(n)) if conc else (lambda: eye2(n))
    L, U, Li, Ui, D, Di, P = z(), z(), z(), z(), z(), z(), z() * 0
    for i in range(n):
        d = c.real('%s_d%d' % (name, i)); c.assume(d, '!=')
        D[i, i] = d; Di[i, i] = 1 / d if conc else d.inv()
        P[perm[i], i] = 1
        for j in range(i):
            L[i, j] = c.real('%s_l%d%d' % (name, i, j)); U[j, i] = c.real('%s_u%d%d' % (name, j, i))
    I = z()
    # inverses of the unit triangular factors: I - N + N^2 - ...
    def uinv(T):
        N = T - I; r, p = I, I
        for k in range(1, n): p = mm2(p, -N); r = r + p
        return r
    A = mm2(mm2(mm2(P, L), D), U)
    return A, mm2(mm2(mm2(uinv(U), Di), uinv(L)), P.T)


def mm2(a, b): return np.asarray(a) @ np.asarray(b)


def blk(ms):
    r = block_diag(ms)
    return r if any(np.asarray(x).dtype == object for x in ms) else r.astype(float)


class World:
    """an arbitrary group with irreps of the given sizes; matrices at the elements 'a', 'b' are free symbols"""

    def __init__(self, c, irreps):
        import e2cnn.group as G
        self.c, self.g = c, any_group()()
        self.D = {}
        for n, s in irreps.items():
            def rho(e, n=n, s=s):
                if n == 'one': return np.eye(1) if getattr(self.c, 'concrete', 0) else eye2(1)
                if (n, e) not in self.D: self.D[n, e] = mat(self.c, 'D_%s_%s' % (n, e), s)
                return self.D[n, e]
            self.g.irreps[n] = G.IrreducibleRepresentation(self.g, n, rho, s, 1, ['norm', 'gated', 'pointwise'] if n == 'one' else ['norm', 'gated'])

    def diag(self, names, e): return blk([self.g.irreps[n].representation(e) for n in names])


def rep(c, w, names, tag, perm, give_inv=True, nonlin=('norm', 'gated', 'pointwise')):
    from e2cnn.group import Representation
    n = sum(w.g.irreps[x].size for x in names)
    A, Ai = invertible(c, tag, n, perm)
    kw = dict(change_of_basis_inv=Ai.copy()) if give_inv else {}
    return Representation(w.g, tag, list(names), A.copy(), list(nonlin), **kw), A, Ai


SIZES = {'one': 1, 'p': 1, 'q': 1, 'u': 2, 'v': 2, 'w': 3}


def perms(n, few=False):
    ps = list(itertools.permutations(range(n)))
    if few and len(ps) > 4: ps = [ps[0], ps[-1], ps[len(ps) // 2], ps[1]]
    return ps


def eqr(c, a, b, name):
    """equal up to the rounding of floating-point constants of the code: trigonometric polynomials whose coefficients differ by less than 1e-12"""
    if getattr(c, 'concrete', 0): return c.eq(a, b, name)
    a, b = np.asarray(a, object), np.asarray(b, object)
    if a.shape == b.shape:
        r = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            d = (lift(a[i]) - lift(b[i])).n()
            r[i] = S({k: v for k, v in d.t.items() if k[1] or abs(v[0]) > 1e-12 or abs(v[1]) > 1e-12})
        a, b = r, 0 * r
    c.eq(a, b, name)


def decided(c, flag, claim, name):
    """flag (computed by the code) holds exactly when the equations claim = [(x, y), ...] hold"""
    if flag:
        for x, y in claim: c.eq(x, y, name + ' (true)')
    elif getattr(c, 'concrete', 0):
        c.holds(not all(abs(x - y) < 1e-12 for x, y in claim), name + ' (false)')
    else:
        z = sym.z3(); cs = []
        for x, y in claim:
            d = (lift(x) - lift(y)).n()
            if not d.t: continue
            cs.append(sym.cleared(d) == 0)
        c.zholds(z.Not(z.And(*cs)) if cs else z.BoolVal(False), name + ' (false)')


def prove(t, name, contract, loose=False, **k):
    def replay(model):
        # badly scaled models are replaced by well-scaled values: tolerances of the real numerics must not decide
        if any(v != 0 and not 1e-3 < abs(v) < 1e3 for v in (model or {}).values()): model = {}
        try:
            with env(True): contract(Conc(model))
        except (Fail, Undecided, sym.Infeasible) as e:
            if isinstance(e, sym.Infeasible): return
            raise
        except Exception as e:
            from .core import repo_fault
            if repo_fault(e): raise Fail('%s: the code raises %r' % (name, e), dict(values=str(model)[:400]))
            raise
    def sc(c):
        with env(loose=loose): contract(c)
    sym.prove(t, name, [], sc, replay, strict=False, **k)


def build_c04(ctx):
    LAY = [['one'], ['p'], ['u'], ['one', 'p'], ['p', 'p'], ['u', 'one'], ['one', 'u'], ['p', 'one', 'q'], ['w'], ['u', 'u'], ['one', 'u', 'p'], ['q', 'p', 'q', 'one']]

    def construct(t, names):
        n = sum(SIZES[x] for x in names)
        for perm in (perms(n) if n < 4 else [(0, 1, 2, 3), (2, 0, 3, 1)]):
            for inv in (True, False):
                def con(c):
                    w = World(c, SIZES)
                    r, A, Ai = rep(c, w, names, 'r', perm, inv)
                    for e in ('a', 'b'):
                        M = r(e)
                        c.eq(M, mm2(mm2(A, w.diag(names, e)), Ai), 'value = change of basis of the irreps')
                        c.eq(r.character(e), np.trace(np.asarray(M)), 'character = trace')
                    c.eq(r.change_of_basis, A, 'recorded change of basis'); c.eq(r.change_of_basis_inv, Ai, 'recorded inverse')
                    c.holds(r.size == n and list(r.irreps) == list(names) and r.group is w.g and r.name == 'r', 'recorded size, irreps, group')
                    c.holds(bool(r.contains_trivial()) == ('one' in names), 'contains_trivial')
                    c.eq(mm2(r.change_of_basis, r.change_of_basis_inv), eye2(n), 'the recorded inverse is the inverse')
                    # products: the matrices of a representation multiply as those of its irreps
                    if n < 3: P = blk([mm2(w.g.irreps[x].representation('a'), w.g.irreps[x].representation('b')) for x in names])
                    if n < 3: c.eq(mm2(r('a'), r('b')), mm2(mm2(A, P), Ai), 'products of matrices')
                    I = eye2(n)
                    cl = [(A[i, j], I[i, j]) for i in range(n) for j in range(n)]
                    if len(names) > 1: c.holds(not r.irreducible and not r.is_trivial(), 'a sum is not irreducible')
                    else:
                        decided(c, bool(r.irreducible), cl, 'irreducible iff one irrep in the standard basis')
                        c.holds(bool(r.is_trivial()) == (bool(r.irreducible) and names == ['one']), 'is_trivial')
                prove(t, 'Representation of %s, pivots %s, inverse %s' % ('+'.join(names), perm, 'given' if inv else 'computed'), con)
    for names in LAY:
        ctx.task('contract Representation[%s]' % '+'.join(names), 'proof')(lambda t, names=names: construct(t, names))

    # ---- representation given by stored matrices, characters given by a table or a function
    def stored(t):
        from e2cnn.group import Representation
        def con(c):
            w = World(c, SIZES); w.g.elements = ['a', 'b']
            M = {e: mat(c, 'M_' + e, 2) for e in 'ab'}
            ch = {e: c.real('x_' + e) for e in 'ab'}
            A, Ai = invertible(c, 'r', 2, (0, 1))
            r = Representation(w.g, 'r', ['u'], A, ['norm'], representation=dict(M), character=dict(ch), change_of_basis_inv=Ai)
            s = Representation(w.g, 's', ['u'], A, ['norm'], representation=lambda e: M[e], character=lambda e: ch[e], change_of_basis_inv=Ai)
            for q in (r, s):
                for e in 'ab':
                    c.eq(q(e), M[e], 'stored matrices'); c.eq(q.character(e), ch[e], 'stored characters')
            for bad in (dict(representation={'a': M['a']}), dict(character={'a': 1.}), dict(representation=3), dict(character=3)):
                try: Representation(w.g, 'z', ['u'], A, ['norm'], change_of_basis_inv=Ai, **bad); c.holds(False, 'incomplete tables are refused')
                except (AssertionError, ValueError): c.holds(True, 'incomplete tables are refused')
        prove(t, 'stored matrices and characters', con)
    ctx.task('contract Representation[stored]', 'proof')(stored)

    # ---- direct sums
    def sums(t, parts, withQ):
        from e2cnn.group import directsum
        n = sum(SIZES[x] for p in parts for x in p)
        qperms = (perms(n) if n < 3 else [(0, 1, 2), (2, 0, 1)]) if withQ else [None]
        k = 0
        for qp in qperms:
            # the pivots of the summands vary with the pivot of the outer matrix
            pps = [perms(sum(SIZES[x] for x in p)) for p in parts]
            for off in range(max(len(p) for p in pps) if not withQ else 2 if n < 3 else 1):
                pp = [p[(off + i) % len(p)] for i, p in enumerate(pps)]
                def con(c):
                    w = World(c, SIZES)
                    rs, As = [], []
                    for i, p in enumerate(parts):
                        nl = ('norm', 'gated', 'pointwise') if i % 2 == 0 else ('norm', 'pointwise')
                        r, A, Ai = rep(c, w, p, 'r%d' % i, pp[i], nonlin=nl); rs.append(r); As.append((A, Ai))
                    before = [(list(r.irreps), r.change_of_basis.copy(), r.change_of_basis_inv.copy(), set(r.supported_nonlinearities), r.name) for r in rs]
                    if withQ:
                        Q, Qi = invertible(c, 'Q', n, qp); Q0 = Q.copy()
                        s = directsum(list(rs), change_of_basis=Q, name='sum')
                        c.eq(Q, Q0, 'argument unchanged')
                    else:
                        Q = Qi = eye2(n) if not getattr(c, 'concrete', 0) else np.eye(n)
                        s = directsum(list(rs))
                    for e in 'ab': c.eq(s(e), mm2(mm2(Q, blk([r(e) for r in rs])), Qi), 'value = block diagonal, conjugated')
                    c.holds(list(s.irreps) == [x for p in parts for x in p] and s.size == n, 'irreps in order')
                    c.eq(s.change_of_basis, mm2(Q, blk([A for A, _ in As])), 'recorded change of basis')
                    c.eq(s.change_of_basis_inv, mm2(blk([Ai for _, Ai in As]), Qi), 'recorded inverse')
                    com = set.intersection(*[set(x[3]) for x in before])
                    c.holds(s.supported_nonlinearities == com if not withQ else set(s.supported_nonlinearities) <= com & {'norm', 'gated'}, 'nonlinearities are those all summands and the basis allow')
                    if withQ and n < 3 and 'norm' in s.supported_nonlinearities: c.eq(mm2(Q, Q.T), eye2(n) if not getattr(c, 'concrete', 0) else np.eye(n), 'norms are kept only by orthogonal matrices')
                    for r, b in zip(rs, before):
                        c.holds(list(r.irreps) == b[0] and set(r.supported_nonlinearities) == b[3] and r.name == b[4], 'operands unchanged')
                        c.eq(r.change_of_basis, b[1], 'operands unchanged'); c.eq(r.change_of_basis_inv, b[2], 'operands unchanged')
                    if not withQ and len(rs) == 2:
                        q = rs[0] + rs[1]
                        for e in 'ab': c.eq(q(e), s(e), '+ is the direct sum')
                prove(t, 'directsum of %s%s, pivots %s %s' % (parts, ' in an arbitrary basis' if withQ else '', qp, pp), con, maxpaths=200, loose=withQ and n > 2)
    P = [[['p']], [['one'], ['p']], [['p', 'q'], ['one']], [['u'], ['u']], [['u'], ['one'], ['p']], [['p'], ['p'], ['p']], [['one', 'u'], ['p', 'q']], [['w'], ['u']], [['p', 'one'], ['p', 'one']]]
    for parts in P:
        for q in (False, True):
            n = sum(SIZES[x] for p in parts for x in p)
            if q and n > 3: continue
            ctx.task('contract directsum[%s%s]' % (','.join('+'.join(p) for p in parts), ' Q' if q else ''), 'proof')(lambda t, parts=parts, q=q: sums(t, parts, q))

    # ---- change of basis
    def change(t, names):
        from e2cnn.group import change_basis
        n = sum(SIZES[x] for x in names)
        for p1 in perms(n):
            for p2 in (perms(n) if n < 3 else [perms(n)[(perms(n).index(p1) * 2 + 3) % 6]]):
                def con(c):
                    w = World(c, SIZES)
                    r, A, Ai = rep(c, w, names, 'r', p1)
                    Q, Qi = invertible(c, 'Q', n, p2); Q0 = Q.copy()
                    for sn in (None, ['norm']):
                        s = change_basis(r, Q, 'new%s' % sn, sn) if sn else change_basis(r, Q, 'new')
                        for e in 'ab': c.eq(s(e), mm2(mm2(Q, r(e)), Qi), 'value = conjugated')
                        c.eq(s.change_of_basis, mm2(Q, A), 'recorded change of basis'); c.eq(s.change_of_basis_inv, mm2(Ai, Qi), 'recorded inverse')
                        c.holds(list(s.irreps) == list(names) and s.size == n and set(s.supported_nonlinearities) == set(sn or []), 'irreps, size, requested nonlinearities')
                    c.eq(Q, Q0, 'argument unchanged'); c.eq(r.change_of_basis, A, 'operand unchanged')
                prove(t, 'change_basis of %s, pivots %s %s' % ('+'.join(names), p1, p2), con, loose=True)
    for names in (['p'], ['one', 'p'], ['u'], ['p', 'one', 'q'], ['u', 'p']):
        ctx.task('contract change_basis[%s]' % '+'.join(names), 'proof')(lambda t, names=names: change(t, names))

    # ---- disentangling
    def disent(t, blocks, order, rows):
        """irreps grouped in blocks (each block in an arbitrary invertible basis), the irreps listed in `order`, the rows permuted by `rows`"""
        from e2cnn.group import Representation, disentangle
        flat = [(b, x) for b, names in enumerate(blocks) for x in names]
        sizes = [SIZES[x] for _, x in flat]; pos = np.cumsum([0] + sizes); n = pos[-1]
        cols = [i for o in order for i in range(pos[o], pos[o + 1])]
        names = [flat[o][1] for o in order]
        for bp in itertools.product(*[perms(sum(SIZES[x] for x in b)) for b in blocks]):
            def con(c):
                w = World(c, SIZES)
                conc = getattr(c, 'concrete', 0)
                inv = [invertible(c, 'B%d' % i, sum(SIZES[x] for x in b), bp[i]) for i, b in enumerate(blocks)]
                A = blk([a for a, _ in inv])[np.ix_(rows, cols)]; Ai = blk([a for _, a in inv])[np.ix_(cols, rows)]
                r = Representation(w.g, 'r', list(names), A.copy(), ['norm'], change_of_basis_inv=Ai.copy())
                C, rs = disentangle(r)
                C = np.asarray(C)
                one = [[int(bool(x == 1)) for x in row] for row in C]; nz = [[int(not bool(x == 0)) for x in row] for row in C]
                c.holds(one == nz and all(sum(q) == 1 for q in one) and all(sum(q) == 1 for q in zip(*one)), 'the disentangling matrix is a permutation')
                c.holds(sorted(x for q in rs for x in q.irreps) == sorted(names) and sum(q.size for q in rs) == n, 'irreps are distributed over the blocks')
                c.holds(len(rs) >= len(blocks), 'independent blocks are separated')
                for e in 'ab': c.eq(mm2(mm2(C, r(e)), C.T), blk([q(e) for q in rs]), 'recomposing the blocks gives the representation')
                for q in rs:
                    c.holds(set(q.supported_nonlinearities) == {'norm'} and q.size == sum(SIZES[x] for x in q.irreps), 'blocks keep nonlinearities and sizes')
                    if not conc: c.eq(mm2(q.change_of_basis, q.change_of_basis_inv), eye2(q.size), 'recorded inverse of a block')
                c.eq(r.change_of_basis, A, 'operand unchanged')
            prove(t, 'disentangle %s listed %s rows %s pivots %s' % (blocks, order, rows, bp), con, maxpaths=700)
    for blocks, order, rows in (([['p']], (0,), (0,)), ([['p'], ['one']], (0, 1), (1, 0)), ([['p'], ['p']], (1, 0), (0, 1)), ([['p', 'q']], (0, 1), (0, 1)), ([['u'], ['one']], (1, 0), (1, 2, 0)), ([['u'], ['p']], (0, 1), (2, 0, 1)),
                                ([['p', 'one'], ['q']], (0, 2, 1), (2, 0, 1)), ([['p', 'q'], ['p', 'one']], (2, 0, 3, 1), (3, 0, 2, 1)), ([['u'], ['u']], (1, 0), (2, 0, 3, 1)), ([['p'], ['q'], ['u']], (2, 0, 1), (1, 3, 0, 2))):
        ctx.task('contract disentangle[%s %s %s]' % (blocks, order, rows), 'proof')(lambda t, a=blocks, b=order, d=rows: disent(t, a, b, d))

    # ---- induction from SO(2) to O(2): symbolic frequency and angle
    def induced(t, case):
        def con(c):
            conc = getattr(c, 'concrete', 0)
            if conc:
                import e2cnn.group as G
                k = int(c.m.get('k', 1)) if case else 0
                g = G.o2_group(max(k, 1))
                sg, _, _ = g.subgroup((None, -1)); psi = sg.irrep(k)
                r = g.induced_representation((None, -1), psi); rho = r
                ang = float(c.m.get('a', .37)) * math.pi
            else:
                g = dg.o2(); k = c.int('k', 1) if case else 0
                sg, _, _ = g.subgroup((None, -1)); psi = sg.irrep(k)
                from e2cnn.group import Representation
                irreps, A, Ai = g._induced_from_irrep((None, -1), psi)
                ang = c.pi * c.real('a')
                eqr(c, mm2(A, Ai), eye2(A.shape[0]), 'change of basis invertible')
                rho = lambda e: mm2(mm2(A, blk([i.representation(e) for i in irreps])), Ai)
            d = psi.size; I = np.eye(d) if conc else eye2(d)
            for f in (0, 1):
                M = np.asarray(rho((f, ang)))
                c.holds(M.shape == (2 * d, 2 * d), 'size')
                B = [[M[i * d:(i + 1) * d, j * d:(j + 1) * d] for j in (0, 1)] for i in (0, 1)]
                # cosets {rotations}, {reflections}: representatives 1 and the reflection s;  s r s = r^-1
                if f == 0:
                    eqr(c, B[0][0], psi.representation(ang), 'rotations: first block is the inducing representation'); eqr(c, B[1][1], psi.representation(-ang), 'rotations: second block is its conjugate')
                    eqr(c, B[0][1], 0 * I, 'rotations keep the cosets'); eqr(c, B[1][0], 0 * I, 'rotations keep the cosets')
                else:
                    # (1, a) = r_a s:  1 -> s with r_a s = s r_-a,   s -> 1 with r_a
                    eqr(c, B[1][0], psi.representation(-ang), 'reflections: first coset to second'); eqr(c, B[0][1], psi.representation(ang), 'reflections: second coset to first')
                    eqr(c, B[0][0], 0 * I, 'reflections swap the cosets'); eqr(c, B[1][1], 0 * I, 'reflections swap the cosets')
        prove(t, 'O2 induced from SO2 irrep %s' % ('k' if case else 0), con)
    for case in (0, 1): ctx.task('contract induced O2[%d]' % case, 'proof')(lambda t, case=case: induced(t, case))


def induced_flags(nl, size):
    """non-linearities of the representation induced from one of the given size that supports nl: those acting on each copy alike, and the ones of the induced fields for the innermost copies"""
    out = set()
    for x in ('pointwise', 'concatenated', 'gated', 'norm'):
        if x in nl: out.add(x)
    for x in ('gated', 'norm'):
        if x in nl: out.add(next((y for y in nl if y.startswith('induced_' + x)), 'induced_%s_%d' % (x, size)))
    if 'gate' in nl or 'induced_gate' in nl: out.add('induced_gate')
    return out


def build_induction(ctx):
    """Group.quotient_representation and Group.induced_representation for an arbitrary group, through the contract of _induced_from_irrep (an arbitrary decomposition determined by subgroup and
    representation): every request gets the representation with its own irreps and basis, whatever was asked before, and the subgroup's representation is left alone"""
    FL = [('norm', 'gated', 'pointwise', 'gate'), ('norm', 'gated'), ('concatenated', 'norm', 'induced_norm_3', 'gated', 'induced_gated_3', 'induced_gate'), ('pointwise',), ()]
    def run(t, fl):
        def con(c):
            import e2cnn.group as G
            w = World(c, SIZES)
            subs = {i: World(c, {'one': 1, 's': 1, 'z': 2}) for i in ('i', 'j')}
            for i, x in subs.items(): x.g.name = 'H' + i
            DEC = {('i', 'one'): ['one', 'p'], ('j', 'one'): ['u'], ('i', 's'): ['q', 'p'], ('i', 'z'): ['one', 'u'], ('j', 'z'): ['w']}
            basis = {k: invertible(c, 'B%s%s' % k, sum(SIZES[x] for x in v), tuple(reversed(range(sum(SIZES[x] for x in v))))) for k, v in DEC.items()}
            asked = []
            class Gr(type(w.g)):
                def subgroup(self, id): return subs[id].g, lambda h: ('in', h), lambda e: None
                def _induced_from_irrep(self, id, r):
                    asked.append((id, r)); k = (id, r.name)
                    return [self.irreps[x] for x in DEC[k]], basis[k][0].copy(), basis[k][1].copy()
            w.g.__class__ = Gr
            for x in subs.values():
                for n, r in x.g.irreps.items():
                    if n != 'one': r.supported_nonlinearities = set(fl)
            def expect(r, id, name, nl, what):
                k = (id, name)
                c.holds(r.group is w.g and list(r.irreps) == DEC[k] and r.size == sum(SIZES[x] for x in DEC[k]), what + ': group, irreps, size')
                for e in 'ab': c.eq(r(e), mm2(mm2(basis[k][0], w.diag(DEC[k], e)), basis[k][1]), what + ': matrices')
                c.holds(set(r.supported_nonlinearities) == nl, what + ': non-linearities %s' % sorted(r.supported_nonlinearities))
            T = induced_flags(subs['i'].g.irreps['one'].supported_nonlinearities, 1)
            req = [('q', 'i', 'one'), ('q', 'j', 'one'), ('n', 'i', 's'), ('n', 'i', 'z'), ('n', 'j', 'z'), ('n', 'i', 'one')]
            for k, i, n in req + req[::-1]:
                if k == 'q': expect(w.g.quotient_representation(i), i, n, T, 'quotient')
                else:
                    src = subs[i].g.irreps[n]
                    expect(w.g.induced_representation(i, src), i, n, T if n == 'one' else induced_flags(set(fl), src.size), 'induced')
                    c.holds(n == 'one' or set(src.supported_nonlinearities) == set(fl), 'induced: the inducing representation is unchanged')
            c.holds(all(r is subs[i].g.irreps[r.name] for i, r in asked), 'the decomposition is asked for this representation of this subgroup')
        prove(t, 'quotient and induced representations %s' % (fl,), con)
    for fl in FL: ctx.task('contract.induction %s' % ','.join(fl), 'proof')(lambda t, fl=fl: run(t, fl))


def finite_tables():
    """finite groups by integer matrices of their real irreps: name -> (elements, inverse, {irrep: (size, number of squares, {element: matrix})})"""
    I = lambda *r: np.array(r)
    def generated(gens, words):
        """matrices of all elements, elements = words in the generators"""
        return {w: (np.linalg.multi_dot([np.eye(len(gens[0]), dtype=int)] + [gens['ab'.index(x)] for x in w] + [np.eye(len(gens[0]), dtype=int)])).astype(int) for w in words}
    def table(words, ir):
        M = {n: (len(g[0]), k, generated(g, words)) for n, (k, g) in ir.items()}
        full = {w: np.concatenate([M[n][2][w].ravel() for n in sorted(M)]) for w in words}
        inv = {}
        for w in words:
            v = [u for u in words if all((M[n][2][w] @ M[n][2][u] == np.eye(M[n][0])).all() for n in M)]
            assert len(v) == 1; inv[w] = v[0]
        assert len({tuple(x) for x in full.values()}) == len(words)
        return words, inv, M
    o = [[1]]; m = [[-1]]
    A = lambda *x: [np.array(i) for i in x]
    r3, s3 = [[0, -1], [1, -1]], [[0, 1], [1, 0]]
    r4 = [[0, -1], [1, 0]]; s4 = [[1, 0], [0, -1]]
    qi = [[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 0, -1], [0, 0, 1, 0]]; qj = [[0, 0, -1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, -1, 0, 0]]
    return {'C2': table(['', 'a'], {'one': (1, A(o, o)), 's': (1, A(m, o))}),
            'C3': table(['', 'a', 'aa'], {'one': (1, A(o, o)), 'r': (2, A(r3, np.eye(2)))}),
            'C4': table(['', 'a', 'aa', 'aaa'], {'one': (1, A(o, o)), 's': (1, A(m, o)), 'r': (2, A(r4, np.eye(2)))}),
            'D3': table(['', 'a', 'aa', 'b', 'ab', 'aab'], {'one': (1, A(o, o)), 's': (1, A(o, m)), 'r': (1, A(r3, s3))}),
            'D4': table(['', 'a', 'aa', 'aaa', 'b', 'ab', 'aab', 'aaab'], {'one': (1, A(o, o)), 's': (1, A(o, m)), 't': (1, A(m, o)), 'st': (1, A(m, m)), 'r': (1, A(r4, s4))}),
            'Q8': table(['', 'a', 'aa', 'aaa', 'b', 'ab', 'aab', 'aaab'], {'one': (1, A(o, o)), 's': (1, A(o, m)), 't': (1, A(m, o)), 'st': (1, A(m, m)), 'q': (4, A(qi, qj))})}


def orthogonal(tab):
    """the same irrep in a basis where it is orthogonal"""
    S_ = sum(np.array(m, float).T @ np.array(m, float) for m in tab.values()) / len(tab)
    L = np.linalg.cholesky(S_).T
    return {e: L @ np.array(m, float) @ np.linalg.inv(L) for e, m in tab.items()}


def build_decomposition(ctx):
    """build_from_discrete_group_representation / decompose_representation: a table of matrices in an arbitrary basis (irreps of all three types) is recognised as what it is; the search for the
    intertwiner (compute_change_of_basis) by contract: an invertible B with  table(e) = B diag(irreps, repeated in the order asked for) B^-1"""
    TAB = finite_tables()
    def run(t, name, mult, rot):
        elements, inv, M0 = TAB[name]
        names = [n for n, k in mult for _ in range(k)]; names = names[rot:] + names[:rot]
        n = sum(M0[x][0] for x in names)
        perm = tuple((i + rot) % n for i in range(n))
        def con(c):
            import e2cnn.group as G, e2cnn.group.representation as R
            conc = getattr(c, 'concrete', 0)
            base = any_group()
            class Finite(base):
                def inverse(self, e): return inv[e]
                def order(self): return len(elements)
            Finite.__abstractmethods__ = frozenset()
            g = Finite(); g.elements, g.identity, g.continuous = list(elements), '', False
            # the replay on the real numerics uses orthogonal matrices: the search is for an orthogonal intertwiner
            M = {x: (size, k, orthogonal(tab)) for x, (size, k, tab) in TAB[name][2].items()} if conc else TAB[name][2]
            num = (lambda a: np.array(a, float)) if conc else (lambda a: eye2(1)[0, 0] * 0 + np.array(a, object))
            for x, (size, k, tab) in M.items():
                g.irreps[x] = G.IrreducibleRepresentation(g, x, (lambda e, tab=tab: num(tab[e])), size, k, ['norm'], character=(lambda e, tab=tab: round(float(np.trace(tab[e])))))
            A, Ai = invertible(c, 'A', n, perm)
            if conc: A = np.linalg.qr(A)[0]; Ai = A.T
            table = {e: mm2(mm2(A, blk([num(M[x][2][e]) for x in names])), Ai) for e in elements}
            keep = {e: m.copy() for e, m in table.items()}
            asked = []
            pos = np.cumsum([0] + [M[x][0] for x in names])
            def intertwiner(representation, irreps):
                want = [i.name for i, m in irreps for _ in range(m)]
                asked.append(want)
                if sorted(want) != sorted(names): raise Fail('decomposed into %s instead of %s' % (want, names), dict(group=name))
                free, cols = list(range(len(names))), []
                for x in want:
                    j = next(j for j in free if names[j] == x); free.remove(j); cols += range(pos[j], pos[j + 1])
                return A[:, cols]
            if conc:
                r = R.build_from_discrete_group_representation(table, 'r', g, ['norm', 'gated'])
            else:
                with shims([R], compute_change_of_basis=intertwiner): r = R.build_from_discrete_group_representation(table, 'r', g, ['norm', 'gated'])
                c.holds(len(asked) > 0, 'the intertwiner is asked for')
            c.holds(sorted(r.irreps) == sorted(names) and r.size == n and r.group is g and r.name == 'r', 'the irreps of the table with their multiplicities: %s' % r.irreps)
            C, Ci = r.change_of_basis, r.change_of_basis_inv
            for e in elements:
                c.eq(r(e), keep[e], 'the matrices of the table'); c.eq(r.character(e), sum(round(float(np.trace(M[x][2][e]))) for x in names), 'character = trace')
                c.eq(mm2(mm2(C, blk([num(M[x][2][e]) for x in r.irreps])), Ci), keep[e], 'irreps and change of basis reconstruct the table')
                c.eq(table[e], keep[e], 'argument unchanged')
            c.holds(set(r.supported_nonlinearities) == {'norm', 'gated'}, 'requested non-linearities')
        prove(t, 'decomposition of %s of %s listed from %d' % (mult, name, rot), con)
    for name, mult in (('C2', [('one', 1)]), ('C2', [('s', 2), ('one', 1)]), ('C3', [('r', 1)]), ('C3', [('r', 1), ('one', 1)]), ('C4', [('s', 1), ('r', 1)]), ('C4', [('one', 2), ('s', 1)]), ('D3', [('s', 1), ('r', 1)]),
                       ('D3', [('r', 1)]), ('D4', [('st', 1), ('t', 1), ('one', 1)]), ('D4', [('r', 1), ('s', 1)]), ('Q8', [('s', 1), ('t', 2)]), ('Q8', [('q', 1)])):
        for rot in ((0, 1) if sum(k for _, k in mult) > 1 else (0,)):
            ctx.task('contract.decomposition[%s %s %d]' % (name, mult, rot), 'proof')(lambda t, a=name, b=mult, d=rot: run(t, a, b, d))


def build_c05(ctx):
    """Group.restrict_representation through the contract of _restrict_irrep (proved in ded_groups.build_c05 for the four families): for every irrep of the group an invertible basis and irreps
    of the subgroup with  D(parent(h)) = cob . diag(d_i(h)) . cob^-1"""
    def run(t, names):
        n = sum(SIZES[x] for x in names)
        SPLIT = {'one': ['one'], 'p': ['s'], 'q': ['one'], 'u': ['one', 's'], 'v': ['z'], 'w': ['s', 'z']}
        for perm in perms(n, few=n > 3):
            def con(c):
                import e2cnn.group as G
                w = World(c, SIZES)
                sg = World(c, {'one': 1, 's': 1, 'z': 2})
                sg.g.name = 'H'
                cobs = {x: invertible(c, 'K' + x, SIZES[x], tuple(range(SIZES[x]))[::-1]) for x in set(names)}
                class Gr(type(w.g)):
                    def subgroup(self, id): return sg.g, lambda h: ('in', h), lambda e: None
                    def _restrict_irrep(self, irrep, id): return cobs[irrep][0].copy(), list(SPLIT[irrep])
                w.g.__class__ = Gr
                r, A, Ai = rep(c, w, names, 'r', perm, nonlin=('norm', 'gated'))
                s = w.g.restrict_representation('id', r)
                s2 = r.restrict('id')
                c.holds(s2.group is s.group and list(s2.irreps) == list(s.irreps), 'Representation.restrict'); c.eq(s2.change_of_basis, s.change_of_basis, 'Representation.restrict')
                for h in 'ab':
                    big = blk([mm2(mm2(cobs[x][0], blk([sg.g.irreps[y].representation(h) for y in SPLIT[x]])), cobs[x][1]) for x in names])       # D(parent(h)) by the contract of _restrict_irrep
                    c.eq(s(h), mm2(mm2(A, big), Ai), 'restricted matrix = matrix of the embedded element')
                c.holds(s.group is sg.g and s.size == n and list(s.irreps) == [y for x in names for y in SPLIT[x]], 'group, size and irreps')
                c.eq(mm2(s.change_of_basis, s.change_of_basis_inv), eye2(n) if not getattr(c, 'concrete', 0) else np.eye(n), 'recorded inverse')
                c.holds(set(s.supported_nonlinearities) - {'pointwise'} == {'norm', 'gated'} and set(r.supported_nonlinearities) == {'norm', 'gated'}, 'nonlinearities kept, operand unchanged')
                c.eq(r.change_of_basis, A, 'operand unchanged')
            prove(t, 'restrict_representation %s pivots %s' % ('+'.join(names), perm), con, maxpaths=400, loose=True)
    for names in (['p'], ['q'], ['u'], ['v'], ['one', 'p'], ['p', 'u'], ['u', 'q'], ['w'], ['p', 'q', 'p']):
        ctx.task('contract restrict_representation[%s]' % '+'.join(names), 'proof')(lambda t, names=names: run(t, names))
