"""Contracts on e2cnn.gspaces (C08): the isometry by which an element moves the plane, restriction, field action, equality.

Images are opaque: an Img only records the isometry applied to it.  np.rot90, scipy's rotate and the flip [..., ::-1, :] act on it by their contracts
(rotation by k quarter turns / by the angle in degrees, counter-clockwise; y -> -y); rotate_array and the _basespace_action methods are the real code.
The contracts of rot90 / rotate are compared with the real routines by the bounded tasks `grid` and `angles`."""
import contextlib, math
import numpy as np
from . import sym, groups as gr, ded_groups as dg
from .core import Undecided
from .sym import S, prove, shims, lift, NP
from .ded_groups import mk, mm, eye2, elem, flips, ang, iso


def mods():
    import importlib
    return [importlib.import_module('e2cnn.gspaces.' + x) for x in ('gspace', 'r2.general_r2', 'r2.rot2d_on_r2', 'r2.fliprot2d_on_r2', 'r2.flip2d_on_r2', 'r2.trivial_on_r2', 'r2.utils')]


def rotm(th):
    th = lift(th)
    c, s = th.cos(), th.sin()
    return np.array([[c, -s], [s, c]], dtype=object)


FLIP = np.array([[1, 0], [0, -1]], dtype=object)


class Img:
    """image of which the isometry applied so far is known"""
    shape = (2, 3, 9, 9); ndim = 4

    def __init__(self, M): self.M = M

    def copy(self): return Img(self.M)

    def __getitem__(self, k):
        if k == (Ellipsis, slice(None, None, -1), slice(None)): return Img(mm(FLIP, self.M))
        if k == (Ellipsis, slice(None, None, -1)): return Img(mm(-FLIP, self.M))
        raise Undecided('image indexed by %r' % (k,))


class NpSpace(sym.NpShim):
    def rot90(self, x, k=1, axes=(0, 1)):
        if not isinstance(x, Img): return np.rot90(x, int(k), axes)
        if tuple(axes) not in ((-2, -1), (2, 3)): raise Undecided('rot90 axes')
        return Img(mm(rotm(S.sym('pi', 'real') * lift(k) / 2), x.M))

    def flip(self, x, axis=None):
        if not isinstance(x, Img): return np.flip(x, axis)
        if axis in (-2, 2): return Img(mm(FLIP, x.M))
        if axis in (-1, 3): return Img(mm(-FLIP, x.M))
        raise Undecided('flip axis')
    flipud = None


def srotate(x, angle, axes=(1, 0), reshape=True, **k):
    if not isinstance(x, Img): raise Undecided('interpolation of symbolic pixels')
    if tuple(axes) not in ((-2, -1), (2, 3), (-1, -2)) or reshape: raise Undecided('rotate arguments')
    return Img(mm(rotm(lift(angle) * S.sym('pi', 'real') / 180), x.M))


def rotated(x, angle):
    """rotate_array by its contract (proved below): the image rotated by the angle, counter-clockwise"""
    if not isinstance(x, Img):
        q = (lift(angle) * 2 / S.sym('pi', 'real')).n().value()
        if q is None or q.denominator != 1: raise Undecided('interpolation of symbolic pixels')
        return np.rot90(x, int(q), (-2, -1))
    return Img(mm(rotm(angle), x.M))


@contextlib.contextmanager
def env(**extra):
    k = dict(rotate_array=rotated); k.update(extra)
    keep = k.pop('keep', False)
    if keep: k.pop('rotate_array')
    with dg.env(), shims(mods(), rotate=srotate, np=NpSpace(), **k): yield


KINDS = ('C', 'D', 'SO2', 'O2', 'F', 'T')


def space(c, kind, N, g, axis):
    from e2cnn import gspaces as gs
    if kind in ('C', 'SO2'): return gs.Rot2dOnR2(fibergroup=g)
    if kind in ('D', 'O2'): return gs.FlipRot2dOnR2(fibergroup=g, axis=axis)
    if kind == 'F': return gs.Flip2dOnR2(fibergroup=g, axis=axis)
    return gs.TrivialOnR2(fibergroup=g)


def group(c, kind, nm='N'):
    if kind in 'CD':
        N = c.int(nm, 2); return N, mk(kind, N)
    if kind == 'F': return 2, dg.cyclic(2)
    if kind == 'T': return 1, dg.cyclic(1)
    return None, mk(kind)


def element(c, kind, N, nm, f):
    if kind == 'T': return 0
    return elem(c, kind, N, nm, f)


def isom(kind, N, e, axis):
    """the isometry the element is documented to be"""
    if kind == 'T': return eye2()
    if kind == 'F': return mm(rotm(2 * axis), FLIP) if e else eye2()
    th = ang(kind, N, e)
    if kind in ('C', 'SO2') or not e[0]: return rotm(th)
    return mm(rotm(th + 2 * axis), FLIP)


def replay_space(m, kind):
    from vk.ded_kernels import Space
    axis = float(m.get('axis', 0.)) * math.pi
    N = int(m['N']) if kind in 'CD' else None
    if N is not None and N > 300: raise Undecided('model too large')
    if kind == 'T':
        from e2cnn import gspaces as gs
        return None
    return Space(kind, N, axis, 3)


def moves(t, sp, gs_, E, M):
    """the real space moves a smooth bump by M(e)"""
    from checks.c08 import smooth
    n = 41; p0 = np.array([.35, .2])
    bump = lambda p: smooth(n, lambda X, Y: np.exp(-((X - p[0]) ** 2 + (Y - p[1]) ** 2) / (2 * 0.15 ** 2)))
    for e in E:
        y = gs_.featurefield_action(bump(p0)[None, None], gs_.trivial_repr, e)
        t.at(g=e)
        t.check(np.abs(y[0, 0] - bump(M(e) @ p0)).max() < .03, 'the element does not move the plane by its isometry', g=e)


def build_c08(ctx):
    def action(t, kind):
        def replay(m):
            sp = replay_space(m, kind)
            if sp is None: raise Undecided('no replay')
            moves(t, sp, sp.gs, sp.elements()[:80], sp.M)
        for f in flips(kind):
            def act(c):
                with env():
                    N, g = group(c, kind); axis = c.pi * c.real('axis')
                    sp = space(c, kind, N, g, axis)
                    a = element(c, kind, N, 'a', f)
                    x = Img(eye2())
                    y = sp._basespace_action(x, a)
                    c.eq(y.M, isom(kind, N, a, axis), 'the element moves the plane by its isometry')
                    c.holds(y is not x, 'a new image is returned'); c.eq(x.M, eye2(), 'input untouched')
                    y = sp._basespace_action(Img(eye2()), g.identity)
                    c.eq(y.M, eye2(), 'identity moves nothing')
            prove(t, 'base action %s flip %d' % (kind, f), [], act, replay)
            for f2 in flips(kind):
                def prod(c):
                    with env():
                        N, g = group(c, kind); axis = c.pi * c.real('axis')
                        sp = space(c, kind, N, g, axis)
                        a, b = element(c, kind, N, 'a', f), element(c, kind, N, 'b', f2)
                        x = Img(eye2())
                        y = sp._basespace_action(sp._basespace_action(x, b), a)
                        z = sp._basespace_action(x, g.combine(a, b))
                        c.eq(y.M, z.M, 'acting by b then a is acting by the product')
                prove(t, 'product %s flips %d %d' % (kind, f, f2), [], prod, replay)
    def rotation(t):
        def rot(c):
            from e2cnn.gspaces.r2 import utils
            with env(keep=True):
                u = c.real('u')
                x = Img(eye2())
                y = utils.rotate_array(x, c.pi * u)
                c.eq(y.M, rotm(c.pi * u), 'the array is rotated by the angle'); c.eq(x.M, eye2(), 'input untouched')
        def replay(m):
            sp = replay_space(dict(N=4), 'SO2')
            a = float(m['u']) * math.pi
            moves(t, sp, sp.gs, [a], sp.M)
        prove(t, 'rotate_array', [], rot, replay)
        for k in range(-5, 6):
            def exact(c):
                from e2cnn.gspaces.r2 import utils
                with env(keep=True):
                    x = np.empty((1, 2, 3, 3), object)
                    for i in np.ndindex(*x.shape): x[i] = c.real('x%d%d%d%d' % i)
                    c.eq(utils.rotate_array(x, k * c.pi / 2), np.rot90(x, k, (2, 3)), 'quarter turns permute the pixels')
            prove(t, 'rotate_array quarter turns %d' % k, [], exact)
    ctx.task('contract rotate_array', 'proof')(rotation)
    for kind in KINDS: ctx.task('contract action[%s]' % kind, 'proof')(lambda t, kind=kind: action(t, kind))

    def restrict(t, kind, sub):
        def replay(m):
            from e2cnn import gspaces as gs
            from vk.ded_kernels import Space
            if kind == 'F': spec, id = ('F', None), 2
            else: spec, id = dg.sub_model(kind, sub, m)
            N = spec[1] if kind in 'CD' else None
            if kind == 'D' and N == 1 or kind == 'C' and N == 1: raise Undecided('no such space')
            axis = float(m.get('base', 0.)) * math.pi
            sp = Space(kind, N, axis, 10)
            s2, par, chi = sp.gs.restrict(id)
            if isinstance(id, tuple) and id[0] is not None and kind == 'O2': pass
            H = [0, 1] if sub == 'F' else gr.sub_elements(spec, id, s2.fibergroup, t.rng()) if kind != 'F' else [0, 1]
            for h in H[:40]:
                p = par(h); b = chi(p)
                t.at(space=sp.key, id=id, h=h)
                t.check(b is not None and s2.fibergroup.equal(b, h), 'map back of the restricted space', got=b)
                moves(t, sp, s2, [h], lambda e: sp.M(par(e)))
        for f in flips(sub):
            def res(c):
                with env():
                    base = c.pi * c.real('base')
                    g, N, id, m, o = dg.subgroup(c, kind, sub)
                    if kind in 'CD' : sym.require(N > 1)
                    sp = space(c, kind, N, g, base)
                    s2, par, chi = sp.restrict(id)
                    h = elem(c, sub, m, 'a', f)
                    if kind in 'CD' and sub != 'F': c.mulpos(m - 1 - (h[1] if isinstance(h, tuple) else h), c.int('ratio') if 'ratio' in c.run.syms else 1)
                    p = par(h)
                    c.eq(iso(kind, N, p), iso(kind, N, o(h)), 'embedding of the restricted space is the one the identifier describes')
                    b = chi(p)
                    c.holds(b is not None and bool(s2.fibergroup.equal(b, h)), 'map back of the restricted space')
                    y = s2._basespace_action(Img(eye2()), h)
                    c.eq(y.M, isom(kind, N, p, base), 'restricted space moves the plane as the embedded element')
                    z = sp._basespace_action(Img(eye2()), p)
                    c.eq(y.M, z.M, 'restricted and original action agree')
            prove(t, 'restriction %s < %s flip %d' % (sub, kind, f), [], res, replay)
    for kind, sub in dg.SUBS: ctx.task('contract restriction[%s<%s]' % (sub, kind), 'proof')(lambda t, kind=kind, sub=sub: restrict(t, kind, sub))

    def flipres(t):
        for id in (1, 2):
            for f in ((0,) if id == 1 else (0, 1)):
                def res(c):
                    with env():
                        base = c.pi * c.real('base')
                        sp = space(c, 'F', 2, dg.cyclic(2), base)
                        s2, par, chi = sp.restrict(id)
                        y = s2._basespace_action(Img(eye2()), f)
                        c.holds(par(f) == f and chi(par(f)) == f, 'embedding')
                        c.eq(y.M, isom('F', 2, f, base), 'restricted space moves the plane as the embedded element')
                prove(t, 'restriction of flips to %d, element %d' % (id, f), [], res)
        def triv(c):
            with env():
                from e2cnn import gspaces as gs
                sp = gs.TrivialOnR2()
                for s2, par, chi in (sp.restrict(1), sp.restrict(1)[0].restrict(1)):
                    c.holds(isinstance(s2, gs.TrivialOnR2) and s2 == sp and par(0) == 0 and chi(0) == 0, 'the trivial space restricts to itself')
                    X = Img(eye2()); y = s2._basespace_action(X, 0)
                    c.eq(y.M, eye2(), 'the trivial space moves nothing'); c.holds(y is not X, 'the image is a copy')
        prove(t, 'restriction of the trivial space', [], triv)
    ctx.task('contract restriction[flips]', 'proof')(flipres)

    def field(t):
        """featurefield_action on symbolic pixels: mixes the channels by the matrix and moves every pixel, for the elements of the grid"""
        def one(c, kind, N, e, axis, quarter, fl):
            with env():
                g = mk(kind, N) if kind in 'CD' else dg.cyclic(N)
                sp = space(c, kind, N, g, c.pi * sym.Fr(axis, 4) if axis else 0.)
                n, s = 2, 3
                rho = np.empty((n, n), object); x = np.empty((2, n, s, s), object)
                for i in np.ndindex(n, n): rho[i] = c.real('r%d%d' % i)
                for i in np.ndindex(*x.shape): x[i] = c.real('x%d%d%d%d' % i)
                class R:
                    group = g; size = n
                    def __call__(self, el): c.holds(el == e, 'the representation is evaluated at the element'); return rho
                x0 = x.copy()
                y = sp.featurefield_action(x, R(), e)
                want = np.empty(x.shape, object)
                # M^-1 p for quarter turns: rot90 counter-clockwise after the flip of the rows
                z = x[:, :, ::-1, :] if fl else x
                z = np.rot90(z, quarter, (2, 3))
                for b, o, i, j in np.ndindex(*x.shape): want[b, o, i, j] = sum((rho[o, k] * z[b, k, i, j] for k in range(n)), lift(0))
                c.eq(y, want, 'transformed field is the moved and mixed field')
                c.eq(x, x0, 'input untouched')
        cases = [('C', 4, e, 0, e, 0) for e in range(4)] + [('C', 8, 2, 0, 1, 0), ('C', 12, 9, 0, 3, 0), ('T', 1, 0, 0, 0, 0)]
        for ax in range(4):
            cases += [('D', 4, (f, r), ax, (r + f * ax) % 4, f) for f in (0, 1) for r in range(4)] + [('F', 2, f, ax, f * ax, f) for f in (0, 1)]
        for k in cases: prove(t, 'field action %s%s element %s axis %d pi/4' % (k[0], k[1], k[2], k[3]), [], lambda c, k=k: one(c, *k), None)
    ctx.task('contract field action', 'proof')(field)

    def equal(t):
        """spaces that compare equal act identically; equal arguments give equal spaces with equal hashes"""
        for k1 in KINDS:
            for k2 in KINDS:
                def eq(c):
                    with env():
                        # names of groups contain the order: split on the equality of the orders before they are made
                        for a, b in ((c.int('N1', 2), c.int('N2', 2)), (c.int('N1', 2), 2), (c.int('N2', 2), 2)): bool(a == b)
                        N1, g1 = group(c, k1, 'N1'); N2, g2 = group(c, k2, 'N2')
                        a1, a2 = c.pi * c.real('a1'), c.pi * c.real('a2')
                        bool(a1 == a2)
                        s1, s2 = space(c, k1, N1, g1, a1), space(c, k2, N2, g2, a2)
                        r = bool(s1 == s2)
                        c.holds(bool(s2 == s1) == r, 'equality symmetric'); c.holds(bool(s1 != s2) == (not r), 'inequality is the negation')
                        if r:
                            c.holds(k1 == k2, 'equal spaces are of the same kind')
                            if N1 is not None: c.eq(N1, N2, 'equal spaces have the same order')
                            if k1 in ('D', 'O2', 'F'): c.eq(a1, a2, 'equal spaces have the same axis')
                            c.holds(hash(s1) == hash(s2) and s1.name == s2.name, 'equal spaces have equal hashes')
                        elif k1 == k2:
                            same = (N1 is None or bool(lift(N1) == lift(N2))) and (k1 not in ('D', 'O2', 'F') or bool(a1 == a2))
                            c.holds(not same, 'spaces with equal arguments are equal')
                def replay(m):
                    from e2cnn import gspaces as gs
                    def mk_(k, i):
                        N = int(m.get('N%d' % i, 2)); ax = float(m['a%d' % i]) * math.pi
                        if N > 500: raise Undecided('model too large')
                        return {'C': lambda: gs.Rot2dOnR2(N), 'D': lambda: gs.FlipRot2dOnR2(N, axis=ax), 'SO2': lambda: gs.Rot2dOnR2(-1), 'O2': lambda: gs.FlipRot2dOnR2(-1, axis=ax), 'F': lambda: gs.Flip2dOnR2(axis=ax), 'T': gs.TrivialOnR2}[k](), (k, N if k in 'CD' else None, ax if k in ('D', 'O2', 'F') else None)
                    (x, kx), (y, ky) = mk_(k1, 1), mk_(k2, 2)
                    t.at(a=kx, b=ky)
                    t.check(bool(x == y) == (kx == ky), 'equality of spaces', a=kx, b=ky)
                    if kx == ky: t.check(hash(x) == hash(y), 'equal spaces have different hashes')
                prove(t, 'equality %s %s' % (k1, k2), [], eq, replay)
    ctx.task('contract equality', 'proof')(equal)
