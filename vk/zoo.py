"""Symmetry spaces, representations and field types used by the bounded layers, with independent oracles for the geometry."""
import math
import numpy as np
from . import groups as gr

PI = math.pi


class Space:
    """a planar symmetry space built through the public factory + the oracle of what its elements do to the plane"""

    def __init__(self, kind, N=1, axis=PI / 2, maxf=None, via='factory'):
        self.kind, self.N, self.axis, self.maxf = kind, N, axis, maxf
        from e2cnn import gspaces as gs
        if kind == 'T': self.gs, self.spec = gs.TrivialOnR2(), ('C', 1)
        elif kind == 'R':
            if N == -1: self.gs, self.spec = gs.Rot2dOnR2(-1, maximum_frequency=maxf or 4), ('SO2', maxf or 4)
            else: self.gs, self.spec = gs.Rot2dOnR2(N), ('C', N)
        elif kind == 'F': self.gs, self.spec = gs.Flip2dOnR2(axis=axis), ('C', 2)
        elif kind == 'FR':
            if N == -1: self.gs, self.spec = gs.FlipRot2dOnR2(-1, maximum_frequency=maxf or 4, axis=axis), ('O2', maxf or 4)
            else: self.gs, self.spec = gs.FlipRot2dOnR2(N, axis=axis), ('D', N)
        self.G = self.gs.fibergroup

    def M(self, e):
        if self.kind == 'T': return np.eye(2)
        if self.kind == 'R': return gr.mat(self.spec, e)
        if self.kind == 'F': return gr.rot(2 * self.axis) @ gr.FL if e else np.eye(2)
        th = e[1] * (1. if self.N == -1 else gr.TAU / self.N)
        return gr.rot(th + 2 * self.axis) @ gr.FL if e[0] else gr.rot(th)

    def elements(self, rng=None, n=2):
        if self.spec[0] in 'CD': return gr.elements(self.spec, self.G)
        return gr.elements(self.spec, self.G, rng, n)

    def grid_elements(self):
        """elements mapping the square pixel grid to itself"""
        if self.spec[0] in 'CD': E = gr.elements(self.spec, self.G)
        else:
            A = [k * PI / 2 for k in range(4)]
            E = A if self.spec[0] == 'SO2' else ([(0, a) for a in A] + [(1, a) for a in A] + [(1, (a - 2 * self.axis) % gr.TAU) for a in A])
        out = []
        for e in E:
            m = self.M(e)
            if np.allclose(m, np.round(m), atol=1e-9): out.append(e)
        return out

    @property
    def key(self):
        return {'T': 'T', 'R': 'R%d' % self.N, 'F': 'F@%.2f' % self.axis, 'FR': 'FR%d@%.2f' % (self.N, self.axis)}[self.kind]

    def __repr__(self): return self.key


def move(x, M):
    """exact action of a signed permutation matrix on the last two dims of a square array: y(p) = x(M^-1 p), origin at the centre,
    first coordinate to the right (columns), second upwards (minus rows)"""
    Mi = np.round(np.linalg.inv(M)).astype(int)
    n = x.shape[-1]
    assert x.shape[-2] == n
    c2 = n - 1           # doubled centre
    rows, cols = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    X, Y = 2 * cols - c2, c2 - 2 * rows
    SX, SY = Mi[0, 0] * X + Mi[0, 1] * Y, Mi[1, 0] * X + Mi[1, 1] * Y
    sc, sr = (SX + c2) // 2, (c2 - SY) // 2
    return x[..., sr, sc]


def act(x, rho, M):
    """field action: channels mixed by rho, pixels moved by M (torch or numpy, shape B,C,H,W)"""
    import torch
    if hasattr(x, 'detach'):
        y = torch.einsum('oi,bixy->boxy', torch.as_tensor(np.asarray(rho), dtype=x.dtype), x)
        return torch.as_tensor(np.ascontiguousarray(move(y.detach().numpy(), M)))
    return move(np.einsum('oi,bixy->boxy', rho, x), M)


def spaces(level=1):
    S = [lambda: Space('T'), lambda: Space('R', 2), lambda: Space('R', 3), lambda: Space('R', 4), lambda: Space('R', 8), lambda: Space('R', -1),
         lambda: Space('F'), lambda: Space('F', axis=0.), lambda: Space('F', axis=PI / 4),
         lambda: Space('FR', 2), lambda: Space('FR', 4), lambda: Space('FR', 4, axis=0.), lambda: Space('FR', 3, axis=PI / 6), lambda: Space('FR', -1), lambda: Space('FR', -1, axis=PI / 4)]
    if level >= 2:
        S += [lambda: Space('R', 5), lambda: Space('R', 6), lambda: Space('R', 7), lambda: Space('R', 12), lambda: Space('F', axis=0.3), lambda: Space('F', axis=PI * 3 / 4),
              lambda: Space('FR', 3), lambda: Space('FR', 4, axis=PI / 4), lambda: Space('FR', 4, axis=0.7), lambda: Space('FR', 5), lambda: Space('FR', 6, axis=PI / 3), lambda: Space('FR', 8),
              lambda: Space('FR', 2, axis=0.4), lambda: Space('FR', -1, axis=0.), lambda: Space('FR', -1, axis=0.7)]
    return [s() for s in S]


def ortho(n, rng):
    q, r = np.linalg.qr(rng.randn(n, n))
    return q * np.sign(np.diag(r))


def invertible(n, rng):
    return ortho(n, rng) @ np.diag(rng.uniform(0.5, 2., n)) @ ortho(n, rng)


_uid = [0]


def uid(p='u'):
    _uid[0] += 1
    return '%s%d' % (p, _uid[0])


def irreps_of(G, spec, kmax=None):
    """all irreps through Group.irrep, enumerated by the oracle"""
    kind, N = spec
    if kind == 'C': return [G.irrep(k) for k in range(N // 2 + 1)][:kmax]
    if kind == 'SO2': return [G.irrep(k) for k in range(N + 1)][:kmax]
    if kind == 'D':
        ids = [(0, 0), (1, 0)] + [(1, k) for k in range(1, N // 2 + 1)] + ([(0, N // 2)] if N % 2 == 0 and N > 1 else [])
        if kmax and len(ids) > kmax: ids = ids[:kmax - 1] + ids[-1:]
        return [G.irrep(*i) for i in ids]
    return [G.irrep(0, 0)] + [G.irrep(1, k) for k in range(N + 1)][:kmax]


def reps(G, spec, rng, level=1, maxsize=12, orthogonal=True):
    """a spread of representations: irreps, regular, quotient, induced, sums, changed bases, restrictions"""
    import e2cnn.group as g
    kind, N = spec
    ir = irreps_of(G, spec, 4 if level < 2 else 7)
    out = list(ir)
    if kind in 'CD':
        if G.order() <= maxsize: out.append(G.regular_representation)
        for id in gr.subgroup_ids(spec)[:3 if level < 2 else 8]:
            sg, _, _ = G.subgroup(id)
            if G.order() // sg.order() <= maxsize and sg.order() > 1: out.append(G.quotient_representation(id))
            if level >= 1 and sg.order() > 1:
                for psi in list(sg.irreps.values())[1:2 if level < 2 else 4]:
                    if psi.size * G.order() // sg.order() <= maxsize: out.append(G.induced_representation(id, psi))
    elif kind == 'O2':
        sg, _, _ = G.subgroup((None, -1))
        out += [G.induced_representation((None, -1), sg.irrep(k)) for k in (0, 1)]
    s = g.directsum([ir[-1], ir[0], ir[min(1, len(ir) - 1)]], name=uid('sum'))
    out.append(s)
    out.append(g.change_basis(s, ortho(s.size, rng), uid('cob')))
    if not orthogonal: out.append(g.change_basis(s, invertible(s.size, rng), uid('inv')))
    seen, res = set(), []
    for r in out:
        if r.name not in seen:
            seen.add(r.name); res.append(r)
    return res


def blkdiag(ms):
    n = sum(m.shape[0] for m in ms)
    out = np.zeros((n, n)); p = 0
    for m in ms:
        out[p:p + m.shape[0], p:p + m.shape[0]] = m; p += m.shape[0]
    return out


def rho(reprs, e):
    return blkdiag([np.asarray(r(e)) for r in reprs])


def fieldtype(space, reprs):
    from e2cnn import nn
    return nn.FieldType(space.gs, list(reprs))


def mixed(reps, rng, n, repeat=True):
    """a sequence of n representations with repetitions and interleaving"""
    idx = list(rng.randint(0, len(reps), n))
    return [reps[i] for i in idx]


def geo(x, ft):
    from e2cnn import nn
    return nn.GeometricTensor(x, ft)


def randx(ft, rng, b=2, n=5, m=None, dtype='float32'):
    import torch
    return torch.as_tensor(rng.randn(b, ft.size, n, m or n).astype(dtype))


def randomise(module, rng, scale=1.):
    """give every learnable parameter a generic value"""
    import torch
    for n, p in sorted(module.named_parameters(), key=lambda q: q[0]):
        if p.requires_grad and p.is_floating_point():
            with torch.no_grad():
                p.copy_(torch.as_tensor(rng.randn(*p.shape) * scale if p.dim() else rng.randn() * scale, dtype=p.dtype).reshape(p.shape))
    return module
