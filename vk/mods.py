"""Representations by the structure they have, and helpers shared by the module checks (C11-C19)."""
import math
import numpy as np
from . import zoo, groups as gr


def allreps(sp, rng, level=2, maxsize=12):
    """every kind of representation the library builds for the space, including restrictions from bigger groups and sums"""
    import e2cnn.group as g
    G, spec = sp.G, sp.spec
    R = zoo.reps(G, spec, rng, level, maxsize)
    kind, N = spec
    if kind in 'CD':
        # restrictions of regular / induced / irreps of a bigger group to (a copy of) this group
        if kind == 'C' and N * 2 <= maxsize:
            big = g.cyclic_group(2 * N); R.append(big.restrict_representation(N, big.regular_representation))
            if N > 1: R.append(big.restrict_representation(N, big.irrep(1)))
        if kind == 'D' and 4 * N <= maxsize:
            big = g.dihedral_group(2 * N); R.append(big.restrict_representation((0, N), big.regular_representation))
        if kind == 'C' and N > 1 and 2 * N <= maxsize:
            big = g.dihedral_group(N); R.append(big.restrict_representation((None, N), big.regular_representation)); R.append(big.restrict_representation((None, N), big.irrep(1, 1)))
        if G.order() <= maxsize:
            R.append(g.directsum([G.regular_representation, G.trivial_representation], name=zoo.uid('rt')))
            R.append(g.directsum([G.trivial_representation, G.trivial_representation], name=zoo.uid('tt')))
            P = np.eye(G.order())[rng.permutation(G.order())]
            R.append(g.change_basis(G.regular_representation, P, zoo.uid('perm'), supported_nonlinearities=['pointwise', 'norm', 'gated', 'concatenated']))
    # direct sum with an orthogonal / skew change of basis
    base = [r for r in R if r.size <= 3][:3]
    n = sum(r.size for r in base)
    R.append(g.directsum(base, change_of_basis=zoo.ortho(n, rng), name=zoo.uid('os')))
    R.append(g.directsum(base, change_of_basis=zoo.invertible(n, rng), name=zoo.uid('is')))
    R.append(g.directsum([G.trivial_representation] * 2, change_of_basis=zoo.ortho(2, rng), name=zoo.uid('ot')))
    seen, out = set(), []
    for r in R:
        if r.name not in seen and r.size <= 2 * maxsize:
            seen.add(r.name); out.append(r)
    return out


def mats(r, E):
    return [np.asarray(r(e), float) for e in E]


def is_perm(ms):
    return all(np.allclose(np.abs(m - 1) * np.abs(m), 0, atol=1e-6) and np.allclose(m.sum(0), 1, atol=1e-6) and np.allclose(m.sum(1), 1, atol=1e-6) for m in ms)


def is_sperm(ms):
    return is_perm([np.abs(m) for m in ms])


def is_orth(ms):
    return all(np.allclose(m @ m.T, np.eye(len(m)), atol=1e-5) for m in ms)


def has_trivial(r, sp):
    return any(sp.G.irreps[i].is_trivial() for i in r.irreps)


def offsets(rs):
    p, out = 0, []
    for r in rs:
        out.append((p, p + r.size)); p += r.size
    return out


def accepts(cls, *a, **k):
    """the module built for these arguments, or None if they are rejected"""
    try:
        return cls(*a, **k)
    except (AssertionError, ValueError, NotImplementedError, KeyError):
        return None


def fib(x, rs, e):
    """fibre action on a raw array B,C,...."""
    return np.einsum('oi,bi...->bo...', zoo.rho(rs, e), np.asarray(x, float))


def layouts(rs, rng):
    """the same fields in a shuffled order: grouped, interleaved"""
    idx = list(rng.permutation(len(rs)))
    return [rs[i] for i in idx]


def call(m, x, ft):
    import torch
    return m(zoo.geo(torch.as_tensor(np.ascontiguousarray(x), dtype=torch.float32), ft))


def out(m, x, ft):
    return call(m, x, ft).tensor.detach().numpy().astype(float)


def variants(x):
    """the same data with other memory layouts (torch tensors)"""
    import torch
    x = torch.as_tensor(x)
    yield 'contiguous', x.clone()
    yield 'transposed', x.transpose(2, 3).contiguous().transpose(2, 3)
    yield 'channels_last', x.clone().to(memory_format=torch.channels_last)
    big = torch.zeros(x.shape[0], x.shape[1] + 2, *x.shape[2:]); big[:, 1:-1] = x
    yield 'slice', big[:, 1:-1]


def frozen(t, m, x, ft, msg='the module changed its input', tol=1e-5, skip=()):
    """forward does not change its input and does not depend on the memory layout; returns the output"""
    import torch
    ref = None
    for name, v in variants(np.asarray(x, 'float32')):
        if name in skip: continue
        c = v.clone()
        y = m(zoo.geo(v, ft)).tensor.detach()
        t.check(torch.equal(v, c), msg, layout=name)
        if ref is None: ref = y.numpy().astype(float)
        else: t.close(y.numpy(), ref, 'output depends on the memory layout of the input', tol, layout=name)
    return ref
