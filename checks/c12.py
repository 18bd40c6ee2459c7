"""C12: results do not depend on what was built before."""
from vk import core
import numpy as np, math
PROPERTY = 'C12'
LEVEL = 'proof'
ISOLATE = True            # every task starts in a process in which nothing has been built yet
EXPLANATION = ('Deductive layer: the __eq__ contracts of every cached or compared class are executed on symbolic arguments and proved to imply agreement of every behaviour-relevant argument. '
               'Bounded layer: every request is evaluated alone in a pristine process and after random histories of the other requests, the fingerprints of what it returns are compared; families of '
               'objects with nearby arguments are compared pairwise (equality implies the same behaviour, the same arguments give equal objects with equal hashes); layers are used, converted and '
               'trained next to each other.')
TRUSTED = ['os.fork gives each request a process in which only the modules of e2cnn are imported']
ASSUMPTIONS = ['numerically decomposed representations (build_from_discrete_group_representation) are the same up to their change of basis, which starts from a random point',
               'SO(2)/O(2) instances may offer more irreps when a higher frequency was requested earlier (documented sharing)',
               'equality uses numpy.allclose; hashing is claimed for objects built from identical arguments']
BOUND = 'about 300 requests per history over the groups of vk/zoo.py; 3 (thorough 10) histories per family'
PI = math.pi


# ---------------------------------------------------------------- requests: (key, function returning a fingerprint)
def G(kind, N=4):
    import e2cnn.group as g
    return {'C': g.cyclic_group, 'D': g.dihedral_group, 'SO2': g.so2_group, 'O2': g.o2_group}[kind](N)


def S(kind, N=4, axis=PI / 2, maxf=4):
    from e2cnn import gspaces as gs
    if kind == 'T': return gs.TrivialOnR2()
    if kind == 'R': return gs.Rot2dOnR2(N, maximum_frequency=maxf) if N == -1 else gs.Rot2dOnR2(N)
    if kind == 'F': return gs.Flip2dOnR2(axis=axis)
    return gs.FlipRot2dOnR2(N, maximum_frequency=maxf, axis=axis) if N == -1 else gs.FlipRot2dOnR2(N, axis=axis)


def E(G):
    if G.order() > 0: return list(G.elements)
    return [0., .3, 2.] if G.name.startswith('SO') else [(0, 0.), (0, .7), (1, 0.), (1, 1.3)]


def pr(r): return (r.name, r.size, list(r.irreps), sorted(r.supported_nonlinearities), r.is_trivial(), r.irreducible, np.stack([np.asarray(r(e)) for e in E(r.group)]), np.asarray(r.change_of_basis), np.asarray(r.change_of_basis_inv),
                   np.array([r.character(e) for e in E(r.group)]))


def cob(n, seed):
    q, _ = np.linalg.qr(np.random.RandomState(seed).randn(n, n)); return q


PTS = np.array([[0., 1., -1., .3, 2., .5], [0., 0., 1., .8, -1., .5]])


def kb(sp, a, b, rings, sigma, **kw):
    k = sp.build_kernel_basis(a, b, sigma, rings, **kw)
    return (k.dim, k.shape, k.sample(PTS), [{q: v for q, v in at.items() if not callable(v)} for at in k])


def weights(m, seed=3):
    import torch
    r = np.random.RandomState(seed)
    with torch.no_grad():
        for n, p in sorted(m.named_parameters()): p.copy_(torch.as_tensor(np.asarray(r.randn(*p.shape)).astype('float32')))
    return m


def conv(sp, i, o, k, cls='R2Conv', **kw):
    import torch
    from e2cnn import nn
    fi, fo = nn.FieldType(sp, i), nn.FieldType(sp, o)
    try: m = weights(getattr(nn, cls)(fi, fo, k, initialize=False, **kw) if cls != 'R2Diffop' else nn.R2Diffop(fi, fo, kernel_size=k, initialize=False, **kw))
    except ValueError as e:
        if 'empty' not in str(e): raise
        return ('empty',)
    with torch.no_grad(): f, b = m.expand_parameters() if m.weights.numel() else (torch.zeros(1), None)
    return (tuple(m.weights.shape), f.numpy(), None if b is None else b.numpy(), list(m.basisexpansion.get_basis_names()))


def hevar(sp, i, o, k, cache, **kw):
    import torch
    from e2cnn import nn
    from e2cnn.nn import init
    fi, fo = nn.FieldType(sp, i), nn.FieldType(sp, o)
    try: m = nn.R2Conv(fi, fo, k, initialize=False, **kw)
    except ValueError as e:
        if 'empty' not in str(e): raise
        return ('empty',)
    torch.manual_seed(5); init.generalized_he_init(m.weights.data, m.basisexpansion, cache=cache)
    return m.weights.detach().numpy().copy()


def module(sp, reps, mk, h=6):
    import torch
    from e2cnn import nn
    ft = nn.FieldType(sp, reps)
    m = weights(mk(ft)); m.eval()
    x = torch.as_tensor(np.random.RandomState(7).randn(2, ft.size, h, h).astype('float32'))
    with torch.no_grad(): y = m(nn.GeometricTensor(x, ft))
    ot = y.type
    return (y.tensor.numpy(), [r.name for r in ot.representations], [np.stack([np.asarray(r(e)) for e in E(r.group)]) for r in ot.representations])


def group_requests():
    R = []
    for kind, ns in (('C', (1, 2, 3, 4, 6, 8)), ('D', (1, 2, 3, 4, 6))):
        for n in ns:
            R.append(('group %s%d' % (kind, n), lambda kind=kind, n=n: (G(kind, n).name, G(kind, n).order(), list(G(kind, n).elements), sorted(G(kind, n).irreps), G(kind, n).identity)))
            R.append(('regular %s%d' % (kind, n), lambda kind=kind, n=n: pr(G(kind, n).regular_representation)))
            R.append(('trivial %s%d' % (kind, n), lambda kind=kind, n=n: pr(G(kind, n).trivial_representation)))
            for j in range(n // 2 + 1):
                R.append(('irrep %s%d %d' % (kind, n, j), lambda kind=kind, n=n, j=j: pr(G(kind, n).irrep(j) if kind == 'C' else G(kind, n).irrep(1, j))))
    for f in (1, 2, 4, 7):
        for j in range(f + 1):
            R.append(('SO2(%d) irrep %d' % (f, j), lambda f=f, j=j: pr(G('SO2', f).irrep(j)))); R.append(('O2(%d) irrep %d' % (f, j), lambda f=f, j=j: pr(G('O2', f).irrep(1, j))))
    for n, ids in ((4, (1, 2, 4)), (6, (1, 2, 3, 6)), (8, (2, 4))):
        for id in ids:
            R.append(('C%d quotient %d' % (n, id), lambda n=n, id=id: pr(G('C', n).quotient_representation(id))))
            R.append(('C%d restrict regular %d' % (n, id), lambda n=n, id=id: pr(G('C', n).restrict_representation(id, G('C', n).regular_representation))))
            for j in range(id // 2 + 1): R.append(('C%d induced %d %d' % (n, id, j), lambda n=n, id=id, j=j: pr(G('C', n).induced_representation(id, G('C', n).subgroup(id)[0].irrep(j)))))
    for n, ids in ((3, ((None, 3), (0, 1), (1, 1), (2, 1), (0, 3))), (4, ((None, 2), (None, 4), (0, 1), (1, 1), (3, 1), (0, 2), (1, 2)))):
        for id in ids:
            R.append(('D%d quotient %s' % (n, id), lambda n=n, id=id: pr(G('D', n).quotient_representation(id))))
            R.append(('D%d restrict regular %s' % (n, id), lambda n=n, id=id: pr(G('D', n).restrict_representation(id, G('D', n).regular_representation))))
            R.append(('D%d induced %s' % (n, id), lambda n=n, id=id: pr(G('D', n).induced_representation(id, list(G('D', n).subgroup(id)[0].irreps.values())[-1]))))
            R.append(('D%d embed %s' % (n, id), lambda n=n, id=id: [(e, G('D', n).subgroup(id)[1](e)) for e in G('D', n).subgroup(id)[0].elements] + [G('D', n).subgroup(id)[2](e) for e in G('D', n).elements]))
    for f in (2, 5):
        for id in (1, 3, 4): R.append(('SO2(%d) restrict %d' % (f, id), lambda f=f, id=id: [pr(G('SO2', f).restrict_representation(id, G('SO2', f).irrep(j))) for j in range(f + 1)]))
        for id in ((None, 4), (0., 4), (.7, 4), (.3, 1), (0., 1), (None, -1), (.5, -1)):
            R.append(('O2(%d) restrict %s' % (f, id), lambda f=f, id=id: [pr(G('O2', f).restrict_representation(id, G('O2', f).irrep(1, j))) for j in range(f + 1)]))
    import e2cnn.group as g
    for n in (3, 4):
        for s in (1, 2): R.append(('sum C%d %d' % (n, s), lambda n=n, s=s: pr(g.directsum([G('C', n).regular_representation, G('C', n).irrep(1)], change_of_basis=cob(n + G('C', n).irrep(1).size, s), name='mysum'))))
        for s in (1, 2): R.append(('change C%d %d' % (n, s), lambda n=n, s=s: pr(g.change_basis(G('C', n).regular_representation, cob(n, s), 'mychange'))))
    return R


def space_list():
    return [('T', 1, 0.), ('R', 2, 0.), ('R', 4, 0.), ('R', 3, 0.), ('R', -1, 0.), ('F', 1, PI / 2), ('F', 1, 0.), ('F', 1, .4), ('FR', 4, PI / 2), ('FR', 4, 0.), ('FR', 4, .4), ('FR', 2, 0.), ('FR', -1, PI / 2), ('FR', -1, .4)]


def space_reps(sp):
    import e2cnn.group as g
    Gr = sp.fibergroup
    irr = [v for k, v in sorted(Gr.irreps.items())][:4]
    out = irr[:]
    if Gr.order() > 0 and Gr.order() <= 8: out.append(Gr.regular_representation)
    # two different representations that share a name
    n = sum(r.size for r in irr[:2])
    out += [g.directsum(irr[:2], change_of_basis=cob(n, 1), name='clash'), g.directsum(irr[:2], change_of_basis=cob(n, 2), name='clash')]
    return out


def kernel_requests():
    R = []
    for sp in space_list():
        for i in range(3):
            for j in (i, 2 - i):
                for tag, (rings, sig, kw) in enumerate([([0., 1.], [.4, .5], dict(maximum_frequency=2)), ([0., 1.], [.4, .5], dict(maximum_frequency=3)), ([0., 1.5], [.4, .5], dict(maximum_frequency=2)),
                                                         ([0., 1.], [.4, .8], dict(maximum_frequency=2)), ([1., 0.], [.5, .4], dict(maximum_frequency=2)), ([0., 1.], [.4, .5], dict(maximum_offset=1)), ([0., 1., 2.], [.4, .5, .6], dict(maximum_frequency=2))]):
                    if sp[1] == -1 or sp[0] in 'FRTFR':
                        def f(sp=sp, i=i, j=j, rings=rings, sig=sig, kw=kw):
                            s = S(*sp); r = space_reps(s); a, b = r[-1 - i], r[-1 - j]
                            from e2cnn.kernels import EmptyBasisException
                            try: return kb(s, a, b, list(rings), list(sig), **kw)
                            except EmptyBasisException: return ('empty',)
                        R.append(('kernel %s %d %d %d' % (sp, i, j, tag), f))
    return dedupe(R)


def layer_requests():
    R = []
    for sp in space_list():
        def reps(s, which):
            r = space_reps(s)
            return {0: [r[0], r[-1]], 1: [r[-2], r[0]], 2: [r[-1]], 3: [r[min(2, len(r) - 1)], r[-3], r[0]]}[which]
        for w in ((0, 1), (2, 2), (1, 2), (3, 0)):
            for tag, (k, kw) in enumerate([(3, {}), (3, dict(dilation=2)), (3, dict(rings=[0., 1.2])), (3, dict(sigma=.7)), (3, dict(frequencies_cutoff=1.)), (3, dict(frequencies_cutoff=2.)), (3, dict(maximum_offset=0)), (3, dict(maximum_offset=1)),
                                           (3, dict(basis_filter=lambda d: d['frequency'] != 1)), (3, dict(basis_filter=lambda d: d['frequency'] != 0)), (3, dict(recompute=True)), (5, {}), (4, {}), (5, dict(rings=[0., 1.2]))]):
                if (hash_((sp, w, tag)) % 3) != 0: continue
                R.append(('conv %s %s %d' % (sp, w, tag), lambda sp=sp, w=w, k=k, kw=kw, reps=reps: conv(S(*sp), reps(S(*sp), w[0]), reps(S(*sp), w[1]), k, **kw)))
                if hash_((sp, w, tag, 't')) % 3 == 0: R.append(('convT %s %s %d' % (sp, w, tag), lambda sp=sp, w=w, k=k, kw=kw, reps=reps: conv(S(*sp), reps(S(*sp), w[0]), reps(S(*sp), w[1]), k, 'R2ConvTransposed', **kw)))
                if hash_((sp, w, tag, 'h')) % 2 == 0: R.append(('he %s %s %d' % (sp, w, tag), lambda sp=sp, w=w, k=k, kw=kw, reps=reps: hevar(S(*sp), reps(S(*sp), w[0]), reps(S(*sp), w[1]), k, True, **kw)))
            for tag, kw in enumerate([dict(maximum_order=1), dict(maximum_order=2), dict(maximum_order=2, dilation=2), dict(maximum_order=2, maximum_offset=1)]):
                if hash_((sp, w, tag, 'd')) % 3 == 0: R.append(('diffop %s %s %d' % (sp, w, tag), lambda sp=sp, w=w, kw=kw, reps=reps: conv(S(*sp), reps(S(*sp), w[0]), reps(S(*sp), w[1]), 3 + 2 * (kw.get('dilation', 1) > 3), 'R2Diffop', **kw)))
    return R


def module_requests():
    from e2cnn import nn
    import e2cnn.group as g
    R = []

    def clash(s, seed):
        """different representations sharing a name: signed permutations of the regular representation"""
        Gr = s.fibergroup; n = Gr.order()
        rs = np.random.RandomState(seed); P = np.eye(n)[rs.permutation(n)] * (rs.choice([-1., 1.], n)[:, None] if seed > 1 else 1.)
        return g.change_basis(Gr.regular_representation, P, 'clash', supported_nonlinearities=['concatenated', 'norm', 'gated'] + (['pointwise'] if seed == 1 else []))
    for sp in (('R', 3, 0.), ('R', 4, 0.), ('F', 1, 0.), ('FR', 2, 0.)):
        for seed in (1, 2, 3):
            R.append(('concat %s %d' % (sp, seed), lambda sp=sp, seed=seed: module(S(*sp), [clash(S(*sp), seed)], nn.ConcatenatedNonLinearity)))
            R.append(('norm %s %d' % (sp, seed), lambda sp=sp, seed=seed: module(S(*sp), [clash(S(*sp), seed)] * 2, nn.NormNonLinearity)))
            R.append(('disentangle %s %d' % (sp, seed), lambda sp=sp, seed=seed: module(S(*sp), [clash(S(*sp), seed)] * 2, nn.DisentangleModule)))
            R.append(('gnorm %s %d' % (sp, seed), lambda sp=sp, seed=seed: module(S(*sp), [clash(S(*sp), seed)], nn.GNormBatchNorm)))
            R.append(('normpool %s %d' % (sp, seed), lambda sp=sp, seed=seed: module(S(*sp), [clash(S(*sp), seed)], nn.NormPool)))
        R.append(('relu %s' % (sp,), lambda sp=sp: module(S(*sp), [S(*sp).regular_repr], nn.ReLU)))
        R.append(('gpool %s' % (sp,), lambda sp=sp: module(S(*sp), [S(*sp).regular_repr], nn.GroupPooling)))
        for sg in (.4, .6, 1.): R.append(('antialiased %s %s' % (sp, sg), lambda sp=sp, sg=sg: module(S(*sp), [S(*sp).regular_repr], lambda f: nn.PointwiseMaxPoolAntialiased(f, 2, 2, sigma=sg))))
        for mg in (0., 1., 3.): R.append(('mask %s %s' % (sp, mg), lambda sp=sp, mg=mg: module(S(*sp), [S(*sp).regular_repr], lambda f: nn.MaskModule(f, 6, margin=mg))))
    for sp in (('R', -1, 0.), ('FR', -1, 0.), ('FR', -1, .4), ('FR', 4, 0.), ('FR', 4, .4), ('R', 4, 0.)):
        ids = {('R', -1): [1, 2, 4], ('FR', -1): [(None, 4), (0., 4), (.4, 4), (0., 1), (None, -1)], ('FR', 4): [(None, 4), (0, 2), (1, 2), (0, 1), (3, 1)], ('R', 4): [1, 2]}[sp[:2]]
        for id in ids:
            R.append(('restrict %s %s' % (sp, id), lambda sp=sp, id=id: module(S(*sp), [r for k, r in sorted(S(*sp).irreps.items())][:4], lambda f: nn.RestrictionModule(f, id))))
            R.append(('conv on restricted %s %s' % (sp, id), lambda sp=sp, id=id: conv_restricted(sp, id)))
    return R


def conv_restricted(sp, id):
    s = S(*sp); sub, _, _ = s.restrict(id)
    rs = [s.fibergroup.restrict_representation(s_id(s, id), r) for k, r in sorted(s.irreps.items())[:3]]
    return conv(sub, rs, rs[:1], 3)


def s_id(s, id): return id


def hash_(x):
    import hashlib
    return int.from_bytes(hashlib.md5(repr(x).encode()).digest()[:4], 'little')


def dedupe(R):
    seen, out = set(), []
    for k, f in R:
        if k not in seen: seen.add(k); out.append((k, f))
    return out


FAMS = dict(groups=group_requests, kernels=kernel_requests, layers=layer_requests, modules=module_requests)


def same(t, a, b, msg, **kw):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        t.check(len(a) == len(b), msg, a=a, b=b, **kw)
        for x, y in zip(a, b): same(t, x, y, msg, **kw)
    elif isinstance(a, dict):
        t.check(set(a) == set(b), msg, a=a, b=b, **kw)
        for k in a: same(t, a[k], b[k], msg, **kw)
    elif isinstance(a, np.ndarray):
        t.check(isinstance(b, np.ndarray), msg, **kw); t.close(a, b, msg, 1e-5, **kw)
    elif isinstance(a, float): t.check(isinstance(b, (float, int)) and (abs(a - b) < 1e-9 or (a != a and b != b)), msg, a=a, b=b, **kw)
    else: t.check(a == b, msg, a=a, b=b, **kw)


def history(t, fam, part, parts, lv):
    R = dedupe(FAMS[fam]())
    rng = t.rng()
    mine = R[part::parts]
    # alone: each in a pristine process
    alone = {}
    for k, f in mine:
        t.at(request=k)
        alone[k] = core.isolated(f)

    def run(order):
        out = {}
        for k, f in order: out[k] = f()
        return out
    for h in range(2 if lv == 1 else 8):
        # a history: a random prefix of other requests, then mine in a random order, some of them twice
        others = [R[i] for i in rng.permutation(len(R))[:120]]
        seq = others + [mine[i] for i in rng.permutation(len(mine))]
        t.at(family=fam, history=[k for k, _ in seq][:6], length=len(seq))
        got = core.isolated(run, seq)
        for k, _ in mine:
            t.at(request=k, history_before=[q for q, _ in seq[:[q for q, _ in seq].index(k)]][-5:])
            same(t, got[k], alone[k], 'the result depends on what was built before', request=k)
    # repeated requests in this process
    for k, f in mine[:40]:
        t.at(request=k, twice=True); same(t, f(), alone[k], 'the result depends on what was built before', request=k); same(t, f(), alone[k], 'repeating the request gives another result', request=k)
    t.check(len(mine) > 0, 'no request')
    t.sample(dict(family=fam, requests=len(mine), first=mine[0][0]))


# ---------------------------------------------------------------- equality and hashing
def eq_families():
    """name -> list of (args key, builder, fingerprint)"""
    import e2cnn.group as g
    from e2cnn import nn
    F = {}
    gl = [('C', n) for n in (1, 2, 3, 4, 8)] + [('D', n) for n in (1, 2, 3, 4)] + [('SO2', 4), ('O2', 4)]
    F['groups'] = [(k, lambda k=k: G(*k), lambda x: (x.name, x.order(), [str(e) for e in E(x)], [str(x.combine(a, b)) for a in E(x)[:4] for b in E(x)[:4]])) for k in gl]
    sl = [('T',)] + [('R', n, 0.) for n in (2, 3, 4, 8, -1)] + [('F', 1, a) for a in (0., PI / 2, PI / 4, .4)] + [('FR', n, a) for n in (2, 3, 4, -1) for a in (0., PI / 2, PI / 4, .4)]
    def plane(sp):
        Gr = sp.fibergroup
        img = np.random.RandomState(0).randn(1, 1, 9, 9)
        return (Gr.name, np.stack([sp.featurefield_action(img, Gr.trivial_representation, e) for e in E(Gr)]))
    F['spaces'] = [(k, lambda k=k: S(*k), plane) for k in sl]
    reps = []
    for k in (('C', 3), ('C', 4), ('D', 3), ('D', 4), ('O2', 3)):
        for n in (0, 1):
            reps.append((k + ('irrep', n), lambda k=k, n=n: [v for q, v in sorted(G(*k).irreps.items())][n]))
        if k[0] != 'O2': reps.append((k + ('regular',), lambda k=k: G(*k).regular_representation))
        for s in (1, 2): reps.append((k + ('sum', s), lambda k=k, s=s: g.directsum([[v for q, v in sorted(G(*k).irreps.items())][1]] * 2, change_of_basis=cob(2 * [v for q, v in sorted(G(*k).irreps.items())][1].size, s), name='sum')))
    for id in ((0, 1), (1, 1), (2, 1), (None, 2), (0, 2), (1, 2)): reps.append((('D', 4, 'restricted', id), lambda id=id: G('D', 4).restrict_representation(id, G('D', 4).irrep(1, 1))))
    for id in ((0., 4), (.4, 4), (PI / 4, 4)): reps.append((('O2', 3, 'restricted', id), lambda id=id: G('O2', 3).restrict_representation(id, G('O2', 3).irrep(1, 1))))
    F['representations'] = [(k, f, lambda r: (r.group.name, r.size, [np.asarray(r(e)) for e in E(r.group)])) for k, f in reps]
    ft = []
    for sp in (('R', 4, 0.), ('R', 3, 0.), ('FR', 4, 0.), ('FR', 4, .4)):
        for w in ((0,), (0, 1), (1, 0), (1, 1, 0), (0, 1, 1), (-1,), (-2,), (-1, -2), (0, -1)):
            ft.append((sp + (w,), lambda sp=sp, w=w: nn.FieldType(S(*sp), [space_reps(S(*sp))[i] for i in w]), lambda f: (f.gspace.fibergroup.name, plane(f.gspace)[1], f.size, [np.asarray(f.representation(e)) for e in E(f.fibergroup)])))
    F['fieldtypes'] = ft
    kbs = []
    from e2cnn.kernels import EmptyBasisException
    def build_kb(sp, i, j, rings, sig, kw):
        s = S(*sp); r = space_reps(s)
        try: return s.build_kernel_basis(r[i], r[j], list(sig), list(rings), **kw)
        except EmptyBasisException: return None
    for sp in (('T',), ('R', 4, 0.), ('R', 3, 0.), ('R', -1, 0.), ('F', 1, 0.), ('F', 1, .4), ('FR', 4, 0.), ('FR', 4, .4), ('FR', -1, 0.), ('FR', -1, .4)):
        for i, j in ((0, 0), (0, 1), (1, 0), (-1, 0), (-2, 0), (-1, -2), (-2, -1)):
            for c, (rings, sig, kw) in enumerate([([0., 1.], [.4, .5], dict(maximum_frequency=2)), ([0., 1.], [.4, .5], dict(maximum_frequency=3)), ([0., 1.5], [.4, .5], dict(maximum_frequency=2)), ([0., 1.], [.4, .8], dict(maximum_frequency=2)),
                                                  ([1., 0.], [.5, .4], dict(maximum_frequency=2)), ([0., 1.], [.4, .5], dict(maximum_offset=1)), ([0., 1., 2.], [.4, .5, .6], dict(maximum_frequency=2)), ([1.], [.5], dict(maximum_frequency=2))]):
                kbs.append(((sp, i, j, c), lambda sp=sp, i=i, j=j, rings=rings, sig=sig, kw=kw: build_kb(sp, i, j, rings, sig, kw), lambda k: (k.sample(PTS), k.dim, k.shape)))
    F['kernelbases'] = kbs
    dbs = []
    from e2cnn.diffops import DiscretizationArgs
    def build_db(sp, i, j, mo, off):
        s = S(*sp); r = space_reps(s)
        try: return s.build_diffop_basis(r[i], r[j], mo, DiscretizationArgs(angle_offset=off), maximum_frequency=mo)
        except EmptyBasisException: return None
    gx, gy = np.meshgrid(np.arange(-4., 5), np.arange(4., -5, -1))
    grid = np.stack([gx.ravel(), gy.ravel()])
    for sp in (('R', 4, 0.), ('R', -1, 0.), ('F', 1, 0.), ('F', 1, .4), ('FR', 4, 0.), ('FR', 4, .4), ('FR', -1, 0.), ('FR', -1, .4)):
        for i, j in ((0, 0), (0, 1), (1, 0), (-1, 0), (-2, 0)):
            for mo, off in ((0, None), (1, None), (2, None), (1, .4), (1, .5)):
                dbs.append(((sp, i, j, mo, off), lambda sp=sp, i=i, j=j, mo=mo, off=off: build_db(sp, i, j, mo, off), lambda k: (k.sample(grid), k.dim, k.shape)))
    F['diffopbases'] = dbs
    be = []
    def build_be(sp, i, o, k, kw):
        s = S(*sp); r = space_reps(s)
        try: return nn.R2Conv(nn.FieldType(s, [r[q] for q in i]), nn.FieldType(s, [r[q] for q in o]), k, initialize=False, **kw).basisexpansion
        except ValueError: return None
    from vk import layers
    for sp in (('R', 4, 0.), ('F', 1, 0.), ('F', 1, .4), ('FR', 4, 0.), ('FR', 4, .4)):
        for i, o in (((0,), (0,)), ((0, 1), (0,)), ((1, 0), (0,)), ((0,), (0, 1)), ((-1,), (0,)), ((-2,), (0,)), ((0, 1, 0), (1,)), ((0, 0, 1), (1,))):
            for k, kw in ((3, {}), (5, {}), (3, dict(rings=[0., 1.])), (5, dict(rings=[0., 1.])), (3, dict(frequencies_cutoff=1.)), (3, dict(basis_filter=lambda d: d['frequency'] != 1)), (3, dict(recompute=True)), (3, dict(dilation=2))):
                be.append(((sp, i, o, k, tuple(sorted(kw))), lambda sp=sp, i=i, o=o, k=k, kw=kw: build_be(sp, i, o, k, kw), lambda b: layers.weights_matrix(b)))
    F['expansions'] = be
    return F


def finger_equal(a, b, tol=1e-4):
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(finger_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray): return a.shape == b.shape and bool(np.allclose(np.nan_to_num(a), np.nan_to_num(b), atol=tol))
    return a == b


def hashable(x): return type(x).__hash__ is not None


def equality(t, fam, lv):
    L = eq_families()[fam]
    rng = t.rng()
    A = [(k, b(), f) for k, b, f in L]; B = [b() for k, b, f in L]
    idx = [i for i in range(len(A)) if A[i][1] is not None]
    t.check(len(idx) >= 4, 'too few objects')
    fp = {}
    for i in idx:
        k, x, f = A[i]
        t.at(family=fam, args=k)
        fp[i] = f(x)
        t.check(x == x and not (x != x), 'an object is not equal to itself')
        t.check(bool(x == B[i]) and bool(B[i] == x), 'repeating a request gives an unequal object')
        t.check(not (x != B[i]), '!= disagrees with ==')
        if hashable(x): t.check(hash(x) == hash(B[i]) and hash(x) == hash(x), 'equal objects built from the same arguments have different hashes')
        for other in (None, 0, 'x', object()): t.check(not (x == other) and x != other, 'equal to an unrelated object', other=other)
    pairs = [(i, j) for a, i in enumerate(idx) for j in idx[a + 1:]]
    if len(pairs) > 6000 * (1 if lv == 1 else 5): pairs = [pairs[q] for q in rng.choice(len(pairs), 6000 * (1 if lv == 1 else 5), replace=False)]
    neq = 0
    for i, j in pairs:
        t.at(family=fam, a=A[i][0], b=A[j][0])
        e1, e2 = bool(A[i][1] == A[j][1]), bool(B[j] == A[i][1])
        t.check(e1 == e2 == bool(A[j][1] == B[i]), 'equality is not symmetric / not stable')
        t.check(bool(A[i][1] != A[j][1]) == (not e1), '!= disagrees with ==')
        if e1:
            t.check(finger_equal(fp[i], fp[j]), 'objects that behave differently compare equal')
            if hashable(A[i][1]): t.check(hash(A[i][1]) == hash(A[j][1]), 'equal objects have different hashes')
        else: neq += 1
    t.check(neq > 0, 'no unequal pair')
    # equal-hash dictionaries find the right object
    if all(hashable(A[i][1]) for i in idx):
        d = {}
        for i in idx: d.setdefault(A[i][1], i)
        for i in idx: t.check(B[i] in d and finger_equal(fp[d[B[i]]], fp[i]), 'a dictionary keyed by the object confuses it with another', args=A[i][0])
    t.sample(dict(family=fam, objects=len(idx), pairs=len(pairs)))


# ---------------------------------------------------------------- non-interference
def interference(t, i, lv):
    """two layers built from the same cached bases: using, training, converting, exporting one leaves the other as it was"""
    import torch, copy
    from vk import zoo, catalog
    sp = zoo.spaces(2)[i]; rng = t.rng()
    L = catalog.convs(sp, rng, 4) + catalog.convs(sp, rng, 2, transposed=True) + catalog.diffops(sp, rng, 1)
    S_ = catalog.sets(sp, rng)
    L += [e for e in catalog.pointwise_like(sp, rng, S_) + catalog.spatial(sp, rng, S_) if not e['tags'].get('two')] + catalog.chains(sp, rng, S_, 1)
    n = 0
    for e in L:
        h, w = (e['sizes'] or [(9, 9)])[0]
        t.at(space=sp.key, module=e['name'], cfg=e['cfg'])
        a = zoo.randomise(e['make'](), rng).eval()
        x = catalog.inputs(e, rng, h, w, 2)[0]
        go = lambda m: m(zoo.geo(x.tensor.clone(), x.type)).tensor.detach().clone()
        try: y = go(a)
        except (RuntimeError, ValueError): continue
        sd = {k: v.clone() for k, v in a.state_dict().items()}
        b = e['make']()
        for what in ('build', 'train', 'load', 'double', 'half', 'export', 'data'):
            if what == 'build': pass
            elif what == 'train':
                b.train(); zoo.randomise(b, rng)
                try: out = b(zoo.geo(x.tensor.clone(), x.type)).tensor
                except (RuntimeError, ValueError): continue
                P = [p for p in b.parameters() if p.requires_grad]
                if P and out.requires_grad: out.sum().backward(); torch.optim.SGD(P, lr=.5).step()
                b.eval()
            elif what == 'load':
                c = zoo.randomise(e['make']().train(), rng).eval(); b.load_state_dict({k: v.clone() for k, v in c.state_dict().items()})
            elif what in ('double', 'half'): getattr(e['make'](), what)()
            elif what == 'export':
                if not e['tags'].get('export'): continue
                net = a.export(); net.train()
                with torch.no_grad():
                    for p in net.parameters(): p.add_(1.)
                    for q in net.buffers():
                        if q.is_floating_point(): q.mul_(1.5)
                        else: q.add_(3)
                a.eval()
            elif what == 'data':
                # later changes to the input and output tensors
                z = a(zoo.geo(x.tensor.clone(), x.type)).tensor
                with torch.no_grad(): z.mul_(0.)
            t.close(go(a), y, 'using one module changes the behaviour of another', 1e-6, step=what)
            now = a.state_dict()
            t.check(set(now) == set(sd) and all(torch.equal(now[k], sd[k]) for k in sd), 'using one module changes the state of another', step=what, keys=[k for k in sd if k not in now or not torch.equal(now[k], sd[k])][:3])
        n += 1
    t.check(n > 5, 'too few modules')


def arguments(t):
    """constructors neither change their arguments nor depend on later changes to them"""
    import torch
    from e2cnn import nn
    import e2cnn.group as g
    rng = t.rng()
    for sp in space_list():
        s = S(*sp); r = space_reps(s)
        rings, sig = [0., 1.], [.4, .5]
        kw = dict(rings=rings, sigma=sig)
        reps_i, reps_o = [r[0], r[-1]], [r[-1]]
        t.at(space=sp)
        fi, fo = nn.FieldType(s, reps_i), nn.FieldType(s, reps_o)
        try: m = weights(nn.R2Conv(fi, fo, 3, **kw))
        except ValueError: continue
        t.check(rings == [0., 1.] and sig == [.4, .5] and reps_i == [r[0], r[-1]], 'a constructor changes its arguments')
        with torch.no_grad(): f0 = m.expand_parameters()[0].clone()
        rings[1] = 1.3; sig[0] = .9; reps_i.append(r[0]); reps_o.insert(0, r[0])
        with torch.no_grad(): t.close(m.expand_parameters()[0], f0, 'a layer depends on later changes of its arguments')
        t.check(fi.size == r[0].size + r[-1].size and len(fi) == 2 and len(fo) == 1, 'a field type depends on later changes of its arguments')
        m2 = weights(nn.R2Conv(fi, fo, 3, rings=[0., 1.], sigma=[.4, .5]))
        with torch.no_grad(): t.close(m2.expand_parameters()[0], f0, 'a later request is affected by changes of the arguments of an earlier one')
        from e2cnn.kernels import EmptyBasisException
        ra, sa = [0., 1.], [.4, .5]
        try: k = s.build_kernel_basis(r[0], r[-1], sa, ra, maximum_frequency=2)
        except EmptyBasisException: continue
        v = k.sample(PTS).copy(); ra[1] = 3.; sa[1] = 2.; p2 = PTS.copy(); k.sample(p2)
        t.check(np.array_equal(p2, PTS), 'sampling changes the points')
        t.close(k.sample(PTS), v, 'a kernel basis depends on later changes of its arguments')
        for at in k: at['frequency'] = 99
        t.check(all(at['frequency'] != 99 for at in k), 'changing a returned description changes the basis')
        n = r[-1].size; Q = cob(n, 5); Q0 = Q.copy()
        c = g.change_basis(r[-1], Q, 'later')
        t.check(np.array_equal(Q, Q0), 'a constructor changes its arguments')
        before = [np.asarray(c(e)).copy() for e in E(s.fibergroup)]; Q *= 2
        for e, b in zip(E(s.fibergroup), before): t.close(np.asarray(c(e)), b, 'a representation depends on later changes of its arguments')
        be = m2.basisexpansion
        ids = list(be.get_basis_names())
        for d in be.get_basis_info(): d['id'] = 'zzz'; d['frequency'] = 77
        be.get_element_info(0)['id'] = 'yyy'
        t.check(all(d['id'] == i for d, i in zip(be.get_basis_info(), ids)) and be.get_element_info(0)['id'] == ids[0], 'changing a returned description changes the layer')
        m3 = nn.R2Conv(fi, fo, 3, rings=[0., 1.], sigma=[.4, .5])
        t.check([d['id'] for d in m3.basisexpansion.get_basis_info()] == ids, 'changing a returned description changes another layer')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    parts = dict(groups=4, kernels=8, layers=10, modules=4)
    for fam, n in parts.items():
        ctx.cases('history %s' % fam, range(n), lambda t, p, fam=fam, n=n: history(t, fam, p, n, lv), timeout=400)
    ctx.cases('equality', ['groups', 'spaces', 'representations', 'fieldtypes', 'kernelbases', 'diffopbases', 'expansions'], lambda t, fam: equality(t, fam, lv), timeout=400)
    ctx.cases('interference', range(30), lambda t, i: interference(t, i, lv), timeout=300)
    ctx.task('arguments')(arguments)
    try:
        from vk import ded_eq
    except ImportError:
        return
    ded_eq.build_c12(ctx)
