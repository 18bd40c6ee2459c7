"""C17: containers and structural modules route every channel to the right place."""
from vk import groups as gr, zoo, mods, catalog
import numpy as np, math, copy
PROPERTY = 'C17'
LEVEL = 'proof'
EXPLANATION = ('Deductive layer: forward() of the containers executed on symbolic tensors: every output channel is proved to be the stated input channel (or the stated linear combination) for all '
               'inputs. Bounded layer: routing of distinctly tagged fields compared with an explicit slicing oracle, over random labellings, permutations, nestings and group elements.')
TRUSTED = ['torch advanced indexing (exercised in the bounded layer)']
ASSUMPTIONS = ['labels are identifiers without dots (torch buffer names)', 'merged tensors are float32, as the module documents by construction']
BOUND = 'spaces of vk/zoo.py, up to 7 fields, 4 labels, nesting depth 3'


def probe():
    """equivariant modules whose effect identifies them"""
    from e2cnn import nn

    class Scale(nn.EquivariantModule):
        def __init__(self, ft, c):
            super().__init__(); self.in_type = self.out_type = ft; self.c = c
        def forward(self, x): 
            assert x.type == self.in_type
            return nn.GeometricTensor(x.tensor * self.c, self.out_type)
        def evaluate_output_shape(self, s): return s
        def export(self):
            import torch
            m = torch.nn.Conv2d(self.in_type.size, self.in_type.size, 1, groups=self.in_type.size, bias=False); m.weight.data[:] = self.c
            return m

    class Twice(nn.EquivariantModule):
        """outputs the fields twice, the copy scaled"""
        def __init__(self, ft, c):
            super().__init__(); self.in_type = ft; self.out_type = ft + ft; self.c = c
        def forward(self, x):
            import torch
            return nn.GeometricTensor(torch.cat([x.tensor, self.c * x.tensor], 1), self.out_type)
        def evaluate_output_shape(self, s): return (s[0], 2 * s[1]) + tuple(s[2:])

    class Sum2(nn.EquivariantModule):
        """two inputs of the same type"""
        def __init__(self, ft, a, b):
            super().__init__(); self.in_type = (ft, ft); self.out_type = ft; self.a, self.b = a, b
        def forward(self, x, y):
            return nn.GeometricTensor(self.a * x.tensor + self.b * y.tensor, self.out_type)
        def evaluate_output_shape(self, s, s2): return s
    return Scale, Twice, Sum2


def chans(rs, idx):
    pos = mods.offsets(rs)
    return [c for i in idx for c in range(*pos[i])]


def equi(t, f, x, rs, ro, E, what, tol=2e-4):
    y = f(x)
    for e in E: t.close(f(mods.fib(x, rs, e)), mods.fib(y, ro, e), what + ' does not commute with the group element', tol, g=e)


def labelled(t, i, lv):
    import torch
    from e2cnn import nn
    Scale, Twice, Sum2 = probe()
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 1)
    E = E if len(E) <= 5 else [E[j] for j in rng.choice(len(E), 5, replace=False)]
    R = [r for r in mods.allreps(sp, rng) if r.size <= 6]
    for k in range(6 if lv == 1 else 24):
        n = int(rng.randint(1, 8)); rs = zoo.mixed(R, rng, n); ft = zoo.fieldtype(sp, rs)
        names = ['b', 'a', 'c10', 'c9'][:int(rng.randint(1, 5))]
        labels = [names[int(j)] for j in rng.randint(0, len(names), n)]
        if k == 0: labels = sorted(labels)
        x = rng.randn(2, ft.size, 2, 3).astype('float32').astype(float)
        for rsh in (0, 1, 2):
            t.at(space=sp.key, fields=[r.name for r in rs], labels=labels, reshuffle=rsh)
            key = lambda j: (labels[j], rs[j].size)[:rsh] if rsh else ()
            order = sorted(range(n), key=key)                      # stable
            B = nn.BranchingModule(ft, list(labels), reshuffle=rsh)
            want = {l: [j for j in order if labels[j] == l] for l in set(labels)}
            t.check(set(B.out_type) == set(want), 'labels of the branches')
            for lay, v in mods.variants(x.astype('float32')):
                y = B(zoo.geo(v, ft))
                t.check(set(y) == set(want), 'labels of the output')
                shp = B.evaluate_output_shape(tuple(x.shape))
                for l, idx in want.items():
                    t.check(y[l].type.representations == [rs[j] for j in idx] and B.out_type[l] == y[l].type, 'type of a branch', label=l)
                    t.check(y[l].type.gspace == sp.gs, 'space of a branch')
                    t.close(y[l].tensor, x[:, chans(rs, idx)], 'data of a branch', 1e-7, label=l, layout=lay)
                    t.check(tuple(shp[l]) == tuple(y[l].tensor.shape), 'predicted shape of a branch')
            # multiple module: each label processed by its own module, outputs in the order of the module list
            types = {l: zoo.fieldtype(sp, [rs[j] for j in idx]) for l, idx in want.items()}
            mlist, exp, ro = [], [], []
            lorder = list(want); rng.shuffle(lorder)
            free = list(lorder)
            for l in lorder:
                if l not in free: continue
                free.remove(l)
                data = x[:, chans(rs, want[l])]; c = float(rng.uniform(.5, 3)); kind = int(rng.randint(4))
                same = [q for q in free if types[q] == types[l]]
                if kind == 0: mlist.append((Twice(types[l], c), l)); exp += [data, c * data]; ro += types[l].representations * 2
                elif kind == 1 and same:
                    q = same[0]; free.remove(q)
                    a, b = float(rng.uniform(.5, 3)), float(rng.uniform(.5, 3))
                    mlist.append((Sum2(types[l], a, b), [l, q])); exp.append(a * data + b * x[:, chans(rs, want[q])]); ro += types[l].representations
                elif kind == 2: mlist.append((nn.SequentialModule(Scale(types[l], c), Scale(types[l], 2.)), l)); exp.append(2 * c * data); ro += types[l].representations
                else: mlist.append((Scale(types[l], c), l)); exp.append(c * data); ro += types[l].representations
            before = list(mlist)
            M = nn.MultipleModule(ft, list(labels), mlist, reshuffle=rsh)
            t.check(mlist == before, 'MultipleModule changed the list of modules')
            t.check(M.out_type.representations == ro and M.in_type == ft, 'types of MultipleModule', got=[r.name for r in M.out_type.representations], expected=[r.name for r in ro])
            y = mods.frozen(t, M, x, ft)
            t.close(y, np.concatenate(exp, 1), 'MultipleModule does not process each label with its module', 1e-5)
            t.check(tuple(M.evaluate_output_shape(tuple(x.shape))) == y.shape, 'predicted shape')
            equi(t, lambda v: mods.out(M, v, ft), x, rs, ro, E, 'MultipleModule')
            # merging the same branches directly
            Me = nn.MergeModule(list(mlist))
            z = Me({l: zoo.geo(torch.as_tensor(x[:, chans(rs, idx)], dtype=torch.float32), types[l]) for l, idx in want.items()})
            t.check(z.type.representations == ro, 'type of MergeModule')
            t.close(z.tensor, np.concatenate(exp, 1), 'MergeModule', 1e-5)
            # merging labels twice in another order
            two = [(Scale(types[l], 2.), l) for l in lorder] + [(Scale(types[l], 3.), l) for l in reversed(lorder)]
            z = nn.MergeModule(two)(B(zoo.geo(torch.as_tensor(x, dtype=torch.float32), ft)))
            t.close(z.tensor, np.concatenate([2 * x[:, chans(rs, want[l])] for l in lorder] + [3 * x[:, chans(rs, want[l])] for l in reversed(lorder)], 1), 'MergeModule of repeated labels', 1e-5)
        # ill-typed
        other = zoo.fieldtype(sp, rs + [R[0]])
        l0 = lorder[0]
        t.raises(lambda: nn.BranchingModule(ft, labels + ['a']), 'more labels than fields')
        t.raises(lambda: nn.BranchingModule(ft, labels[:-1]), 'fewer labels than fields')
        t.raises(lambda: nn.MultipleModule(ft, labels, [(Scale(zoo.fieldtype(sp, types[l].representations + [R[0]]), 1.) if l == l0 else Scale(types[l], 1.), l) for l in lorder]), 'module of another type for a label')
        t.raises(lambda: nn.MultipleModule(ft, labels, [(Scale(types[l], 1.), l) for l in lorder] + [(Scale(types[l0], 1.), 'nolabel')]), 'label that no field has')
        t.raises(lambda: B(zoo.geo(zoo.randx(other, rng), other)), 'input of another type')
        t.raises(lambda: M(zoo.geo(zoo.randx(other, rng), other)), 'input of another type')
        o2 = zoo.Space('R', 11); fo = zoo.fieldtype(o2, [o2.G.irrep(1)])
        t.raises(lambda: nn.MergeModule([(Scale(types[l0], 1.), l0), (Scale(fo, 1.), 'z')]), 'merging modules of different spaces')
    t.sample(dict(space=sp.key, labels=labels, fields=[r.name for r in rs]))


def structural(t, i, lv):
    import torch
    from e2cnn import nn
    import e2cnn.group as g
    sp = zoo.spaces(2)[i]; rng = t.rng(); E = sp.elements(rng, 2)
    E = E if len(E) <= 6 else [E[j] for j in rng.choice(len(E), 6, replace=False)]
    R = [r for r in mods.allreps(sp, rng) if r.size <= 8]
    for k in range(4 if lv == 1 else 16):
        n = int(rng.randint(1, 7)); rs = zoo.mixed(R, rng, n); ft = zoo.fieldtype(sp, rs)
        x = rng.randn(2, ft.size, 3, 2).astype('float32').astype(float)
        perm = [int(j) for j in rng.permutation(n)]
        t.at(space=sp.key, fields=[r.name for r in rs], permutation=perm)
        # reshuffle
        m = nn.ReshuffleModule(ft, list(perm))
        t.check(m.out_type.representations == [rs[p] for p in perm], 'type of ReshuffleModule')
        y = mods.frozen(t, m, x, ft)
        t.close(y, x[:, chans(rs, perm)], 'ReshuffleModule', 1e-7)
        inv = list(np.argsort(perm))
        t.close(mods.out(nn.ReshuffleModule(m.out_type, [int(j) for j in inv]), y, m.out_type), x, 'reshuffling back', 1e-7)
        equi(t, lambda v: mods.out(m, v, ft), x, rs, [rs[p] for p in perm], E, 'ReshuffleModule')
        t.raises(lambda: nn.ReshuffleModule(ft, perm + [n]), 'index out of range in the permutation')
        if n > 1: t.raises(lambda: nn.ReshuffleModule(ft, perm[:-1]), 'incomplete permutation')
        # identity
        m = nn.IdentityModule(ft)
        t.close(mods.frozen(t, m, x, ft), x, 'IdentityModule', 0.)
        t.check(m.out_type == ft and torch.equal(m.export()(torch.as_tensor(x)), torch.as_tensor(x)), 'export of the identity')
        # disentangle
        m = nn.DisentangleModule(ft)
        y = mods.frozen(t, m, x, ft)
        ro = m.out_type.representations
        t.check(sum(r.size for r in ro) == ft.size and len(ro) >= n, 'type of DisentangleModule')
        equi(t, lambda v: mods.out(m, v, ft), x, rs, ro, E, 'DisentangleModule')
        p = 0; q = 0
        for j, r in enumerate(rs):
            cob, parts = g.disentangle(r)
            a, b = mods.offsets(rs)[j]
            t.check([u.name for u in ro[q:q + len(parts)]] == [u.name for u in parts], 'blocks of a disentangled field', field=j)
            t.close(y[:, a:b], np.einsum('oi,bihw->bohw', np.asarray(cob), x[:, a:b]), 'DisentangleModule does not apply the disentangling change of basis', 2e-5, field=j)
            for e in E: t.close(np.asarray(cob) @ np.asarray(r(e)) @ np.linalg.inv(cob), zoo.rho(parts, e), 'disentangled blocks', 1e-6, g=e)
            q += len(parts)
        other = zoo.fieldtype(sp, rs + [R[0]])
        for c in (nn.IdentityModule(ft), nn.DisentangleModule(ft), nn.ReshuffleModule(ft, perm)):
            t.raises(lambda: c(zoo.geo(zoo.randx(other, rng), other)), 'input of another type accepted')
        # restriction
        ids = catalog.restrict_ids(sp)
        for id in [ids[int(j)] for j in rng.choice(len(ids), min(2, len(ids)), replace=False)] if ids else []:
            t.at(space=sp.key, fields=[r.name for r in rs], restrict=id)
            m = nn.RestrictionModule(ft, id)
            sub, par, ch = sp.gs.restrict(id)
            y = m(zoo.geo(torch.as_tensor(x, dtype=torch.float32), ft))
            t.check(y.type == m.out_type and m.out_type.gspace == sub and len(y.type.representations) == n, 'type of RestrictionModule')
            t.close(y.tensor, x, 'RestrictionModule changed the data', 1e-7)
            H = list(sub.testing_elements)[:6]
            for h in H:
                big = zoo.rho(rs, par(h)); small = zoo.rho(m.out_type.representations, h)
                t.close(small, big, 'restricted fields do not transform like the original ones', 1e-5, h=h)
            t.check(torch.equal(m.export()(torch.as_tensor(x)), torch.as_tensor(x)), 'export of the restriction')
            # restriction then disentangling stays equivariant
            d = nn.DisentangleModule(m.out_type)
            f = lambda v: d(m(zoo.geo(torch.as_tensor(v, dtype=torch.float32), ft))).tensor.numpy().astype(float)
            z = f(x)
            for h in H: t.close(f(mods.fib(x, rs, par(h))), mods.fib(z, d.out_type.representations, h), 'restriction + disentangling', 2e-4, h=h)


def sequences(t, i, lv):
    import torch
    from collections import OrderedDict
    from e2cnn import nn
    Scale, Twice, Sum2 = probe()
    sp = zoo.spaces(2)[i]; rng = t.rng()
    R = [r for r in mods.allreps(sp, rng) if r.size <= 5]
    for k in range(4 if lv == 1 else 12):
        rs = zoo.mixed(R, rng, int(rng.randint(1, 5))); ft = zoo.fieldtype(sp, rs)
        x = rng.randn(2, ft.size, 2, 2).astype('float32').astype(float)
        mods_, cur, exp = [], ft, x
        for s in range(int(rng.randint(1, 5))):
            kind = int(rng.randint(4)); c = float(rng.uniform(.5, 2))
            if kind == 0: m = Scale(cur, c); exp = exp * c
            elif kind == 1 and cur.size < 40: m = Twice(cur, c); exp = np.concatenate([exp, c * exp], 1)
            elif kind == 2:
                p = [int(j) for j in rng.permutation(len(cur.representations))]; m = nn.ReshuffleModule(cur, p); exp = exp[:, chans(cur.representations, p)]
            else:
                m = nn.SequentialModule(Scale(cur, c), nn.IdentityModule(cur)); exp = exp * c
            mods_.append(m); cur = m.out_type
        t.at(space=sp.key, fields=[r.name for r in rs], modules=[type(m).__name__ for m in mods_])
        forms = [nn.SequentialModule(*mods_), nn.SequentialModule(OrderedDict(('m%d' % (9 - j), m) for j, m in enumerate(mods_)))]
        s = nn.SequentialModule()
        for j, m in enumerate(mods_): s.add_module('x%d' % j, m)
        forms.append(s)
        for f in forms:
            t.check(f.in_type == ft and f.out_type == cur, 'types of a sequence')
            y = mods.frozen(t, f, x, ft)
            t.close(y, exp, 'a sequence is not the composition of its modules', 1e-5)
            t.check(tuple(f.evaluate_output_shape(tuple(x.shape))) == y.shape, 'predicted shape')
            f.eval(); t.check(all(not m.training for m in f.modules()), 'eval does not reach the parts'); f.train(); t.check(all(m.training for m in f.modules()), 'train does not reach the parts')
        bad = zoo.fieldtype(sp, cur.representations + [R[0]])
        t.raises(lambda: nn.SequentialModule(*mods_, Scale(bad, 1.)), 'ill-typed sequence')
        t.raises(lambda: nn.SequentialModule(OrderedDict([('u', Scale(bad, 1.))] + [('m%d' % j, m) for j, m in enumerate(mods_)])), 'ill-typed sequence') if bad != ft else None
        t.raises(lambda: s.add_module('bad', Scale(bad, 1.)), 'ill-typed extension')
        if len(rs) > 1 and rs != rs[::-1]:
            t.raises(lambda: nn.SequentialModule(Scale(ft, 1.), Scale(zoo.fieldtype(sp, rs[::-1]), 1.)), 'sequence of types with other field order')
        t.raises(lambda: nn.SequentialModule(Scale(ft, 1.), torch.nn.Identity()), 'a module without types in a sequence')
        # lists
        L = nn.ModuleList(mods_)
        t.check(len(L) == len(mods_) and all(a is b for a, b in zip(L, mods_)), 'ModuleList')
        L.append(mods_[0]); L.insert(0, mods_[-1]); L.extend([mods_[0], mods_[-1]]); L[1] = mods_[-1]
        want = [mods_[-1]] + [mods_[-1]] + mods_[1:] + [mods_[0], mods_[0], mods_[-1]]
        t.check(len(L) == len(want) and all(a is b for a, b in zip(L, want)), 'list operations')
        for op in (lambda: L.append(torch.nn.Identity()), lambda: L.insert(0, torch.nn.Identity()), lambda: L.extend([torch.nn.Identity()]), lambda: L.__setitem__(0, torch.nn.Identity()), lambda: nn.ModuleList([torch.nn.Identity()])):
            t.raises(op, 'a module without types in a list')
        Ls = nn.ModuleList([nn.IdentityModule(ft), nn.RestrictionModule(ft, catalog.restrict_ids(sp)[0])]) if catalog.restrict_ids(sp) else nn.ModuleList([nn.IdentityModule(ft)])
        e = Ls.export()
        t.check(len(e) == len(Ls) and all(torch.equal(m(torch.as_tensor(x)), torch.as_tensor(x)) for m in e), 'export of a list')


def build(ctx):
    lv = 2 if ctx.thorough else 1
    S = zoo.spaces(2)
    key = lambda i: '%d:%s' % (i, S[i].key)
    ctx.cases('labelled', range(len(S)), lambda t, i: labelled(t, i, lv), key)
    ctx.cases('structural', range(len(S)), lambda t, i: structural(t, i, lv), key)
    ctx.cases('sequences', range(len(S)), lambda t, i: sequences(t, i, lv), key)
    try:
        from vk import ded_torch
    except ImportError:
        return
    ded_torch.build_c17(ctx)
