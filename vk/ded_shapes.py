"""Contracts on output shapes (C19): forward executed on tensors that are only shapes, of symbolic batch, height and width, and compared with evaluate_output_shape on the same symbolic shape;
pooling, convolution and upsampling modules also with symbolic kernel size, stride, padding, dilation, output padding and scale.

Every torch operation is used through its documented shape contract (SHAPES below); an operation without a contract makes the obligation undischarged, and the bounded layer stands in."""
import contextlib, itertools, math, sys
from fractions import Fraction as Fr
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from . import sym, zoo, mods, catalog
from .core import Fail, Undecided
from .sym import S, prove, shims, lift

POOL, CONV = 'e2cnn.nn.modules.pooling.', 'e2cnn.nn.modules.r2_conv.'


def CUR(): return sym.CUR


def con(n):
    """a plain int when the size is known"""
    if isinstance(n, S):
        v = n.n().value()
        if v is None: return n
        if v.denominator != 1: raise Undecided('size %s' % v)
        return int(v)
    return int(n)


def same(a, b):
    a, b = con(a), con(b)
    if not isinstance(a, S) and not isinstance(b, S): return a == b
    if not (lift(a) - lift(b)).n().t: return True
    if sym.CUR.entails(sym.cleared((lift(a) - lift(b)).n()) == 0): return True
    return bool(lift(a) == lift(b))


def prod(l):
    r = 1
    for x in l: r = r * x if not isinstance(x, S) else x * r
    return con(r)


class Refused(RuntimeError):
    """torch refuses the sizes: the window is larger than the padded input"""


class Shape(tuple):
    def numel(self): return prod(self)


def known(x):
    """the size under its first name: sizes the path condition makes equal are written the same way"""
    x = con(x)
    if not isinstance(x, S) or sym.CUR is None: return x
    L = sym.CUR.__dict__.setdefault('sizes', [])
    for y in L:
        if not (x - y).n().t: return y
    for y in L:
        if sym.CUR.entails(sym.cleared((x - y).n()) == 0): return y
    L.append(x)
    return x


def H(*s):
    t = torch.Tensor._make_subclass(HT, torch.zeros(1))
    t.hs = Shape(known(x) for x in (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))
    return t


def sh(x):
    if isinstance(x, HT): return x.hs
    if isinstance(x, torch.Tensor): return Shape(int(i) for i in torch.Tensor.size(x))
    if isinstance(x, (int, float, S, bool)): return Shape()
    raise Undecided('operand %s' % type(x).__name__)


def bcast(*xs):
    ss = [sh(x) for x in xs]
    n = max(len(s) for s in ss)
    out = []
    for i in range(n):
        d = 1
        for s in ss:
            j = i - (n - len(s))
            if j < 0: continue
            v = s[j]
            if isinstance(v, int) and v == 1: continue
            if isinstance(d, int) and d == 1: d = v
            elif not same(d, v): raise RuntimeError('shapes do not broadcast')
        out.append(d)
    return H(out)


def quotient(a, b):
    """exact quotient of two polynomials, or None"""
    a, b = a.n(), b.n()
    if not (a.is_poly() and b.is_poly()): return None
    order = sorted(a.symbols() | b.symbols())
    vec = lambda m: tuple(dict(m).get(s, 0) for s in order)
    lead = lambda e: max(((vec(m), v[0]) for (_, m), v in e.t.items()))
    q = lift(0); lb, cb = lead(b)
    for _ in range(200):
        if not a.t: return q
        la, ca = lead(a)
        if any(x < y for x, y in zip(la, lb)): return None
        t = S({(None, tuple((s, x - y) for s, x, y in zip(order, la, lb) if x != y)): (ca / cb, Fr(0))})
        q = q + t; a = (a - t * b).n()
    return None


def ratio(src, want):
    """product of src over product of want"""
    if len([1 for v in want if isinstance(con(v), S)]):
        q = quotient(lift(prod(src)), lift(prod(want)))
        if q is not None and q.n().is_int(): return con(q)
    A, B = [con(v) for v in src], [con(v) for v in want]
    for v in list(B):
        if isinstance(v, S):
            for u in A:
                if isinstance(u, S) and not (u - v).n().t: A.remove(u); B.remove(v); break
    for v in list(B):
        if isinstance(v, S):
            for u in A:
                if isinstance(u, S) and sym.CUR.entails(sym.cleared((u - v).n()) == 0): A.remove(u); B.remove(v); break
    ia, ib = prod([v for v in A if not isinstance(v, S)]), prod([v for v in B if not isinstance(v, S)])
    sa, sb = lift(prod([v for v in A if isinstance(v, S)])), lift(prod([v for v in B if isinstance(v, S)]))
    if not (sa - sb).n().t or sym.CUR.entails(sym.cleared((sa - sb).n()) == 0): q = lift(Fr(ia, ib))
    elif sym.CUR.entails(sym.cleared((sa * ia - sb * ib).n()) == 0): q = lift(1)
    elif len(sb.n().t) == 1: q = (sa * ia) * (sb * ib).inv()
    else: raise Undecided('size of a view %s %s' % ([getattr(x, 't', x) for x in A], [getattr(x, 't', x) for x in B]))
    q = q.n()
    if not q.is_int(): raise Undecided('size of a view is not visibly an integer %s %s' % (src, want))
    return con(q)


def resolve(src, want):
    """sizes of a view: at most one -1"""
    want = [con(w) for w in want]
    neg = [k for k, w in enumerate(want) if isinstance(w, int) and w == -1]
    if neg: want[neg[0]] = ratio(src, [w for k, w in enumerate(want) if k != neg[0]])
    elif not same(prod(want), prod(src)): raise RuntimeError('view of %s as %s' % (src, want))
    return H(want)


def dims(a): return a[0] if len(a) == 1 and isinstance(a[0], (tuple, list, Shape)) else a


def pair(x): return tuple(x) if isinstance(x, (tuple, list)) else (x, x)


def fdiv(a, b): return con(lift(a) // lift(b))


def reduce_(x, dim=None, keepdim=False):
    s = list(sh(x))
    if dim is None: return H([])
    ds = [d % len(s) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
    return H([1 if i in ds else v for i, v in enumerate(s) if keepdim or i not in ds])


def pooled(x, kernel, stride, padding, dilation, ceil):
    """documented: floor((n + 2 p - d (k - 1) - 1) / s) + 1, or the ceiling without a last window that starts in the right padding"""
    b, c = sh(x)[:2]; out = []
    kernel = pair(kernel); stride = kernel if stride is None or stride == [] else pair(stride); padding, dilation = pair(padding), pair(dilation)
    for n, k, s, p, d in zip(sh(x)[2:], kernel, stride, padding, dilation):
        e = lift(n) + 2 * p - d * (lift(k) - 1) - 1
        if not bool(e >= 0): raise Refused('window larger than the input')
        if ceil:
            m = con(1 - lift(fdiv(-e, s)))
            if bool((lift(m) - 1) * s >= lift(n) + p): m = m - 1
        else: m = fdiv(e, s) + 1
        out.append(m)
    return H([b, c] + out)


def f_max_pool2d(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    r = pooled(input, kernel_size, stride, padding, dilation, ceil_mode)
    return (r, H(r.hs)) if return_indices else r


def f_avg_pool2d(input, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None): return pooled(input, kernel_size, stride, padding, 1, ceil_mode)


def f_adaptive(input, output_size, return_indices=False): return H(sh(input)[:2] + tuple(pair(output_size)))


def f_conv2d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    w, x = sh(weight), sh(input)
    if not same(w[1] * groups, x[1]): raise RuntimeError('channels')
    if bias is not None and not same(sh(bias)[0], w[0]): raise RuntimeError('bias')
    out = []
    for n, k, s, p, d in zip(x[2:], w[2:], pair(stride), pair(padding), pair(dilation)):
        e = lift(n) + 2 * p - d * (lift(k) - 1) - 1
        if not bool(e >= 0): raise Refused('kernel larger than the input')
        out.append(fdiv(e, s) + 1)
    return H([x[0], w[0]] + out)


def f_conv_transpose2d(input, weight, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    w, x = sh(weight), sh(input)
    if not same(w[0], x[1]): raise RuntimeError('channels')
    return H([x[0], w[1] * groups] + [(lift(n) - 1) * s - 2 * lift(p) + d * (lift(k) - 1) + o + 1 for n, k, s, p, d, o in zip(x[2:], w[2:], pair(stride), pair(padding), pair(dilation), pair(output_padding))])


def f_pad(input, pad, mode='constant', value=None):
    s = list(sh(input))
    for i in range(len(pad) // 2): s[-1 - i] = con(lift(s[-1 - i]) + pad[2 * i] + pad[2 * i + 1])
    return H(s)


def f_interpolate(input, size=None, scale_factor=None, mode='nearest', align_corners=None, recompute_scale_factor=None, antialias=False):
    x = sh(input)
    if (size is None) == (scale_factor is None): raise ValueError('only one of size and scale_factor')
    if size is not None: return H(x[:2] + tuple(pair(size)))
    return H(x[:2] + tuple(con((lift(n) * f).floor()) for n, f in zip(x[2:], pair(scale_factor))))


def f_batch_norm(input, *a, **k): return H(sh(input))


def getitem(x, idx):
    if isinstance(idx, HT): return H(CUR().fresh('sel', 'int'))      # elements selected by a mask
    s = list(sh(x)); idx = idx if isinstance(idx, tuple) else (idx,)
    if any(i is Ellipsis for i in idx):
        j = [k for k, i in enumerate(idx) if i is Ellipsis][0]
        idx = idx[:j] + (slice(None),) * (len(s) - sum(i is not None for i in idx) + 1) + idx[j + 1:]
    out, p = [], 0
    for i in idx:
        if i is None: out.append(1); continue
        n = s[p]; p += 1
        if isinstance(i, slice):
            if i == slice(None): out.append(n); continue
            g = [None if v is None else int(v) for v in (i.start, i.stop, i.step)]
            if isinstance(n, S): raise Undecided('part of a symbolic axis')
            out.append(len(range(*slice(*g).indices(n))))
        elif isinstance(i, int): pass
        elif isinstance(i, torch.Tensor) and not isinstance(i, HT) and i.dtype in (torch.int64, torch.int32): out += list(i.shape)
        elif isinstance(i, (list,)): out.append(len(i))
        else: raise Undecided('index %s' % type(i).__name__)
    return H(out + s[p:])


class HT(torch.Tensor):
    """a tensor known only by its shape"""
    hs = Shape()
    shape = property(lambda self: self.hs)
    ndim = property(lambda self: len(self.hs))
    device, dtype, is_cuda, requires_grad, layout = torch.device('cpu'), torch.float32, False, False, torch.strided
    data = property(lambda self: self)
    def new(self, *a): return H(*a)
    new_empty = new_zeros = new_ones = lambda self, *a, **k: H(dims(a))
    def size(self, i=None): return self.hs if i is None else self.hs[i]
    def dim(self): return len(self.hs)
    def numel(self): return prod(self.hs)
    def __len__(self): return int(self.hs[0])
    def __repr__(self): return 'HT%s' % (self.hs,)
    def view(self, *a): return resolve(self.hs, dims(a))
    reshape = view
    def expand(self, *a):
        a = dims(a); s = self.hs
        return H([s[i - (len(a) - len(s))] if isinstance(v, int) and v == -1 else v for i, v in enumerate(a)])
    def expand_as(self, o): return H(sh(o))
    def permute(self, *a): return H([self.hs[i] for i in dims(a)])
    def transpose(self, i, j):
        s = list(self.hs); s[i], s[j] = s[j], s[i]
        return H(s)
    def unsqueeze(self, d):
        s = list(self.hs); s.insert(d if d >= 0 else d + len(s) + 1, 1)
        return H(s)
    def flatten(self, start_dim=0, end_dim=-1):
        s = list(self.hs); i, j = start_dim % len(s), end_dim % len(s)
        return H(s[:i] + [prod(s[i:j + 1])] + s[j + 1:])
    def gather(self, d, index): return H(sh(index))
    def __getitem__(self, i): return getitem(self, i)
    def __setitem__(self, i, v):
        if isinstance(i, HT): return          # a mask of the same shape: nothing to check
        bcast(H(sh(getitem(self, i))), v)
    def __bool__(self): raise Undecided('truth of a tensor')
    def norm(self, p=2, dim=None, keepdim=False): return reduce_(self, dim, keepdim)
    def sum(self, dim=None, keepdim=False): return reduce_(self, dim, keepdim)
    mean = sum
    def max(self, dim=None, keepdim=False):
        r = reduce_(self, dim, keepdim)
        return r if dim is None else (r, H(r.hs))
    min = max

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


for _n in ('clone', 'detach', 'contiguous', 'float', 'double', 'to', 'sqrt', 'sqrt_', 'abs', 'neg', 'exp', 'log', 'sigmoid', 'tanh', 'relu', 'clamp', 'clamp_', 'pow', 'masked_fill', 'cpu', 'zero_', 'fill_', 'type', 'bernoulli_', 'relu_', 'uniform_', 'normal_', 'random_'):
    setattr(HT, _n, lambda self, *a, **k: H(self.hs))
for _n in ('add', 'sub', 'mul', 'div', 'add_', 'mul_', 'div_', 'sub_', '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', '__iadd__', '__imul__', '__isub__', '__itruediv__', '__gt__', '__lt__', '__ge__', '__le__', '__eq__', '__ne__'):
    setattr(HT, _n, lambda self, o, **k: bcast(self, o))
HT.__neg__ = lambda self: H(self.hs)
HT.__hash__ = lambda self: id(self)

SAME = {'cos', 'sin', 'relu', 'relu_', 'elu', 'elu_', 'sigmoid', 'tanh', 'dropout', 'dropout2d', 'dropout3d', 'sqrt', 'exp', 'abs', 'clone', 'zeros_like', 'ones_like', 'empty_like', 'batch_norm', 'clamp', 'norm_except_dim', 'rand_like', 'detach', 'leaky_relu', 'softmax', 'square', 'rsqrt', 'isnan', 'bernoulli', 'contiguous'}
BIN = {'add', 'mul', 'sub', 'div', 'true_divide', 'pow', 'gt', 'lt', 'ge', 'le', 'eq', 'max', 'min', 'maximum', 'minimum', 'where'}


def f_cat(tensors, dim=0):
    ts = [sh(x) for x in tensors]; s = list(ts[0])
    for t in ts[1:]:
        for i in range(len(s)):
            if i != dim % len(s) and not same(s[i], t[i]): raise RuntimeError('cat')
    s[dim] = con(sum([lift(t[dim]) for t in ts], lift(0)))
    return H(s)


def f_stack(tensors, dim=0):
    s = list(sh(tensors[0]))
    for t in tensors[1:]:
        if not all(same(a, b) for a, b in zip(s, sh(t))): raise RuntimeError('stack')
    s.insert(dim if dim >= 0 else dim + len(s) + 1, len(tensors))
    return H(s)


def f_einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (tuple, list)): ops = ops[0]
    a, o = eq.replace(' ', '').split('->'); d = {}
    for term, x in zip(a.split(','), ops):
        if len(term) != len(sh(x)): raise RuntimeError('einsum')
        for l, v in zip(term, sh(x)):
            if l in d and not same(d[l], v): raise RuntimeError('einsum')
            d[l] = v
    return H([d[l] for l in o])


FN = dict(max_pool2d=f_max_pool2d, boolean_dispatch=None, avg_pool2d=f_avg_pool2d, adaptive_avg_pool2d=f_adaptive, adaptive_max_pool2d=f_adaptive, conv2d=f_conv2d, conv_transpose2d=f_conv_transpose2d, pad=f_pad, _pad=f_pad,
          interpolate=f_interpolate, cat=f_cat, stack=f_stack, einsum=f_einsum)


def dispatch(func, args, kw):
    n = getattr(func, '__name__', str(func))
    if func is torch.nn.functional.max_pool2d or n in ('max_pool2d', 'max_pool2d_with_indices', '_max_pool2d'):
        if n == 'max_pool2d_with_indices': kw = dict(kw, return_indices=True)
        return f_max_pool2d(*args, **kw)
    if 'adaptive_max_pool2d' in n: return f_adaptive(*args, **kw)
    if FN.get(n): return FN[n](*args, **kw)
    if n in SAME: return H(sh(args[0]))
    if n in ('sum', 'mean', 'norm') or (n in ('max', 'min') and (len(args) < 2 or not isinstance(args[1], torch.Tensor))):
        k = dict(kw); k.pop('p', None); k.pop('dtype', None)
        a = [args[0]] + list(args[2:] if n == 'norm' else args[1:])
        r = reduce_(*a, **k)
        return (r, H(r.hs)) if n in ('max', 'min') and len(a) + len(k) > 1 else r
    if n in BIN or n.strip('_') in BIN: return bcast(*[a for a in args])
    if n in ('view', 'reshape'): return HT.view(args[0], *args[1:])
    if n == 'flatten': return HT.flatten(args[0], *args[1:], **kw)
    if n == 'allclose': return True          # a sanity check on values
    if n in ('__get__',):
        raise Undecided('attribute of a tensor %s' % getattr(func, '__self__', ''))
    if n in ('index_select',):
        s = list(sh(args[0])); s[args[1]] = sh(args[2])[0]
        return H(s)
    if n in ('amax', 'amin'): return reduce_(*args, **kw)
    if n in ('t',): return HT.transpose(args[0], 0, 1)
    if n in ('mv', 'mm', 'matmul', 'bmm', '__matmul__', '__rmatmul__'):
        if n == '__rmatmul__': args = args[::-1]
        a, b = list(sh(args[0])), list(sh(args[1]))
        va, vb = len(a) == 1, len(b) == 1
        if va: a = [1] + a
        if vb: b = b + [1]
        if not same(a[-1], b[-2]): raise RuntimeError('matmul')
        lead = list(sh(bcast(H(a[:-2]), H(b[:-2])))) if len(a) > 2 and len(b) > 2 else (a[:-2] or b[:-2])
        return H(lead + ([] if va else [a[-2]]) + ([] if vb else [b[-1]]))
    if n == 'narrow':
        s = list(sh(args[0])); s[args[1]] = args[3]
        return H(s)
    if n == 'repeat_interleave':
        s = list(sh(args[0])); d = kw.get('dim', args[2] if len(args) > 2 else None); r = kw.get('repeats', args[1] if len(args) > 1 else None)
        if d is None or isinstance(r, torch.Tensor): raise Undecided('no shape contract for this repeat_interleave')
        s[d] = con(lift(s[d]) * r)
        return H(s)
    if hasattr(HT, n) and n in vars(HT): return getattr(HT, n)(*args, **kw)
    raise Undecided('no shape contract for %s' % n)


class Factories(TorchFunctionMode):
    """torch.empty and friends with symbolic sizes"""
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        n = getattr(func, '__name__', '')
        if n in ('empty', 'zeros', 'ones', 'rand', 'randn', 'empty_like', 'full'):
            d = dims(args)
            if n == 'full': d = args[0]
            if any(isinstance(v, S) for v in d): return H(d)
        if any(isinstance(a, HT) for a in args) or any(isinstance(a, HT) for a in kwargs.values()): return dispatch(func, args, kwargs)
        return func(*args, **kwargs)


def nnmods():
    """the modules of e2cnn.nn"""
    import e2cnn.nn
    return [m for n, m in sorted(sys.modules.items()) if n.startswith('e2cnn.nn.') and 'basisexpansion' not in n and m is not None and hasattr(m, '__file__')]


NAMES = ('FloatTensor', 'empty', 'zeros', 'ones', 'rand', 'randn')


def factory(f):
    def g(*a, **k):
        d = dims(a) if a else k.get('size', ())
        return H(d) if any(isinstance(v, S) for v in d) else f(*a, **k)
    return g


def through(f, g):
    """torch's f, or its shape contract g when an argument is symbolic"""
    def h(*a, **k):
        def hit(v): return isinstance(v, (HT, S)) or (isinstance(v, (tuple, list)) and any(isinstance(u, (HT, S)) for u in v))
        return g(*a, **k) if any(hit(v) for v in a) or any(hit(v) for v in k.values()) else f(*a, **k)
    return h


@contextlib.contextmanager
def env():
    import torch.nn.functional as F
    keep = {n: getattr(torch, n) for n in NAMES}
    fn = {n: getattr(F, n) for n in ('conv2d', 'conv_transpose2d', 'pad', 'interpolate', 'avg_pool2d', 'adaptive_avg_pool2d', 'adaptive_max_pool2d')}
    over = {n: through(f, FN[n]) for n, f in fn.items()}
    meth = {n: getattr(torch.Tensor, n) for n in ('expand', 'view', 'reshape', 'new')}
    def method(n, f):
        def g(self, *a, **k):
            if any(isinstance(v, S) for v in (dims(a) if a else ())): return getattr(H(sh(self)), n)(*a, **k)
            return f(self, *a, **k)
        return g
    try:
        for n, f in keep.items(): setattr(torch, n, factory(f))
        for n, f in meth.items(): setattr(torch.Tensor, n, method(n, f))
        for n, f in over.items(): setattr(F, n, f)
        with shims(nnmods(), **over), Factories(): yield
    finally:
        for n, f in fn.items(): setattr(F, n, f)
        for n, f in meth.items(): setattr(torch.Tensor, n, f)
        for n, f in keep.items(): setattr(torch, n, f)


def geo(x, ft):
    from e2cnn.nn import GeometricTensor
    return GeometricTensor(x, ft)


def agree(c, m, ins, shapes):
    """forward on the shapes produces what evaluate_output_shape predicts"""
    y = m(*[geo(H(s), f) for s, f in zip(shapes, ins)])
    p = m.evaluate_output_shape(*shapes)
    c.holds(isinstance(p, (tuple, list)) and len(p) == len(y.tensor.hs), 'the prediction is a shape')
    c.eq(list(p), list(y.tensor.hs), 'the predicted shape is the produced one')
    c.holds(y.type == m.out_type, 'the output has the declared type')
    for v in p:
        if isinstance(v, float): c.holds(False, 'the prediction is made of integers')


def real(t, m, ins, sizes):
    """replay on the real module"""
    from checks import c19
    B, Hh, W = sizes
    if B * Hh * W > 4000000 or max(sizes) > 3000: raise Undecided('model too large to replay')
    for train in (False, True):
        m.train(train)
        xs = [geo(torch.rand(B, f.size, Hh, W), f) for f in ins]
        try: y = m(*xs)
        except (RuntimeError, ValueError) as ex:
            t.check(not c19.accepts(m, Hh, W), 'the module fails on an input for which a shape is predicted', module=type(m).__name__, size=sizes, error=str(ex)[:200])
            return
        p = m.evaluate_output_shape(*[tuple(x.tensor.shape) for x in xs])
        c19.ints(t, p, type(m).__name__)
        t.check(tuple(p) == tuple(y.tensor.shape), 'predicted shape differs from the produced one', module=type(m).__name__, predicted=p, produced=tuple(y.tensor.shape), size=sizes)


def sizes_of(m): return tuple(max(1, int(m.get(q, 1))) for q in ('b', 'h', 'w'))


def catalogue(t, i, part, parts):
    """every module of the catalogue, symbolic batch, height and width"""
    sp = zoo.spaces(2)[i]; rng = np.random.RandomState(5 + i)
    L = catalog.everything(sp, rng, 1, conv=4)
    for j, e in enumerate(L):
        if j % parts != part: continue
        for train in (True, False):
            def contract(c):
                m = e['make'](); m.train(train)
                with env():
                    b, h, w = c.int('b', 1), c.int('h', 1), c.int('w', 1)
                    if e['sizes']: h, w = e['sizes'][0]
                    try: agree(c, m, e['ins'], [(b, f.size, h, w) for f in e['ins']])
                    except Refused: c.holds(True, 'refused sizes')      # refused by torch for these sizes: nothing is produced
            prove(t, '%s %s %s %s' % (e['name'], e['cfg'], [[r.name for r in f.representations] for f in e['ins']], 'train' if train else 'eval'), ['e2cnn.nn.%s.evaluate_output_shape' % e['name']], contract,
                  lambda m, e=e: real(t, e['make'](), e['ins'], sizes_of(m) if not e['sizes'] else (sizes_of(m)[0],) + tuple(e['sizes'][0])))


# ---------------------------------------------------------------- symbolic settings
def ints_of(m, *names): return [int(m.get(n, 1)) for n in names]


def settings(t, which):
    from e2cnn import nn
    sp = zoo.Space('R', 4)
    ft = zoo.fieldtype(sp, [sp.G.regular_representation, sp.G.trivial_representation])
    tr = zoo.fieldtype(sp, [sp.G.trivial_representation, sp.G.irrep(1)])
    one = lambda c, nm: (c.int(nm, 1), c.int(nm + "'", 1))

    def sym_shape(c, f): return (c.int('b', 1), f.size, c.int('h', 1), c.int('w', 1))

    if which == 'pool':
        for cls, dil in ((nn.PointwiseMaxPool, True), (nn.NormMaxPool, True), (nn.PointwiseAvgPool, False)):
            for ceil, form, stride in itertools.product((False, True), ('int', 'pair'), ('given', 'none')):
                def args(c, num=None):
                    g = (lambda n, lo: c.int(n, lo)) if num is None else (lambda n, lo: int(num[n]))
                    v = {}
                    for nm, lo in (('k', 1), ('s', 1), ('p', 0), ('d', 1)):
                        if nm == 's' and stride == 'none': continue
                        if nm == 'd' and not dil: continue
                        v[nm] = g(nm, lo) if form == 'int' else (g(nm + '0', lo), g(nm + '1', lo))
                    kw = dict(kernel_size=v['k'], padding=v['p'], ceil_mode=ceil)
                    if 's' in v: kw['stride'] = v['s']
                    if 'd' in v: kw['dilation'] = v['d']
                    if num is None:
                        for k_, p_ in zip(pair(v['k']), pair(v['p'])): c.assume(k_ - 2 * p_)      # torch accepts padding up to half the kernel
                    return kw

                def contract(c):
                    with env():
                        m = cls(ft, **args(c))
                        try: agree(c, m, [ft], [sym_shape(c, ft)])
                        except Refused: c.holds(True, 'refused sizes')
                prove(t, '%s symbolic settings ceil %s %s stride %s' % (cls.__name__, ceil, form, stride), [], contract, lambda m: real(t, cls(ft, **args(None, m)), [ft], sizes_of(m)), maxpaths=600)
    if which == 'antialiased':
        for sg, s, p in itertools.product((.4, .66, 1.4), ('int', 'pair'), (None, 'int', 'pair')):
            def args(c, num=None):
                g = (lambda n, lo: c.int(n, lo)) if num is None else (lambda n, lo: int(num[n]))
                kw = dict(sigma=sg, stride=g('s', 1) if s == 'int' else (g('s0', 1), g('s1', 1)))
                if p: kw['padding'] = g('p', 0) if p == 'int' else (g('p0', 0), g('p1', 0))
                return kw

            def contract(c):
                with env():
                    m = nn.PointwiseAvgPoolAntialiased(ft, **args(c))
                    try: agree(c, m, [ft], [sym_shape(c, ft)])
                    except Refused: c.holds(True, 'refused sizes')
            prove(t, 'PointwiseAvgPoolAntialiased symbolic settings sigma %s stride %s padding %s' % (sg, s, p), [], contract, lambda m: real(t, nn.PointwiseAvgPoolAntialiased(ft, **args(None, m)), [ft], sizes_of(m)))
        for sg, ceil, form in itertools.product((.4, .66, 1.4), (False, True), ('int', 'pair')):
            def args(c, num=None):
                g = (lambda n, lo: c.int(n, lo)) if num is None else (lambda n, lo: int(num[n]))
                v = {nm: g(nm, lo) if form == 'int' else (g(nm + '0', lo), g(nm + '1', lo)) for nm, lo in (('k', 1), ('s', 1), ('p', 0))}
                if num is None:
                    for k_, p_ in zip(pair(v['k']), pair(v['p'])): c.assume(k_ - 2 * p_)
                return dict(kernel_size=v['k'], stride=v['s'], padding=v['p'], ceil_mode=ceil, sigma=sg)

            def contract(c):
                with env():
                    m = nn.PointwiseMaxPoolAntialiased(ft, **args(c))
                    try: agree(c, m, [ft], [sym_shape(c, ft)])
                    except Refused: c.holds(True, 'refused sizes')
            prove(t, 'PointwiseMaxPoolAntialiased symbolic settings sigma %s ceil %s %s' % (sg, ceil, form), [], contract, lambda m: real(t, nn.PointwiseMaxPoolAntialiased(ft, **args(None, m)), [ft], sizes_of(m)))
    if which in ('conv', 'diffop'):
        cls = nn.R2Conv if which == 'conv' else nn.R2Diffop
        for mode, form, bias in itertools.product(('zeros', 'reflect', 'replicate', 'circular'), ('int', 'pair'), (True, False)):
            def build(num):
                p = ints_of(num, 'p')[0] if form == 'int' else tuple(ints_of(num, 'p0', 'p1'))
                return cls(tr, tr, kernel_size=int(num['k']), stride=int(num['s']), padding=p, dilation=int(num['d']), padding_mode=mode, bias=bias, **({} if which == 'conv' else dict(maximum_order=0)))

            def contract(c):
                with env():
                    s, k, d = c.int('s', 1), c.int('k', 1), c.int('d', 1)
                    p = c.int('p', 0) if form == 'int' else (c.int('p0', 0), c.int('p1', 0))
                    m = cls(tr, tr, kernel_size=3, stride=s, padding=p, padding_mode=mode, bias=bias, **({} if which == 'conv' else dict(maximum_order=1)))
                    m.eval()
                    # the layer for an arbitrary kernel size and dilation: only the number of taps of the stored filter and the two settings differ
                    m.kernel_size, m.dilation = k, d
                    m.filter = H(tr.size, tr.size, k, k)
                    try: agree(c, m, [tr], [sym_shape(c, tr)])
                    except Refused: c.holds(True, 'refused sizes')

            def rep(num):
                if max(int(num.get(q, 0)) for q in ('k', 'd', 'p', 'p0', 'p1')) > 25: raise Undecided('model too large')
                real(t, build(num), [tr], sizes_of(num))
            prove(t, '%s symbolic settings %s padding %s bias %s' % (cls.__name__, mode, form, bias), [], contract, rep)
    if which == 'transposed':
        for bias in (True, False):
            def contract(c):
                with env():
                    s, k, d, p, o = c.int('s', 1), c.int('k', 1), c.int('d', 1), c.int('p', 0), c.int('o', 0)
                    m = nn.R2ConvTransposed(tr, tr, kernel_size=3, stride=s, padding=p, output_padding=o, bias=bias)
                    m.eval()
                    m.kernel_size, m.dilation = k, d
                    m.filter = H(tr.size, tr.size, k, k)
                    agree(c, m, [tr], [sym_shape(c, tr)])

            def rep(num):
                k, s, d, p, o = ints_of(num, 'k', 's', 'd', 'p', 'o')
                if max(k, d, p, o) > 25: raise Undecided('model too large')
                if o >= max(s, d): o = 0
                real(t, nn.R2ConvTransposed(tr, tr, kernel_size=k, stride=s, padding=p, output_padding=o, dilation=d, bias=bias), [tr], sizes_of(num))
            prove(t, 'R2ConvTransposed symbolic settings bias %s' % bias, [], contract, rep)
    if which == 'upsampling':
        for mode, al, form in itertools.product(('nearest', 'bilinear'), (False, True), ('real', 'int', 'size', 'sizes')):
            def args(c, num=None):
                if form == 'real': return dict(scale_factor=c.real('f', Fr(1, 100)) if num is None else float(num['f']))
                if form == 'int': return dict(scale_factor=c.int('f', 1) if num is None else int(num['f']))
                g = (lambda n: c.int(n, 1)) if num is None else (lambda n: int(num[n]))
                return dict(size=g('n') if form == 'size' else (g('n0'), g('n1')))

            def contract(c):
                with env():
                    m = nn.R2Upsampling(ft, mode=mode, align_corners=al, **args(c))
                    agree(c, m, [ft], [sym_shape(c, ft)])
            prove(t, 'R2Upsampling symbolic settings %s %s %s' % (mode, al, form), [], contract, lambda m: real(t, nn.R2Upsampling(ft, mode=mode, align_corners=al, **args(None, m)), [ft], sizes_of(m)))
        for cls, form in itertools.product((nn.PointwiseAdaptiveAvgPool, nn.PointwiseAdaptiveMaxPool), ('size', 'sizes')):
            def args(c, num=None):
                g = (lambda n: c.int(n, 1)) if num is None else (lambda n: int(num[n]))
                return g('n') if form == 'size' else (g('n0'), g('n1'))

            def contract(c):
                with env(): agree(c, cls(ft, args(c)), [ft], [sym_shape(c, ft)])
            prove(t, '%s symbolic settings %s' % (cls.__name__, form), [], contract, lambda m: real(t, cls(ft, args(None, m)), [ft], sizes_of(m)))


def containers(t):
    """sequences, branches and merges of modules of symbolic settings"""
    from e2cnn import nn
    sp = zoo.Space('R', 4); G = sp.G
    ft = zoo.fieldtype(sp, [G.regular_representation] * 2); tr = zoo.fieldtype(sp, [G.trivial_representation])
    lab = ['a', 'b', 'a', 'c']
    f4 = zoo.fieldtype(sp, [G.regular_representation, G.trivial_representation, G.regular_representation, G.irrep(1)])

    def seq(c):
        with env():
            p = c.int('p', 0)
            conv = nn.R2Conv(ft, ft, 3, padding=p, stride=2); conv.eval()
            m = nn.SequentialModule(conv, nn.ReLU(ft), nn.PointwiseAvgPool(ft, 2, stride=c.int('s', 1)), nn.GroupPooling(ft)).eval()
            try: agree(c, m, [ft], [(c.int('b', 1), ft.size, c.int('h', 1), c.int('w', 1))])
            except Refused: c.holds(True, 'refused sizes')
    def rseq(m): real(t, nn.SequentialModule(nn.R2Conv(ft, ft, 3, padding=int(m['p']), stride=2), nn.ReLU(ft), nn.PointwiseAvgPool(ft, 2, stride=int(m['s'])), nn.GroupPooling(ft)), [ft], sizes_of(m))
    prove(t, 'SequentialModule', [], seq, rseq)

    def parts(k, s):
        T = f4.group_by_labels(lab)
        return [(nn.PointwiseMaxPool(T['a'], k, stride=s), 'a'), (nn.PointwiseAvgPool(T['b'], k, stride=s), 'b'), (nn.NormMaxPool(T['c'], k, stride=s), 'c')]

    for reshuffle in (0, 1):
        def mul(c):
            with env():
                m = nn.MultipleModule(f4, lab, parts(c.int('k', 1), c.int('s', 1)), reshuffle)
                try: agree(c, m, [f4], [(c.int('b', 1), f4.size, c.int('h', 1), c.int('w', 1))])
                except Refused: c.holds(True, 'refused sizes')
        prove(t, 'MultipleModule reshuffle %d' % reshuffle, [], mul, lambda m: real(t, nn.MultipleModule(f4, lab, parts(int(m['k']), int(m['s'])), reshuffle), [f4], sizes_of(m)))


def build_c19(ctx):
    n = len(zoo.spaces(2))
    for i in range(n):
        ctx.task('contract.catalogue %d' % i, kind='deductive')(lambda t, i=i: catalogue(t, i, 0, 1))
    for w in ('pool', 'antialiased', 'conv', 'diffop', 'transposed', 'upsampling'): ctx.task('contract.settings ' + w, kind='deductive')(lambda t, w=w: settings(t, w))
    ctx.task('contract.containers', kind='deductive')(containers)
