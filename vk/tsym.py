"""Engine B: symbolic execution of the real torch modules.

A symbolic tensor (class ST) is a real torch tensor whose entries are *handles* into the table of exact symbolic numbers (vk.sym.S) of the current run.  Structural operations (view, reshape, expand,
indexing, slicing, permute, cat, copy, ...) are executed by torch itself on the handles, with torch's own aliasing, stride and shape rules; arithmetic operations are intercepted and computed exactly on the
symbolic numbers; the numeric kernels of torch (conv2d, batch_norm, pooling, interpolation, norm, max, ...) are replaced by their documented contracts.  Fresh memory (torch.empty) holds fresh unknowns, so a
channel that is never written is found.  Scalar functions (exp, sigmoid, elu, max, ...) are uninterpreted functions of canonical arguments; [d > 0] is an uninterpreted indicator, so masks do not split the run.
Everything else raises Undecided: undischarged, never a violation."""
import math, itertools, random, contextlib
from fractions import Fraction as Fr
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from . import sym
from .sym import S, lift, fn, ONE, INTERP, defined
from .core import Undecided, Fail

OFF = torch._C.DisableTorchFunction
FLOATS = (torch.float32, torch.float64, None)


class ST(torch.Tensor):
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None): return dispatch(func, args, kwargs or {})

    def __iter__(self):
        with OFF(): n = self.shape[0]
        return iter([self[i] for i in range(n)])

    def __repr__(self): return 'ST%s' % (tuple(get(self).shape),)
    def __len__(self):
        with OFF(): return self.shape[0]
    def __format__(self, s): return repr(self)
    def __deepcopy__(self, memo): return mk(get(self), raw(self).dtype)


def _dunder(n, o):
    old = getattr(torch.Tensor, n)
    def f(self, *a):
        if any(isinstance(x, S) for x in a): return OPS[o](self, *a)
        return old(self, *a)
    f.__name__ = n
    return f


for _n, _o in (('gt', 'gt'), ('lt', 'lt'), ('ge', 'ge'), ('le', 'le'), ('add', 'add'), ('radd', 'add'), ('sub', 'sub'), ('rsub', 'rsub'), ('mul', 'mul'), ('rmul', 'mul'), ('truediv', 'div'), ('rtruediv', 'rdiv')):
    setattr(ST, '__%s__' % _n, _dunder('__%s__' % _n, _o))


def raw(t):
    with OFF(): return t.as_subclass(torch.Tensor) if isinstance(t, ST) else t


def wrap(t):
    with OFF(): return t.as_subclass(ST)


def tab():
    r = sym.CUR
    if r is None: raise Undecided('symbolic tensor used outside of a run')
    if not hasattr(r, 'tab'): r.tab = [S({}), lift(1)]; r.tabi = {}
    return r.tab


def handle(s):
    T = tab()
    if not isinstance(s, S):
        if isinstance(s, (float, np.floating)) and not math.isfinite(s): raise Undecided('non-finite constant')
        s = cst(s)
    if not s.t: return 0
    T.append(s)
    if len(T) > 1 << 24: raise Undecided('too many symbolic entries')
    return len(T) - 1


CST = {}


def cst(x):
    """a constant of a tensor.  Single precision constants denote the nearby short rational if there is one"""
    if isinstance(x, S): return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        s = CST.get(x)
        if s is not None: return s
        r = Fr(x).limit_denominator(1000)
        if x == 0.: s = S({})
        elif abs(float(r) - x) <= 1e-7 * abs(x): s = S({(None, ()): (r, Fr(0))})
        else: s = S({(None, ()): (Fr(x), Fr(0))})
        if len(CST) < 2000000: CST[x] = s
        return s
    r = lift(x)
    if r is None: raise Undecided('constant %r' % (x,))
    return r


def get(t):
    """object array of S"""
    if isinstance(t, ST):
        r = raw(t)
        with OFF(): h = r.detach().cpu().numpy()
        T = tab()
        out = np.empty(h.shape, object)
        out.reshape(-1)[:] = [T[int(v)] for v in h.ravel().tolist()]
        return out
    if isinstance(t, torch.Tensor):
        with OFF(): h = t.detach().cpu().numpy()
    elif isinstance(t, S):
        h = np.empty((), object); h[()] = t; return h
    else: h = np.asarray(t)
    out = np.empty(h.shape, object)
    if h.dtype.kind == 'f':
        out.reshape(-1)[:] = [cst(v) for v in h.ravel().tolist()]
        return out
    for i in np.ndindex(*h.shape):
        v = h[i]
        out[i] = v if isinstance(v, S) else cst(float(v) if isinstance(v, np.floating) else int(v) if isinstance(v, (np.integer, np.bool_, bool)) else v)
    return out


def mk(a, dtype=None):
    """ST of an object array"""
    a = np.asarray(a, object)
    h = np.empty(a.shape, np.float64)
    h.reshape(-1)[:] = [handle(v) for v in a.ravel().tolist()]
    with OFF(): t = torch.from_numpy(h).to(dtype if dtype in (torch.float32, torch.float64) else torch.get_default_dtype())
    return wrap(t)


def dt(*ts):
    d = None
    for t in ts:
        if isinstance(t, torch.Tensor):
            with OFF(): x = t.dtype
            if x == torch.float64: return x
            if x == torch.float32: d = x
    return d


# ---------------------------------------------------------------- scalar functions
def sfn(name):
    return lambda x, *p: fn(name, x, *p)


def smax(*xs):
    xs = [lift(x).n() for x in xs]
    flat = []
    for x in xs:
        if len(x.t) == 1:
            (a, m), v = next(iter(x.t.items()))
            if a is None and v == ONE and len(m) == 1 and m[0][1] == 1:
                i = sym.CUR.syms[m[0][0]].info
                if isinstance(i, tuple) and i[0] == 'max': flat += i[1]; continue
        flat.append(x)
    out = {}
    c = None
    for x in flat:
        v = x.value()
        if v is not None: c = v if c is None else max(c, v)
        else: out[x.key()] = x
    xs = [out[k] for k in sorted(out, key=repr)]
    if c is not None: xs.append(lift(c))
    return xs[0] if len(xs) == 1 else fn('max', *xs)


def srelu(x): return smax(x, 0)


SPLIT = [False]


@contextlib.contextmanager
def splitting():
    """comparisons split the run instead of becoming indicators"""
    SPLIT[0] = True
    try: yield
    finally: SPLIT[0] = False


def spos(d):
    """[d > 0]"""
    d = lift(d).n()
    v = d.value()
    if v is not None: return lift(int(v > 0))
    if SPLIT[0]: return lift(int(bool(d > 0)))
    if d.is_poly() and any(isinstance(sym.CUR.syms[s].info, tuple) for s in d.symbols()):
        # positive scaling does not matter: make the leading coefficient +-1
        k = min(d.t, key=repr); d = d.scale(1 / abs(d.t[k][0]))
    return fn('pos', d)


INTERP.update(max=lambda *a: max(a), pos=lambda x: 1. if x > 0 else 0., sigmoid=lambda x: 1 / (1 + math.exp(-x)), elu=lambda x, a: x if x > 0 else a * (math.exp(x) - 1), sin=math.sin, cos=math.cos,
              softplus=lambda x: math.log1p(math.exp(x)), leaky=lambda x, s: x if x > 0 else s * x)


def ssqrt(x):
    s = lift(x).sqrt()
    if len(s.t) == 1:
        (a, m), v = next(iter(s.t.items()))
        for nm, p in m:
            if ('nonneg', nm) not in sym.CUR.cache and nm.startswith('sqrt@'):
                sym.CUR.cache['nonneg', nm] = True
                sym.CUR.assume_z(sym.CUR.syms[nm].z >= 0)
                if SPLIT[0]:
                    i = sym.CUR.syms[nm].info
                    if isinstance(i, tuple) and i[0] == 'sqrt':
                        sym.CUR.assume_z(sym.CUR.syms[nm].z * sym.CUR.syms[nm].z == lift(i[1][0]).z())
    return s


def sinv(x): return lift(x).inv()
def sdiv(a, b):
    b = lift(b)
    if b.n().value() == 0: raise Undecided('division by zero')
    return lift(a) * b.inv()


def vec(f, *arrs):
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else [np.asarray(arrs[0], object)]
    out = np.empty(arrs[0].shape, object)
    for i in np.ndindex(*out.shape): out[i] = f(*[a[i] for a in arrs])
    return out


# ---------------------------------------------------------------- dispatch
STRUCT = {'view', 'reshape', 'expand', 'expand_as', 'permute', 'transpose', 't', 'flatten', 'unflatten', 'unsqueeze', 'squeeze', 'contiguous', 'clone', 'detach', 'cat', 'concat', 'stack', 'chunk', 'split', 'index_select', 'repeat',
          'repeat_interleave', 'roll', 'flip', 'narrow', 'select', 'cpu', 'view_as', 'reshape_as', 'movedim', 'unbind', 'broadcast_to', 'rot90', 'hstack', 'vstack', 'tile', 'unfold', 'diagonal', 'as_strided', 'swapaxes', 'swapdims',
          'moveaxis', 'alias', 'requires_grad_', 'detach_', 'atleast_1d', 'take', 'gather', 'split_with_sizes', 'tensor_split', 'ravel', 'swapaxes', 'unsqueeze_', 'squeeze_', 'broadcast_tensors', 'index_copy_', 'index_copy', 'copy'}
META = {'size', 'dim', 'numel', 'nelement', 'is_contiguous', 'stride', 'ndimension', 'is_floating_point', 'get_device', 'data_ptr', 'element_size', 'storage_offset', 'is_complex', 'is_same_size', 'type', 'len', 'is_nonzero_', 'is_tensor'}


def deep(x, f):
    if isinstance(x, torch.Tensor): return f(x)
    if isinstance(x, tuple) and hasattr(x, '_fields'): return type(x)(*[deep(y, f) for y in x])
    if isinstance(x, (list, tuple)): return type(x)(deep(y, f) for y in x)
    if isinstance(x, slice): return slice(deep(x.start, f), deep(x.stop, f), deep(x.step, f))
    if isinstance(x, dict): return {k: deep(v, f) for k, v in x.items()}
    return x


def has(x):
    if isinstance(x, ST): return True
    if isinstance(x, (list, tuple)): return any(has(y) for y in x)
    if isinstance(x, dict): return any(has(y) for y in x.values())
    return False


def toraw(t):
    """raw handle tensor of an ST; a plain float tensor is first turned into handles"""
    if isinstance(t, ST): return raw(t)
    with OFF(): d = t.dtype
    if d in (torch.float32, torch.float64): return raw(mk(get(t), d))
    return t


def wrapf(t):
    with OFF(): d = t.dtype
    return wrap(t) if d in (torch.float32, torch.float64) else t


def fname(func):
    n = getattr(func, '__name__', str(func))
    if n.startswith('__') and n.endswith('__'): n = n[2:-2]
    return n


def structural(func, args, kw):
    # index arguments stay what they are; data arguments become handles
    with OFF(): r = func(*deep(args, toraw), **deep(kw, toraw))
    return deep(r, wrapf)


def dispatch(func, args, kw):
    n = fname(func)
    if any(isinstance(a, Where) for a in args): args = tuple(a.now() if isinstance(a, Where) else a for a in args)
    if any(isinstance(a, Where) for a in kw.values()): kw = {k: a.now() if isinstance(a, Where) else a for k, a in kw.items()}
    if n == 'get' or n == 'set':
        with OFF():
            if n == 'get':
                r = func(raw(args[0]) if not _isprop(func, 'grad') else args[0])
                return wrap(r) if isinstance(r, torch.Tensor) and r.dtype in (torch.float32, torch.float64) else r
            if _isprop(func, 'data'):
                if not isinstance(args[0], ST) and isinstance(args[1], ST): raise Undecided('symbolic values bound to a concrete tensor')
                return func(args[0], toraw(args[1]) if isinstance(args[0], ST) else args[1])
            return func(*args)
    if not has(args) and not has(kw):
        if n in FACTORY: return FACTORY[n](func, args, kw)
        if n in RANDOM: return RANDOM[n](*args, **kw)
        with OFF(): return func(*args, **kw)
    if n in OPS: return OPS[n](*args, **kw)
    if n in STRUCT: return structural(func, args, kw)
    if n in META:
        with OFF(): return func(*deep(args, raw), **kw)
    if n.endswith('_') and n[:-1] in OPS and args and isinstance(args[0], ST): return inplace(args[0], OPS[n[:-1]](*args, **kw))
    if n.startswith('i') and n[1:] in OPS and n in ('iadd', 'isub', 'imul', 'itruediv', 'ipow', 'idiv'): return inplace(args[0], OPS[n[1:]](*args[:2]))
    raise Undecided('torch function %s has no contract' % n)


def _isprop(func, name): return getattr(getattr(func, '__self__', None), '__name__', '') == name


def inplace(dst, src):
    if not isinstance(dst, ST): raise Undecided('symbolic values written into a concrete tensor')
    with OFF():
        s = toraw(src) if isinstance(src, torch.Tensor) else raw(mk(get(src)))
        raw(dst).copy_(s)
    return dst


class Mode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None): return dispatch(func, args, kwargs or {})


FACTORY = {}
OPS = {}


def shape_of(args, kw):
    a = args[0] if args else kw.get('size')
    if isinstance(a, (list, tuple, torch.Size)): return tuple(int(x) for x in a)
    return tuple(int(x) for x in args)


def filled(kind):
    def f(func, args, kw):
        d = kw.get('dtype')
        if d is not None and d not in (torch.float32, torch.float64):
            with OFF(): return func(*args, **kw)
        if kind == 'full':
            sh, v = tuple(args[0]), args[1] if len(args) > 1 else kw['fill_value']
            if d is None and isinstance(v, (int, bool)):
                with OFF(): return func(*args, **kw)
        else: sh, v = shape_of(args, kw), {'zeros': 0, 'ones': 1}.get(kind)
        return mkfill(sh, kind, v, d)
    return f


def mkfill(sh, kind, v, d):
    a = np.empty(sh, object)
    for i in np.ndindex(*sh):
        a[i] = sym.CUR.fresh('norm' if kind == 'randn' else kind, 'real') if kind in ('empty', 'randn', 'norm', 'any') else v
    if kind == 'rand': a = draws(tuple(sh))
    return mk(a, d)


for k in ('empty', 'zeros', 'ones', 'full', 'randn', 'rand'): FACTORY[k] = filled(k)


def op(*names):
    def deco(f):
        for n in names: OPS[n] = f
        return f
    return deco


def result(a, *like): return mk(a, dt(*like))


def put(out, r):
    return r if out is None else inplace(out, r)


def elementwise(names, f):
    @op(*names)
    def g(*ts, out=None, inplace=False, **k):
        r = result(vec(f, *[get(t) for t in ts]), *ts)
        if inplace: return globals()['inplace'](ts[0], r)
        return put(out, r)


def alpha(sgn):
    def g(a, b, alpha=1, out=None): return put(out, result(vec(lambda x, y: x + y * (sgn * alpha), get(a), get(b)), a, b))
    return g


OPS['add'] = OPS['radd'] = alpha(1)
OPS['sub'] = alpha(-1)
OPS['rsub'] = lambda a, b: result(vec(lambda x, y: y - x, get(a), get(b)), a, b)
elementwise(['mul', 'rmul', 'multiply'], lambda a, b: a * b)
elementwise(['div', 'truediv', 'true_divide', 'divide'], sdiv)
elementwise(['rtruediv', 'rdiv'], lambda a, b: sdiv(b, a))
elementwise(['neg', 'negative'], lambda a: -a)
elementwise(['reciprocal'], sinv)
elementwise(['square'], lambda a: a * a)
elementwise(['pow'], lambda a, b: ssqrt(a) if b.value() == Fr(1, 2) else ssqrt(a).inv() if b.value() == Fr(-1, 2) else a ** b)
elementwise(['rpow'], lambda a, b: b ** a)
elementwise(['relu', 'relu_'], srelu)
elementwise(['exp'], lambda a: lift(1) if a.value() == 0 else fn('exp', a))
for f_ in ('sigmoid', 'tanh', 'log', 'softplus'): elementwise([f_], sfn(f_))
elementwise(['sqrt'], ssqrt)
elementwise(['rsqrt'], lambda a: ssqrt(a).inv())
elementwise(['sin'], lambda a: a.sin())
elementwise(['cos'], lambda a: a.cos())
elementwise(['abs', 'absolute'], lambda a: smax(a, -a))
elementwise(['gt', 'greater'], lambda a, b: spos(a - b))
elementwise(['lt', 'less'], lambda a, b: spos(b - a))
elementwise(['ge', 'greater_equal'], lambda a, b: 1 - spos(b - a))
elementwise(['le', 'less_equal'], lambda a, b: 1 - spos(a - b))
elementwise(['and', 'logical_and', 'bitwise_and', 'rand'], lambda a, b: a * b)
elementwise(['or', 'logical_or', 'bitwise_or', 'ror'], lambda a, b: a + b - a * b)
elementwise(['invert', 'logical_not', 'bitwise_not'], lambda a: 1 - a)
elementwise(['maximum', 'fmax'], smax)
elementwise(['minimum', 'fmin'], lambda a, b: -smax(-a, -b))
elementwise(['addcmul_'], lambda a, b, c: a + b * c)
elementwise(['where'], lambda c, a, b: b + c * (a - b))
elementwise(['masked_fill'], lambda x, m, v: x + m * (v - x))
elementwise(['sign'], lambda a: spos(a) - spos(-a))


@op('elu', 'elu_')
def _elu(x, alpha=1., inplace=False, **k):
    r = result(vec(lambda v: fn('elu', v, alpha), get(x)), x)
    return globals()['inplace'](x, r) if inplace else r


@op('leaky_relu')
def _leaky(x, negative_slope=.01, inplace=False): return result(vec(lambda v: fn('leaky', v, cst(negative_slope)), get(x)), x)


@op('clamp', 'clamp_', 'clip', 'clamp_min', 'clamp_max')
def _clamp(x, min=None, max=None, out=None):
    a = get(x)
    if min is not None: a = vec(smax, a, get(min))
    if max is not None: a = vec(lambda u, v: -smax(-u, -v), a, get(max))
    return put(out, result(a, x))


def axes(dim, nd):
    if dim is None or dim == (): return tuple(range(nd))
    if isinstance(dim, int): dim = (dim,)
    return tuple(d % nd for d in dim)


def reduce_(f):
    def g(x, dim=None, keepdim=False, dtype=None, out=None, axis=None, **k):
        if axis is not None: dim = axis
        a = get(x); ax = axes(dim, a.ndim)
        keep = [d for d in range(a.ndim) if d not in ax]
        b = a.transpose(keep + list(ax)).reshape([a.shape[d] for d in keep] + [math.prod(a.shape[d] for d in ax)])
        r = np.empty(b.shape[:-1], object)
        for i in np.ndindex(*r.shape): r[i] = f(list(b[i]))
        if keepdim: r = r.reshape([1 if d in ax else a.shape[d] for d in range(a.ndim)])
        return put(out, result(r, x))
    return g


def ssum(xs):
    d = {}
    for x in xs:
        for k, v in x.t.items():
            w = d.get(k)
            d[k] = v if w is None else sym.cadd(w, v)
    return S({k: v for k, v in d.items() if v[0] or v[1]})


def smean(xs): return ssum(xs) / len(xs)


def svar(xs, ddof):
    m = smean(xs)
    return ssum([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)


OPS['sum'] = reduce_(ssum)
OPS['mean'] = reduce_(smean)
OPS['amax'] = reduce_(lambda xs: smax(*xs))
OPS['amin'] = reduce_(lambda xs: -smax(*[-x for x in xs]))
OPS['prod'] = reduce_(lambda xs: math.prod(xs[1:], start=xs[0]))
OPS['any'] = lambda x, *a, **k: bool_any(x)
OPS['all'] = lambda x, *a, **k: bool_all(x)


@op('var')
def _var(x, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    d = (1 if unbiased else 0) if correction is None else correction
    if isinstance(dim, bool): d, dim = int(dim), None
    return reduce_(lambda xs: svar(xs, d))(x, dim, keepdim)


@op('std')
def _std(x, *a, **k): return OPS['sqrt'](_var(x, *a, **k))


@op('norm', 'vector_norm', 'linalg_norm', 'linalg_vector_norm')
def _norm(x, p='fro', dim=None, keepdim=False, ord=None, **k):
    if (ord if ord is not None else p) not in ('fro', 2, 2., None): raise Undecided('norm of order %r' % p)
    return reduce_(lambda xs: ssqrt(ssum([v * v for v in xs])))(x, dim, keepdim)


class Where:
    """position of a maximum (first one on ties), determined by splitting the run only when it is used"""
    def __init__(self, x, dim, keepdim, sgn): self.__dict__.update(d=(x, dim, keepdim, sgn), v=None)

    def now(self):
        if self.v is None:
            x, dim, keepdim, sgn = self.d
            a = np.moveaxis(get(x), dim, -1)
            r = np.empty(a.shape[:-1], np.int64)
            for i in np.ndindex(*r.shape):
                b = 0
                for j in range(1, a.shape[-1]):
                    if (a[i][j] - a[i][b]) * sgn > 0: b = j
                r[i] = b
            if keepdim: r = np.expand_dims(r, dim)
            with OFF(): self.__dict__['v'] = torch.from_numpy(r)
        return self.v

    def __getattr__(self, k): return getattr(self.now(), k)
    def __mul__(self, o): return self.now() * o
    __rmul__ = __mul__
    def __add__(self, o): return self.now() + o
    __radd__ = __add__
    def __getitem__(self, i): return self.now()[i]


@op('max')
def _max(x, dim=None, keepdim=False, **k):
    if isinstance(dim, torch.Tensor): return OPS['maximum'](x, dim)
    if dim is None: return OPS['amax'](x)
    return Pair(OPS['amax'](x, dim, keepdim), Where(x, dim, keepdim, 1))


@op('min')
def _min(x, dim=None, keepdim=False, **k):
    if isinstance(dim, torch.Tensor): return OPS['minimum'](x, dim)
    if dim is None: return OPS['amin'](x)
    return Pair(OPS['amin'](x, dim, keepdim), Where(x, dim, keepdim, -1))


class Pair(tuple):
    def __new__(c, a, b): return tuple.__new__(c, (a, b))
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def isnum(x): return isinstance(x, (int, float, np.number)) and not isinstance(x, bool)


def idx(i): return deep(i, raw)


def ismask(i): return isinstance(i, ST)


@op('getitem')
def _getitem(x, i):
    if ismask(i) or (isinstance(i, tuple) and any(ismask(j) for j in i)): raise Undecided('selection by a symbolic mask')
    with OFF(): r = toraw(x)[idx(i)]
    return wrapf(r)


@op('setitem')
def _setitem(x, i, v):
    if not isinstance(x, ST): raise Undecided('symbolic values written into a concrete tensor')
    if ismask(i):
        m = get(i); a = get(x)
        if isinstance(v, torch.Tensor):
            with OFF(): nd = v.dim()
            if nd > 0: raise Undecided('masked assignment of a tensor')
        val = get(v)
        inplace(x, result(vec(lambda c, u, w: u + c * (w - u), np.broadcast_to(m.reshape(m.shape + (1,) * (a.ndim - m.ndim)), a.shape), a, val), x))
        return
    if isinstance(i, tuple) and any(ismask(j) for j in i): raise Undecided('assignment by a symbolic mask')
    with OFF():
        s = toraw(v) if isinstance(v, torch.Tensor) else raw(mk(get(v)))
        raw(x)[idx(i)] = s


@op('copy_')
def _copy(x, s, *a, **k): return inplace(x, s)


@op('fill_')
def _fill(x, v): return inplace(x, mk(get(v)))


@op('zero_')
def _zero(x): return inplace(x, mk(get(0.)))


def draws(sh):
    """independent uniform draws from [0, 1)"""
    a = np.empty(sh, object)
    for i in np.ndindex(*sh):
        a[i] = sym.CUR.fresh('unif', 'real'); z = a[i].z()
        sym.CUR.assume_z(z >= 0, z < 1)
    return a


def uniform_(x=None, a=0., b=1., tensor=None, **k):
    if x is None: x = tensor
    with OFF(): sh = tuple(x.shape)
    r = mk(vec(lambda u: cst(a) + (cst(b) - cst(a)) * u, draws(sh)), dt(x))
    return inplace(x, r) if isinstance(x, ST) else r


OPS['uniform_'] = uniform_
RANDOM = {'uniform_': uniform_}
for n_ in ('kaiming_uniform_', 'xavier_uniform_', 'kaiming_normal_', 'xavier_normal_', 'trunc_normal_', 'orthogonal_'):
    OPS[n_] = lambda tensor, *a, **k: inplace(tensor, mkfill(tuple(get(tensor).shape), 'any', None, None))      # nothing is known of the values


def normal_(x=None, mean=0., std=1., tensor=None, **k):
    if x is None: x = tensor
    with OFF(): sh = tuple(x.shape)
    r = mk(vec(lambda u: cst(mean) + cst(std) * u, get(mkfill(sh, 'norm', None, None))), dt(x))
    return inplace(x, r) if isinstance(x, ST) else r


OPS['normal_'] = RANDOM['normal_'] = normal_


@op('bernoulli')
def _bernoulli(x, p=None, **k):
    q = get(x) if p is None else get(p)
    with OFF(): sh = tuple(x.shape)
    return result(vec(lambda u, v: spos(v - u), draws(sh), np.broadcast_to(q, sh)), x)


@op('bernoulli_')
def _bernoulli_(x, p=.5, **k):
    with OFF(): sh = tuple(x.shape)
    r = mk(vec(lambda u, v: spos(v - u), draws(sh), np.broadcast_to(get(p), sh)), dt(x))
    return inplace(x, r) if isinstance(x, ST) else r


RANDOM['bernoulli_'] = _bernoulli_


def drop(units):
    def f(x, p=.5, training=True, inplace=False):
        if lift(p) < 0 or lift(p) > 1: raise ValueError('dropout probability has to be between 0 and 1')
        if not training: return x
        a = get(x)
        q = cst(p) if isinstance(p, (int, float)) else lift(p)
        u = draws(a.shape if units == 'entry' else a.shape[:2])
        if units == 'channel': u = u.reshape(u.shape + (1,) * (a.ndim - 2))
        one = q == 1
        r = vec(lambda v, w: S({}) if one else v * spos(w - q) * (1 - q).inv(), a, u)
        r = result(r, x)
        return globals()['inplace'](x, r) if inplace else r
    return f


OPS['dropout'] = drop('entry')
OPS['dropout_'] = lambda x, p=.5, training=True: drop('entry')(x, p, training, True)
OPS['dropout2d'] = OPS['feature_dropout'] = drop('channel')


@op('empty_like', 'zeros_like', 'ones_like', 'full_like', 'randn_like', 'rand_like')
def _like(x, *a, **k): raise Undecided('like')


def like(kind):
    def f(x, v=None, *a, dtype=None, fill_value=None, **k):
        with OFF(): sh = tuple(x.shape); d = dtype or x.dtype
        if d not in (torch.float32, torch.float64): raise Undecided('integer tensor like a symbolic one')
        return mkfill(sh, kind, {'zeros': 0, 'ones': 1}.get(kind, v if fill_value is None else fill_value), d)
    return f


def newlike(kind):
    def f(x, *sh, dtype=None, **k):
        v = None
        if kind == 'full': v = sh[1]; sh = sh[:1]
        sh = shape_of(sh, k)
        with OFF(): d = dtype or x.dtype
        return mkfill(sh, kind, {'zeros': 0, 'ones': 1}.get(kind, v), d)
    return f


for k_ in ('empty', 'zeros', 'ones', 'full', 'randn', 'rand'):
    OPS[k_ + '_like'] = like(k_)
    OPS['new_' + k_] = newlike(k_)


@op('to', 'type_as', 'float', 'double', 'cuda')
def _to(x, *a, **k):
    d = k.get('dtype')
    for y in a:
        if isinstance(y, torch.dtype): d = y
        elif isinstance(y, torch.Tensor): d = dt(y)
    if d is not None and d not in (torch.float32, torch.float64): raise Undecided('conversion of a symbolic tensor to %s' % d)
    with OFF(): r = raw(x) if d is None else raw(x).to(d)
    return wrap(r)


OPS['float'] = lambda x: _to(x, torch.float32)
OPS['double'] = lambda x: _to(x, torch.float64)


@op('item', 'float_', 'tolist')
def _item(x):
    a = get(x)
    return a.reshape(-1)[0].n()


def sbool(s):
    s = lift(s).n()
    v = s.value()
    if v is not None: return bool(v)
    return bool(s != 0)


@op('bool', 'is_nonzero')
def _bool(x):
    a = get(x).reshape(-1)
    if a.size != 1: raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
    return sbool(a[0])


def bool_any(x): return any(sbool(v) for v in get(x).flat)
def bool_all(x): return all(sbool(v) for v in get(x).flat)


elementwise(['eq'], lambda a, b: (1 - spos(a - b)) * (1 - spos(b - a)))
elementwise(['ne', 'not_equal'], lambda a, b: 1 - (1 - spos(a - b)) * (1 - spos(b - a)))


@op('equal')
def _equal(a, b): a, b = get(a), get(b); return a.shape == b.shape and all(not (x - y).n().t for x, y in zip(a.flat, b.flat))


@op('allclose')
def _allclose(a, b, *x, **k):
    a, b = np.broadcast_arrays(get(a), get(b))
    return all(bool(x == y) for x, y in zip(a.flat, b.flat))


@op('argmax')
def _argmax(x, dim=None, keepdim=False): return Where(x, dim, keepdim, 1).now()


@op('einsum')
def _einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)): ops = ops[0]
    eq = eq.replace(' ', '')
    if '->' not in eq: raise Undecided('einsum form ' + eq)
    if '...' in eq:
        # the ellipsis stands for the remaining (trailing-aligned) axes
        ins = eq.split('->')[0].split(',')
        nd = max(get(o).ndim - len(s.replace('...', '')) for s, o in zip(ins, ops) if '...' in s)
        free = [c for c in 'ZYXWVUTSRQPONMLKJIHGFEDCBA' if c not in eq][:nd]
        out = []
        for s, o in zip(ins, ops): out.append(s.replace('...', ''.join(free[nd - (get(o).ndim - len(s.replace('...', ''))):] if '...' in s and get(o).ndim > len(s.replace('...', '')) else '')))
        eq = ','.join(out) + '->' + eq.split('->')[1].replace('...', ''.join(free))
    return result(esum(eq, *[get(o) for o in ops]), *ops)


def esum(eq, *ops):
    """exact einsum on object arrays, zeros skipped"""
    ins, out = eq.split('->'); ins = ins.split(',')
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise RuntimeError('einsum(): the number of subscripts does not match the dimensions')
        for c, d in zip(s, o.shape):
            if size.setdefault(c, d) != d:
                if size[c] == 1: size[c] = d
                elif d != 1: raise RuntimeError('einsum(): operands do not broadcast')
    con = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], object)
    for i in np.ndindex(*r.shape):
        e = dict(zip(out, i)); tot = []
        for j in itertools.product(*[range(size[c]) for c in con]):
            e.update(zip(con, j)); p = None
            for s, o in zip(ins, ops):
                v = o[tuple(e[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))]
                if not v.t: p = None; break
                p = v if p is None else p * v
            else: tot.append(p)
        r[i] = ssum(tot)
    return r


@op('matmul', 'mm', 'bmm', 'rmatmul', 'mv')
def _matmul(a, b, out=None):
    x, y = get(a), get(b)
    if x.ndim == 2 and y.ndim == 2: r = esum('ij,jk->ik', x, y)
    elif x.ndim == 2 and y.ndim == 1: r = esum('ij,j->i', x, y)
    elif x.ndim == 1 and y.ndim == 2: r = esum('j,jk->k', x, y)
    elif x.ndim == 3 and y.ndim == 3: r = esum('bij,bjk->bik', x, y)
    elif x.ndim == 4 and y.ndim == 4: r = esum('abij,abjk->abik', x, y)
    else: raise Undecided('matmul of shapes %s %s' % (x.shape, y.shape))
    return put(out, result(r, a, b))


# ---------------------------------------------------------------- numeric kernels by their documented contracts
def pair(v): return (v, v) if isinstance(v, int) else (tuple(v) if len(v) == 2 else (v[0], v[0]))


@op('pad', '_pad')
def _pad(x, pad, mode='constant', value=None):
    if mode == 'constant':
        with OFF(): return wrap(torch.nn.functional.pad(raw(x), tuple(pad), 'constant', 0. if value is None else float(handle(cst(float(value))))))
    with OFF(): return wrap(torch.nn.functional.pad(raw(x), tuple(pad), mode))


@op('conv2d')
def _conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    X, W = get(x), get(w)
    (sy, sx), (dy, dx) = pair(stride), pair(dilation)
    if isinstance(padding, str): raise Undecided('conv2d with padding by name')
    py, px = pair(padding)
    b, c, H, Wd = X.shape
    o, ci, kh, kw = W.shape
    if ci * groups != c: raise RuntimeError('conv2d: channels do not match')
    P = np.empty((b, c, H + 2 * py, Wd + 2 * px), object); P[...] = S({}); P[:, :, py:py + H, px:px + Wd] = X
    oh, ow = (H + 2 * py - dy * (kh - 1) - 1) // sy + 1, (Wd + 2 * px - dx * (kw - 1) - 1) // sx + 1
    if oh < 1 or ow < 1: raise RuntimeError('conv2d: kernel larger than the input')
    r = np.empty((b, o, oh, ow), object)
    B = get(bias) if bias is not None else None
    og = o // groups
    for n, k, i, j in np.ndindex(*r.shape):
        g = k // og; tot = [] if B is None else [B[k]]
        for q in range(ci):
            for u in range(kh):
                for v in range(kw):
                    wv = W[k, q, u, v]
                    if wv.t:
                        xv = P[n, g * ci + q, i * sy + u * dy, j * sx + v * dx]
                        if xv.t: tot.append(wv * xv)
        r[n, k, i, j] = ssum(tot)
    return result(r, x, w)


@op('conv_transpose2d')
def _convt(x, w, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    X, W = get(x), get(w)
    (sy, sx), (dy, dx), (py, px), (qy, qx) = pair(stride), pair(dilation), pair(padding), pair(output_padding)
    b, c, H, Wd = X.shape
    ci, og, kh, kw = W.shape
    if ci != c: raise RuntimeError('conv_transpose2d: channels do not match')
    oh, ow = (H - 1) * sy - 2 * py + dy * (kh - 1) + qy + 1, (Wd - 1) * sx - 2 * px + dx * (kw - 1) + qx + 1
    acc = {}
    cg = c // groups
    for n in range(b):
        for q in range(c):
            g = q // cg
            for i in range(H):
                for j in range(Wd):
                    xv = X[n, q, i, j]
                    if not xv.t: continue
                    for k in range(og):
                        for u in range(kh):
                            for v in range(kw):
                                yy, xx = i * sy + u * dy - py, j * sx + v * dx - px
                                if 0 <= yy < oh and 0 <= xx < ow and W[q, k, u, v].t: acc.setdefault((n, g * og + k, yy, xx), []).append(W[q, k, u, v] * xv)
    r = np.empty((b, og * groups, oh, ow), object)
    B = get(bias) if bias is not None else None
    for i in np.ndindex(*r.shape): r[i] = ssum(acc.get(i, []) + ([] if B is None else [B[i[1]]]))
    return result(r, x, w)


@op('batch_norm')
def _bn(x, rm=None, rv=None, weight=None, bias=None, training=False, momentum=.1, eps=1e-5, *a, **k):
    X = get(x)
    C = X.shape[1]
    r = np.empty(X.shape, object)
    W = get(weight) if weight is not None else None
    B = get(bias) if bias is not None else None
    nm, nv = [], []
    for c in range(C):
        xs = list(X[:, c].reshape(-1))
        if training:
            if len(xs) < 2: raise ValueError('Expected more than 1 value per channel when training')
            m, v = smean(xs), svar(xs, 0)
            nm.append((m, svar(xs, 1)))
        else:
            m, v = get(rm)[c], get(rv)[c]
        i = ssqrt(v + cst(eps)).inv()
        y = vec(lambda u: (u - m) * i * (W[c] if W is not None else 1) + (B[c] if B is not None else 0), X[:, c])
        r[:, c] = y
    if training and rm is not None:
        mo = cst(momentum)
        a_ = np.empty(C, object); b_ = np.empty(C, object)
        for c in range(C):
            a_[c] = get(rm)[c] * (1 - mo) + nm[c][0] * mo
            b_[c] = get(rv)[c] * (1 - mo) + nm[c][1] * mo
        inplace(rm, mk(a_)); inplace(rv, mk(b_))
    return result(r, x)


def windows(H, k, s, p, d, ceil):
    n = (H + 2 * p - d * (k - 1) - 1 + (s - 1 if ceil else 0)) // s + 1
    if ceil and (n - 1) * s >= H + p: n -= 1
    return n


def pool_cells(H, W, k, s, p, d, ceil):
    oh, ow = windows(H, k[0], s[0], p[0], d[0], ceil), windows(W, k[1], s[1], p[1], d[1], ceil)
    if oh < 1 or ow < 1: raise RuntimeError('max_pool2d: output size is too small')
    cells = {}
    for i in range(oh):
        for j in range(ow):
            v = [(i * s[0] - p[0] + u * d[0], j * s[1] - p[1] + w * d[1]) for u in range(k[0]) for w in range(k[1])]
            cells[i, j] = [(y, z) for y, z in v if 0 <= y < H and 0 <= z < W]
    return oh, ow, cells


def _pool(x, kernel_size, stride, padding, dilation, ceil_mode, indices):
    X = get(x)
    k, s, p, d = pair(kernel_size), pair(stride if stride not in (None, ()) and stride != [] else kernel_size), pair(padding), pair(dilation)
    H, W = X.shape[2:]
    oh, ow, cells = pool_cells(H, W, k, s, p, d, ceil_mode)
    r = np.empty(X.shape[:2] + (oh, ow), object)
    I = np.zeros(r.shape, np.int64)
    for n, c, i, j in np.ndindex(*r.shape):
        v = cells[i, j]
        if indices:
            b = v[0]
            for q in v[1:]:
                if X[(n, c) + q] > X[(n, c) + b]: b = q
            r[n, c, i, j] = X[(n, c) + b]; I[n, c, i, j] = b[0] * W + b[1]
        else: r[n, c, i, j] = smax(*[X[(n, c) + q] for q in v])
    if not indices: return result(r, x)
    with OFF(): return result(r, x), torch.from_numpy(I)


@op('max_pool2d', '_max_pool2d', 'boolean_dispatch', 'fn')
def _maxpool(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False): return _pool(x, kernel_size, stride, padding, dilation, ceil_mode, return_indices)


@op('max_pool2d_with_indices')
def _maxpooli(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=True): return _pool(x, kernel_size, stride, padding, dilation, ceil_mode, True)


@op('avg_pool2d')
def _avgpool(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    X = get(x)
    k, s, p = pair(kernel_size), pair(stride if stride not in (None, ()) else kernel_size), pair(padding)
    H, W = X.shape[2:]
    oh, ow = windows(H, k[0], s[0], p[0], 1, ceil_mode), windows(W, k[1], s[1], p[1], 1, ceil_mode)
    r = np.empty(X.shape[:2] + (oh, ow), object)
    for n, c, i, j in np.ndindex(*r.shape):
        y0, x0 = i * s[0] - p[0], j * s[1] - p[1]
        y1, x1 = min(y0 + k[0], H + p[0]), min(x0 + k[1], W + p[1])
        size = (y1 - y0) * (x1 - x0)
        y0, x0, y1, x1 = max(y0, 0), max(x0, 0), min(y1, H), min(x1, W)
        v = [X[n, c, y, z] for y in range(y0, y1) for z in range(x0, x1)]
        r[n, c, i, j] = ssum(v) / (divisor_override or (size if count_include_pad else len(v)))
    return result(r, x)


@op('adaptive_avg_pool2d', 'adaptive_max_pool2d')
def _ad(x, *a, **k): raise Undecided('no contract in this form')


def adaptive(f):
    def g(x, output_size, *a, **k):
        X = get(x)
        o = (output_size, output_size) if not isinstance(output_size, (tuple, list)) else tuple(output_size)
        o = tuple(X.shape[2 + i] if v is None else int(v) for i, v in enumerate(o))
        r = np.empty(X.shape[:2] + o, object)
        H, W = X.shape[2:]
        for n, c, i, j in np.ndindex(*r.shape):
            r[n, c, i, j] = f([X[n, c, y, z] for y in range(i * H // o[0], -(-(i + 1) * H // o[0])) for z in range(j * W // o[1], -(-(j + 1) * W // o[1]))])
        return result(r, x)
    return g


OPS['adaptive_avg_pool2d'] = adaptive(smean)
OPS['adaptive_max_pool2d'] = adaptive(lambda v: smax(*v))


@op('interpolate')
def _interp(x, size=None, scale_factor=None, mode='nearest', align_corners=None, recompute_scale_factor=None, antialias=False):
    """bilinear / bicubic / nearest interpolation is linear in the input and acts channel by channel: its matrix is read off from torch on unit impulses"""
    X = get(x)
    b, c, H, W = X.shape
    with OFF():
        e = torch.eye(H * W, dtype=torch.float64).reshape(H * W, 1, H, W)
        M = torch.nn.functional.interpolate(e, size, scale_factor, mode, align_corners, recompute_scale_factor, antialias)
    M = get(M)[:, 0]
    r = np.empty((b, c) + M.shape[1:], object)
    for n, k, i, j in np.ndindex(*r.shape): r[n, k, i, j] = ssum([X[n, k].reshape(-1)[q] * M[q, i, j] for q in range(H * W) if M[q, i, j].t])
    return result(r, x)


# ---------------------------------------------------------------- claims
def tiny(d, tol=1e-6):
    """all coefficients vanish up to the rounding of the constants (constant phases evaluated)"""
    acc = {}
    for (a, m), v in d.t.items():
        z = complex(float(v[0]), float(v[1]))
        if a is not None:
            c = dict(a); q = c.pop((('pi', 1),), 0)
            z *= complex(math.cos(math.pi * float(q)), math.sin(math.pi * float(q)))
            a = tuple(sorted(c.items())) or None
        acc[a, m] = acc.get((a, m), 0) + z
    return all(abs(z) < tol for z in acc.values())


def clear(d, run):
    """the difference times its denominators (roots and reciprocals of non-zero quantities), roots squared away"""
    for _ in range(12):
        d = d.n(); pw = {}
        for (a, m) in d.t:
            for s, p in m:
                i = run.syms[s].info
                if isinstance(i, tuple) and i[0] in ('sqrt', 'inv'):
                    lo, hi = pw.get(s, (0, 0)); pw[s] = (min(lo, p), max(hi, p))
        s = next((q for q, (lo, hi) in pw.items() if (run.syms[q].info[0] == 'sqrt' and (lo < 0 or hi > 1)) or (run.syms[q].info[0] == 'inv' and hi > 0)), None)
        if s is None or len(d.t) > 4000: return d
        kind, (arg,) = run.syms[s].info
        lo, hi = pw[s]; out = []
        for (a, m), v in d.t.items():
            p = dict(m).get(s, 0); rest = S({(a, tuple((x, q) for x, q in m if x != s)): v})
            if kind == 'sqrt':
                p -= lo
                if p >= 2: rest = rest * arg ** (p // 2)
                out.append(rest * S({(None, ((s, 1),)): sym.ONE}) if p % 2 else rest)
            else: out.append(rest * arg ** (hi - p) if hi > p else rest)
        d = ssum(out)
    return d


class K:
    """one contract, two interpretations: symbolic (all values) or concrete (replay of a model with the real torch kernels)"""

    def __init__(self, c=None, env=None):
        self.c, self.env, self.num = c, env, env is not None
        self.rec = {}
        self.pre = []

    def assume(self, e, op='>='):
        """precondition of the contract"""
        if self.num: return
        self.c.assume(e, op); self.pre.append(self.c.run.facts[-1])

    # symbols
    def real(self, name, lo=None, hi=None):
        if self.num: return self.env.get(name, 0.)
        return self.c.real(name, lo, hi)

    def int(self, name, lo=None, hi=None):
        if self.num: return int(self.env.get(name, 0))
        return self.c.int(name, lo, hi)

    pi = property(lambda self: math.pi if self.num else self.c.pi)
    def sqrt(self, a): return math.sqrt(a) if self.num else ssqrt(a)
    def const(self, v): return float(v) if self.num else cst(float(v) if isinstance(v, np.floating) else v)
    def cos(self, a): return math.cos(a) if self.num else lift(a).cos()
    def sin(self, a): return math.sin(a) if self.num else lift(a).sin()

    def array(self, name, shape, pos=False):
        a = np.empty(shape, float if self.num else object)
        n0 = 0 if self.num else len(self.c.run.facts)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + ''.join('_%d' % j for j in i), *((0,) if pos else ()))
            if pos and not self.num: self.c.assume(a[i], '>')
        if not self.num: self.pre += self.c.run.facts[n0:]
        return a

    def tensor(self, a, dtype=torch.float32):
        """tensor with the given entries"""
        if self.num:
            with OFF(): return torch.tensor(np.asarray(a, float), dtype=dtype)
        return mk(a, dtype)

    def arr(self, t):
        if self.num: return t.detach().cpu().numpy().astype(float) if isinstance(t, torch.Tensor) else np.asarray(t, float)
        return get(t)

    def params(self, mod, pos=(), skip=(), names=None):
        """every float parameter and buffer of the module gets arbitrary values.  Returns {name: array}"""
        out = {}
        for mn, m in mod.named_modules():
            for d in (m._parameters, m._buffers):
                for k, v in list(d.items()):
                    full = (mn + '.' if mn else '') + k
                    if v is None or v.dtype not in (torch.float32, torch.float64): continue
                    if any(full == s or k == s for s in skip): continue
                    if names is not None and k not in names: continue
                    out[full] = self.array(full.replace('.', '/'), tuple(v.shape), pos=any(s in k for s in pos))
                    t = self.tensor(out[full], v.dtype)
                    if d is m._parameters and self.num: t = torch.nn.Parameter(t, requires_grad=False)
                    d[k] = t
        return out

    @contextlib.contextmanager
    def running(self):
        with torch.no_grad():
            if self.num: yield
            else:
                with Mode(): yield

    # claims
    def eq(self, a, b, name, tol=2e-3, stol=1e-6):
        a, b = (self.arr(x) if isinstance(x, torch.Tensor) else np.asarray(x, float if self.num else object) for x in (a, b))
        if self.num:
            if a.shape != b.shape: raise Fail('%s: shapes %s %s' % (name, a.shape, b.shape), dict(model=self.env))
            with np.errstate(all='ignore'): bad = ~(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))
            if bad.any():
                i = np.unravel_index(int(np.argmax(bad)), a.shape)
                raise Fail('%s: at %s the real code gives %r, the contract %r' % (name, tuple(int(q) for q in i), float(a[i]), float(b[i])), dict(values={k: round(v, 6) for k, v in list(self.env.items())[:40] if '!' not in k and '@' not in k}))
            return
        if a.shape != b.shape: return self.c._fail(name, 'shapes %s %s' % (a.shape, b.shape))
        left = []
        for x, y in zip(a.flat, b.flat):
            d = (lift(x) - lift(y)).n()
            if not d.t or tiny(d, stol): self.c.ledger.ok(name, 'nf')
            else:
                c = clear(d, self.c.run) if any(isinstance(self.c.run.syms[s].info, tuple) for s in d.symbols()) else d
                if not c.t: self.c.ledger.ok(name, 'nf')
                else: left.append(d)
        if left: self.witness(name, left)

    def atoms(self, e, seen):
        for n in lift(e).n().symbols():
            i = self.c.run.syms[n].info
            if isinstance(i, tuple) and n not in seen:
                seen[n] = i
                for a in i[1]: self.atoms(a, seen)
        return seen

    def witness(self, name, ds):
        """look for values that separate the two sides: random values at several scales (those of the constants the code compares with), then models of the guards"""
        run = self.c.run
        rnd = random.Random(11)
        base = [n for n, s in run.syms.items() if n != 'pi' and not isinstance(s.info, tuple)]
        ds = ds[:6]
        at = {}
        for d in ds: self.atoms(d, at)
        mags = {1.}
        for n, (f, args) in at.items():
            if f in ('pos', 'max'):
                for a in args:
                    for v in a.t.values():
                        c = abs(float(v[0]))
                        if c and c not in (1., .5, 2.): mags.update((2 * c, c / 2, math.sqrt(c) * 1.5, 1 / c))
        mags = sorted(m for m in mags if 1e-4 <= m <= 1e4)[:10]
        t0 = __import__('time').time()

        def trial(env):
            try:
                scale = max([1.] + [abs(v) for n, v in env.items() if n in base]) ** 2
                env['pi'] = math.pi
                env = defined(run, env)
                if any(not rel_ok(d.ev(env).real, o) for d, o in run.facts): return
                for d in ds:
                    v = abs(d.ev(env))
                    if v > 1e-3 * scale and not math.isnan(v): self.c._fail(name, d.show()[:300], env=env)
            except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError): return
        for q in range(80):
            if __import__('time').time() - t0 > 6: break
            env = {}
            if run.facts and (q % 2 or q == 0): env = {n: v for n, v in (run.model() or {}).items() if '@' not in n}
            m = mags[q % len(mags)]
            few = q % 3 == 2
            for n in base:
                if n in env: continue
                if run.syms[n].kind == 'int': env[n] = rnd.randint(0, 3)
                elif q == 1: env[n] = 0.
                else: env[n] = round(rnd.uniform(-2, 2) if q % 4 else rnd.uniform(.1, 2), 3) * (m if not few or rnd.random() < .4 else 1.)
            trial(env)
        # models of the guards
        z = sym.z3()
        defs = []
        for n, (f, args) in at.items():
            try:
                zn = run.syms[n].z
                if f == 'sqrt': defs += [zn * zn == args[0].z(), zn >= 0]
                elif f == 'max': defs += [z.Or([zn == a.z() for a in args])] + [zn >= a.z() for a in args]
                elif f == 'inv': defs += [zn * args[0].z() == 1]
            except Undecided: pass
        for n, (f, args) in list(at.items())[:12]:
            if f != 'pos' or __import__('time').time() - t0 > 15: continue
            for c in (0, 1):
                try:
                    g = args[0].z() > 0 if c else args[0].z() < 0
                    env = run.model(*(defs + [g, z.Or([d.z() != 0 for d in ds if d.is_poly()] or [z.BoolVal(True)])]))
                except Undecided: continue
                if env: trial({n: v for n, v in env.items() if '@' not in n})
        raise Undecided('%s: the difference is not zero in normal form and no value found separates it: %s' % (name, ds[0].show()[:250]))

    def deps(self, e, seen=None):
        """plain symbols an expression depends on"""
        run = self.c.run
        seen = set() if seen is None else seen
        out = set()
        for s in lift(e).n().symbols():
            i = run.syms[s].info
            if isinstance(i, tuple):
                if s not in seen:
                    seen.add(s)
                    for a in i[1]: out |= self.deps(a, seen)
            elif s != 'pi': out.add(s)
        return out

    def indep(self, y, allowed, name):
        """the entries y depend on no other symbols than the allowed ones (a predicate on names)"""
        if self.num: self.rec[name] = self.rec.get(name, []) + [np.asarray(y, float).ravel()]; return
        run = self.c.run
        y = [lift(v).n() for v in np.asarray(y, object).ravel()]
        bad = set()
        for v in y: bad |= {s for s in self.deps(v) if not allowed(s)}
        for f in run.facts:
            if any(not allowed(s) for s in self.deps(f[0])) and not any(f is p for p in self.pre): raise Undecided('%s: control flow depends on other values' % name)
        if not bad: self.c.ledger.ok(name, 'nf'); return
        rnd = random.Random(5)
        base = [n for n, s in run.syms.items() if n != 'pi' and not isinstance(s.info, tuple)]
        mags = [1.]
        at = {}
        for v in y: self.atoms(v, at)
        for n, (f, args) in at.items():
            if f in ('pos', 'max'): mags += [2 * abs(float(v[0])) for a in args for v in a.t.values() if 1e-4 < abs(v[0]) < 1e4 and abs(v[0]) != 1]
        for trial in range(12):
            for s in sorted(bad)[:12]:
                try:
                    env = {n: (round(rnd.uniform(-2, 2), 3) * mags[trial % len(mags)] if run.syms[n].kind == 'real' else rnd.randint(0, 3)) for n in base}; env['pi'] = math.pi
                    e2 = dict(env); e2[s] = env[s] + (1.37 if run.syms[s].kind == 'real' else 1)
                    d1, d2 = defined(run, env), defined(run, e2)
                    if any(not rel_ok(d.ev(q).real, o) for d, o in run.facts for q in (d1, d2)): continue
                    if max(abs(v.ev(d1) - v.ev(d2)) for v in y) > 1e-3:
                        d1['__pert'] = {s: e2[s]}
                        self.c._fail(name, 'depends on ' + s, env=d1)
                except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError): continue
        raise Undecided('%s: depends syntactically on %s' % (name, sorted(bad)[:4]))

    def holds(self, cond, name):
        if self.num:
            if not cond: raise Fail(name, dict(values={k: v for k, v in list(self.env.items())[:40] if '!' not in k and '@' not in k}))
        else: self.c.holds(cond, name)


def rel_ok(v, o):
    return {'>=': v >= -1e-9, '>': v > 0, '<': v < 0, '<=': v <= 1e-9, '==': abs(v) < 1e-9, '!=': abs(v) > 1e-9}[o]


def prove(t, name, functions, contract, **k):
    """contract(K) is claimed for all values; its replay is the same contract on the model's concrete values"""
    def replay(env):
        env = dict(env); pert = env.pop('__pert', None)
        k = K(env=env); contract(k)
        if pert:
            k2 = K(env=dict(env, **pert))
            try: contract(k2)
            except Fail: pass
            for n in k.rec:
                for a, b in zip(k.rec[n], k2.rec.get(n, [])):
                    if a.shape != b.shape or not np.allclose(a, b, atol=1e-4, rtol=1e-3): raise Fail('%s: changing %s changes it' % (n, pert), dict(values={q: v for q, v in list(env.items())[:40] if '!' not in q and '@' not in q}))
    sym.prove(t, name, functions, lambda c: contract(K(c)), replay, strict=False, **k)
