"""Engine A: symbolic execution of the real Python functions.

The functions under contract are *called* (nothing is translated or copied); their arguments are symbolic numbers (class S).  A symbolic number is an exact
exponential polynomial: a finite sum of  c * x1^e1*...*xn^en * exp(i*theta)  with c in Q(i), integer or real symbols x (pi is one of them), integer exponents and theta a real Laurent polynomial.
    * cos/sin are expanded into exponentials, exp(i*theta) is reduced by exp(2*pi*i*integer) = 1, so identities between trigonometric polynomials are decided by normal form;
    * a % n and a // n introduce the quotient as a fresh integer q with  0 <= a - q*n < n ;
    * a comparison whose truth is not implied by the path condition (z3) splits the execution: explore() runs the function once per feasible path.
A contract is a Python function that calls the real code and claims facts with c.eq / c.holds; each claim is one obligation per path, discharged by normal form (backend 'nf') or z3.
Everything the engine cannot express raises Undecided: the obligation is reported as undischarged, never as a violation.
Machine floats are treated as real numbers, np.pi as pi, tolerance-based comparisons as exact ones."""
import math, time, contextlib, fractions, itertools
from fractions import Fraction as Fr
import numpy as np
from .core import Undecided, REPO, repo_fault

ONE = (Fr(1), Fr(0))
CUR = None          # current run


NEG = {'>=': '<', '<': '>=', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


def rel(z, op): return z >= 0 if op == '>=' else z > 0 if op == '>' else z < 0 if op == '<' else z <= 0 if op == '<=' else z == 0 if op == '==' else z != 0


class Sym:
    __slots__ = ('name', 'kind', 'z', 'info')

    def __init__(self, name, kind, z, info=None): self.name, self.kind, self.z, self.info = name, kind, z, info


def z3():
    import z3 as m
    return m


class Run:
    """one path of one contract"""

    def __init__(self, prefix, limit_ms=2000):
        self.prefix, self.i, self.taken = list(prefix), 0, []
        self.alts = []
        self.syms = {}
        self.cons = []
        self.facts = []
        self.soft = {}
        self.subst = {}
        self.cache = {}
        self.n = 0
        self.toks = {}
        self.solver = z3().Solver()
        self.solver.set('timeout', limit_ms)
        self.limit = limit_ms
        pi = self.sym('pi', 'real')
        self.assume_z(pi.z > z3().RealVal('3.14159265'), pi.z < z3().RealVal('3.14159266'))
        self.branches = 0
        self.notes = []
        self.solver_s = 0.

    def sym(self, name, kind, info=None):
        if name in self.syms: return self.syms[name]
        m = z3()
        s = Sym(name, kind, m.Int(name) if kind == 'int' else m.Real(name), info)
        self.syms[name] = s
        return s

    def fresh(self, base, kind):
        self.n += 1
        return S.sym('%s!%d' % (base, self.n), kind)

    def assume_z(self, *cs):
        for c in cs:
            self.cons.append(c); self.solver.add(c)

    def sat(self, *cs):
        t = time.time()
        m = z3()
        self.solver.push()
        try:
            self.solver.add(*cs)
            r = self.solver.check()
        finally:
            self.solver.pop()
            self.solver_s += time.time() - t
        return r

    def entails(self, c):
        return self.sat(z3().Not(c)) == z3().unsat

    def fact(self, d, op):
        """assume  d op 0  for a symbolic polynomial d"""
        z = cleared(d)
        self.assume_z(rel(z, op))
        self.facts.append((d, op))
        if op == '==': self.add_subst(d)

    def decide(self, d, op):
        """truth of  d op 0  on this path"""
        if self.soft:
            v = d.sub(self.soft).value()
            if v is not None: return bool(rel(v, op))
        z = cleared(d)
        k = len(self.cons)
        r = self.branch(rel(z, op))
        if len(self.cons) > k:
            self.facts.append((d, op if r else NEG[op]))
        if (op == '==') == r and op in ('==', '!=') : self.add_subst(d)
        elif len(self.cons) > k and op not in ('==', '!=') and self.entails(z == 0): self.add_subst(d)
        if len(self.cons) > k + 1 and self.sat() == z3().unsat: raise Infeasible()
        return r

    def branch(self, c, why=None):
        """truth of the z3 condition c on this path"""
        m = z3()
        c = m.simplify(c)
        if m.is_true(c): return True
        if m.is_false(c): return False
        t = self.sat(c)
        if t == m.unsat: return False
        f = self.sat(m.Not(c))
        if f == m.unsat: return True
        self.branches += 1
        if self.branches > 60: raise Undecided('more than 60 branches on one path')
        if self.i < len(self.prefix): d = self.prefix[self.i]
        else:
            d = True
            self.alts.append(tuple(self.taken) + (False,))
        self.i += 1
        self.taken.append(d)
        self.assume_z(c if d else m.Not(c))
        return d

    def add_subst(self, e):
        """e == 0 holds: remember it as a rewrite of one symbol if it can be solved for one"""
        e = e.n()
        if not e.t or any(a is not None for (a, _) in e.t): return
        com = None
        for (_, m) in e.t:
            x = dict(m)
            com = x if com is None else {s: min(com.get(s, 0), x.get(s, 0)) for s in set(com) | set(x)}
        f = tuple(sorted((s, -p) for s, p in com.items() if p and nonzero(s)))
        if f: e = e * S({(None, f): ONE})
        cand = [(nm, mono, re) for (a, mono), (re, im) in e.t.items() if im == 0 for nm, p in mono if p == 1 and nm != 'pi']
        for hard in (True, False):
            for nm, mono, re in sorted(cand, key=lambda x: (not x[0].startswith('q!'), self.syms[x[0]].kind == 'int', len(x[1]), x[1])):
                if any(nm == x for (_, mo) in e.t if mo != mono for x, _ in mo): continue
                others = tuple((s, p) for s, p in mono if s != nm)
                if not all(nonzero(s) for s, p in others): continue
                rest = S({(None, madd(k[1], tuple((s, -p) for s, p in others))): v for k, v in e.t.items() if k != (None, mono)}).scale(Fr(-1) / re)
                if nm in rest.symbols(): continue
                if hard and self.syms[nm].kind == 'int' and not rest.is_int(): continue
                if not hard and nm in self.soft: continue
                # soft equations (an integer equal to an expression that is not visibly one) are only used to rewrite comparisons
                self.soft = {k: v.sub({nm: rest}) for k, v in self.soft.items()}
                if hard:
                    self.subst = {k: v.sub({nm: rest}) for k, v in self.subst.items()}
                    self.subst[nm] = rest
                else: self.soft[nm] = rest
                # the facts rewritten by the new equation help the solver
                for d, op in list(self.facts):
                    if nm in d.symbols():
                        d2 = d.n().sub(self.soft)
                        v = d2.value()
                        if v is not None: self.assume_z(z3().BoolVal(bool(rel(v, op))))
                        elif d2.is_poly(): self.assume_z(rel(cleared(d2), op))
                return

    def model(self, *cs):
        """a model of the path condition (and cs) as {symbol: value}"""
        m = z3()
        self.solver.push()
        try:
            self.solver.add(*cs)
            md = None
            for b in (9, 24, 100, None):
                if b is not None:
                    self.solver.push()
                    for s in self.syms.values():
                        if s.kind == 'int': self.solver.add(s.z <= b, s.z >= -b)
                r = self.solver.check()
                if r == m.sat: md = self.solver.model()
                if b is not None: self.solver.pop()
                if md is not None: break
            if md is None: return None
            out = {}
            for nm, s in self.syms.items():
                v = md.eval(s.z, model_completion=True)
                out[nm] = v.as_long() if m.is_int_value(v) else (float(v.as_fraction()) if m.is_rational_value(v) else float(v.approx(12).as_fraction()))
            out['pi'] = math.pi
            return out
        finally:
            self.solver.pop()


def madd(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for s, e in b:
        e2 = d.get(s, 0) + e
        if e2: d[s] = e2
        else: d.pop(s, None)
    return tuple(sorted(d.items()))


def addang(a, b):
    if a is None: return b
    if b is None: return a
    d = dict(a)
    for m, c in b:
        c2 = d.get(m, Fr(0)) + c
        if c2: d[m] = c2
        else: d.pop(m, None)
    return tuple(sorted(d.items())) or None


Z0 = Fr(0)


def cmul(a, b):
    if not a[1] and not b[1]: return (a[0] * b[0], Z0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    if not a[1] and not b[1]: return (a[0] + b[0], Z0)
    return (a[0] + b[0], a[1] + b[1])


def intmono(m): return all(CUR.syms[s].kind == 'int' and e > 0 for s, e in m)


def normang(a):
    """exp(i*a) -> (constant factor, reduced angle)"""
    if a is None: return ONE, None
    d, f = {}, ONE
    for m, c in a:
        p = dict(m)
        if p.get('pi') == 1:
            p.pop('pi'); r = tuple(sorted(p.items()))
            if intmono(r):
                # even powers/products keep parity: reduce the coefficient modulo 2
                c = c - 2 * math.floor(c / 2)
                if c == 0: continue
                if c == 1 and r:
                    # (-1)^(monomial): parity of a monomial is that of its radical
                    r2 = tuple((s, 1) for s, e in r if CUR.syms[s].info != 'odd')
                    if not r2: f = cmul(f, (Fr(-1), Fr(0))); continue
                    m = tuple(sorted(dict(r2, pi=1).items()))
                    c2 = d.get(m, Fr(0)) + 1
                    c2 = c2 - 2 * math.floor(c2 / 2)
                    if c2: d[m] = c2
                    else: d.pop(m, None)
                    continue
                if not r and (c * 2).denominator == 1:
                    f = cmul(f, {1: (Fr(0), Fr(1)), 2: (Fr(-1), Fr(0)), 3: (Fr(0), Fr(-1))}[int(c * 2)])
                    continue
        c2 = d.get(m, Fr(0)) + c
        if c2: d[m] = c2
        else: d.pop(m, None)
    return f, tuple(sorted(d.items())) or None


def frac(x):
    if isinstance(x, (bool, np.bool_)): return Fr(int(x))
    if isinstance(x, (int, np.integer)): return Fr(int(x))
    if isinstance(x, Fr): return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x): raise Undecided('non-finite constant')
        return Fr(x)
    return None


def lift(x):
    if isinstance(x, S): return x
    if isinstance(x, (float, np.floating)) and not isinstance(x, bool):
        x = float(x)
        if x != 0.:
            q = x / math.pi
            r = Fr(q).limit_denominator(360)
            # a float constant computed from np.pi denotes the rational multiple of pi
            if r and r.denominator <= 360 and abs(q - r) < 4e-15 * max(1., abs(q)) and abs(r) <= 64 and Fr(x).denominator > 2 ** 20:
                return S({(None, (('pi', 1),)): (r, Fr(0))})
            r = Fr(x).limit_denominator(1000)
            if abs(float(r) - x) <= 2e-16 * abs(x): return S({(None, ()): (r, Fr(0))})
    f = frac(x)
    if f is None: return None
    return S({(None, ()): (f, Fr(0))} if f else {})


class S:
    """symbolic number"""
    __slots__ = ('t', '_h')

    def __init__(self, t): self.t = t; self._h = None

    # ---- constructors
    @staticmethod
    def sym(name, kind): CUR.sym(name, kind); return S({(None, ((name, 1),)): ONE})

    @staticmethod
    def const(c): return lift(c)

    @staticmethod
    def expi(theta):
        """exp(i theta)"""
        theta = theta.n()
        if any(a is not None for a, _ in theta.t) or any(v[1] for v in theta.t.values()): raise Undecided('exponential of a non-polynomial angle')
        f, a = normang(tuple(sorted((m, v[0]) for (_, m), v in theta.t.items())) or None)
        return S({(a, ()): f})

    # ---- structure
    def is_const(self): return all(k == (None, ()) for k in self.t)

    def value(self):
        """rational constant or None"""
        if not self.t: return Fr(0)
        if self.is_const() and self.t[(None, ())][1] == 0: return self.t[(None, ())][0]
        return None

    def is_int(self):
        return all(a is None and v[1] == 0 and v[0].denominator == 1 and intmono(m) for (a, m), v in self.t.items())

    def is_poly(self): return all(a is None and v[1] == 0 for (a, m), v in self.t.items())

    def symbols(self):
        out = set()
        for (a, m) in self.t:
            out |= {s for s, _ in m}
            if a: out |= {s for mm, _ in a for s, _ in mm}
        return out

    def scale(self, c): return S({k: (v[0] * c, v[1] * c if v[1] else Z0) for k, v in self.t.items()}) if c else S({})

    def sub(self, d):
        if not (self.symbols() & set(d)): return self
        out = S({})
        for (a, m), v in self.t.items():
            e = S({(None, ()): v})
            for s, p in m:
                b = d[s] if s in d else S({(None, ((s, 1),)): ONE})
                e = e * (b ** p)
            if a is not None:
                th = S({})
                for mm, c in a:
                    f = S({(None, ()): (c, Fr(0))})
                    for s, p in mm:
                        b = d[s] if s in d else S({(None, ((s, 1),)): ONE})
                        f = f * (b ** p)
                    th = th + f
                e = e * S.expi(th)
            out = out + e
        return out

    def n(self):
        return self.sub(CUR.subst) if CUR is not None and CUR.subst else self

    def key(self): return tuple(sorted(self.t.items(), key=repr))

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None: return NotImplemented
        d = dict(self.t)
        for k, v in o.t.items():
            w = d.get(k)
            if w is None: d[k] = v
            else:
                w = cadd(w, v)
                if w[0] or w[1]: d[k] = w
                else: d.pop(k)
        return S(d)
    __radd__ = __add__

    def __neg__(self): return self.scale(Fr(-1))
    def __pos__(self): return self

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None: return NotImplemented
        d = {}
        if len(self.t) * len(o.t) > 20000: raise Undecided('expression too large')
        for (a, m), v in self.t.items():
            for (b, k), w in o.t.items():
                c = cmul(v, w)
                ang = None
                if a is not None or b is not None:
                    f, ang = normang(addang(a, b)); c = cmul(c, f)
                q = (ang, madd(m, k))
                x = d.get(q)
                if x is not None: c = cadd(x, c)
                if c[0] or c[1]: d[q] = c
                else: d.pop(q, None)
        return S(d)
    __rmul__ = __mul__

    def inv(self):
        e = self.n()
        if not e.t: raise ZeroDivisionError('division by a symbolic zero')
        if len(e.t) != 1: return fn('inv', e)
        (a, m), v = next(iter(e.t.items()))
        q = v[0] * v[0] + v[1] * v[1]
        f, ang = normang(tuple((k, -c) for k, c in a) if a else None)
        return S({(ang, tuple((s, -p) for s, p in m)): cmul((v[0] / q, -v[1] / q), f)})

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o * self.inv()

    def __pow__(self, k):
        if isinstance(k, S):
            b = self.value()
            kk = k.value()
            if kk is not None: k = kk
            elif b == -1 and k.is_int(): return S.expi(k * S.sym('pi', 'real'))
            else: return fn('pow', self, k)
        f = frac(k)
        if f is None: return NotImplemented
        if f == Fr(1, 2): return self.sqrt()
        if f.denominator != 1: return fn('pow', self, lift(f))
        k = int(f)
        if k < 0: return self.inv() ** (-k)
        out = S({(None, ()): ONE})
        for _ in range(k): out = out * self
        return out

    def __rpow__(self, b):
        b = lift(b)
        return NotImplemented if b is None else b ** self

    def __abs__(self): return self if CUR.branch(self.z() >= 0) else -self
    def fabs(self): return abs(self)

    # ---- division with remainder
    def __divmod__(self, o):
        o = lift(o)
        if o is None: return NotImplemented
        a, n = self.n(), o.n()
        v = n.value()
        if v is not None:
            if v == 0: raise ZeroDivisionError('modulo by zero')
            if v < 0: raise Undecided('remainder by a negative number')
        elif not CUR.branch(cleared(n) > 0):
            if not CUR.branch(cleared(n) < 0): raise ZeroDivisionError('modulo by zero')
            raise Undecided('remainder by a negative number')
        c = S({})
        if len(n.t) == 1:
            (_, nm), nv = next(iter(n.t.items()))
            b = {}
            for k, v in a.t.items():
                if k[0] is None and v[1] == 0:
                    m = madd(k[1], tuple((s, -e) for s, e in nm))
                    if intmono(m):
                        q = v[0] / nv[0]; w = math.floor(q)
                        if w: c = c + S({(None, m): (Fr(w), Fr(0))})
                        if q - w: b[k] = ((q - w) * nv[0], Fr(0))
                        continue
                b[k] = v
            a = S(b)
        if not a.t: return c, a
        if a.value() is not None and n.value() is not None:
            q = math.floor(a.value() / n.value()); return c + q, a - n * q
        if len(n.t) == 1 and a.is_poly():
            # common positive factor f:  (f x) divmod (f y) = (x // y, f (x % y))
            (_, nm), nv = next(iter(n.t.items()))
            f = dict(nm)
            for (_, m) in a.t:
                d = dict(m)
                f = {s: min(f.get(s, 0), d.get(s, 0)) for s in set(f) | set(d)}
            f = {s: e for s, e in f.items() if e and positive(s)}
            fs = S({(None, tuple(sorted(f.items()))): (nv[0], Fr(0))})
            if f or nv[0] != 1:
                q, r = divmod(a * fs.inv(), n * fs.inv())
                return c + q, r * fs
            # (f x + y) divmod (f z) = (x // z, f (x % z) + y)  for integers x, z and 0 <= y < f
            if n.is_int() and sum(e for _, e in nm) >= 2:
                for s, e in nm:
                    x = S({(None, madd(k[1], ((s, -1),))): v for k, v in a.t.items() if dict(k[1]).get(s, 0) >= 1})
                    y = S({k: v for k, v in a.t.items() if dict(k[1]).get(s, 0) < 1})
                    sz = S({(None, ((s, 1),)): ONE})
                    if x.t and y.t and x.is_int() and CUR.entails(cleared(y) >= 0) and CUR.entails(cleared(sz - y) > 0):
                        q, r = divmod(x, n * sz.inv())
                        return c + q, r * sz + y
        k = ('mod', a.key(), n.key())
        if k not in CUR.cache:
            az, nz = cleared(a), cleared(n)
            z = z3()
            if CUR.entails(cleared(a) >= 0) and CUR.entails(cleared(n - a) > 0): CUR.cache[k] = (S({}), a)
            elif CUR.entails(cleared(a) < 0) and CUR.entails(cleared(n + a) >= 0): CUR.cache[k] = (lift(-1), a + n)
            else:
                q = CUR.fresh('q', 'int'); r = a - q * n
                CUR.fact(r, '>='); CUR.fact(n - r, '>')
                CUR.cache[k] = (q, r)
        q, r = CUR.cache[k]
        return c + q, r.n()

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __rdivmod__(self, o): return lift(o).__divmod__(self)
    def __rmod__(self, o): return lift(o) % self
    def __rfloordiv__(self, o): return lift(o) // self

    # ---- functions
    def cos(self): return (S.expi(self) + S.expi(-self)).scale(Fr(1, 2))

    def sin(self):
        d = S.expi(self) - S.expi(-self)
        return S({k: cmul(v, (Fr(0), Fr(-1, 2))) for k, v in d.t.items()})

    def sqrt(self):
        e = self.n(); v = e.value()
        if v is not None and v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return lift(Fr(a, b))
        if len(e.t) == 1 and e.is_poly():
            (_, m), w = next(iter(e.t.items()))
            if w[0] > 0 and m and all(p % 2 == 0 and positive(x) for x, p in m):
                return S({(None, tuple((x, p // 2) for x, p in m)): ONE}) * lift(w[0]).sqrt()
        return fn('sqrt', e)

    def exp(self): return fn('exp', self)
    def log(self): return fn('log', self)
    def tanh(self): return fn('tanh', self)
    def conjugate(self): return self
    def floor(self):
        if self.is_int(): return self
        return self // 1
    def rint(self): return sround(self)
    def item(self): return self
    def __round__(self, n=None): return sround(self)
    def __floor__(self): return self.floor()
    def __ceil__(self): return -((-self).floor())
    def __trunc__(self): return strunc(self)
    def is_integer(self): return self.n().is_int() or CUR.branch(((self % 1)).z() == 0)

    # ---- comparison
    def z(self):
        """z3 term (polynomial expressions only)"""
        e = self.n()
        if not e.is_poly(): raise Undecided('comparison of a trigonometric expression')
        m = z3()
        if e.is_int():
            tot = m.IntVal(0)
            for (_, mo), v in e.t.items():
                x = m.IntVal(int(v[0]))
                for s, p in mo:
                    for _ in range(p): x = x * CUR.syms[s].z
                tot = tot + x
            return tot
        tot = m.RealVal(0)
        for (_, mo), v in e.t.items():
            x = m.RealVal(str(v[0]))
            for s, p in mo:
                y = CUR.syms[s].z
                if CUR.syms[s].kind == 'int': y = m.ToReal(y)
                for _ in range(abs(p)): x = x * y if p > 0 else x / y
            tot = tot + x
        return tot

    def _cmp(self, o, op):
        o = lift(o)
        if o is None: return NotImplemented
        d = (self - o).n()
        v = d.value()
        if v is not None: return bool(rel(v, op))
        return CUR.decide(d, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        o = lift(o)
        if o is None: return False
        return self._cmp(o, '==')

    def __ne__(self, o): return not (self == o)
    def __bool__(self): return not (self == 0)
    def __hash__(self): return hash(frozenset(self.n().t.items()))

    def __float__(self):
        v = self.n().value()
        if v is None: raise Undecided('a symbolic number is needed as a machine float')
        return float(v)

    def __int__(self):
        v = self.n().value()
        if v is None: raise Undecided('a symbolic number is needed as a machine integer')
        return int(v)

    def __index__(self):
        v = self.n().value()
        if v is None or v.denominator != 1: raise Undecided('a symbolic number is used as an index')
        return int(v)

    def __repr__(self):
        if CUR is None: return self.show()
        e = self.n(); v = e.value()
        if v is not None: return str(int(v)) if v.denominator == 1 else str(float(v))
        k = e.key()
        if k not in CUR.toks: CUR.toks[k] = (len(CUR.toks), e)
        return '<%d>' % CUR.toks[k][0]
    __str__ = __repr__

    def __format__(self, spec): return repr(self)

    def show(self):
        def mono(m): return '*'.join(s if p == 1 else '%s^%d' % (s, p) for s, p in m)
        def num(v): return str(v[0]) if v[1] == 0 else '(%s+%si)' % v
        out = []
        for (a, m), v in list(self.t.items())[:12]:
            x = num(v)
            if m: x += '*' + mono(m)
            if a: x += '*exp(i(%s))' % ' + '.join('%s*%s' % (c, mono(k)) for k, c in a)
            out.append(x)
        return ' + '.join(out) or '0'

    def ev(self, env):
        """numeric value under an assignment of the symbols"""
        tot = 0j
        for (a, m), v in self.t.items():
            x = complex(float(v[0]), float(v[1]))
            for s, p in m: x *= env[s] ** p
            if a:
                th = 0.
                for k, c in a:
                    y = float(c)
                    for s, p in k: y *= env[s] ** p
                    th += y
                x *= complex(math.cos(th), math.sin(th))
            tot += x
        return tot


def positive(s):
    """the symbol is positive on this path"""
    if s == 'pi': return True
    if ('pos', s) not in CUR.cache:
        if not CUR.entails(CUR.syms[s].z > 0): return False
        CUR.cache['pos', s] = True
    return True


def nonzero(s):
    if s == 'pi': return True
    if ('nz', s) not in CUR.cache:
        if not CUR.entails(CUR.syms[s].z != 0): return False
        CUR.cache['nz', s] = True
    return True


def cleared(d):
    """z3 term with the sign of the polynomial d: multiplied by its denominators and divided by its common factors, whose symbols must be positive on this path"""
    d = d.n() if isinstance(d, S) else lift(d)
    if CUR.soft: d = d.sub(CUR.soft)
    if not d.t: return d.z()
    com = None
    for (a, m) in d.t:
        x = dict(m)
        com = x if com is None else {s: min(com.get(s, 0), x.get(s, 0)) for s in set(com) | set(x)}
    neg = {}
    for (a, m) in d.t:
        for s, p in m:
            if p < 0: neg[s] = min(neg.get(s, 0), p)
    f = {}
    for s in set(com) | set(neg):
        e = neg.get(s, 0) or com.get(s, 0)
        if e and positive(s): f[s] = -e
    e = d * S({(None, tuple(sorted(f.items()))): ONE}) if f else d
    if not e.is_poly(): return e.z()
    den = num = 0
    for v in e.t.values():
        den = v[0].denominator if not den else den * v[0].denominator // math.gcd(den, v[0].denominator)
    for v in e.t.values(): num = math.gcd(num, int(v[0] * den))
    return e.scale(Fr(den, num)).z()


def fn(name, *args):
    """uninterpreted real function of canonical arguments"""
    args = [lift(a).n() for a in args]
    k = ('fn', name) + tuple(a.key() for a in args)
    if k not in CUR.cache:
        CUR.n += 1
        nm = '%s@%d' % (name, CUR.n)
        CUR.sym(nm, 'real', (name, args))
        CUR.cache[k] = S({(None, ((nm, 1),)): ONE})
    return CUR.cache[k]


INTERP = {'inv': lambda x: 1 / x, 'sqrt': lambda x: x ** .5, 'exp': math.exp, 'tanh': math.tanh, 'log': math.log, 'pow': lambda x, y: x ** y}


def defined(run, env):
    """values of the function atoms under an assignment of the plain symbols"""
    env = dict(env)
    for nm, s in run.syms.items():       # atoms are created after their arguments
        if isinstance(s.info, tuple):
            name, args = s.info
            v = [a.ev(env).real for a in args]
            if name in INTERP: env[nm] = INTERP[name](*v)
    return env


def strunc(x):
    if not isinstance(x, S): return int(x)
    x = x.n()
    if x.is_int(): return x
    if CUR.branch(cleared(x) >= 0): return x // 1
    return -((-x) // 1)


def sround(x, nd=None):
    """round half to even is only distinguishable from floor(x+1/2) at half integers"""
    if not isinstance(x, S): return round(x) if nd is None else round(x, nd)
    if nd is not None: raise Undecided('rounding to decimals')
    x = x.n()
    if x.is_int(): return x
    q = (x + Fr(1, 2)) // 1
    if (x + Fr(1, 2) - q) == 0 and not (q % 2 == 0): return q - 1
    return q


# ---------------------------------------------------------------- shims put into the namespaces of the modules under contract
class _IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, int) or (isinstance(x, S) and x.n().is_int())
    def __call__(c, x=0, *a): return strunc(x) if isinstance(x, S) else int(x, *a)


class SInt(metaclass=_IntMeta): pass


class _FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (float, S))
    def __call__(c, x=0.): return x if isinstance(x, S) else float(x)


class SFloat(metaclass=_FloatMeta): pass


class SRange:
    """range with symbolic limits: membership only"""
    def __init__(self, *a): self.lo, self.hi = (0, a[0]) if len(a) == 1 else a[:2]; self.step = a[2] if len(a) > 2 else 1
    def __contains__(self, x):
        if isinstance(self.step, S) or self.step != 1: raise Undecided('member of a symbolic range with a step')
        x = lift(x)
        return bool(x.n().is_int() and self.lo <= x and x < self.hi)
    def __iter__(self): return iter(range(*[int(v) for v in (self.lo, self.hi, self.step)]))
    def __len__(self): return len(range(*[int(v) for v in (self.lo, self.hi, self.step)]))
    def __getitem__(self, i): return range(*[int(v) for v in (self.lo, self.hi, self.step)])[i]


def srange(*a): return SRange(*a) if any(isinstance(x, S) and not x.n().is_const() for x in a) else range(*[int(x) for x in a])


def slen(x):
    f = getattr(x, 'slen', None)
    return len(x) if f is None else f()


def anysym(*a):
    for x in a:
        if isinstance(x, S): return True
        if isinstance(x, np.ndarray) and x.dtype == object: return True
        if isinstance(x, (list, tuple)) and anysym(*x): return True
    return False


class MathShim:
    def __getattr__(self, k): return getattr(math, k)
    pi = None
    def floor(self, x): return x.floor() if isinstance(x, S) else math.floor(x)
    def ceil(self, x): return x.__ceil__() if isinstance(x, S) else math.ceil(x)
    def fabs(self, x): return abs(x) if isinstance(x, S) else math.fabs(x)
    def sqrt(self, x): return x.sqrt() if isinstance(x, S) else math.sqrt(x)
    def cos(self, x): return x.cos() if isinstance(x, S) else math.cos(x)
    def sin(self, x): return x.sin() if isinstance(x, S) else math.sin(x)
    def isclose(self, a, b, **k): return (lift(a) == lift(b)) if anysym(a, b) else math.isclose(a, b, **k)


MathShim.pi = math.pi


def ashape(f):
    def g(*a, **k):
        k.pop('dtype', None)
        return f(*a, dtype=object, **k)
    return g


class NpShim:
    """numpy whose freshly made arrays can hold symbolic numbers; exact comparisons for symbolic data"""
    def __getattr__(self, k): return getattr(np, k)

    def _obj(self, x):
        a = np.asarray(x)
        return a

    def zeros(self, *a, **k): r = ashape(np.empty)(*a, **k); r[...] = 0; return r
    def empty(self, *a, **k): r = ashape(np.empty)(*a, **k); r[...] = 0; return r
    def ones(self, *a, **k): r = ashape(np.empty)(*a, **k); r[...] = 1; return r
    def zeros_like(self, x, **k): return self.zeros(np.shape(x))
    def empty_like(self, x, **k): return self.zeros(np.shape(x))
    def ones_like(self, x, **k): return self.ones(np.shape(x))
    def full(self, s, v, **k): r = self.zeros(s); r[...] = v; return r

    def eye(self, n, *a, **k):
        if isinstance(n, S): n = int(n)
        r = self.zeros((n, n))
        for i in range(n): r[i, i] = 1
        return r
    identity = eye

    def isnan(self, x):
        a = np.asarray(x)
        if a.dtype != object: return np.isnan(a)
        return np.vectorize(lambda v: False if isinstance(v, S) else math.isnan(v), otypes=[bool])(a)

    def isclose(self, a, b, **k):
        if not anysym(a, b): return np.isclose(a, b, **k)
        r = np.vectorize(lambda x, y: bool(lift(x) == lift(y)), otypes=[bool])(np.asarray(a, object), np.asarray(b, object))
        return bool(r) if r.ndim == 0 else r

    def allclose(self, a, b, **k):
        if not anysym(a, b): return np.allclose(a, b, **k)
        a, b = np.asarray(a, object), np.asarray(b, object)
        try: a, b = np.broadcast_arrays(a, b)
        except ValueError: raise
        return all(bool(lift(x) == lift(y)) for x, y in zip(a.flat, b.flat))

    def array_equal(self, a, b, **k): return np.shape(a) == np.shape(b) and self.allclose(a, b)

    def any(self, x, *a, **k):
        if not anysym(x): return np.any(x, *a, **k)
        return any(bool(v) for v in np.asarray(x, object).flat)

    def round(self, x, *a): return sround(x) if isinstance(x, S) else np.round(x, *a)
    def floor(self, x): return x.floor() if isinstance(x, S) else np.floor(x)
    def abs(self, x): return abs(x) if isinstance(x, S) else np.abs(x)
    def fabs(self, x): return abs(x) if isinstance(x, S) else np.fabs(x)

    def _el(name):
        def f(self, x, out=None, **k):
            if isinstance(x, S): return getattr(x, name)()
            a = np.asarray(x)
            if a.dtype != object: 
                r = getattr(np, name)(a, **k)
            else:
                r = np.empty(a.shape, object)
                for i in np.ndindex(*a.shape):
                    v = a[i]; r[i] = getattr(v, name)() if isinstance(v, S) else lift(v).__getattribute__(name)()
            if out is not None: out[...] = r; return out
            return r if getattr(r, 'ndim', 0) else (r[()] if isinstance(r, np.ndarray) else r)
        return f
    cos, sin, exp, sqrt = _el('cos'), _el('sin'), _el('exp'), _el('sqrt')

    def array(self, x, *a, **k):
        if anysym(x): k['dtype'] = object
        return np.array(x, *a, **k)

    def asarray(self, x, *a, **k): return self.array(x, *a, **k)

    def arctan2(self, y, x):
        """angle of x + i y, known up to a multiple of 2 pi"""
        if not anysym(y, x): return np.arctan2(y, x)
        y, x = np.asarray(y, object), np.asarray(x, object)
        y, x = np.broadcast_arrays(y, x)
        r = np.empty(y.shape, object)
        for i in np.ndindex(*y.shape): r[i] = sarctan2(y[i], x[i])
        return r if r.ndim else r[()]

    def einsum(self, eq, *ops, out=None, **k):
        if len(ops) == 1 and isinstance(ops[0], (tuple, list)): ops = ops[0]
        if not anysym(*ops): r = np.einsum(eq, *ops, **k)
        else: r = oeinsum(eq, *ops)
        if out is None: return r
        out[...] = r
        return out

    def hypot(self, x, y):
        return self.sqrt(self.array(x) ** 2 + self.array(y) ** 2) if anysym(x, y) else np.hypot(x, y)

    def cumsum(self, x, *a, **k):
        x = self.array(x)
        if x.dtype != object: return np.cumsum(x, *a, **k)
        k.pop('dtype', None)
        if x.ndim != 1: raise Undecided('cumsum of an array')
        r, tot = np.empty(x.shape, object), 0
        for i, v in enumerate(x): tot = tot + v; r[i] = tot
        return r

    class _Linalg:
        def __getattr__(self, k): return getattr(np.linalg, k)
        def inv(self, a):
            from vk.ded_reps import inverse
            return inverse(a)
        def norm(self, a, **k):
            if anysym(a): raise Undecided('norm of a symbolic array')
            return np.linalg.norm(a, **k)
    linalg = _Linalg()


def sarctan2(y, x):
    w = lift(x).n() + S({k: cmul(v, (Fr(0), Fr(1))) for k, v in lift(y).n().t.items()})
    if not w.t: return lift(0)
    if len(w.t) != 1: raise Undecided('arctan2 of a general point')
    (a, m), v = next(iter(w.t.items()))
    if not all(positive(s) for s, p in m): raise Undecided('arctan2: sign of the radius unknown')
    quarter = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}.get((int((v[0] > 0)) - int(v[0] < 0), int(v[1] > 0) - int(v[1] < 0)))
    if quarter is None: raise Undecided('arctan2 of a constant angle')
    th = S({(None, k): (c, Fr(0)) for k, c in a}) if a else S({})
    pi = S.sym('pi', 'real')
    return th + pi * Fr(quarter, 2) + 2 * pi * CUR.fresh('turn', 'int')


def oeinsum(eq, *ops):
    """einsum on object arrays (explicit output, no ellipsis)"""
    eq = eq.replace(' ', '')
    if '...' in eq: return np.einsum(eq, *[np.asarray(o, object) for o in ops])
    if '->' not in eq: raise Undecided('einsum form')
    ins, out = eq.split('->'); ins = ins.split(',')
    size = {}
    ops = [np.asarray(o) for o in ops]
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape): size[c] = d
    con = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], object)
    for i in np.ndindex(*r.shape):
        e = dict(zip(out, i)); tot = 0
        for j in itertools.product(*[range(size[c]) for c in con]):
            e.update(zip(con, j))
            p = 1
            for s, o in zip(ins, ops):
                p = p * o[tuple(e[c] for c in s)]
                if not isinstance(p, S) and p == 0: break
            tot = tot + p
        r[i] = tot
    return r


NP, MA = NpShim(), MathShim()


@contextlib.contextmanager
def shims(modules, **extra):
    """run with the numeric names of the modules replaced by their symbolic versions"""
    saved = []
    missing = object()
    try:
        for m in modules:
            d = vars(m)
            new = dict(int=SInt, float=SFloat, round=sround, len=slen, range=srange)
            for k, v in list(d.items()):
                if v is np: new[k] = NP
                elif v is math: new[k] = MA
            new.update({k: v for k, v in extra.items() if k in d or k in ('range', 'max', 'min', 'sum', 'sorted', 'set', 'abs', 'all', 'any')})
            for k, v in new.items():
                saved.append((d, k, d.get(k, missing)))
                d[k] = v
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is missing: d.pop(k, None)
            else: d[k] = v


# ---------------------------------------------------------------- contracts
class Refuted(Exception):
    def __init__(self, name, model, detail=''): super().__init__(name); self.name, self.model, self.detail = name, model, detail


class C:
    """claims made by a contract on one path"""

    def __init__(self, run, ledger): self.run, self.ledger = run, ledger

    # symbols
    def int(self, name, lo=None, hi=None):
        s = S.sym(name, 'int')
        if lo is not None: self.assume(s - lo, '>=')
        if hi is not None: self.assume(lift(hi) - s, '>=')
        return s

    def real(self, name, lo=None, hi=None):
        s = S.sym(name, 'real')
        if lo is not None: self.assume(s - lo, '>=')
        if hi is not None: self.assume(lift(hi) - s, '>')
        return s

    def odd(self, name, lo=1):
        """an odd integer"""
        x = self.int(name, lo)
        self.run.syms[name].info = 'odd'
        h = z3().Int(name + '_half')
        self.run.assume_z(self.run.syms[name].z == 2 * h + 1)
        return x

    def assume(self, e, op='>='):
        e = lift(e)
        self.run.fact(e.n(), op)

    pi = property(lambda self: S.sym('pi', 'real'))

    # claims
    def eq(self, a, b, name):
        """a == b (numbers, tuples or arrays)"""
        a_, b_ = np.asarray(a, object), np.asarray(b, object)
        if a_.shape != b_.shape: return self._fail(name, 'shapes %s %s' % (a_.shape, b_.shape))
        for x, y in zip(a_.flat, b_.flat):
            d = (lift(x) - lift(y)).n()
            if not d.t: self.ledger.ok(name, 'nf'); continue
            if d.is_poly():
                z = z3(); t0 = self.run.solver_s
                r = self.run.sat(cleared(d) != 0)
                if r == z.unsat: self.ledger.ok(name, 'z3', self.run.solver_s - t0); continue
                if r == z.sat: self._fail(name, d.show(), cleared(d) != 0)
                raise Undecided('%s: solver returned unknown' % name)
            # trigonometric: sound to accept only the normal form; look for a witness by sampling models
            self._sample(name, d)

    def _sample(self, name, d):
        import random
        rnd = random.Random(7)
        z = z3()
        for k in range(6):
            cs = []
            for nm, s in self.run.syms.items():
                if nm != 'pi' and s.kind == 'int' and rnd.random() < .5: cs.append(s.z >= rnd.randint(0, 5))
                if s.kind == 'real' and nm != 'pi': cs.append(s.z >= z.RealVal(str(round(rnd.random() * 3, 3))))
            env = self.run.model(*cs) or self.run.model()
            if env is None: continue
            try: v = d.ev(defined(self.run, env))
            except Exception: continue
            if abs(v) > 1e-6: self._fail(name, d.show(), env=env)
        raise Undecided('%s: normal form is not zero: %s' % (name, d.show()[:200]))

    def _fail(self, name, detail, cond=None, env=None):
        if env is None: env = self.run.model(*([cond] if cond is not None else []))
        if env is None: raise Undecided('%s: not established (%s), and the solver gives no model of the path' % (name, detail))
        raise Refuted(name, env, detail)

    def mulpos(self, x, y):
        """instance of  x >= 0 and y >= 0 -> x*y >= 0  (guides the nonlinear solver)"""
        x, y = lift(x), lift(y)
        if self.run.entails(cleared(x) >= 0) and self.run.entails(cleared(y) >= 0): self.run.assume_z((x * y).z() >= 0)

    def holds(self, cond, name):
        """cond: Python bool computed on this path"""
        if cond: self.ledger.ok(name, 'path')
        else: self._fail(name, 'false on a feasible path')

    def zholds(self, cond, name):
        z = z3(); t0 = self.run.solver_s
        r = self.run.sat(z.Not(cond))
        if r == z.unsat: self.ledger.ok(name, 'z3', self.run.solver_s - t0)
        elif r == z.sat: self._fail(name, str(cond), z.Not(cond))
        else: raise Undecided('%s: solver returned unknown' % name)

    def ge(self, a, b, name): self.zholds(cleared((lift(a) - lift(b)).n()) >= 0, name)
    def gt(self, a, b, name): self.zholds(cleared((lift(a) - lift(b)).n()) > 0, name)
    def isint(self, a, name):
        e = lift(a).n()
        if e.is_int(): return self.ledger.ok(name, 'nf')
        raise Undecided(name + ': not visibly an integer: ' + e.show())


class Ledger:
    def __init__(self): self.d = {}; self.feasible = 0; self.functions = set()

    def ok(self, name, backend, s=0.):
        x = self.d.setdefault((name, backend), [0, 0.]); x[0] += 1; x[1] += s


def explore(contract, maxpaths=400, budget=150):
    """run contract(c) on every feasible path; returns (ledger, paths)"""
    global CUR
    todo, paths = [()], 0
    led = Ledger(); t0 = time.time()
    while todo:
        pre = todo.pop()
        paths += 1
        if paths > maxpaths or time.time() - t0 > budget: raise Undecided('path limit (%d paths, %.0fs)' % (paths, time.time() - t0))
        CUR = Run(pre)
        k0 = sum(v[0] for v in led.d.values())
        try:
            with traced(led.functions): contract(C(CUR, led))
            if sum(v[0] for v in led.d.values()) > k0 and CUR.sat() == z3().sat: led.feasible += 1
        except Infeasible:
            pass
        finally:
            todo += CUR.alts
    CUR = None
    return led, paths


@contextlib.contextmanager
def traced(out):
    """collect the qualified names of the functions of the repository that run"""
    import sys, os
    root = os.path.join(REPO, 'e2cnn') + os.sep
    def prof(fr, ev, arg):
        if ev == 'call':
            c = fr.f_code
            if c.co_filename.startswith(root): out.add(c.co_filename[len(root):-3].replace(os.sep, '.') + ':' + c.co_qualname.replace('.<locals>', ''))
    old = sys.getprofile()
    sys.setprofile(prof)
    try: yield
    finally: sys.setprofile(old)


class Infeasible(Exception):
    """the contract's precondition is false on this path"""


def require(c):
    if not c: raise Infeasible()


def prove(t, name, functions, contract, replay=None, strict=True, **k):
    """register the obligations of one contract in the task t.  replay(model) evaluates the same clause with the real code on the concrete model and raises Fail if it fails"""
    global CUR
    t0 = time.time()
    try:
        led, paths = explore(contract, **k)
    except Refuted as r:
        CUR = None
        if not strict:
            # the counter-model is believed only if the real code fails on it
            if r.model:
                from .core import Fail
                try: replay(r.model)
                except Fail as e:
                    def again(): raise e
                    t.refuted('%s: %s' % (name, r.name), r.detail, again, functions)
            t.undischarged(name, 'not established: %s %s; the real code satisfies the contract on the model found' % (r.name, r.detail), functions); return
        t.refuted('%s: %s' % (name, r.name), dict(model=r.model, detail=r.detail), (lambda: replay(r.model)) if replay and r.model else None, functions)
        return
    except Undecided as e:
        t.undischarged(name, str(e), functions); return
    except (ZeroDivisionError, RecursionError) as e:
        t.undischarged(name, repr(e), functions); return
    except Exception as e:
        # an exception escaping the real code on a feasible path: the replay decides whether it is real
        import traceback
        tb = traceback.format_exc()[-600:]
        env = None
        try: env = CUR.model() if CUR is not None else None
        except Exception: pass
        CUR = None
        if replay and env and repo_fault(e): replay(env)
        t.undischarged(name, 'symbolic run stopped: %r %s' % (e, tb), functions); return
    finally:
        CUR = None
    if not led.d: t.undischarged(name, 'no obligation was generated', functions); return
    if not led.feasible: t.undischarged(name, 'vacuous: no path with obligations is known to be satisfiable', functions); return
    functions = sorted(led.functions | set(functions))
    for (cl, be), (n, s) in led.d.items():
        t.proved('%s: %s' % (name, cl), functions, {'nf': 'normal form', 'path': 'path enumeration (z3)', 'z3': 'z3'}[be], s, n)
    t.notes.append('%s: %d paths %.2fs' % (name, paths, time.time() - t0))
