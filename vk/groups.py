"""Independent oracle for planar groups: elements as (flip, angle) -> 2x2 matrices; used only by the checks."""
import math, itertools
import numpy as np

TAU = 2 * math.pi


def G():
    import e2cnn.group as g
    return g


def make(spec):
    g = G()
    kind = spec[0]
    if kind == 'C': return g.cyclic_group(spec[1])
    if kind == 'D': return g.dihedral_group(spec[1])
    if kind == 'SO2': return g.so2_group(spec[1])
    if kind == 'O2': return g.o2_group(spec[1])
    raise ValueError(spec)


def mat(spec, e):
    """the planar isometry an element denotes (independent of the library's own matrices)"""
    kind = spec[0]
    if kind == 'C': return rot(TAU * e / spec[1])
    if kind == 'SO2': return rot(e)
    if kind == 'D': return rot(TAU * e[1] / spec[1]) @ (FL if e[0] else np.eye(2))
    if kind == 'O2': return rot(e[1]) @ (FL if e[0] else np.eye(2))


FL = np.array([[1., 0.], [0., -1.]])


def rot(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def angles(rng=None, n=6):
    base = [0., math.pi, math.pi / 2, 3 * math.pi / 2, math.pi / 3, 1.0, 5.5, 2 * math.pi / 7, 0.3, 6.28]
    if rng is not None:
        base += list(map(float, rng.uniform(0, TAU, n)))
    return base


def elements(spec, grp, rng=None, n=6):
    """enumeration of the elements by the oracle (not by the group's own list)"""
    kind = spec[0]
    if kind == 'C': return list(range(spec[1]))
    if kind == 'D': return [(f, i) for f in (0, 1) for i in range(spec[1])]
    a = angles(rng, n)
    if kind == 'SO2': return a
    return [(f, x) for f in (0, 1) for x in a]


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def subgroup_ids(spec, many=False):
    kind = spec[0]
    if kind == 'C': return divisors(spec[1])
    if kind == 'D':
        out = []
        for d in divisors(spec[1]):
            out.append((None, d))
            ax = range(spec[1] // d)
            out += [(a, d) for a in ax]
        return out
    if kind == 'SO2': return [1, 2, 3, 4, 5, 6, 7, 8, 12, 15] + ([9, 10, 11, 16, 20, 24] if many else [])
    out = []
    for a in (0., 0.4, math.pi / 3, math.pi / 2, 2.0):
        out.append((a, -1))
    out.append((None, -1))
    for o in [1, 2, 3, 4, 5, 6, 8, 9] + ([7, 12, 15] if many else []):
        out.append((None, o))
        for fr in (0., 0.25, 0.5, 0.77):
            out.append((fr * TAU / o, o))
    return out


def sub_spec(spec, id):
    """which group the identifier denotes"""
    kind = spec[0]
    if kind in ('C', 'SO2'): return ('C', id)
    ax, o = id
    if kind == 'O2' and o == -1: return ('O2', spec[1]) if ax is not None else ('SO2', spec[1])
    if ax is None: return ('C', o)
    if o == 1: return ('F', 1)   # reflections only: a cyclic group of order two acting by a flip
    return ('D', o)


def embed(spec, id, e):
    """oracle for the image of subgroup element e as an element of the group (up to the group's own equality)"""
    kind = spec[0]
    if kind == 'C': return (e * (spec[1] // id)) % spec[1]
    if kind == 'SO2': return e * TAU / id
    ax, o = id
    if kind == 'D':
        N = spec[1]
        if ax is None: return (0, e * (N // o) % N)
        if o == 1: return (e, (ax * e) % N)
        return (e[0], (e[1] * (N // o) + e[0] * ax) % N)
    if o == -1:
        return (0, e) if ax is None else (e[0], e[1] + e[0] * ax)
    if ax is None: return (0, e * TAU / o)
    if o == 1: return (e, ax * e)
    return (e[0], e[1] * TAU / o + e[0] * ax)


def sub_elements(spec, id, grp=None, rng=None):
    s = sub_spec(spec, id)
    if s[0] == 'F': return [0, 1]
    return elements(s, grp, rng)


def small_specs(thorough=False):
    C = list(range(1, 21)) + [24, 32, 36, 60] + ([21, 22, 23, 25, 27, 30, 35, 40, 48, 63, 64, 72, 97, 100, 120] if thorough else [])
    D = list(range(1, 14)) + [15, 16, 18, 20, 24] + ([14, 17, 19, 21, 22, 23, 25, 27, 30, 32, 36, 40] if thorough else [])
    return [('C', n) for n in C] + [('D', n) for n in D] + [('SO2', 10), ('O2', 10)]


def key(spec): return '%s%s' % spec
