"""Vocabulary shared by the contracts."""
import z3
from cxv.engine import patok, FA as ForAll, Contract, CNT, SQRT, ALLOC, LV
from cxv.ctypes_ import *
from cxv.prove import Unit

And, Or, Not, Implies, If, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Exists
Int, Real, Select, IntVal, RealVal = z3.Int, z3.Real, z3.Select, z3.IntVal, z3.RealVal


def term(v):
    """a scalar component; an uninitialised one is an arbitrary value"""
    if isinstance(v, Undef):
        return {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[v.t[0]]('undef!%d' % id(v))
    return v


def yes(v):
    """truth of a returned value, whether the function is declared bool or int"""
    return v if z3.is_bool(v) else v != 0


# ---- geometric points: values of JaliGeometry::Point
def dim(p):
    return term(p.get('d'))


def co(p, k):
    a = p.get('xyz')
    if isinstance(a, Undef):
        return z3.Real('undef!%d!%d' % (id(a), k))
    return term(a.items[k])


def valid(p):
    d = dim(p)
    return And(d >= 1, d <= 3)


def pt_is(p, d, f):
    """p has dimension d and coordinates f(0..d-1)"""
    out = [('dimension', dim(p) == d)]
    for k in range(3):
        out.append(('coordinate %d' % k, Implies(k < d, co(p, k) == f(k))))
    return out


def pt_eq(p, q):
    return And(dim(p) == dim(q), *[Implies(k < dim(q), co(p, k) == co(q, k)) for k in range(3)])


def dot(p, q):
    return sum((If(k < dim(p), co(p, k) * co(q, k), RealVal(0)) for k in range(1, 3)), co(p, 0) * co(q, 0))


class V3:
    """mathematical vector used by specifications"""
    def __init__(self, *c):
        self.c = list(c)

    def __add__(s, o):
        return V3(*[a + b for a, b in zip(s.c, o.c)])

    def __sub__(s, o):
        return V3(*[a - b for a, b in zip(s.c, o.c)])

    def __mul__(s, r):
        return V3(*[a * r for a in s.c])

    def __truediv__(s, r):
        return V3(*[a / r for a in s.c])

    def dot(s, o):
        r = s.c[0] * o.c[0]
        for a, b in zip(s.c[1:], o.c[1:]):
            r = r + a * b
        return r

    def cross(s, o):
        if len(s.c) == 2:
            return s.c[0] * o.c[1] - s.c[1] * o.c[0]
        a, b = s.c, o.c
        return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def vec(p, n):
    return V3(*[co(p, k) for k in range(n)])


def at(v, i):
    return z3.Select(v.arr, i)
