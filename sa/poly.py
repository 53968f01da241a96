"""Rational normal form over value-graph atoms: a ratio of two polynomials with
exact coefficients.  Used to compare sizes, offsets and affine maps symbolically."""
from fractions import Fraction
from .ir import *


class Rat(object):
    __slots__ = ('p', 'q')

    def __init__(self, p, q=None):
        self.p = {m: c for m, c in p.items() if c}
        self.q = q if q is not None else {(): Fraction(1)}

    def __add__(self, o):
        if self.q == o.q:
            return Rat(padd(self.p, o.p), self.q)
        return Rat(padd(pmul(self.p, o.q), pmul(o.p, self.q)), pmul(self.q, o.q))

    def __neg__(self):
        return Rat({m: -c for m, c in self.p.items()}, self.q)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.p, o.p), pmul(self.q, o.q))

    def __truediv__(self, o):
        return Rat(pmul(self.p, o.q), pmul(self.q, o.p))

    def iszero(self, tol=0):
        return all(abs(c) <= tol for c in self.p.values())

    def atoms(self):
        return {a for d in (self.p, self.q) for m in d for a in m}

    def const(self):
        """value when the ratio is a number, else None"""
        if not self.p:
            return Fraction(0)
        if set(self.p) == {()} and set(self.q) == {()}:
            return self.p[()] / self.q[()]
        return None

    def degree(self, a):
        return max([m.count(a) for m in self.p] or [0])

    def subst(self, mp):
        """mp: atom -> Rat"""
        def ev(d):
            r = Rat({})
            for m, c in d.items():
                t = Rat({(): c})
                for a in m:
                    t = t * (mp[a] if a in mp else Rat({(a,): Fraction(1)}))
                r = r + t
            return r
        return ev(self.p) / ev(self.q)

    def __repr__(self):
        def s(d):
            return ' + '.join('*'.join(([str(c)] if c != 1 or not m else []) + [show(a, 4) for a in m]) for m, c in sorted(
                d.items(), key=lambda t: [x.uid for x in t[0]])) or '0'
        if set(self.q) == {()} and self.q[()] == 1:
            return s(self.p)
        return '(%s)/(%s)' % (s(self.p), s(self.q))


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda x: x.uid))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def num(v):
    return Rat({(): Fraction(v) if not isinstance(v, float) else Fraction(repr(v))})


def atom(n):
    return Rat({(n,): Fraction(1)})


def rat(n, f=None):
    """normal form of node n; f(n) may give the form of a node (or None)"""
    if f is not None:
        r = f(n)
        if r is not None:
            return r
    if n.op == 'const' and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
        v = n.args[0]
        if v == v and abs(v) != float('inf'):
            return num(v)
    if n.op == 'un' and n.args[0] == '-':
        return -rat(n.args[1], f)
    if n.op in ('bin', 'iop') and n.args[0] in '+-*/':
        a, b = rat(n.args[1], f), rat(n.args[2], f)
        if n.args[0] == '+':
            return a + b
        if n.args[0] == '-':
            return a - b
        if n.args[0] == '*':
            return a * b
        if not b.p:
            return atom(n)
        return a / b
    if n.op == 'bin' and n.args[0] == '**' and n.args[2].op == 'const' and isinstance(n.args[2].args[0], int) and 0 <= n.args[2].args[0] <= 6:
        r = num(1)
        a = rat(n.args[1], f)
        for _ in range(n.args[2].args[0]):
            r = r * a
        return r
    if callname(n) in ('builtins.int', 'builtins.float', 'numpy.int32', 'numpy.int64') and len(n.args[1]) == 1:
        return rat(n.args[1][0], f)
    return atom(n)


def same(a, b, rtol=0):
    d = a - b
    if not d.p:
        return True
    if not rtol:
        return False
    s = max([abs(c) for c in pmul(a.p, b.q).values()] + [abs(c) for c in pmul(b.p, a.q).values()] + [Fraction(1, 10**12)])
    return d.iszero(Fraction(rtol).limit_denominator(10**12) * s)
