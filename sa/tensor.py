"""Index-notation normal form of array expressions.

An array value graph becomes a list of axes (index symbols, or None for an axis
of length one) and an expression: a polynomial whose monomials are products of
indexed atoms with summed (bound) indices and rational exponents.  Non-linear
functions are atoms over the canonical form of their argument.  Two formulas
are equal when the difference normalises to zero; a difference that does not
vanish is only meaningful when no part of either side is opaque."""
from fractions import Fraction
from hashlib import md5
from itertools import permutations, product
from .ir import *


class Undec(Exception):
    pass


class Shape(Exception):
    """two axes of certainly different length are combined"""


# --------------------------------------------------------------------------- expressions
# factor = (head, idxs, exp) ; head is a hashable; idxs a tuple of index terms
# mono   = (bound tuple, factors tuple)      expr = {mono: Fraction}
SYM = 'sym'


class Key(object):
    """interned canonical form of a sub-expression"""
    __slots__ = ('items', 'n')
    table = {}

    def __new__(cls, items):
        k = cls.table.get(items)
        if k is None:
            k = object.__new__(cls)
            k.items, k.n = items, len(cls.table)
            cls.table[items] = k
        return k

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __repr__(self):
        return 'K%07d' % self.n


class Heads(object):
    """facts about atoms"""

    def __init__(self):
        self.same = set()       # two elements have the same value in an array
        self.cnts = {}          # head of the number of elements with the same value -> head of the comparison
        self.sym = set()        # matrices with M[i,j] == M[j,i] (last two indices)
        self.pos = set()        # positive atoms
        self.bool = set()       # 0/1 atoms
        self.ints = set()       # whole numbers
        self.mat = {}           # head of an inverse / cholesky factor -> (expr, i, j) of the matrix
        self.inv = {}           # atom head -> head of its inverse
        self.orth = set()       # rows orthonormal


def E0():
    return {}


def E1(c=1):
    return {((), ()): Fraction(c)} if c else {}


def Eatom(head, idxs=(), exp=1):
    return {((), ((head, tuple(idxs), Fraction(exp)),)): Fraction(1)}


class Alg(object):
    LIMIT = 4000
    DEBUG = False

    def __init__(self, heads=None):
        self.posk = set()           # sums known to be positive (lengths)
        self.H = heads or Heads()
        self.dims = {}          # index -> dim head
        self.cnt = 0

    # ---- indices
    def ix(self, dim):
        self.cnt += 1
        n = 'i%d' % self.cnt
        self.dims[n] = dim
        return n

    def rename(self, e, m):
        if not m:
            return e
        out = {}
        for (b, fs), c in e.items():
            nb = tuple(m.get(x, x) for x in b)
            nf = tuple((h, tuple(rn(x, m) for x in ii), p) for h, ii, p in fs)
            self.acc(out, nb, nf, c)
        return out

    def acc(self, out, b, fs, c):
        for (b2, f2), c2 in self.norm(b, fs):
            k = (b2, f2)
            v = out.get(k, 0) + c * c2
            if v:
                out[k] = v
            elif k in out:
                del out[k]
        if len(out) > self.LIMIT:
            raise Undec('expression too large')

    # ---- normal form of a monomial: list of ((bound, factors), coef)
    def norm(self, bound, factors):
        bound = list(bound)
        fs = list(factors)
        H = self.H
        coef = Fraction(1)
        changed = True
        while changed:
            changed = False
            # merge equal factors
            m = {}
            order = []
            for h, ii, p in fs:
                if h in H.sym and len(ii) >= 2:
                    ii = ii[:-2] + tuple(sorted(ii[-2:], key=str))
                if h == 'δ':
                    ii = tuple(sorted(ii, key=str))
                k = (h, ii)
                if k not in m:
                    order.append(k)
                    m[k] = p
                else:
                    m[k] += p
            fs = []
            for k in order:
                p = m[k]
                if isinstance(k[0], tuple) and k[0][0] == 'num' and not 0 <= p < 1:
                    w = p.numerator // p.denominator
                    coef *= k[0][1] ** w
                    p -= w
                if p == 0 or (k[0] in H.same or isinstance(k[0], tuple) and k[0][0] in ('triu', 'tril')) and k[1][-1] == k[1][-2]:
                    continue
                if (k[0] in H.bool or isinstance(k[0], tuple) and k[0][0] == 'boolfn' or k[0] == 'δ') and p > 0:
                    p = Fraction(1)
                fs.append((k[0], k[1], p))
            if H.cnts and any(h in H.cnts for h, ii, p in fs):
                fs = self.spread(fs)
            # expand polynomial atoms with natural exponents
            for n, (h, ii, p) in enumerate(fs):
                if isinstance(h, tuple) and h[0] == 'P' and p.denominator == 1 and p > 0:
                    sub = self.unkey(h[1], ii)
                    e = {((), ()): Fraction(1)}
                    for _ in range(int(p)):
                        e = self.mul(e, sub)
                    rest = {(tuple(bound), tuple(fs[:n] + fs[n + 1:])): coef}
                    # the other factors, with their bound indices, times the expansion
                    out = {}
                    for (b2, f2), c2 in e.items():
                        b3, f3 = self.fresh(b2, f2, set(bound))
                        for (b4, f4), c4 in self.norm(tuple(bound) + b3, tuple(fs[:n] + fs[n + 1:]) + f3):
                            k = (b4, f4)
                            out[k] = out.get(k, 0) + coef * c2 * c4
                    return [(k, c) for k, c in out.items() if c]
            # deltas
            for n, (h, ii, p) in enumerate(fs):
                if h != 'δ':
                    continue
                i, j = ii
                if i == j:
                    fs.pop(n)
                    changed = True
                    break
                t = None
                if i in bound:
                    t = (i, j)
                elif j in bound:
                    t = (j, i)
                if t is None and isinstance(i, str) and isinstance(j, str):
                    # both free: the other factors use the first one
                    if any(uses(f, j) for k, f in enumerate(fs) if k != n):
                        mm = {j: i}
                        fs = [f if k == n else (f[0], tuple(rn(x, mm) for x in f[1]), f[2]) for k, f in enumerate(fs)]
                        changed = True
                        break
                if t:
                    fs.pop(n)
                    bound.remove(t[0])
                    mm = {t[0]: t[1]}
                    fs = [(h2, tuple(rn(x, mm) for x in i2), p2) for h2, i2, p2 in fs]
                    changed = True
                    break
            if changed:
                continue
            # contractions
            for b in bound:
                us = [n for n, f in enumerate(fs) if uses(f, b)]
                if not us:
                    bound.remove(b)
                    fs.append((('dim', self.dims.get(b)), (), Fraction(1)))
                    changed = True
                    break
                r = self.classsum(b, us, fs) if H.same else None
                if r is None:
                    r = self.contract(b, us, fs)
                if r is not None:
                    new, cc = r
                    fs = [f for n, f in enumerate(fs) if n not in us] + new
                    coef *= cc
                    bound.remove(b)
                    changed = True
                    break
        return [(self.canon(tuple(bound), tuple(fs)), coef)]

    def spread(self, fs):
        """the numbers of elements of a class, shared evenly by the indices known to be of that class"""
        for K in set(self.H.cnts.values()):
            comp = {}
            for h, ii, p in fs:
                if h == K and len(ii) == 2:
                    x, y = comp.setdefault(ii[0], {ii[0]}), comp.setdefault(ii[1], {ii[1]})
                    if x is not y:
                        x |= y
                        for z in x:
                            comp[z] = x
            if not comp:
                continue
            tot, out = {}, []
            for f in fs:
                if self.H.cnts.get(f[0]) == K and len(f[1]) == 1 and f[1][0] in comp:
                    k = (f[0], id(comp[f[1][0]]))
                    tot[k] = comp[f[1][0]], tot.get(k, (0, Fraction(0)))[1] + f[2]
                else:
                    out.append(f)
            for (h, _), (c, p) in tot.items():
                if p:
                    out += [(h, (z,), p / len(c)) for z in c]
            fs = out
        return fs

    def classsum(self, b, us, fs):
        """sum over the elements b of a class, of a quantity of the class: as many times the quantity"""
        K, ks, cn, p = None, [], None, Fraction(0)
        for n in us:
            h, ii, q = fs[n]
            if h in self.H.same and len(ii) == 2 and (K is None or h == K) and ii.count(b) == 1 and all(isinstance(x, str) for x in ii):
                K = h
                ks.append(ii[1 - ii.index(b)])
            elif isinstance(h, tuple) and h[0] == 'P' and ii == (b,) and cn is None:
                cn, p = h, p + q
            else:
                return None
        if not ks or len(ks) == 1 and not p:
            return None
        p += 1
        w = ks[0]
        if cn is not None and self.H.cnts.get(cn) != K:
            return None
        key = [h for h in self.H.cnts if self.H.cnts[h] == K]
        if not key:
            return None
        key = key[0][1]
        new = [(K, (w, z), Fraction(1)) for z in ks[1:]]
        if p:
            new.append((('P', key), (w,), p))
        return new, Fraction(1)

    def contract(self, b, us, fs):
        """replacement of the factors us (all that use bound b) when summed over b"""
        H = self.H
        if len(us) == 1:
            h, ii, p = fs[us[0]]
            # sum_i log(chol[i,i]) = 1/2 logdet
            if isinstance(h, tuple) and h[0] == 'fn' and h[1] == 'log' and ii.count(b) >= 1 and p == 1:
                e = self.unkey(h[2], ii)
                if len(e) == 1:
                    (bb, ff), c = next(iter(e.items()))
                    if not bb and c == 1 and len(ff) == 1 and ff[0][2] == 1 and ff[0][1][-2:] == (b, b) and b not in ff[0][1][:-2]:
                        hh = ff[0][0]
                        if isinstance(hh, tuple) and hh[0] in ('cholU', 'cholL'):
                            inner = tuple(hh[1])
                            if len(inner) == 1 and inner[0][1] == 1 and not inner[0][0][0] and len(inner[0][0][1]) == 1:
                                gh, gi, gp = inner[0][0][1][0]
                                if gp == 1 and isinstance(gh, tuple) and gh[0] == 'inv' and all(isinstance(x, str) and x[0] == '#' for x in gi):
                                    return [(('logdet', gh[1]), tuple(ff[0][1][int(x[1:])] for x in gi[:-2]), Fraction(1))], Fraction(-1, 2)
                            return [(('logdet', hh[1]), ff[0][1][:-2], Fraction(1))], Fraction(1, 2)
            return None
        if len(us) != 2:
            return None
        f, g = fs[us[0]], fs[us[1]]
        if f[2] != 1 or g[2] != 1:
            return None
        for f, g in ((f, g), (g, f)):
            (h, ii, _), (k, jj, _) = f, g
            if len(ii) < 2 or len(jj) < 2 or ii.count(b) != 1 or jj.count(b) != 1:
                continue
            if b not in ii[-2:] or b not in jj[-2:]:
                continue
            # inverse times matrix
            if isinstance(h, tuple) and h[0] == 'inv':
                q = ii[-2:].index(b)
                o = ii[-2:][1 - q]
                for w in ((0, 1) if h in H.sym else (q,)):
                    # inv(M)[o,b] M[b,z]  or  inv(M)[b,o] M[z,b]
                    z = jj[-2:][1 - jj[-2:].index(b)]
                    e = self.unkey(h[1], ii[:-2] + ((b, z) if w == 1 else (z, b)))
                    if len(e) == 1:
                        (bb, ff), c = next(iter(e.items()))
                        if not bb and len(ff) == 1 and ff[0] == (k, jj, Fraction(1)):
                            return [('δ', (o, z), Fraction(1))], 1 / c
            # inverses of cholesky factors: L^-T L^-1 is the inverse of the matrix
            if h == k and isinstance(h, tuple) and h[0] == 'inv' and ii[:-2] == jj[:-2] and ii[-2:].index(b) == jj[-2:].index(b):
                at_ = ii[-2:].index(b)
                e = self.unkey(h[1], ii[:-2] + ('!i', '!j'))
                if len(e) == 1:
                    (bb, ff), c = next(iter(e.items()))
                    if not bb and c == 1 and len(ff) == 1 and ff[0][2] == 1 and isinstance(ff[0][0], tuple) and ff[0][0][0] == 'cholL' and \
                            ff[0][1][-2:] == (('!i', '!j') if at_ == 0 else ('!j', '!i')):
                        o1, o2 = ii[-2:][1 - at_], jj[-2:][1 - at_]
                        hh = ('inv', ff[0][0][1])
                        self.H.sym.add(hh)
                        return [(hh, ff[0][1][:-2] + (o1, o2), Fraction(1))], Fraction(1)
            # cholesky factors
            if h == k and isinstance(h, tuple) and h[0] in ('cholU', 'cholL') and ii[:-2] == jj[:-2]:
                want = 0 if h[0] == 'cholU' else 1
                if ii[-2:].index(b) == want and jj[-2:].index(b) == want:
                    o1, o2 = ii[-2:][1 - want], jj[-2:][1 - want]
                    e = self.unkey(h[1], ii[:-2] + (o1, o2))
                    return [self.poly_factor(e)], Fraction(1)
        return None

    def poly_factor(self, e):
        """an expression as one factor"""
        if len(e) == 1:
            (b, fs), c = next(iter(e.items()))
            if not b and c == 1 and len(fs) == 1:
                return fs[0]
        key, ii = self.key(e)
        return (('P', key), ii, Fraction(1))

    # ---- canonical bound names
    def canon(self, bound, fs):
        fs = list(fs)
        if not bound:
            return ((), tuple(sorted(fs, key=fkey)))
        B = set(bound)
        sig = {b: str(self.dims.get(b)) for b in bound}
        for _ in range(3):
            new = {}
            for b in bound:
                pr = []
                for h, ii, p in fs:
                    if any(b in inames(x) for x in ii):
                        js = [('*' if x == b else ('b' + sig[x]) if isinstance(x, str) and x in B else str(x) if isinstance(x, str)
                               else 'T' + str(x[0]) + ''.join('*' if y == b else ('b' + sig[y]) if y in B else str(y) for y in inames(x)))
                              for x in ii]
                        if h in self.H.sym:
                            js = js[:-2] + sorted(js[-2:])
                        pr.append((repr(h), tuple(js), p))
                new[b] = md5(repr((sig[b], tuple(sorted(pr, key=repr)))).encode()).hexdigest()
            sig = new
        groups = {}
        for b in bound:
            groups.setdefault(sig[b], []).append(b)
        keys = sorted(groups)
        lists = [groups[k] for k in keys]
        tot = 1
        for l in lists:
            for k in range(2, len(l) + 1):
                tot *= k
        best = None
        if tot > 800:
            perms = [[tuple(l) for l in lists]]
        else:
            perms = product(*[list(permutations(l)) for l in lists])
        for pm in perms:
            order = [x for l in pm for x in l]
            m = {}
            nb = []
            for n, b in enumerate(order):
                d = self.dims.get(b)
                nm = ('_', n, d)
                nm = '_%d|%s' % (n, dimname(d))
                self.dims.setdefault(nm, d)
                m[b] = nm
                nb.append(nm)
            nf = []
            for h, ii, p in fs:
                jj = tuple(rn(x, m) for x in ii)
                if h in self.H.sym and len(jj) >= 2:
                    jj = jj[:-2] + tuple(sorted(jj[-2:], key=str))
                if h == 'δ':
                    jj = tuple(sorted(jj, key=str))
                nf.append((h, jj, p))
            nf = tuple(sorted(nf, key=fkey))
            k = (tuple(nb), nf)
            kk = tuple(fkey(f) for f in nf)
            if best is None or kk < best[0]:
                best = (kk, k)
        return best[1]

    def fresh(self, b, fs, avoid=()):
        m = {x: self.ix(self.dims.get(x)) for x in b}
        return tuple(m[x] for x in b), tuple((h, tuple(rn(x, m) for x in ii), p) for h, ii, p in fs)

    # ---- arithmetic
    def add(self, a, b, s=1):
        out = dict(a)
        for k, c in b.items():
            v = out.get(k, 0) + s * c
            if v:
                out[k] = v
            else:
                out.pop(k, None)
        return out

    def scale(self, a, c):
        return {k: v * c for k, v in a.items()} if c else {}

    def mul(self, a, b):
        out = {}
        if len(a) * len(b) > self.LIMIT:
            raise Undec('expression too large')
        for (b1, f1), c1 in a.items():
            b1, f1 = self.fresh(b1, f1) if b1 else (b1, f1)
            for (b2, f2), c2 in b.items():
                b3, f3 = self.fresh(b2, f2) if b2 else (b2, f2)
                self.acc(out, b1 + b3, f1 + f3, c1 * c2)
        return out

    def guard(self, i):
        d = self.dims.get(i)
        return self.unkey(d[2], (i,) + d[3]) if isinstance(d, tuple) and d and d[0] == 'sel' else None

    def base(self, d):
        while isinstance(d, tuple) and d and d[0] == 'sel':
            d = d[1]
        return d

    def sum(self, e, i):
        """sum over free index i"""
        g = self.guard(i)
        if g is not None:
            d = self.dims[i]
            e = self.mul(e, g)
            j = self.ix(d[1])
            return self.sum(self.rename(e, {i: j}), j)
        out = {}
        for (b, f), c in e.items():
            b, f = self.fresh(b, f) if b else (b, f)
            j = self.ix(self.dims.get(i))
            self.acc(out, b + (j,), tuple((h, tuple(rn(x, {i: j}) for x in ii), p) for h, ii, p in f), c)
        return out

    def power(self, e, p):
        p = Fraction(p)
        if p == 1:
            return e
        if p == 0:
            return E1()
        if not e:
            return {} if p > 0 else Eatom(('inf',))
        if p.denominator == 1 and p > 0 and (len(e) <= 6 or len(e) ** int(p) < 500) and p <= 6:
            out = E1()
            for _ in range(int(p)):
                out = self.mul(out, e)
            return out
        # common content
        c0, com, rest = self.content(e)
        if rest is not None and p.denominator == 2:
            r = self.perfect(rest)
            if r is not None:
                e2 = self.cpow(c0, p)
                for h, ii, q in com:
                    e2 = self.mul(e2, self.power(Eatom(h, ii, q), p))
                return self.mul(e2, self.power(r, 2 * p))
        out = self.cpow(c0, p)
        for h, ii, q in com:
            if p.denominator != 1 and not self.positive(h) and (q * p).denominator == 1 and q % 2 == 0:
                # (a^2)^(1/2) = |a|
                k, jj = self.key(Eatom(h, ii))
                out = self.mul(out, Eatom(('fn', 'abs', k), jj, q * p))
            else:
                out = self.mul(out, Eatom(h, ii, q * p))
        if rest is not None:
            k, jj = self.key(rest)
            out = self.mul(out, {((), ((('P', k), jj, p),)): Fraction(1)})
        return out

    def perfect(self, e):
        """the square root of a*d^2 + b*d + c, a perfect square with positive coefficients in a length d"""
        d = {fs: c for (b, fs), c in e.items() if not b}
        if len(d) != 3 or len(e) != 3 or () not in d:
            return None
        hs = {(h, ii) for fs in d for h, ii, p in fs}
        if len(hs) != 1:
            return None
        h, ii = next(iter(hs))
        c, b, a = d[()], d.get(((h, ii, Fraction(1)),)), d.get(((h, ii, Fraction(2)),))
        if a is None or b is None or not self.positive(h) or min(a, b, c) <= 0 or b * b != 4 * a * c:
            return None
        return self.mul(self.cpow(a, Fraction(1, 2)), self.add(Eatom(h, ii), E1(b / (2 * a))))

    def positive(self, h):
        return h in self.H.pos or h in self.posk or isinstance(h, tuple) and (h[0] in ('dim', 'π', 'num') or h[0] == 'fn' and h[1] in ('exp', 'abs', 'floor') or
                                                            h[0] == 'count') or h == 'π'

    def cpow(self, c, p):
        if p.denominator == 1:
            return E1(c ** int(p)) if p > 0 or c != 0 else E1(1)
        if c < 0:
            return Eatom(('num', c), (), p)
        # exact roots, otherwise prime factors as atoms
        out = E1()
        for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
            n, q = base, 2
            while n > 1 and q * q <= n:
                k = 0
                while n % q == 0:
                    n //= q
                    k += 1
                if k:
                    out = self.mul(out, self.primepow(q, p * k * sgn))
                q += 1
                if q > 100000:
                    break
            if n > 1:
                out = self.mul(out, self.primepow(n, p * sgn))
        return out

    def primepow(self, q, p):
        w = p.numerator // p.denominator
        r = p - w
        e = E1(Fraction(q) ** w)
        if r:
            e = self.mul(e, {((), ((('num', Fraction(q)), (), r),)): Fraction(1)})
        return e

    def content(self, e):
        """e = c * product(common factors) * rest, rest normalised (or None when 1)"""
        items = sorted(e.items(), key=lambda t: mkey(t[0]))
        if len(items) == 1 and not items[0][0][0]:
            (b, fs), c = items[0]
            return c, list(fs), None
        # common factors over free indices
        common = None
        for (b, fs), c in items:
            d = {}
            for h, ii, p in fs:
                if not any(x in inames(y) for x in b for y in ii):
                    d[(h, ii)] = p
            common = d if common is None else {k: min(common[k], d[k]) for k in common if k in d and (common[k] > 0) == (d[k] > 0)}
        com = [(h, ii, p) for (h, ii), p in (common or {}).items()]
        if com:
            inv = {((), tuple((h, ii, -p) for h, ii, p in com)): Fraction(1)}
            inv = self.normall(inv)
            e = self.mul(e, inv)
            items = sorted(e.items(), key=lambda t: mkey(t[0]))
        c0 = items[0][1]
        rest = {k: v / abs(c0) for k, v in e.items()}
        c0 = abs(c0)
        if len(rest) == 1 and rest.get(((), ())) == 1:
            return c0, com, None
        return c0, com, rest

    def normall(self, e):
        out = {}
        for (b, f), c in e.items():
            self.acc(out, b, f, c)
        return out

    # ---- keys of sub-expressions (functions of their free indices)
    def free(self, e):
        out = []
        for (b, fs), c in sorted(e.items(), key=lambda t: mkey(t[0])):
            for h, ii, p in fs:
                for x in ii:
                    for y in inames(x):
                        if y not in b and y not in out:
                            out.append(y)
        return out

    def key(self, e):
        """(canonical key, free indices in the order the key names them)"""
        fr = self.free(e)
        if len(fr) <= 1:
            return self.keyin(e, tuple(fr)), tuple(fr)
        best = None
        groups = permutations(fr) if len(fr) <= 4 else [tuple(fr)]
        for pm in groups:
            k = self.keyin(e, pm)
            s = repr(k)
            if best is None or s < best[0]:
                best = (s, k, pm)
        return best[1], tuple(best[2])

    def keyin(self, e, order):
        m = {x: '#%d' % n for n, x in enumerate(order)}
        for x, y in m.items():
            if x in self.dims:
                self.dims.setdefault(y, None)
        r = self.rename(e, m)
        return Key(tuple(sorted(((k, c) for k, c in r.items()), key=lambda t: mkey(t[0]))))

    def unkey(self, key, idxs):
        m = {'#%d' % n: x for n, x in enumerate(idxs)}
        return self.rename(dict(key), m)

    # ---- functions
    def integral(self, e):
        """a sum of whole multiples of products of dimensions"""
        return all(c.denominator == 1 and not b and all(isinstance(h, tuple) and h[0] == 'dim' and p > 0 and p.denominator == 1 for h, ii, p in fs) for (b, fs), c in e.items())

    def whole(self, b, fs, c):
        """certainly an integer"""
        return c.denominator == 1 and not b and all((h == 'ι' or isinstance(h, tuple) and (h[0] == 'dim' or h[0] == 'fn' and h[1] in ('floor', 'ceil', 'round')) or
                                                     h in self.H.ints) and p > 0 and p.denominator == 1 for h, ii, p in fs)

    def fn(self, name, e):
        if not any(True for _ in e) and name in ('exp',):
            return E1()
        c0 = self.constval(e)
        if name in ('floor', 'ceil', 'round'):
            # whole parts move out
            whole, rest = {}, {}
            for (b, fs), c in e.items():
                if not b and not fs and name != 'round':
                    q = c.numerator // c.denominator
                    if q:
                        whole[(b, fs)] = Fraction(q)
                    if c - q:
                        rest[(b, fs)] = c - q
                elif self.whole(b, fs, c):
                    whole[(b, fs)] = c
                else:
                    rest[(b, fs)] = c
            if not rest:
                return whole
            if whole:
                return self.add(whole, self.fn(name, rest))
        if name == 'log':
            if c0 == 1:
                return {}
            cc, com, rest = self.content(e)
            out = {}
            if cc != 1:
                out = self.add(out, self.logc(cc))
            for h, ii, p in com:
                if isinstance(h, tuple) and h[0] == 'fn' and h[1] == 'exp':
                    out = self.add(out, self.scale(self.unkey(h[2], ii), p))
                elif isinstance(h, tuple) and h[0] == 'num':
                    out = self.add(out, self.scale(self.logc(h[1]), p))
                else:
                    k, jj = self.key(Eatom(h, ii))
                    out = self.add(out, self.scale(Eatom(('fn', 'log', k), jj), p))
            if rest is not None:
                k, jj = self.key(rest)
                out = self.add(out, Eatom(('fn', 'log', k), jj))
            return self.normall(out)
        if name == 'exp':
            out = E1()
            left = {}
            for (b, fs), c in e.items():
                if not b and len(fs) == 1 and isinstance(fs[0][0], tuple) and fs[0][0][:2] == ('fn', 'log') and fs[0][2] == 1:
                    out = self.mul(out, self.power(self.unkey(fs[0][0][2], fs[0][1]), c))
                else:
                    left[(b, fs)] = c
            # one factor per term: exp(a+b) = exp(a) exp(b)
            for k0, c in left.items():
                t = {k0: Fraction(1)}
                k, jj = self.key(t)
                out = self.mul(out, Eatom(('fn', 'exp', k), jj, c))
            return out
        if name in ('abs',) and c0 is not None:
            return E1(abs(c0))
        if name == 'abs':
            cc, com, rest = self.content(e)
            if rest is None:
                out = E1(abs(cc))
                for h, ii, p in com:
                    if self.positive(h) or p.denominator == 1 and p % 2 == 0:
                        out = self.mul(out, Eatom(h, ii, p))
                    else:
                        k, jj = self.key(Eatom(h, ii))
                        out = self.mul(out, Eatom(('fn', 'abs', k), jj, p))
                return out
        k, jj = self.key(e)
        return Eatom(('fn', name, k), jj)

    def logc(self, c):
        out = {}
        for base, s in ((c.numerator, 1), (c.denominator, -1)):
            n, q = abs(base), 2
            while n > 1 and q * q <= n and q < 100000:
                while n % q == 0:
                    out = self.add(out, Eatom(('fn', 'log', (('num', q),))), s)
                    n //= q
                q += 1
            if n > 1:
                out = self.add(out, Eatom(('fn', 'log', (('num', n),))), s)
        return out

    def constval(self, e):
        if not e:
            return Fraction(0)
        if len(e) == 1 and ((), ()) in e:
            return e[((), ())]
        return None

    # ---- zero test with common denominators
    def zero(self, e):
        for _ in range(12):
            if not e:
                return True
            den = None
            for (b, fs), c in e.items():
                for h, ii, p in fs:
                    if isinstance(h, tuple) and h[0] == 'P' and p < 0 and not any(x in b for y in ii for x in inames(y)):
                        d = (h, ii)
                        if den is None or repr(d) < repr(den):
                            den = d
            if den is None:
                return False
            k = Fraction(0)
            for (b, fs), c in e.items():
                for h, ii, p in fs:
                    if (h, ii) == den and -p > k:
                        k = -p
            out = {}
            for (b, fs), c in e.items():
                b, fs = self.fresh(b, fs) if b else (b, fs)
                self.acc(out, b, fs + ((den[0], den[1], k),), c)
            e = out
        return not e

    def opaque(self, e):
        return [h for (b, fs) in e for h, ii, p in fs for h in heads(h) if isinstance(h, tuple) and h and h[0] == '?']

    def show(self, e, n=8):
        if not e:
            return '0'
        out = []
        for (b, fs), c in sorted(e.items(), key=lambda t: mkey(t[0]))[:n]:
            t = '·'.join(fshow(f) for f in fs) or '1'
            if b:
                t = 'Σ[%s] %s' % (','.join(x.split('|')[0] for x in b), t)
            out.append(('%s ' % c if c != 1 else '') + t)
        return ' + '.join(out) + (' …' if len(e) > n else '')


def heads(h):
    yield h
    if isinstance(h, tuple):
        for x in h:
            if isinstance(x, (tuple, Key)):
                for y in heads(x):
                    yield y
    elif isinstance(h, Key):
        for (b, fs), c in h:
            for hh, ii, p in fs:
                for y in heads(hh):
                    yield y
                for x in ii:
                    for y in heads(x):
                        yield y


def dimname(d):
    return d if isinstance(d, str) else md5(repr(d).encode()).hexdigest()[:6]


def inames(x):
    """index symbols in an index term"""
    if isinstance(x, str):
        return [x]
    if isinstance(x, tuple) and x and x[0] == 'at':
        return [y for z in x[2] for y in inames(z)]
    return []


def rn(x, m):
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, tuple) and x and x[0] == 'at':
        return ('at', x[1], tuple(rn(y, m) for y in x[2])) + x[3:]
    return x


def uses(f, b):
    return any(b in inames(x) for x in f[1])


def fkey(f):
    return (repr(f[0]), repr(f[1]), f[2])


def mkey(k):
    return (len(k[1]), tuple(fkey(f) for f in k[1]), repr(k[0]))


def fshow(f):
    h, ii, p = f
    if isinstance(h, tuple):
        if h[0] == 'fn':
            s = h[1] + '(…)' if len(repr(h[2])) > 300 else '%s(%s)' % (h[1], kshow(h[2]))
        elif h[0] in ('inv', 'logdet', 'cholU', 'cholL', 'P'):
            s = '%s(%s)' % (h[0], kshow(h[1]) if len(repr(h[1])) < 600 else '…')
        elif h[0] == 'dim':
            s = '|%s|' % (h[1],)
        else:
            s = str(h[-1])
    else:
        s = str(h)
    if ii:
        s += '[%s]' % ','.join(x.split('|')[0] if isinstance(x, str) else str(x[1]) if x[0] == 'c' else '%s(%s)' % (x[1], ','.join(map(str, x[2])))
                               for x in ii)
    if p != 1:
        s += '^%s' % p
    return s


def kshow(k):
    try:
        return ' + '.join((('%s ' % c) if c != 1 else '') + '·'.join(fshow(f) for f in fs) for (b, fs), c in k)
    except Exception:
        return '…'


# --------------------------------------------------------------------------- arrays
class Ten(object):
    __slots__ = ('axes', 'e')

    def __init__(self, axes, e):
        self.axes, self.e = list(axes), e

    def __repr__(self):
        return 'Ten(%s, %d terms)' % (self.axes, len(self.e))


class Cat(object):
    """arrays joined along an axis (the last one)"""

    def __init__(self, parts, axis):
        self.parts, self.axis = parts, axis


class Block(object):
    """a matrix given by blocks"""

    def __init__(self, rows):
        self.rows = rows


class BlockChol(object):
    def __init__(self, b, lower):
        self.b, self.lower = b, lower


class Flat(object):
    """an array read as one vector"""

    def __init__(self, t):
        self.t = t


class Pack(object):
    """triangle of a symmetric matrix, diagonal scaled: symmat2vec(A, diag_factor)"""

    def __init__(self, t, f):
        self.t, self.f = t, f


class Tri(object):
    """one triangle of a matrix, row by row: kind 'triu' or 'tril'"""

    def __init__(self, t, kind):
        self.t, self.kind = t, kind


IDENT = {'astype', 'asarray', 'array', 'copy', 'ascontiguousarray', 'asfortranarray', 'float', 'float64', 'float32', 'squeeze1',
         'asanyarray', 'real', 'require', 'ensure', 'longdouble'}
ELEM = {'log', 'exp', 'sqrt', 'abs', 'absolute', 'fabs', 'square', 'erf', 'gammaln', 'tanh', 'sin', 'cos', 'log1p', 'expm1', 'log10',
        'log2', 'floor', 'ceil', 'sign', 'digamma', 'psi', 'ndtri', 'round', 'rint', 'erfinv', 'isnan', 'logical_not'}


class Tr(object):
    """translates value-graph nodes to tensors"""

    def __init__(self, I, facts=None, shapes=None, heads=None, loops=None):
        self.I = I
        self.A = Alg(heads)
        self.F = facts
        self.sh = shapes or {}      # node -> (name, dims)
        self.memo = {}
        self.iv = {}
        self.uniq = {}
        self.blocks = {}
        self.sels = {}
        self.rnd = {}
        self.unk = {}
        self.hook = None
        self.several = set()        # ('dim', d) of the dimensions larger than one
        self.rankof = None          # place of the elements of a sorted array
        self.models = {}            # meaning of functions that are not read: full name -> f(tr, argument nodes)
        self.num = None             # representative value of a length
        self.labels = set()         # heads that are integer class labels

    # ------------------------------------------------------------------
    def T(self, n):
        r = self.memo.get(n)
        if r is None:
            if n in self.sh:
                r = self.atom(*self.sh[n])
            else:
                r = None
                if self.hook is not None:
                    r = self.hook(self, n)
                if r is None:
                    m = getattr(self, 'n_' + n.op, None)
                    if m is None:
                        raise Undec('%s: %s' % (n.op, show(n, 3)))
                    r = m(n)
            self.memo[n] = r
        return self.copy(r)

    def copy(self, t):
        """fresh axis indices, so that one array can be used twice"""
        if isinstance(t, Cat):
            return Cat([self.copy(x) for x in t.parts], t.axis)
        if isinstance(t, Pack):
            return Pack(self.copy(t.t), t.f)
        if not isinstance(t, Ten):
            return t
        m = {a: self.A.ix(self.A.dims[a]) for a in t.axes if a is not None}
        return Ten([m.get(a) if a is not None else None for a in t.axes], self.A.rename(t.e, m))

    def atom(self, name, dims):
        if callable(dims):
            return dims(self)
        dims = [self.asdim(Spec(self, {}).parse(d[1:], {})) if isinstance(d, str) and d[:1] == '=' else d for d in dims]
        ax = [self.A.ix(d) if d != 1 else None for d in dims]
        return Ten(ax, Eatom(name, [a for a in ax if a is not None]))

    def scalar(self, n):
        t = self.T(n)
        if not isinstance(t, Ten) or [a for a in t.axes if a is not None]:
            raise Undec('not a scalar: %s' % show(n, 3))
        return t.e

    def unflat(self, t):
        """the elements of an array row by row"""
        A = self.A
        x = t.t
        if None in x.axes or len(x.axes) != 2:
            raise Undec('flattened array')
        i, k = x.axes
        D = self.dimexpr(A.dims[k])
        j = A.ix(self.asdim(A.mul(self.dimexpr(A.dims[i]), D)))
        q = A.fn('floor', A.mul(Eatom('ι', (j,)), A.power(D, -1)))
        e = self.subix(x.e, i, self.iterm(q))
        e = self.subix(e, k, self.iterm(A.add(Eatom('ι', (j,)), A.mul(D, q), -1)))
        return Ten([j], e)

    def array(self, n):
        t = self.T(n)
        if isinstance(t, Flat):
            t = self.unflat(t)
        if not isinstance(t, Ten):
            raise Undec('not a plain array: %s' % show(n, 3))
        return t

    def dimof(self, t, k):
        if isinstance(t, (Pack, Tri)):
            return self.partlen(t, 0)
        if isinstance(t, Cat):
            ax = t.axis
            out = {}
            if k % len(t.parts[0].axes) != ax:
                return self.dimof(t.parts[0], k)
            for p in t.parts:
                out = self.A.add(out, self.partlen(p, ax))
            return out
        a = t.axes[k]
        if a is None:
            return E1()
        return self.dimexpr(self.A.dims[a])

    def dimexpr(self, d):
        if isinstance(d, tuple) and d and d[0] == 'sel':
            i = self.A.ix(d)
            e = self.A.sum(E1(), i)
            self.sels[self.A.key(e)] = d
            return e
        if isinstance(d, tuple) and d and d[0] == 'size' and not any(isinstance(h, tuple) and h[0] == 'boolfn' for h in heads(d[1])):
            return self.A.unkey(d[1], d[2])
        if isinstance(d, int):
            return E1(d)
        return Eatom(('dim', d))

    def asdim(self, e):
        """the dimension named by an expression"""
        c = self.A.constval(e)
        if c is not None and c.denominator == 1:
            return int(c) if c != 1 else 1
        if len(e) == 1:
            (b, fs), c = next(iter(e.items()))
            if c == 1 and not b and len(fs) == 1 and isinstance(fs[0][0], tuple) and fs[0][0][0] == 'dim' and fs[0][2] == 1:
                return fs[0][0][1]
        k, ii = self.A.key(e)
        if (k, ii) in self.sels:
            return self.sels[k, ii]
        rest = self.A.content(e)[2]
        if rest is not None:
            self.A.posk.add(('P', self.A.key(rest)[0]))
        return ('size', k, ii)

    # ---- broadcasting
    def unify(self, ts):
        """bring tensors to common axes; returns (axes, [expr])"""
        r = max(len(t.axes) for t in ts)
        axes = [None] * r
        es = [t.e for t in ts]
        for k in range(1, r + 1):
            ref = None
            for n, t in enumerate(ts):
                if k > len(t.axes):
                    continue
                a = t.axes[-k]
                if a is None:
                    continue
                if ref is None:
                    ref = a
                else:
                    self.same(ref, a, es, n)
                    es[n] = self.A.rename(es[n], {a: ref})
            axes[-k] = ref
        return axes, es

    def same(self, a, b, es=None, n=None):
        d1, d2 = self.A.dims[a], self.A.dims[b]
        if d1 == d2:
            return
        if isinstance(d1, tuple) and isinstance(d2, tuple) and d1[0] == d2[0] == 'sel' and d1[:3] == d2[:3]:
            if d1[3] == d2[3]:
                return
        if isinstance(d1, str) and isinstance(d2, str) or isinstance(d1, int) and isinstance(d2, int):
            raise Shape('an axis of length %s meets one of length %s' % (d1, d2))
        if self.num is not None:
            v1, v2 = (self.num(self.dimexpr(d)) for d in (d1, d2))
            if v1 is not None and v2 is not None and v1 != v2 and 1 not in (v1, v2):
                raise Shape('an axis of length %s meets one of length %s' % tuple(self.A.show(self.dimexpr(d)) for d in (d1, d2)))
        raise Undec('axes %s and %s' % (d1, d2))

    def bin(self, op, a, b):
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.catbin(op, a, b)
        if isinstance(a, Pack) or isinstance(b, Pack):
            if op in '*/' and isinstance(a, Pack) and isinstance(b, Ten) and not b.axes:
                return Pack(self.bin(op, a.t, b), a.f)
            if op == '*' and isinstance(b, Pack) and isinstance(a, Ten) and not a.axes:
                return Pack(self.bin(op, b.t, a), b.f)
            raise Undec('packed matrix')
        axes, (x, y) = self.unify([a, b])
        A = self.A
        if op == '+':
            return Ten(axes, A.add(x, y))
        if op == '-':
            return Ten(axes, A.add(x, y, -1))
        if op == '*':
            return Ten(axes, A.mul(x, y))
        if op == '/':
            return Ten(axes, A.mul(x, A.power(y, -1)))
        if op == '**':
            c = A.constval(y)
            if c is None:
                c2 = A.constval(x)
                raise Undec('power')
            return Ten(axes, A.power(x, c))
        raise Undec('operator ' + op)

    def catbin(self, op, a, b):
        return self.catmap(lambda x, y: self.bin(op, x, y), a, b)

    def catmap(self, f, *ts):
        """an elementwise operation on joined arrays, part by part"""
        cs = [t for t in ts if isinstance(t, Cat)]
        if all(isinstance(t, Cat) or isinstance(t, Ten) and (not t.axes or t.axes[-1] is None and cs[0].axis == self.rank(cs[0]) - 1) for t in ts) \
                and all(len(c.parts) == len(cs[0].parts) and c.axis == cs[0].axis for c in cs) \
                and all(self.A.zero(self.A.add(self.partlen(p, c.axis), self.partlen(q, c.axis), -1)) for c in cs for p, q in zip(c.parts, cs[0].parts)):
            return Cat([f(*[t.parts[k] if isinstance(t, Cat) else t for t in ts]) for k in range(len(cs[0].parts))], cs[0].axis)
        r = {self.rank(c) - c.axis for c in cs}
        if len(r) != 1 or not all(isinstance(t, Ten) or isinstance(t, Cat) and all(isinstance(p, Ten) for p in t.parts) for t in ts):
            raise Undec('joined arrays')
        r = r.pop()
        nd = max(self.rank(t) for t in ts)
        todo = [list(t.parts) if isinstance(t, Cat) else [t] if len(t.axes) >= r and t.axes[-r] is not None else None for t in ts]
        out = []
        while any(x for x in todo if x is not None):
            if any(x == [] for x in todo):
                raise (Shape if self.num is not None else Undec)('arrays of different lengths meet')
            n = None
            for x in todo:
                if x is not None:
                    m = self.partlen(x[0], len(x[0].axes) - r)
                    if n is None or not self.A.zero(self.A.add(m, n, -1)) and self.order(self.A.add(n, m, -1)) > 0:
                        n = m
            seg = []
            for k, x in enumerate(todo):
                if x is None:
                    seg.append(ts[k])
                    continue
                p = x.pop(0)
                if not self.A.zero(self.A.add(self.partlen(p, len(p.axes) - r), n, -1)):
                    p, q = self.cutat(p, len(p.axes) - r, n)
                    x.insert(0, q)
                seg.append(p)
            out.append(f(*seg))
        return Cat(out, nd - r)

    def rank(self, t):
        return len(t.axes) if isinstance(t, Ten) else len(t.parts[0].axes) if isinstance(t, Cat) and isinstance(t.parts[0], Ten) else 1

    def sgn(self, e):
        """sign of a length or position, None when it is not known"""
        c = self.A.constval(e)
        if c is not None:
            return (c > 0) - (c < 0)
        if self.inside(e):
            return 1
        if self.inside(self.A.scale(e, -1)):
            return -1
        v = self.num(e) if self.num is not None else None
        return None if not v else 1 if v > 0 else -1

    def order(self, e):
        v = self.sgn(e)
        if v is None:
            raise Undec('order of positions')
        return v

    def cutat(self, p, k, at):
        """the two pieces of an array cut at a position of axis k"""
        A = self.A
        a = p.axes[k]
        out = []
        for lo, ln in (({}, at), (at, A.add(self.partlen(p, k), at, -1))):
            d = self.asdim(ln)
            j = None if d == 1 else A.ix(d)
            e = p.e
            if a in A.free(e):
                e = self.subix(e, a, self.iterm(A.add(Eatom('ι', (j,)) if j is not None else {}, lo)))
            out.append(Ten(p.axes[:k] + [j] + p.axes[k + 1:], e))
        return out

    # ---- nodes
    def n_const(self, n):
        v = n.args[0]
        if isinstance(v, bool):
            return Ten([], E1(1 if v else 0))
        if isinstance(v, int):
            return Ten([], E1(v))
        if isinstance(v, float):
            return Ten([], E1(Fraction(repr(v))))
        raise Undec('constant %r' % (v,))

    def n_ext(self, n):
        if n.args[0] in ('numpy.pi', 'math.pi'):
            return Ten([], Eatom('π'))
        if n.args[0] in ('numpy.inf',):
            return Ten([], Eatom('inf'))
        raise Undec(n.args[0])

    def n_bin(self, n):
        op, x, y = n.args[0], n.args[1], n.args[2]
        if op == '@':
            return self.dot(self.T(x), self.T(y))
        if op == '**' and is_const(y) and y.args[0] == 2:
            a = self.T(x)
            return self.bin('*', a, self.alignto(a))
        if op == '//':
            a, b = self.array(x), self.array(y)
            q = self.bin('/', a, b)
            axes, (ea, eb) = self.unify([a, b])
            return Ten(axes, self.A.fn('floor', self.A.mul(ea, self.A.power(eb, -1))))
        if op in ('&', '|'):
            a, b = self.array(x), self.array(y)
            t = self.bin('*', a, b)
            return t if op == '&' else self.bin('-', self.bin('+', a, b), t)
        if op == '%':
            a, b = self.array(x), self.array(y)
            axes, (ea, eb) = self.unify([a, b])
            k, jj = self.A.key(ea)
            k2, j2 = self.A.key(eb)
            return Ten(axes, Eatom(('mod', k, k2), jj + j2))
        return self.bin(op, self.T(x), self.T(y))

    n_iop = n_bin

    def alignto(self, a):
        return a

    def n_un(self, n):
        t = self.T(n.args[1])
        if n.args[0] == '-':
            return self.bin('*', t, Ten([], E1(-1)))
        if n.args[0] == '~':
            return self.bin('-', Ten([], E1()), t)
        if n.args[0] == '+':
            return t
        raise Undec('unary ' + n.args[0])

    def n_not(self, n):
        return self.bin('-', Ten([], E1()), self.T(n.args[0]))

    def n_and(self, n):
        r = Ten([], E1())
        for x in n.args[0]:
            r = self.bin('*', r, self.array(x))
        return r

    def n_or(self, n):
        r = Ten([], E1())
        for x in n.args[0]:
            r = self.bin('*', r, self.bin('-', Ten([], E1()), self.array(x)))
        return self.bin('-', Ten([], E1()), r)

    def n_cmp(self, n):
        op = n.args[0]
        if op in ('is', 'is not', 'in', 'not in', 'isinstance'):
            return Ten([], Eatom(('cond', n.uid)))
        a, b = self.T(n.args[1]), self.T(n.args[2])
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.catmap(lambda x, y: self.compare(op, x, y), a, b)
        return self.compare(op, self.array(n.args[1]), self.array(n.args[2]))

    def compare(self, op, a, b):
        axes, (x, y) = self.unify([a, b])
        if op in ('==', '!='):
            lab = self.label(x, y)
            if lab is not None:
                e = lab
            elif self.several and any(self.A.constval(v) == 1 and self.single(u) and self.single(u)[0] in self.several for u, v in ((x, y), (y, x))):
                # a dimension said to be larger than one
                e = {}
            else:
                e = self.boolfn('eq0', self.A.add(x, y, -1))
            if op == '!=':
                e = self.A.add(E1(), e, -1)
            return Ten(axes, e)
        if op in ('<', '>'):
            d = self.A.add(x, y, -1) if op == '<' else self.A.add(y, x, -1)
            return Ten(axes, self.boolfn('lt0', d))
        if op in ('<=', '>='):
            d = self.A.add(y, x, -1) if op == '<=' else self.A.add(x, y, -1)
            return Ten(axes, self.A.add(E1(), self.boolfn('lt0', d), -1))
        raise Undec('comparison ' + op)

    def boolfn(self, name, d):
        c0, com, rest = self.A.content(d) if d else (Fraction(0), [], None)
        if not d:
            return E1(1) if name == 'eq0' else {}
        c = self.A.constval(d)
        if c is not None:
            return E1(1 if (c == 0 if name == 'eq0' else c < 0) else 0)
        strip = [(h, ii, -p) for h, ii, p in com if h in self.A.H.pos or p.denominator % 2 == 0 or p.denominator == 1 and p % 2 == 0 and name == 'lt0' and p < 0]
        if strip:
            # a positive factor does not change the comparison
            d = self.A.normall(self.A.mul(d, {((), tuple(strip)): 1 / abs(c0)}))
        if name == 'lt0' and self.positive(d):
            return {}
        if name == 'lt0' and self.positive(self.A.scale(d, -1)):
            return E1()
        if name == 'eq0' and len(d) == 1 and all(h in self.A.H.pos for (b, fs) in d for h, ii, p in fs):
            return {}
        if name == 'eq0':
            k1, j1 = self.A.key(d)
            k2, j2 = self.A.key(self.A.scale(d, -1))
            k, j = (k1, j1) if repr(k1) <= repr(k2) else (k2, j2)
            if k1 == k2 and len(j) == 2:
                # same value at two elements of one array
                self.A.H.sym.add(('boolfn', name, k))
                K = ('boolfn', name, k)
                if K not in self.A.H.same:
                    self.A.H.same.add(K)
                    d = self.A.dims.get(j[0])
                    d = d[1] if isinstance(d, tuple) and d[0] == 'rep' else d
                    b, q = self.A.ix(d), self.A.ix(d)
                    ck, _ = self.A.key(self.A.normall({((b,), ((K, (b, q), Fraction(1)),)): Fraction(1)}))
                    self.A.H.cnts[('P', ck)] = K
                j = tuple(sorted(j, key=str))
        else:
            # modulo ties, d < 0 is the opposite of -d < 0: both are written one way
            k, j = self.A.key(d)
            k2, j2 = self.A.key(self.A.scale(d, -1))
            if repr(k2) < repr(k):
                return self.A.add(E1(), Eatom(('boolfn', name, k2), j2), -1)
        return Eatom(('boolfn', name, k), j)

    def positive(self, d):
        """a sum of positive terms"""
        H = self.A.H
        for (b, fs), c in d.items():
            if c <= 0 or not all(f[0] in H.pos or isinstance(f[0], tuple) and f[0][0] == 'dim' for f in fs):
                return False
        return True

    def label(self, x, y):
        """comparison of class labels with a class: the indicator of membership"""
        for a, b in ((x, y), (y, x)):
            fa = self.single(a)
            fb = self.single(b)
            if fa and fb and fa[0] in self.labels:
                if fb[0] == 'ι' or isinstance(fb[0], tuple) and fb[0][0] == 'unique' and fb[0][1] == fa[0]:
                    h = ('ind', fa[0])
                    self.A.H.bool.add(h)
                    return Eatom(h, fa[1] + fb[1])
        return None

    def single(self, e):
        if len(e) == 1:
            (b, fs), c = next(iter(e.items()))
            if not b and c == 1 and len(fs) == 1 and fs[0][2] == 1:
                return fs[0]
        return None

    def n_phi(self, n):
        c, a, b = n.args
        if c.op == 'cmp' and c.args[0] == 'is' and is_const(c.args[2]) and c.args[2].args[0] is None and c.args[1] is b and b.op == 'lphi':
            # value worked out when first needed and kept for the next rounds
            L = self.I.loops.get(b.args[0])
            if L is not None and b in L.back:
                e0, bk = self.F.ev(L.entry[b]), self.F.ev(L.back[b])
                if is_const(e0) and e0.args[0] is None and (bk is n or bk is a) and not any(y is b for y in walk(a)):
                    return self.T(a)
        if self.F is not None:
            v = self.F.boolval(c)
            if v is True:
                return self.T(a)
            if v is False:
                return self.T(b)
        try:
            m = self.array(c)
        except Undec:
            m = None
        if m is not None and not m.axes:
            k = self.A.constval(m.e) if m.e else Fraction(0)
            if k is not None:
                return self.T(a if k else b)
        x, y = self.T(a), self.T(b)
        if isinstance(x, Ten) and isinstance(y, Ten):
            if len(x.axes) == len(y.axes):
                try:
                    axes, (ex, ey) = self.unify([x, y])
                except Shape as e:
                    raise Undec('alternatives of different shapes: %s' % e)
                if ex == ey:
                    return Ten(axes, ex)
        m = self.array(c)
        if m.axes:
            raise Undec('condition of %s' % show(n, 3))
        return self.bin('+', self.bin('*', m, x), self.bin('*', self.bin('-', Ten([], E1()), m), y))

    def n_dim(self, n):
        x = self.uniqueof(n.args[0]) if n.args[1] == 0 else None
        if x is not None:
            t = self.array(x)
            if len(t.axes) == 1 and t.axes[0] is not None:
                return Ten([], Eatom(('dim', ('rep', self.A.dims[t.axes[0]]))))
        return Ten([], self.dimof(self.T(n.args[0]), n.args[1]))

    def n_ndim(self, n):
        t = self.T(n.args[0])
        if isinstance(t, Cat):
            t = t.parts[0]
        if not isinstance(t, Ten):
            raise Undec('ndim')
        return Ten([], E1(len(t.axes)))

    def n_size(self, n):
        t = self.array(n.args[0])
        e = E1()
        for k in range(len(t.axes)):
            e = self.A.mul(e, self.dimof(t, k))
        return Ten([], e)

    def n_alloc(self, n):
        v = n.args[1]
        if v.op in ('list', 'set'):
            return self.seq(v.args)
        if v.op == 'lmap':
            return self.n_lmap(v)
        return self.T(v)

    def n_list(self, n):
        return self.seq(n.args)

    def n_tuple(self, n):
        return self.seq(n.args)

    def seq(self, xs):
        ts = [self.T(x) for x in xs]
        if all(isinstance(t, Ten) and not [a for a in t.axes] for t in ts):
            # a vector given element by element
            a = self.A.ix(len(ts) if len(ts) != 1 else 1)
            if len(ts) == 1:
                return Ten([None], ts[0].e)
            e = {}
            for k, t in enumerate(ts):
                e = self.A.add(e, self.A.mul(t.e, Eatom(('at=', k), (a,))))
            return Ten([a], e)
        raise Undec('sequence')

    def ivar(self, n):
        """the index of a loop variable"""
        if n not in self.iv:
            it = n.args[0]
            x = self.uniqueof(it)
            if x is not None:
                t = self.array(x)
                if len(t.axes) != 1 or t.axes[0] is None:
                    raise Undec('unique of rank %d' % len(t.axes))
                u = self.A.ix(('rep', self.A.dims[t.axes[0]]))
                self.uniq[u] = t
                self.iv[n] = u
                return u
            if callname(it) == 'builtins.range':
                a = it.args[1]
                if len(a) == 3 and is_const(a[0], 0) and not is_const(a[2]):
                    # the first elements of consecutive blocks
                    D = self.asdim(self.scalar(a[1]))
                    k, ii = self.A.key(self.scalar(a[2]))
                    if ii:
                        raise Undec('range with a varying step')
                    i = self.A.ix(('blk', D, k))
                    self.blocks[i] = D, k, self.scalar(a[2])
                    self.iv[n] = i
                    return i
                if len(a) == 1:
                    d = self.asdim(self.scalar(a[0]))
                elif len(a) == 2 and is_const(a[0], 0):
                    d = self.asdim(self.scalar(a[1]))
                else:
                    raise Undec('range with a start')
            else:
                raise Undec('loop over %s' % show(it, 3))
            if d == 1:
                d = ('one',)
            self.iv[n] = self.A.ix(d)
        return self.iv[n]

    def uniqueof(self, it):
        """X, for a loop over the values of the array X"""
        if callname(it) == 'builtins.range' and len(it.args[1]) == 1 and it.args[1][0].op == 'dim':
            it = it.args[1][0].args[0]
        if callname(it) == 'numpy.unique' and len(it.args[1]) == 1 and not it.args[2]:
            x = it.args[1][0]
            if self.F is not None:
                x = self.F.ev(x)
            try:
                f = self.single(self.array(x).e)
            except Undec:
                return None
            if f is None or f[0] in self.labels:
                return None
            return x
        return None

    def listitems(self, n):
        """the elements of a list built step by step"""
        n = self.F.ev(n) if self.F is not None else n
        if n.op in ('list', 'tuple'):
            return list(n.args)
        if n.op == 'alloc':
            return self.listitems(n.args[1])
        if callname(n) in ('builtins.tuple', 'builtins.list') and len(n.args[1]) == 1:
            return self.listitems(n.args[1][0])
        if n.op in ('bin', 'iop') and n.args[0] == '+' or n.op == 'extend':
            xs = [self.listitems(x) for x in n.args[-2:]]
            return None if None in xs else xs[0] + xs[1]
        if n.op == 'append':
            r = self.listitems(n.args[0])
            return None if r is None else r + [n.args[1]]
        return None

    def n_ivar(self, n):
        i = self.ivar(n)
        if i in self.uniq:
            t = self.uniq[i]
            return Ten([], self.A.rename(t.e, {t.axes[0]: i}))
        return Ten([], Eatom('ι', (i,)))

    def n_lmap(self, n):
        iv, val, cond = n.args[0], n.args[1], n.args[2]
        if not is_const(cond, True):
            raise Undec('conditional list')
        t = self.array(val)
        i = self.ivar(iv)
        j = self.A.ix(self.A.dims[i])
        return Ten([j] + t.axes, self.A.rename(t.e, {i: j}))

    def n_lsum(self, n):
        init, iv, val, cond = n.args
        t = self.T(val)
        i = self.ivar(iv)
        if not is_const(cond, True):
            t = self.bin('*', t, self.array(cond))
        s = self.sumover(t, i)
        return self.bin('+', self.T(init), s)

    def n_llast(self, n):
        init, iv, val = n.args
        t = self.T(val)
        i = self.ivar(iv)
        if not isinstance(t, Ten):
            raise Undec('last value of a loop')
        if i in self.uniq or i in self.blocks or i in t.axes:
            raise Undec('last value of a loop')
        if i not in self.A.free(t.e):
            return t
        if self.A.dims[i] not in self.several:
            raise Undec('last value of a loop')
        return Ten(t.axes, self.subix(t.e, i, ('at', ('last', self.A.dims[i]), ())))

    def sumover(self, t, i):
        if isinstance(t, Cat):
            return Cat([self.sumover(x, i) for x in t.parts], t.axis)
        if not isinstance(t, Ten):
            raise Undec('sum')
        if i in self.uniq:
            return Ten(t.axes, self.sumreps(t.e, i))
        if i in self.blocks:
            return Ten(t.axes, self.sumblocks(t.e, i))
        return Ten(t.axes, self.A.sum(t.e, i))

    def blockatom(self, n, i):
        D, k, _ = self.blocks[i]
        return ('boolfn', 'blk', D, k), (n, i), Fraction(1)

    def sumblocks(self, e, i):
        """sum over blocks of a sum over the elements of the block: a sum over the elements"""
        A = self.A
        out = {}
        for (b, fs), c in e.items():
            own = [f for f in fs if i in f[1]]
            if len(own) != 1 or own[0][0][:2] != ('boolfn', 'blk') or own[0][1][0] not in b or own[0][2] != 1:
                raise Undec('sum over blocks')
            n = own[0][1][0]
            w = A.ix(A.dims[n])
            t = {(tuple(y for y in b if y != n), tuple((h, tuple(rn(x, {n: w}) for x in ii), p) for h, ii, p in fs if (h, ii, p) is not own[0] and (h, ii, p) != own[0])): c}
            out = A.add(out, A.sum(A.normall(t), w))
        return out

    def sumreps(self, e, u):
        """sum over the values of an array of a sum over the elements with that value: a sum over the elements"""
        A = self.A
        x = self.uniq[u]
        a = x.axes[0]
        out = {}
        for (b, fs), c in e.items():
            for k, f in enumerate(fs):
                if f[2] != 1 or u not in f[1] or len(f[1]) != 2:
                    continue
                v = [y for y in f[1] if y != u][0]
                if v not in b or A.dims[v] != A.dims[a]:
                    continue
                g = self.boolfn('eq0', A.add(A.rename(x.e, {a: v}), A.rename(x.e, {a: u}), -1))
                if not A.zero(A.add(g, {((), (f,)): Fraction(1)}, -1)):
                    continue
                w = A.ix(A.dims[v])
                m = {v: w, u: w}
                t = {(tuple(y for y in b if y != v), tuple((h, tuple(rn(x, m) for x in ii), p) for h, ii, p in fs[:k] + fs[k + 1:])): c}
                out = A.add(out, A.sum(A.normall(t), w))
                break
            else:
                # any quantity of the value: shared by the elements with that value
                w = A.ix(A.dims[a])
                y = A.ix(A.dims[a])
                k = self.boolfn('eq0', A.add(A.rename(x.e, {a: w}), A.rename(x.e, {a: y}), -1))
                t = A.normall(A.rename({(b, fs): c}, {u: w}))
                out = A.add(out, A.sum(A.mul(t, A.power(A.sum(k, y), Fraction(-1))), w))
        return out

    def partition(self, entry, loops, ix, vn):
        """stores at the elements having each value of an array fill the whole axis"""
        A = self.A
        if callname(ix) == 'numpy.ix_':
            parts = list(ix.args[1])
        else:
            parts = list(ix.args) if ix.op == 'tuple' else [ix]
        base = self.array(entry)
        us = [self.ivar(x) for x in loops]
        parts += [None] * (len(base.axes) - len(parts))
        v = self.array(vn)
        ref, ren = [], []
        for k, x in enumerate(parts):
            if x is None or x.op == 'slice' and all(is_const(y, None) for y in x.args):
                ref.append(base.axes[k])
                continue
            t = self.array(x)
            f = self.single(t.e)
            if f is None or f[0] != 'ι' or len(t.axes) != 1:
                raise Undec('store at %s' % show(x, 3))
            j = t.axes[0]
            d = A.dims[j]
            if not (isinstance(d, tuple) and d[0] == 'sel' and len(d[3]) == 1 and d[3][0] in us):
                raise Undec('store at a selection')
            u = d[3][0]
            X = self.uniq[u]
            g = self.boolfn('eq0', A.add(A.rename(X.e, {X.axes[0]: j}), A.rename(X.e, {X.axes[0]: u}), -1))
            if not A.zero(A.add(g, A.unkey(d[2], (j,) + d[3]), -1)):
                raise Undec('store at another selection')
            ren.append((j, u, d[1]))
            ref.append(j)
        if sorted(u for _, u, _ in ren) != sorted(us):
            raise Undec('loops of a store')
        while len(v.axes) > len(ref) and v.axes[0] is None:
            v = Ten(v.axes[1:], v.e)
        ax, (_, e) = self.unify([Ten(ref, E1()), v])
        if len(ax) > len(ref):
            raise Undec('rank of a store')
        for j, u, d in ren:
            n = A.ix(d)
            e = A.rename(e, {j: n, u: n})
            ax = [n if x == j else x for x in ax]
        return Ten(ax, e)

    def n_lfill(self, n):
        init, iv, ix, val, cond = n.args
        if not is_const(cond, True):
            raise Undec('conditional fill')
        i = self.ivar(iv)
        if i in self.uniq:
            return self.partition(init, [iv], ix, val)
        return self.fill(self.packed(init), i, iv, ix, self.T(val))

    def fill(self, base, i, iv, ix, v):
        if isinstance(base, Pack):
            if not isinstance(v, Pack) or base.t.e and base.f != v.f:
                raise Undec('fill of packed matrices')
            return Pack(self.fill(base.t, i, iv, ix, v.t), v.f)
        parts = list(ix.args) if ix.op == 'tuple' else [ix]
        if any((is_const(x) and x.args[0] is Ellipsis) for x in parts):
            raise Undec('ellipsis')
        parts += [None] * (len(base.axes) - len(parts))
        axes, rest = [], []
        pos = None
        for k, x in enumerate(parts):
            if x is iv:
                if pos is not None:
                    raise Undec('diagonal fill')
                pos = k
            elif x is None or x.op == 'slice' and all(is_const(a, None) for a in x.args):
                rest.append(base.axes[k])
            else:
                raise Undec('fill at %s' % show(x, 3))
        if pos is None:
            raise Undec('fill without the loop variable')
        b = base.axes[pos]
        if b is not None and self.A.dims[b] != self.A.dims[i]:
            d1, d2 = self.A.dims[b], self.A.dims[i]
            if isinstance(d1, str) and isinstance(d2, str):
                raise Shape('a loop over %s fills an axis of length %s' % (d2, d1))
            raise Undec('range of a fill')
        if isinstance(v, Cat):
            if pos != 0 or v.axis + 1 != len(base.axes) - 1 + 0 and v.axis != len(rest) - 1:
                raise Undec('fill with joined arrays')
            out = []
            for x in v.parts:
                t = x.t if isinstance(x, Pack) else x
                j = self.A.ix(self.A.dims[i])
                t = Ten([j] + t.axes, self.A.rename(t.e, {i: j}))
                out.append(Pack(t, x.f) if isinstance(x, Pack) else t)
            return Cat(out, v.axis + 1)
        if isinstance(v, Flat):
            v = self.unflat(v)
        if not isinstance(v, Ten):
            raise Undec('fill with a packed array')
        while len(v.axes) > len(rest) and v.axes[0] is None:
            v = Ten(v.axes[1:], v.e)
        ref = Ten(rest, E1())
        ax, (_, e) = self.unify([ref, v])
        if len(ax) > len(rest):
            raise Undec('rank of a fill')
        j = self.A.ix(self.A.dims[i])
        e = self.A.rename(e, {i: j})
        ax.insert(pos, j)
        return Ten(ax, e)

    def packed(self, n):
        t = self.T(n)
        return t if isinstance(t, Pack) else self.array(n)

    def n_lfin(self, n):
        L = self.I.loops.get(n.args[0])
        lp = n.args[2]
        if L is None or lp not in L.back or L.ivar is None:
            raise Undec('loop value')
        b = L.back[lp]
        if self.F is not None:
            b = self.F.ev(b)
        while b.op == 'store' and b.args[0].op == 'store' and b.args[0].args[1] is b.args[1]:
            # written twice in a round
            b = mk('store', b.args[0].args[0], b.args[1], b.args[2])
        if b is lp:
            return self.T(L.entry[lp])
        loops, b2, lp2 = [L], b, lp
        while b2.op == 'lfin' and b2.args[0] in self.I.loops:
            L2 = self.I.loops[b2.args[0]]
            l2 = b2.args[2]
            if l2 not in L2.back or L2.ivar is None or self.F.ev(L2.entry[l2]) is not lp2:
                break
            loops.append(L2)
            lp2, b2 = l2, self.F.ev(L2.back[l2])
        ivs = [x.ivar for x in loops]
        if b2.op == 'lfill' and b2.args[0] is lp2 and is_const(b2.args[4], True):
            ivs.append(b2.args[1])
            b2 = mk('store', lp2, b2.args[2], b2.args[3])
        if b2.op == 'store' and b2.args[0] is lp2 and all(self.uniqueof(x.args[0]) is not None for x in ivs):
            ent = self.F.ev(L.entry[lp])
            own = mk('sub', lp2, b2.args[1])
            v = subst(b2.args[2], {own: mk('sub', ent, b2.args[1])})
            if any(y is x for x in (lp, lp2) for y in walk(v)):
                raise Undec('loop value %s' % lp.args[1])
            return self.partition(ent, ivs, b2.args[1], v)
        if b.op == 'store' and b.args[0] is lp:
            own = mk('sub', lp, L.ivar)
            if b.args[1] is not L.ivar and b.args[1].op == 'tuple' and b.args[1].args[0] is L.ivar and any(y.op == 'sub' and y.args[0] is lp and y.args[1] is b.args[1] for y in walk(b.args[2])):
                own = mk('sub', lp, b.args[1])
            if any(y is own for y in walk(b.args[2])):
                # each round changes its own element only
                b = mk('store', lp, b.args[1], subst(b.args[2], {own: mk('sub', L.entry[lp], own.args[1])}))
        if b.op == 'store' and b.args[0] is lp and b.args[1].op == 'slice' and b.args[2].op in ('bin', 'iop') and b.args[2].args[0] == '+':
            sl = b.args[1]
            own = mk('sub', lp, sl)
            x, y = b.args[2].args[1:]
            if y is own:
                x, y = y, x
            if x is own and not any(z is lp for w in (y, sl) for z in walk(w)) and is_const(sl.args[2], None):
                return self.overlap(self.array(L.entry[lp]), self.ivar(L.ivar), sl, self.array(y))
        if b.op == 'store' and b.args[0] is lp and not any(y is lp for x in b.args[1:] for y in walk(x)):
            return self.fill(self.packed(L.entry[lp]), self.ivar(L.ivar), L.ivar, b.args[1], self.T(b.args[2]))
        if b.op == 'phi':
            # started in the first round, added to in the others
            c, x, y = b.args
            if c.op == 'not':
                c, x, y = c.args[0], y, x
            elif c.op == 'cmp' and c.args[0] in ('<', '!='):
                z = c.args[1:]
                if c.args[0] == '<' and is_const(z[0], 0) and z[1] is L.ivar or c.args[0] == '!=' and L.ivar in z and any(is_const(k, 0) for k in z):
                    c, x, y = mk('cmp', '==', L.ivar, const(0)), y, x
            if c.op == 'cmp' and c.args[0] in ('==', '<=') and (c.args[1] is L.ivar and is_const(c.args[2], 0) or c.args[0] == '==' and c.args[2] is L.ivar and is_const(c.args[1], 0)) \
                    and self.fromzero(L.ivar.args[0]) and y.op in ('bin', 'iop') and y.args[0] == '+' and lp in y.args[1:]:
                o = y.args[2] if y.args[1] is lp else y.args[1]
                if o is x and not any(z is lp for z in walk(x)):
                    return self.sumover(self.T(o), self.ivar(L.ivar))
        if b.op in ('bin', 'iop') and b.args[0] == '+' and lp in b.args[1:]:
            o = b.args[2] if b.args[1] is lp else b.args[1]
            if not any(y is lp for y in walk(o)):
                return self.bin('+', self.T(L.entry[lp]), self.sumover(self.T(o), self.ivar(L.ivar)))
        raise Undec('loop value %s' % lp.args[1])

    def overlap(self, base, i, sl, v):
        """base[lo:hi] += v in every round of a loop"""
        A = self.A
        if len(base.axes) != 1 or base.axes[0] is None or len(v.axes) > 1:
            raise Undec('overlapping additions')
        lo = {} if is_const(sl.args[0], None) else self.scalar(sl.args[0])
        n = A.add(self.scalar(sl.args[1]), lo, -1)
        d = self.asdim(n)
        j = A.ix(d)
        if v.axes and v.axes[0] is not None:
            if A.dims[v.axes[0]] != d:
                raise Undec('overlapping additions')
            e = A.rename(v.e, {v.axes[0]: j})
        else:
            e = v.e
        t = base.axes[0]
        e = A.mul(e, Eatom('δ', (t, self.iterm(A.add(Eatom('ι', (j,)), lo)))))
        if i in self.uniq or i in self.blocks:
            raise Undec('overlapping additions')
        return Ten(base.axes, A.add(base.e, A.sum(A.sum(e, j), i)))

    def fromzero(self, it):
        return callname(it) == 'builtins.range' and (len(it.args[1]) == 1 or is_const(it.args[1][0], 0))

    def ranks(self, base, ix, v):
        """r[argsort(x)] = 1..n: how many elements each one has before it"""
        o = ix.args[1] if ix.op == 'alloc' else ix
        if callname(o) not in ('numpy.argsort',) or len(o.args[1]) != 1 or not is_const(dict(o.args[2]).get('kind', NONE)) or dict(o.args[2]).get('kind', NONE).args[0] not in ('mergesort', 'stable'):
            return None
        x = self.T(o.args[1][0])
        ps = x.parts if isinstance(x, Cat) else [x]
        if not all(isinstance(p, Ten) and len(p.axes) == 1 for p in ps):
            return None
        vv = self.T(v)
        A = self.A
        if not isinstance(vv, Ten) or len(vv.axes) != 1:
            return None
        j = vv.axes[0]
        w = A.add(vv.e, Eatom('ι', (j,)), -1)
        if j in A.free(w):
            return None
        tot = {}
        for p in ps:
            tot = A.add(tot, self.partlen(p, 0))
        more = A.add(tot, self.dimexpr(A.dims[j]), -1)
        if not A.zero(more):
            if A.constval(more) is not None:
                raise Shape('an array of other length is assigned to the sorted places')
            return None
        out = []
        for n, p in enumerate(ps):
            i = p.axes[0]
            # within the part
            r = self.rankof(self, p) if self.rankof is not None else None
            e = A.add(w, r) if r is not None else w if i is None else A.add(w, Eatom(('rank', A.keyin(p.e, (i,)), A.dims[i]), (i,)))
            for m, q in enumerate(ps):
                if m != n:
                    k = A.ix(A.dims[q.axes[0]]) if q.axes[0] is not None else None
                    y = A.rename(q.e, {q.axes[0]: k}) if k is not None else q.e
                    if m > n:
                        c = self.boolfn('lt0', A.add(y, p.e, -1))
                    else:
                        # equal elements of an earlier part come before
                        c = A.add(E1(), self.boolfn('lt0', A.add(p.e, y, -1)), -1)
                    e = A.add(e, A.sum(c, k) if k is not None else c)
            out.append(Ten([i], e))
        return Cat(out, 0) if len(out) > 1 else out[0]

    def n_store(self, n):
        base, ix, v = n.args
        if callname(ix) == 'numpy.argsort' or ix.op == 'alloc' and callname(ix.args[1]) == 'numpy.argsort':
            r = self.ranks(base, ix, v)
            if r is not None:
                return r
        t = self.T(base)
        if isinstance(t, Ten):
            if ix.op == 'slice' and all(is_const(a, None) for a in ix.args):
                ax, (_, e) = self.unify([Ten(t.axes, E1()), self.array(v)])
                return Ten(ax, e)
            try:
                m = self.T(ix) if ix.op in ('cmp', 'and', 'or', 'not', 'un', 'bin', 'param', 'phi', 'call') else None
            except Undec:
                m = None
            if isinstance(m, Ten) and self.isbool(m) and len(m.axes) <= len(t.axes):
                # mask[...] applies to the leading axes
                k = len(t.axes) - len(m.axes)
                m = Ten(m.axes + [None] * k, m.e)
                vv = self.T(v)
                if isinstance(vv, Ten) and not any(a is not None for a in vv.axes):
                    axes, (et, em, ev) = self.unify([t, m, vv])
                elif v.op == 'sub' and v.args[1] is ix:
                    # x[m] = y[m]
                    axes, (et, em, ev) = self.unify([t, m, self.array(v.args[0])])
                else:
                    axes, (et, em, ev) = self.unify([t, m, self.array(self.unmask(v, ix))])
                A = self.A
                return Ten(axes, A.add(A.mul(em, ev), A.mul(A.add(E1(), em, -1), et)))
        if isinstance(t, Cat) and ix.op in ('cmp', 'and', 'or', 'not', 'un', 'bin'):
            m = self.T(ix)
            if isinstance(m, Cat):
                A = self.A
                put = lambda x, y, z: Ten(*(lambda ax, es: (ax, A.add(A.mul(es[1], es[2]), A.mul(A.add(E1(), es[1], -1), es[0]))))(*self.unify([x, y, z])))
                return self.catmap(put, t, m, self.T(self.unmask(v, ix)))
        k = self.triangle(ix)
        if k is not None and isinstance(t, Ten) and len(t.axes) == 2 and None not in t.axes:
            return self.tristore(t, ix, k, v)
        parts = list(ix.args) if ix.op == 'tuple' else [ix]
        full = lambda x: x.op == 'slice' and all(is_const(y, None) for y in x.args)
        if isinstance(t, Ten) and len(parts) <= len(t.axes):
            cut = [k for k, x in enumerate(parts) if not full(x)]
            if len(cut) == 1 and parts[cut[0]].op in ('cmp', 'and', 'or', 'not', 'un', 'bin', 'param', 'phi', 'call'):
                m = self.T(parts[cut[0]])
                k = cut[0]
                if isinstance(m, Ten) and self.isbool(m) and len(m.axes) == 1 and m.axes[0] is not None:
                    m = Ten([None] * k + m.axes + [None] * (len(t.axes) - k - 1), m.e)
                    vv = self.array(self.unmask(v, ix))
                    axes, (et, em, ev) = self.unify([t, m, vv])
                    A = self.A
                    return Ten(axes, A.add(A.mul(em, ev), A.mul(A.add(E1(), em, -1), et)))
            if len(cut) == len(parts) == 2 == len(t.axes) and None not in t.axes:
                # t[arange(n), y] = v: one column per row, given by the labels
                try:
                    r, y = self.array(parts[0]), self.array(parts[1])
                except (Undec, AttributeError):
                    r = y = None
                if r is not None and len(r.axes) == 1 and len(y.axes) == 1 and None not in r.axes + y.axes:
                    A = self.A
                    fr, fy = self.single(r.e), self.single(y.e)
                    if fr and fy and fr[0] == 'ι' and fy[0] in self.labels and fr[1] == tuple(r.axes) and fy[1] == tuple(y.axes):
                        i, k = t.axes
                        self.same(i, r.axes[0])
                        self.same(i, y.axes[0])
                        h = ('ind', fy[0])
                        A.H.bool.add(h)
                        m = Eatom(h, (i, k))
                        vv = self.T(v)
                        if isinstance(vv, Ten) and not vv.axes:
                            return Ten(t.axes, A.add(A.mul(m, vv.e), A.mul(A.add(E1(), m, -1), t.e)))
        nd = len(t.axes) if isinstance(t, Ten) else len(t.parts[0].axes) if isinstance(t, Cat) and isinstance(t.parts[0], Ten) else -1
        cut = [k for k, x in enumerate(parts) if not full(x)]
        if len(cut) == 1 and len(parts) <= nd and parts[cut[0]].op == 'slice' and is_const(parts[cut[0]].args[2], None):
            return self.slicestore(t, cut[0], parts[cut[0]], self.T(v), nd)
        if isinstance(t, Ten) and len(parts) <= nd:
            r = self.pointstore(t, parts, cut, v)
            if r is not None:
                return r
        raise Undec('store at %s' % show(ix, 3))

    def pointstore(self, t, parts, cut, v):
        """t[..., c, ...] = v: the element at one position of each cut axis"""
        A = self.A
        m = E1()
        for k in cut:
            a = t.axes[k]
            e = self.T(parts[k])
            if not isinstance(e, Ten) or e.axes or a is None:
                return None
            c = A.constval(e.e)
            if c is None or c.denominator != 1:
                return None
            if c < 0:
                e = Ten([], A.add(self.dimexpr(A.dims[a]), e.e))
            m = A.mul(m, self.boolfn('eq0', A.add(Eatom('ι', (a,)), e.e, -1)))
        vv = self.T(v)
        if not isinstance(vv, Ten):
            return None
        rest = [a for k, a in enumerate(t.axes) if k not in cut]
        if len(vv.axes) > len(rest):
            return None
        ax, (_, ev) = self.unify([Ten(rest, E1()), vv])
        if ax != rest:
            return None
        return Ten(t.axes, A.add(A.mul(m, ev), A.mul(A.add(E1(), m, -1), t.e)))

    def unmask(self, v, ix):
        """the elementwise value stored under a mask, for the whole array"""
        if v.op == 'sub' and v.args[1] is ix:
            return v.args[0]
        if is_const(v):
            return v
        if v.op in ('bin', 'iop'):
            return mk(v.op, v.args[0], self.unmask(v.args[1], ix), self.unmask(v.args[2], ix))
        if v.op == 'un' and v.args[0] == '-':
            return mk('un', '-', self.unmask(v.args[1], ix))
        if any(y is ix for y in walk(v)):
            raise Undec('masked store')
        t = self.T(v)
        if not isinstance(t, Ten) or any(a is not None for a in t.axes):
            raise Undec('masked store')
        return v

    def slicestore(self, t, k, sl, v, nd):
        """t[..., lo:hi, ...] = v on axis k"""
        A = self.A
        if isinstance(t, Cat):
            if t.axis != k:
                raise Undec('store in joined arrays')
            ps = list(t.parts)
        else:
            if t.axes[k] is None:
                raise Undec('slice of one')
            ps = [t]
        lens = [self.partlen(p, k) for p in ps]
        tot = {}
        for x in lens:
            tot = A.add(tot, x)

        def pos(x):
            c = self.scalar(x)
            return A.add(tot, c) if self.sgn(c) == -1 else c
        lo = {} if is_const(sl.args[0], None) else pos(sl.args[0])
        hi = tot if is_const(sl.args[1], None) else pos(sl.args[1])
        if self.num is not None and self.sgn(A.add(hi, tot, -1)) == 1:
            hi = tot

        def cut(ps, at):
            """split the parts at a position"""
            out, o, done = [], {}, False
            for p in ps:
                n = self.partlen(p, k)
                e = A.add(o, n)
                if not done and (A.zero(A.add(at, o, -1)) or A.zero(A.add(at, e, -1))):
                    done = True
                    out.append(p)
                elif not done and isinstance(p, Ten) and self.sgn(A.add(at, o, -1)) == 1 and self.sgn(A.add(e, at, -1)) == 1:
                    done = True
                    out += self.cutat(p, k, A.add(at, o, -1))
                else:
                    out.append(p)
                o = e
            if not done:
                raise Undec('position in an array')
            return out
        ps = cut(cut(ps, lo), hi)
        o, out, put = {}, [], False
        for p in ps:
            e = A.add(o, self.partlen(p, k))
            if A.zero(A.add(o, lo, -1)) and A.zero(A.add(e, hi, -1)):
                if not isinstance(p, Ten) or not isinstance(v, Ten):
                    raise Undec('store of parts')
                ax, (_, x) = self.unify([Ten(p.axes, E1()), v])
                if len(ax) != nd:
                    raise Undec('rank of a store')
                out.append(Ten(ax, x))
                put = True
            else:
                out.append(p)
            o = e
        if not put:
            raise Undec('store over several parts')
        return out[0] if len(out) == 1 else Cat(out, k)

    def inside(self, e):
        """a length that is surely positive: a sum of lengths with positive coefficients"""
        return bool(e) and all(c > 0 and not b and all(self.A.positive(h) for h, ii, p in fs) for (b, fs), c in e.items())

    def isbool(self, t):
        return all(all(h in self.A.H.bool or isinstance(h, tuple) and h[0] in ('boolfn', 'cond') for h, ii, p in fs) for (b, fs) in t.e)

    def n_T(self, n):
        t = self.T(n.args[0])
        if isinstance(t, Block):
            return self.blockT(t)
        if isinstance(t, Cat) and all(isinstance(x, Ten) for x in t.parts):
            return Cat([Ten(x.axes[::-1], x.e) for x in t.parts], len(t.parts[0].axes) - 1 - t.axis)
        t = self.array(n.args[0])
        return Ten(t.axes[::-1], t.e)

    def n_attr(self, n):
        if n.args[1] == 'T':
            return self.n_T(n)
        if n.args[1] == 'real':
            return self.T(n.args[0])
        raise Undec('field %s' % show(n, 3))

    def n_sub(self, n):
        if n.args[1].op == 'ivar' and self.uniqueof(n.args[0]) is not None and self.uniqueof(n.args[1].args[0]) is self.uniqueof(n.args[0]):
            u = self.ivar(n.args[1])
            t = self.uniq[u]
            return Ten([], self.A.rename(t.e, {t.axes[0]: u}))
        if callname(n.args[0]) in ('numpy.nonzero', 'numpy.where') and len(n.args[0].args[1]) == 1 and is_const(n.args[1], 0):
            return self.positions(n.args[0].args[1][0])
        if (n.args[0].op in ('append', 'extend', 'bin', 'iop') or n.args[0].op == 'alloc' and n.args[0].args[1].op in ('call', 'list', 'tuple') or callname(n.args[0]) in ('builtins.tuple', 'builtins.list')) and is_const(n.args[1]) and isinstance(n.args[1].args[0], int):
            xs = self.listitems(n.args[0])
            k = n.args[1].args[0]
            if xs is not None and -len(xs) <= k < len(xs):
                return self.T(xs[k])
        o, ix = n.args
        c = callname(o)
        if o.op == 'lphi' and ix.op == 'ivar':
            L = self.ownround(o)
            if L is not None and L.ivar is ix:
                return self.T(mk('sub', L.entry[o], ix))
        if o.op == 'call' and c is not None and c.endswith('.slogdet') and is_const(ix, 1):
            return Ten([], self.logdet(self.array(o.args[1][0])))
        if o.op == 'call' and c is not None and is_const(ix) and c.rsplit('.', 1)[-1] in ('eigh', 'svd') and 'linalg' in c:
            return self.decomp(c, o, ix.args[0])
        t = self.T(o)
        if isinstance(t, tuple) and is_const(ix) and isinstance(ix.args[0], int) and -len(t) <= ix.args[0] < len(t):
            return t[ix.args[0]]
        k = self.triangle(ix)
        if k is not None and isinstance(t, Ten) and len(t.axes) == 2 and None not in t.axes:
            i, j = t.axes
            if self.A.dims[i] != self.A.dims[j] or self.A.dims[i] != k[1]:
                raise Shape('the triangle of another size is taken')
            if k[0] == 'diag':
                m = self.A.ix(k[1])
                return Ten([m], self.A.rename(t.e, {i: m, j: m}))
            return Tri(t, k[0])
        return self.index(t, ix)

    def triangle(self, ix):
        """(kind, dimension) of the indices of a triangle or of the diagonal"""
        c = callname(ix)
        if c in ('numpy.triu_indices', 'numpy.tril_indices', 'numpy.diag_indices') and len(ix.args[1]) == 1 and not ix.args[2]:
            return c[6:10], self.asdim(self.scalar(ix.args[1][0]))
        return None

    def tristore(self, t, ix, k, v):
        """t[indices of a triangle] = v"""
        A = self.A
        i, j = t.axes
        if not A.dims[i] == A.dims[j] == k[1]:
            raise Shape('the triangle of another size is set')
        if k[0] == 'diag':
            m = A.normall(Eatom('δ', (i, j)))
        else:
            h = (k[0], k[1])
            A.H.bool.add(h)
            m = Eatom(h, (i, j))
        if any(y is ix for y in walk(v)):
            vv = self.array(self.unmask(v, ix))
        else:
            vv = self.T(v)
        if isinstance(vv, Tri):
            if vv.kind != k[0]:
                raise Shape('the elements of one triangle are set in the order of the other')
            vv = vv.t
        elif not isinstance(vv, Ten) or any(a is not None for a in vv.axes):
            if not any(y is ix for y in walk(v)):
                raise Undec('store in a triangle')
        axes, (et, em, ev) = self.unify([t, Ten([i, j], m), vv])
        return Ten(axes, A.add(A.mul(em, ev), A.mul(A.add(E1(), em, -1), et)))

    def tricases(self, e, i, j):
        """the expression above, on and below the diagonal"""
        A = self.A
        out = []
        for case in ('u', 'd', 'l'):
            r = {}
            for (b, fs), c in e.items():
                keep, zero = [], False
                for f in fs:
                    h, ii, p = f
                    if ii in ((i, j), (j, i)) and isinstance(h, tuple) and h[0] in ('triu', 'tril'):
                        up = (h[0] == 'triu') == (ii == (i, j))
                        if case == 'd' or up == (case == 'u'):
                            continue
                        zero = True
                    elif h == 'δ' and set(ii) == {i, j}:
                        if case == 'd':
                            continue
                        zero = True
                    else:
                        keep.append(f)
                if not zero:
                    k = (b, tuple(keep))
                    r[k] = r.get(k, 0) + c
            if case == 'd':
                r = A.rename(r, {j: i})
            out.append(A.normall({k: c for k, c in r.items() if c}))
        return out

    def ownround(self, lp):
        """the loop, when each of its rounds changes only its own element of the array"""
        L = self.I.loops.get(lp.args[0])
        if L is None or lp not in L.back or L.ivar is None:
            return None
        b = L.back[lp]
        if self.F is not None:
            b = self.F.ev(b)
        while b.op == 'store' and (b.args[1] is L.ivar or b.args[1].op == 'tuple' and b.args[1].args[0] is L.ivar):
            b = b.args[0]
        return L if b is lp else None

    def index(self, t, ix):
        parts = list(ix.args) if ix.op == 'tuple' else [ix]
        if isinstance(t, Flat):
            t = self.unflat(t)
        if isinstance(t, Cat):
            return self.catindex(t, parts)
        if isinstance(t, Pack) and len(parts) <= len(t.t.axes) - 2 and not any(is_const(x, Ellipsis) and x.args[0] is Ellipsis for x in parts):
            return Pack(self.index(t.t, ix), t.f)
        if not isinstance(t, Ten):
            raise Undec('element of a packed matrix')
        parts = [x for x in parts]
        n = sum(1 for x in parts if not is_const(x, None))
        if any((is_const(x) and x.args[0] is Ellipsis) for x in parts):
            k = [i for i, x in enumerate(parts) if (is_const(x) and x.args[0] is Ellipsis)][0]
            full = mk('slice', NONE, NONE, NONE)
            parts = parts[:k] + [full] * (len(t.axes) - n + 1) + parts[k + 1:]
        if len(parts) == 2 == len(t.axes) and None not in t.axes and all(x.op in ('call', 'alloc', 'param', 'lphi', 'store') for x in parts):
            # t[arange(n), y]: one element of each row
            r, y = self.array(parts[0]), self.array(parts[1])
            fr, fy = self.single(r.e), self.single(y.e)
            i, k = t.axes
            if fr and fy and fr[0] == 'ι' and len(r.axes) == len(y.axes) == 1 and None not in r.axes + y.axes and fr[1] == tuple(r.axes) and self.A.dims[r.axes[0]] == self.A.dims[i] \
                    and not self.isbool(y):
                self.same(i, y.axes[0])
                yy = self.A.rename(y.e, {y.axes[0]: i})
                fy = self.single(yy)
                term = fy[1][0] if fy[0] == 'ι' else ('at', fy[0], fy[1])
                return Ten([i], self.subix(t.e, k, term))
        out = []
        e = t.e
        k = 0
        adv = []
        for x in parts:
            if is_const(x, None):
                out.append(None)
                continue
            if k >= len(t.axes):
                raise Undec('too many indices')
            a = t.axes[k]
            if x.op == 'slice':
                if all(is_const(y, None) for y in x.args):
                    out.append(a)
                elif a is None:
                    raise Undec('slice of one')
                else:
                    b = self.slice(a, x)
                    if b is None:
                        raise Undec('slice %s' % show(x, 3))
                    j, tm = b
                    e = self.A.rename(e, {a: tm}) if isinstance(tm, str) else self.subix(e, a, tm)
                    out.append(j)
                k += 1
                continue
            if x.op == 'ivar':
                i = self.ivar(x)
                if a is not None:
                    if self.A.dims[a] != self.A.dims[i]:
                        d1, d2 = self.A.dims[a], self.A.dims[i]
                        if isinstance(d1, str) and isinstance(d2, str):
                            raise Shape('a loop over %s indexes an axis of length %s' % (d2, d1))
                        raise Undec('index range')
                    e = self.A.rename(e, {a: i})
                k += 1
                continue
            if is_const(x) and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                if a is not None:
                    e = self.constix(e, a, x.args[0])
                k += 1
                continue
            m = self.array(x)
            if self.isbool(m) and m.axes:
                if len(m.axes) != 1 or a is None:
                    raise Undec('mask of rank %d' % len(m.axes))
                self.same(a, m.axes[0])
                key, jj = self.guardkey(m)
                j = self.A.ix(('sel', self.A.dims[a], key, jj))
                e = self.A.rename(e, {a: j})
                out.append(j)
                k += 1
                continue
            f = self.single(m.e)
            if a is None:
                raise Undec('index %s' % show(x, 3))
            if f is None:
                if adv or len(m.axes) > 1:
                    raise Undec('index %s' % show(x, 3))
                e = self.subix(e, a, self.iterm(m.e))
                if m.axes:
                    adv.append(x)
                out += m.axes
                k += 1
                continue
            if f[0] == 'ι' and m.axes and isinstance(f[1][0], str) and isinstance(self.A.dims[f[1][0]], tuple) and self.A.dims[f[1][0]][:2] == ('sel', self.A.dims[a]):
                e = self.A.rename(e, {a: f[1][0]})
                out.append(f[1][0])
                k += 1
                continue
            if f[0] == 'ι' and len(m.axes) == 1 and isinstance(f[1][0], tuple):
                # a rearranged counting index
                e = self.subix(e, a, f[1][0])
                out += m.axes
                k += 1
                continue
            if f[0] == 'ι' and not m.axes:
                if self.A.dims[a] != self.A.dims[f[1][0]]:
                    raise Undec('index range')
                e = self.A.rename(e, {a: f[1][0]})
                k += 1
                continue
            e = self.subix(e, a, ('at', 'head' if f[0] == 'ι' else f[0], f[1]))
            if adv:
                raise Undec('several index arrays')
            if m.axes:
                adv.append(x)
            out += m.axes
            k += 1
        out += t.axes[k:]
        return Ten(out, e)

    def guardkey(self, m):
        a = m.axes[0]
        rest = [x for x in self.A.free(m.e) if x != a]
        return self.A.keyin(m.e, (a,) + tuple(rest)), tuple(rest)

    def subix(self, e, a, term):
        m = {a: term}
        out = {}
        for (b, fs), c in e.items():
            nf, more = [], []
            for h, ii, p in fs:
                jj = tuple(self.st(x, m) for x in ii)
                if h == 'ι' and ii == (a,) and not isinstance(term, str) and p > 0 and p.denominator == 1 and (term[0] == 'c' or term[1] == 'head' or isinstance(term[1], tuple) and term[1][0] in ('lin', 'rev')):
                    more.append(self.A.power(self.ipoly(term), p))
                elif a in ii and not isinstance(term, str) and isinstance(h, tuple) and h[0] == 'boolfn' and h[1] in ('lt0', 'eq0'):
                    more.append(self.boolfn(h[1], self.subix(self.A.unkey(h[2], ii), a, term)))
                elif a in ii and not isinstance(term, str) and isinstance(h, tuple) and h[0] in ('P', 'fn') and any(x == 'ι' for x in heads(h[-1])):
                    x = self.subix(self.A.unkey(h[-1], ii), a, term)
                    more.append(self.A.power(self.A.fn(h[1], x) if h[0] == 'fn' else x, p))
                else:
                    nf.append((h, jj, p))
            if more:
                r = {(b, tuple(nf)): c}
                for x in more:
                    r = self.A.mul(r, x)
                out = self.A.add(out, r)
            else:
                self.A.acc(out, b, tuple(nf), c)
        return out

    def st(self, x, m):
        if isinstance(x, str):
            return m.get(x, x)
        if isinstance(x, tuple) and x and x[0] == 'at':
            if isinstance(x[1], tuple) and x[1][0] == 'rev':
                y = self.st(x[2][0], m)
                if isinstance(y, tuple) and y[0] == 'at' and y[1] == x[1]:
                    return y[2][0]
                return ('at', x[1], (y,)) + x[3:]
            if (x[1] == 'head' or isinstance(x[1], tuple) and x[1][0] == 'lin') and any(k in m and not isinstance(m[k], str) for k in inames(x)):
                try:
                    return self.iterm(self.iotas(self.A.unkey(x[1][1], tuple(self.st(y, m) for y in x[2])) if x[1] != 'head' else self.ipoly(self.st(x[2][0], m))))
                except Undec:
                    pass
            return ('at', x[1], tuple(self.st(y, m) for y in x[2])) + x[3:]
        return x

    def constix(self, e, a, k):
        # a vector given element by element, or a fixed element
        out = {}
        for (b, fs), c in e.items():
            nf = []
            skip = False
            for h, ii, p in fs:
                if isinstance(h, tuple) and h[0] == 'at=' and ii == (a,):
                    if h[1] != k and k >= 0:
                        skip = True
                    elif k < 0:
                        n = self.A.dims[a]
                        if h[1] != n + k:
                            skip = True
                else:
                    nf.append((h, tuple(self.st(x, {a: ('c', k)}) for x in ii), p))
            if not skip:
                self.A.acc(out, b, tuple(nf), c)
        return out

    def slice(self, a, x):
        """axis a cut to lo:hi:step, as (new axis, index term in the old one)"""
        lo, hi, st = x.args
        if not is_const(st, None) and not is_const(st, 1):
            if is_const(st, -1) and is_const(lo, None) and is_const(hi, None):
                j = self.A.ix(self.A.dims[a])
                return j, ('at', ('rev', self.A.dims[a]), (j,))
            return None
        d = self.dimexpr(self.A.dims[a])
        l = {} if is_const(lo, None) else self.scalar(lo)
        h = d if is_const(hi, None) else self.scalar(hi)
        if self.sgn(h) == -1:
            h = self.A.add(d, h)
        if l and self.sgn(l) == -1:
            l = self.A.add(d, l)
        if self.num is not None and self.sgn(self.A.add(h, d, -1)) == 1:
            h = d
        if not l and h == d:
            return a, a
        f = self.single(l) if l else None
        if f is not None and f[0] == 'ι' and f[1][0] in self.blocks:
            # one block of consecutive elements
            i = f[1][0]
            D, _, B = self.blocks[i]
            end = self.A.add(l, B)
            D_ = self.dimexpr(D)
            if D == self.A.dims[a] and h in (end, self.minof(end, D_), self.minof(D_, end)):
                g = self.blockatom(a, i)
                k, jj = self.A.keyin({((), (g,)): Fraction(1)}, (a, i)), (i,)
                j = self.A.ix(('sel', D, k, jj))
                return j, j
        n = self.A.add(h, l, -1)
        dm = self.asdim(n)
        j = self.A.ix(dm) if dm != 1 else None
        if not l:
            if j is None:
                return j, ('c', 0)
            return j, ('at', 'head', (j,))
        return j, self.iterm(self.A.add(Eatom('ι', (j,)) if j is not None else {}, l))

    def ipoly(self, x):
        """the position an index term stands for"""
        if isinstance(x, tuple) and x:
            if x[0] == 'c':
                return E1(x[1])
            if x[0] == 'at' and x[1] == 'head':
                return self.ipoly(x[2][0])
            if x[0] == 'at' and isinstance(x[1], tuple) and x[1][0] == 'lin':
                return self.iotas(self.A.unkey(x[1][1], x[2]))
            if x[0] == 'at' and isinstance(x[1], tuple) and x[1][0] == 'rev':
                return self.A.add(self.A.add(self.dimexpr(x[1][1]), E1(), -1), self.ipoly(x[2][0]), -1)
            if x[0] == 'at' and isinstance(x[1], str):
                return Eatom(x[1], x[2])
            raise Undec('position')
        return Eatom('ι', (x,))

    def iotas(self, e):
        """counting indices of index terms written out"""
        out = {}
        for (b, fs), c in e.items():
            todo = [f for f in fs if not all(isinstance(x, str) for x in f[1]) and (f[0] == 'ι' or isinstance(f[0], tuple) and f[0][0] == 'fn' and f[0][1] in ('floor', 'ceil', 'round'))]
            r = {(b, tuple(f for f in fs if f not in todo)): c}
            for h, ii, p in todo:
                x = self.ipoly(ii[0]) if h == 'ι' else self.A.fn(h[1], self.iotas(self.A.unkey(h[2], ii)))
                r = self.A.mul(r, self.A.power(x, p))
            out = self.A.add(out, r)
        return out

    def iterm(self, e):
        """index term for a position"""
        c = self.A.constval(e)
        if c is not None and c.denominator == 1 and c >= 0:
            return ('c', int(c))
        f = self.single(e)
        if f is not None and f[0] == 'ι' and isinstance(f[1][0], str):
            return ('at', 'head', (f[1][0],))
        if not all(p.denominator == 1 and p > 0 or isinstance(h, tuple) and h[0] in ('dim', 'fn', 'P') for (b, fs) in e for h, ii, p in fs):
            raise Undec('position')
        k, jj = self.A.key(e)
        return ('at', ('lin', k), jj)

    def catindex(self, t, parts):
        nd = len(t.parts[0].axes)
        full = lambda x: x.op == 'slice' and all(is_const(y, None) for y in x.args)
        parts = [x for x in parts]
        if any((is_const(x) and x.args[0] is Ellipsis) for x in parts):
            k = [i for i, x in enumerate(parts) if (is_const(x) and x.args[0] is Ellipsis)][0]
            parts = parts[:k] + [mk('slice', NONE, NONE, NONE)] * (nd - len(parts) + 1) + parts[k + 1:]
        parts += [mk('slice', NONE, NONE, NONE)] * (nd - len(parts))
        if len(parts) > nd:
            raise Undec('index of joined arrays')
        x = parts[t.axis]
        other = [p for k, p in enumerate(parts) if k != t.axis]
        if not all(full(p) for p in other):
            # same selection in every part
            if all(full(p) or p.op == 'ivar' for p in other) and full(x):
                ps = [self.index(p, tup(*parts)) for p in t.parts]
                drop = sum(1 for k, p in enumerate(parts) if p.op == 'ivar' and k < t.axis)
                return Cat(ps, t.axis - drop)
            raise Undec('index of joined arrays')
        if full(x):
            return t
        if is_const(x) and isinstance(x.args[0], int) and x.args[0] in (0, -1):
            q = t.parts[x.args[0]]
            if isinstance(q, Ten) and q.axes[t.axis] is None:
                return Ten(q.axes[:t.axis] + q.axes[t.axis + 1:], q.e)
        if x.op not in ('slice', 'tuple', 'list', 'ivar'):
            pos = self.T(x)
            if isinstance(pos, Ten) and not pos.axes:
                pos, o = pos.e, {}
                if self.sgn(pos) == -1:
                    for p in t.parts:
                        pos = self.A.add(pos, self.partlen(p, t.axis))
                for p in t.parts:
                    e = self.A.add(o, self.partlen(p, t.axis))
                    d = self.A.add(pos, o, -1)
                    if isinstance(p, Ten) and (not d or self.order(d) > 0) and (not self.A.zero(self.A.add(e, pos, -1)) and self.order(self.A.add(e, pos, -1)) > 0):
                        ax = p.axes[t.axis]
                        q = p.e if ax is None or ax not in self.A.free(p.e) else self.subix(p.e, ax, self.iterm(d))
                        return Ten(p.axes[:t.axis] + p.axes[t.axis + 1:], self.lastsum(q))
                    o = e
        if x.op != 'slice' or not is_const(x.args[2], None):
            raise Undec('index of joined arrays')
        tot = {}
        ends = [tot]
        for p in t.parts:
            tot = self.A.add(tot, self.partlen(p, t.axis))
            ends.append(tot)
        lo = {} if is_const(x.args[0], None) else self.scalar(x.args[0])
        hi = tot if is_const(x.args[1], None) else self.scalar(x.args[1])
        if self.sgn(hi) == -1:
            hi = self.A.add(tot, hi)
        if lo and self.sgn(lo) == -1:
            lo = self.A.add(tot, lo)
        a = [k for k, e in enumerate(ends) if self.A.zero(self.A.add(e, lo, -1))]
        b = [k for k, e in enumerate(ends) if self.A.zero(self.A.add(e, hi, -1))]
        if not a or not b:
            # cut the parts the ends lie in
            ps, o = [], {}
            for p in t.parts:
                e = self.A.add(o, self.partlen(p, t.axis))
                q = [p]
                for at in (lo, hi):
                    if isinstance(p, Ten) and not any(self.A.zero(self.A.add(at, z, -1)) for z in ends) and self.sgn(self.A.add(at, o, -1)) == 1 and self.sgn(self.A.add(e, at, -1)) == 1:
                        o2 = o
                        for z in q[:-1]:
                            o2 = self.A.add(o2, self.partlen(z, t.axis))
                        if self.order(self.A.add(at, o2, -1)) < 0:
                            raise Undec('slice of joined arrays')
                        q[-1:] = self.cutat(q[-1], t.axis, self.A.add(at, o2, -1))
                ps += q
                o = e
            t = Cat(ps, t.axis)
            tot, ends = {}, [{}]
            for p in ps:
                tot = self.A.add(tot, self.partlen(p, t.axis))
                ends.append(tot)
            a = [k for k, e in enumerate(ends) if self.A.zero(self.A.add(e, lo, -1))]
            b = [k for k, e in enumerate(ends) if self.A.zero(self.A.add(e, hi, -1))]
        if not a or not b or b[-1] <= a[0]:
            raise Undec('slice of joined arrays')
        ps = t.parts[a[0]:b[-1]]
        return ps[0] if len(ps) == 1 else Cat(ps, t.axis)

    def lastsum(self, e):
        """the last running sum is the whole sum"""
        out = {}
        for (b, fs), c in e.items():
            nf = []
            for h, ii, p in fs:
                if isinstance(h, tuple) and h[0] == 'cumsum' and not isinstance(ii[1], str):
                    try:
                        if self.A.zero(self.A.add(self.A.add(self.dimexpr(h[1]), E1(), -1), self.ipoly(ii[1]), -1)):
                            continue
                    except Undec:
                        pass
                nf.append((h, ii, p))
            out = self.A.add(out, {(b, tuple(nf)): c})
        return self.A.normall(out)

    def partlen(self, p, axis):
        if isinstance(p, (Pack, Tri)):
            d = self.dimof(p.t, -1)
            return self.A.scale(self.A.add(self.A.mul(d, d), d), Fraction(1, 2))
        return self.dimof(p, axis)

    # ---- calls
    def packfactor(self, d):
        if d is None or is_const(d, None):
            return Fraction(1)
        c = self.A.constval(self.scalar(d))
        if c is None:
            raise Undec('diagonal factor')
        return c

    def project_call(self, n):
        fq = n.args[0].args[0]
        kws = dict(n.args[2])
        nm = fq.split(':')[-1].split('.')[-1]
        if fq in self.models:
            return self.models[fq](self, [v for k, v in n.args[2]])
        if nm == 'symmat2vec':
            t = self.array(kws['A'])
            if len(t.axes) != 2:
                raise Undec('packing of rank %d' % len(t.axes))
            i, j = t.axes
            if not self.A.zero(self.A.add(t.e, self.A.rename(t.e, {i: j, j: i}), -1)):
                raise Undec('packing a matrix not known to be symmetric')
            return Pack(t, self.packfactor(kws.get('diag_factor')))
        if nm in ('softmax', 'logsumexp'):
            return self.softlog(self.array(kws['r']), [], {'axis': kws['axis']} if 'axis' in kws else {}, 1, nm == 'softmax')
        if nm == 'vec2symmat':
            t = self.T(kws['v'])
            if not isinstance(t, Pack):
                raise Undec('unpacking a vector')
            f = t.f * self.packfactor(kws.get('diag_factor'))
            t = t.t
            if f == 1:
                return t
            i, j = t.axes
            A = self.A
            d = A.mul(Eatom('δ', (i, j)), A.rename(t.e, {j: i}))
            return Ten(t.axes, A.add(t.e, A.scale(A.normall(d), f - 1)))
        if nm == 'fullcov_varfloor' and is_const(kws.get('lower', FALSE), False) and is_const(kws.get('F_is_chol', FALSE)):
            S, F = self.array(kws['S']), self.array(kws['F'])
            if len(S.axes) != 2 or len(F.axes) != 2:
                raise Undec('floor of rank %d' % len(S.axes))
            return self.varfloor(S, F, not is_const(kws.get('F_is_chol', FALSE), False))
        raise Undec('call of %s' % fq)

    def varfloor(self, S, F, chol):
        """S with its eigenvalues relative to F floored to one"""
        if not chol:
            F = self.chol(F, False)
        for a, b in zip(S.axes, F.axes):
            self.same(a, b)
        k1, b1 = self.matrix(S)
        k2, b2 = self.matrix(F)
        h = ('varfloor', k1, k2)
        self.A.H.sym.add(h)
        i, j = S.axes
        return Ten([i, j], Eatom(h, b1 + b2 + (i, j)))

    def red(self, nm, e, a):
        A = self.A
        fr = [x for x in A.free(e) if x != a]
        best = None
        for pm in (permutations(fr) if len(fr) <= 4 else [fr]):
            kk = A.keyin(e, (a,) + tuple(pm))
            if best is None or repr(kk) < repr(best[0]):
                best = (kk, tuple(pm))
        return Eatom((nm, best[0], A.dims[a]), best[1])

    def lse(self, e, a):
        """log of the sum of the exponentials along a; what does not vary along a is taken out"""
        A = self.A
        inn, out = {}, {}
        for k, c in e.items():
            (inn if a in A.free({k: c}) else out)[k] = c
        if not inn:
            return A.add(out, A.fn('log', self.dimexpr(A.dims[a])))
        return A.add(out, self.red('lse', inn, a))

    def softlog(self, t, args, kws, k, soft):
        axs, keep = self.axarg(args, kws, k, t) if (len(args) > k or 'axis' in kws) else ([len(t.axes) - 1], False)
        if len(axs) != 1 or t.axes[axs[0]] is None:
            raise Undec('logsumexp axes')
        a = t.axes[axs[0]]
        e = self.lse(t.e, a)
        if soft:
            return Ten(t.axes, self.A.fn('exp', self.A.add(t.e, e, -1)))
        return Ten([None if x == a else x for x in t.axes if keep or x != a], e)

    def f_softmax(self, n, args, kws):
        return self.softlog(self.array(args[0]), args, kws, 1, True)

    def f_logsumexp(self, n, args, kws):
        return self.softlog(self.array(args[0]), args, kws, 1, False)

    RANDOM = {'normal': 'gauss', 'randn': 'gauss', 'standard_normal': 'gauss', 'rand': 'unif', 'uniform': 'unif', 'random_sample': 'unif', 'random': 'unif'}

    def n_rnd(self, n):
        nm = n.args[0]
        h = self.RANDOM.get(nm)
        if h is None:
            raise Undec('random %s' % nm)
        args, kws = list(n.args[2]), dict(n.args[3])
        if nm in ('randn', 'rand'):
            size = mk('tuple', *args)
        elif 'size' in kws and not args:
            size = kws['size']
        else:
            raise Undec('random numbers')
        t = self.filled(size, E1())
        h += ''.join('_%s' % (self.A.dims[a],) for a in t.axes if a is not None)
        if self.rnd.setdefault(h, n) is not n:
            raise Undec('several random arrays of one shape')
        return Ten(t.axes, Eatom(h, [a for a in t.axes if a is not None]))

    def n_call(self, n):
        if n.args[0].op == 'func':
            return self.project_call(n)
        c = callname(n)
        if c is None:
            raise Undec('call of %s' % show(n.args[0], 3))
        s = c.split('.')[-1]
        args, kws = list(n.args[1]), dict(n.args[2])
        if s in IDENT:
            return self.T(args[0])
        if s in ELEM:
            t = self.T(args[0])
            if isinstance(t, Cat):
                return Cat([Ten(p.axes, self.elem(s, p.e)) for p in t.parts], t.axis)
            return Ten(t.axes, self.elem(s, t.e))
        m = getattr(self, 'f_' + s, None)
        if m is None:
            raise Undec('%s' % c)
        return m(n, args, kws)

    def elem(self, s, e):
        A = self.A
        if s == 'sqrt':
            return A.power(e, Fraction(1, 2))
        if s == 'square':
            return A.mul(e, e)
        if s in ('absolute', 'fabs'):
            s = 'abs'
        if s == 'log1p':
            return A.fn('log', A.add(E1(), e))
        if s == 'expm1':
            return A.add(A.fn('exp', e), E1(), -1)
        if s == 'log10':
            return A.mul(A.fn('log', e), A.power(A.fn('log', E1(10)), -1))
        if s == 'log2':
            return A.mul(A.fn('log', e), A.power(A.fn('log', E1(2)), -1))
        if s == 'logical_not':
            return A.add(E1(), e, -1)
        if s == 'psi':
            s = 'digamma'
        return A.fn(s, e)

    def f_int(self, n, args, kws):
        t = self.T(args[0])
        if isinstance(t, Ten):
            # lengths and positions are not negative
            return Ten(t.axes, self.A.fn('floor', t.e))
        return t

    def minof(self, x, y):
        return self.maxof(Ten([], x), Ten([], y), False).e

    def maxof(self, a, b, mx):
        axes, (x, y) = self.unify([a, b])
        if x == y:
            return Ten(axes, x)
        m = self.boolfn('lt0', self.A.add(x, y, -1))
        A = self.A
        if not mx:
            x, y = y, x
        return Ten(axes, A.add(A.mul(m, y), A.mul(A.add(E1(), m, -1), x)))

    def f_maximum(self, n, args, kws):
        return self.maxof(self.array(args[0]), self.array(args[1]), True)

    def f_minimum(self, n, args, kws):
        return self.maxof(self.array(args[0]), self.array(args[1]), False)

    f_fmax, f_fmin = f_maximum, f_minimum

    def f_clip(self, n, args, kws):
        t = self.array(args[0])
        lo = kws.get('a_min', kws.get('min', args[1] if len(args) > 1 else NONE))
        hi = kws.get('a_max', kws.get('max', args[2] if len(args) > 2 else NONE))
        if not is_const(lo, None):
            t = self.maxof(t, self.array(lo), True)
        if not is_const(hi, None):
            t = self.maxof(t, self.array(hi), False)
        return t

    def f_where(self, n, args, kws):
        if len(args) != 3:
            raise Undec('where')
        m, a, b = [self.array(x) for x in args]
        axes, (em, x, y) = self.unify([m, a, b])
        A = self.A
        return Ten(axes, A.add(A.mul(em, x), A.mul(A.add(E1(), em, -1), y)))

    def f_logical_and(self, n, args, kws):
        return self.bin('*', self.array(args[0]), self.array(args[1]))

    def axarg(self, args, kws, k, t):
        ax = kws.get('axis', args[k] if len(args) > k else NONE)
        kd = kws.get('keepdims', FALSE)
        if is_const(ax, None):
            axs = list(range(len(t.axes)))
        elif is_const(ax) and isinstance(ax.args[0], int):
            axs = [ax.args[0] % len(t.axes)] if t.axes else [0]
            if not -len(t.axes) <= ax.args[0] < len(t.axes):
                raise Undec('axis %s of rank %d' % (ax.args[0], len(t.axes)))
        elif ax.op == 'tuple' and all(is_const(x) for x in ax.args):
            axs = sorted(x.args[0] % len(t.axes) for x in ax.args)
        else:
            raise Undec('axis')
        return axs, is_const(kd, True)

    def reduce(self, t, axs, keep, f=None):
        e = t.e
        for k in axs:
            a = t.axes[k]
            if a is not None:
                e = self.A.sum(e, a)
        out = [None if k in axs else a for k, a in enumerate(t.axes) if keep or k not in axs]
        return Ten(out, e)

    def count(self, t, axs):
        e = E1()
        for k in axs:
            e = self.A.mul(e, self.dimof(t, k))
        return e

    def f_sum(self, n, args, kws):
        t = self.T(args[0])
        if isinstance(t, Cat):
            ax = kws.get('axis', args[1] if len(args) > 1 else NONE)
            if is_const(ax) and isinstance(ax.args[0], int):
                nd = len(t.parts[0].axes)
                k = ax.args[0] % nd
                if k != t.axis:
                    kd = is_const(kws.get('keepdims', FALSE), True)
                    return Cat([self.reduce(p, [k], kd) for p in t.parts], t.axis - (0 if kd or k > t.axis else 1))
            if is_const(ax, None) and ax.args[0] is None or k == t.axis:
                kd = is_const(kws.get('keepdims', FALSE), True)
                r = None
                for x in t.parts:
                    if not isinstance(x, Ten):
                        raise Undec('sum of packed arrays')
                    y = self.reduce(x, [k] if ax.args[0] is not None else range(len(x.axes)), kd)
                    r = y if r is None else self.bin('+', r, y)
                return r
            raise Undec('sum of joined arrays')
        axs, keep = self.axarg(args, kws, 1, t)
        return self.reduce(t, axs, keep)

    def f_mean(self, n, args, kws):
        t = self.array(args[0])
        axs, keep = self.axarg(args, kws, 1, t)
        s = self.reduce(t, axs, keep)
        return Ten(s.axes, self.A.mul(s.e, self.A.power(self.count(t, axs), -1)))

    f_average = f_mean

    def f_var(self, n, args, kws, p=1):
        t = self.array(args[0])
        if kws.get('ddof') is not None and not is_const(kws['ddof'], 0):
            raise Undec('ddof')
        axs, keep = self.axarg(args, kws, 1, t)
        A = self.A
        c = A.power(self.count(t, axs), -1)
        m = self.reduce(t, axs, keep)
        m2 = self.reduce(Ten(t.axes, A.mul(t.e, t.e)), axs, keep)
        me = A.mul(m.e, c)
        return Ten(m.axes, A.power(A.add(A.mul(m2.e, c), A.mul(me, me), -1), p))

    def f_std(self, n, args, kws):
        return self.f_var(n, args, kws, Fraction(1, 2))

    def f_max(self, n, args, kws, nm='max'):
        if n is not None and callname(n) in ('builtins.max', 'builtins.min'):
            if len(args) < 2:
                raise Undec('builtin %s of one argument' % nm)
            r = args[0]
            out = self.array(r)
            for y in args[1:]:
                out = self.maxof(out, self.array(y), nm == 'max')
            return out
        t = self.array(args[0])
        axs, keep = self.axarg(args, kws, 1, t)
        e = t.e
        A = self.A
        for k in axs:
            a = t.axes[k]
            if a is None:
                continue
            fr = [x for x in A.free(e) if x != a]
            if a not in A.free(e):
                continue
            key = A.keyin(e, (a,) + tuple(sorted(fr)))
            # canonical order of the remaining indices
            best = None
            for pm in (permutations(fr) if len(fr) <= 4 else [fr]):
                kk = A.keyin(e, (a,) + tuple(pm))
                if best is None or repr(kk) < repr(best[0]):
                    best = (kk, tuple(pm))
            e = Eatom((nm, best[0], A.dims[a]), best[1])
        out = [None if k in axs else a for k, a in enumerate(t.axes) if keep or k not in axs]
        return Ten(out, e)

    f_amax = f_max

    def argsort_head(self, e, a):
        """(head, other indices, reversed): the order of e along a; the order of -e is the reverse order"""
        A = self.A
        best = None
        for sg in (1, -1):
            x = e if sg == 1 else A.scale(e, -1)
            fr = [y for y in A.free(x) if y != a]
            for pm in permutations(fr):
                kk = A.keyin(x, (a,) + tuple(pm))
                if best is None or repr(kk) < repr(best[0]):
                    best = (kk, tuple(pm), sg == -1)
        return ('argsort', best[0]), best[1], best[2]

    def f_argsort(self, n, args, kws):
        t = self.array(args[0])
        kws = dict(kws)
        if 'axis' not in kws and len(args) < 2:
            kws['axis'] = const(-1)
        axs, _ = self.axarg(args, kws, 1, t)
        if len(axs) != 1 or t.axes[axs[0]] is None:
            raise Undec('argsort axis')
        a = t.axes[axs[0]]
        d = self.A.dims[a]
        f = self.single(t.e)
        if f is not None and isinstance(f[0], tuple) and f[0][0] == 'svds':
            # in decreasing order
            j = self.A.ix(d)
            return Ten([j], Eatom('ι', (('at', ('rev', d), (j,)),)))
        h, rest, rev = self.argsort_head(t.e, a)
        x = ('at', ('rev', d), (a,)) if rev else a
        return Ten(t.axes, Eatom(h, (x,) + rest))

    def flip(self, t, k):
        if not isinstance(t, Ten):
            raise Undec('flip')
        a = t.axes[k]
        if a is None:
            return t
        return Ten(t.axes, self.subix(t.e, a, ('at', ('rev', self.A.dims[a]), (a,))))

    def f_flipud(self, n, args, kws):
        return self.flip(self.T(args[0]), 0)

    def f_fliplr(self, n, args, kws):
        return self.flip(self.T(args[0]), 1)

    def f_flip(self, n, args, kws):
        t = self.array(args[0])
        axs, _ = self.axarg(args, kws, 1, t)
        for k in axs:
            t = self.flip(t, k)
        return t

    def f_argmin(self, n, args, kws, nm='argmin'):
        t = self.array(args[0])
        axs, keep = self.axarg(args, kws, 1, t)
        if len(axs) != 1 or keep or t.axes[axs[0]] is None:
            raise Undec(nm)
        a = t.axes[axs[0]]
        A = self.A
        if a not in A.free(t.e):
            raise Undec(nm)
        fr = [x for x in A.free(t.e) if x != a]
        best = None
        for pm in (permutations(fr) if len(fr) <= 4 else [fr]):
            kk = A.keyin(t.e, (a,) + tuple(pm))
            if best is None or repr(kk) < repr(best[0]):
                best = (kk, tuple(pm))
        return Ten([x for x in t.axes if x != a], Eatom((nm, best[0], A.dims[a]), best[1]))

    def f_searchsorted(self, n, args, kws):
        """how many elements of a sorted vector lie before each value"""
        o = args[0]
        side = args[2] if len(args) > 2 else kws.get('side')
        if callname(o) != 'numpy.sort' or len(o.args[1]) != 1 or set(kws) - {'side', 'v'} or side is not None and not is_const(side):
            raise Undec('searchsorted')
        if 'axis' in dict(o.args[2]):
            raise Undec('searchsorted')
        x = self.array(o.args[1][0])
        v = self.array(args[1] if len(args) > 1 else kws['v'])
        if len(x.axes) != 1 or x.axes[0] is None:
            raise Undec('searchsorted')
        A = self.A
        k = A.ix(A.dims[x.axes[0]])
        y = A.rename(x.e, {x.axes[0]: k})
        if side is None or side.args[0] == 'left':
            c = self.boolfn('lt0', A.add(y, v.e, -1))
        elif side.args[0] == 'right':
            c = A.add(E1(), self.boolfn('lt0', A.add(v.e, y, -1)), -1)
        else:
            raise Undec('searchsorted')
        return Ten(v.axes, A.sum(c, k))

    def f_argmax(self, n, args, kws):
        return self.f_argmin(n, args, kws, 'argmax')

    def f_min(self, n, args, kws):
        return self.f_max(n, args, kws, 'min')

    f_amin = f_min

    def f_squeeze(self, n, args, kws):
        t = self.array(args[0])
        ax = kws.get('axis', args[1] if len(args) > 1 else NONE)
        if is_const(ax, None):
            return Ten([a for a in t.axes if a is not None], t.e)
        k = ax.args[0] % len(t.axes)
        if t.axes[k] is not None:
            if any(a is None for a in t.axes):
                raise Shape('squeeze of an axis that is not of length one')
            raise Undec('squeeze')
        return Ten(t.axes[:k] + t.axes[k + 1:], t.e)

    def f_expand_dims(self, n, args, kws):
        t = self.array(args[0])
        ax = kws.get('axis', args[1] if len(args) > 1 else NONE)
        k = ax.args[0]
        if k < 0:
            k += len(t.axes) + 1
        return Ten(t.axes[:k] + [None] + t.axes[k:], t.e)

    def f_ravel(self, n, args, kws):
        t = self.array(args[0])
        if sum(1 for a in t.axes if a is not None) <= 1:
            return Ten([a for a in t.axes if a is not None] or [None], t.e)
        return Flat(t)

    f_flatten = f_ravel

    def f_reshape(self, n, args, kws):
        t = self.array(args[0])
        sh = args[1]
        parts = list(sh.args) if sh.op in ('tuple', 'list') else [sh]
        if sh.op == 'alloc':
            parts = list(sh.args[1].args)
        real = [a for a in t.axes if a is not None]
        out = []
        left = list(real)
        for x in parts:
            if is_const(x, 1):
                out.append(None)
            elif is_const(x, -1):
                if len(left) == 0 or sum(1 for y in parts if not is_const(y, 1)) != len(real):
                    raise Undec('reshape')
                out.append(left.pop(0))
            else:
                e = self.scalar(x)
                if not left or not self.A.zero(self.A.add(e, self.dimexpr(self.A.dims[left[0]]), -1)):
                    raise Undec('reshape')
                out.append(left.pop(0))
        if left:
            raise Undec('reshape')
        return Ten(out, t.e)

    def f_transpose(self, n, args, kws):
        t = self.array(args[0])
        ax = kws.get('axes', args[1] if len(args) > 1 else NONE)
        if is_const(ax, None):
            return Ten(t.axes[::-1], t.e)
        return Ten([t.axes[x.args[0]] for x in ax.args], t.e)

    def f_swapaxes(self, n, args, kws):
        t = self.array(args[0])
        i, j = args[1].args[0], args[2].args[0]
        ax = list(t.axes)
        ax[i], ax[j] = ax[j], ax[i]
        return Ten(ax, t.e)

    def block(self, t):
        if isinstance(t, Block):
            return t
        if isinstance(t, Ten) and len(t.axes) == 2:
            return Block([[t]])
        if isinstance(t, Cat) and all(isinstance(x, Ten) and len(x.axes) == 2 for x in t.parts):
            return Block([[x] for x in t.parts]) if t.axis == 0 else Block([list(t.parts)])
        raise Undec('blocks')

    def unblock(self, b):
        if len(b.rows) == 1:
            return b.rows[0][0] if len(b.rows[0]) == 1 else Cat(b.rows[0], 1)
        return Cat([r[0] for r in b.rows], 0) if len(b.rows[0]) == 1 else b

    def blockT(self, b):
        return Block([[Ten(b.rows[r][c].axes[::-1], b.rows[r][c].e) for r in range(len(b.rows))] for c in range(len(b.rows[0]))])

    def blockdot(self, a, b):
        a, b = self.block(a), self.block(b)
        if len(a.rows[0]) != len(b.rows):
            raise Undec('product of blocks')
        out = []
        for r in a.rows:
            row = []
            for c in range(len(b.rows[0])):
                s = None
                for k in range(len(b.rows)):
                    t = self.dot(self.copy(r[k]), self.copy(b.rows[k][c]))
                    s = t if s is None else self.bin('+', s, t)
                row.append(s)
            out.append(row)
        return self.unblock(Block(out))

    def blockinv(self, b):
        n = len(b.rows)
        if any(len(r) != n for r in b.rows):
            raise Undec('inverse of blocks')

        def kk(t):
            fr = [a for a in t.axes if a is not None]
            if set(self.A.free(t.e)) - set(fr):
                raise Undec('batched blocks')
            return self.A.keyin(t.e, tuple(fr))
        K = tuple(tuple(kk(t) for t in r) for r in b.rows)
        symm = all(kk(Ten(b.rows[q][p].axes[::-1], b.rows[q][p].e)) == K[p][q] for p in range(n) for q in range(n))
        out = []
        for p in range(n):
            row = []
            for q in range(n):
                i, j = b.rows[q][p].axes[::-1]
                i = i if i is None else self.A.ix(self.A.dims[i])
                j = j if j is None else self.A.ix(self.A.dims[j])
                x, y, P, Q = i, j, p, q
                if symm and p > q:
                    x, y, P, Q = j, i, q, p
                h = ('binv', K, P, Q)
                if symm and p == q and i is not None:
                    self.A.H.sym.add(h)
                row.append(Ten([i, j], self.A.normall(Eatom(h, [z for z in (x, y) if z is not None]))))
            out.append(row)
        return Block(out)

    def dot(self, a, b):
        if isinstance(a, Block) or isinstance(b, Block):
            return self.blockdot(a, b)
        if isinstance(a, Flat) and isinstance(b, Flat):
            return self.inner(a, b)
        if isinstance(a, Cat) or isinstance(b, Cat):
            na = len(a.parts[0].axes) if isinstance(a, Cat) and isinstance(a.parts[0], Ten) else len(a.axes) if isinstance(a, Ten) else None
            nb = len(b.parts[0].axes) if isinstance(b, Cat) and isinstance(b.parts[0], Ten) else len(b.axes) if isinstance(b, Ten) else None
            if na is None or nb is None:
                raise Undec('product of packed arrays')
            kb = 0 if nb == 1 else nb - 2
            if isinstance(a, Cat) and a.axis == na - 1:
                if not isinstance(b, Cat) or b.axis != kb or len(a.parts) != len(b.parts):
                    raise Undec('product along joined axes')
                r = None
                for x, y in zip(a.parts, b.parts):
                    t = self.dot(x, y)
                    r = t if r is None else self.bin('+', r, t)
                return r
            if isinstance(a, Cat):
                return Cat([self.dot(x, self.copy(b)) for x in a.parts], a.axis)
            if b.axis == kb:
                raise Undec('product along joined axes')
            return Cat([self.dot(self.copy(a), y) for y in b.parts], na - 1 + b.axis - (1 if b.axis > kb else 0))
        if not isinstance(a, Ten) or not isinstance(b, Ten):
            raise Undec('product')
        if not a.axes or not b.axes:
            return self.bin('*', a, b)
        i = a.axes[-1]
        kb = 0 if len(b.axes) == 1 else len(b.axes) - 2
        j = b.axes[kb]
        ea, eb = a.e, b.e
        if i is not None and j is not None:
            self.same(i, j)
            eb = self.A.rename(eb, {j: i})
        e = self.A.mul(ea, eb)
        if i is not None or j is not None:
            e = self.A.sum(e, i if i is not None else j)
        return Ten(a.axes[:-1] + b.axes[:kb] + b.axes[kb + 1:], e)

    def linmap(self, t, head, d):
        """a fixed linear map along the last axis"""
        A = self.A
        if not t.axes or t.axes[-1] is None:
            raise Undec('transform of one element')
        k = A.ix(d)
        return Ten(t.axes[:-1] + [k], A.sum(A.mul(t.e, Eatom(head, (t.axes[-1], k))), t.axes[-1]))

    def fourier(self, n, args, kws):
        nm = callname(n).split('.')[-1]
        args = list(args)
        t = self.array(args[0])
        if len(args) > 2 or not is_const(kws.get('axis', const(-1))) or kws.get('axis', const(-1)).args[0] not in (-1, len(t.axes) - 1) or \
                any(k not in ('n', 'axis') for k in kws):
            raise Undec(nm)
        m = kws.get('n', args[1] if len(args) > 1 else NONE)
        A = self.A
        D = self.dimexpr(A.dims[t.axes[-1]])
        if not is_const(m, None):
            N = self.scalar(m)
        else:
            N = D if nm != 'irfft' else A.scale(A.add(D, E1(), -1), 2)
        k, jj = A.key(N)
        if jj:
            raise Undec(nm)
        d = self.asdim(N if nm != 'rfft' else A.add(A.fn('floor', A.scale(N, Fraction(1, 2))), E1()))
        return self.linmap(t, (nm, k), d)

    f_fft = f_ifft = f_rfft = f_irfft = fourier

    def f_lfilter(self, n, args, kws):
        """a linear filter along one axis: a linear map of the signal and of the state"""
        A = self.A
        o = dict(zip(('b', 'a', 'x', 'axis', 'zi'), args), **kws)
        t = self.array(o['x'])
        ax = o.get('axis', const(-1))
        if len(t.axes) != 1 or t.axes[0] is None or not is_const(ax) or ax.args[0] not in (0, -1):
            raise Undec('lfilter')
        ks = []
        for x in (o['b'], o['a']):
            c = self.array(x)
            ks.append((tuple(A.dims[i] if i is not None else 1 for i in c.axes), A.keyin(c.e, [i for i in c.axes if i is not None]) if any(i is not None for i in c.axes) else A.key(c.e)[0]))
        d = A.dims[t.axes[0]]
        y = self.linmap(t, ('lfilter',) + tuple(ks), d)
        z = o.get('zi', NONE)
        if z is NONE:
            return y
        z = self.array(z)
        if len(z.axes) != 1:
            raise Undec('lfilter')
        out = []
        if z.axes[0] is None:
            q = Ten(y.axes, A.mul(Eatom(('lfilter0',) + tuple(ks), (y.axes[0],)), z.e))
        else:
            q = Ten(y.axes, A.sum(A.mul(Eatom(('lfilter0',) + tuple(ks), (z.axes[0], y.axes[0])), z.e), z.axes[0]))
        return (Ten(y.axes, A.add(y.e, q.e)), Ten([None], Eatom(('lfilterz', ks[0], ks[1], A.key(t.e)[0]))))

    def f_cumsum(self, n, args, kws):
        t = self.array(args[0])
        ax = dict(zip(('axis',), args[1:]), **kws).get('axis', NONE)
        if is_const(ax, None) and len(t.axes) == 1:
            ax = const(0)
        if not is_const(ax) or not isinstance(ax.args[0], int) or any(k not in ('axis', 'dtype') for k in kws):
            raise Undec('cumsum')
        return self.alongaxis(t, ax.args[0], lambda d: (('cumsum', d), d, None))

    def alongaxis(self, t, k, f):
        """a linear map along one axis: f(dim) = (head, new dim, offset of the result)"""
        A = self.A
        k = k % len(t.axes)
        a = t.axes[k]
        if a is None:
            raise Undec('one element')
        head, d, off = f(A.dims[a])
        j = A.ix(d)
        term = j if not off else self.iterm(A.add(Eatom('ι', (j,)), off))
        return Ten(t.axes[:k] + [j] + t.axes[k + 1:], A.sum(A.mul(t.e, Eatom(head, (a, term))), a))

    def box(self, t, h, mode, k):
        """convolution with a constant window: a moving sum"""
        A = self.A
        c = A.constval(h.e)
        if c is None or t.axes[k] is None:
            raise Undec('convolution')
        w = self.dimof(h, k)
        n = self.dimexpr(A.dims[t.axes[k]])
        key = A.key(w)[0]
        off, d = {}, A.add(A.add(n, w), E1(), -1)
        if mode == 'same':
            if self.order(A.add(n, w, -1)) < 0:
                raise Undec('convolution')
            d, off = n, A.fn('floor', A.scale(A.add(w, E1(), -1), Fraction(1, 2)))
        elif mode != 'full':
            raise Undec('convolution')
        r = self.alongaxis(t, k, lambda x: (('box', key, x), self.asdim(d), off))
        return Ten(r.axes, A.scale(r.e, c))

    def f_convolve(self, n, args, kws):
        o = dict(zip(('a', 'v', 'mode'), args), **kws)
        t, h = self.array(o['a']), self.array(o['v'])
        if len(t.axes) != 1 or len(h.axes) != 1 or not is_const(o.get('mode', const('full'))):
            raise Undec('convolution')
        return self.box(t, h, o.get('mode', const('full')).args[0], 0)

    def f_convolve2d(self, n, args, kws):
        o = dict(zip(('in1', 'in2', 'mode'), args), **kws)
        t, h = self.array(o['in1']), self.array(o['in2'])
        if len(t.axes) != 2 or len(h.axes) != 2 or h.axes[1] is not None or not is_const(o.get('mode', const('full'))) or any(k not in ('in1', 'in2', 'mode') for k in o):
            raise Undec('convolution')
        return self.box(t, h, o.get('mode', const('full')).args[0], 0)

    def f_pad(self, n, args, kws):
        A = self.A
        o = dict(zip(('array', 'pad_width', 'mode'), args), **kws)
        t = self.array(o['array'])
        w = self.I_facts(o['pad_width'])
        md = o.get('mode', const('constant'))
        if any(k not in ('array', 'pad_width', 'mode') for k in o) or not is_const(md) or None in t.axes:
            raise Undec('pad')
        if w.op not in ('tuple', 'list') or len(w.args) not in (1, 2):
            raise Undec('pad')
        ws = list(w.args)
        if ws[0].op not in ('tuple', 'list'):
            ws = [w] * len(t.axes)
        if len(ws) != len(t.axes):
            raise Undec('pad')
        e, axes = t.e, []
        for i, x in zip(t.axes, ws):
            lo, hi = (self.scalar(y) for y in (x.args if len(x.args) == 2 else x.args * 2))
            if not lo and not hi:
                axes.append(i)
                continue
            j = A.ix(self.asdim(A.add(A.add(self.dimexpr(A.dims[i]), lo), hi)))
            e = self.subix(e, i, ('at', ('pad', md.args[0], A.dims[i], A.key(lo)[0]), (j,)))
            axes.append(j)
        return Ten(axes, e)

    def I_facts(self, n):
        return self.F.ev(n) if self.F is not None else n

    def window(self, n, args, kws, c):
        A = self.A
        o = dict(zip(('M', 'sym'), args), **kws)
        sym = o.get('sym', TRUE)
        N = self.scalar(o['M'])
        if not is_const(sym) or any(k not in ('M', 'sym', 'fftbins') for k in o):
            raise Undec('window')
        d = self.asdim(N)
        if d == 1:
            raise Undec('window of one')
        i = A.ix(d)
        M = A.add(N, E1(), -1) if sym.args[0] else N
        e = {}
        for k, x in enumerate(c):
            f = E1()
            if k:
                f = A.fn('cos', A.scale(A.mul(A.mul(Eatom('ι', (i,)), A.power(M, -1)), Eatom('π')), 2 * k))
            e = A.add(e, A.scale(f, x))
        return Ten([i], e)

    def f_hamming(self, n, args, kws):
        return self.window(n, args, kws, (Fraction(54, 100), Fraction(-46, 100)))

    def f_hann(self, n, args, kws):
        return self.window(n, args, kws, (Fraction(1, 2), Fraction(-1, 2)))

    f_hanning = f_hann

    def f_blackman(self, n, args, kws):
        return self.window(n, args, kws, (Fraction(42, 100), Fraction(-1, 2), Fraction(8, 100)))

    def f_dct(self, n, args, kws):
        t = self.array(args[0])
        names = ('x', 'type', 'n', 'axis', 'norm')
        o = dict(zip(names[1:], args[1:]), **kws)
        ax = o.pop('axis', const(-1))
        if not is_const(ax) or ax.args[0] not in (-1, len(t.axes) - 1) or not is_const(o.get('n', NONE), None) or not all(is_const(x) for x in o.values()):
            raise Undec('dct')
        d = self.A.dims[t.axes[-1]]
        return self.linmap(t, ('dct', str(o.get('type', const(2)).args[0]), str(o.get('norm', NONE).args[0]), repr(d)), d)

    def f_dot(self, n, args, kws):
        return self.dot(self.T(args[0]), self.T(args[1]))

    f_matmul = f_dot

    def f_inner(self, n, args, kws):
        a, b = self.T(args[0]), self.T(args[1])
        return self.inner(a, b)

    def inner(self, a, b):
        if isinstance(a, Flat) and isinstance(b, Flat):
            if len(a.t.axes) != len(b.t.axes):
                raise Undec('flattened arrays')
            axes, (x, y) = self.unify([a.t, self.copy(b.t)])
            e = self.A.mul(x, y)
            for k in axes:
                if k is not None:
                    e = self.A.sum(e, k)
            return Ten([], e)
        if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts):
            r = None
            for x, y in zip(a.parts, b.parts):
                t = self.inner(x, y)
                r = t if r is None else self.bin('+', r, t)
            return r
        if isinstance(a, Pack) and isinstance(b, Pack):
            f = a.f * b.f
            A = self.A
            x, y = a.t, b.t
            ea, eb = x.e, y.e
            self.same(x.axes[-1], y.axes[-1])
            eb = A.rename(eb, {y.axes[-1]: x.axes[-1], y.axes[-2]: x.axes[-2]})
            full = A.mul(ea, eb)
            i, j = x.axes[-2:]
            dg = A.rename(full, {j: i})
            s = A.sum(A.sum(full, j), i)
            d = A.sum(dg, i)
            # sum over the triangle: off-diagonal once, diagonal times f
            e = A.add(A.scale(s, Fraction(1, 2)), A.scale(d, f - Fraction(1, 2)))
            return Ten(x.axes[:-2] + y.axes[:-2], e)
        if not isinstance(a, Ten) or not isinstance(b, Ten):
            raise Undec('inner')
        if not a.axes or not b.axes:
            return self.bin('*', a, b)
        i, j = a.axes[-1], b.axes[-1]
        eb = b.e
        if i is not None and j is not None:
            self.same(i, j)
            eb = self.A.rename(eb, {j: i})
        e = self.A.mul(a.e, eb)
        if i is not None or j is not None:
            e = self.A.sum(e, i if i is not None else j)
        return Ten(a.axes[:-1] + b.axes[:-1], e)

    def f_outer(self, n, args, kws):
        a, b = self.array(args[0]), self.array(args[1])
        if len(a.axes) != 1 or len(b.axes) != 1:
            raise Undec('outer')
        return Ten(a.axes + b.axes, self.A.mul(a.e, b.e))

    def f_einsum(self, n, args, kws):
        if not is_const(args[0]) or not isinstance(args[0].args[0], str) or '->' not in args[0].args[0]:
            raise Undec('einsum')
        ins, out = args[0].args[0].replace(' ', '').split('->')
        m = {}
        e = E1()
        for s, x in zip(ins.split(','), args[1:]):
            t = self.array(x)
            if len(s) != len(t.axes):
                raise Undec('einsum rank')
            r = {}
            for c, a in zip(s, t.axes):
                if a is None:
                    raise Undec('einsum')
                if c in m:
                    self.same(m[c], a)
                    r[a] = m[c]
                else:
                    m[c] = a
            e = self.A.mul(e, self.A.rename(t.e, r))
        for c, a in m.items():
            if c not in out:
                e = self.A.sum(e, a)
        return Ten([m[c] for c in out], e)

    def f_multiply(self, n, args, kws):
        return self.bin('*', self.T(args[0]), self.T(args[1]))

    def f_add(self, n, args, kws):
        return self.bin('+', self.T(args[0]), self.T(args[1]))

    def f_subtract(self, n, args, kws):
        return self.bin('-', self.T(args[0]), self.T(args[1]))

    def f_divide(self, n, args, kws):
        return self.bin('/', self.T(args[0]), self.T(args[1]))

    f_true_divide = f_divide

    def f_power(self, n, args, kws):
        return self.bin('**', self.T(args[0]), self.T(args[1]))

    def f_negative(self, n, args, kws):
        return self.bin('*', self.T(args[0]), Ten([], E1(-1)))

    def f_trace(self, n, args, kws):
        t = self.array(args[0])
        i, j = t.axes
        return Ten([], self.A.sum(self.A.rename(t.e, {j: i}), i))

    def f_diag(self, n, args, kws):
        t = self.array(args[0])
        if len(t.axes) == 2:
            i, j = t.axes
            self.same(i, j)
            return Ten([i], self.A.rename(t.e, {j: i}))
        if len(t.axes) == 1:
            i = t.axes[0]
            j = self.A.ix(self.A.dims[i])
            return Ten([i, j], self.A.mul(t.e, Eatom('δ', (i, j))))
        raise Undec('diag')

    f_diagonal = f_diag

    def f_eye(self, n, args, kws):
        d = self.asdim(self.scalar(args[0]))
        if d == 1:
            return Ten([None, None], E1())
        i, j = self.A.ix(d), self.A.ix(d)
        return Ten([i, j], Eatom('δ', (i, j)))

    f_identity = f_eye

    def filled(self, sh, e):
        if sh.op == 'alloc' and sh.args[1].op == 'list':
            sh = sh.args[1]
        parts = list(sh.args) if sh.op in ('tuple', 'list') else None
        if sh.op == 'shape':
            t = self.array(sh.args[0])
            return Ten([self.A.ix(self.A.dims[a]) if a is not None else None for a in t.axes], e)
        if parts is None:
            parts = [sh]
        ax = []
        for x in parts:
            d = self.asdim(self.scalar(x))
            ax.append(self.A.ix(d) if d != 1 else None)
        return Ten(ax, e)

    def f_zeros(self, n, args, kws):
        return self.filled(args[0] if args else kws['shape'], {})

    f_empty = f_zeros

    def f_ones(self, n, args, kws):
        return self.filled(args[0] if args else kws['shape'], E1())

    def f_full(self, n, args, kws):
        return self.filled(args[0], self.scalar(args[1]))

    def f_arange(self, n, args, kws):
        a = [self.scalar(x) for x in args]
        if set(kws) - {'dtype'} or not 1 <= len(a) <= 3:
            raise Undec('numpy.arange')
        lo, hi, st = [{}, a[0], E1()] if len(a) == 1 else a + [E1()] * (3 - len(a))
        s = self.A.constval(st)
        if s not in (1, -1):
            raise Undec('numpy.arange')
        d = self.asdim(self.A.scale(self.A.add(hi, lo, -1), s))
        if d == 1:
            return Ten([None], lo)
        j = self.A.ix(d)
        return Ten([j], self.A.add(lo, self.A.scale(Eatom('ι', (j,)), s)))

    def f_zeros_like(self, n, args, kws):
        t = self.T(args[0])
        if isinstance(t, Pack):
            return Pack(Ten(t.t.axes, {}), t.f)
        t = self.array(args[0])
        return Ten(t.axes, {})

    f_empty_like = f_zeros_like

    def f_ones_like(self, n, args, kws):
        t = self.array(args[0])
        return Ten(t.axes, E1())

    def f_hstack(self, n, args, kws, axis=None):
        x = args[0]
        if x.op == 'alloc':
            x = x.args[1]
        if x.op not in ('tuple', 'list'):
            raise Undec('hstack')
        ts = [self.T(y) for y in x.args]
        if callname(n) == 'numpy.vstack' or is_const(kws.get('rows', NONE), True):
            ts = [Ten([None] * (2 - len(t.axes)) + t.axes, t.e) if isinstance(t, Ten) and len(t.axes) < 2 else
                  Cat([Ten([None] + y.axes, y.e) for y in t.parts], 1) if isinstance(t, Cat) and all(isinstance(y, Ten) and len(y.axes) == 1 for y in t.parts)
                  else t for t in ts]
            axis = 0
        if any(isinstance(t, Block) or isinstance(t, Cat) and t.parts and isinstance(t.parts[0], Ten) and len(t.parts[0].axes) == 2 and
               t.axis != (1 if axis is None else axis) for t in ts):
            bs = [self.block(t) for t in ts]
            if axis == 0:
                if len(set(len(b.rows[0]) for b in bs)) != 1:
                    raise Undec('stacked blocks')
                return self.unblock(Block([r for b in bs for r in b.rows]))
            if len(set(len(b.rows) for b in bs)) != 1:
                raise Undec('stacked blocks')
            return self.unblock(Block([[t for b in bs for t in b.rows[k]] for k in range(len(bs[0].rows))]))
        flat = []
        for t in ts:
            flat += t.parts if isinstance(t, Cat) else [t]
        flat = [Ten([None], t.e) if isinstance(t, Ten) and not t.axes else t for t in flat]
        nd = max(len(t.axes) for t in flat if isinstance(t, Ten)) if any(isinstance(t, Ten) for t in flat) else 1
        ax = (0 if nd == 1 else 1) if axis is None else axis % nd
        if any(isinstance(t, Ten) and len(t.axes) != nd for t in flat):
            raise Undec('hstack ranks')
        return Cat(flat, ax)

    f_vstack = f_hstack

    def f_concatenate(self, n, args, kws):
        ax = kws.get('axis', args[1] if len(args) > 1 else const(0))
        if not is_const(ax):
            raise Undec('axis')
        return self.f_hstack(n, args, kws, ax.args[0])

    def f_cholesky(self, n, args, kws):
        c = callname(n)
        low = kws.get('lower', args[1] if len(args) > 1 else None)
        if c.startswith('numpy'):
            lower = True
        else:
            lower = low is not None and is_const(low, True)
            if low is not None and not is_const(low):
                raise Undec('cholesky')
        t = self.T(args[0])
        if isinstance(t, Block):
            return BlockChol(t, lower)
        return self.chol(self.array(args[0]), lower)

    def chol(self, t, lower):
        i, j = t.axes[-2:]
        sc, body = self.unscale(t)
        t = Ten(t.axes, body)
        key, bb = self.matrix(t)
        # the upper factor is the transposed lower one
        return Ten(t.axes, self.A.mul(self.A.power(sc, Fraction(1, 2)), Eatom(('cholL', key), bb + ((i, j) if lower else (j, i)))))

    EIG = ('overwrite_a', 'overwrite_b', 'check_finite', 'lower', 'turbo', 'driver', 'UPLO')

    def decomp(self, c, o, k):
        A = self.A
        args, kws = list(o.args[1]), dict(o.args[2])
        nm = c.rsplit('.', 1)[-1]
        ms = [self.array(x) for x in args]
        for t in ms:
            if len(t.axes) != 2 or None in t.axes or len(A.free(t.e)) != 2:
                raise Undec(nm)
        if nm == 'eigh':
            if any(x not in self.EIG for x in kws) or len(ms) > 2:
                raise Undec('eigh')
            return self.eig(ms, k)
        full = not any(x == 'full_matrices' and is_const(v, False) for x, v in kws.items())
        if any(x not in self.EIG + ('full_matrices',) for x in kws) or len(ms) != 1:
            raise Undec('svd')
        return self.svd(ms[0], k, full)

    def eig(self, ms, k):
        A = self.A
        ks = []
        for t in ms:
            key, bb = self.matrix(t)
            ks.append(key)
        j = A.ix(A.dims[ms[0].axes[0]])
        if k in (0, -2):
            return Ten([j], Eatom(('eigval',) + tuple(ks), (j,)))
        i = A.ix(A.dims[ms[0].axes[0]])
        return Ten([i, j], Eatom(('eigvec',) + tuple(ks), (i, j)))

    def svd(self, t, k, full):
        A = self.A
        key = A.keyin(t.e, tuple(t.axes))
        d0, d1 = [A.dims[a] for a in t.axes]
        r = d0 if d0 == d1 else ('min',) + tuple(sorted((d0, d1), key=repr))
        if k in (1, -2):
            j = A.ix(r)
            return Ten([j], Eatom(('svds', key), (j,)))
        if k in (0, -3):
            i, j = A.ix(d0), A.ix(d0 if full else r)
            return Ten([i, j], Eatom(('svdU', key), (i, j)))
        i, j = A.ix(d1 if full else r), A.ix(d1)
        return Ten([i, j], Eatom(('svdV', key), (i, j)))

    def unscale(self, t):
        """(positive scalar factor, the matrix without it)"""
        i, j = t.axes[-2:]
        A = self.A
        if not t.e:
            return E1(), t.e
        c0, com, rest = A.content(t.e)
        if c0 <= 0:
            return E1(), t.e
        out, body = E1(c0), A.scale(t.e, 1 / c0)
        for h, ii, p in com:
            if A.positive(h) and not any(x in (i, j) for y in ii for x in inames(y)):
                out = A.mul(out, Eatom(h, ii, p))
                body = A.mul(body, Eatom(h, ii, -p))
        return out, body

    def matrix(self, t):
        """key of a matrix expression with its batch indices"""
        i, j = t.axes[-2:]
        if i is None or j is None:
            raise Undec('matrix of one')
        fr = [x for x in self.A.free(t.e) if x not in (i, j)]
        best = None
        for pm in (permutations(fr) if len(fr) <= 4 else [fr]):
            k = self.A.keyin(t.e, tuple(pm) + (i, j))
            if best is None or repr(k) < repr(best[0]):
                best = (k, tuple(pm))
        return best

    def inverse(self, t):
        i, j = t.axes[-2:]
        A = self.A
        f = self.single(t.e)
        if f is not None and isinstance(f[0], tuple) and f[0][0] == 'inv' and set(f[1][-2:]) == {i, j}:
            a, b = (i, j) if f[1][-2:] == (i, j) else (j, i)
            return Ten(t.axes, A.unkey(f[0][1], f[1][:-2] + (a, b)))
        if f is not None and f[0] == 'δ':
            return t
        c0, com, rest = A.content(t.e)
        sc = [(h, ii, p) for h, ii, p in com if not any(x in (i, j) for y in ii for x in inames(y))]
        out = E1(1 / c0)
        body = A.scale(t.e, 1 / c0)
        for h, ii, p in sc:
            out = A.mul(out, Eatom(h, ii, -p))
            body = A.mul(body, Eatom(h, ii, -p))
        key, bb = self.matrix(Ten(t.axes, body))
        h = ('inv', key)
        fr = bb
        k2 = A.keyin(body, fr + (j, i))
        flip = False
        if key == k2:
            A.H.sym.add(h)
        elif A.dims[i] == A.dims[j] and repr(k2) < repr(key):
            # the inverse of the transposed is the transposed inverse
            h, flip = ('inv', k2), True
        f = self.single(body)
        if f is not None and isinstance(f[0], tuple) and f[0][0] == 'inv':
            a, b = (i, j) if f[1][-2:] == (i, j) else (j, i)
            return Ten(t.axes, A.mul(out, A.unkey(f[0][1], f[1][:-2] + (a, b))))
        return Ten(t.axes, A.normall(A.mul(out, Eatom(h, bb + ((j, i) if flip else (i, j))))))

    def f_inv(self, n, args, kws):
        return self.inverse(self.array(args[0]))

    f_pinv = f_inv

    def logdet(self, t):
        i, j = t.axes[-2:]
        A = self.A
        f = self.single(t.e)
        if f is not None and isinstance(f[0], tuple) and f[0][0] == 'inv':
            m = Ten(t.axes, A.unkey(f[0][1], f[1]))
            return A.scale(self.logdet(m), -1)
        sc, body = self.unscale(t)
        if body != t.e:
            return A.add(self.logdet(Ten(t.axes, body)), A.mul(self.dimexpr(A.dims[i]), A.fn('log', sc)))
        key, bb = self.matrix(t)
        return Eatom(('logdet', key), bb)

    def solve(self, a, b):
        inv = self.inverse(a)
        return self.dot(inv, b)

    def f_solve(self, n, args, kws):
        return self.solve(self.array(args[0]), self.array(args[1]))

    def f_cho_solve(self, n, args, kws):
        c = args[0]
        if c.op != 'tuple':
            raise Undec('cho_solve')
        R = self.T(c.args[0])
        if isinstance(R, BlockChol):
            if not is_const(c.args[1], R.lower):
                raise Undec('cho_solve with the other triangle')
            return self.blockdot(self.blockinv(R.b), self.T(args[1]))
        R = self.array(c.args[0])
        f, sc = None, E1()
        if len(R.e) == 1:
            (b, fs), co = next(iter(R.e.items()))
            for x in fs:
                if isinstance(x[0], tuple) and x[0][0] in ('cholU', 'cholL') and x[2] == 1 and f is None:
                    f = x
                else:
                    sc = self.A.mul(sc, Eatom(*x))
            sc = self.A.scale(sc, co)
            if b or f is not None and any(a in self.A.free(sc) for a in R.axes):
                f = None
        if f is None:
            raise Undec('cho_solve of %s' % show(c, 3))
        up = f[0][0] == 'cholU'
        i, j = R.axes
        if f[1][-2:] != (i, j):
            up = not up
        if is_const(c.args[1], up):
            raise Undec('cho_solve with the other triangle')
        A = self.inverse(Ten([i, j], self.A.unkey(f[0][1], f[1][:-2] + (i, j))))
        A = Ten(A.axes, self.A.mul(A.e, self.A.power(sc, -2)))
        return self.dot(A, self.array(args[1]))

    def f_solve_triangular(self, n, args, kws):
        a = self.array(args[0])
        tr = kws.get('trans')
        if tr is not None and not is_const(tr, 0) and not is_const(tr, 'N'):
            a = Ten(a.axes[::-1], a.e)
        return self.dot(self.inverse(a), self.array(args[1]))

    def f_norm(self, n, args, kws):
        t = self.array(args[0])
        axs, keep = self.axarg([], kws, 9, t)
        if len(args) > 1 or 'ord' in kws:
            o = kws.get('ord', args[1] if len(args) > 1 else NONE)
            if not (is_const(o, 2) and len(axs) == 1 or is_const(o, None)):
                raise Undec('norm')
        s = self.reduce(Ten(t.axes, self.A.mul(t.e, t.e)), axs, keep)
        return Ten(s.axes, self.A.power(s.e, Fraction(1, 2)))

    def f_unique(self, n, args, kws):
        t = self.array(args[0])
        f = self.single(t.e)
        if f is None or f[0] not in self.labels:
            raise Undec('unique')
        j = self.A.ix('C')
        return Ten([j], Eatom(('unique', f[0]), (j,)))

    def positions(self, m):
        m = self.array(m)
        if not self.isbool(m) or len(m.axes) != 1 or m.axes[0] is None:
            raise Undec('positions in %s' % show(m, 3))
        key, jj = self.guardkey(m)
        j = self.A.ix(('sel', self.A.dims[m.axes[0]], key, jj))
        return Ten([j], Eatom('ι', (j,)))

    def f_flatnonzero(self, n, args, kws):
        return self.positions(args[0])

    def f_any(self, n, args, kws, every=False):
        t = self.array(args[0])
        c = self.A.constval(t.e) if t.e else Fraction(0)
        if c is None or len(args) > 1 or kws:
            raise Undec('numpy.any')
        return Ten([], E1(1 if c else 0))

    f_all = f_any

    def f_tile(self, n, args, kws):
        t = self.array(args[0])
        r = args[1] if len(args) > 1 else kws.get('reps')
        rs = list(r.args) if r.op in ('tuple', 'list') else [r]
        ax = [None] * (len(rs) - len(t.axes)) + t.axes
        rs = [const(1)] * (len(ax) - len(rs)) + rs
        out = []
        for a, x in zip(ax, rs):
            if is_const(x, 1) and x.args[0] == 1:
                out.append(a)
            elif a is None:
                out.append(self.A.ix(self.asdim(self.scalar(x))))
            else:
                raise Undec('tile of a long axis')
        return Ten(out, t.e)

    def f_repeat(self, n, args, kws):
        raise Undec('repeat')

    def f_len(self, n, args, kws):
        return Ten([], self.dimof(self.T(args[0]), 0))

    def f_logsumexp(self, n, args, kws):
        t = self.array(args[0])
        axs, keep = self.axarg(args, kws, 1, t)
        s = self.reduce(Ten(t.axes, self.A.fn('exp', t.e)), axs, keep)
        return Ten(s.axes, self.A.fn('log', s.e))


# --------------------------------------------------------------------------- reference formulas
class Spec(object):
    """formulas written in index notation:  sum(i,j; x[n,i]*W[i,j]*x[n,j])  (parsed, not evaluated)"""

    def __init__(self, tr, atoms):
        import ast as _ast
        self.ast = _ast
        self.tr, self.A = tr, tr.A
        self.atoms = atoms          # name -> dims
        self.defs = {}

    def parse(self, text, idx):
        """idx: index letter -> index symbol"""
        t = text.replace(';', ',"|",')
        tree = self.ast.parse(t.strip(), mode='eval').body
        return self.ev(tree, dict(idx))

    def need(self, nm, dim, idx):
        if nm not in idx:
            raise Undec('index %s' % nm)
        return idx[nm]

    def ev(self, t, idx):
        a, A = self.ast, self.A
        if isinstance(t, a.Constant):
            return E1(Fraction(repr(t.value)))
        if isinstance(t, a.UnaryOp):
            return A.scale(self.ev(t.operand, idx), -1)
        if isinstance(t, a.BinOp):
            x = self.ev(t.left, idx)
            if isinstance(t.op, a.Pow):
                y = t.right
                s = 1
                if isinstance(y, a.UnaryOp):
                    s, y = -1, y.operand
                v = Fraction(1, 2) if isinstance(y, a.Name) and y.id == 'half' else Fraction(repr(y.value))
                return A.power(x, s * v)
            y = self.ev(t.right, idx)
            if isinstance(t.op, a.Add):
                return A.add(x, y)
            if isinstance(t.op, a.Sub):
                return A.add(x, y, -1)
            if isinstance(t.op, a.Mult):
                return A.mul(x, y)
            if isinstance(t.op, a.Div):
                return A.mul(x, A.power(y, -1))
        if isinstance(t, a.Name):
            if getattr(self, 'atpos', None) is not None and t.id in self.atpos:
                return Eatom('ι', (self.atpos[t.id],))
            if t.id == 'pi':
                return Eatom('π')
            if t.id.startswith('dim_'):
                d = t.id[4:]
                return self.tr.dimexpr(self.letters[d]) if d in getattr(self, 'letters', {}) else Eatom(('dim', d))
            if t.id in getattr(self, 'funcs', {}):
                return A.normall(self.funcs[t.id](self, []))
            return Eatom(t.id)
        if isinstance(t, a.Subscript):
            ii = t.slice.elts if isinstance(t.slice, a.Tuple) else [t.slice]
            ids = [self.index(x, idx) for x in ii]
            if isinstance(t.value, a.Name):
                n = t.value.id
                if n == 'delta':
                    return A.normall(Eatom('δ', ids))
                if n in getattr(self, 'funcs', {}):
                    return A.normall(self.funcs[n](self, ids))
                if n in self.defs:
                    params, body = self.defs[n]
                    return self.ev(body, dict(zip(params, ids)))
                return A.normall(Eatom(n, ids))
            # inv(i,j; expr)[a,b] / chol
            f = t.value.func.id
            names, dims, body, outer = self.binder(t.value, idx)
            loc = dict(idx)
            ax = []
            for nm, d in zip(names, dims):
                loc[nm] = A.ix(d)
                ax.append(loc[nm])
            if isinstance(body, a.Call) and isinstance(body.func, a.Name) and body.func.id == 'pair' and f == 'varfloor':
                # the floor is the second matrix
                S, F = [Ten(ax, self.ev(x, loc)) for x in body.args]
                r = self.tr.varfloor(S, F, False)
                return A.normall(A.rename(r.e, dict(zip(r.axes, ids))))
            if isinstance(body, a.Call) and isinstance(body.func, a.Name) and body.func.id == 'pair':
                r = self.tr.eig([Ten(ax, self.ev(x, loc)) for x in body.args], 0 if f == 'eigval' else 1)
                return A.normall(A.rename(r.e, dict(zip(r.axes, ids))))
            e = self.ev(body, loc)
            if f == 'inv':
                r = self.tr.inverse(Ten(ax, e))
            elif f in ('eigval', 'eigvec'):
                # ascending eigenvalues; inner indices i,j: the matrix (and the second matrix: eigvec2)
                r = self.tr.eig([Ten(ax, e)], 0 if f == 'eigval' else 1)
            elif f in ('svds', 'svdV', 'svdU'):
                r = self.tr.svd(Ten(ax, e), dict(svds=1, svdU=0, svdV=2)[f], False)
            elif f in ('cholL', 'cholU'):
                r = self.tr.chol(Ten(ax, e), f == 'cholL')
            else:
                raise Undec('formula ' + f)
            return A.normall(A.rename(r.e, dict(zip(r.axes, ids))))
        if isinstance(t, a.Call):
            f = t.func.id
            if f in ('sum', 'logdet', 'max', 'min', 'lse'):
                names, dims, body, outer = self.binder(t, idx)
                loc = dict(idx)
                ax = []
                for nm, d in zip(names, dims):
                    loc[nm] = A.ix(d)
                    ax.append(loc[nm])
                e = self.ev(body, loc)
                if f == 'sum':
                    for i in reversed(ax):
                        e = A.sum(e, i)
                    return e
                if f == 'lse':
                    return self.tr.lse(e, ax[0])
                if f == 'logdet':
                    return self.tr.logdet(Ten(ax, e))
                return self.tr.f_max(None, [mk('tmp')], {}, f) if False else self.redmax(f, e, ax)
            if f == 'lt':
                return self.tr.boolfn('lt0', A.add(self.ev(t.args[0], idx), self.ev(t.args[1], idx), -1))
            if f == 'eq':
                return self.tr.boolfn('eq0', A.add(self.ev(t.args[0], idx), self.ev(t.args[1], idx), -1))
            if f == 'pos':
                return self.position(t.args[0], idx)
            if f in ('maximum', 'minimum'):
                x, y = self.ev(t.args[0], idx), self.ev(t.args[1], idx)
                return self.tr.maxof(Ten([], x), Ten([], y), f == 'maximum').e
            return self.tr.elem(f, self.ev(t.args[0], idx))
        raise Undec('formula')

    def redmax(self, f, e, ax):
        A = self.A
        for a in ax:
            fr = [x for x in A.free(e) if x != a]
            best = None
            for pm in permutations(fr):
                kk = A.keyin(e, (a,) + tuple(pm))
                if best is None or repr(kk) < repr(best[0]):
                    best = (kk, tuple(pm))
            e = Eatom((f, best[0], A.dims[a]), best[1])
        return e

    def index(self, x, idx):
        a = self.ast
        if isinstance(x, a.Name):
            if x.id not in idx:
                raise Undec('formula index ' + x.id)
            return idx[x.id]
        if isinstance(x, a.Constant):
            return ('c', x.value)
        if isinstance(x, a.UnaryOp):
            return ('c', -x.operand.value)
        if isinstance(x, a.BinOp):
            return self.tr.iterm(self.position(x, idx))
        if isinstance(x, a.Call):
            return self.iterms[x.func.id](self, *[self.index(y, idx) for y in x.args])
        if isinstance(x, a.Subscript):
            ii = x.slice.elts if isinstance(x.slice, a.Tuple) else [x.slice]
            return ('at', x.value.id, tuple(self.index(y, idx) for y in ii))
        raise Undec('formula index')

    def position(self, x, idx):
        old = getattr(self, 'atpos', None)
        self.atpos = idx
        try:
            return self.tr.iotas(self.ev(x, idx))
        finally:
            self.atpos = old

    def binder(self, t, idx):
        """names and dimensions bound by a call  f(i:..,"|",body)"""
        a = self.ast
        k = [n for n, x in enumerate(t.args) if isinstance(x, a.Constant) and x.value == '|'][0]
        names = [x.id for x in t.args[:k]]
        body = t.args[k + 1]
        dims = [self.dimname(nm, body) for nm in names]
        return names, dims, body, None

    def dimname(self, nm, body):
        """the dimension an index letter runs over, from the atoms it indexes"""
        a = self.ast
        for n in a.walk(body):
            if isinstance(n, a.Subscript) and isinstance(n.value, a.Name):
                ii = n.slice.elts if isinstance(n.slice, a.Tuple) else [n.slice]
                for k, x in enumerate(ii):
                    if isinstance(x, a.Name) and x.id == nm and n.value.id in self.atoms:
                        d = self.atoms[n.value.id][k]
                        return self.tr.asdim(Spec(self.tr, {}).parse(d[1:], {})) if isinstance(d, str) and d[:1] == '=' else d
        return self.letters.get(nm) if hasattr(self, 'letters') else None
