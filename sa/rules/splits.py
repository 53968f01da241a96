"""C12: splitting divides the data.

The parts returned by a split, and the folds or parts assigned to a list, must contain every element exactly once and
never cut a group in two. The bounds of part j are read from the value graph as expressions lo(j), hi(j) and the rule
shows hi(j) = lo(j+1), lo(first) = 0 and hi(last) = number of elements or groups, with the intervals closed below and
open above; the elements inside an interval are the ones whose index, or group index, lies in it. Getters of folds and
parts are decided by truth tables, callers by the roles of the arguments they pass."""
import itertools
import math
import re

from ..ir import *
from ..interp import *
from ..scope import *
from fractions import Fraction

from ..poly import *
from ..project import AnalysisBroken


class Unk(Exception):
    pass


class Bad(Exception):
    pass


ARR = ('numpy.asarray', 'numpy.array', 'builtins.list', 'builtins.tuple', 'numpy.ravel', 'numpy.squeeze', 'numpy.atleast_1d')


def strip(n):
    """without conversions that keep the elements"""
    if n is None:
        return NONE
    while True:
        if n.op == 'alloc' or n.op == 'objcopy':
            n = n.args[1] if n.op == 'alloc' else n.args[0]
        elif callname(n) in ARR and n.args[1]:
            n = n.args[1][0]
        elif callname(n) == 'numpy.astype':
            n = n.args[1][0]
        elif n.op == 'attr' and n.args[1] == 'values':
            n = n.args[0]
        elif n.op == 'phi':
            a, b = strip(n.args[1]), strip(n.args[2])
            if a is not b:
                return n
            n = a
        else:
            return n


def under(n, facts, memo=None):
    """n with the joins over the given conditions resolved"""
    m = {}
    for x in walk(n):
        if x.op == 'phi':
            v = truth(x.args[0], facts)
            if v is not None:
                m[x] = (x.args[1], x.args[2])[not v]
    if not m:
        return n
    while n in m:
        n = m[n]
    return subst(n, m) if any(x in m for x in walk(n)) else n


def truth(c, facts):
    if c in facts:
        return facts[c]
    if is_const(c) and isinstance(c.args[0], bool):
        return c.args[0]
    if c.op == 'not':
        v = truth(c.args[0], facts)
        return None if v is None else not v
    if c.op in ('and', 'or'):
        vs = [truth(x, facts) for x in c.args[0]]
        if (c.op == 'or') in vs:
            return c.op == 'or'
        return None if None in vs else c.op == 'and'
    if c.op == 'phi':
        v = truth(c.args[0], facts)
        if v is not None:
            return truth(c.args[1] if v else c.args[2], facts)
        a = True if c.args[1] is c.args[0] else truth(c.args[1], facts)
        b = False if c.args[2] is c.args[0] else truth(c.args[2], facts)
        return a if a == b else None
    if c.op == 'cmp' and c.args[0] in ('is', 'is not') and is_const(c.args[2], None):
        v = facts.get(c.args[1])
        if v in ('none', 'given'):
            return (v == 'none') == (c.args[0] == 'is')
    return None


def steps(n, facts, k=4):
    for _ in range(k):
        m = under(n, facts)
        if m is n:
            return n
        n = m
    return n


def resolved(n, facts, memo=None):
    """n with all joins over the facts resolved"""
    if n is None:
        return NONE
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        y = x
        if x.op == 'phi':
            v = truth(sub(x.args[0]), facts)
            if v is None:
                a, b = go(x.args[1]), go(x.args[2])
                y = a if a is b else mk('phi', go(x.args[0]), a, b)
            else:
                y = go(x.args[1 if v else 2])
        else:
            y = sub(x)
        memo[x] = y
        return y

    def sub(x):
        return rebuild(x, go) if any(True for _ in children(x)) else x
    return go(n)


def norm(r):
    """with common factors of a one-term denominator cancelled"""
    if not r.p:
        return num(0)
    if len(r.q) == 1:
        (m, c), = r.q.items()
        m = list(m)
        for a in list(m):
            if all(a in k for k in r.p):
                def drop(k):
                    k = list(k)
                    k.remove(a)
                    return tuple(k)
                r = Rat({drop(k): v for k, v in r.p.items()}, None)
                m.remove(a)
        return Rat({k: v / c for k, v in r.p.items()}, {tuple(m): Fraction(1)})
    k = next(iter(r.q))
    if k in r.p:
        c = r.p[k] / r.q[k]
        if {m: v * c for m, v in r.q.items()} == r.p:
            return num(c)
    return r


class Bounds(object):
    """normal forms of integer expressions, with the rounding of real ones kept"""
    def __init__(self):
        self.rounds = []

    def inverse(self, n):
        """the key whose different values n numbers"""
        n = strip(n)
        if n.op == 'sub' and is_const(n.args[1]) and callname(strip(n.args[0])) == 'numpy.unique':
            u = strip(n.args[0])
            kw = dict(u.args[2])
            outs = ['u'] + [k for k in ('return_index', 'return_inverse', 'return_counts') if k in kw and not is_const(kw[k], False)]
            k = n.args[1].args[0]
            if isinstance(k, int) and -len(outs) <= k < len(outs) and outs[k] == 'return_inverse':
                return strip(u.args[1][0])
        return None

    def uniq(self, n):
        n = strip(n)
        if n.op == 'sub' and is_const(n.args[1], 0):
            n = strip(n.args[0])
        elif callname(n) == 'numpy.unique' and any(k.startswith('return_') and not is_const(v, False) for k, v in n.args[2]):
            return None
        if callname(n) == 'numpy.unique':
            return strip(n.args[1][0])
        if callname(n) in ('builtins.set', 'builtins.sorted') and n.args[1]:
            return self.uniq(n.args[1][0]) if callname(n) == 'builtins.sorted' else strip(n.args[1][0])
        return None

    def isint(self, r):
        return r.q == {(): 1} and all(c.denominator == 1 for c in r.p.values()) and all(self.intatom(a) for a in r.atoms())

    def intatom(self, a):
        if a.op == 'dim':
            return True
        if a.op[0] == '#':
            return a.op in ('#len', '#groups', '#round')
        return a.op in ('ivar', 'param') or a.op == 'attr' and a.args[0].op in ('param', 'self') or self.ints is not None and a in self.ints

    ints = None

    def val(self, n, env):
        def f(x):
            if x in env:
                return env[x]
            if x.op == 'alloc':
                return rat(x.args[1], f)
            if x.op == 'dim' and (x.args[1] == 0 or is_const(x.args[1], 0)) or callname(x) in ('builtins.len', 'numpy.size') and len(x.args[1]) == 1:
                y = x.args[0] if x.op == 'dim' else x.args[1][0]
                k = self.uniq(y)
                if k is not None:
                    return atom(mk('#groups', k))
                k = self.inverse(y)
                return self.length(k if k is not None else y, env)
            if callname(x) in ('numpy.max', 'numpy.amax', 'builtins.max') and x.args[1]:
                k = self.inverse(x.args[1][0])
                if k is not None:
                    return atom(mk('#groups', k)) - num(1)
                y = strip(x.args[1][0])
                if callname(y) == 'numpy.zeros':
                    return num(0)
            if x.op == 'bin' and x.args[0] == '//':
                return self.rounded('floor', mk('bin', '/', x.args[1], x.args[2]), rat(x.args[1], f) / rat(x.args[2], f), env)
            c = callname(x)
            if c in ('numpy.floor', 'math.floor', 'builtins.int', 'numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round', 'numpy.ceil', 'math.ceil',
                     'numpy.trunc', 'math.trunc', 'numpy.int', 'numpy.int64', 'numpy.int32', 'numpy.fix') and len(x.args[1]) >= 1:
                if len(x.args[1]) > 1 or x.args[2]:
                    return None
                kind = 'ceil' if 'ceil' in c else 'round' if 'r' in c.split('.')[1][0] or 'around' in c else 'floor'
                return self.rounded(kind, x.args[1][0], rat(x.args[1][0], f), env)
            if c in ('builtins.float', 'numpy.float64', 'numpy.float') and len(x.args[1]) == 1:
                return rat(x.args[1][0], f)
            if x.op == 'sub':
                return self.item(x, rat(x.args[1], f) if x.args[1].op not in ('slice', 'tuple') else None, env)
            return None
        return norm(rat(n, f))

    def length(self, n, env):
        n = strip(n)
        if n.op in ('list', 'tuple') and not any(x.op == 'star' for x in n.args):
            return num(len(n.args))
        if callname(n) in ('numpy.cumsum', 'numpy.sort', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like') and n.args[1]:
            return self.length(n.args[1][0], env)
        if n.op == 'attr' and n.args[1] in ('segments',):
            pass
        return atom(mk('#len', n))

    def parts(self, n):
        n = strip(n)
        if callname(n) in ('numpy.hstack', 'numpy.concatenate', 'numpy.r_') and n.args[1]:
            t = strip(n.args[1][0])
            if t.op in ('tuple', 'list'):
                return list(t.args)
        if n.op == 'sub' and n.args[0].op == 'ext' and n.args[0].args[0] == 'numpy.r_' and n.args[1].op == 'tuple':
            return list(n.args[1].args)
        if n.op in ('list', 'tuple'):
            return [n]
        return None

    def item(self, x, ix, env):
        if ix is None:
            return None
        ps = self.parts(x.args[0])
        if ps:
            def elem(p, k):
                p = strip(p)
                if p.op in ('list', 'tuple') and -len(p.args) <= k < len(p.args):
                    return self.val(p.args[k], env)
                if not p.op in ('list', 'tuple') and is_const(p):
                    return self.val(p, env)
            tot = num(0)
            for p in ps:
                tot = tot + (num(1) if is_const(strip(p)) else self.length(p, env))
            v = None
            if ix.const() == 0:
                v = elem(ps[0], 0)
            elif ix.const() == -1 or same(ix, tot - num(1)):
                v = elem(ps[-1], -1)
            elif (ix - tot).const() is not None and (ix - tot).const() >= 0:
                raise Bad('%s is read past its end' % show(x.args[0], 4))
            if v is not None:
                return v
        return self.tagged('item', x.args[0], ix)

    def tagged(self, *k):
        for j, (k2, r2) in enumerate(self.rounds):
            if k2 == k[:-1] and same(r2, k[-1]):
                return atom(mk('#item' if k[0] == 'item' else '#round', j))
        self.rounds.append((k[:-1], k[-1]))
        return atom(mk('#item' if k[0] == 'item' else '#round', len(self.rounds) - 1))

    def rounded(self, kind, n, r, env):
        r = norm(r)
        if self.isint(r):
            if kind != 'round' and not self.exact(n, env):
                raise Bad('%s of %s: the product of a rounded quotient may be just below the whole number it stands for, which loses one' % (kind, show(n, 5)))
            return r
        return self.tagged(kind, r)

    def exact(self, n, env):
        """floating-point evaluation of n is exact when its value is whole"""
        n = strip(n)
        if callname(n) in ('builtins.float', 'builtins.int', 'numpy.floor', 'numpy.round', 'numpy.ceil', 'numpy.rint') and n.args[1]:
            return True if 'float' not in callname(n) else self.exact(n.args[1][0], env)
        if n.op in ('bin', 'iop') and n.args[0] in '+-*':
            return all(self.exact(x, env) and not self.frac(x, env) for x in n.args[1:3])
        if n.op in ('bin', 'iop') and n.args[0] == '/':
            return all(not self.frac(x, env) for x in n.args[1:3])
        return True

    def frac(self, n, env):
        try:
            return not self.isint(self.val(n, env))
        except Bad:
            return True


def interval(c):
    """(x, lo, hi) with lo <= x < hi, from a condition; bounds shifted to this form"""
    cs = []

    def flat(x):
        x = strip(x)
        if x.op == 'and':
            for y in x.args[0]:
                flat(y)
        elif x.op in ('bin', 'iop') and x.args[0] in ('&', '*'):
            flat(x.args[1])
            flat(x.args[2])
        elif callname(x) in ('numpy.logical_and', 'numpy.bitwise_and') and len(x.args[1]) == 2:
            flat(x.args[1][0])
            flat(x.args[1][1])
        else:
            cs.append(x)
    flat(c)
    rest = [x for x in cs if not (x.op == 'cmp' and x.args[0] in ('<', '<=', '>', '>='))]
    cs = [x for x in cs if x not in rest]
    if len(cs) != 2:
        return None
    out = {}
    a = []
    for x in cs:
        op, l, r = x.args[:3]
        if op in ('>', '>='):
            op, l, r = {'>': '<', '>=': '<='}[op], r, l
        a.append((op, l, r))
    (o1, l1, r1), (o2, l2, r2) = a
    one = const(1)
    if r1 is l2 or strip(r1) is strip(l2):
        return r1, mk('bin', '+', l1, one) if o1 == '<' else l1, r2 if o2 == '<' else mk('bin', '+', r2, one), rest
    if r2 is l1 or strip(r2) is strip(l1):
        return r2, mk('bin', '+', l2, one) if o2 == '<' else l2, r1 if o1 == '<' else mk('bin', '+', r1, one), rest
    return None


def rangeof(n):
    """bounds of range/arange"""
    n = strip(n)
    while callname(n) == 'builtins.enumerate' and len(n.args[1]) == 1:
        n = strip(n.args[1][0])
    if callname(n) in ('builtins.range', 'numpy.arange') and 1 <= len(n.args[1]) <= 3:
        a = list(n.args[1])
        if len(a) == 3 and not is_const(a[2], 1):
            return None
        return (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
    return None


class Part(object):
    """the parts of a split are consecutive"""
    def __init__(self, rep, q, where):
        self.rep, self.q, self.where = rep, q, where

    def ok(self, what):
        self.rep.discharged('split', self.q, what)

    def bad(self, m):
        self.rep.violation('split', self.q, m, self.where)

    def undec(self, m):
        self.rep.undec('split', self.q, m)

    def tile(self, lo, hi, j, first, last, N, B):
        """lo, hi: nodes; j: variable; first, last: its extreme values; N: number of elements (Rat)"""
        def at(n, v):
            return B.val(n, {j: v})
        J = atom(j)
        try:
            r = at(lo, first)
            if r.const() is None and any(a.op in ('#round', '#item') for a in r.atoms()):
                self.undec('first bound %r' % r)
            elif r.const() is None:
                self.bad('the first part starts at %s' % nice(r))
            elif r.const() != 0:
                self.bad('the first part starts at %s: the elements before are in no part' % r.const() if r.const() > 0 else 'the first part starts at %s' % r.const())
            else:
                self.ok('the first part starts at 0')
            a, b = at(hi, J), at(lo, J + num(1))
            if same(a, b):
                self.ok('a part ends where the next one starts')
            else:
                d = a - b
                k = d.const()
                if k is not None:
                    self.bad('each part %s %s elements of the next one' % ('repeats' if k > 0 else 'stops short of', abs(k)))
                else:
                    self.bad('a part ends at %r, but the next one starts at %r' % (show(hi, 7), show(subst(lo, {j: mk('bin', '+', j, const(1))}), 7)))
            r = at(hi, last)
            if same(r, N):
                self.ok('the last part ends with the last element')
            elif (r - N).const() is not None:
                self.bad('the last part ends %s elements %s the last one' % (abs((r - N).const()), 'before' if (r - N).const() < 0 else 'after'))
            else:
                self.last(r, N, B)
        except Bad as e:
            self.bad(str(e))
        except ZeroDivisionError:
            self.undec('bounds')

    def share(self, lo, j, want, B):
        """the bounds, before rounding, are those of the proportions asked for"""
        n = lo
        while callname(n) in ('builtins.int', 'numpy.floor', 'numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round', 'math.floor', 'numpy.int', 'numpy.int64') and n.args[1]:
            n = n.args[1][0]
        if n.op == 'bin' and n.args[0] == '//':
            n = mk('bin', '/', n.args[1], n.args[2])
        try:
            r = B.val(n, {j: atom(j)})
        except Bad as e:
            return
        if same(r, want):
            self.ok('parts have the size asked for')
        elif r.const() is None and not any(a.op == '#round' for a in r.atoms()) and {a.op for a in r.atoms()} - {'#item'} == {a.op for a in want.atoms()} - {'#item'}:
            self.bad('the part starts at %s of the list' % show(lo, 7))
        else:
            self.undec('size of the parts: %r' % r)

    def last(self, r, N, B):
        c = differ(r, N, B)
        if c:
            self.bad('the last part ends at %s of %s elements when %s' % c)
        elif any(a.op in ('#round', '#item') for a in r.atoms()):
            self.undec('the last part ends at %r' % r)
        else:
            self.bad('the last part ends at %s, not at %s' % (nice(r), nice(N)))


def differ(r, N, B):
    """sizes for which two bounds are different numbers"""
    base = set()

    def collect(x):
        for a in x.atoms():
            if a.op == '#round':
                collect(B.rounds[a.args[0]][1])
            else:
                base.add(a)
    collect(r)
    collect(N)
    if any(a.op == '#item' or a.op == 'ivar' for a in base) or len(base) > 3:
        return None
    base = sorted(base, key=lambda a: (not a.op.startswith('#'), repr(a)))
    for vals in itertools.product((7, 10, 3, 1), repeat=len(base)):
        env = dict(zip(base, vals))

        def value(x):
            def poly(t):
                out = Fraction(0)
                for m, c in t.items():
                    c = Fraction(c)
                    for a in m:
                        c *= at(a)
                    out += c
                return out
            return poly(x.p) / poly(x.q)

        def at(a):
            if a.op == '#round':
                (kind,), v = B.rounds[a.args[0]]
                v = value(v)
                return Fraction({'floor': math.floor, 'ceil': math.ceil, 'round': round}[kind](v))
            return Fraction(env[a])
        try:
            a, b = value(r), value(N)
        except (ZeroDivisionError, KeyError):
            continue
        if a != b:
            return a, b, ', '.join('%s is %d' % (nice(atom(k)), v) for k, v in env.items())
    return None


def nice(r):
    def s(a):
        if a.op in ('#len', '#groups'):
            return {'#len': 'the number of elements of %s', '#groups': 'the number of different values of %s'}[a.op] % show(a.args[0], 3)
        return show(a, 3)
    if len(r.p) == 1 and r.q == {(): 1}:
        (m, c), = r.p.items()
        if len(m) == 1 and c == 1:
            return s(m[0])
    return repr(r)


def where(f):
    return '%s:%d' % (f.mod.rel, f.lineno)


def split_functions(p, rep):
    m = p.mods.get('hyperion.utils.list_utils')
    n = 0
    for name, grouped in (('split_list', False), ('split_list_group_by_key', True)):
        f = m and m.funcs.get(name)
        if not f:
            continue
        n += 1
        rep.unit(f.fq)
        cases = [('none', 'given')[k] for k in (0, 1)] if grouped else [None]
        for case in cases:
            I = Interp(p)
            r = I.run(f)
            env = r.env0
            q = name if case is None else '%s(key %s)' % (name, 'missing' if case == 'none' else 'given')
            P = Part(rep, q, where(f))
            a, idx, nump = env['a'], env['idx'], env['num_parts']
            facts = {env['key']: case} if case else {}
            ret = steps(r.ret, facts)
            if ret.op != 'tuple' or len(ret.args) != 2:
                P.undec('returns %s' % show(ret, 4))
                continue
            B = Bounds()
            items, loc = ret.args
            it = strip(items)
            if it.op == 'sub' and strip(it.args[0]) is a and strip(it.args[1]) is strip(loc):
                P.ok('the elements returned are those at the positions returned')
            elif it.op == 'sub' and strip(it.args[0]) is a and it.args[1].op == 'slice':
                rr = rangeof(loc)
                if rr is not None and all(same(B.val(x, {}), B.val(y, {})) for x, y in zip(rr, it.args[1].args[:2])):
                    P.ok('the elements returned are those at the positions returned')
                else:
                    P.undec('elements %s' % show(items, 5))
            elif it.op == 'sub' and strip(it.args[0]) is not a:
                P.bad('the elements returned are taken from %s' % show(it.args[0], 4))
            else:
                P.undec('elements %s' % show(items, 5))
            try:
                if not grouped:
                    rr = rangeof(loc)
                    if rr is None:
                        P.undec('positions %s' % show(loc, 5))
                        continue
                    P.tile(rr[0], rr[1], idx, num(1), atom(nump), atom(mk('#len', a)), B)
                    P.share(rr[0], idx, (atom(idx) - num(1)) * atom(mk('#len', a)) / atom(nump), B)
                    continue
                key = a if case == 'none' else env['key']
                P.found = False
                grouped_positions(P, I, loc, facts, key, idx, nump, B)
            except Unk as e:
                P.undec(str(e))
            except Bad as e:
                P.bad(str(e))
    return n


def nonzero(n):
    """condition whose true positions n lists"""
    n = strip(n)
    if n.op == 'sub' and is_const(n.args[1], 0) and callname(strip(n.args[0])) in ('numpy.nonzero', 'numpy.where') and len(strip(n.args[0]).args[1]) == 1:
        return strip(n.args[0]).args[1][0]
    if callname(n) == 'numpy.flatnonzero':
        return n.args[1][0]
    return None


def grouped_positions(P, I, loc, facts, key, idx, nump, B):
    N = atom(mk('#groups', key))

    def groups(x):
        k = B.inverse(x)
        if k is None and x.op == 'sub' and callname(x.args[0]) == 'numpy.unique' and dict(x.args[0].args[2]).get('return_inverse', mk('const', False)) is mk('const', False):
            raise Bad('the elements have no group number')
        if k is None:
            raise Unk('group numbers %s' % show(x, 4))
        if k is not key:
            P.bad('elements are grouped by %s, not by %s' % (show(k, 4), show(key, 4)))
        else:
            P.ok('elements are grouped by the key')
    c = nonzero(loc)
    if c is not None:
        iv = interval(c)
        if iv is None or iv[3]:
            raise Unk('positions %s' % show(loc, 5))
        groups(iv[0])
        P.tile(iv[1], iv[2], idx, num(1), atom(nump), N, B)
        P.share(iv[1], idx, (atom(idx) - num(1)) * N / atom(nump), B)
        return
    # positions collected group by group
    w = loc
    while w.op in ('sub', 'alloc') and (w.op == 'alloc' or w.args[1].op == 'slice'):
        if w.op == 'sub' and is_const(w.args[1].args[1]) and not is_const(w.args[1].args[1], None) and is_const(w.args[1].args[0], None):
            raise Bad('every part has %s elements' % show(w.args[1].args[1]))
        w = w.args[1] if w.op == 'alloc' else w.args[0]
    if callname(w) in ('numpy.empty', 'numpy.zeros'):
        raise Bad('the positions of the part are never written')
    blocks = set()
    for x in walk(loc):
        if x.op == 'lfin':
            L = I.loops.get(x.args[0])
            for k, b in (L.back.items() if L is not None else ()):
                b = steps(b, facts)
                if k is x.args[2] and b.op == 'store' and b.args[1].op == 'slice':
                    lo, hi = b.args[1].args[:2]
                    v = b.args[2]
                    blocks.add((v, L.ivar))
                    try:
                        ln = B.val(hi, {}) - B.val(lo, {})
                        n = B.val(mk('dim', v, 0), {})
                    except Exception:
                        raise Unk('block')
                    if not same(ln, n):
                        if same(num(0) - ln, n):
                            raise Bad('positions are written backwards from %s' % show(lo, 3))
                        if (ln - n).const() is not None or ln.const() is not None:
                            raise Bad('%s positions are written for the ones of a group' % (ln.const() if ln.const() is not None else 'too many or too few'))
                        raise Unk('a block of %s' % show(hi, 5))
                    if is_const(lo):
                        raise Bad('every group is placed at %s' % show(lo))
                    adv = [steps(y, facts) for z, y in L.back.items() if z is lo]
                    if not adv or not same(B.val(adv[0], {}) - B.val(lo, {}), n):
                        P.bad('the positions of one group are not placed just after those of the one before')
                    else:
                        P.ok('groups are placed one after the other')
                    ini = L.entry.get(lo)
                    if ini is not None and not is_const(ini, 0):
                        P.bad('the first group is placed at %s' % show(ini, 4))
        elif x.op == 'append' or x.op == 'lmap':
            el = x.args[1]
            for y in walk(x):
                if y.op == 'ivar':
                    blocks.add((el, y))
    blocks = [(v, j) for v, j in blocks if nonzero(v) is not None and j.args and rangeof(j.args[0]) is not None]
    if len(blocks) != 1:
        raise Unk('positions %s' % show(loc, 5))
    v, j = blocks[0]
    c = strip(nonzero(v))
    if c.op == 'cmp' and c.args[0] == '!=' and 'ivar' in (c.args[1].op, c.args[2].op):
        raise Bad('the positions of a part are those of the other groups')
    if c.op != 'cmp' or c.args[0] != '==' or 'ivar' not in (c.args[1].op, c.args[2].op):
        raise Unk('group %s' % show(c, 5))
    j = c.args[1] if c.args[1].op == 'ivar' else c.args[2]
    if rangeof(j.args[0]) is None:
        raise Unk('group %s' % show(j, 5))
    groups(c.args[1] if c.args[2] is j else c.args[2])
    lo, hi = rangeof(j.args[0])
    P.tile(steps(lo, facts), steps(hi, facts), idx, num(1), atom(nump), N, B)
    P.share(steps(lo, facts), idx, (atom(idx) - num(1)) * N / atom(nump), B)
    if strip(loc).op == 'sub' and strip(loc).args[1].op == 'slice':
        e = strip(loc).args[1].args[1]
        if not (is_const(e, None) or e.op == 'lsum' or e.op == 'lfin'):
            raise Unk('the list is cut at %s' % show(e, 4))


# ---- folds and parts ----------------------------------------------------------------------------------------------
CREATE = [('hyperion.utils.fold_list:FoldList', 'fold', 'num_folds'), ('hyperion.utils.train_val_eval_list:TrainValEvalList', 'part', 'part_proportions')]


def create_parts(p, rep):
    n = 0
    for fq, attr, count in CREATE:
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        f = p.find_method(c, 'create')
        if not f:
            continue
        n += 1
        rep.unit(f.fq)
        I = Interp(p)
        r = I.run(f, c)
        env = r.env0
        obj = r.ret
        for shuffle in (False, True):
            for bal in ('none', 'given'):
                for grp in ('none', 'given'):
                    for msk in ('none', 'given'):
                        facts = {env['shuffle']: shuffle, env['balance_by_key']: bal, env['group_by_key']: grp, env['mask']: msk}
                        q = '%s.create(%s)' % (c.name, ', '.join(['shuffled'] * shuffle + ['balanced'] * (bal == 'given') + ['grouped'] * (grp == 'given') + ['masked'] * (msk == 'given')))
                        P = Part(rep, q, where(f))
                        try:
                            if obj.op != 'new':
                                raise Unk('returns %s' % show(obj, 4))
                            created(p, P, I, r, obj, c, attr, count, env, facts)
                        except Unk as e:
                            P.undec(str(e))
                        except Bad as e:
                            P.bad(str(e))
    return n


def created(p, P, I, r, obj, c, attr, count, env, facts):
    B = Bounds()
    val = r.state.heap.get((obj, attr))
    key = r.state.heap.get((obj, 'key'))
    mask = r.state.heap.get((obj, 'mask'))
    if val is None or key is None:
        raise Bad('no %s list is kept' % attr)
    K = env['segment_key']
    if strip(steps(key, facts)) is not K:
        P.bad('the keys kept are %s' % show(steps(key, facts), 4))
    if mask is not None and facts[env['mask']] == 'given' and strip(steps(mask, facts)) is not env['mask']:
        P.bad('the mask kept is %s' % show(steps(mask, facts), 4))
    elif mask is not None:
        P.ok('keys and mask are kept')
    # the place where a part number is assigned
    todo, seen, fills = [steps(val, facts)], set(), []
    while todo:
        n = todo.pop()
        for x in walk(n):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'lfin' and x.args[0] in I.loops:
                L = I.loops[x.args[0]]
                for k, b in L.back.items():
                    if k is x.args[2]:
                        todo.append(steps(b, facts))
            if x.op == 'lfill' and x.args[1] is strip(x.args[3]):
                fills.append((x.args[1], x.args[2], x.args[3], x.args[4], x.args[0]))
            elif x.op == 'lfill' and x.args[1] in set(walk(x.args[3])) and x.args[1].op == 'ivar' and x.args[1] in set(walk(x.args[2])) and x.args[0].op in ('lphi', 'alloc', 'un'):
                fills.append((x.args[1], x.args[2], x.args[3], x.args[4], x.args[0]))
    fills = [(j, steps(ix, facts), v, cond, base) for j, ix, v, cond, base in fills if strip(steps(ix, facts)).op in ('sub', 'bin', 'and', 'call') and B_shuffled(v) is None]
    if not fills and not any(x.op in ('lfin', 'lfill', 'store', 'lmap') for x in seen):
        raise Bad('no element gets a part')
    if len(fills) != 1:
        raise Unk('%d places where a part is assigned' % len(fills))
    j, ix, v, cond, base = fills[0]
    if v is not j:
        d = B.val(v, {}) - atom(j)
        if d.const() is not None:
            P.bad('part %s is given the number %s' % ('j', 'j%+d' % d.const()))
        else:
            raise Unk('part number %s' % show(v, 4))
    else:
        P.ok('the number assigned is that of the part')
    if not is_const(cond, True):
        raise Unk('parts are assigned only if %s' % show(cond, 4))
    rr = rangeof(j.args[0])
    if rr is None:
        raise Unk('parts %s' % show(j.args[0], 4))
    j0, j1 = B.val(rr[0], {}), B.val(rr[1], {})
    want = atom(env[count]) if count.startswith('num') else atom(mk('#len', env[count])) + num(1)
    if not same(j0, num(0)) or not same(j1, want):
        if (j1 - want).const() is not None and j0.const() is not None:
            P.bad('parts %s to %s are assigned' % (j0.const(), 'the last%+d' % (j1 - want).const()))
        else:
            raise Unk('parts %s to %s' % (nice(j0), nice(j1)))
    else:
        P.ok('every part is assigned')
    # elements: those of one class whose group number is inside the bounds
    ix = strip(ix)
    cls_rows = None
    if nonzero(ix) is not None:
        ix = strip(nonzero(ix))
    if ix.op == 'sub' and nonzero(ix.args[0]) is not None:
        cls_rows, sel = strip(ix.args[0]), ix.args[1]
        if nonzero(sel) is not None:
            sel = nonzero(sel)
        iv = interval(sel)
    else:
        iv = interval(ix)
    if iv is None:
        raise Unk('elements %s' % show(ix, 5))
    x, lo, hi, rest = iv
    x = strip(x)
    U, perm = x, None
    if x.op == 'lfill':
        pb, k, pc, pv, pcond = x.args
        pc, pv = strip(pc), strip(pv)
        if pc.op == 'cmp' and pc.args[0] == '==' and k in (pc.args[1], pc.args[2]) and pv.op == 'sub' and pv.args[1] is k and is_const(pcond, True):
            U, perm = strip(pc.args[1] if pc.args[2] is k else pc.args[2]), pv.args[0]
            kr = rangeof(k.args[0])
            if kr is None:
                raise Unk('shuffled groups')
            g = B.inverse(U)
            if g is None:
                raise Unk('group numbers %s' % show(U, 4))
            k0, k1 = B.val(kr[0], {}), B.val(kr[1], {})
            if k0.const() not in (0, None) or (k1 - atom(mk('#groups', g))).const() not in (0, None):
                P.bad('the groups renumbered when shuffling are %s to %s: the others keep the number 0' % (nice(k0), nice(k1)))
        elif B_shuffled(pv) is not None:
            raise Unk('shuffled groups %s' % show(x, 5))
    elif x.op == 'sub' and B_shuffled(x.args[0]) is not None:
        U, perm = strip(x.args[1]), x.args[0]
    if perm is not None:
        a = B_shuffled(perm)
        a = rangeof(a) if a is not None else None
        g = B.inverse(U)
        if a is None or g is None:
            raise Unk('shuffled groups %s' % show(perm, 5))
        if not is_const(a[0], 0) or not same(B.val(a[1], {}), atom(mk('#groups', g))):
            P.bad('the numbers given to the shuffled groups are not a permutation of them: %s' % show(perm, 5))
        else:
            P.ok('shuffling permutes the group numbers')
    elif x.op == 'lfill' and pc.op == 'cmp' and pc.args[0] == '!=' and k in pc.args[1:3]:
        raise Bad('shuffling gives the number of a group to the elements of the others')
    elif facts[env['shuffle']] and callname(x) in ('numpy.zeros', 'numpy.zeros_like'):
        raise Bad('shuffled groups all have the number 0')
    elif facts[env['shuffle']]:
        raise Unk('shuffled groups %s' % show(x, 5))
    g = B.inverse(U)
    if g is None and U.op == 'sub' and strip(U.args[0]) in (K, env['group_by_key']):
        raise Bad('the keys of the groups, not their numbers, are compared with the bounds of the part')
    if g is None:
        raise Unk('group numbers %s' % show(U, 4))
    G = K if facts[env['group_by_key']] == 'none' else env['group_by_key']
    if cls_rows is not None:
        if g.op == 'sub' and strip(g.args[1]) is cls_rows:
            gk = strip(g.args[0])
        else:
            raise Bad('the rows of a class are %s, but group numbers are those of %s' % (show(cls_rows, 4), show(g, 4)))
    else:
        gk = g
    if gk is not G:
        P.bad('elements are grouped by %s, not by %s' % (show(gk, 4), show(G, 4)))
    else:
        P.ok('the groups are those of the key')
    P.tile(lo, hi, j, j0, j1 - num(1), atom(mk('#groups', g)), B)
    if count.startswith('num'):
        P.share(lo, j, atom(j) * atom(mk('#groups', g)) / atom(env[count]), B)
    else:
        proportions(P, lo, j, env[count], atom(mk('#groups', g)), B)
    # classes
    if cls_rows is not None:
        cc = strip(nonzero(cls_rows))
        rest = [cc]
    rest2 = []
    for y in rest:
        if y.op == 'and':
            rest2 += [strip(z) for z in y.args[0]]
        elif y.op == 'bin' and y.args[0] in '&*':
            rest2 += [strip(y.args[1]), strip(y.args[2])]
        else:
            rest2.append(y)
    rest = [y for y in rest2 if mtruth(y, env['mask']) is None]
    extra = [mtruth(y, env['mask']) for y in rest2 if y not in rest]
    if len(rest) == 1 and rest[0].op == 'cmp' and rest[0].args[0] == '!=' and 'ivar' in (rest[0].args[1].op, rest[0].args[2].op):
        raise Bad('the elements divided are those of the other classes')
    eqs = [y for y in rest if y.op == 'cmp' and y.args[0] == '==']
    if len(eqs) != 1 or len(rest) != 1:
        raise Unk('class of the elements: %s' % ', '.join(show(y, 4) for y in rest))
    b, i = eqs[0].args[1:3]
    if i.op != 'ivar':
        b, i = i, b
    if i.op != 'ivar' or rangeof(i.args[0]) is None:
        raise Unk('classes %s' % show(i, 4))
    b = strip(b)
    lab = b
    if facts[env['mask']] == 'given':
        if b.op == 'store' and is_const(b.args[2]) and isinstance(b.args[2].args[0], (int, float)):
            m = mtruth(b.args[1], env['mask'])
            if m is None:
                raise Unk('masked elements %s' % show(b.args[1], 4))
            if b.args[2].args[0] >= 0:
                P.bad('elements outside of the mask get the class %s' % b.args[2].args[0])
            elif m != (True, False):
                P.bad('the elements %s get no part' % ('inside the mask' if m == (False, True) else 'selected by %s' % show(b.args[1], 3)))
            else:
                P.ok('elements outside of the mask get no part')
            lab = strip(b.args[0])
        elif extra:
            for m in extra:
                if m != (False, True):
                    P.bad('the elements inside the mask get no part' if m == (True, False) else 'mask')
                else:
                    P.ok('elements outside of the mask get no part')
        elif callname(b) == 'numpy.zeros' or B.inverse(b) is not None:
            P.bad('elements outside of the mask get a part')
        else:
            raise Unk('masked classes %s' % show(b, 4))
    if facts[env['balance_by_key']] == 'none':
        if B.inverse(lab) is env['balance_by_key']:
            raise Bad('classes are taken from balance_by_key, which is missing')
        if callname(lab) != 'numpy.zeros':
            raise Unk('classes %s' % show(lab, 4))
        ncls = num(1)
    else:
        k = B.inverse(lab)
        if k is not env['balance_by_key']:
            if k is None and callname(lab) == 'numpy.zeros':
                raise Bad('the classes of balance_by_key are not used')
            if k is None:
                raise Unk('classes %s' % show(lab, 4))
            P.bad('classes are those of %s' % show(k, 3))
        ncls = atom(mk('#groups', k))
    i0, i1 = rangeof(i.args[0])

    def mx(n):
        # the largest class, masked or not
        m = {}
        for y in walk(n):
            if callname(y) in ('numpy.max', 'numpy.amax', 'builtins.max') and y.args[1] and strip(y.args[1][0]) in (b, lab):
                m[y] = mk('bin', '-', mk('param', 'classes', '#'), const(1))
        return subst(n, m) if m else n
    C = mk('param', 'classes', '#')
    v0 = B.val(i0, {})
    v1 = B.val(mx(i1), {})
    d1, d2 = (v1 - atom(C)).const(), (v1 - ncls).const()
    if v0.const() != 0:
        P.bad('the classes before %s get no part' % nice(v0)) if v0.const() is not None else P.undec('first class %s' % nice(v0))
    elif d1 == 0 or d2 == 0:
        P.ok('every class is divided')
    elif d1 is not None or d2 is not None:
        k = d1 if d1 is not None else d2
        P.bad('the last %s classes get no part' % abs(k) if k < 0 else '%s classes too many are divided' % k)
    else:
        P.undec('number of classes %s' % nice(v1))


def proportions(P, lo, j, pp, N, B):
    n = lo
    while callname(n) in ('builtins.int', 'numpy.floor', 'numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round', 'math.floor') and n.args[1]:
        n = n.args[1][0]
    its = [x for x in walk(n) if x.op == 'sub' and x.args[1] is j]
    if len(its) != 1:
        P.undec('size of the parts %s' % show(n, 5))
        return
    ps = B.parts(its[0].args[0])
    X = mk('param', 'cum', '#')
    if not same(B.val(subst(n, {its[0]: X}), {}), atom(X) * N):
        P.bad('the part starts at %s of the list' % show(n, 6))
    elif ps is None or len(ps) != 3:
        P.undec('proportions %s' % show(its[0], 5))
    else:
        m = strip(ps[1])
        if callname(m) == 'numpy.cumsum' and strip(m.args[1][0]) is pp:
            P.ok('parts have the proportions asked for')
        elif m is pp:
            P.bad('the bounds of the parts are the proportions themselves, not their sums')
        else:
            P.undec('proportions %s' % show(m, 4))


def B_shuffled(n):
    """the list a node is a permutation of"""
    for x in walk(n):
        if x.op == 'shuffled':
            return x.args[0]
        if x.op in ('rnd',) and x.args[0] in ('permutation',) and x.args[2]:
            a = x.args[2][0] if isinstance(x.args[2], tuple) else None
            if a is not None:
                return a if rangeof(a) is not None else mk('call', mk('ext', 'builtins.range'), (a,), ())
    return None


def mtruth(n, mask):
    """value of a condition for elements (outside, inside) the mask"""
    n = strip(n)
    if n is mask:
        return (False, True)
    if n.op == 'cmp' and n.args[0] in ('==', '!=', 'is', 'is not') and is_const(n.args[2]) and n.args[2].args[0] in (True, False):
        v = mtruth(n.args[1], mask)
        flip = (n.args[0] in ('==', 'is')) != bool(n.args[2].args[0])
    elif n.op == 'not' or n.op == 'un' and n.args[0] == '~' or callname(n) in ('numpy.logical_not', 'numpy.invert'):
        v = mtruth(n.args[0] if n.op == 'not' else n.args[1] if n.op == 'un' else n.args[1][0], mask)
        flip = True
    elif nonzero(n) is not None:
        return mtruth(nonzero(n), mask)
    else:
        return None
    if v is None:
        return None
    return tuple(not y for y in v) if flip else v


# ---- getters of folds ---------------------------------------------------------------------------------------------
def table(n, atoms):
    """truth table of an element-wise condition: {values of atoms: value}"""
    n = strip(n)

    def ev(n, a):
        n = strip(n)
        for k, x in atoms.items():
            if n is x:
                return a[k]
        if n.op == 'cmp' and n.args[0] in ('==', '!='):
            for k, x in atoms.items():
                if x.op == 'cmp' and n.args[0] == '!=' and (n.args[1], n.args[2]) in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    return not a[k]
                if x.op == 'cmp' and n.args[0] == '==' and (n.args[2], n.args[1]) == (x.args[1], x.args[2]):
                    return a[k]
            if is_const(n.args[2]) and n.args[2].args[0] in (True, False):
                v = ev(n.args[1], a)
                return v == bool(n.args[2].args[0]) if n.args[0] == '==' else v != bool(n.args[2].args[0])
        if n.op == 'not':
            return not ev(n.args[0], a)
        if n.op == 'un' and n.args[0] in ('~',):
            return not ev(n.args[1], a)
        if n.op in ('and', 'or'):
            vs = [ev(x, a) for x in n.args[0]]
            return all(vs) if n.op == 'and' else any(vs)
        if n.op in ('bin', 'iop') and n.args[0] in '&|^*':
            l, r = ev(n.args[1], a), ev(n.args[2], a)
            return {'&': l and r, '*': l and r, '|': l or r, '^': l != r}[n.args[0]]
        c = callname(n)
        if c in ('numpy.logical_not', 'numpy.invert'):
            return not ev(n.args[1][0], a)
        if c in ('numpy.logical_and', 'numpy.logical_or', 'numpy.logical_xor', 'numpy.bitwise_and', 'numpy.bitwise_or') and len(n.args[1]) == 2:
            l, r = ev(n.args[1][0], a), ev(n.args[1][1], a)
            return l and r if 'and' in c else l != r if 'xor' in c else l or r
        if n.op == 'store' and is_const(n.args[2]) and isinstance(n.args[2].args[0], bool):
            return n.args[2].args[0] if ev(n.args[1], a) else ev(n.args[0], a)
        raise Unk('condition %s' % show(n, 4))
    import itertools
    return {vs: ev(n, dict(zip(atoms, vs))) for vs in itertools.product((False, True), repeat=len(atoms))}


def getters(p, rep):
    n = 0
    for fq, attr, names in (('hyperion.utils.fold_list:FoldList', 'fold', ('get_fold_idx', 'get_fold', '__getitem__')),
                            ('hyperion.utils.train_val_eval_list:TrainValEvalList', 'part', ('get_part_idx', 'get_part', '__getitem__'))):
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        for name in names:
            f = p.find_method(c, name)
            if not f:
                continue
            n += 1
            rep.unit(f.fq)
            I = Interp(p)
            S = mk('param', 'LIST', 'self')
            I.types[S] = c
            r = I.run(f, c, selfnode=S)
            arg = [v for k, v in r.env0.items() if v is not S and v.op == 'param'][0]
            A, M, K = mk('attr', S, attr), mk('attr', S, 'mask'), mk('attr', S, 'key')
            for msk in ('none', 'given'):
                for named in ((False, True) if attr == 'part' else (False,)):
                    q = '%s.%s(%s)' % (c.name, name, ', '.join(['masked'] * (msk == 'given') + ['by name'] * named))
                    P = Part(rep, q, where(f))
                    facts = {M: msk}
                    for x in walk(r.ret):
                        if x.op == 'cmp' and x.args[0] == 'isinstance' and x.args[1] is arg:
                            facts[x] = named
                    ret = steps(r.ret, facts)
                    try:
                        getter(P, ret, S, A, M, K, arg, attr, name, msk, named)
                    except Unk as e:
                        P.undec(str(e))
    return n


def getter(P, ret, S, A, M, K, arg, attr, name, msk, named):
    outs = list(ret.args) if ret.op == 'tuple' else [ret]
    want = ['train', 'test'] if attr == 'fold' else ['part']
    if len(outs) != len(want):
        raise Unk('returns %s' % show(ret, 4))
    eqs = {x for o in outs for x in walk(o) if x.op == 'cmp' and x.args[0] in ('==', '!=') and A in (x.args[1], x.args[2])}
    sides = {(x.args[2] if x.args[1] is A else x.args[1]) for x in eqs}
    if not eqs:
        raise Unk('no comparison with %s' % show(A))
    if len(sides) > 1:
        P.bad('%s is compared with %s' % (attr, ' and '.join(sorted(show(x, 4) for x in sides))))
        return
    s = sides.pop()
    if not named and s is not arg:
        P.bad('%s is compared with %s, not with %s' % (attr, show(s, 4), show(arg)))
        return
    if named and arg not in set(walk(s)):
        P.bad('the name of the part is not used')
        return
    if named and s is arg:
        P.bad('part numbers are compared with the name of the part')
        return
    if named:
        byname(P, s, S)
    atoms = {'in': mk('cmp', '==', A, s)}
    if msk == 'given':
        atoms['mask'] = M
    for o, w in zip(outs, want):
        o = strip(o)
        if name in ('get_fold', 'get_part', '__getitem__'):
            if o.op != 'sub':
                raise Unk('%s keys are %s' % (w, show(o, 4)))
            if strip(o.args[0]) is not K:
                P.bad('%s keys are taken from %s' % (w, show(o.args[0], 3)))
                continue
            o = strip(o.args[1])
            if nonzero(o) is not None:
                o = nonzero(o)
        t = table(o, atoms)
        ok = True
        for vs, v in t.items():
            a = dict(zip(atoms, vs))
            exp = (a['in'] != (w == 'train')) and a.get('mask', True)
            if bool(v) != exp:
                ok = False
                P.bad('%s %s elements %s the %s%s' % (w, 'contains' if v else 'misses', 'inside' if a['in'] else 'outside', attr,
                                                       '' if 'mask' not in a else ', %s the mask' % ('inside' if a['mask'] else 'outside')))
        if ok:
            P.ok('%s elements' % w)


def byname(P, s, S):
    names = mk('attr', S, 'part_names')
    made = [x for x in walk(s) if x.op in ('dictcomp', 'lfill')]
    if s.op == 'sub' and not made and any(x.op == 'attr' and x.args == (S, '_part2num') for x in walk(s.args[0])):
        P.bad('the numbers of the parts are looked up in a table that was not made')
        return
    for d in made:
        if d.op == 'lfill':
            iv, k, v, cond = d.args[1:5]
        else:
            lm = d.args[0]
            if lm.op != 'lmap' or lm.args[1].op != 'tuple':
                P.undec('part names %s' % show(d, 5))
                continue
            iv, (k, v) = lm.args[0], lm.args[1].args
            cond = lm.args[2]
        if not is_const(cond, True):
            P.undec('part names %s' % show(d, 5))
            continue
        if k.op == 'sub' and strip(k.args[0]) is names and k.args[1] is iv and v is iv:
            P.ok('the number of a part is the position of its name')
        elif k is iv or k.op == 'sub' and strip(k.args[0]) is names and (Bounds().val(v, {}) - atom(iv)).const() not in (None, 0):
            P.bad('the table of part numbers gives %s for %s' % (show(v, 4), show(k, 4)))
        else:
            P.undec('part names %s' % show(d, 5))
    if not made:
        P.undec('part named %s' % show(s, 5))


# ---- split methods of the lists -----------------------------------------------------------------------------------
FIELDS = [('hyperion.utils.trial_ndx:TrialNdx', {'model_set': ('model_idx', 'num_model_parts'), 'seg_set': ('seg_idx', 'num_seg_parts')}),
          ('hyperion.utils.trial_key:TrialKey', {'model_set': ('model_idx', 'num_model_parts'), 'seg_set': ('seg_idx', 'num_seg_parts')}),
          ('hyperion.utils.trial_scores:TrialScores', {'model_set': ('model_idx', 'num_model_parts'), 'seg_set': ('seg_idx', 'num_seg_parts')}),
          ('hyperion.utils.scp_list:SCPList', {'key': ('idx', 'num_parts'), 'file_path': ('idx', 'num_parts'), 'offset': ('idx', 'num_parts'), 'range_spec': ('idx', 'num_parts')})]
TABLES = ['hyperion.utils.utt2info:Utt2Info', 'hyperion.utils.segment_list:SegmentList', 'hyperion.utils.rttm:RTTM', 'hyperion.utils.ext_segment_list:ExtSegmentList']
SPLIT = ('hyperion.utils.list_utils:split_list', 'hyperion.utils.list_utils:split_list_group_by_key')


def pcall(n):
    """call of a split function: (name, arguments)"""
    n = strip(n)
    if n.op == 'call' and n.args[0].op == 'func' and n.args[0].args[0] in SPLIT:
        return n.args[0].args[0].split(':')[1], {(k if isinstance(k, str) else k.args[-1]): v for k, v in n.args[2]}
    return None


def selects(v):
    """the split calls that select the elements of v"""
    v = strip(v)
    if pcall(v):
        return [v]
    if v.op == 'phi':
        return selects(v.args[1]) + selects(v.args[2])
    if v.op == 'sub':
        return selects(v.args[0]) + [x for x in walk(v.args[1]) if pcall(x)]
    if v.op in ('store', 'T'):
        return selects(v.args[0])
    if v.op == 'call' and v.args[1] and v.args[0].op == 'ext':
        return selects(v.args[1][0])
    return []


def list_splits(p, rep):
    n = 0
    for fq in [x for x, _ in FIELDS] + TABLES:
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        f = p.find_method(c, 'split')
        if not f:
            continue
        n += 1
        rep.unit(f.fq)
        I = Interp(p)
        I.noinline = set(getattr(I, 'noinline', ()) or ()) | set(SPLIT)
        S = mk('param', 'LIST', 'self')
        I.types[S] = c
        r = I.run(f, c, selfnode=S)
        env = r.env0
        P = Part(rep, '%s.split' % c.name, where(f))
        spec = dict(FIELDS).get(fq)
        if r.ret.op != 'new':
            P.undec('returns %s' % show(r.ret, 4))
            continue
        heap = {a: v for (o, a), v in r.state.heap.items() if o is r.ret}
        for a, (i, k) in (spec or {}).items():
            Q = Part(rep, '%s.split.%s' % (c.name, a), where(f))
            v = heap.get(a)
            calls = [] if v is None else selects(v)
            if not calls:
                Q.undec('%s' % (show(v, 4) if v is not None else None))
                continue
            for x in calls:
                roles(Q, pcall(x)[1], env, i, k)
                lst = strip(pcall(x)[1].get('a', NONE))
                own = strip(I.run_attr(S, a)) if hasattr(I, 'run_attr') else mk('attr', S, a)
                if fq.endswith('SCPList'):
                    own = mk('attr', S, 'key')
                if lst.op == 'attr' and lst.args[0] is S and lst is not own:
                    Q.bad('the positions are those of a part of %s' % show(lst, 3))
                elif lst is own:
                    Q.ok('positions within its own list')
                else:
                    Q.undec('list %s' % show(lst, 4))
        for a, v in sorted(heap.items()):
            own = mk('attr', S, a)
            if spec is None or own not in set(walk(v)):
                continue
            Q = Part(rep, '%s.split.%s' % (c.name, a), where(f))
            kept = steps(v, {own: 'given'}, 12)
            none = steps(v, {own: 'none'}, 12)
            if is_const(kept, None):
                Q.bad('the part has no %s when the list has them' % a)
            elif any(x.op == 'phi' and any(y.op == 'cmp' and y.args[0] in ('is', 'is not') and own in y.args[1:] for y in walk(x.args[0])) for x in walk(kept)):
                Q.undec('%s: %s' % (a, show(kept, 4)))
            elif spec.get(a) and any(x.op == 'cmp' and x.args[0] in ('is', 'is not') and own in x.args[1:] for x in walk(v)) and any(x.op == 'sub' and x.args[0] is own for x in walk(none)):
                Q.bad('positions are taken from the %s when the list has none' % a)
            else:
                Q.ok('%s of the part when the list has them' % a)
        if 'group_by_key' in env:
            for given in (True, False):
                Q = Part(rep, '%s.split(group_by_key=%s)' % (c.name, given), where(f))
                names = {pcall(x)[0] for v in heap.values() for x in walk(steps(v, {env['group_by_key']: given}, 12)) if pcall(x)}
                if len(names) != 1:
                    Q.undec('divided with %s' % sorted(names))
                elif (names == {'split_list_group_by_key'}) == given:
                    Q.ok('elements with the same key stay together only when asked')
                else:
                    Q.bad('divided with %s' % names.pop())
        if spec is None:
            table_split(P, c, S, r, heap, env)
            if 'group_by_field' in env:
                g = env['group_by_field']
                for plain in (True, False):
                    Q = Part(rep, '%s.split(%s)' % (c.name, 'whole list' if plain else 'by field'), where(f))
                    facts = {mk('cmp', '==', g, mk('const', 0)): plain, mk('cmp', '!=', g, mk('const', 0)): not plain}
                    by = {any(g in set(walk(y)) for y in pcall(x)[1].values()) for v in heap.values() for x in walk(steps(v, facts, 12)) if pcall(x)}
                    if len(by) != 1:
                        Q.undec('divided by %d lists' % len(by))
                    elif by == {not plain}:
                        Q.ok('grouped by the field given')
                    else:
                        Q.bad('grouped by field %s' % ('0' if plain else 'none'))
            if fq in ADDRESS:
                addressed(p, fq, c, rep, f, S, heap.get('segments'))
    return n


def roles(P, d, env, i, k):
    for par, want in (('idx', i), ('num_parts', k)):
        got = d.get(par)
        if got is env.get(want):
            P.ok('%s is %s' % (par, want))
        elif got is None or got.op in ('param', 'const', 'attr'):
            P.bad('%s of the split is %s, not %s' % (par, show(got, 3) if got is not None else 'missing', want))
        elif B_diff(got, env.get(want)) is not None:
            P.bad('%s of the split is %s, not %s' % (par, show(got, 4), want))
        else:
            P.undec('%s is %s' % (par, show(got, 4)))


def B_diff(a, b):
    try:
        d = (Bounds().val(a, {}) - Bounds().val(b, {})).const()
    except Exception:
        return None
    return d or None


def table_split(P, c, S, r, heap, env):
    main = {'Utt2Info': 'utt_info'}.get(c.name, 'segments')
    v = heap.get(main)
    if v is None:
        raise AnalysisBroken('no table in %s' % c.name)
    own = mk('attr', S, main)
    calls = {x for x in walk(v) if pcall(x)}
    if not calls:
        P.undec('%s is %s' % (main, show(v, 4)))
        return
    idxs = {'idx': 'idx', 'num_parts': 'num_parts'}
    for x in calls:
        name, d = pcall(x)
        roles(P, d, env, 'idx', 'num_parts')
        uses = [y for y in walk(v) if y.op == 'sub' and y.args[1].op == 'sub' and y.args[1].args[0] is x or
                y.op == 'sub' and strip(y.args[1]).op == 'sub' and strip(strip(y.args[1]).args[0]) is x]
        for y in uses:
            how = y.args[0]
            which = strip(y.args[1]).args[1]
            if how.op == 'attr' and how.args[1] == 'iloc':
                if is_const(which, 0):
                    P.bad('rows are taken by position with the names of the part')
                else:
                    P.ok('rows at the positions of the part')
            elif how.op == 'attr' and how.args[1] == 'loc':
                if is_const(which, 1):
                    P.bad('rows are taken by name with the positions of the part')
                else:
                    P.ok('rows with the names of the part')
                    if name == 'split_list':
                        lst = strip(d.get('a', NONE))
                        column(P, S, lst, own)


# what a table is addressed by -> the names that are divided
ADDRESS = {'hyperion.utils.ext_segment_list:ExtSegmentList': ('index_column', {x: x for x in ('file_id', 'series_id', 'segment_id', 'ext_segment_id')}),
           'hyperion.utils.segment_list:SegmentList': ('index_by_file', {True: 'file_id', False: 'segment_id'}),
           'hyperion.utils.rttm:RTTM': ('index_by_file', {True: 'file_id', False: 'index'})}


def names_of(lst):
    """the kind of names a list holds"""
    out = set()
    for x in walk(lst):
        s = x.args[1] if x.op == 'sub' and is_const(x.args[1], Ellipsis) else None
        s = s.args[0] if s is not None else x.args[1] if x.op == 'attr' else None
        if isinstance(s, str):
            s = s.strip('_').replace('unique_', '').replace('uniq_', '')
            if s in ('file_id', 'series_id', 'segment_id', 'ext_segment_id', 'index'):
                out.add(s)
    return out


def addressed(p, fq, c, rep, f, S, v):
    attr, want = ADDRESS[fq]
    for val, col in want.items():
        facts = {}
        for A in (mk('attr', S, attr), mk('attr', S, '_' + attr)):
            if isinstance(val, bool):
                facts[A] = val
            else:
                facts.update({mk('cmp', '==', A, mk('const', x)): x == val for x in want})
                facts.update({mk('cmp', '!=', A, mk('const', x)): x != val for x in want})
        P = Part(rep, '%s.split(%s=%s)' % (c.name, attr, val), where(f))
        w = steps(v, facts, 12)
        lists = [strip(steps(pcall(x)[1].get('a', NONE), facts)) for x in walk(w) if pcall(x)]
        if not lists and any(pcall(x) for x in walk(v)):
            P.bad('no list is divided')
            continue
        if len(set(lists)) != 1:
            P.undec('%d lists are divided' % len(set(lists)))
            continue
        got = names_of(lists[0])
        x = lists[0]
        if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args == (S, 'segments') and (is_const(x.args[1], 'file_id') or is_const(x.args[1], 'ext_segment_id')) and val:
            P.bad('the list divided repeats each name once per segment, and all the segments of a name are taken every time')
            continue
        ok = {'segment_id': ({'segment_id'}, {'index'}, {'ext_segment_id'}), 'index': ({'segment_id'}, {'index'})}.get(col, ({col},))
        if col == 'ext_segment_id':
            ok = ({'ext_segment_id'}, {'segment_id'}) if any(x.op == 'attr' and 'uniq' in str(x.args[1]) for x in walk(lists[0])) else ({'ext_segment_id'},)
        elif col == 'segment_id' and fq.endswith('ExtSegmentList'):
            ok = ({'segment_id'},)
        if got in ok:
            P.ok('the names divided are those the table is addressed by')
        elif len(got) == 1:
            P.bad('the names divided are the %s' % got.pop())
        else:
            P.undec('names %s' % show(lists[0], 4))


def column(P, S, lst, own):
    """names whose rows are taken together must be listed once"""
    if lst.op == 'sub' and lst.args[0] is own and is_const(lst.args[1], 'file_id') or \
            lst.op == 'attr' and lst.args[0] is own and lst.args[1] in ('file_id', 'ext_segment_id'):
        P.bad('the list divided repeats each name once per row, and all the rows of a name are taken every time')


# ---- callers ------------------------------------------------------------------------------------------------------
def role(n):
    """(model or segment, index or number) of an argument, from its name"""
    n = strip(n)
    name = n.args[-1] if n.op in ('param', 'attr') else None
    if not isinstance(name, str):
        return None
    name = name.lower()
    num_ = re.search(r'(^|_)num(_|$)|(^|_)n(_|$)|num_.*parts|total', name) is not None
    if not num_ and not re.search(r'idx|index|part', name):
        return None
    side = 'model' if 'model' in name or 'enroll' in name else 'seg' if 'seg' in name or 'test' in name else None
    return side, 'num' if num_ else 'idx'


def callers(p, rep):
    import ast
    n = 0
    targets = {'split_list', 'split_list_group_by_key', 'split'}
    for f in p.all_funcs():
        if not any(f.mod.name.startswith(x) for x in ('hyperion.helpers', 'hyperion.io', 'hyperion.bin', 'hyperion.feats', 'hyperion.generators')):
            continue
        if not any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr in targets and len(x.args) + len(x.keywords) > 1 and
                                                not any(k.arg in ('sep', 'maxsplit') for k in x.keywords) or
                                                isinstance(x.func, ast.Name) and x.func.id in targets) for x in ast.walk(f.node)):
            continue
        cls = f.cls
        I = Interp(p)
        try:
            r = I.run(f, cls)
        except (AnalysisBroken, RecursionError):
            rep.undec('caller', f.fq, 'not interpreted')
            continue
        done = set()
        for e in r.events:
            if e.kind != 'invoke' or e.target.op != 'func' or e.stack and len(e.stack) > 1 and False:
                continue
            fn = e.target.args[0]
            if not (fn in SPLIT or fn.endswith('.split') and fn.startswith('hyperion.utils.')):
                continue
            env = e.extra or {}
            args = {k: v for k, v in env.items() if role(mk('param', '', k)) and k not in ('self',)}
            if (fn, e.site) in done:
                continue
            done.add((fn, e.site))
            n += 1
            q = '%s -> %s' % (f.fq.split(':')[1], fn.split(':')[1])
            P = Part(rep, q, where(f))
            rep.unit(f.fq)
            for k, v in args.items():
                a, b = role(mk('param', '', k)), role(v)
                if b is None:
                    continue
                if a[1] != b[1]:
                    P.bad('%s receives %s' % (k, show(v, 3)))
                elif a[0] and b[0] and a[0] != b[0]:
                    P.bad('%s receives %s' % (k, show(v, 3)))
                else:
                    P.ok(k)
            # a list that is divided in several parts is divided
            nums = [v for k, v in args.items() if role(mk('param', '', k))[1] == 'num' and v.op in ('param', 'attr')]
            idx = [v for k, v in args.items() if role(mk('param', '', k))[1] == 'idx' and v.op in ('param', 'attr')]
            for cnd in e.path:
                vn = [v for v in nums if v in set(walk(cnd))]
                vi = [v for v in idx if v in set(walk(cnd))]
                if not vn and not vi:
                    continue
                t = set()
                # each list divided in turn, the others whole, at every valid part
                for y in (vn or [None]):
                    for k in (2, 3, 100):
                        for part in {1, 2, k}:
                            vals = {x: 1 for x in vn}
                            if y is not None:
                                vals[y] = k
                            for x in vi:
                                vals[x] = part if len(vi) == 1 and len(vn) <= 1 or not vn else None
                            t.add(guard(cnd, vals))
                if False in t:
                    P.bad('the list is divided only if %s' % show(cnd, 4))
                elif None not in t:
                    P.ok('divided when there are several parts')
    return n


def guard(c, env):
    if c.op == 'not':
        v = guard(c.args[0], env)
        return None if v is None else not v
    if c.op in ('and', 'or'):
        vs = [guard(x, env) for x in c.args[0]]
        if (c.op == 'or') in vs:
            return c.op == 'or'
        return None if None in vs else c.op == 'and'
    if c.op == 'cmp' and c.args[0] in ('<', '<=', '==', '!=', '>', '>='):
        a, b = (env.get(x, x.args[0] if is_const(x) else None) for x in c.args[1:3])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[c.args[0]]
    return None


def check(p, rep, tier):
    n = split_functions(p, rep)
    n += create_parts(p, rep)
    n += getters(p, rep)
    n += list_splits(p, rep)
    n += callers(p, rep)
    rep.require('splits', n, 5)
