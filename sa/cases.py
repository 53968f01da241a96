"""Case splitting on value graphs: a graph is rewritten under a set of facts
(values of atoms, truth of conditions, signs), removing the branches the facts
exclude.  Conditions the facts do not settle stay."""
from .ir import *
from .interp import neg, phi, conj, disj
from .poly import rat, Rat


class Facts(object):
    def __init__(self, sub=None, true=(), false=(), pos=(), nonneg=(), nonnone=(), hook=None):
        self.sub = dict(sub or {})
        self.truth = {}
        for c in true:
            self.assume(c, True)
        for c in false:
            self.assume(c, False)
        self.pos, self.nonneg = set(pos), set(nonneg) | set(pos)
        self.nonnone = set(nonnone)
        self.hook = hook
        self.memo = {}

    def assume(self, c, v=True):
        if c.op == 'not':
            return self.assume(c.args[0], not v)
        if c.op == 'and' and v:
            for x in c.args[0]:
                self.assume(x, True)
        if c.op == 'or' and not v:
            for x in c.args[0]:
                self.assume(x, False)
        self.truth[c] = v
        n = neg(c)
        if n.op == 'cmp':
            self.truth[n] = not v
        return self

    def copy(self, **kw):
        f = Facts(self.sub, (), (), self.pos, self.nonneg, self.nonnone, self.hook)
        f.truth = dict(self.truth)
        f.sub.update(kw.get('sub', {}))
        for c in kw.get('true', ()):
            f.assume(c, True)
        for c in kw.get('false', ()):
            f.assume(c, False)
        f.pos |= set(kw.get('pos', ()))
        f.nonneg |= set(kw.get('nonneg', ())) | f.pos
        f.nonnone |= set(kw.get('nonnone', ()))
        return f

    # ------------------------------------------------------------------
    def sign(self, r):
        """'+','0','-', '>=', '<=' or None for a Rat"""
        c = r.const()
        if c is not None:
            return '+' if c > 0 else '-' if c < 0 else '0'
        if set(r.q) != {()} or r.q[()] <= 0:
            return None
        s = set()
        for m, c in r.p.items():
            if not all(a in self.nonneg for a in m):
                return None
            strict = all(a in self.pos for a in m)
            s.add(('+' if strict else '>=') if c > 0 else ('-' if strict else '<='))
        if s <= {'+', '>='}:
            return '+' if '+' in s else '>='
        if s <= {'-', '<='}:
            return '-' if '-' in s else '<='
        return None

    def cmp(self, op, a, b):
        if op in ('is', 'is not', '==', '!='):
            v = None
            if a is b and op in ('is', 'is not'):
                v = True
            elif is_const(b, None) or is_const(a, None):
                o = a if is_const(b, None) else b
                if o.op == 'const':
                    v = o.args[0] is None
                elif o in self.nonnone or o in self.nonneg or o.op in ('tuple', 'list', 'new', 'alloc', 'bin', 'call', 'icall', 'cmp', 'dim'):
                    v = False
            if v is not None:
                return v if op in ('is', '==') else not v
        if op in ('is', 'is not') and a.op == 'const' and b.op == 'const':
            return (a.args[0] is b.args[0] or a is b) == (op == 'is')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if a is b:
                return op in ('==', '<=', '>=')
            if a.op == 'const' and b.op == 'const':
                try:
                    x, y = a.args[0], b.args[0]
                    return {'==': x == y, '!=': x != y}[op] if op in ('==', '!=') else \
                        {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
                except TypeError:
                    return None
            if any(x.op == 'const' and not isinstance(x.args[0], (int, float)) for x in (a, b)):
                return None
            s = self.sign(rat(a) - rat(b))
            if s is None:
                return None
            t = {'+': {'==': False, '!=': True, '<': False, '<=': False, '>': True, '>=': True},
                 '-': {'==': False, '!=': True, '<': True, '<=': True, '>': False, '>=': False},
                 '0': {'==': True, '!=': False, '<': False, '<=': True, '>': False, '>=': True},
                 '>=': {'<': False, '>=': True}, '<=': {'>': False, '<=': True}}[s]
            return t.get(op)
        return None

    def boolval(self, n):
        """truth value of an already rewritten node"""
        if n in self.truth:
            return self.truth[n]
        if n.op == 'const':
            return bool(n.args[0])
        if n.op == 'not':
            v = self.boolval(n.args[0])
            return None if v is None else not v
        if n.op == 'cmp':
            v = self.cmp(*n.args)
            if v is None:
                m = neg(n)
                if m in self.truth:
                    return not self.truth[m]
            return v
        if n.op in ('and', 'or'):
            vs = [self.boolval(x) for x in n.args[0]]
            if n.op == 'and':
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if n in self.pos:
            return True
        return None

    def ev(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        if n in self.sub:
            r = self.sub[n]
        else:
            self.memo[n] = n
            r = self._ev(n)
        self.memo[n] = r
        return r

    def _ev(self, n):
        if self.hook is not None:
            r = self.hook(self, n)
            if r is not None:
                return r
        if n.op == 'phi':
            c = self.ev(n.args[0])
            v = self.boolval(c)
            if v is None:
                return phi(c, self.ev(n.args[1]), self.ev(n.args[2]))
            return self.ev(n.args[1] if v else n.args[2])
        if n.op in ('const', 'ext', 'param', 'lphi', 'cls', 'func'):
            return n
        r = rebuild(n, self.ev)
        if r in self.sub:
            return self.sub[r]
        if r.op in ('cmp', 'and', 'or', 'not'):
            v = self.boolval(r)
            if v is not None:
                return const(v)
            if r.op in ('and', 'or'):
                return (conj if r.op == 'and' else disj)(*r.args[0])
        if r.op == 'sub' and r.args[0].op in ('tuple', 'list') and is_const(r.args[1]) and isinstance(r.args[1].args[0], int) and \
                -len(r.args[0].args) <= r.args[1].args[0] < len(r.args[0].args):
            return r.args[0].args[r.args[1].args[0]]
        if r.op == 'bin' and r.args[1].op == 'const' and r.args[2].op == 'const':
            x, y = r.args[1].args[0], r.args[2].args[0]
            try:
                if r.args[0] == '+':
                    return const(x + y)
                if r.args[0] == '-':
                    return const(x - y)
                if r.args[0] == '*':
                    return const(x * y)
            except Exception:
                pass
        if r.op == 'bin' and r.args[0] in '+-' and is_const(r.args[2], 0):
            return r.args[1]
        if r.op == 'bin' and r.args[0] == '+' and is_const(r.args[1], 0):
            return r.args[2]
        return r

    def path(self, conds):
        """True/False/None: do the facts settle this path condition"""
        vs = [self.boolval(self.ev(c)) for c in conds]
        return False if False in vs else (None if None in vs else True)
