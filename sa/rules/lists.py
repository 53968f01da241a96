"""C13: a saved list loads back as the same list.

save is interpreted on a symbolic list S; what it writes becomes an abstract file: lines made of literal text and of
fields of S, data sets, or the columns of a table. load is interpreted on that file and every attribute of the object
it builds is compared, element by element, with the attribute of S, for every combination of optional attributes and
every kind of row."""
from ..ir import *
from ..interp import *
from ..scope import *
from ..project import AnalysisBroken

EXTS = ('.txt', '.h5', '.hdf5', '.lst')
WHITE = ' \t\n\r'


class Need(Exception):
    def __init__(self, key, choices=(True, False)):
        self.key, self.choices = key, choices


class Bad(Exception):
    pass


class Unk(Exception):
    pass


class Neg(Unk):
    pass


class V(object):
    """value with structural equality"""
    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return type(self) is type(o) and self.a == o.a

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self.a))

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self.a)


class Atom(V):
    """a field of the list: attribute, component, kind (name int float sep), row"""
    attr = property(lambda s: s.a[0])
    comp = property(lambda s: s.a[1])
    kind = property(lambda s: s.a[2])
    row = property(lambda s: s.a[3])

    def __repr__(self):
        return self.attr + ('' if self.comp is None else '[%s]' % self.comp) + ('' if self.row in ('row', None) else '(%s)' % (self.row,))


class Txt(V):
    """text: a tuple of str and Atom"""
    def __init__(self, ps):
        out = []
        for x in ps:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        V.__init__(self, tuple(out))

    ps = property(lambda s: s.a[0])

    def lit(self):
        return ''.join(self.ps) if all(isinstance(x, str) for x in self.ps) else None

    def __repr__(self):
        return repr(''.join(x if isinstance(x, str) else '{%r}' % x for x in self.ps))


class Lin(V):
    """integer: ((atom, coef)...), constant"""
    def __init__(self, d, c=0):
        V.__init__(self, tuple(sorted(((k, v) for k, v in dict(d).items() if v), key=repr)), c)

    def __repr__(self):
        return ' + '.join(['%s%r' % ('' if v == 1 else '%s*' % v, k) for k, v in self.a[0]] + ([str(self.a[1])] if self.a[1] or not self.a[0] else []))


class Arr(V):
    """array or list with one element per line (row, pair); args: element, transposed"""
    el = property(lambda s: s.a[0])
    t = property(lambda s: s.a[1])

    def __repr__(self):
        return '[%r ...]%s' % (self.el, '.T' if self.t else '')


class Seq(V):
    xs = property(lambda s: s.a)

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.xs))


class Uniq(V):
    """sorted different values of a column"""


class Inv(V):
    """for every line, the position of its column in Uniq; filter"""


class First(V):
    """for every different value of a column, the first line with it"""


class Group(V):
    """for every different value of a column, the element of the lines with it"""


class Fill(V):
    """array filled at one element per line: base, positions, value, whether this line does"""


class Lossy(V):
    pass


class Opaque(V):
    pass


DROP = Opaque('dropped')
FILE = Opaque('file')
LINE = Opaque('line')


def cast(v, dt):
    """value after conversion to an element type"""
    if dt is None or v is DROP:
        return v
    if isinstance(v, Arr):
        return Arr(cast(v.el, dt), v.t)
    if isinstance(v, Seq):
        return Seq(*[cast(x, dt) for x in v.xs])
    if isinstance(v, (Uniq, Inv, Group, Lossy)):
        return v
    if isinstance(v, Fill):
        return Fill(v.a[0], v.a[1], cast(v.a[2], dt), v.a[3])
    k = dt.rstrip('0123456789')
    bits = int(dt[len(k):] or 64) if k in ('int', 'uint') else 64
    if isinstance(v, Atom) and v.kind == 'float':
        if k == 'float':
            return v
        if k in ('int', 'uint', 'bool'):
            return Lossy('%r converted to %s' % (v, dt))
        raise Unk('float to %s' % dt)
    if isinstance(v, Txt):
        if k in ('str', 'S', 'U', 'object', 'bytes'):
            return v
        if len(v.ps) == 1 and isinstance(v.ps[0], Atom):
            a = v.ps[0]
            if a.kind == 'name':
                return Lossy('text %r converted to %s' % (a, dt))
            if k == 'float':
                return a if a.kind == 'float' else Lin({a: 1})
            if a.kind == 'int' and k in ('int', 'uint'):
                return Lin({a: 1})
            if a.kind == 'float' and k in ('int', 'uint'):
                return Lossy('%r converted to %s' % (a, dt))
        l = v.lit()
        if l is not None and k in ('int', 'float'):
            try:
                return int(l) if k == 'int' else float(l)
            except ValueError:
                raise Bad('%r is not a number' % l)
        if k in ('int', 'float', 'uint'):
            raise Bad('the field %r is read as a number' % v)
        raise Unk('%r to %s' % (v, dt))
    if isinstance(v, (bool, int, float)):
        if k == 'bool':
            return bool(v)
        if k == 'float':
            return float(v)
        if k == 'uint':
            return int(v) % (1 << bits)
        if k == 'int':
            b = int(v) % (1 << bits)
            return b - (1 << bits) if b >= 1 << bits - 1 else b
    if isinstance(v, Lin):
        if k in ('int', 'float') and bits >= 32:
            return v
        if k == 'uint':
            return v if bits >= 32 else Lossy('%r converted to %s' % (v, dt))
        if k in ('int', 'bool'):
            return Lossy('%r converted to %s' % (v, dt))
        if k in ('str', 'U', 'S') and len(v.a[0]) == 1 and v.a[0][0][1] == 1 and not v.a[1]:
            return Txt([v.a[0][0][0]])
    if v is None:
        return None
    raise Unk('%r to %s' % (v, dt))


def split(t, sep, mx=-1, right=False):
    """parts of text at a separator: a str, an Atom, or None for white space"""
    parts = [[]]
    cuts = []
    for x in t.ps:
        if not isinstance(x, str):
            if sep == x:
                cuts.append(len(parts))
                parts.append([])
            else:
                parts[-1].append(x)
            continue
        if sep is None:
            buf = ''
            for c in x:
                if c in WHITE:
                    if buf:
                        parts[-1].append(buf)
                    buf = ''
                    parts.append([])
                else:
                    buf += c
            parts[-1].append(buf)
        elif isinstance(sep, str):
            ws = x.split(sep)
            parts[-1].append(ws[0])
            for w in ws[1:]:
                parts.append([w])
        else:
            parts[-1].append(x)
    out = [Txt(p) for p in parts]
    if sep is None:
        out = [p for p in out if p.ps]
    j = ' ' if sep is None else sep
    if 0 <= mx < len(out) - 1:
        def glue(ps):
            r = list(ps[0].ps)
            for p in ps[1:]:
                r += [j] + list(p.ps)
            return Txt(r)
        out = [glue(out[:len(out) - mx])] + out[len(out) - mx:] if right else out[:mx] + [glue(out[mx:])]
    return out


def strip(t, chars, left, right):
    ps = list(t.ps)
    cs = WHITE if chars is None else chars
    if right:
        while ps and (isinstance(ps[-1], str) and not ps[-1].rstrip(cs) or not isinstance(ps[-1], str) and ps[-1].kind == 'sep' and chars is None):
            ps.pop()
        if ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(cs)
    if left:
        while ps and isinstance(ps[0], str) and not ps[0].lstrip(cs):
            ps.pop(0)
        if ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(cs)
    return Txt(ps)


def lin(v):
    if isinstance(v, bool):
        return Lin({}, int(v))
    if isinstance(v, int):
        return Lin({}, v)
    if isinstance(v, Lin):
        return v
    raise Unk('number %r' % (v,))


def unlin(v):
    return v.a[1] if isinstance(v, Lin) and not v.a[0] else v


def concat(a, b):
    ts = []
    for x in (a, b):
        ts += x.ps if isinstance(x, Txt) else [x]
    return Txt(ts)


class Ev(object):
    """evaluates nodes of save (on S) and load (on the abstract file)"""
    def __init__(self, I, spec, dec, ext):
        self.I, self.spec, self.dec, self.ext = I, spec, dec, ext
        self.S = None
        self.file = None         # file of the load: ('text', [line]) or ('h5', items)
        self.fnode = None
        self.memo = {}
        self.rows = False        # a row-level condition was decided
        self.lphi = {}

    def need(self, key, choices=(True, False)):
        if key not in self.dec:
            raise Need(key, choices)
        return self.dec[key]

    def __call__(self, n):
        if n in self.memo:
            return self.memo[n]
        r = self.go(n)
        self.memo[n] = r
        return r

    # -- attributes of the saved list
    def attr(self, name):
        sp = self.spec.get(name)
        if sp is None:
            raise Unk('attribute %s' % name)
        kind, opt = sp[0], 'opt' in sp
        if opt and self.need(('none', name)):
            return None
        if kind == 'mask':
            v = self.need(('mask', name)) if self.ext != 'text' else Atom(name, None, 'mask', None)
            return Arr(v, False)
        if kind == 'pair':
            return Arr(Seq(*[Lin({Atom(name, k, 'int', 'row'): 1}) for k in (0, 1)]), False)
        return Arr(self.atom(name, kind, 'row'), False)

    def atom(self, name, kind, row):
        a = Atom(name, None, kind, row)
        return Txt([a]) if kind == 'name' else Lin({a: 1}) if kind == 'int' else a

    def axisof(self, ix):
        """(mask, axis) whose true elements this index runs over"""
        try:
            return self.axisof1(ix)
        except Neg as e:
            raise Bad('the lines are those of %s' % e)

    def axisof1(self, ix):
        if ix.op == 'sub' and ix.args[0].op == 'sub' and is_const(ix.args[0].args[1]):
            c, k = ix.args[0].args[0], ix.args[0].args[1].args[0]
            if callname(c) in ('numpy.nonzero', 'numpy.where', 'numpy.flatnonzero') and len(c.args[1]) == 1 and ix.args[1].op == 'ivar':
                m, t = self.maskof(c.args[1][0])
                return (m, 1 - k if t else k)
        if ix.op == 'sub' and is_const(ix.args[1]) and isinstance(ix.args[1].args[0], int):
            r = ix.args[0]
            if r.op == 'sub' and callname(r.args[0]) == 'numpy.argwhere' and r.args[1].op == 'ivar':
                m, t = self.maskof(r.args[0].args[1][0])
                return (m, 1 - ix.args[1].args[0] if t else ix.args[1].args[0])
        if ix.op == 'sub' and ix.args[1].op == 'tuple' and len(ix.args[1].args) == 2:
            r, (i, k) = ix.args[0], ix.args[1].args
            if callname(r) == 'numpy.argwhere' and i.op == 'ivar' and is_const(k):
                m, t = self.maskof(r.args[1][0])
                return (m, 1 - k.args[0] if t else k.args[0])
        if ix.op == 'ivar':
            for c in self.path:
                m = self.cell(c)
                if m is not None and ix in m[1]:
                    return (m[0], m[1].index(ix))
        return None

    path = ()

    def cell(self, c):
        """mask element a condition tests: (mask, indices)"""
        if c.op == 'cmp' and c.args[0] in ('==', 'is') and is_const(c.args[2], True):
            c = c.args[1]
        ixs = []
        while c.op == 'sub':
            i = c.args[1]
            ixs = (list(i.args) if i.op == 'tuple' else [i]) + ixs
            c = c.args[0]
        try:
            m, t = self.maskof(c)
        except Unk:
            return None
        if len(ixs) != 2:
            return None
        return m, ixs[::-1] if t else ixs

    def maskof(self, x):
        t = neg = False
        while True:
            if x.op == 'T':
                t = not t
                x = x.args[0]
            elif x.op == 'cmp' and x.args[0] in ('==', 'is', '!=', 'is not') and any(is_const(x.args[2], y) for y in (True, False, 0, 1)):
                neg ^= (x.args[0] in ('==', 'is')) != bool(x.args[2].args[0])
                x = x.args[1]
            elif x.op == 'not' or x.op == 'un' and x.args[0] == '~' or callname(x) in ('numpy.logical_not', 'numpy.invert'):
                neg = not neg
                x = x.args[0] if x.op == 'not' else x.args[1] if x.op == 'un' else x.args[1][0]
            elif callname(x) in ('numpy.astype', 'numpy.asarray', 'numpy.array'):
                x = x.args[1][0]
            elif callname(x) == 'numpy.transpose' and len(x.args[1]) == 1:
                t = not t
                x = x.args[1][0]
            elif x.op == 'attr' and x.args[0] is self.S:
                if neg:
                    raise Neg('the trials not in %s' % x.args[1])
                return x.args[1], t
            else:
                raise Unk('mask %s' % show(x, 4))

    def truth(self, v):
        if isinstance(v, Txt):
            if not v.ps:
                return False
            return True
        if v is None or isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, Seq):
            return bool(v.xs)
        if isinstance(v, Lin):
            return not self.iszero(v)
        raise Unk('truth of %r' % (v,))

    def iszero(self, v):
        v = unlin(v)
        if isinstance(v, int):
            return v == 0
        if all(c > 0 for _, c in v.a[0]) and v.a[1] >= 0:
            return v.a[1] == 0 and all(self.zero(a) for a, _ in v.a[0])
        raise Unk('%r == 0' % (v,))

    def zero(self, a):
        self.rows = True
        return self.need(('zero', a))

    def compare(self, op, a, b):
        if op in ('is', '=='):
            if a is None or b is None:
                return a is None and b is None
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.a[0] == b.a[0] == 'dtype':
                if None in a.a[1:] + b.a[1:]:
                    raise Unk('dtype')
                return a == b
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if Opaque('size', 'lines') in (a, b) and 0 in (a, b):
                    return False
                if a == b:
                    return True
                raise Unk('%r == %r' % (a, b))
            if isinstance(a, Txt) and isinstance(b, Txt):
                la, lb = a.lit(), b.lit()
                if la is not None and lb is not None:
                    return la == lb
                if a == b:
                    return True
                t, l = (a, lb) if la is None else (b, la)
                if l is not None and (not l or all(isinstance(x, Atom) and x.kind in ('int', 'float') for x in t.ps) and not l.strip('+-').replace('.', '').isdigit()):
                    return False
                if l is not None and any(isinstance(x, str) and x.strip() and x not in l for x in t.ps):
                    return False
                raise Unk('%r == %r' % (a, b))
            if isinstance(a, Txt) != isinstance(b, Txt):
                return False
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return {'==': a == b, 'is': a == b, '<': a < b, '<=': a <= b}[op]
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = dict(lin(a).a[0])
            for k, v in lin(b).a[0]:
                d[k] = d.get(k, 0) - v
            d = Lin(d, lin(a).a[1] - lin(b).a[1])
            if not d.a[0]:
                return {'==': d.a[1] == 0, 'is': d.a[1] == 0, '<': d.a[1] < 0, '<=': d.a[1] <= 0}[op]
            up, dn = all(v > 0 for _, v in d.a[0]), all(v < 0 for _, v in d.a[0])
            c = d.a[1]
            if op in ('==', 'is'):
                if up and c > 0 or dn and c < 0:
                    return False
                if (up or dn) and c == 0:
                    return all(self.zero(k) for k, _ in d.a[0])
            if op == '<':
                if up and c >= 0:
                    return False
                if dn and c < 0:
                    return True
                if dn and c == 0:
                    return not all(self.zero(k) for k, _ in d.a[0])
            if op == '<=':
                if up and c > 0:
                    return False
                if up and c == 0:
                    return all(self.zero(k) for k, _ in d.a[0])
                if dn and c <= 0:
                    return True
        raise Unk('%r %s %r' % (a, op, b))

    def exists(self, here, site):
        """some line satisfies a condition, when this one does or not"""
        if here:
            return True
        if not self.rows:
            return False
        return self.need(('others', site))

    def dtype(self, n):
        if n is None or is_const(n, None):
            return None
        if is_const(n) and isinstance(n.args[0], str):
            return {'b': 'bool', '?': 'bool', 'f': 'float32', 'd': 'float64', 'i': 'int32'}.get(n.args[0], n.args[0])
        if n.op == 'ext':
            s = n.args[0].rsplit('.', 1)[-1]
            return {'int_': 'int', 'bool_': 'bool', 'str_': 'str', 'double': 'float64', 'float_': 'float'}.get(s, s)
        f = n.args[0] if n.op == 'call' else None
        if f is not None and f.op == 'func' and getattr(f.args[0], 'name', str(f.args[0])).endswith('float_cpu'):
            return 'float32'
        if 'float' in show(n, 3):
            return 'float32'
        raise Unk('element type %s' % show(n, 3))

    # -- nodes
    def go(self, n):
        op = n.op
        m = getattr(self, 'o_' + op, None)
        if m is None:
            raise Unk('%s %s' % (op, show(n, 3)))
        return m(n)

    def o_const(self, n):
        v = n.args[0]
        return Txt([v]) if isinstance(v, str) else v

    def o_ext(self, n):
        return Opaque('dtype', self.dtype(n)) if n.args[0].startswith('builtins.') or n.args[0].startswith('numpy.') else Opaque('ext', n.args[0])

    def o_param(self, n):
        if n.args[1] in ('sep', 'offset_sep') or n.args[1].endswith('sep'):
            return Txt([Atom(n.args[1], None, 'sep', None)])
        raise Unk('parameter %s' % n.args[1])

    def o_alloc(self, n):
        return self(n.args[1])

    def o_objcopy(self, n):
        return self(n.args[0])

    def o_tuple(self, n):
        return Seq(*[self(x) for x in n.args])

    def o_list(self, n):
        return self.o_tuple(n) if n.args else Seq()

    def o_attr(self, n):
        if n.args[0] is self.S:
            return self.attr(n.args[1])
        if n.args[1] == 'dtype':
            v = self(n.args[0])
            e = v.el if isinstance(v, Arr) else v
            return Opaque('dtype', 'int' if isinstance(e, Lin) else 'str' if isinstance(e, Txt) else None)
        raise Unk(show(n, 3))

    def o_T(self, n):
        v = self(n.args[0])
        if isinstance(v, Arr):
            return Arr(v.el, not v.t)
        raise Unk('T')

    def o_sub(self, n):
        b, ix = n.args
        if self.fnode is not None and b is self.fnode:
            return self.fromfile(ix)
        # rows enumerated through a mask
        if self.ext == 'text' and b.op == 'attr' and b.args[0] is self.S and self.spec.get(b.args[1]) and 'axes' in self.spec[b.args[1]]:
            return self.cellof(b.args[1], ix)
        if self.ext == 'text' and b.op == 'sub' and b.args[0].op == 'attr' and b.args[0].args[0] is self.S and len(self.spec.get(b.args[0].args[1], ())) and 'cell' in self.spec[b.args[0].args[1]]:
            return self.cellof(b.args[0].args[1], tup(b.args[1], ix))
        v = self(b)
        if isinstance(v, Arr) and b.op == 'attr' and b.args[0] is self.S and 'bypart' in self.spec[b.args[1]]:
            i = self(ix)
            by = self.spec[b.args[1]][2]
            if isinstance(i, Lin) and i.a[0] and i.a[0][0][0].attr == by:
                return Txt([Atom(b.args[1], None, 'name', (by,))])
            return Txt([Atom(b.args[1], None, 'name', ('row of', repr(i)))])
        if isinstance(v, Arr):
            return self.rowof(v, ix)
        if isinstance(v, Seq):
            if is_const(ix) and isinstance(ix.args[0], int):
                k = ix.args[0]
                if not -len(v.xs) <= k < len(v.xs):
                    raise Bad('there is no field %d among %r' % (k, v))
                return v.xs[k]
            if ix.op == 'slice' and all(is_const(x) for x in ix.args):
                return Seq(*v.xs[slice(*[x.args[0] for x in ix.args])])
            i = self(ix)
            if isinstance(i, (int, bool)):
                return v.xs[i]
        if isinstance(v, Txt) and ix.op == 'slice' and all(is_const(x) for x in ix.args) and is_const(ix.args[2], None):
            return self.slicetxt(v, ix.args[0].args[0], ix.args[1].args[0])
        if isinstance(v, Inv):
            if ix.op == 'ivar':
                return v
            f = self(ix)
            if isinstance(f, Arr) and isinstance(f.el, bool):
                return Inv(v.a[0], v.a[1] and f.el)
        if v is None:
            raise Bad('a missing value is indexed')
        raise Unk('%r[%s]' % (v, show(ix, 3)))

    def slicetxt(self, v, lo, hi):
        ps = list(v.ps)
        if lo:
            if lo > 0 and ps and isinstance(ps[0], str) and len(ps[0]) >= lo:
                ps[0] = ps[0][lo:]
            else:
                raise Unk('slice of text')
        if hi is not None:
            if hi < 0 and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
                ps[-1] = ps[-1][:hi]
            else:
                raise Unk('slice of text')
        return Txt(ps)

    def rowof(self, v, ix):
        if ix.op == 'ivar' or is_const(ix) and isinstance(ix.args[0], int):
            if isinstance(v.el, Atom) and v.el.kind == 'mask':
                raise Unk('row of a mask')
            return v.el
        if ix.op == 'slice':
            if all(is_const(x, None) for x in ix.args[:2]):
                return v
            return Arr(DROP, False)
        if ix.op == 'tuple':
            r = v
            for x in ix.args:
                if x.op == 'slice' and all(is_const(y, None) for y in x.args[:2]) and isinstance(r, Arr):
                    if len(ix.args) == 2 and x is ix.args[0]:
                        e = r.el
                        k = self(ix.args[1])
                        if isinstance(e, Seq) and isinstance(k, int):
                            return Arr(e.xs[k], False)
                    raise Unk('slice')
                r = self.rowof(r, x) if isinstance(r, Arr) else r.xs[self(x)]
            return r
        i = self(ix)
        if isinstance(i, First):
            return Group(v.el, i.a[0])
        if isinstance(i, Arr) and isinstance(i.el, bool):
            return v if i.el else Arr(DROP, False)
        if isinstance(i, Opaque):
            return v.el
        raise Unk('%r[%r]' % (v, i))

    def cellof(self, name, ix):
        sp = self.spec[name]
        xs = list(ix.args) if ix.op == 'tuple' else [ix]
        rows = tuple(self.axisof(x) or ('?', show(x, 4)) for x in xs)
        if any(r[0] == '?' for r in rows):
            raise Unk('index %s' % (rows,))
        if 'cell' in sp and len(rows) != 2:
            raise Unk('element of a row')
        return self.atom(name, sp[0], rows) if sp[0] != 'mask' else rows[0][0] == name

    def fromfile(self, ix):
        kind, what = self.file
        if kind == 'text':
            if ix.op == 'ivar' or is_const(ix):
                return what
            raise Unk('line %s' % show(ix, 3))
        nm = self(ix)
        nm = nm.lit() if isinstance(nm, Txt) else None
        if nm is None:
            raise Unk('data set %s' % show(ix, 3))
        for k, v in what.items():
            if k.strip('/') == nm.strip('/'):
                return v
        raise Bad('the data set %r is not written' % nm)

    def o_lmap(self, n):
        iv, el, cond = n.args
        c = True if is_const(cond, True) else self.truth(self(cond))
        rng = iv.args[0]
        e = self(el)
        return Arr(e if c else DROP, False)

    def o_dim(self, n):
        v = self(n.args[0])
        if isinstance(v, Seq):
            return len(v.xs)
        if isinstance(v, Arr) and n.args[1] in (1, '1') and isinstance(v.el, Seq):
            return len(v.el.xs)
        if isinstance(v, Uniq):
            return Opaque('size', v)
        return Opaque('size', 'lines') if isinstance(v, Arr) else Opaque('size', repr(v))

    def o_un(self, n):
        v = self(n.args[1])
        if n.args[0] == '-' and isinstance(v, (int, float)):
            return -v
        if n.args[0] in ('~', 'not'):
            if isinstance(v, Arr):
                return Arr(not self.truth(v.el), v.t)
            return not self.truth(v)
        raise Unk('un')

    def o_not(self, n):
        return not self.truth(self(n.args[0]))

    def o_and(self, n):
        return self.logic(n, True)

    def o_or(self, n):
        return self.logic(n, False)

    def logic(self, n, conj):
        unk = None
        for x in n.args[0]:
            try:
                v = self(x)
                t = self.truth(v)
            except Unk as e:
                unk = e
                continue
            if t != conj:
                return not conj
        if unk:
            raise unk
        return conj

    def o_cmp(self, n):
        op, a, b = n.args
        neg = op in ('!=', 'is not', 'not in', '>', '>=')
        if op in ('>', '>='):
            a, b, op, neg = b, a, {'>': '<', '>=': '<='}[op], False
        op = {'!=': '==', 'is not': 'is', 'not in': 'in'}.get(op, op)
        if op == 'isinstance':
            v = self(a)
            t = show(b, 3)
            if isinstance(v, (Arr, Seq)) and t.endswith('list') and a.op == 'attr':
                return False
            if v is None:
                return False
            raise Unk('isinstance')
        if op == 'in':
            if b is self.fnode and self.file and self.file[0] == 'h5':
                nm = self(a).lit()
                r = any(k.strip('/') == nm.strip('/') for k in self.file[1])
                return r != neg
            x, s = self(a), self(b)
            if isinstance(s, Txt) and isinstance(x, Txt):
                l = x.lit()
                if l is None:
                    raise Unk('in')
                if any(isinstance(p, str) and l in p for p in s.ps):
                    return not neg
                if all(isinstance(p, str) for p in s.ps) or l in ':[] \t' or all(isinstance(p, str) or p.kind in ('int', 'sep') for p in s.ps):
                    return neg
                raise Unk('in')
            if isinstance(s, Arr):
                return self.exists(self.compare('==', s.el, x), n.uid) != neg
            if isinstance(s, Seq):
                return any(self.compare('==', y, x) for y in s.xs) != neg
            raise Unk('in')
        if op == 'is' and is_const(b, None):
            return (self(a) is None) != neg
        x, y = self(a), self(b)
        if isinstance(x, Arr) or isinstance(y, Arr):
            f = lambda v: v.el if isinstance(v, Arr) else v
            r = self.compare(op, f(x), f(y))
            return Arr(r != neg, x.t if isinstance(x, Arr) else y.t)
        return self.compare(op, x, y) != neg

    def o_phi(self, n):
        c, a, b = n.args
        try:
            t = self.truth(self(c))
        except Unk as e:
            x, y = self(a), self(b)
            if x == y:
                return x
            raise e
        return self(a if t else b)

    def o_broke(self, n):
        L = self.loops[n.args[0]]
        return self.exists(self.truth(self(L.brk)), n.args[0])

    def o_lphi(self, n):
        if n in self.lphi:
            return self.lphi[n]
        raise Unk('loop value %s' % n.args[1])

    def o_lfin(self, n):
        L = self.loops[n.args[0]]
        lp = n.args[2]
        ent = self(L.entry[lp])
        if isinstance(ent, Seq) and not ent.xs:
            mark = Opaque('list', lp.uid)
        elif ent is False or ent is True:
            mark = ent
        else:
            raise Unk('loop value')
        sub = type(self)(self.I, self.spec, self.dec, self.ext)
        sub.__dict__.update({k: v for k, v in self.__dict__.items() if k != 'memo'})
        sub.memo = {}
        sub.lphi = dict(self.lphi)
        sub.lphi[lp] = mark
        r = sub(L.back[lp])
        self.rows = self.rows or sub.rows
        if isinstance(mark, Opaque):
            if isinstance(r, Opaque) and r.a[0] == 'appended':
                if len(r.a[2]) != 1:
                    raise Bad('%d elements are collected from one line' % len(r.a[2]))
                return Arr(r.a[2][0], False)
            return Arr(DROP, False)
        if r is mark:
            if not self.rows:
                return mark
            return (not mark) if self.need(('others', n.args[0])) else mark
        return r

    def o_append(self, n):
        l = self(n.args[0])
        v = self(n.args[1])
        if isinstance(l, Opaque) and l.a[0] == 'list':
            return Opaque('appended', l.a[1], (v,))
        if isinstance(l, Opaque) and l.a[0] == 'appended':
            return Opaque('appended', l.a[1], l.a[2] + (v,))
        if isinstance(l, Seq):
            return Seq(*(l.xs + (v,)))
        raise Unk('append')

    def o_lfill(self, n):
        base, iv, ix, val, cond = n.args
        here = True if is_const(cond, True) else self.truth(self(cond))
        if ix.op == 'ivar':
            return Arr(self(val) if here else DROP, False)
        return self.fill(base, ix, val, here)

    def o_store(self, n):
        base, ix, val = n.args
        if ix.op == 'slice' and all(is_const(x, None) for x in ix.args[:2]):
            return self(val)
        return self.fill(base, ix, val, True)

    def fill(self, base, ix, val, here):
        if ix.op == 'ivar' or ix.op != 'tuple':
            raise Unk('fill')
        pos = [self(x) for x in ix.args]
        if not all(isinstance(x, Inv) for x in pos):
            raise Unk('positions %r' % (pos,))
        v = self(val) if here else None
        if isinstance(v, Arr):
            v = v.el
        return Fill(base, tuple(x.a[0] for x in pos), v, here and all(x.a[1] for x in pos))

    def o_fspec(self, n):
        return self.conv(n.args[0], self(n.args[1]))

    def o_fmt(self, n):
        r = Txt([])
        for x in n.args:
            v = self(x)
            r = concat(r, v if isinstance(v, Txt) else self.conv('s', v))
        return r

    def conv(self, c, v):
        """text of a value under a conversion such as s, d, .3f"""
        c = c.lstrip('%')
        k = c[-1:]
        v = unlin(v)
        if isinstance(v, Arr):
            raise Bad('a whole column is written in each line')
        if isinstance(v, Txt):
            if k not in ('s', ''):
                raise Bad('%r is formatted with %%%s' % (v, c))
            return v
        if isinstance(v, bool):
            return Txt([str(v)])
        if isinstance(v, int):
            return Txt([('%' + c) % v])
        if isinstance(v, Lin):
            if k in 'dsi' or k == '':
                if len(v.a[0]) == 1 and v.a[0][0][1] == 1 and not v.a[1]:
                    return Txt([v.a[0][0][0]])
                return Txt([Atom('+', v, 'int', 'sum')])
            raise Bad('%r is formatted with %%%s' % (v, c))
        if isinstance(v, Atom) and v.kind == 'float':
            if k in 'di':
                raise Bad('%r is written without its decimals' % v)
            if k in 'fegFEG':
                p = c[:-1].split('.')
                p = int(p[1]) if len(p) > 1 and p[1] else 6
                if p < 4:
                    raise Bad('%r is written with %d decimals' % (v, p))
            return Txt([v])
        if v is DROP:
            raise Bad("a row adds nothing to a column: the rows after it shift")
        raise Unk('text of %r' % (v,))

    def percent(self, f, v):
        l = f.lit()
        if l is None:
            raise Unk('format')
        xs = list(v.xs) if isinstance(v, Seq) else [v]
        out = Txt([])
        i = 0
        import re
        for m in re.finditer(r'%([-+0 #]*\d*(?:\.\d+)?[a-zA-Z%])|([^%]+)', l):
            if m.group(2) is not None:
                out = concat(out, m.group(2))
            elif m.group(1) == '%':
                out = concat(out, '%')
            else:
                if i >= len(xs):
                    raise Bad('fewer values than the format %r needs' % l)
                out = concat(out, self.conv(m.group(1), xs[i]))
                i += 1
        if i < len(xs):
            raise Bad('more values than the format %r takes' % l)
        return out

    def o_bin(self, n):
        op, a, b = n.args
        x, y = self(a), self(b)
        if op == '%' and isinstance(x, Txt):
            return self.percent(x, y)
        if op == '+' and isinstance(x, Txt) and isinstance(y, Txt):
            return concat(x, y)
        if isinstance(x, Arr) or isinstance(y, Arr):
            t = x.t if isinstance(x, Arr) else y.t
            if isinstance(x, Arr) and isinstance(y, Arr) and x.t != y.t:
                raise Unk('transposed')
            f = lambda v: v.el if isinstance(v, Arr) else v
            return Arr(self.arith(op, f(x), f(y)), t)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            if op in '+-*':
                if isinstance(x, bool) and isinstance(y, bool) and op == '-':
                    raise Bad('truth values are subtracted')
                return {'+': x + y, '-': x - y, '*': x * y}[op]
            if op in '|&^' and isinstance(x, bool) and isinstance(y, bool):
                return {'|': x or y, '&': x and y, '^': x != y}[op]
        if op in ('+', '-') and isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            x, y = self.expand(lin(x)), self.expand(lin(y))
            d = dict(x.a[0])
            s = 1 if op == '+' else -1
            for k, v in y.a[0]:
                d[k] = d.get(k, 0) + s * v
            return unlin(Lin(d, x.a[1] + s * y.a[1]))
        raise Unk('%r %s %r' % (x, op, y))

    def expand(self, v):
        d, c = {}, v.a[1]
        for k, m in v.a[0]:
            if k.row == 'sum':
                for k2, m2 in k.comp.a[0]:
                    d[k2] = d.get(k2, 0) + m * m2
                c += m * k.comp.a[1]
            else:
                d[k] = d.get(k, 0) + m
        return Lin(d, c)

    # -- calls
    def o_icall(self, n):
        if self.fnode is not None and n is self.fnode:
            return Arr(self.file[1], False)
        return self.o_call(n)

    def o_call(self, n):
        f, args, kws = n.args[0], n.args[1], dict(n.args[2])
        if f.op == 'attr':
            return self.method(f.args[0], f.args[1], args, kws, n)
        cn = callname(n) or (f.args[0] if f.op == 'ext' else None)
        if cn is None:
            raise Unk('call %s' % show(n, 3))
        s = cn.rsplit('.', 1)[-1]
        m = getattr(self, 'f_' + s, None)
        if m is None:
            raise Unk('call %s' % cn)
        return m(n, args, kws)

    def f_asarray(self, n, args, kws):
        v = self(args[0])
        if isinstance(v, Seq):
            v = Seq(*v.xs)
        return cast(v, self.dtype(kws.get('dtype', args[1] if len(args) > 1 else None)))

    f_array = f_ascontiguousarray = f_astype = f_asarray

    def f_copy(self, n, args, kws):
        return self(args[0])

    f_list = f_tuple = f_iter = f_copy

    def f_int(self, n, args, kws):
        return cast(self(args[0]), 'int')

    def f_float(self, n, args, kws):
        return cast(self(args[0]), 'float')

    def f_str(self, n, args, kws):
        return self.conv('s', self(args[0]))

    def f_bool(self, n, args, kws):
        return self.truth(self(args[0]))

    def f_join(self, n, args, kws):
        v = self(args[1]) if len(args) > 1 else None
        s = self(args[0])
        if isinstance(v, Seq):
            r = Txt([])
            for i, x in enumerate(v.xs):
                if i:
                    r = concat(r, s)
                r = concat(r, x if isinstance(x, Txt) else self.conv('s', x))
            return r
        raise Unk('join')

    def f_transpose(self, n, args, kws):
        v = self(args[0])
        if isinstance(v, Arr) and len(args) == 1:
            return Arr(v.el, not v.t)
        raise Unk('transpose')

    def f_any(self, n, args, kws):
        v = self(args[0])
        if isinstance(v, Arr):
            return self.exists(self.truth(v.el), n.uid)
        raise Unk('any')

    def f_logical_not(self, n, args, kws):
        v = self(args[0])
        return Arr(not self.truth(v.el), v.t) if isinstance(v, Arr) else not self.truth(v)

    def f_len(self, n, args, kws):
        return self.o_dim(mk('dim', args[0], 0))

    def f_zeros(self, n, args, kws):
        return Opaque('zeros', n.uid)

    f_empty = f_zeros_like = f_full = f_zeros

    def f_ones(self, n, args, kws):
        return Opaque('ones', n.uid)

    def f_unique(self, n, args, kws):
        v = self(args[0])
        if not isinstance(v, Arr):
            raise Unk('unique')
        on = lambda k: k in kws and is_const(kws[k], True)
        out = [Uniq(v.el)]
        if on('return_index'):
            out.append(First(v.el))
        if on('return_inverse'):
            out.append(Inv(v.el, True))
        if on('return_counts'):
            out.append(Opaque('counts'))
        return Seq(*out) if len(out) > 1 else out[0]

    def f_max(self, n, args, kws):
        return Opaque('size', n.uid)

    def f_split(self, n, args, kws, meth='split'):
        v = self(args[0])
        return self.splitter(v, args[1:], kws, meth)

    def splitter(self, v, args, kws, meth):
        if not isinstance(v, Txt):
            raise Unk('split of %r' % (v,))
        sp = kws.get('sep', args[0] if args else None)
        mx = kws.get('maxsplit', args[1] if len(args) > 1 else None)
        sp = None if sp is None else self(sp)
        if isinstance(sp, Txt):
            if len(sp.ps) != 1:
                raise Unk('separator %r' % sp)
            sp = sp.ps[0]
        mx = -1 if mx is None else self(mx)
        if not isinstance(mx, int):
            raise Unk('maxsplit')
        if meth in ('partition', 'rpartition'):
            p = split(v, sp, 1, meth == 'rpartition')
            s = Txt([sp])
            if len(p) == 1:
                return Seq(p[0], Txt([]), Txt([])) if meth == 'partition' else Seq(Txt([]), Txt([]), p[0])
            return Seq(p[0], s, p[1])
        return Seq(*split(v, sp, mx, meth == 'rsplit'))

    def method(self, o, name, args, kws, n):
        if self.fnode is not None and o is self.fnode and self.file[0] == 'text':
            if name == 'readlines' and not args:
                return Arr(self.file[1], False)
            if name == 'read' and not args:
                return Opaque('whole')
            raise Unk('file.%s' % name)
        if o is not None and o.op == 'attr' and show(o, 3).endswith('float_cpu'):
            raise Unk('call')
        v = self(o)
        if isinstance(v, Opaque) and v.a[0] == 'whole' and name in ('splitlines',):
            return Arr(strip(self.file[1], '\n', False, True), False)
        if name in ('split', 'rsplit', 'partition', 'rpartition'):
            return self.splitter(v, args, kws, name)
        if name in ('strip', 'rstrip', 'lstrip'):
            c = self(args[0]).lit() if args else None
            return strip(v, c, name != 'rstrip', name != 'lstrip')
        if name in ('decode', 'encode', 'copy', 'tolist', 'view'):
            return v
        if name == 'astype':
            return cast(v, self.dtype(args[0] if args else kws.get('dtype')))
        if name in ('isdecimal', 'isdigit', 'isnumeric'):
            l = v.lit()
            if l is not None:
                return l.isdecimal()
            if all(isinstance(x, Atom) and x.kind == 'int' for x in v.ps):
                return True
            if any(isinstance(x, str) and not x.isdigit() for x in v.ps):
                return False
            raise Unk('isdecimal of %r' % v)
        if name in ('startswith', 'endswith'):
            l = self(args[0]).lit()
            if isinstance(v, Txt) and l:
                if not v.ps:
                    return False
                e = v.ps[0 if name == 'startswith' else -1]
                if isinstance(e, str):
                    return getattr(e, name)(l)
                if len(l) == 1 and l in '[]:#':
                    return False
            raise Unk(name)
        if name == 'replace' and len(args) == 2:
            a, b = [self(x) for x in args]
            if a.lit() is not None and b.lit() is not None and isinstance(v, Txt) and len(a.lit()) == 1 and a.lit() in '[]:\n':
                return Txt([x.replace(a.lit(), b.lit()) if isinstance(x, str) else x for x in v.ps])
        if name == 'format':
            raise Unk('format')
        raise Unk('%s of %r' % (name, v))


# what each list holds: kind of the elements and how they are indexed
NAMES = ('name', 'axes')
MASK = ('mask', 'axes', 'cell')
LISTS = [
    ('hyperion.utils.trial_ndx:TrialNdx', dict(model_set=NAMES, seg_set=NAMES, trial_mask=MASK), EXTS),
    ('hyperion.utils.trial_key:TrialKey', dict(model_set=NAMES, seg_set=NAMES, tar=MASK, non=MASK, model_cond=('mask', 'opt'), seg_cond=('mask', 'opt'),
                                               trial_cond=('mask', 'opt'), model_cond_name=('name', 'opt'), seg_cond_name=('name', 'opt'),
                                               trial_cond_name=('name', 'opt')), EXTS),
    ('hyperion.utils.trial_scores:TrialScores', dict(model_set=NAMES, seg_set=NAMES, scores=('float', 'axes', 'cell'), score_mask=MASK), EXTS),
    ('hyperion.utils.scp_list:SCPList', dict(key=('name',), file_path=('name',), offset=('int', 'opt'), range_spec=('pair', 'opt')), ('',)),
    ('hyperion.utils.fold_list:FoldList', dict(fold=('int',), key=('name',)), ('',)),
    ('hyperion.utils.train_val_eval_list:TrainValEvalList', dict(key=('name',), part=('int',), part_names=('name', 'bypart', 'part', 'opt')), ('',)),
]
MASKS = {'TrialNdx': 'trial_mask', 'TrialScores': 'score_mask'}


def opens(run):
    """(kind, node, path argument) of the files a run opens"""
    out = []
    for e in run.events:
        n = e.value
        if e.kind != 'call' or not isinstance(n, N) or e.target.op != 'ext':
            continue
        nm = e.target.args[0]
        if nm in ('builtins.open', 'io.open', 'codecs.open'):
            out.append(('text', n, n.args[1][0] if n.args[1] else None, e))
        elif nm in ('h5py.File',):
            out.append(('h5', n, n.args[1][0] if n.args[1] else None, e))
    return out


class ExtEv(Ev):
    """decides what depends on the name of the file"""
    def o_sub(self, n):
        if callname(n.args[0]) == 'os.path.splitext' and is_const(n.args[1], 1):
            return Txt([self.suffix])
        return Ev.o_sub(self, n)

    def method(self, o, name, args, kws, n):
        if o.op == 'param' and name == 'endswith':
            v = self(args[0])
            return any(self.suffix.endswith(x.lit()) for x in (v.xs if isinstance(v, Seq) else (v,)))
        return Ev.method(self, o, name, args, kws, n)


def filenodes(n):
    out = []
    for x in walk(n):
        if x.op in ('icall', 'call') and x.args[0].op == 'ext' and x not in out:
            nm = x.args[0].args[0]
            if nm in ('builtins.open', 'io.open', 'codecs.open'):
                out.append((x, 'text'))
            elif nm == 'h5py.File':
                out.append((x, 'h5'))
    return out


def describe(dec):
    t = []
    for k, v in dec.items():
        if k[0] == 'none':
            t.append('%s %s' % (k[1], 'missing' if v else 'given'))
        elif k[0] == 'zero':
            t.append('%r %s 0' % (k[1], '==' if v else '!='))
        elif k[0] == 'mask':
            t.append('%s is %s' % (k[1], v))
    return ', '.join(t)


class Pair(object):
    def __init__(self, p, rep, c, spec, exts):
        self.p, self.rep, self.c, self.spec = p, rep, c, spec
        self.name = c.name
        self.I = Interp(p)
        self.S = mk('param', 'SAVED', 'self')
        self.I.types[self.S] = c
        self.sf, self.lf = p.find_method(c, 'save'), p.find_method(c, 'load')
        self.rs = self.I.run(self.sf, c, selfnode=self.S)
        self.sloops = dict(self.I.loops)
        self.rl = self.I.run(self.lf, c)
        self.lloops = dict(self.I.loops)
        self.where = '%s:%d' % (self.lf.mod.rel, self.lf.lineno)
        for x in exts:
            self.one(x)

    def evaluator(self, dec, suffix, ext, loops):
        ev = ExtEv(self.I, self.spec, dec, ext)
        ev.S, ev.suffix, ev.loops = self.S, suffix, loops
        return ev

    def one(self, suffix):
        q = '%s%s' % (self.name, '(%s)' % suffix if suffix else '')
        self.rep.unit('%s %s' % (self.c.fq, suffix))
        todo, n = [{}], 0
        while todo and n < 4096:
            dec = todo.pop()
            n += 1
            if dec.get(('mask', 'tar')) and dec.get(('mask', 'non')):
                continue
            try:
                for a, bad in self.case(dec, suffix):
                    d = describe(dec)
                    if bad:
                        self.rep.violation('list', q + ('.' + a if a else ''), bad + (' (%s)' % d if d else ''), self.where)
                    else:
                        self.rep.discharged('list', '%s.%s' % (q, a), d)
            except Need as e:
                for v in e.choices:
                    todo.append({**dec, e.key: v})
            except Bad as e:
                self.rep.violation('list', q, '%s%s' % (e, ' (%s)' % describe(dec) if describe(dec) else ''), self.where)
            except Unk as e:
                self.rep.undec('list', q, '%s%s' % (e, ' (%s)' % describe(dec) if describe(dec) else ''))
        if n >= 4096:
            self.rep.undec('list', q, 'too many cases')

    def pick(self, ev, n):
        while n.op == 'phi':
            n = n.args[1] if ev.truth(ev(n.args[0])) else n.args[2]
        if n.op != 'new':
            raise Unk('load returns %s' % show(n, 4))
        return n

    def writes(self, dec, suffix):
        """what save writes: kind of file, its name, lines by loop or data sets"""
        lines, items, kinds, names, rows = {}, {}, set(), set(), False
        for e in self.rs.events:
            what = None
            if e.kind == 'call' and e.target.op == 'attr' and e.target.args[1] in ('write', 'create_dataset', 'require_dataset', 'writelines'):
                fn, what = e.target.args[0], e.target.args[1]
            elif e.kind == 'mutate' and e.extra[0] == 'store':
                fn, what = e.target, 'store'
            if what is None:
                continue
            fs = [(x, k) for x, k in filenodes(fn) if x is fn]
            if not fs:
                continue
            kind = fs[0][1]
            ev = self.evaluator(dec, suffix, kind, self.sloops)
            ev.path = e.path
            if not all(ev.cell(c) is not None or ev.truth(ev(c)) for c in e.path):
                rows = rows or ev.rows
                continue
            kinds.add(kind)
            names.add(show(fn.args[1][0], 5) if fn.args[1] else '?')
            if what == 'write' and kind == 'text':
                a = e.value.args[0] if e.value.op == 'tuple' else e.value
                if not e.loops:
                    raise Unk('text written outside of a loop')
                t = ev(a)
                if not isinstance(t, Txt):
                    raise Unk('text %r' % (t,))
                k = e.loops[-1]
                lines[k] = concat(lines[k], t) if k in lines else t
            elif kind == 'h5' and what != 'writelines':
                if what == 'store':
                    nm, val = e.extra[1], e.value
                else:
                    a = list(e.value.args)
                    x = e.extra or {}
                    nm = a[0] if a else x.get('name')
                    val = x.get('data', a[-1] if len(a) > 1 else None)
                    if val is None:
                        raise Unk('data set without data')
                nm = ev(nm).lit()
                v = ev(val)
                if what != 'store' and 'dtype' in (e.extra or {}):
                    v = cast(v, ev.dtype(e.extra['dtype']))
                items[nm] = v
            else:
                raise Unk(what)
            rows = rows or ev.rows
        if len(kinds) != 1 or len(names) != 1:
            raise Bad('nothing is saved') if not kinds else Unk('several files')
        return kinds.pop(), names.pop(), lines, items, rows

    def case(self, dec, suffix):
        kind, name, lines, items, rows = self.writes(dec, suffix)
        ev = self.evaluator(dec, suffix, kind, self.lloops)
        obj = self.pick(ev, self.rl.ret)
        heap = {a: v for (o, a), v in self.rl.state.heap.items() if o is obj}
        fns = {}
        for v in heap.values():
            for x, k in filenodes(v):
                fns[x] = k
        if not fns:
            raise Unk('no file is read')
        if set(fns.values()) != {kind}:
            raise Bad('a file saved as %s is read as %s' % tuple({'h5': 'HDF5', 'text': 'text'}[k] for k in (kind, sorted(set(fns.values()) - {kind})[0])))
        out = []
        if any(show(x.args[1][0], 5) != name for x in fns if x.args[1]):
            raise Bad('saved as %s but read from %s' % (name, show(list(fns)[0].args[1][0], 5)))
        fnode = list(fns)[0]
        if len(fns) > 1:
            raise Unk('several files are read')
        if kind == 'h5':
            ev.file, ev.fnode = ('h5', items), fnode
            for a in self.spec:
                out.append(self.field(ev, a, heap.get(a), None, dec))
            return out
        cells = [a for a, s in self.spec.items() if s[0] == 'mask' and 'cell' in s]
        seen = []
        if not lines:
            raise Bad('no line is written')
        if not cells and len(lines) > 1:
            raise Bad('each row is written %d times' % len(lines))
        for L, t in lines.items():
            if not t.ps or t.ps[-1] != '\n' and not (isinstance(t.ps[-1], str) and t.ps[-1].endswith('\n')):
                raise Bad('the line %r is not ended' % t)
            if sum(x.count('\n') for x in t.ps if isinstance(x, str)) != 1:
                raise Bad('%r is not one line' % t)
            ev = self.evaluator(dec, suffix, kind, self.lloops)
            ev.rows = rows
            ev.file, ev.fnode = ('text', t), fnode
            M = None
            if cells:
                ms = {r[0] for x in t.ps if isinstance(x, Atom) and isinstance(x.row, tuple) for r in x.row}
                if len(ms) != 1:
                    raise Unk('trials %s' % (ms,))
                M = ms.pop()
                seen.append(M)
            for a in self.spec:
                if cells and 'axes' not in self.spec[a]:
                    continue
                out.append(self.field(ev, a, heap.get(a), M, dec))
        if cells and sorted(seen) != sorted(cells):
            raise Bad('the lines are those of %s, not of %s' % (', '.join(seen), ', '.join(cells)))
        return out

    def field(self, ev, a, node, M, dec):
        if node is None:
            return a, 'is not set'
        try:
            v = ev(node)
        except Bad as e:
            return a, str(e)
        return a, self.judge(ev, a, v, M, dec, node)

    def col(self, a, k, M):
        return Txt([Atom(a, None, 'name', ((M, k),))])

    def judge(self, ev, a, v, M, dec, node=None):
        """why the loaded value is not the saved one, or None"""
        sp = self.spec[a]
        if isinstance(v, Lossy):
            return v.a[0]
        if M is not None:
            return self.trial(ev, a, v, M, node)
        want = ev.attr(a)
        if want is None:
            return None if v is None else 'was missing and is loaded as %r' % (v,)
        if v is None:
            if sp[0] == 'pair' and all(ev.iszero(x) for x in want.el.xs):
                return None
            return 'is lost'
        if 'bypart' in sp:
            if isinstance(v, Group) and v.a[0] == self.atomtxt(a, (sp[2],)) and v.a[1] == Lin({Atom(sp[2], None, 'int', 'row'): 1}):
                return None
            return self.differs(v, want)
        if not isinstance(v, Arr):
            raise Unk('%s is %r' % (a, v))
        if v.el is DROP:
            return 'rows are dropped'
        if isinstance(v.el, Lossy):
            return v.el.a[0]
        if v.t != want.t:
            return 'is transposed'
        x, y = v.el, want.el
        if sp[0] == 'mask':
            if not isinstance(x, (bool, int)):
                raise Unk('mask %r' % (x,))
            if x != y:
                return 'where it is %s loads as %r' % (y, x)
            return None if isinstance(x, bool) else 'loads as a number, not as a truth value'
        if isinstance(x, Seq) and isinstance(y, Seq) and len(x.xs) == len(y.xs):
            return None if all(self.same(ev, i, j) for i, j in zip(x.xs, y.xs)) else self.differs(v, want)
        return None if self.same(ev, x, y) else self.differs(v, want)

    def atomtxt(self, a, row):
        return Txt([Atom(a, None, 'name', row)])

    def same(self, ev, x, y):
        if x == y:
            return True
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            def red(v):
                v = ev.expand(lin(v))
                return unlin(Lin({k: c for k, c in v.a[0] if not ev.dec.get(('zero', k))}, v.a[1]))
            return red(x) == red(y)
        return False

    def differs(self, v, want):
        return 'is saved as %r and loads as %r' % (want, v)

    def writesto(self, node):
        """some element of this array is written while loading"""
        al = {x for x in walk(node) if x.op == 'alloc'} | {node}
        for e in self.rl.events:
            if e.kind != 'mutate':
                continue
            x = e.target
            while x is not None and x not in al and x.args and x.op in ('sub', 'attr', 'T', 'store', 'lfill', 'lphi'):
                x = x.args[0] if x.op != 'lphi' else self.lloops[x.args[0]].entry.get(x) if x.args[0] in self.lloops else None
            if x is None or x in al:
                return True
        return False

    def trial(self, ev, a, v, M, node=None):
        sp = self.spec[a]
        m, s = [n for n in self.spec if self.spec[n] is NAMES][:2]
        cm, cs = self.col(m, 0, M), self.col(s, 1, M)
        if sp[0] == 'name':
            want = Uniq(cm if a == m else cs)
            return None if v == want else self.differs(v, want)
        if not isinstance(v, Fill):
            if isinstance(v, Opaque) and v.a[0] == 'zeros' and not self.writesto(node):
                if M == a or sp[0] == 'float':
                    return 'trials of %s are not set' % M
                return None
            raise Unk('%s is %r' % (a, v))
        base, pos, val, here = v.a
        b = ev(base)
        if not isinstance(b, (Opaque, Fill)):
            raise Unk('%s starts as %r' % (a, b))
        if isinstance(b, Opaque) and b.a[0] == 'ones':
            return 'starts with every trial set'
        self.shape(ev, a, base, cm, cs)
        on = here and val is not None and val is not False
        mine = (sp[0] == 'mask' and M == a) or sp[0] == 'float'
        if on != mine:
            return 'trials of %s are %sset' % (M, '' if on else 'not ')
        if not on:
            return None
        if pos != (cm, cs):
            return 'is filled at (%r, %r), not at its model and segment' % pos
        if sp[0] == 'float':
            if isinstance(val, Lossy):
                return val.a[0]
            if isinstance(val, Txt) and len(val.ps) == 1:
                val = val.ps[0]
            want = Atom(a, None, 'float', ((M, 0), (M, 1)))
            return None if val == want else self.differs(val, want)
        return None if val is True or val == 1 else 'is set to %r' % (val,)

    def shape(self, ev, a, base, cm, cs):
        n = base.args[1] if base.op == 'alloc' else base
        if n.op != 'call' or not n.args[1] or n.args[1][0].op != 'tuple':
            return
        ds = n.args[1][0].args
        if len(ds) == 2:
            vs = [ev(d) for d in ds]
            if all(isinstance(x, Opaque) and x.a[0] == 'size' and isinstance(x.a[1], Uniq) for x in vs) and \
                    [x.a[1].a[0] for x in vs] != [cm, cs]:
                raise Bad('%s has the shape (%r, %r)' % (a, vs[0].a[1], vs[1].a[1]))


# -- tables written and read with pandas
TEXTCOL = {'segment_id', 'file_id', 'ext_segment_id', 'series_id', 'name', 'segment_type', 'ortho', 'stype', 'slat', 'key', 'info'}
TABLES = [('hyperion.utils.segment_list:SegmentList', ('segments',)), ('hyperion.utils.rttm:RTTM', ('segments',)),
          ('hyperion.utils.ext_segment_list:ExtSegmentList', ('segments', 'ext_segments', 'files')),
          ('hyperion.utils.utt2info:Utt2Info', ('utt_info',))]
READCSV = ['filepath_or_buffer', 'sep']
TOCSV = ['path_or_buf', 'sep', 'na_rep', 'float_format', 'columns', 'header', 'index']


def named(order, args, kws):
    d = dict(zip(order, args))
    d.update(kws)
    return d


def consts(n):
    while n is not None and n.op == 'alloc':
        n = n.args[1]
    if n is not None and n.op in ('list', 'tuple') and all(is_const(x) for x in n.args):
        return [x.args[0] for x in n.args]
    if n is not None and callname(n) in ('builtins.list', 'builtins.tuple', 'numpy.asarray') and n.args[1]:
        return consts(n.args[1][0])
    return None


def dictconst(I, n):
    d = I.dictof(n) if n is not None else None
    if d is None:
        return None
    return {k.args[0]: v for k, v in d if k.op == 'const'}


def istext(n):
    return n is not None and (n.op == 'ext' and n.args[0].rsplit('.', 1)[-1] in ('str', 'str_', 'object', 'unicode_') or
                              is_const(n) and n.args[0] in ('str', 'U', 'object', 'O', 'string'))


def isread(x):
    return x.op in ('call', 'icall') and x.args[0].op == 'ext' and x.args[0].args[0] in ('pandas.read_csv', 'pandas.read_table')


class Table(object):
    def __init__(self, p, rep, c, attrs):
        self.p, self.rep, self.c = p, rep, c
        self.I = I = Interp(p)
        S = mk('param', 'SAVED', 'self')
        I.types[S] = c
        sf, self.lf = p.find_method(c, 'save'), p.find_method(c, 'load')
        rep.unit(c.fq)
        rs = I.run(sf, c, selfnode=S)
        rl = I.run(self.lf, c)
        self.where = '%s:%d' % (self.lf.mod.rel, self.lf.lineno)
        saved = {}
        for e in rs.events:
            if e.kind == 'call' and e.target.op == 'attr' and e.target.args[1] == 'to_csv':
                d = named(TOCSV, list(e.value.args) if e.value.op == 'tuple' else [e.value], e.extra or {})
                x, cols = e.target.args[0], consts(d.get('columns'))
                while x.op in ('sub', 'alloc', 'objcopy') or x.op in ('call', 'icall') and x.args[0].op == 'attr' and x.args[0].args[1] in ('copy', 'reset_index'):
                    if x.op == 'sub':
                        cols = cols or consts(x.args[1])
                        x = x.args[0]
                    elif x.op == 'alloc':
                        x = x.args[1]
                    elif x.op == 'objcopy':
                        x = x.args[0]
                    else:
                        x = x.args[0].args[0]
                if x.op == 'attr' and x.args[0] is S:
                    saved.setdefault(x.args[1], []).append((d, cols, e))
        obj = rl.ret
        if obj.op != 'new':
            rep.undec('table', c.name, 'load returns %s' % show(obj, 4))
            return
        for a in attrs:
            q = '%s.%s' % (c.name, a)
            if a not in saved:
                rep.violation('table', q, 'is not saved', self.where)
                continue
            node = self.present(rl.state.heap.get((obj, a)), saved[a][0][0].get('path_or_buf', NONE), q)
            reads = [x for x in walk(node) if x.op in ('call', 'icall') and x.args[0].op == 'ext' and
                     x.args[0].args[0] in ('pandas.read_csv', 'pandas.read_table')] if node is not None else []
            if len(reads) > 1:
                same = [x for x in reads if show(named(READCSV, x.args[1], dict(x.args[2])).get('filepath_or_buffer', NONE), 5) ==
                        show(saved[a][0][0].get('path_or_buf', NONE), 5)]
                if not same:
                    rep.violation('table', q, 'is saved in %s, which is not read back into it' % show(saved[a][0][0].get('path_or_buf', NONE), 5), self.where)
                    continue
                reads = same
            if len(reads) != 1 or len(saved[a]) != 1:
                rep.undec('table', q, '%d tables are read, %d written' % (len(reads), len(saved[a])))
                continue
            d, cols, e = saved[a][0]
            self.judge(q, node, d, cols, e, reads[0])

    def present(self, n, path, q):
        """the value when the saved files are there"""
        if n is None:
            return None
        m, n0 = {}, n

        def fileof(c):
            return c.op in ('call', 'icall') and c.args[0].op == 'ext' and len(c.args[1]) == 1 and \
                c.args[0].args[0] in ('os.path.isfile', 'os.path.exists', 'posixpath.isfile', 'posixpath.exists')

        def true(c):
            if c.op == 'not':
                v = true(c.args[0])
                return None if v is None else not v
            if c.op == 'phi':
                v = true(c.args[0])
                return None if v is None else true(c.args[1] if v else c.args[2])
            if is_const(c) and isinstance(c.args[0], bool):
                return c.args[0]
            if c.op in ('and', 'or'):
                vs = [true(x) for x in c.args[0]]
                if (c.op == 'or') in vs:
                    return c.op == 'or'
                return None if None in vs else c.op == 'and'
            if c.op == 'cmp' and c.args[0] in ('is', 'is not') and is_const(c.args[2], None):
                y = c.args[1]
                while y.op == 'phi' and true(y.args[0]) is not None:
                    y = y.args[1] if true(y.args[0]) else y.args[2]
                if isread(y) or is_const(y, None):
                    return (c.args[0] == 'is') == is_const(y, None)
            return True if fileof(c) and show(c.args[1][0], 6) == show(path, 6) else None
        for x in walk(n):
            if x.op != 'phi':
                continue
            v = true(x.args[0])
            if v is not None:
                m[x] = x.args[1] if v else x.args[2]
                continue
            got = [any(show(r, 5) == show(path, 5) for y in walk(b) if isread(y) for r in (named(READCSV, y.args[1], dict(y.args[2])).get('filepath_or_buffer', NONE),)) for b in x.args[1:3]]
            fs = [c for c in walk(x.args[0]) if fileof(c)]
            if got[0] != got[1] and len(fs) == 1:
                self.rep.violation('table', q, 'saved in %s, but read or not depending on %s' % (show(path, 5), show(fs[0].args[1][0], 6)), self.where)
        while n in m:
            n = m[n]
        r = subst(n, m) if m else n
        if not any(isread(x) for x in walk(r)) and any(isread(x) for x in walk(n0)):
            self.rep.violation('table', q, 'saved in %s, but not read when that is there' % show(path, 5), self.where)
        return r

    def judge(self, q, node, d, cols, e, rd):
        rep = self.rep
        r = named(READCSV, rd.args[1], dict(rd.args[2]))
        bad = lambda m: rep.violation('table', q, m, self.where)
        n0 = len(rep.findings)
        if e.path and any(True for _ in e.path):
            rep.undec('table', q, 'saved only if %s' % ' and '.join(show(c, 4) for c in e.path))
            return
        if show(d.get('path_or_buf', NONE), 5) != show(r.get('filepath_or_buffer', NONE), 5):
            bad('is saved in %s and read from %s' % (show(d.get('path_or_buf', NONE), 5), show(r.get('filepath_or_buffer', NONE), 5)))
        s1, s2 = d.get('sep', const(',')), r.get('sep', r.get('delimiter', const(',')))
        ws = is_const(s2) and s2.args[0] in ('\\s+',)
        if show(s1, 3) != show(s2, 3) and not (ws and is_const(s1, ' ')):
            bad('columns are separated by %s when saved and by %s when loaded' % (show(s1, 3), show(s2, 3)))
        if not is_const(d.get('index', TRUE), False):
            bad('the index is written as a column')
        hd = d.get('header', TRUE)
        hr = r.get('header', const('infer'))
        names = consts(r.get('names'))
        reads_header = not (is_const(hr, None) or is_const(hr, 'infer') and 'names' in r)
        if is_const(hd, True) != reads_header:
            bad('a header is %swritten and %sread' % ('' if is_const(hd, True) else 'not ', '' if reads_header else 'not '))
        if 'names' in r:
            if names is None or cols is None:
                rep.undec('table', q, 'columns')
            elif names != cols:
                bad('the columns %s are read as %s' % (cols, names))
        elif cols is not None and not reads_header:
            rep.undec('table', q, 'columns have no names')
        else:
            # whole table: its first column is the key
            ren = [x for x in walk(node) if x.op in ('icall', 'call') and x.args[0].op == 'attr' and x.args[0].args[1] == 'rename']
            m = dictconst(self.I, dict(ren[0].args[2]).get('columns')) if ren else None
            if m is None:
                rep.undec('table', q, 'names of the columns')
            elif {k: v.args[0] for k, v in m.items() if is_const(v)} != {0: 'key'}:
                bad('the columns are named %s' % {k: show(v) for k, v in m.items()})
        ff = d.get('float_format')
        if ff is not None and is_const(ff) and isinstance(ff.args[0], str):
            t = ff.args[0].lstrip('%')
            if t[-1:] in 'di' or t[-1:] in 'f' and '.' in t and int(t[:-1].split('.')[1] or 0) < 3:
                bad('times are written with the format %s' % ff.args[0])
        # identifiers made of digits, or that read as missing values
        dt = r.get('dtype')
        text = [x for x in (cols or ['key']) if x in TEXTCOL]
        ok = set(text) if istext(dt) else set()
        if dt is not None and dt.op == 'param':
            dflt = self.default(dt.args[1])
            if dflt is not None and {0, 1} <= set(dflt):
                ok = set(text)
        m = dictconst(self.I, dt) if dt is not None else None
        if m:
            ok |= {k for k, v in m.items() if istext(v)}
            if 0 in m and istext(m[0]):
                ok.add('key')
        for x in text:
            if x not in ok:
                bad('the column %s is read without its type: names made of digits become numbers' % x)
        keep = is_const(r.get('na_filter', TRUE), False) or is_const(r.get('keep_default_na', TRUE), False)
        if not keep:
            bad('names such as NA, null or nan in the columns %s are read as missing values' % ', '.join(text))
        if 'na_rep' in d and keep and 'na_values' not in r:
            bad('missing values are written as %s and read as text' % show(d['na_rep']))
        if len(rep.findings) == n0:
            rep.discharged('table', q, ', '.join(map(str, cols or ['all columns'])))

    def default(self, name):
        import ast
        a = self.lf.node.args
        ps = [x.arg for x in a.args]
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        e = ds.get(name)
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return [k.value for k, v in zip(e.keys, e.values) if (v.attr if isinstance(v, ast.Attribute) else getattr(v, 'id', '')) in ('str', 'str_', 'object')]
        return None


def check(p, rep, tier):
    n = 0
    for fq, spec, exts in LISTS:
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        n += 1
        Pair(p, rep, c, spec, exts)
    for fq, attrs in TABLES:
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        n += 1
        Table(p, rep, c, attrs)
    rep.require('lists', n, 3)
