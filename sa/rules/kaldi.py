"""C04: Kaldi archive layout.  The writer is interpreted into a sequence of wire
items with symbolic sizes; every reader (full, row slice, shape, sequential or
random) is interpreted over a symbolic file positioned after the writer's token,
and its reads/seeks are compared with that layout as polynomials in the matrix
dimensions.  Quantisers are compared as affine maps (decode after encode)."""
import struct
from ..interp import Interp, neg
from ..ir import *
from ..poly import Rat, rat, num, atom, same
from ..project import AnalysisBroken

IO = 'hyperion.utils.kaldi_io_funcs'
KM = 'hyperion.utils.kaldi_matrix'
ITEM = {'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'int32': 4, 'uint32': 4, 'float32': 4, 'float64': 8, 'int64': 8, 'float': 8}


def fn(p, mod, q):
    for f in p.all_funcs([mod]):
        if f.fq == mod + ':' + q:
            return f
    raise AnalysisBroken('%s:%s' % (mod, q))


def dtname(n):
    if n is None:
        return None
    if n.op == 'const' and isinstance(n.args[0], str):
        return n.args[0].lstrip('<=')
    if n.op == 'ext':
        return n.args[0].split('.')[-1]
    if callname(n) == 'numpy.dtype' and n.args[1]:
        return dtname(n.args[1][0])
    return None


def strip(n):
    while n.op == 'alloc' and n.args[1].op == 'call':
        n = n.args[1]
    return n


class Wire(object):
    """symbolic file + byte strings"""

    def __init__(self, p, token=None):
        self.p = p
        self.I = Interp(p)
        self.F = mk('param', 'wire', 'f')
        self.token = token
        self.dtype_of = {}      # array atom -> dtype name assumed
        self.I.call_hook = self.hook
        self.I.opaque_hook = self.ohook

    # -- hooks
    def ohook(self, I, f, env, st, node):
        if not f.fq.startswith(IO + ':'):
            return None
        nm = f.name
        fv = env.get('f')
        if fv is not self.F:
            return None
        if nm == 'peek' and self.token is not None:
            return const(self.token[:1].encode())
        if nm == 'read_token' and self.token is not None:
            I.emit('io', self.F, const(0), st, node, ('token', None))
            return const(self.token)
        if nm == 'write_token':
            I.emit('io', self.F, env.get('token'), st, node, ('wtoken', None))
            return NONE
        return None

    def hook(self, I, f, args, kws, st, node):
        if f.op == 'attr' and f.args[0] is self.F:
            nm = f.args[1]
            if nm == 'read':
                k = mk('fread', '%s#%d' % (I.allocid(node), I.seq), args[0] if args else mk('unk', 'all'))
                I.emit('io', self.F, args[0] if args else None, st, node, ('read', k))
                return k
            if nm == 'seek':
                wh = args[1] if len(args) > 1 else kws.get('whence', const(0))
                I.emit('io', self.F, args[0], st, node, ('skip' if is_const(wh, 1) else 'abs', None))
                return NONE
            if nm == 'write':
                I.emit('io', self.F, args[0], st, node, ('write', None))
                return NONE
            if nm == 'peek':
                return mk('fpeek', I.allocid(node), *args)
        if f.op == 'ext' and f.args[0] == 'builtins.isinstance' and len(args) == 2 and args[0] in self.shapes:
            if args[1].op == 'cls':
                return FALSE
            if args[1].op == 'ext':
                return const(args[1].args[0] == 'numpy.ndarray')
        if f.op == 'ext' and f.args[0] == 'struct.unpack' and len(args) == 2:
            return self.unpack(args[0], args[1])
        if f.op == 'ext' and f.args[0] == 'struct.calcsize' and len(args) == 1 and args[0].op == 'const':
            return const(struct.calcsize(args[0].args[0]))
        if f.op == 'ext' and f.args[0] == 'builtins.len' and len(args) == 1:
            b = self.blen(args[0]) if self.isbytes(args[0]) else None
            c = b.const() if b is not None else None
            if c is not None and c.denominator == 1:
                return const(int(c))
        return None

    # -- bytes
    def isbytes(self, n):
        n0 = strip(n)
        return n.op == 'fread' or callname(n) in ('struct.pack', 'numpy.tobytes', 'builtins.bytes', 'numpy.tostring') or \
            (n.op in ('bin', 'iop', 'lsum') and self.isbytes(n.args[1] if n.op != 'lsum' else n.args[0])) or \
            (n.op == 'phi' and self.isbytes(n.args[1])) or (n.op == 'const' and isinstance(n.args[0], bytes)) or \
            (n.op == 'bslice') or (n0 is not n and self.isbytes(n0))

    def parts(self, n):
        n = strip(n)
        if n.op in ('bin', 'iop') and n.args[0] == '+':
            a, b = self.parts(n.args[1]), self.parts(n.args[2])
            return None if a is None or b is None else a + b
        if callname(n) == 'builtins.bytes' and not n.args[1]:
            return []
        if callname(n) == 'builtins.bytes' and len(n.args[1]) == 1 and self.isbytes(n.args[1][0]):
            return self.parts(n.args[1][0])
        if n.op == 'const' and n.args[0] in (b'', ''):
            return []
        if n.op == 'lsum':
            a = self.parts(n.args[0])
            return None if a is None else a + [n]
        if n.op == 'sub' and n.args[1].op == 'slice':
            r = self.bslice(n)
            return r
        return [n]

    def blen(self, n, dims=None):
        n = strip(n)
        if n.op == 'const' and isinstance(n.args[0], bytes):
            return num(len(n.args[0]))
        if n.op == 'fread':
            return self.R(n.args[1])
        if callname(n) == 'struct.pack' and n.args[1][0].op == 'const':
            try:
                return num(struct.calcsize(n.args[1][0].args[0]))
            except Exception:
                return None
        if callname(n) == 'builtins.bytes' and not n.args[1]:
            return num(0)
        if n.op in ('bin', 'iop') and n.args[0] == '+':
            a, b = self.blen(n.args[1]), self.blen(n.args[2])
            return None if a is None or b is None else a + b
        if n.op == 'lsum' and is_const(n.args[3], True):
            a, b = self.blen(n.args[0]), self.blen(n.args[2])
            t = self.trips(n.args[1])
            return None if a is None or b is None or t is None else a + b * t
        if callname(n) in ('numpy.tobytes', 'numpy.tostring'):
            x = n.args[1][0]
            a, b = self.nelem(x), self.item(x)
            return None if a is None or b is None else a * b
        if n.op == 'phi':
            a, b = self.blen(n.args[1]), self.blen(n.args[2])
            return a if a is not None and b is not None and same(a, b) else None
        if n.op == 'sub' and n.args[1].op == 'slice':
            ps = self.parts(n)
            if ps is None or ps == [n]:
                return None
            t = num(0)
            for x in ps:
                b = self.blen(x)
                if b is None:
                    return None
                t = t + b
            return t
        if n.op == 'bslice':
            return n.args[1] - n.args[0] if False else None
        return None

    def bslice(self, n):
        """byte string slice with constant lower bound on a part boundary"""
        lo, hi = n.args[1].args[0], n.args[1].args[1]
        ps = self.parts(n.args[0])
        if ps is None or ps == [n.args[0]] and not self.isbytes(n.args[0]):
            return [n]
        out, pos, on = [], num(0), is_const(lo, None) or is_const(lo, 0)
        lo = num(0) if is_const(lo, None) else self.R(lo)
        hi_ = None if is_const(hi, None) else self.R(hi)
        if same(lo, num(0)):
            on = True
        for x in ps:
            b = self.blen(x)
            if hi_ is not None and same(pos, hi_):
                return out
            if not on and same(pos, lo):
                on = True
            if b is None:
                if on:
                    out.append(x)
                    if hi_ is not None:
                        return [n]
                    pos = None
                    continue
                return [n]
            if not on and callname(x) == 'struct.pack':
                # cut inside a packed header on a field boundary
                d = (lo - pos).const()
                k = self.cutpack(x, int(d)) if d is not None and 0 < d < (b.const() or 0) else None
                if k is not None:
                    out.append(k)
                    on = True
                    pos = pos + b
                    continue
            if on:
                out.append(x)
            if pos is None:
                continue
            pos = pos + b
        if not on:
            return [n]
        if hi_ is not None and (pos is None or not same(pos, hi_)):
            return [n]
        return out

    def cutpack(self, x, d):
        fmt = x.args[1][0].args[0]
        pre = fmt[0] if fmt[0] in '<>=!@' else ''
        codes = fmt[len(pre):]
        off = 0
        for i, c in enumerate(codes):
            if off == d:
                return mk('call', ext('struct.pack'), (const(pre + codes[i:]),) + x.args[1][1 + i:], ())
            off += struct.calcsize(pre + c)
        return None

    def unpack(self, fmt, x):
        if fmt.op != 'const':
            return None
        f = fmt.args[0]
        pre = f[0] if f[0] in '<>=!@' else ''
        codes = f[len(pre):]
        if any(c.isdigit() for c in codes):
            return None
        if x.op == 'phi':
            a, b = self.unpack(fmt, x.args[1]), self.unpack(fmt, x.args[2])
            if a is None or b is None:
                return None
            return tup(*[phi_(x.args[0], u, v) for u, v in zip(a.args, b.args)])
        out, off = [], 0
        ps = self.parts(x)
        total = struct.calcsize(f)
        for c in codes:
            out.append(self.field(ps, off, pre + c) if ps is not None else mk('field', x, off, c))
            off += struct.calcsize(pre + c)
        n = num(0)
        for q in ps or []:
            b = self.blen(q)
            n = None if b is None or n is None else n + b
        if ps and n is not None and n.const() is not None and n.const() != total:
            self.I.emit('badunpack', const(total), const(int(n.const())), self.st0, None)
        return tup(*out)

    st0 = None

    def field(self, ps, off, code):
        pos = 0
        for x in ps:
            b = self.blen(x)
            b = b.const() if b is not None else None
            if b is None:
                b = 10 ** 9 if x.op == 'fread' else None
                if b is None:
                    break
            b = int(b)
            if pos <= off < pos + b:
                if callname(x) == 'struct.pack':
                    fm = x.args[1][0].args[0]
                    pre = fm[0] if fm[0] in '<>=!@' else ''
                    o = pos
                    for i, c in enumerate(fm[len(pre):]):
                        if o == off:
                            if c != code[-1] or endian(pre) != endian(code[:-1]):
                                return mk('wrongfield', x, off - pos, code)
                            return x.args[1][1 + i]
                        o += struct.calcsize(pre + c)
                    return mk('wrongfield', x, off - pos, code)
                if x.op == 'fread':
                    return mk('wire', x, off - pos, endian(code[:-1]) + code[-1])
                break
            pos += b
        return mk('field', tup(*ps), off, code[-1])

    # -- sizes
    def closed(self, n):
        """closed form of an induction variable"""
        L = self.I.loops.get(n.args[0])
        if L is None or L.ivar is None or n not in getattr(L, 'back', {}):
            return None
        b, e = L.back[n], L.entry[n]
        d = self.R(b, inner=n) - atom(n)
        if any(a.op == 'lphi' and a.args[0] == n.args[0] for a in d.atoms()):
            return None
        if any(a.op == 'ivar' for a in d.atoms()):
            return None
        return self.R(e) + d * atom(L.ivar)

    def R(self, n, inner=None):
        def f(x):
            if x.op == 'lphi' and x is not inner:
                return self.closed(x)
            if x.op == 'attr' and x.args[1] == 'itemsize':
                d = dtname(x.args[0])
                if d in ITEM:
                    return num(ITEM[d])
                if x.args[0].op == 'attr' and x.args[0].args[1] == 'dtype':
                    return self.item(x.args[0].args[0])
                return self.item(x.args[0])
            if x.op == 'dim':
                s = self.shape(x.args[0])
                if s is not None and -len(s) <= x.args[1] < len(s):
                    return s[x.args[1]]
            if x.op == 'attr' and x.args[1] == 'size':
                return self.nelem(x.args[0])
            if x.op == 'attr' and x.args[1] == 'nbytes':
                a, b = self.nelem(x.args[0]), self.item(x.args[0])
                return a * b if a is not None and b is not None else None
            if x.op == 'size':
                return self.nelem(x.args[0])
            if callname(x) == 'builtins.len' and len(x.args[1]) == 1:
                return self.blen(x.args[1][0])
            if callname(x) == 'struct.calcsize' and x.args[1][0].op == 'const':
                return num(struct.calcsize(x.args[1][0].args[0]))
            if x.op == 'dim' and x.args[1] == 0 and self.isbytes(x.args[0]):
                return self.blen(x.args[0])
            return None
        return rat(n, f)

    def trips(self, iv):
        r = iv.args[0]
        if callname(r) == 'builtins.range':
            a = r.args[1]
            if len(a) == 1:
                return self.R(a[0])
            if len(a) == 2:
                return self.R(a[1]) - self.R(a[0])
        return None

    def item(self, n):
        n = strip(n)
        if n in self.dtype_of:
            return num(ITEM[self.dtype_of[n]])
        cn = callname(n)
        d = None
        if cn in ('numpy.astype', 'numpy.frombuffer', 'numpy.asarray', 'numpy.array', 'numpy.zeros', 'numpy.empty', 'numpy.ones'):
            d = dtname(kwof(n, 'dtype'))
            if d is None and cn in ('numpy.asarray', 'numpy.array') and kwof(n, 'dtype') is None:
                return self.item(n.args[1][0])
            return num(ITEM[d]) if d in ITEM else None
        if n.op == 'store' or n.op == 'T' or n.op == 'lfill':
            return self.item(n.args[0])
        if cn in ('numpy.reshape', 'numpy.ravel', 'numpy.flatten', 'numpy.transpose', 'numpy.copy', 'numpy.asarray'):
            return self.item(n.args[1][0])
        if n.op == 'phi':
            a, b = self.item(n.args[1]), self.item(n.args[2])
            return a if a is not None and b is not None and same(a, b) else None
        return None

    def shape(self, n):
        n = strip(n)
        cn = callname(n)
        if n in self.shapes:
            return self.shapes[n]
        if cn in ('numpy.astype', 'numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.nan_to_num', 'numpy.zeros_like') and n.args[1]:
            return self.shape(n.args[1][0])
        if n.op in ('store', 'lfill', 'extendN'):
            return self.shape(n.args[0])
        if n.op in ('lfin', 'lphi'):
            l = n.args[2] if n.op == 'lfin' else n
            L = self.I.loops.get(n.args[0])
            e = getattr(L, 'entry', {}).get(l) if L is not None else None
            b = getattr(L, 'back', {}).get(l) if L is not None else None
            if e is not None and b is not None and b.op == 'store' and b.args[0] is l:
                return self.shape(e)
            return None
        if n.op == 'T':
            s = self.shape(n.args[0])
            return None if s is None else s[::-1]
        if cn in ('numpy.transpose',) and not n.args[2] and len(n.args[1]) == 1:
            s = self.shape(n.args[1][0])
            return None if s is None else s[::-1]
        if cn in ('numpy.ravel', 'numpy.flatten'):
            e = self.nelem(n.args[1][0])
            return None if e is None else [e]
        if cn == 'numpy.reshape' and len(n.args[1]) > 1:
            sh = n.args[1][1]
            if sh.op == 'tuple':
                return [self.R(x) for x in sh.args]
            return [self.R(sh)] if not is_const(sh, -1) else [self.nelem(n.args[1][0])]
        if cn in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full') and n.args[1]:
            sh = n.args[1][0]
            if sh.op == 'tuple':
                return [self.R(x) for x in sh.args]
            if sh.op == 'shape':
                return self.shape(sh.args[0])
            return [self.R(sh)]
        if cn == 'numpy.frombuffer':
            b, i = self.blen(n.args[1][0]), self.item(n)
            return None if b is None or i is None else [b / i]
        if n.op == 'un':
            return self.shape(n.args[1])
        if n.op == 'bin':
            a, b = self.shape(n.args[1]), self.shape(n.args[2])
            if a is None or b is None:
                return a if b is None and self.scalar(n.args[2]) else b if a is None and self.scalar(n.args[1]) else None
            return a if len(a) >= len(b) else b
        if n.op == 'sub' and n.args[1].op == 'tuple':
            s = self.shape(n.args[0])
            ix = n.args[1].args
            if s is not None and len(ix) == len(s):
                out = []
                for x, d in zip(ix, s):
                    if x.op == 'slice':
                        if not all(is_const(a, None) for a in x.args):
                            return None
                        out.append(d)
                    elif x.op not in ('ivar', 'const', 'lphi', 'bin'):
                        return None
                return out
        if n.op == 'phi':
            a, b = self.shape(n.args[1]), self.shape(n.args[2])
            if a is not None and b is not None and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
                return a
        return None

    def scalar(self, n):
        return n.op in ('const', 'attr', 'wire', 'param', 'call', 'bin', 'sub', 'ivar', 'phi') and self.shape(n) is None

    def nelem(self, n):
        s = self.shape(n)
        if s is None or any(x is None for x in s):
            return None
        t = num(1)
        for x in s:
            t = t * x
        return t

    shapes = {}


def endian(pre):
    return '>' if pre in ('>', '!') else ''


def phi_(c, a, b):
    return a if a is b else mk('phi', c, a, b)


class Layout(object):
    """what the writer puts after the token"""

    def __init__(self):
        self.fields = []       # (offset Rat, size Rat, node, kind)
        self.total = num(0)
        self.token = None
        self.problem = None


def write_layout(W, run, base):
    L = Layout()
    base = mandatory(run, base)
    for e in run.events:
        if e.kind != 'io':
            continue
        k = e.extra[0]
        if any(c not in base for c in e.path) or e.loops:
            L.problem = 'write under a condition or in a loop (%s)' % e.site
            return L
        if k == 'wtoken':
            if e.value.op != 'const':
                L.problem = 'token not constant: %s' % show(e.value)
                return L
            L.token = e.value.args[0]
            L.total = num(0)
            L.fields = []
            L.site = e.site
        elif k == 'write':
            ps = W.parts(e.value)
            if ps is None:
                L.problem = 'written data not resolved: %s' % show(e.value, 4)
                return L
            for x in ps:
                b = W.blen(x)
                if b is None:
                    L.problem = 'size of written data not known: %s' % show(x, 5)
                    L.unknown = x
                    L.site = e.site
                    return L
                L.fields.append((L.total, b, x))
                L.total = L.total + b
                L.site = e.site
    return L


def mandatory(run, base):
    """path conditions every returning path satisfies (checked by an assert or a raise before)"""
    out = set(base)
    rets = [set(e.path) for e in run.events if e.kind == 'return' and len(e.stack) == 1]
    if rets:
        out |= set.intersection(*rets)
    for e in run.events:
        if e.kind == 'assert' and e.target is not None:
            out.add(e.target)
            if e.target.op == 'and':
                out |= set(e.target.args[0])
        if e.kind == 'raise' and e.path:
            out.add(neg(e.path[-1]))
    return out


def wiremap(W, L, run, base, sub=None):
    """position of each fread of the reader; returns (position after, list of problems, map wire->writer node)"""
    pos, mp, prob = num(0), {}, []
    und = []
    freads = {}

    def conv(r):
        """rewrite wire atoms in r by writer values"""
        out = {}
        for a in r.atoms():
            if a.op == 'wire':
                w = field_at(a)
                if w is not None:
                    out[a] = W.R(w)
        r = r.subst(out) if out else r
        return r.subst(sub) if sub else r

    def field_at(a):
        fr, off, code = a.args
        if fr not in freads:
            return None
        want = freads[fr] + num(off)
        for o, b, x in L.fields:
            if callname(x) == 'struct.pack' and x.args[1][0].op == 'const':
                fm = x.args[1][0].args[0]
                pre = fm[0] if fm[0] in '<>=!@' else ''
                oo = 0
                for i, c in enumerate(fm[len(pre):]):
                    if same(o + num(oo), want):
                        if endian(pre) + c != code:
                            prob.append('field at byte %s is written as %r but read as %r' % (want, endian(pre) + c, code))
                        return x.args[1][1 + i]
                    oo += struct.calcsize(pre + c)
        return None
    started = False
    base = mandatory(run, base)
    for e in run.events:
        if e.kind != 'io':
            continue
        k, fr = e.extra
        if k == 'token':
            pos, started = num(0), True
            continue
        if k == 'abs':
            und.append('absolute seek at %s' % e.site)
            return None, prob, und, conv, freads
        if k not in ('read', 'skip'):
            continue
        if e.value is None:
            und.append('unbounded read at %s' % e.site)
            return None, prob, und, conv, freads
        if fr is not None and not e.loops:
            freads[fr] = pos
        sz = conv(W.R(e.value))
        mult = num(1)
        for lp in e.loops:
            t = W.trips(lp.ivar) if lp.ivar is not None else None
            if t is None:
                und.append('loop count at %s' % e.site)
                return None, prob, und, conv, freads
            mult = mult * conv(t)
        conds = [c for c in e.path if c not in base]
        for c in list(conds):
            for lp in e.loops:
                k = some_rounds(c, lp.ivar, W, conv)
                if k is not None and len(e.loops) == 1:
                    mult = k
                    conds.remove(c)
                    break
        amount = sz * mult
        for c in conds:
            z = zero_when_false(c, amount, W, conv)
            if z is None:
                und.append('condition %s at %s' % (show(c, 5), e.site))
                W.split = c
                return None, prob, und, conv, freads
            if z is False:
                prob.append('%d: %s bytes are skipped or read only when %s' % (e.site.line, amount, show(c, 5)))
        pos = pos + amount
    return pos, prob, und, conv, freads


def some_rounds(c, iv, W, conv):
    """number of rounds of the loop over range(n) for which c, a comparison of the loop variable, holds"""
    if iv is None or not any(x is iv for x in walk(c)):
        return None
    if c.op == 'not':
        k = some_rounds(c.args[0], iv, W, conv)
        return None if k is None else conv(W.trips(iv)) - k
    if c.op != 'cmp' or callname(iv.args[0]) != 'builtins.range' or len(iv.args[0].args[1]) != 1:
        return None
    op, a, b = c.args
    n = conv(W.trips(iv))
    if b is iv and a is not iv and not any(x is iv for x in walk(a)):
        k = conv(W.R(a))
        return {'<': n - num(1) - k, '<=': n - k, '==': num(1), '!=': n - num(1), '>': k, '>=': k + num(1)}.get(op)
    if a is iv and not any(x is iv for x in walk(b)):
        k = conv(W.R(b))
        return {'<': k, '<=': k + num(1), '==': num(1), '!=': n - num(1), '>': n - num(1) - k, '>=': n - k}.get(op)
    return None


def zero_of(c, W, conv):
    """(X, True) when c says X == 0; (X, False) when it says X != 0 or X > 0"""
    if c.op == 'not':
        r = zero_of(c.args[0], W, conv)
        return None if r is None else (r[0], not r[1])
    if c.op in ('bin', 'iop', 'param', 'wire', 'phi'):
        return conv(W.R(c)), False
    if c.op == 'cmp' and c.args[0] in ('==', '!='):
        a, b = c.args[1], c.args[2]
        if is_const(b, 0):
            return conv(W.R(a)), c.args[0] == '=='
        if is_const(a, 0):
            return conv(W.R(b)), c.args[0] == '=='
    if c.op == 'cmp' and c.args[0] == '<' and is_const(c.args[1], 0):
        return conv(W.R(c.args[2])), False
    if c.op == 'cmp' and c.args[0] == '<=' and is_const(c.args[2], 0):
        return conv(W.R(c.args[1])), True
    return None


def solve(r):
    for a in sorted((a for a in r.atoms() if r.degree(a) == 1 and a.op == 'dim'), key=lambda a: a.uid) + \
            sorted((a for a in r.atoms() if r.degree(a) == 1 and a.op == 'param'), key=lambda a: a.uid):
        co = Rat({m: v for m, v in r.p.items() if a in m}, r.q).subst({a: num(1)})
        if a in co.atoms():
            continue
        rest = Rat({m: v for m, v in r.p.items() if a not in m}, r.q)
        return {a: -(rest / co)}
    return None


def explore(mkW, L, f, args, base, pos_atoms, sub=None, depth=0):
    """run f, splitting on undecided `X == 0` conditions; yields leaves"""
    W = mkW()
    run = W.I.run(f, f.cls, args=args, assume=tuple(base))
    W.split = None
    res = wiremap(W, L, run, base, sub)
    if res[0] is None and W.split is not None and depth < 4:
        z = zero_of(W.split, W, res[3])
        if z is not None:
            X, iszero = z
            c = W.split
            t = solve(X)
            mono = len(X.p) == 1 and all(a in pos_atoms for m in X.p for a in m)
            if X.const() is not None:
                zero = X.const() == 0
                for y in explore(mkW, L, f, args, list(base) + [c if zero == iszero else neg(c)], pos_atoms, sub, depth + 1):
                    yield y
                return
            if t is not None:
                for zero in (True, False):
                    if zero and mono:
                        continue
                    cc = c if zero == iszero else neg(c)
                    ns = sub
                    if zero:
                        ns = {a: v.subst(t) for a, v in (sub or {}).items()}
                        ns.update(t)
                    for y in explore(mkW, L, f, args, list(base) + [cc], pos_atoms, ns, depth + 1):
                        yield y
                return
    yield W, run, res, base, sub


def zero_when_false(c, amount, W, conv):
    """c is `x > 0` / `x != 0`: is amount zero when x is?"""
    if c.op == 'cmp' and c.args[0] in ('<', '!=', '<='):
        a, b = c.args[1], c.args[2]
        if a.op == 'const' and isinstance(a.args[0], int) and c.args[0] in ('<', '<=') and a.args[0] + (c.args[0] == '<') >= 2:
            # k < x with k >= 1: x = k must move nothing
            r = conv(W.R(b))
            t = solve(r - num(a.args[0] - (c.args[0] == '<=')))
            if t is not None:
                return amount.subst(t).iszero()
            return None
        if c.args[0] == '<=':
            if is_const(a, 1):
                a = const(0)
            else:
                return None
        x = b if is_const(a, 0) else a if is_const(b, 0) and c.args[0] == '!=' else None
        if x is not None:
            r = conv(W.R(x))
            at = sorted((a for a in r.atoms() if r.degree(a) == 1), key=lambda a: a.uid)
            for a in at:
                # solve r == 0 for a
                co = Rat({m: v for m, v in r.p.items() if a in m}, r.q).subst({a: num(1)})
                if a in co.atoms():
                    continue
                rest = Rat({m: v for m, v in r.p.items() if a not in m}, r.q)
                return amount.subst({a: -(rest / co)}).iszero()
    return None


def gt0(x):
    return mk('cmp', '<', const(0), x)


def check(p, rep, tier):
    KMc, KCc = None, None
    wr = fn(p, KM, 'KaldiMatrix.write')
    rd = fn(p, KM, 'KaldiMatrix.read')
    rs = fn(p, KM, 'KaldiMatrix.read_shape')
    cw = fn(p, KM, 'KaldiCompressedMatrix.write')
    crd = fn(p, KM, 'KaldiCompressedMatrix.read')
    crs = fn(p, KM, 'KaldiCompressedMatrix.read_shape')
    cmp_ = fn(p, KM, 'KaldiCompressedMatrix.compress')
    toarr = fn(p, KM, 'KaldiCompressedMatrix.to_ndarray')
    getat = fn(p, KM, 'KaldiCompressedMatrix.get_data_attrs')
    build = fn(p, KM, 'KaldiCompressedMatrix.build_from_data_attrs')
    for f in (wr, rd, rs, cw, crd, crs, cmp_, toarr, getat, build):
        rep.unit(f.fq)
    ncase = 0
    layouts = []
    # ---- uncompressed writer
    for dt in ('float32', 'float64', 'other'):
        for nd in (1, 2):
            W = Wire(p)
            slf = mk('param', 'w', 'self')
            data = mk('param', 'w', 'data')
            R0, C0 = mk('dim', data, 0), mk('dim', data, 1)
            W.shapes = {data: [atom(R0)] if nd == 1 else [atom(R0), atom(C0)]}
            if dt != 'other':
                W.dtype_of = {data: dt}
            heap = {(slf, 'data'): data}
            W.I.types[slf] = wr.cls
            dtn = mk('attr', data, 'dtype')
            ass = [mk('cmp', '==' if nd == 1 else '!=', mk('ndim', data), const(1)), mk('cmp', '==' if nd == 2 else '!=', mk('ndim', data), const(2))]
            for d in ('float32', 'float64'):
                for v in (ext('numpy.' + d), const(d), mk('call', ext('numpy.dtype'), (ext('numpy.' + d),), ()), mk('call', ext('numpy.dtype'), (const(d),), ())):
                    ass.append(mk('cmp', '==' if d == dt else '!=', dtn, v))
            run = W.I.run(wr, wr.cls, args={'f': W.F, 'binary': TRUE}, assume=tuple(ass), selfnode=slf, heap=heap)
            L = write_layout(W, run, ass)
            what = 'KaldiMatrix.write[%s,%dd]' % (dt, nd)
            if L.problem:
                if getattr(L, 'unknown', None) is not None and dt == 'other' and L.token:
                    rep.violation('layout', 'KaldiMatrix.write', 'the token %s announces %s-byte values but the bytes written are the array\'s own '
                                  '(%s), whatever its element type' % (L.token, '4' if L.token[0] == 'F' else '8', show(L.unknown, 4)), L.site)
                else:
                    rep.undec('layout', what, L.problem)
                continue
            if L.token is None:
                rep.undec('layout', what, 'no token written')
                continue
            ncase += 1
            read_cases(p, rep, W, L, what, [R0] if nd == 1 else [R0, C0], rd, rs, nd)
            layouts.append(what)
    # ---- compressed
    methods = ('speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1')
    done = {}
    for m in methods:
        W = Wire(p)
        data = mk('param', 'w', 'data')
        R0, C0 = mk('dim', data, 0), mk('dim', data, 1)
        W.shapes = {data: [atom(R0), atom(C0)]}
        run = W.I.run(cmp_, cmp_.cls, args={'mat': data, 'method': const(m)}, assume=(mk('not', mk('isinst', data, 'KaldiMatrix')),))
        M = run.ret
        what = 'KaldiCompressedMatrix.compress[%s]' % m
        while M.op == 'phi':
            M = M.args[2]
        if M.op != 'new':
            rep.undec('layout', what, 'result not an object: %s' % show(M, 3))
            continue
        h = run.state.heap
        dat = h.get((M, 'data'))
        dat = undata(dat, data)
        fmt = h.get((M, 'data_format'))
        if dat is None or fmt is None or fmt.op != 'const':
            rep.undec('layout', what, 'data or format not resolved')
            continue
        W2 = W
        ass = (mk('cmp', 'is not', dat, NONE),)
        loops = dict(W.I.loops)
        run2 = W2.I.run(cw, cw.cls, args={'f': W2.F, 'binary': TRUE}, assume=ass, selfnode=M,
                        heap={(M, 'data'): dat, (M, 'data_format'): fmt, (M, 'num_rows'): R0, (M, 'num_cols'): C0})
        W2.I.loops.update(loops)
        L = write_layout(W2, run2, ass)
        if L.problem or L.token is None:
            rep.undec('layout', what, L.problem or 'no token')
            continue
        ncase += 1
        # the object fields and the packed header agree
        head = L.fields[0]
        read_cases(p, rep, W2, L, what, [R0, C0], rd, crs, 2, comp=True, crd=crd, fmt=fmt.args[0], hdr=dat)
        decode_case(p, rep, W2, dat, fmt, what, h, M, toarr, data)
        attr_case(p, rep, W2, dat, fmt, what, getat, build, R0, C0, M, h)
    rep.require('writer layouts', ncase, 4)
    prims(p, rep)
    header_fields(p, rep)


def undata(n, data):
    """drop the isinstance(mat, KaldiMatrix) alternative"""
    return n


def read_cases(p, rep, Wl, L, what, dims, rd, rs, nd, comp=False, crd=None, fmt=None, hdr=None):
    o, n = mk('param', 'w', 'row_offset'), mk('param', 'w', 'num_rows')
    def mkW():
        W = Wire(p, L.token)
        W.I.loops.update(Wl.I.loops)
        W.shapes = Wl.shapes
        W.dtype_of = Wl.dtype_of
        return W
    for seq in (True, False):
        for ro in (0, 1):
            for nr in (0, 1):
                if nd == 1 and (ro or nr):
                    continue
                for f, nm in ((rd, 'KaldiMatrix.read'),) + (((crd, 'KaldiCompressedMatrix.read'),) if crd else ()):
                    base = []
                    if ro:
                        base += [gt0(o), mk('cmp', '!=', o, const(0))]
                    if nr:
                        base += [gt0(n), mk('cmp', '!=', n, const(0))]
                    pa = [o] * ro + [n] * nr
                    args = dict(f=Wl.F, binary=TRUE, row_offset=o if ro else const(0), num_rows=n if nr else const(0), sequential_mode=const(seq))
                    for W, run, (pos, prob, und, conv, freads), base2, sub in explore(mkW, L, f, args, base, pa):
                        case = '%s after %s [%s%s%s]%s' % (nm, what, 'sequential' if seq else 'random', ', row_offset' if ro else '', ', num_rows' if nr else '',
                                                           ' with %s' % ', '.join('%s=%s' % (show(a), v) for a, v in sub.items()) if sub else '')
                        one_read(rep, W, L, run, pos, prob, und, conv, case, nm, f, seq, sub, dims, o if ro else None, n if nr else None, nd, comp)
        W = Wire(p, L.token)
        W.I.loops.update(Wl.I.loops)
        W.shapes = Wl.shapes
        W.dtype_of = Wl.dtype_of
        for f, nm in ((rs, rs.qual if hasattr(rs, 'qual') else 'read_shape'),):
            run = runit(W, f, dict(f=W.F, binary=TRUE, sequential_mode=const(seq)), [])
            case = '%s after %s [%s]' % (f.fq.split(':')[1], what, 'sequential' if seq else 'random')
            pos, prob, und, conv, freads = wiremap(W, L, run, [])
            nm = f.fq.split(':')[1]
            where = '%s:%d' % (f.mod.rel, f.node.lineno)
            for x in prob:
                rep.violation('layout', nm, '%s: %s' % (case, x), where)
            if run.ret.op == 'noreturn':
                rep.violation('token', nm, '%s: what the writer writes with token %r is rejected' % (case, L.token), where)
                continue
            if und or pos is None:
                rep.undec('layout', case, '; '.join(und))
            elif seq:
                if same(pos, L.total):
                    rep.discharged('layout', case)
                elif not resolved(pos, L):
                    rep.undec('layout', case, 'position %s' % pos)
                else:
                    rep.violation('layout', nm, '%s: the writer puts %s bytes after the token %r but the file is left after %s' % (case, L.total, L.token, pos), where)
            if run.ret.op == 'tuple' and not prob:
                got = [conv(W.R(x)) for x in run.ret.args]
                want = [atom(d) for d in dims]
                if len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)):
                    rep.discharged('shape', case)
                elif all(resolved(g, L) for g in got):
                    rep.violation('shape', nm, '%s: returns (%s) for a matrix written with shape (%s)' % (
                        case, ', '.join(map(str, got)), ', '.join(map(str, want))), where)
                else:
                    rep.undec('shape', case, show(run.ret, 4))


def one_read(rep, W, L, run, pos, prob, und, conv, case, nm, f, seq, sub, dims, o, n, nd, comp):
    where = '%s:%d' % (f.mod.rel, f.node.lineno)
    for x in prob:
        rep.violation('layout', nm, '%s: %s' % (case, x), where)
    if und or pos is None:
        rep.undec('layout', case, '; '.join(und))
        return
    if run.ret.op == 'noreturn':
        rep.violation('token', nm, '%s: what the writer writes with token %r is rejected' % (case, L.token), where)
        return
    tot = L.total.subst(sub) if sub else L.total
    if seq:
        if same(pos, tot):
            rep.discharged('layout', case, 'consumes %s bytes' % tot)
        elif not resolved(pos, L):
            rep.undec('layout', case, 'position %s' % pos)
        else:
            rep.violation('layout', nm, '%s: the writer puts %s bytes after the token %r but the reader leaves the file after %s' % (
                case, tot, L.token, pos), where)
    if not prob:
        content(rep, W, L, run, case, nm, where, dims, o, n, conv, nd, comp, nm, sub)


def resolved(r, L):
    """only sizes of the written matrix and the caller's slice remain"""
    return all(a.op in ('dim', 'param') for a in r.atoms())


def runit(W, f, args, base):
    return W.I.run(f, f.cls, args=args, assume=tuple(base))


def content(rep, W, L, run, case, nm, where, dims, o, n, conv, nd, comp, rdname, sub=None):
    """the rows handed to the caller: asked count, all columns, starting at the asked row"""
    R0 = atom(dims[0])
    if nd == 2:
        lo = atom(o) if o is not None else num(0)
        cnt = atom(n) if n is not None else R0 - lo
        want = [cnt, atom(dims[1])]
    else:
        lo, want = num(0), [R0]
    if sub:
        lo, want = lo.subst(sub), [x.subst(sub) for x in want]
    M = run.ret
    if M.op != 'new':
        rep.undec('rows', case, show(M, 3))
        return
    d = run.state.heap.get((M, 'data'))
    if d is None:
        rep.undec('rows', case, 'no data')
        return
    if rdname == 'KaldiCompressedMatrix.read':
        got = [run.state.heap.get((M, 'num_rows')), run.state.heap.get((M, 'num_cols'))]
        if any(x is None for x in got):
            rep.undec('rows', case, 'no dimensions')
            return
        got = [conv(W.R(x)) for x in got]
        bl = W.blen(d)
        fm = run.state.heap.get((M, 'data_format'))
        if bl is not None and fm is not None and fm.op == 'const':
            bl = conv(bl)
            k = {1: 1, 2: 2}.get(fm.args[0], 1)
            wl = num(20) + num(k) * want[0] * want[1] + (num(8) * want[1] if fm.args[0] == 1 else num(0))
            if same(bl, wl):
                rep.discharged('rows', case + ' bytes')
            elif resolved(bl, L):
                rep.violation('rows', nm, '%s: the object keeps %s bytes, its header announces %s' % (case, bl, wl), where)
    else:
        s = W.shape(d)
        if s is None:
            rep.undec('rows', case, show(d, 3))
            return
        got = [conv(x) for x in s]
        it = W.item(d)
        x = strip(d)
        while callname(x) in ('numpy.reshape', 'numpy.astype') and x.args[1]:
            x = strip(x.args[1][0])
        if callname(x) == 'numpy.frombuffer' and not comp:
            b = W.blen(x.args[1][0])
            it = W.item(x)
            if b is not None and it is not None:
                t = num(1)
                for q in got:
                    t = t * q
                b = conv(b)
                if same(b, t * it):
                    rep.discharged('rows', case + ' bytes')
                elif resolved(b, L):
                    rep.violation('rows', nm, '%s: reads %s bytes for %s values of %s bytes' % (case, b, t, it), where)
            if it is not None and L.token and {'F': 4, 'D': 8}.get(L.token[0]) != it.const():
                rep.violation('token', nm, '%s: values of token %r decoded as %s-byte items' % (case, L.token, it), where)
            # start of the data
            fr = x.args[1][0]
            if fr.op == 'fread':
                pos = start_of(run, fr, W, conv)
                head = [f for f in L.fields if callname(f[2]) != 'struct.pack']
                if pos is not None and head and nd == 2 and it is not None:
                    w = head[0][0] + lo * want[1] * it
                    if same(pos, w):
                        rep.discharged('rows', case + ' start')
                    elif resolved(pos, L):
                        rep.violation('rows', nm, '%s: data taken from byte %s, row starts at %s' % (case, pos, w), where)
    if len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)):
        rep.discharged('rows', case, 'shape %s' % (got,))
    elif all(resolved(g, L) for g in got):
        rep.violation('rows', nm, '%s: returns a matrix of shape (%s), asked (%s)' % (case, ', '.join(map(str, got)), ', '.join(map(str, want))), where)
    else:
        rep.undec('rows', case, 'shape (%s)' % ', '.join(map(str, got)))


def start_of(run, fr, W, conv):
    pos = num(0)
    for e in run.events:
        if e.kind != 'io' or e.extra[0] not in ('read', 'skip', 'token'):
            continue
        if e.extra[0] == 'token':
            pos = num(0)
            continue
        if e.extra[1] is fr:
            return pos
        if e.loops or e.value is None:
            return None
        pos = pos + conv(W.R(e.value))
    return None


# ---------------------------------------------------------------- quantisers
def pieces(n, out):
    """store chain -> list of (mask, value); clamps separate"""
    n = strip(n)
    while True:
        if callname(n) in ('numpy.astype', 'numpy.ravel', 'numpy.reshape', 'numpy.flatten', 'numpy.asarray') and n.args[1]:
            n = strip(n.args[1][0])
            continue
        if n.op == 'store':
            out.append((n.args[1], n.args[2]))
            n = strip(n.args[0])
            continue
        return n


def elem(n, env):
    """elementwise form: drop conversions, clamps and masks"""
    def f(x):
        if x in env:
            return env[x]
        y = strip(x)
        if y is not x:
            return rat(y, f)
        if callname(x) in ('numpy.astype', 'numpy.ravel', 'numpy.reshape', 'numpy.flatten', 'numpy.asarray', 'numpy.round', 'numpy.copy') and x.args[1]:
            return rat(x.args[1][0], f)
        if callname(x) in ('numpy.clip',) and x.args[1]:
            return rat(x.args[1][0], f)
        if callname(x) in ('numpy.minimum', 'numpy.maximum') and len(x.args[1]) == 2:
            a, b = x.args[1]
            if b.op == 'const':
                return rat(a, f)
            if a.op == 'const':
                return rat(b, f)
        if x.op == 'store' and x.args[2].op == 'const':
            return rat(x.args[0], f)
        if x.op == 'sub' and x.args[1].op in ('cmp', 'bin', 'call') and x.args[1].op != 'const':
            return rat(x.args[0], f)
        if x.op == 'sub' and callname(strip(x.args[0])) is None and x.args[0].op == 'bin' and x.args[1].op == 'const':
            # component of an elementwise expression over a packed header
            return rat(push(x.args[0], x.args[1]), f)
        return None
    return rat(n, f)


def push(n, ix):
    if n.op == 'bin':
        return mk('bin', n.args[0], push(n.args[1], ix), push(n.args[2], ix))
    if callname(n) == 'numpy.astype':
        return push(n.args[1][0], ix)
    if callname(n) == 'numpy.frombuffer':
        return mk('PCT', ix.args[0])
    return n


def decode_case(p, rep, W, dat, fmt, what, h, M, toarr, data):
    """decode(encode(x)) == x up to rounding, as affine maps"""
    mn, rg = mk('param', 'w', 'min_value'), mk('param', 'w', 'data_range')
    code = mk('param', 'w', 'code')
    slf = mk('param', 'w', 'cm')
    R0, C0 = mk('dim', data, 0), mk('dim', data, 1)
    # encoder term
    ps = W.parts(dat)
    last = ps[-1] if ps else None
    col = last is not None and last.op == 'lsum'
    term = last.args[2] if col else last
    if term is None or callname(term) not in ('numpy.tobytes', 'numpy.tostring'):
        rep.undec('decode', what, 'coded data not found: %s' % show(term, 3) if term is not None else 'none')
        return
    enc = term.args[1][0]
    mnv, rgv = h.get((M, 'min_value')), h.get((M, 'data_range'))
    # decoder
    I = Interp(p)
    I.types[slf] = toarr.cls
    dv = mk('param', 'w', 'bytes')
    run = I.run(toarr, toarr.cls, selfnode=slf, heap={(slf, 'data_format'): fmt, (slf, 'data'): dv, (slf, 'min_value'): mn,
                                                      (slf, 'data_range'): rg, (slf, 'num_rows'): R0, (slf, 'num_cols'): C0})
    where = '%s:%d' % (toarr.mod.rel, toarr.node.lineno)
    stores = [e for e in run.events if e.kind == 'mutate' and e.extra and e.extra[0] == 'store' and e.loops and
              e.extra[1].op == 'tuple']
    dec = run.ret
    w2 = Wire(p)
    w2.I = I
    if col:
        if not stores:
            rep.undec('decode', what, 'per-column store not found')
            return
        ev = stores[-1]
        dec = ev.value
        tix = ev.extra[1]
        # columns: coded column i of the writer goes to column i
        okcol = tix.op == 'tuple' and len(tix.args) == 2 and tix.args[0].op == 'slice' and tix.args[1].op == 'ivar'
        src = [x for x in walk(enc) if x.op == 'sub' and x.args[0] is data and x.args[1].op == 'tuple']
        okenc = bool(src) and all(x.args[1].args[0].op == 'slice' and x.args[1].args[1] is last.args[1] for x in src)
        if okcol and okenc:
            rep.discharged('decode', what + ' column order')
            iv = tix.args[1]
            # byte ranges
            for x in walk(dec):
                if x.op == 'sub' and x.args[0] is dv and x.args[1].op == 'slice':
                    lo, hi = w2.R(x.args[1].args[0]), w2.R(x.args[1].args[1])
                    big = same(hi - lo, atom(R0))
                    wlo = num(20) + num(8) * atom(C0) + atom(R0) * atom(iv) if big else num(20) + num(8) * atom(iv)
                    whi = wlo + (atom(R0) if big else num(8))
                    if same(lo, wlo) and same(hi, whi):
                        rep.discharged('decode', what + ' slice %s' % lo)
                    elif all(a.op in ('dim', 'ivar') for a in lo.atoms() | hi.atoms()):
                        rep.violation('decode', 'KaldiCompressedMatrix.to_ndarray', '%s: column bytes taken from [%s, %s); the writer puts column '
                                      'headers at 20+8*i and column data at 20+8*cols+rows*i' % (what, lo, hi), where)
        elif okcol != okenc and (tix.op == 'tuple'):
            rep.violation('decode', 'KaldiCompressedMatrix.to_ndarray', '%s: columns are coded along %s and decoded along %s' % (
                what, [show(x.args[1], 3) for x in src][:1], show(tix, 3)), where)
    else:
        sl = [x for x in walk(dec) if x.op == 'sub' and x.args[0] is dv and x.args[1].op == 'slice']
        for x in sl:
            lo = x.args[1].args[0]
            if lo.op == 'const' and lo.args[0] != 20:
                rep.violation('decode', 'KaldiCompressedMatrix.to_ndarray', '%s: values taken from byte %s, header has 20' % (what, lo.args[0]), where)
            elif lo.op == 'const':
                rep.discharged('decode', what + ' offset')
    # item size
    fb = [x for x in walk(dec) if callname(x) == 'numpy.frombuffer']
    big = [x for x in fb if not (col and kwof(x, 'dtype') is not None and dtname(kwof(x, 'dtype')) == 'uint16')]
    ei = W.item(enc)
    for x in big:
        d = dtname(kwof(x, 'dtype'))
        if d in ITEM and ei is not None:
            if ITEM[d] == ei.const():
                rep.discharged('decode', what + ' item')
            else:
                rep.violation('decode', 'KaldiCompressedMatrix.to_ndarray', '%s: values coded in %s byte(s) are decoded as %s' % (what, ei, d), where)
    # affine maps
    x = atom(data)
    envE = {}
    for s in walk(enc):
        if s is data or (s.op == 'sub' and s.args[0] is data):
            envE[s] = atom(data)
    if mnv is not None:
        envE[mnv] = atom(mn)
    if rgv is not None and rgv.op != 'const':
        envE[rgv] = atom(rg)
    envE[mk('attr', M, 'min_value')] = atom(mn)
    envE[mk('attr', M, 'data_range')] = atom(rg)
    consts = {}
    if rgv is not None and rgv.op == 'const':
        consts = {mn: num(mnv.args[0]) if mnv.op == 'const' else atom(mn), rg: num(rgv.args[0])}
    envD = {s: atom(code) for s in big}
    for q in walk(enc):
        if q.op == 'store' and q.args[2].op == 'const' and q.args[1].op == 'cmp' and q.args[1].args[0] in ('<', '<='):
            k = [y for y in q.args[1].args[1:] if y.op == 'const']
            if k and k[0].args[0] != q.args[2].args[0]:
                rep.violation('decode', 'KaldiCompressedMatrix.compress', '%s: values beyond %s are set to %s' % (what, k[0].args[0], q.args[2].args[0]), where)
    if not col:
        e = elem(enc, envE).subst(consts)
        d = elem(dec, envD).subst(consts)
        affine(rep, what, e, d, data, code, where, toarr)
        return
    pe, pd = [], []
    pieces(enc, pe)
    pieces(dec, pd)
    pe = [(c, v) for c, v in pe if v.op != 'const' or True]
    if not pe or len(pe) != len(pd):
        rep.undec('decode', what, '%d coding pieces, %d decoding pieces' % (len(pe), len(pd)))
        return
    pe.reverse()
    pd.reverse()
    bounds = set()
    for (ce, ve), (cd, vd) in zip(pe, pd):
        e = elem(ve, envE)
        d = elem(vd, envD)
        pc = pct(ce, envE)
        pv = {a for a in e.atoms() if a.op == 'PCT'}
        if pc and pv:
            if pc <= pv:
                rep.discharged('decode', what + ' break points')
            else:
                rep.violation('decode', 'KaldiCompressedMatrix.compress', '%s: values bounded by percentile header %s are coded between headers %s' % (
                    what, sorted(a.args[0] for a in pc), sorted(a.args[0] for a in pv)), where)
        r = affine(rep, what + ' piece', e, d, data, code, where, toarr)
        cl = []
        pieces(ve, cl)
        for c, v in [q for q in cl if q[1].op == 'const']:
            k = [y for y in c.args[1:] if y.op == 'const'] if c.op == 'cmp' else []
            if k and k[0].args[0] != v.args[0]:
                rep.violation('decode', 'KaldiCompressedMatrix.compress', '%s: codes beyond %s are set to %s' % (what, k[0].args[0], v.args[0]), where)
        kd = {y.args[0] for z in walk(cd) if z.op == 'cmp' for y in z.args[1:] if y.op == 'const' and isinstance(y.args[0], (int, float)) and not isinstance(y.args[0], bool)}
        ke = {y.args[0] for y in (z[1] for z in cl) if y.op == 'const'}
        # decoding interval inside the interval of codes the piece emits
        if ke and kd and len(ke) == 2:
            bad = [k for k in kd if k not in ke]
            if bad:
                rep.violation('decode', 'KaldiCompressedMatrix.to_ndarray', '%s: the piece that emits codes %s is decoded on an interval bounded by %s' % (
                    what, sorted(ke), sorted(kd)), where)
            else:
                rep.discharged('decode', what + ' interval')
    # every encoder piece is bounded by the break points it interpolates between
    return


def pct(c, env):
    out = set()
    for q in walk(c):
        if q.op == 'cmp':
            for y in q.args[1:]:
                out |= {a for a in elem(y, env).atoms() if a.op == 'PCT'}
    return out


def affine(rep, what, e, d, data, code, where, f):
    comp = d.subst({code: e})
    diff = comp - atom(data)
    if any(a.op not in ('param', 'PCT') for a in comp.atoms()):
        rep.undec('decode', what, 'not affine in closed form: %s' % [show(a, 4) for a in comp.atoms() if a.op not in ('param', 'PCT')][:2])
        return False
    step = d.subst({code: num(1)}) - d.subst({code: num(0)})
    # diff must be delta*step with 0 <= delta <= 0.5
    q = (diff / step) if step.p else diff
    for delta in (0, 0.499, 0.5):
        if same(diff, step * num(delta), rtol=2e-6):
            rep.discharged('decode', what, 'decode(encode(x)) = x + %s step' % delta)
            return True
    c = q.const()
    if c is not None and 0 <= c <= 0.5:
        rep.discharged('decode', what)
        return True
    rep.violation('decode', 'KaldiCompressedMatrix.compress/to_ndarray', '%s: decoding a coded value x gives %s, not x' % (what, short(comp)), where)
    return False


def short(r):
    s = repr(r)
    return s if len(s) < 300 else s[:300] + '...'


# ---------------------------------------------------------------- get_data_attrs / build_from_data_attrs
def attr_case(p, rep, W, dat, fmt, what, getat, build, R0, C0, M, h):
    I = W.I
    slf = mk('param', 'w', 'cm')
    I.types[slf] = getat.cls
    dv = mk('param', 'w', 'bytes')
    mn, rg = mk('param', 'w', 'min_value'), mk('param', 'w', 'data_range')
    run = I.run(getat, getat.cls, selfnode=slf, heap={(slf, 'data_format'): fmt, (slf, 'data'): dv, (slf, 'min_value'): mn,
                                                      (slf, 'data_range'): rg, (slf, 'num_rows'): R0, (slf, 'num_cols'): C0})
    where = '%s:%d' % (getat.mod.rel, getat.node.lineno)
    r = run.ret
    if r.op != 'tuple' or len(r.args) != 2:
        rep.undec('attrs', what, show(r, 3))
        return
    arr, at = r.args
    a0 = strip(arr)
    while callname(a0) == 'numpy.copy':
        a0 = strip(a0.args[1][0])
    s = W.shape(a0)
    if s is not None and len(s) == 2:
        if same(s[0], atom(R0)) and same(s[1], atom(C0)):
            rep.discharged('attrs', what + ' shape')
        elif all(a.op in ('dim', 'param') for x in s for a in x.atoms()):
            rep.violation('attrs', 'KaldiCompressedMatrix.get_data_attrs', '%s: coded values are returned with shape (%s, %s), the matrix has (rows, columns)' % (
                what, s[0], s[1]), where)
    fb = [x for x in walk(a0) if callname(x) == 'numpy.frombuffer']
    colw = fmt.args[0] == 1
    for x in fb:
        b = x.args[1][0]
        if b.op == 'sub' and b.args[0] is dv and b.args[1].op == 'slice':
            lo = b.args[1].args[0]
            lo = W.R(lo) if not is_const(lo, None) else num(0)
            want = num(20) + (num(8) * atom(C0) if colw else num(0))
            if same(lo, want):
                rep.discharged('attrs', what + ' offset')
            elif all(a.op in ('dim', 'param') for a in lo.atoms()):
                rep.violation('attrs', 'KaldiCompressedMatrix.get_data_attrs', '%s: coded values taken from byte %s, they start at %s' % (what, lo, want), where)
        d = dtname(kwof(x, 'dtype'))
        want = 2 if fmt.args[0] == 2 else 1
        if d in ITEM:
            if ITEM[d] != want:
                rep.violation('attrs', 'KaldiCompressedMatrix.get_data_attrs', '%s: %d-byte codes read as %s' % (what, want, d), where)
            else:
                rep.discharged('attrs', what + ' item')
    tr = a0.op == 'T' or callname(a0) == 'numpy.transpose'
    # rebuild
    arr2 = mk('param', 'w', 'coded')
    W.shapes = dict(W.shapes)
    W.shapes[arr2] = [atom(R0), atom(C0)]
    run2 = I.run(build, build.cls, args={'data': arr2, 'attrs': at})
    N_ = run2.ret
    wb = '%s:%d' % (build.mod.rel, build.node.lineno)
    if N_.op != 'new':
        rep.undec('attrs', what, show(N_, 3))
        return
    d2 = run2.state.heap.get((N_, 'data'))
    ps = W.parts(d2) if d2 is not None else None
    if not ps or callname(ps[0]) != 'struct.pack':
        rep.undec('attrs', what, 'rebuilt bytes: %s' % (show(d2, 4) if d2 is not None else None))
        return
    vals = list(ps[0].args[1][1:])
    want = [fmt, mn, rg, R0, C0]
    names = ['data_format', 'min_value', 'data_range', 'num_rows', 'num_cols']
    for i, (v, w) in enumerate(zip(vals, want)):
        if v is w or same(W.R(v), W.R(w)):
            rep.discharged('attrs', what + ' ' + names[i])
        elif v in want or (v.op == 'dim'):
            rep.violation('attrs', 'KaldiCompressedMatrix.build_from_data_attrs', '%s: header field %s is rebuilt from %s' % (what, names[i], show(v, 4)), wb)
        else:
            rep.undec('attrs', what + ' ' + names[i], show(v, 4))
    tb = ps[-1]
    if callname(tb) in ('numpy.tobytes', 'numpy.tostring'):
        x = strip(tb.args[1][0])
        order = 'C'
        tr2 = False
        while True:
            if callname(x) in ('numpy.ravel', 'numpy.flatten'):
                od = kwof(x, 'order') or (x.args[1][1] if len(x.args[1]) > 1 else None)
                if od is not None and is_const(od, 'F'):
                    tr2 = not tr2
                x = strip(x.args[1][0])
            elif x.op == 'T':
                tr2 = not tr2
                x = strip(x.args[0])
            elif callname(x) in ('numpy.copy', 'numpy.asarray', 'numpy.ascontiguousarray'):
                x = strip(x.args[1][0])
            else:
                break
        od = kwof(tb, 'order')
        if od is not None and is_const(od, 'F'):
            tr2 = not tr2
        if x is arr2 and len(W.shape(a0) or []) == 2:
            if tr2 == tr:
                rep.discharged('attrs', what + ' order')
            else:
                rep.violation('attrs', 'KaldiCompressedMatrix.build_from_data_attrs', '%s: coded values are unpacked %s order and packed %s order' % (
                    what, 'column by column' if tr else 'row by row', 'column by column' if tr2 else 'row by row'), wb)
        else:
            rep.undec('attrs', what + ' order', show(x, 3))


# ---------------------------------------------------------------- primitives
def header_fields(p, rep):
    """header pack -> unpack restores every attribute"""
    cls = next((c for c in p.all_classes([KM]) if c.name == 'KaldiCompressedMatrix'), None)
    if cls is None:
        raise AnalysisBroken('KaldiCompressedMatrix')
    sc = p.find_method(cls, 'scale')
    ini = p.find_method(cls, '__init__')
    if sc is None or ini is None:
        return
    W = Wire(p)
    slf = mk('param', 'w', 'cm')
    names = ['data_format', 'min_value', 'data_range', 'num_rows', 'num_cols']
    at = {n: mk('param', 'w', n) for n in names}
    body = mk('fread', 'payload', mk('param', 'w', 'nbytes'))
    hd = mk('call', ext('struct.pack'), (const('<iffii'),) + tuple(mk('param', 'w', 'old_' + n) for n in names), ())
    W.I.types[slf] = cls
    heap = {(slf, n): v for n, v in at.items()}
    heap[(slf, 'data')] = mk('bin', '+', hd, body)
    al = mk('param', 'w', 'alpha')
    run = W.I.run(sc, cls, args={'alpha': al}, selfnode=slf, heap=heap)
    d = run.state.heap.get((slf, 'data'))
    slf2 = mk('param', 'w', 'cm2')
    W.I.types[slf2] = cls
    where = '%s:%d' % (sc.mod.rel, sc.node.lineno)
    run2 = W.I.run(ini, cls, args={'data': d}, selfnode=slf2, assume=(mk('cmp', 'is not', d, NONE),))
    rep.unit(sc.fq)
    for n in names:
        v = run2.state.heap.get((slf2, n))
        w = run.state.heap.get((slf, n), at[n])
        want = W.R(at[n]) * atom(al) if n in ('min_value', 'data_range') else W.R(at[n])
        if v is None:
            rep.undec('header', n, 'not set')
            continue
        got = W.R(v)
        if same(got, want):
            rep.discharged('header', n, 'scale then unpack gives %s' % show(v, 4))
        elif all(a.op == 'param' for a in got.atoms()):
            rep.violation('header', 'KaldiCompressedMatrix', 'after scale(alpha) the header of the coded matrix has %s = %s, expected %s' % (n, got, want), where)
        else:
            rep.undec('header', n, show(v, 5))
    ps = W.parts(d) if d is not None else None
    if ps and ps[-1] is body and len(ps) == 2:
        rep.discharged('header', 'payload kept')
    elif ps is not None and d is not None and not any(x.op == 'sub' for x in ps):
        rep.violation('header', 'KaldiCompressedMatrix.scale', 'the coded payload is not what it was: %s' % [show(x, 3) for x in ps], where)
    else:
        rep.undec('header', 'payload', show(d, 5) if d is not None else 'none')


def prims(p, rep):
    """write_int32 / read_int32 and the stream marker are inverse"""
    W = Wire(p)
    wi, ri = fn(p, IO, 'write_int32'), fn(p, IO, 'read_int32')
    v = mk('param', 'w', 'val')
    run = W.I.run(wi, None, args={'f': W.F, 'binary': TRUE, 'val': v})
    L = Layout()
    for e in run.events:
        if e.kind == 'io' and e.extra[0] == 'write':
            for x in W.parts(e.value):
                b = W.blen(x)
                if b is None:
                    return rep.undec('prim', 'write_int32', show(x, 3))
                L.fields.append((L.total, b, x))
                L.total = L.total + b
    W2 = Wire(p)
    run2 = W2.I.run(ri, None, args={'f': W2.F, 'binary': TRUE})
    pos, prob, und, conv, fr = wiremap(W2, L, run2, [])
    where = '%s:%d' % (ri.mod.rel, ri.node.lineno)
    rep.unit(wi.fq)
    rep.unit(ri.fq)
    for x in prob:
        rep.violation('prim', 'read_int32', x, where)
    if pos is not None and not prob:
        if same(pos, L.total):
            rep.discharged('prim', 'int32 size')
        else:
            rep.violation('prim', 'read_int32', 'write_int32 writes %s bytes, read_int32 takes %s' % (L.total, pos), where)
        got = conv(W2.R(run2.ret))
        if same(got, atom(v)):
            rep.discharged('prim', 'int32 value')
        elif all(a.op in ('param',) for a in got.atoms()):
            rep.violation('prim', 'read_int32', 'returns %s for a written %s' % (got, show(v)), where)
        else:
            rep.undec('prim', 'int32 value', str(got))
        # length byte expected by the reader
        for e in run2.events:
            if e.kind == 'assert' and e.target is not None and e.target.op == 'cmp' and e.target.args[0] == '==':
                a, b = conv(W2.R(e.target.args[1])), conv(W2.R(e.target.args[2]))
                if a.const() is not None and b.const() is not None:
                    if a.const() != b.const():
                        rep.violation('prim', 'read_int32', 'length byte written %s, expected %s' % (a, b), where)
                    else:
                        rep.discharged('prim', 'length byte')
    # stream marker
    wi, ri = fn(p, IO, 'init_kaldi_output_stream'), fn(p, IO, 'init_kaldi_input_stream')
    W = Wire(p)
    run = W.I.run(wi, None, args={'f': W.F, 'binary': TRUE})
    out = [e.value for e in run.events if e.kind == 'io' and e.extra[0] == 'write']
    run0 = W.I.run(wi, None, args={'f': W.F, 'binary': FALSE})
    out0 = [e.value for e in run0.events if e.kind == 'io']
    W2 = Wire(p)
    pk = []

    def oh(I, f, env, st, node):
        if f.name == 'peek' and f.mod.name == IO:
            pk.append(env.get('num_bytes'))
            return mk('param', 'w', 'marker')
        return None
    W2.I.opaque_hook = oh
    run2 = W2.I.run(ri, None, args={'f': W2.F})
    where = '%s:%d' % (ri.mod.rel, ri.node.lineno)
    m = out[0] if len(out) == 1 else None
    if m is not None and m.op == 'const':
        conds = [c for e in run2.events if e.kind == 'io' for c in e.path]
        got = [x for c in conds for x in walk(c) if x.op == 'const' and isinstance(x.args[0], bytes)]
        rd = [e.value for e in run2.events if e.kind == 'io' and e.extra[0] == 'read']
        if got and got[0] is not m:
            rep.violation('prim', 'init_kaldi_input_stream', 'binary marker written %r, looked for %r' % (m.args[0], got[0].args[0]), where)
        elif got:
            rep.discharged('prim', 'marker')
        if rd and rd[0].op == 'const':
            if rd[0].args[0] != len(m.args[0]):
                rep.violation('prim', 'init_kaldi_input_stream', 'marker has %d bytes, %s are consumed' % (len(m.args[0]), rd[0].args[0]), where)
            else:
                rep.discharged('prim', 'marker size')
        if out0:
            rep.violation('prim', 'init_kaldi_output_stream', 'binary marker written in text mode', where)
