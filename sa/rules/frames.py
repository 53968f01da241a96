"""C24: frames and times agree.

Framing and splicing: the number of frames, the samples of each and the padding are compared with their definitions.
Segments to frames: the frames set for a segment run from its rounded start to its rounded end, for every segment, and the
matrix or vector reaches the last end.  Segments: merging keeps the whole span of what it merges."""
from fractions import Fraction

from ..ir import *
from ..interp import *
from ..scope import *
from ..poly import *
from ..project import AnalysisBroken
from .splits import strip, steps, where, rangeof, truth
from .splits import resolved as res
from .clusters import callname, Unk, Bad, start

FR = 'hyperion.utils.framing:Framing'
SP = 'hyperion.utils.splicing:Splicing'
SL = 'hyperion.utils.segment_list:SegmentList'
RT = 'hyperion.utils.rttm:RTTM'


class Case(object):
    def __init__(self, rep, f):
        self.rep, self.f = rep, f

    def run(self, q, fn):
        try:
            self.rep.discharged('frames', q, fn())
        except Unk as e:
            self.rep.undec('frames', q, str(e))
        except Bad as e:
            self.rep.violation('frames', q, str(e), where(self.f))


def amount(n, env=None, whole=True):
    """n as a fraction, with roundings down of a fraction and conversions to integers dropped when whole"""
    env = env or {}

    def f(x):
        if x in env:
            return env[x]
        if x.op in ('alloc',):
            return rat(x.args[1], f)
        if x.op == 'dim':
            return atom(mk('dim', strip(x.args[0]), x.args[1] if not isinstance(x.args[1], N) else x.args[1].args[0]))
        if callname(x) == 'builtins.len' and x.args[1]:
            return atom(mk('dim', strip(x.args[1][0]), 0))
        if callname(x) in ('builtins.int', 'numpy.int', 'numpy.int64', 'builtins.float') and x.args[1]:
            return rat(x.args[1][0], f)
        if x.op == 'attr' and x.args[1] == 'values':
            return rat(x.args[0], f)
        if callname(x) in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.astype') and x.args[1]:
            return rat(x.args[1][0], f)
        if whole and callname(x) in ('numpy.floor', 'math.floor') and x.args[1]:
            return rat(x.args[1][0], f)
        if whole and x.op == 'bin' and x.args[0] == '//':
            a, b = rat(x.args[1], f), rat(x.args[2], f)
            return a / b
        return None
    return rat(n, f)


def filled(r, ret, facts):
    """[(base, ivar, index, value)] of the one array written once per iteration of one loop"""
    v = res(strip(ret), facts)
    v = keepalloc(v)
    if v.op == 'lfill':
        if v.args[4] is not TRUE and truth(v.args[4], facts) is not True:
            raise Bad('written only when %s' % show(v.args[4], 4))
        return v.args[0], v.args[1], v.args[2], v.args[3]
    if v.op == 'lfin':
        L = r.loops.get(v.args[0])
        lam = v.args[2]
        if L is None or lam not in L.back:
            raise Unk('loop')
        if L.brk is not FALSE:
            raise Unk('loop left early')
        b = res(L.back[lam], facts)
        if b.op == 'store' and b.args[0] is lam:
            return res(L.entry[lam], facts), res(L.ivar, facts), res(b.args[1], facts), res(b.args[2], facts)
        if b is lam:
            raise Bad('no frame is written')
    if callname(strip(v)) in ('numpy.zeros', 'numpy.empty', 'numpy.ones'):
        raise Bad('nothing is written in the result')
    raise Unk('result %s' % show(v, 4))


def keepalloc(v):
    return v


def zeros(b):
    """shape of a new array of zeros (or to be filled)"""
    while b.op == 'alloc':
        b = b.args[1]
    if callname(b) in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full') and b.args[1]:
        s = strip(b.args[1][0])
        return callname(b)[6:], (s.args if s.op in ('tuple', 'list') else (s,))
    raise Unk('array %s' % show(b, 3))


def bounds(s):
    if s.op != 'slice':
        raise Unk('index %s' % show(s, 4))
    if len(s.args) > 2 and s.args[2] is not NONE and not is_const(s.args[2], 1) and s.args[2] is not None:
        raise Bad('samples are skipped: %s' % show(s, 4))
    lo = s.args[0]
    return (const(0) if lo is NONE or lo is None else lo), s.args[1]


def rowof(ix, iv, what):
    r = ix.args[0] if ix.op == 'tuple' and ix.args else ix
    if r is not iv:
        if not same(amount(r), atom(iv)):
            raise Bad('%s i is written in row %s' % (what, show(r, 4)))
    if ix.op == 'tuple' and len(ix.args) == 2 and ix.args[1].op == 'slice' and any(a is not NONE and a is not None for a in ix.args[1].args):
        raise Unk('index %s' % show(ix, 3))


def frame_count(iv, shape0, n, L, s, env):
    rng = rangeof(iv.args[0]) if iv.op == 'ivar' else None
    if rng is None:
        raise Unk('loop over %s' % show(iv, 3))
    lo, hi = rng[0], rng[1]
    want = (n - L) / s + num(1)
    for what, e in (('rows', shape0), ('frames written', hi)):
        got = amount(e, env)
        if not same(got, want):
            # a dimension of the array itself
            if e.op == 'dim':
                continue
            raise Bad('%s: %s, not floor((n - length)/shift) + 1' % (what, show(e, 7)))
    if not same(amount(lo, env), num(0)):
        raise Bad('frames start at %s' % show(lo, 3))


def framing(p, rep, c):
    n = 0
    got = start(p, c, 'create_frames')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        C = Case(rep, f)
        X = r.env0[f.params()[0][1]]
        L, s = mk('attr', S, 'frame_length'), mk('attr', S, 'frame_shift')
        PM = mk('attr', S, 'pad_mode')
        for padded in (False, True):
            for nd in (1, 2):
                def go():
                    facts = Facts(X, nd, {PM: padded})
                    base, iv, ix, val = filled(r, r.ret, facts)
                    kind, shp = zeros(base)
                    y = padded_input(S, X, PM, padded, nd, base, val)
                    D = num(1) if nd == 1 else atom(mk('dim', y, 1))
                    rowof(ix, iv, 'frame')
                    frame_count(iv, shp[0], atom(mk('dim', y, 0)), atom(L), atom(s), {})
                    if len(shp) != 2 or not same(amount(shp[1]), atom(L) * D):
                        raise Bad('frames of %s values, not length x dimension' % show(shp[-1], 5))
                    v = strip(val)
                    while callname(v) in ('numpy.ravel', 'numpy.reshape', 'numpy.flatten') and v.args[1]:
                        v = strip(v.args[1][0])
                    if v.op != 'sub':
                        raise Unk('frame %s' % show(v, 4))
                    src, sl = v.args[0], v.args[1]
                    u = src
                    while callname(u) in ('numpy.ravel', 'numpy.flatten', 'numpy.reshape') and u.args[1]:
                        if any(is_const(w, 'F') for k, w in u.args[2]):
                            raise Bad('values are taken column by column')
                        u = strip(u.args[1][0])
                    u = strip(u)
                    if u is not y:
                        raise Unk('frame of %s' % show(u, 4))
                    if any(callname(q) in ('numpy.ravel', 'numpy.flatten', 'numpy.reshape') for q in chain(src)) or nd == 1:
                        unit = D
                    else:
                        unit = num(1)
                    if sl.op == 'tuple':
                        sl = sl.args[0]
                    lo, hi = bounds(sl)
                    i = atom(iv)
                    if not same(amount(lo), i * atom(s) * unit):
                        raise Bad('frame i starts at %s, not i x shift' % show(lo, 6))
                    if not same(amount(hi) - amount(lo), atom(L) * unit):
                        raise Bad('frame i goes to %s, not length values further' % show(hi, 6))
                    return 'frame i has the length values from i x shift'
                C.run('Framing.create_frames(%s, %d-D)' % ('padded' if padded else 'not padded', nd), go)
    f = p.find_method(c, 'create_pad_width')
    if f:
        n += 1
        rep.unit(f.fq)
        I = Interp(p)
        r = I.run(f, c)
        C = Case(rep, f)
        names = f.param_names()
        side, L, s = [r.env0.get(k) for k in names[:3]]
        for k in ('symmetric', 'left', 'right'):
            def pads():
                facts = {}
                for q in ('symmetric', 'left', 'right'):
                    facts[mk('cmp', '==', side, const(q))] = q == k
                    facts[mk('cmp', '!=', side, const(q))] = q != k
                for e in r.events:
                    if e.kind == 'raise' and all(truth(q[0], facts) is not None and truth(q[0], facts) == q[1] if isinstance(q, tuple) else truth(q, facts) for q in e.path):
                        raise Bad('refused')
                v = strip(res(r.ret, facts))
                if v.op not in ('tuple', 'list') or len(v.args) != 2:
                    raise Unk(show(v, 4))
                o = atom(L) - atom(s)
                a, b = v.args
                if k == 'symmetric':
                    # the two halves: one rounded up, the other down
                    halves(a, b, L, s)
                    return 'the two halves of the overlap'
                want = (o, num(0)) if k == 'left' else (num(0), o)
                for g, w, t in zip((a, b), want, ('before', 'after')):
                    if not same(amount(g), w):
                        raise Bad('%s pads %s %s' % (k, show(g, 4), t))
                return 'the overlap on the %s' % k
            C.run('Framing.create_pad_width(%s)' % k, pads)
    got = start(p, c, '__init__', ('create_pad_width',))
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)

        def init():
            for a in ('frame_length', 'frame_shift', 'pad_mode'):
                v = r.state.heap.get((S, a))
                if v is None or strip(v) is not r.env0[a]:
                    raise Bad('%s keeps %s' % (a, 'nothing' if v is None else show(v, 4)))
            v = r.state.heap.get((S, 'pad_width'))
            if v is None:
                raise Bad('pad_width is not kept')
            v = res(v, given(r.env0['pad_mode'], True))
            if v is NONE:
                raise Bad('no padding width though a padding mode is given')
            kept_kwargs(r, S, f)
            if v.op == 'call' and v.args[0].op == 'func':
                d = dict((k if isinstance(k, str) else k.args[-1], strip(w)) for k, w in v.args[2])
                for a in ('pad_side', 'frame_length', 'frame_shift'):
                    if a in d and d[a] is not r.env0[a]:
                        raise Bad('padding made with %s=%s' % (a, show(d[a], 3)))
                return 'options are kept'
            raise Unk('pad_width %s' % show(v, 4))
        Case(rep, f).run('Framing.__init__', init)
    return n


def given(x, yes):
    """facts for x given or None"""
    d = {x: 'given' if yes else 'none', mk('cmp', 'is', x, NONE): not yes, mk('cmp', 'is not', x, NONE): yes}
    return d


class Facts(dict):
    """facts with the number of dimensions of an input (padded or not)"""

    def __init__(self, X, nd, opts, more=None):
        dict.__init__(self)
        for k, yes in opts.items():
            self.update(given(k, yes))
        self.update(more or {})
        self.X, self.nd = X, nd

    def _nd(self, c):
        if c.op == 'cmp' and c.args[0] in ('==', '!=', '<', '<=', '>', '>='):
            o, a, b = c.args
            if a.op == 'ndim' or b.op == 'ndim':
                a = num(self.nd) if a.op == 'ndim' else amount(a)
                b = num(self.nd) if b.op == 'ndim' else amount(b)
                d = (a - b).const()
                if d is not None:
                    return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[o]
        return None

    def __contains__(self, c):
        return dict.__contains__(self, c) or self._nd(c) is not None

    def __getitem__(self, c):
        return dict.__getitem__(self, c) if dict.__contains__(self, c) else self._nd(c)


def padded_input(S, X, PM, padded, nd, *where_):
    """the array framed"""
    pads = set(x for w in where_ for x in walk(w) if callname(x) == 'numpy.pad')
    if not padded:
        if pads:
            raise Bad('padded though no padding was asked for')
        return X
    if len(pads) != 1:
        raise Bad('not padded') if not pads else Unk('padded twice')
    y = pads.pop()
    a = list(y.args[1])
    kw = dict(y.args[2])
    if strip(a[0]) is not X:
        raise (Bad if X not in set(walk(a[0])) else Unk)('padding of %s' % show(a[0], 4))
    options(y, S)
    mode = a[2] if len(a) > 2 else kw.get('mode')
    if mode is not PM:
        raise Bad('padding mode %s' % ('left out' if mode is None else show(mode, 3)))
    w = a[1] if len(a) > 1 else kw.get('pad_width')
    if w is None:
        raise Bad('no padding width')
    W = mk('attr', S, 'pad_width')
    w = strip(w)
    if nd == 1 and w is not W:
        raise Bad('padding width %s' % show(w, 4))
    if nd == 2 and w is not W:
        z = w.args[1] if w.op == 'tuple' and len(w.args) == 2 else None
        if z is None or w.args[0] is not W:
            raise Unk('padding width %s' % show(w, 4))
        zs = z.args if z.op in ('tuple', 'list') else (z,)
        if not all(is_const(q, 0) for q in zs):
            raise Bad('columns are padded too')
    if nd == 2 and w is W:
        raise Bad('the padding of the frames is applied to the columns too')
    return y


def kept_kwargs(r, S, f):
    kw = f.params()[3]
    v = r.state.heap.get((S, 'pad_kwargs'))
    if kw and (v is None or strip(v) is not r.env0.get(kw)):
        raise Bad('the options of the padding are not kept')


def options(y, S):
    if not any(v is mk('attr', S, 'pad_kwargs') for k, v in y.args[2]):
        raise Bad('the options of the padding are not used')


def halves(a, b, L, s):
    def val(n, o):
        """value with overlap o"""
        r = rat(n, lambda x: step(x, o))
        return r.const()

    def step(x, o):
        if x is L:
            return num(o)
        if x is s:
            return num(0)
        if callname(x) in ('builtins.int', 'numpy.floor', 'math.floor', 'numpy.ceil', 'math.ceil', 'numpy.trunc') and x.args[1]:
            v = rat(x.args[1][0], lambda y: step(y, o)).const()
            if v is None:
                return None
            v = Fraction(v)
            fl = v.numerator // v.denominator
            return num(fl if 'ceil' not in callname(x) or fl == v else fl + 1)
        if x.op == 'bin' and x.args[0] in ('//', '%'):
            u, w = (rat(y, lambda z: step(z, o)).const() for y in x.args[1:3])
            if u is None or not w:
                return None
            return num(u // w if x.args[0] == '//' else u % w)
        if x.op == 'alloc':
            return rat(x.args[1], lambda y: step(y, o))
        return None
    for o in range(0, 8):
        u, w = val(a, o), val(b, o)
        if u is None or w is None:
            raise Unk('%s, %s' % (show(a, 4), show(b, 4)))
        if u + w != o:
            raise Bad('an overlap of %d is padded with %s + %s' % (o, u, w))
        if abs(u - w) > 1:
            raise Bad('an overlap of %d is padded with %s before and %s after' % (o, u, w))


def refute(w, pat, SPt, env0):
    """compares the padding with the contexts at some of their values"""
    from ..numeric import value, NoValue
    first = lambda n: first(n.args[1]) if n.op == 'alloc' else n
    for a, b in ((0, 0), (1, 1), (0, 2), (2, 0), (3, 1), (1, 4), (5, 2)):
        env = {mk('sub', SPt, const(0)): -a, mk('sub', SPt, const(-1)): b} if pat else {}
        if not pat:
            env.update({env0['left_context']: a, env0['right_context']: b})
        try:
            q = first(w)
            while q.op == 'phi':
                q = first(q.args[1 if value(q.args[0], env, callname) else 2])
            if q.op not in ('tuple', 'list') or len(q.args) != 2:
                return
            q = first(q.args[0])
            while q.op == 'phi':
                q = first(q.args[1 if value(q.args[0], env, callname) else 2])
            if q.op not in ('tuple', 'list') or len(q.args) != 2:
                return
            u, v = (value(x, env, callname) for x in q.args)
        except NoValue:
            return
        if (u, v) != (a, b):
            raise Bad('with contexts of %d and %d frames the padding is %s and %s' % (a, b, u, v))


def splicing(p, rep, c):
    n = 0
    got = start(p, c, '__init__')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        C = Case(rep, f)
        SPt = r.env0['splice_pattern']
        for pat in (False, True):
            def init():
                facts = given(SPt, pat)
                h = lambda a: res(r.state.heap[(S, a)], facts) if (S, a) in r.state.heap else NONE
                l, rr = amount(h('left_context')), amount(h('right_context'))
                wl = atom(mk('sub', SPt, const(0))) * num(-1) if pat else atom(r.env0['left_context'])
                wr = atom(mk('sub', SPt, const(-1))) if pat else atom(r.env0['right_context'])
                if not same(l, wl):
                    raise Bad('left context %s' % show(h('left_context'), 4))
                if not same(rr, wr):
                    raise Bad('right context %s' % show(h('right_context'), 4))
                if (S, 'pad_width') not in r.state.heap:
                    raise Bad('the padding width is not kept')
                w = strip(h('pad_width'))
                refute(w, pat, SPt, r.env0)
                if w.op not in ('tuple', 'list') or len(w.args) != 2 or strip(w.args[0]).op not in ('tuple', 'list'):
                    raise Unk('padding %s' % show(w, 4))
                q = strip(w.args[0]).args
                if len(q) != 2 or not same(amount(q[0]), wl) or not same(amount(q[1]), wr):
                    raise Bad('padding %s, not the left and right contexts' % show(w.args[0], 5))
                z = strip(w.args[1])
                if not all(is_const(y, 0) for y in (z.args if z.op in ('tuple', 'list') else (z,))):
                    raise Bad('columns are padded')
                v = h('splice_pattern')
                if not pat:
                    if v is not NONE:
                        raise Bad('a pattern %s when none was given' % show(v, 4))
                else:
                    off = amount(v, {}) - wl
                    core = [y for y in walk(v) if strip(y) is SPt]
                    if not any(same(off, atom(y)) for y in core) and not same(amount(strip_in(v, SPt)), atom(SPt) + wl):
                        raise Bad('positions of the pattern in the window %s' % show(v, 5))
                kept_kwargs(r, S, f)
                for a in ('frame_shift', 'pad_mode'):
                    if strip(h(a)) is not r.env0[a]:
                        raise Bad('%s keeps %s' % (a, show(h(a), 4)))
                return 'contexts, pattern and padding agree'
            C.run('Splicing.__init__(%s)' % ('pattern' if pat else 'contexts'), init)
    got = start(p, c, 'splice')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        C = Case(rep, f)
        X = r.env0[f.params()[0][1]]
        PM, PT = mk('attr', S, 'pad_mode'), mk('attr', S, 'splice_pattern')
        l, rr, s = (atom(mk('attr', S, a)) for a in ('left_context', 'right_context', 'frame_shift'))
        span = l + rr + num(1)
        for padded in (False, True):
            for pat in (False, True):
                def go():
                    facts = Facts(X, 2, {PM: padded, PT: pat})
                    base, iv, ix, val = filled(r, r.ret, facts)
                    kind, shp = zeros(base)
                    y = X
                    pads = set(x for w in (base, val, iv) for x in walk(w) if callname(x) == 'numpy.pad')
                    if padded:
                        if len(pads) != 1:
                            raise Bad('not padded') if not pads else Unk('padded twice')
                        y = pads.pop()
                        a, kw = list(y.args[1]), dict(y.args[2])
                        if strip(a[0]) is not X:
                            raise (Bad if X not in set(walk(a[0])) else Unk)('padding of %s' % show(a[0], 4))
                        options(y, S)
                        if (a[2] if len(a) > 2 else kw.get('mode')) is not PM:
                            raise Bad('padding mode')
                        if strip(a[1] if len(a) > 1 else kw.get('pad_width', NONE)) is not mk('attr', S, 'pad_width'):
                            raise Bad('padding width')
                    elif pads:
                        raise Bad('padded though no padding was asked for')
                    D = atom(mk('dim', y, 1))
                    rowof(ix, iv, 'frame')
                    frame_count(iv, shp[0], atom(mk('dim', y, 0)), span, s, {})
                    cols = atom(mk('dim', PT, 0)) if pat else span
                    if len(shp) != 2 or not same(amount(shp[1]), cols * D):
                        raise Bad('frames of %s values' % show(shp[-1], 5))
                    v = strip(val)
                    while callname(v) in ('numpy.ravel', 'numpy.reshape', 'numpy.flatten') and v.args[1]:
                        if any(is_const(w, 'F') for k, w in v.args[2]):
                            raise Bad('frames are written column by column')
                        v = strip(v.args[1][0])
                    if v.op != 'sub' or strip(v.args[0]) is not y:
                        raise Unk('frame %s' % show(v, 4))
                    sl = v.args[1]
                    if sl.op == 'tuple':
                        if sl.args[1].op != 'slice' or any(q is not NONE and q is not None for q in sl.args[1].args):
                            raise Bad('columns %s' % show(sl.args[1], 3))
                        sl = sl.args[0]
                    i = atom(iv)
                    if pat:
                        if not same(amount(sl), atom(PT) + i * s):
                            raise Bad('frame i takes %s, not the pattern from i x shift' % show(sl, 5))
                    else:
                        lo, hi = bounds(sl)
                        if not same(amount(lo), i * s):
                            raise Bad('frame i starts at %s, not i x shift' % show(lo, 5))
                        if not same(amount(hi) - amount(lo), span):
                            raise Bad('frame i goes to %s' % show(hi, 5))
                    return 'frame i spans its context from i x shift'
                C.run('Splicing.splice(%s, %s)' % ('padded' if padded else 'not padded', 'pattern' if pat else 'contexts'), go)
    return n


def chain(n):
    """n and what it is a conversion of"""
    yield n
    while n.op == 'alloc' or n.op == 'call' and n.args[1]:
        n = n.args[1] if n.op == 'alloc' else n.args[1][0]
        yield n


def strip_in(v, x):
    """v with conversions of x dropped"""
    m = dict((y, x) for y in walk(v) if y is not x and strip(y) is x)
    return subst(v, m) if m else v


# ---- segments -------------------------------------------------------------------------------------------------------

def column(n):
    """(table, column) of a column of a table"""
    n = strip(n)
    if n.op == 'sub' and n.args[1].op == 'const' and isinstance(n.args[1].args[0], str):
        return n.args[0], n.args[1].args[0]
    if n.op == 'attr' and n.args[1] in ('tbeg', 'tend', 'tdur', 'file_id', 'name', 'segment_type'):
        return n.args[0], n.args[1]
    return None


def to_frames(n, unit_env):
    """time expression under a rounding, as an amount"""
    n = strip(n)
    while callname(n) in ('builtins.int',) and n.args[1]:
        n = strip(n.args[1][0])
    if callname(n) in ('numpy.round', 'numpy.rint', 'numpy.around', 'numpy.round_', 'builtins.round') and n.args[1]:
        return amount(n.args[1][0], unit_env, False)
    if callname(n) in ('numpy.floor', 'numpy.ceil', 'numpy.trunc'):
        raise Bad('times are not rounded to the nearest frame: %s' % show(n, 5))
    if n.op in ('bin', 'un') or n.op == 'sub':
        raise Bad('times are cut to whole frames, not rounded: %s' % show(n, 5))
    raise Unk('frame %s' % show(n, 5))


def time_env(n, rows):
    """the columns in n as times of the rows"""
    env = {}
    for y in walk(n):
        c = column(y)
        if c and c[1] in ('tbeg', 'tend', 'tdur') and c[0] not in env:
            if rows(c[0]):
                for z in [y] + [w for w in walk(n) if w is not y and strip(w) is strip(y)]:
                    env[z] = atom(const('col:' + c[1]))
    return env


def vad(p, rep, c):
    got = start(p, c, 'to_bin_vad')
    if not got:
        return 0
    f, S, r = got
    rep.unit(f.fq)
    C = Case(rep, f)
    names = f.param_names()
    key, shift, nf = [r.env0[k] for k in names[:3]]
    SEG = mk('attr', S, 'segments')
    BY = [mk('attr', S, '_index_by_file'), mk('attr', S, 'index_by_file')]

    def rows(t):
        t = strip(t)
        return t.op == 'sub' and t.args[0] is mk('attr', SEG, 'loc') and (t.args[1] is key or t.args[1].op == 'tuple' and t.args[1].args[0] is key)
    for given_ in (True, False):
        for by in (True, False):
            def go():
                facts = given(nf, given_)
                for b in BY:
                    facts[b] = by
                v = r.ret
                base, iv, ix, val = filled(r, v, facts)
                kind, shp = zeros(base)
                if kind not in ('zeros',):
                    raise Bad('frames out of the segments are not 0')
                if not is_const(strip(val), 1) and not is_const(strip(val), True):
                    raise Bad('frames of the segments are %s' % show(val, 3))
                rng = rangeof(iv.args[0]) if iv.op == 'ivar' else None
                if rng is None:
                    raise Unk('loop over %s' % show(iv, 4))
                if not is_const(rng[0], 0):
                    raise Bad('the segments before %s are left out' % show(rng[0], 3))
                hi = rng[1]
                if hi.op == 'dim' or callname(hi) == 'builtins.len':
                    pass
                else:
                    raise Bad('segments up to %s' % show(hi, 4)) if hi.op == 'bin' else Unk('segments up to %s' % show(hi, 4))
                nrow = strip(shp[0])
                tenv = time_env(mk('tuple', base, ix, val), rows)
                scale = num(1000) / atom(shift)
                lo, hi = bounds(ix)
                # start
                a = elem(lo, iv)
                if not same(to_frames(a, tenv), atom(const('col:tbeg')) * scale):
                    raise Bad('segments start at %s' % show(lo, 6))
                if not by:
                    for y in walk(a):
                        if y.op == 'call' and callname(y) in ('numpy.array', 'numpy.asarray') and not any(callname(q) == 'numpy.atleast_1d' for q in walk(a)) and \
                                not any(k == 'ndmin' and v.op == 'const' and v.args[0] >= 1 for k, v in y.args[2]):
                            raise Bad('the times of one segment have no elements to go over: %s' % show(y, 3))
                # end
                e = amount_ends(hi, iv, nrow)
                if not same(to_frames(e, tenv), atom(const('col:tend')) * scale):
                    raise Bad('segments end at %s' % show(hi, 6))
                if given_:
                    if nrow is not nf:
                        raise Bad('frames: %s, not the number given' % show(nrow, 3))
                else:
                    m = nrow
                    while callname(m) == 'builtins.int' and m.args[1]:
                        m = strip(m.args[1][0])
                    if by:
                        if m.op == 'sub' and is_const(m.args[1], -1) or m.op == 'sub' and is_const(m.args[1], 0):
                            raise Bad('frames: up to the end of one segment %s, not the last end of all' % show(m, 3))
                        if callname(m) in ('numpy.max', 'numpy.amax', 'builtins.max') and m.args[1]:
                            t = m.args[1][0]
                            if not same(to_frames(t, time_env(t, rows)), atom(const('col:tend')) * scale):
                                raise Bad('frames: the largest of %s' % show(t, 5))
                        else:
                            top(m, rows, scale)
                    else:
                        def file_rows(t):
                            t = strip(t)
                            if t.op != 'sub' or strip(t.args[0]) not in (SEG, mk('attr', SEG, 'loc')):
                                return False
                            k = strip(t.args[1])
                            if k.op == 'cmp' and k.args[0] == '!=' and any(column(q) == (SEG, 'file_id') for q in k.args[1:]):
                                raise Bad('the ends of the other files')
                            return k.op == 'cmp' and k.args[0] == '==' and any(column(q) == (SEG, 'file_id') for q in k.args[1:])
                        top(m, file_rows, scale)
                return 'from rounded start to rounded end, all segments'
            C.run('SegmentList.to_bin_vad(%s, by %s)' % ('frames given' if given_ else 'frames not given', 'file' if by else 'segment'), go)
    return 1


def top(m, rows, scale):
    """m is the rounded latest end of the rows"""
    env = {}
    for y in walk(m):
        if callname(y) in ('numpy.max', 'numpy.amax', 'builtins.max') and y.args[1]:
            c = column(y.args[1][0])
            if c and rows(c[0]):
                env[y] = atom(const('max:' + c[1]))
        elif callname(y) in ('numpy.min', 'numpy.mean'):
            c = column(y.args[1][0])
            if c and rows(c[0]):
                raise Bad('frames up to the %s of the ends' % callname(y)[6:])
    if not same(to_frames(m, env), atom(const('max:tend')) * scale):
        raise Bad('frames: %s' % show(m, 6)) if env else Unk('frames: %s' % show(m, 6))


def elem(n, iv):
    """the sequence n is the iv-th element of"""
    n = strip(n)
    if n.op == 'sub' and n.args[1] is iv:
        return n.args[0]
    if n.op == 'sub' and iv in set(walk(n.args[1])):
        raise Bad('segment i uses element %s' % show(n.args[1], 3))
    raise Unk('element %s' % show(n, 4))


def amount_ends(hi, iv, nrow):
    """the ends of the segments when hi is end + 1, limited or not to the number of frames"""
    off = 0
    cap = None
    n = strip(hi)
    for _ in range(6):
        if n.op == 'bin' and n.args[0] in ('+', '-') and n.args[2].op == 'const' and isinstance(n.args[2].args[0], int):
            off += n.args[2].args[0] * (1 if n.args[0] == '+' else -1)
            n = strip(n.args[1])
        elif n.op == 'bin' and n.args[0] == '+' and n.args[1].op == 'const':
            off += n.args[1].args[0]
            n = strip(n.args[2])
        elif n.op == 'sub' and n.args[1] is iv:
            inner = strip(n.args[0])
            if callname(inner) in ('numpy.minimum', 'builtins.min') or inner.op == 'bin' and inner.args[0] in ('+', '-'):
                n = mk('elt', inner)
                n = inner
                continue
            n = inner
            break
        elif callname(n) in ('numpy.minimum', 'builtins.min') and len(n.args[1]) == 2:
            u, w = n.args[1]
            du, dw = amount(u) - amount(nrow), amount(w) - amount(nrow)
            if du.const() is not None:
                capv, n = du.const(), strip(w)
            elif dw.const() is not None:
                capv, n = dw.const(), strip(u)
            else:
                raise Bad('ends limited to %s' % show(n, 4))
            cap = capv + off
        else:
            break
    if cap is not None and cap < 0:
        raise Bad('the last frame is never set: ends limited to the number of frames %s' % cap)
    if off != 1:
        raise Bad('segments end %s frames after their rounded end' % off)
    return n


def matrix(p, rep, c):
    got = start(p, c, 'to_matrix')
    if not got:
        return 0
    f, S, r = got
    rep.unit(f.fq)
    names = f.param_names()
    fid, shift = [r.env0[k] for k in names[:2]]
    SEG = mk('attr', S, 'segments')
    BY = [mk('attr', S, '_index_by_file'), mk('attr', S, 'index_by_file')]

    def rows(t):
        t = strip(t)
        if t.op != 'sub' or strip(t.args[0]) not in (SEG, mk('attr', SEG, 'loc')):
            return False
        k = strip(t.args[1])
        if k is fid or k.op == 'list' and k.args == (fid,):
            return strip(t.args[0]) is not SEG
        if k.op == 'cmp' and k.args[0] == '!=' and any(column(q) == (SEG, 'file_id') for q in k.args[1:]):
            raise Bad('the segments of the other files')
        return k.op == 'cmp' and k.args[0] == '==' and any(column(q) == (SEG, 'file_id') for q in k.args[1:]) and fid in k.args[1:]
    for by in (True, False):
        def go():
            facts = dict((b, by) for b in BY)
            if r.ret is NONE:
                raise Bad('the matrix is not returned')
            base, iv, ix, val = filled(r, r.ret, facts)
            kind, shp = zeros(base)
            if kind != 'zeros':
                raise Bad('frames without a speaker are not 0')
            if not is_const(strip(val), 1) and not is_const(strip(val), True):
                raise Bad('frames of the segments are %s' % show(val, 3))
            if ix.op != 'tuple' or len(ix.args) != 2:
                raise Unk('index %s' % show(ix, 3))
            rng = rangeof(iv.args[0]) if iv.op == 'ivar' else None
            if rng is None:
                raise Unk('loop over %s' % show(iv, 4))
            hi = rng[1]
            d = strip(hi.args[0]) if hi.op == 'dim' else strip(hi.args[1][0]) if callname(hi) == 'builtins.len' and hi.args[1] else None
            while d is not None and (callname(d).startswith('numpy.') and d.args[1] and callname(d) not in ('numpy.unique',) or d.op == 'bin'):
                d = strip(d.args[1][0] if d.op == 'call' else [q for q in d.args[1:] if q.op != 'const'][0])
            if d is None or not is_const(rng[0], 0):
                raise Unk('segments up to %s' % show(hi, 4))
            t = column(d)[0] if column(d) else d
            if not rows(t):
                if d.op in ('sub', 'item') and any(callname(q) == 'numpy.unique' for q in walk(d)) and not is_const(d.args[1], 1):
                    raise Bad('only as many segments as there are names are written')
                if not any(callname(q) == 'numpy.unique' for q in walk(d)):
                    raise Unk('segments %s' % show(d, 4))
            tenv = time_env(mk('tuple', base, ix, val), rows)
            scale = num(1) / atom(shift)
            lo, hi = bounds(ix.args[0])
            T = {}
            for q in (lo, hi):
                e = strip(q)
                if not (e.op == 'sub' and e.args[1] is iv):
                    raise Unk('bound %s' % show(e, 4)) if iv in set(walk(e)) else Bad('bound %s' % show(e, 4))
                u = e.args[0]
                if not positional(u):
                    raise Bad('row i of the file is looked up by label: %s' % show(e, 5))
                T[q] = to_frames(u, tenv)
            tb, td = atom(const('col:tbeg')), atom(const('col:tdur'))
            if not same(T[lo], tb * scale):
                raise Bad('segments start at %s' % show(lo, 6))
            if not same(T[hi], (tb + td) * scale):
                raise Bad('segments end at %s' % show(hi, 6))
            who = strip(ix.args[1])
            if not (who.op == 'sub' and who.args[1] is iv):
                raise Bad('the name of another segment is set: %s' % show(who, 4))
            u = strip(who.args[0])
            if not (u.op in ('sub', 'item') and is_const(u.args[1], 1) and callname(strip(u.args[0])) == 'numpy.unique'):
                raise Unk('names %s' % show(u, 4))
            if not any(k == 'return_inverse' and is_const(v, True) for k, v in strip(u.args[0]).args[2]):
                raise Bad('the position of each name is not asked for')
            m = strip(shp[0])
            if m.op == 'sub' and (is_const(m.args[1], -1) or is_const(m.args[1], 0)):
                raise Bad('the matrix ends with one segment, not with the last end')
            if callname(m) in ('numpy.max', 'builtins.max', 'numpy.amax') and m.args[1]:
                if not same(to_frames(m.args[1][0], tenv), (tb + td) * scale):
                    raise Bad('frames: the largest of %s' % show(m.args[1][0], 5))
            else:
                raise Unk('frames %s' % show(m, 5))
            return 'every segment sets its frames of its name'
        Case(rep, f).run('RTTM.to_matrix(by %s)' % ('file' if by else 'position'), go)
    return 1


def positional(u):
    """an array, so that [i] is the i-th element and not the one with label i"""
    while u.op in ('bin', 'un') or callname(u) in ('numpy.round', 'numpy.astype', 'numpy.rint', 'numpy.around'):
        if u.op == 'bin':
            return positional(u.args[1]) and positional(u.args[2]) if u.args[2].op != 'const' and u.args[1].op != 'const' else \
                positional(u.args[2] if u.args[1].op == 'const' else u.args[1])
        u = u.args[1][0] if u.op == 'call' else u.args[1]
    if u.op == 'alloc':
        return positional(u.args[1])
    if callname(u) in ('numpy.array', 'numpy.asarray') or u.op == 'attr' and u.args[1] == 'values':
        return True
    if column(u):
        return False
    return u.op not in ('attr',) or True


# ---- joins and overlaps of consecutive segments -----------------------------------------------------------------------

def previous(t, SEG):
    """t is the table moved down one row"""
    t = strip(t)
    if t.op == 'icall' and t.args[0] is mk('attr', SEG, 'shift'):
        a = list(t.args[1]) if isinstance(t.args[1], tuple) else [t.args[1]]
        kw = dict(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], tuple) else {}
        k = a[0] if a else kw.get('periods', const(1))
        if not is_const(k):
            return None
        return k.args[0]
    return None


def conj(c):
    c = strip(c)
    if c.op == 'bin' and c.args[0] == '&':
        return conj(c.args[1]) + conj(c.args[2])
    if c.op == 'and':
        return [y for x in c.args[0] for y in conj(x)]
    if callname(c) == 'numpy.logical_and' and len(c.args[1]) == 2:
        return conj(c.args[1][0]) + conj(c.args[1][1])
    if c.op in ('sub', 'attr') and False:
        return []
    return [c]


def cols_env(n, SEG):
    """columns of the table and of the rows before as amounts"""
    env = {}
    for y in walk(n):
        c = column(y)
        if not c:
            continue
        if strip(c[0]) is SEG:
            env[y] = atom(const('cur:' + c[1]))
        else:
            k = previous(c[0], SEG)
            if k is not None:
                env[y] = atom(const('prev:' + c[1])) if k == 1 else atom(const('shift%s:%s' % (k, c[1])))
    return env


def C_(k):
    return atom(const(k))


def joined(c, SEG, margin):
    """problem with the condition of joining a segment to the one before, None when right"""
    seen = set()
    gap = False
    for x in conj(c):
        if x.op == 'cmp' and x.args[0] == '==':
            a, b = column(x.args[1]), column(x.args[2])
            if a and b and a[1] == b[1]:
                ts = [a[0], b[0]]
                cur = [t for t in ts if strip(t) is SEG]
                prv = [t for t in ts if previous(t, SEG) == 1]
                if len(cur) == 1 and len(prv) == 1:
                    seen.add(a[1])
                    continue
                if len(cur) == 1 and any(previous(t, SEG) is not None for t in ts):
                    raise Bad('segments are compared with the one %s rows before' % [previous(t, SEG) for t in ts if previous(t, SEG) is not None][0])
            raise Unk('condition %s' % show(x, 5))
        if x.op == 'cmp' and x.args[0] == '!=' and column(x.args[1]):
            raise Bad('segments of another %s are joined' % column(x.args[1])[1])
        if x.op == 'cmp' and x.args[0] in ('<', '<=', '>', '>='):
            o, u, v = x.args
            if o in ('>', '>='):
                o, u, v = {'>': '<', '>=': '<='}[o], v, u
            d = amount(v, cols_env(v, SEG), False) - amount(u, cols_env(u, SEG), False)
            want = margin - (C_('cur:tbeg') - C_('prev:tbeg') - C_('prev:tdur'))
            if not same(d, want):
                raise Bad('gap to the segment before: %s' % show(x, 6))
            if o != '<=':
                raise Bad('a gap of exactly the margin is not joined: %s' % show(x, 5))
            gap = True
            continue
        raise Unk('condition %s' % show(x, 5))
    if not gap:
        raise Bad('the gap is not looked at')
    return seen


def rowcol(n, Ls):
    """(row amount, column) of a value of one row of a table held in the loop"""
    n = strip(n)
    if n.op in ('attr', 'sub') and (n.op == 'attr' or n.args[1].op == 'const' and isinstance(n.args[1].args[0], str)):
        name = n.args[1] if n.op == 'attr' else n.args[1].args[0]
        b = strip(n.args[0])
        if b.op == 'sub' and b.args[0].op in ('lphi', 'attr', 'store') and 'iloc' in show(b.args[0], 3):
            return amount(b.args[1]), name
    return None


def merging(p, rep, c):
    got = start(p, c, 'merge_adjacent_segments')
    if not got:
        return 0
    f, S, r = got
    rep.unit(f.fq)
    SEG = mk('attr', S, 'segments')
    margin = atom(r.env0[f.param_names()[0]])

    def go():
        evs = [e for e in r.events if e.kind == 'mutate' and e.loops and e.extra and e.extra[0] == 'store']
        if not evs:
            raise Unk('no segment is changed in a loop')
        done = set()
        for e in evs:
            ix = e.extra[1]
            if ix.op != 'tuple' or len(ix.args) != 2:
                raise Unk('index %s' % show(ix, 4))
            iv = e.loops[-1].ivar
            col = [q.args[0] for q in walk(ix.args[1]) if q.op == 'const' and isinstance(q.args[0], str)]
            if len(col) != 1:
                raise Unk('column %s' % show(ix.args[1], 4))
            row = amount(ix.args[0])
            conds = [(x, y) for x, y in [q if isinstance(q, tuple) else (q, True) for q in e.path]]
            sel = [(x, y) for x, y in conds if iv in set(walk(x))]
            if len(sel) != 1:
                raise Unk('conditions %s' % [show(x, 3) for x, y in sel])
            x, pos = strip(sel[0][0]), sel[0][1]
            if x.op == 'not' and pos and strip(x.args[0]).op == 'sub' or x.op == 'sub' and not pos:
                raise Bad('the segments joined are those that are not adjacent')
            if pos is False:
                raise Unk('condition')
            if x.op != 'sub' or not same(amount(x.args[1]), atom(iv)):
                raise Unk('condition %s' % show(x, 4))
            m = strip(x.args[0])
            if m.op == 'attr' and m.args[1] in ('iloc', 'values', 'iat'):
                m = strip(m.args[0])
            seen = joined(m, SEG, margin)
            for k in ('file_id', 'segment_type', 'name'):
                if k not in seen:
                    raise Bad('segments of another %s are joined' % k)
            if col[0] != 'tdur':
                out = r.state.heap.get((S, 'segments'))
                k = [q for q in walk(out) if q.op == 'cmp' and q.args[0] in ('==', '!=') and any(is_const(z) and isinstance(z.args[0], str) for z in q.args[1:])] if out is not None else []
                if out is None or out is SEG or not k:
                    raise Bad('the segments joined to others are not removed')
                if not any(q.args[0] == '!=' and any(z is e.value for z in q.args[1:]) for q in k):
                    raise Bad('the segments kept are those with %s' % show(k[0], 4))
            if col[0] == 'tdur':
                if not same(row, atom(iv) - num(1)):
                    raise Bad('the duration changed is that of row %s' % show(ix.args[0], 3))
                env = {}
                v = e.value
                ends = []

                def val(n):
                    n = strip(n)
                    rc = rowcol(n, None)
                    if rc:
                        d = (rc[0] - atom(iv)).const()
                        if d is None:
                            raise Unk('row of %s' % show(n, 4))
                        return atom(const('%d:%s' % (d, rc[1])))
                    if callname(n) in ('numpy.maximum', 'builtins.max', 'numpy.max', 'numpy.fmax') and n.args[1]:
                        a = n.args[1] if len(n.args[1]) > 1 else strip(n.args[1][0]).args
                        key = const('max')
                        ends.append([rat(q, val) for q in a])
                        return atom(key)
                    return None
                got_ = rat(v, val)
                t0, d0, t1, d1 = (atom(const(k)) for k in ('-1:tbeg', '-1:tdur', '0:tbeg', '0:tdur'))
                if same(got_, t1 + d1 - t0):
                    raise Bad('a segment inside the one before cuts it short: %s' % show(v, 6))
                if not (same(got_, atom(const('max')) - t0) and len(ends) == 1 and len(ends[0]) == 2):
                    if same(got_, atom(const('max'))) and len(ends) == 1 and len(ends[0]) == 2:
                        a, b = ends[0]
                        if any(same(x1, d0) and same(x2, t1 + d1 - t0) for x1, x2 in ((a, b), (b, a))):
                            done.add('tdur')
                            continue
                    raise Bad('duration after joining: %s' % show(v, 6))
                a, b = ends[0]
                if not any(same(x1, t0 + d0) and same(x2, t1 + d1) for x1, x2 in ((a, b), (b, a))):
                    raise Bad('duration after joining: %s' % show(v, 6))
                done.add('tdur')
            else:
                if not same(row, atom(iv)):
                    raise Bad('the segment removed is row %s, not the one joined' % show(ix.args[0], 3))
                done.add('drop')
            L = e.loops[-1]
            rg = strip(L.iter) if L.iter is not None else None
            if rg is not None and callname(rg) == 'builtins.range' and len(rg.args[1]) == 3:
                a, b, s = rg.args[1]
                if not is_const(s, -1):
                    raise Unk('order %s' % show(rg, 4))
                if not is_const(b, 0):
                    raise Bad('segments down to row %s' % show(b, 3))
                last = amount(a)
                if not same(last, atom(mk('dim', SEG, 0)) - num(1)):
                    raise Bad('segments from row %s' % show(a, 5))
            elif rg is not None and callname(rg) == 'builtins.range':
                raise Bad('chains of segments joined from the first on lose their ends') if False else Unk('order')
        if done != {'tdur', 'drop'}:
            raise Bad('joined segments are %s' % ('not removed' if 'drop' not in done else 'removed, not joined'))
        return 'same file, type and name, gap within the margin; the span covers both'
    Case(rep, f).run('RTTM.merge_adjacent_segments', go)
    return 1


def overlaps(p, rep, c):
    got = start(p, c, 'eliminate_overlaps')
    if not got:
        return 0
    f, S, r = got
    rep.unit(f.fq)
    SEG = mk('attr', S, 'segments')

    def go():
        for e in r.events:
            for n in (e.value,) if e.kind in ('mutate', 'setattr') and e.value is not None else ():
                for y in walk(n):
                    if y.op == 'bin' and y.args[0] in ('+', '-', '*', '/'):
                        a, b = strip(y.args[1]), strip(y.args[2])
                        if a.op == b.op == 'sub' and a.args[1] is not b.args[1] and masked(a) and masked(b) and not plain(a.args[0]) and not plain(b.args[0]):
                            raise Bad('rows taken by different conditions are matched by label: %s' % show(y, 4))
        cols = {}
        for e in r.events:
            if e.kind == 'mutate' and e.extra and e.extra[0] == 'store':
                names = [q.args[0] for q in walk(e.extra[1]) if q.op == 'const' and q.args[0] in ('tbeg', 'tdur')]
                t = e.target
                while t.op == 'store':
                    t = t.args[0]
                if len(names) == 1 and strip(t) in (SEG, mk('attr', SEG, 'loc')):
                    if e.extra[1].op == 'tuple' and e.extra[1].args[0].op != 'slice':
                        raise Unk('column written by parts')
                    cols[names[0]] = e.value
        if len(cols) == 1 or not cols and not any(e.kind in ('mutate', 'setattr') for e in r.events):
            raise Bad('only %s is written' % sorted(cols) if cols else 'nothing is changed')
        if set(cols) != {'tbeg', 'tdur'}:
            raise Unk('columns written: %s' % sorted(cols))
        env = {}

        def base(n):
            return cols_env(n, SEG)
        tb = strip(cols['tbeg'])
        if tb.op != 'store':
            if same(amount(uncopy(tb), base(tb), False), C_('cur:tbeg')):
                raise Bad('starts do not move')
            raise Unk('starts %s' % show(tb, 4))
        if not same(amount(uncopy(tb.args[0]), base(tb), False), C_('cur:tbeg')):
            raise Bad('starts are changed where nothing overlaps')
        m = strip(tb.args[1])
        v = strip(tb.args[2])
        if v.op == 'sub' and strip(v.args[1]) is m:
            v = v.args[0]

        def mid(n):
            n = strip(n)
            e = base(n)
            ms = [y for y in walk(n) if callname(y) in ('numpy.minimum', 'numpy.fmin') and len(y.args[1]) == 2]
            for y in ms:
                u, w = (amount(uncopy(q), e, False) for q in y.args[1])
                ends = (C_('cur:tbeg') + C_('cur:tdur'), C_('prev:tbeg') + C_('prev:tdur'))
                if any(same(a, ends[0]) and same(b, ends[1]) for a, b in ((u, w), (w, u))):
                    e[y] = C_('overlap end')
            return amount(n, e, False)
        two = num(2)
        g = mid(v)
        if not (same(g, (C_('cur:tbeg') + C_('overlap end')) / two) or same(g, (C_('cur:tbeg') + C_('prev:tbeg') + C_('prev:tdur')) / two)):
            raise Bad('overlaps are cut at %s, not in their middle' % show(v, 6))
        seen = set()
        ov = False
        for x in conj(m):
            if x.op == 'cmp' and x.args[0] == '==':
                a, b = column(x.args[1]), column(x.args[2])
                if a and b and a[1] == b[1] and {strip(a[0]) is SEG or previous(a[0], SEG), strip(b[0]) is SEG or previous(b[0], SEG)} <= {True, 1}:
                    seen.add(a[1])
                    continue
                raise Unk('condition %s' % show(x, 5))
            if x.op == 'cmp' and x.args[0] == '!=' and column(x.args[1]):
                raise Bad('segments of another %s are cut' % column(x.args[1])[1])
            if x.op == 'cmp' and x.args[0] in ('<', '<=', '>', '>='):
                o, u, w = x.args
                if o in ('>', '>='):
                    u, w = w, u
                d = amount(w, base(w), False) - amount(u, base(u), False)
                if not same(d, C_('prev:tbeg') + C_('prev:tdur') - C_('cur:tbeg')):
                    raise Bad('overlap found by %s' % show(x, 6))
                ov = True
                continue
            raise Unk('condition %s' % show(x, 5))
        if 'file_id' not in seen or 'segment_type' not in seen or not ov:
            raise Bad('segments of other files or types are cut' if ov else 'segments that do not overlap are cut')
        td = strip(cols['tdur'])
        if not (td.op == 'bin' and td.args[0] == '-' and strip(td.args[2]) is tb):
            raise Bad('durations %s, not the new ends less the new starts' % show(td, 4)) if td.op in ('bin', 'store') else Unk('durations %s' % show(td, 4))
        te = strip(td.args[1])
        if te.op != 'store':
            raise Bad('the ends before an overlap are not changed')
        if not same(amount(uncopy(te.args[0]), base(te), False), C_('cur:tbeg') + C_('cur:tdur')):
            raise Bad('ends are changed where nothing overlaps')
        ix = te.args[1]
        nz = [y for y in walk(ix) if callname(y) in ('numpy.nonzero', 'numpy.where', 'numpy.flatnonzero') and y.args[1]]
        if len(nz) != 1 or strip(nz[0].args[1][0]) is not m:
            raise Unk('rows before an overlap %s' % show(ix, 4))
        for y in walk(ix):
            if y.op == 'sub' and y.args[0] is nz[0] and not is_const(y.args[1], 0):
                raise Bad('rows before an overlap %s' % show(ix, 4))
        k = rat(ix, lambda y: num(0) if y is nz[0] or y.op == 'sub' and y.args[0] is nz[0] else None).const()
        if k != -1:
            raise Bad('the end cut is that of the row %s from the overlap' % k)
        w = strip(te.args[2])
        if w.op == 'sub' and strip(w.args[1]) is m:
            w = w.args[0]
        if not same(mid(w), g):
            raise Bad('the segment before ends at %s, the next starts elsewhere' % show(w, 5))
        return 'cut in the middle of the overlap'
    Case(rep, f).run('RTTM.eliminate_overlaps', go)
    return 1


def uncopy(n):
    from .clusters import uncopied
    n = uncopied(n)
    m = dict((y, uncopied(y)) for y in walk(n) if uncopied(y) is not y)
    return subst(n, m) if m else n


def masked(x):
    """x is selected by a condition"""
    k = strip(x.args[1])
    return k.op in ('cmp', 'store', 'bin', 'icall') and any(y.op == 'cmp' for y in walk(k))


def plain(x):
    return x.op == 'attr' and x.args[1] == 'values' or callname(x) in ('numpy.array', 'numpy.asarray') or x.op == 'alloc' and plain(x.args[1])


def check(p, rep, tier):
    n = 0
    for fq, fs in ((FR, (framing,)), (SP, (splicing,)), (SL, (vad,)), (RT, (matrix, merging, overlaps))):
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        for f in fs:
            n += f(p, rep, c)
    rep.require('functions with frames', n, 5)
