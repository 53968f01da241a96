"""C25: operating points, convex hull, pool-adjacent-violators and the score calibration built on them.

Sorted trials are followed as one sequence: the labels (1 target, 0 non-target) of the concatenated scores in a stable
ascending order.  T(x), the number of targets among its first x trials, is the only unknown: every error rate is a
fraction in T, the numbers of trials and the position.  Loops are checked by induction on what each variable stands for."""
from fractions import Fraction

from ..ir import *
from ..interp import *
from ..poly import *
from ..project import AnalysisBroken
from .splits import strip, resolved, where, truth, callname, rangeof

ME = 'hyperion.metrics.'
PAV = ME + 'utils:pavx'
TT = 'targets among the first'


class Unk(Exception):
    pass


class Bad(Exception):
    pass


class Case(object):
    def __init__(self, rep, f):
        self.rep, self.f = rep, f

    def run(self, q, fn):
        try:
            self.rep.discharged('curve', q, fn())
        except Unk as e:
            self.rep.undec('curve', q, str(e))
        except Bad as e:
            self.rep.violation('curve', q, str(e), where(self.f))


def start(p, fq, noinline=()):
    g = [f for f in p.all_funcs() if f.fq == fq] if callable(p.all_funcs) else [f for f in p.all_funcs if f.fq == fq]
    if not g:
        return None
    I = Interp(p)
    I.noinline = set(getattr(I, 'noinline', ()) or ()) | set(noinline)
    r = I.run(g[0], None)
    r.loops = dict(I.loops)
    return g[0], r


def plain(n):
    """without flattening and conversions"""
    while True:
        m = strip(n)
        if callname(m) in ('numpy.ravel', 'numpy.reshape') and m.args[1]:
            m = m.args[1][0]
        elif m.op == 'icall' and m.args[0].op == 'attr' and m.args[0].args[1] in ('ravel', 'flatten', 'copy', 'astype'):
            m = m.args[0].args[0]
        if m is n:
            return n
        n = m


def pieces(n):
    """parts of a concatenation"""
    n = plain(n)
    if callname(n) in ('numpy.hstack', 'numpy.concatenate', 'numpy.append') and n.args[1]:
        a = n.args[1] if callname(n) == 'numpy.append' else [n.args[1][0]]
        a = plain(a[0]) if len(a) == 1 else None
        if a is None:
            return [plain(x) for x in n.args[1][:2]]
        if a.op in ('tuple', 'list'):
            return [plain(x) for x in a.args]
    return None


class World(object):
    """tar, non: the parameters with the scores"""
    def __init__(self, tar, non):
        self.tar, self.non = tar, non
        self.nt, self.nn = mk('dim', tar, 0), mk('dim', non, 0)
        self.Nt, self.Nn = atom(self.nt), atom(self.nn)
        self.env = {}

    # sizes and positions
    def size(self, n):
        return rat(n, self.fsize)

    def fsize(self, n):
        if n in self.env:
            return self.env[n]
        if n.op == 'alloc':
            return rat(n.args[1], self.fsize)
        if n.op in ('dim', 'size'):
            x = plain(n.args[0])
            if x is self.tar:
                return self.Nt
            if x is self.non:
                return self.Nn
            if self.scores(x) or self.sequence(x):
                return self.Nt + self.Nn
        if callname(n) == 'numpy.sum' and n.args[1]:
            return self.total(n.args[1][0])
        if callname(n) == 'numpy.count_nonzero' and n.args[1]:
            return self.total(n.args[1][0])
        if callname(n) in ('numpy.mean', 'numpy.average') and n.args[1]:
            t = self.total(n.args[1][0])
            if t is not None:
                return t / (self.Nt + self.Nn)
            q = pieces(n.args[1][0])
            if q and all(self.total(z) is not None or z.op in ('list', 'tuple') and all(is_const(y) for y in z.args) for z in q):
                t = c = num(0)
                for z in q:
                    u = self.total(z)
                    t = t + (u if u is not None else num(sum(y.args[0] for y in z.args)))
                    c = c + (self.Nt + self.Nn if u is not None else num(len(z.args)))
                return t / c
        return None

    # sequences
    def scores(self, n):
        """order of the concatenated scores"""
        q = pieces(n)
        if q and len(q) == 2 and {q[0], q[1]} == {self.tar, self.non} and q[0] is not q[1]:
            return 'tn' if q[0] is self.tar else 'nt'
        return None

    def fill(self, n):
        n = plain(n)
        c = callname(n)
        if c in ('numpy.ones', 'numpy.ones_like'):
            v = 1
        elif c in ('numpy.zeros', 'numpy.zeros_like'):
            v = 0
        elif n.op == 'bin' and n.args[0] == '*' and is_const(n.args[1]) and self.fill(n.args[2]):
            w, s = self.fill(n.args[2])
            return w * n.args[1].args[0], s
        else:
            return None
        a = n.args[1][0]
        if c.endswith('_like'):
            a = plain(a)
            return v, self.Nt if a is self.tar else self.Nn if a is self.non else self.Nt + self.Nn if self.scores(a) else None
        a = strip(a)
        if a.op in ('tuple', 'list') and len(a.args) == 1:
            a = a.args[0]
        if a.op == 'shape' or a.op == 'attr' and a.args[1] == 'shape':
            x = plain(a.args[0])
            return v, self.Nt if x is self.tar else self.Nn if x is self.non else self.Nt + self.Nn if self.scores(x) else None
        return v, self.size(a)

    def labels(self, n):
        """(value for targets, value for non-targets, order) of the labels of the concatenated scores"""
        n = plain(n)
        q = pieces(n)
        w = self.fill(n)
        if w and w[1] is not None and same(w[1], self.Nt + self.Nn):
            return w[0], w[0], None
        if q and len(q) == 2:
            a, b = self.fill(q[0]), self.fill(q[1])
            if a and b and a[1] is not None and b[1] is not None:
                if same(a[1], self.Nt) and same(b[1], self.Nn):
                    return a[0], b[0], 'tn'
                if same(a[1], self.Nn) and same(b[1], self.Nt):
                    return b[0], a[0], 'nt'
            return None
        if n.op == 'store':
            base, ix, val = n.args[:3]
            w = self.fill(base)
            if not w or w[1] is None or not same(w[1], self.Nt + self.Nn) or not is_const(val):
                return None
            v = val.args[0]
            if ix.op != 'slice' or not (len(ix.args) < 3 or ix.args[2] is NONE):
                return None
            lo, hi = ix.args[:2]
            if (lo is NONE or is_const(lo, 0)) and hi is not NONE:
                h = self.size(hi)
                if same(h, self.Nt):
                    return v, w[0], 'tn'
                if same(h, self.Nn):
                    return w[0], v, 'nt'
                raise Bad('the first %r trials are labelled' % h)
            if hi is NONE and lo is not NONE:
                h = self.size(lo)
                if same(h, self.Nt):
                    return w[0], v, 'tn'
                if same(h, self.Nn):
                    return v, w[0], 'nt'
                raise Bad('the trials from %r on are labelled' % h)
        return None

    def order(self, n):
        """concatenation order of the scores sorted by the permutation n"""
        n = plain(n)
        if callname(n) == 'numpy.lexsort' and n.args[1]:
            keys = strip(n.args[1][0])
            if keys.op in ('tuple', 'list') and keys.args and self.scores(keys.args[-1]):
                if self.scores(keys.args[-1]) != 'tn' and len(keys.args) == 1:
                    raise Bad('among equal scores non-targets come first: ties are counted as separated')
                for k in reversed(keys.args[:-1]):
                    up = True
                    m = plain(k)
                    while m.op == 'un' and m.args[0] == '-':
                        m, up = plain(m.args[1]), not up
                    l = self.labels(m)
                    if l and l[0] != l[1]:
                        if (l[0] > l[1]) == up:
                            raise Bad('among equal scores non-targets come first: ties are counted as separated')
                        return self.scores(keys.args[-1])
                if len(keys.args) == 1:
                    return 'tn'
            return None
        if callname(n) != 'numpy.argsort':
            return None
        a = n.args[1][0]
        o = self.scores(a)
        if not o:
            m = plain(a)
            if m.op == 'un' and m.args[0] == '-' and self.scores(m.args[1]):
                raise Bad('the scores are sorted downwards')
            return None
        kw = dict(n.args[2])
        kind = kw.get('kind')
        if kind is None or not is_const(kind) or kind.args[0] not in ('mergesort', 'stable'):
            raise Bad('equal scores are not kept in order: the sort is not stable')
        if o != 'tn':
            raise Bad('among equal scores non-targets come first: ties are counted as separated')
        return o

    def sequence(self, n):
        """(a, b): the labels a (target), b (non-target) of the sorted trials"""
        n = plain(n)
        if n.op == 'bin' and n.args[0] == '-' and is_const(n.args[1]) and self.sequence(n.args[2]):
            a, b = self.sequence(n.args[2])
            return n.args[1].args[0] - a, n.args[1].args[0] - b
        if n.op == 'sub':
            l = self.labels(n.args[0])
            if l:
                o = self.order(n.args[1])
                if o:
                    if l[2] is not None and o != l[2]:
                        raise Bad('labels and scores are concatenated in different order')
                    return l[0], l[1]
        return None

    def T(self, x):
        if not x.p:
            return num(0)
        if same(x, self.Nt + self.Nn):
            return self.Nt
        return atom(mk('count', const(TT), const(repr(x))))

    def cum(self, ab, x):
        """sum of the labels of the first x trials"""
        a, b = (num(Fraction(v)) for v in ab)
        return a * self.T(x) + b * (x - self.T(x))

    def total(self, n):
        n = plain(n)
        ab = self.sequence(n)
        N_ = self.Nt + self.Nn
        if ab:
            return self.cum(ab, N_)
        if n.op == 'sub' and n.args[1].op == 'slice':
            ab = self.sequence(n.args[0])
            lo, hi = n.args[1].args[:2]
            if ab and (len(n.args[1].args) < 3 or n.args[1].args[2] is NONE):
                lo = num(0) if lo is NONE else self.size(lo)
                hi = N_ if hi is NONE else self.size(hi)
                return self.cum(ab, hi) - self.cum(ab, lo)
        return None

    # element k (>= 1) or the first of a vector of operating points
    def at(self, n, k):
        """k: 0, or the Rat position k >= 1"""
        n = plain(n)
        if n.op == 'store':
            base, ix, val = n.args[:3]
            if is_const(ix):
                if ix.args[0] == 0 and isinstance(k, int):
                    return self.size(val)
                if ix.args[0] == 0:
                    return self.at(base, k)
                if isinstance(k, int) and isinstance(ix.args[0], int) and ix.args[0] > 0:
                    return self.at(base, k)
                raise Unk('point %s' % show(ix))
            if ix.op == 'slice' and is_const(ix.args[0]) and ix.args[1] is NONE and ix.args[0].args[0] == 1:
                return self.at(base, k) if isinstance(k, int) else self.vec(val, k)
            raise Unk('points %s' % show(ix, 3))
        q = pieces(n)
        if q and len(q) == 2:
            f = q[0]
            first = f.args[0] if f.op in ('list', 'tuple') and len(f.args) == 1 else None
            if first is None and self.fill(f) and self.fill(f)[1] is not None and self.fill(f)[1].const() == 1:
                first = const(self.fill(f)[0])
            if first is None:
                raise Unk(show(n, 4))
            return self.size(first) if isinstance(k, int) else self.vec(q[1], k)
        if n.op == 'bin' and n.args[0] in '+-*/':
            def f(x):
                y = plain(x)
                if y is n:
                    return None
                if y.op in ('store',) or pieces(y) and not self.scores(y) or y.op == 'bin' and any(z.op == 'store' or pieces(z) for z in map(plain, y.args[1:])):
                    return self.at(y, k)
                return self.fsize(x)
            return rat(n, f)
        w = self.fill(n)
        if w:
            return num(w[0])
        raise Unk(show(n, 4))

    def vec(self, n, k):
        """element k - 1 of a vector over the sorted trials"""
        def f(x):
            y = plain(x)
            if callname(y) == 'numpy.cumsum' and y.args[1]:
                ab = self.sequence(y.args[1][0])
                if ab:
                    return self.cum(ab, k)
                raise Unk(show(y, 4))
            if callname(y) == 'numpy.arange':
                rg = rangeof(y)
                if rg is None:
                    raise Unk(show(y, 4))
                lo, hi = (self.size(z) for z in rg)
                if not same(hi - lo, self.Nt + self.Nn):
                    raise Bad('positions %r to %r' % (lo, hi))
                return lo + k - num(1)
            if y is not x and y.op in ('bin', 'un'):
                return rat(y, f)
            r = self.fsize(x)
            if r is not None:
                return r
            if x.op in ('const',):
                return None
            if x.op in ('bin', 'un') or is_const(x):
                return None
            raise Unk(show(x, 4))
        return rat(n, f)


def two(f):
    ps = [a for a in f.params()[0]]
    return ps[0], ps[1]


def roc(p, rep):
    got = start(p, ME + 'roc:compute_roc')
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    a, b = two(f)
    W = World(r.env0[a], r.env0[b])
    k = atom(mk('position'))
    for i, (what, first, kth) in enumerate((('p_miss', num(0), W.T(k) / W.Nt), ('p_fa', num(1), (W.Nn - k + W.T(k)) / W.Nn))):
        def go():
            v = strip(r.ret)
            if v.op != 'tuple' or len(v.args) != 2:
                raise Unk(show(v, 3))
            x = v.args[i]
            for e, want, w in ((W.at(x, 0), first, 'at the lowest threshold'), (W.at(x, k), kth, 'above the k lowest scores')):
                if not same(e, want):
                    raise Bad('%s %s is %r, not %r' % (what, w, e, want))
            return '%s: %r' % (what, kth)
        Case(rep, f).run('compute_roc %s' % what, go)
    return 1


def pavcall(n):
    """argument of the call of pavx that n is a result of, and which"""
    n = plain(n)
    if n.op == 'sub' and is_const(n.args[1]):
        c = strip(n.args[0])
        if c.op == 'call' and c.args[0].op == 'func' and c.args[0].args[0] == PAV:
            return [v for _, v in c.args[2]][0] if c.args[2] else c.args[1][0], n.args[1].args[0]
    return None


def rocch(p, rep):
    got = start(p, ME + 'roc:compute_rocch', (PAV,))
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    a, b = two(f)

    def go():
        W = World(r.env0[a], r.env0[b])
        v = strip(r.ret)
        if v.op != 'tuple' or len(v.args) != 2:
            raise Unk(show(v, 3))
        arr = [strip(x) for x in v.args]
        lid = {x.args[0] for y in arr for x in walk(y) if x.op == 'lfin'}
        if len(lid) != 1:
            raise Unk('vertices %s' % show(v, 4))
        L = r.loops[lid.pop()]
        if L.brk is not FALSE:
            raise Unk('loop left early')
        rg = rangeof(L.iter)
        if rg is None:
            raise Unk(show(L.iter, 4))
        wid = {x for x in walk(rg[1]) if pavcall(x)} or {x for e in L.back.values() for x in walk(e) if pavcall(x)}
        wid = {x for x in wid if pavcall(x)[1] == 1}
        if len(wid) != 1:
            raise (Bad if not wid else Unk)('the hull does not follow the widths of the pooled blocks')
        wd = wid.pop()
        arg = pavcall(wd)[0]
        ab = W.sequence(arg)
        if ab is None:
            raise Unk('pooled: %s' % show(arg, 5))
        if ab[0] <= ab[1]:
            raise Bad('pooled labels are %s for targets and %s for non-targets' % ab)
        nb = lambda n: rat(n, lambda x: atom(mk('blocks')) if x.op in ('dim', 'size') and strip(x.args[0]) is strip(wd) else None)
        if nb(rg[0]).const() != 0 or not same(nb(rg[1]), atom(mk('blocks'))):
            raise Bad('vertices %s to %s' % (show(rg[0], 3), show(rg[1], 3)))
        Lft, w = atom(mk('left')), atom(mk('width'))
        W.env[mk('sub', wd, L.ivar)] = w
        forms = [lambda x: x, W.T, lambda x: W.Nn - x + W.T(x), lambda x: x - W.T(x), lambda x: W.Nt - W.T(x)]
        lams = [x for x in L.back if x not in arr and L.entry[x].op != 'unbound' and not any(y.op in ('alloc', 'store') for y in [L.entry[x]])]
        cands = {}
        for x in lams:
            try:
                e = W.size(L.entry[x])
            except (Unk, Bad):
                continue
            cands[x] = [g for g in forms if same(g(num(0)), e)]
        # keep what each variable can stand for, by induction
        import itertools
        need, todo = set(), [L.back[x.args[2]].args[2] for y in arr for x in walk(y) if x.op == 'lfin' and L.back[x.args[2]].op == 'store']
        todo += [x.args[2] for y in arr if y.op == 'store' for x in walk(y.args[2]) if x.op == 'lfin' and x.args[2] in L.back]
        while todo:
            for x in walk(todo.pop()):
                if x in L.back and x not in need:
                    need.add(x)
                    todo.append(L.back[x])
        lams = [x for x in lams if x in need]
        live = [x for x in cands if cands[x] and x in need]
        found = None
        for combo in itertools.product(*[cands[x] for x in live]):
            env = dict(zip(live, combo))
            W2 = World(W.tar, W.non)
            W2.env = dict(W.env)
            W2.env.update({x: g(Lft) for x, g in env.items()})
            if all(same(W2.size(L.back[x]), env[x](Lft + w)) for x in live):
                found = env, W2
                break
        if found is None:
            lost = [x.args[-1] if isinstance(x.args[-1], str) else show(x, 2) for x in lams if x not in live]
            raise Bad('the counts carried from vertex to vertex are not those of the trials below the threshold%s' % (': %s' % ', '.join(map(str, lost)) if lost else ''))
        env, W2 = found
        want = (lambda x: W.T(x) / W.Nt, lambda x: (W.Nn - x + W.T(x)) / W.Nn)
        for x, g, name in zip(arr, want, ('p_miss', 'p_fa')):
            final = None
            if x.op == 'store':
                final = x
                x = strip(x.args[0])
            if x.op != 'lfin':
                if W.fill(x):
                    raise Bad('%s of the vertices is not set' % name)
                raise Unk(show(x, 4))
            lam = x.args[2]
            st = L.back[lam]
            if st.op != 'store' or st.args[0] is not lam:
                raise Unk(show(st, 4))
            d = (rat(st.args[1]) - rat(L.ivar)).const()
            if d not in (0, 1):
                raise Bad('%s of block i is written at %s' % (name, show(st.args[1], 4)))
            # the value may be computed from counts updated in this round
            got_ = W2.size(st.args[2])
            if not same(got_, g(Lft if d == 0 else Lft + w)):
                raise Bad('%s at a vertex is %r' % (name, got_))
            if d == 0:
                if final is None:
                    raise Bad('%s of the last vertex is missing' % name)
                k = final.args[1]
                if not (is_const(k, -1) or same(nb(k), atom(mk('blocks')))):
                    raise Bad('%s of the last vertex is written at %s' % (name, show(k, 4)))
                W3 = World(W.tar, W.non)
                W3.env = {mk('lfin', x.args[0], y.args[1] if False else y, y): None for y in ()}
                tot = W.Nt + W.Nn

                def ff(n):
                    if n.op == 'lfin' and n.args[2] in env:
                        return env[n.args[2]](tot)
                    return W.fsize(n)
                e = rat(final.args[2], ff)
                if not same(e, g(tot)):
                    raise Bad('%s of the last vertex is %r' % (name, e))
            else:
                b0 = L.entry[lam]
                first = W.at(b0, 0)
                if not same(first, g(num(0))):
                    raise Bad('%s of the first vertex is %r' % (name, first))
        return 'one vertex per block, from (0, 1) to (1, 0)'
    Case(rep, f).run('compute_rocch', go)
    return 1


def area(p, rep):
    got = start(p, ME + 'roc:compute_area_under_rocch')
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    a, b = two(f)
    M, F = r.env0[a], r.env0[b]

    def go():
        v = strip(r.ret)
        V = atom(mk('vertices'))

        def size(z):
            if z.op in ('dim', 'size'):
                x = strip(z.args[0])
                if x in (M, F):
                    return V
                if x.op == 'sub' and x.args[1].op == 'slice' and strip(x.args[0]) in (M, F):
                    lo, hi = bounds(x.args[1])
                    return hi - lo
            return None

        def bounds(sl):
            lo, hi = sl.args[:2]
            if len(sl.args) > 2 and sl.args[2] is not NONE and not is_const(sl.args[2], 1):
                raise Unk(show(sl, 3))
            lo = num(0) if lo is NONE else rat(lo, size)
            hi = V if hi is NONE else rat(hi, size)
            return tuple(x + V if x.const() is not None and x.const() < 0 else x for x in (lo, hi))
        if v.op == 'lsum':
            ini, iv, val, cond = v.args[:4]
            if not is_const(ini, 0):
                raise Bad('the area starts at %s' % show(ini, 3))
            if cond is not TRUE:
                raise Bad('only some segments are added: %s' % show(cond, 3))
            rg = rangeof(iv.args[0])
            if rg is None:
                raise Unk(show(iv, 4))
            lo, up = (rat(z, size) for z in rg)
            I_ = rat(iv)
        elif callname(v) == 'numpy.sum' and len(v.args[1]) == 1:
            val, iv, lo, up, I_ = v.args[1][0], None, None, None, num(0)
        else:
            raise Unk(show(v, 4))
        offs = []
        spans = []

        def el(x, base):
            if x.op == 'sub':
                a = strip(x.args[0])
                if iv is None and a in (M, F) and x.args[1].op == 'slice':
                    l, h = bounds(x.args[1])
                    spans.append(h - l)
                    d = l.const()
                elif a in (M, F):
                    d = (rat(x.args[1], size) - I_).const()
                elif a.op == 'sub' and strip(a.args[0]) in (M, F) and a.args[1].op == 'slice' and iv is not None:
                    l, h = bounds(a.args[1])
                    d = (l + rat(x.args[1], size) - I_).const()
                    a = strip(a.args[0])
                else:
                    return None
                if d is None:
                    raise Unk(show(x, 3))
                offs.append(d)
                return atom(mk('vertex', const(a is M), const(int(d - base))))
            return None
        rat(val, lambda x: el(x, 0))
        if not offs:
            raise Unk('the area is %s' % show(v, 4))
        hi = max(offs)
        e = rat(val, lambda x: el(x, hi))
        at = lambda m, d: atom(mk('vertex', const(m), const(d)))
        want = (at(True, 0) - at(True, -1)) * (at(False, 0) + at(False, -1)) * num(Fraction(1, 2))
        if not same(e, want):
            raise Bad('the area of a segment is %r' % e)
        if iv is None:
            if not all(same(x, spans[0]) for x in spans):
                raise Unk('slices of different lengths')
            lo, up = num(0), spans[0]
        if (lo + num(hi)).const() != 1 or not same(up + num(hi), V):
            raise Bad('segments %r to %r are added' % (lo + num(hi), up + num(hi) - num(1)))
        return 'trapezoids of all segments'
    Case(rep, f).run('compute_area_under_rocch', go)
    return 1


def optimal(p, rep):
    got = start(p, ME + 'utils:opt_loglr', (PAV,))
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    a, b = two(f)
    meth = r.env0.get('method')
    for name in ('laplace', 'raw'):
        def go():
            W = World(r.env0[a], r.env0[b])
            facts = {}
            for k in ('laplace', 'raw'):
                facts[mk('cmp', '==', meth, const(k))] = k == name
                facts[mk('cmp', '!=', meth, const(k))] = k != name
            v = strip(resolved(r.ret, facts))
            if v.op != 'tuple' or len(v.args) != 2:
                raise Unk(show(v, 3))
            bases = []
            for x, (lo, hi) in zip(v.args, ((num(0), W.Nt), (W.Nt, W.Nt + W.Nn))):
                x = strip(x)
                if x.op != 'sub' or x.args[1].op != 'slice':
                    raise Unk(show(x, 3))
                l, h = x.args[1].args[:2]
                l = num(0) if l is NONE else W.size(l)
                h = W.Nt + W.Nn if h is NONE else W.size(h)
                if not same(l, lo) or not same(h, hi):
                    raise Bad('ratios %r to %r are returned for trials %r to %r' % (l, h, lo, hi))
                bases.append(strip(x.args[0]))
            if bases[0] is not bases[1]:
                raise Unk('two sources')
            x = bases[0]
            if x.op == 'store':
                if W.order(x.args[1]) is None:
                    raise Unk(show(x.args[1], 4))
                val = x.args[2]
                view = val
                while view.op == 'sub' and view.args[1].op == 'slice' or view.op == 'alloc':
                    view = view.args[0] if view.op == 'sub' else view.args[1]
                base = x.args[0]
                while base.op == 'alloc':
                    base = base.args[1]
                if view is base:
                    raise Bad('ratios still to be moved are overwritten while they are put back in order')
                val = plain(val)
                while callname(val) in ('numpy.copy', 'numpy.array') and val.args[1]:
                    val = plain(val.args[1][0])
            elif x.op == 'sub' and callname(plain(x.args[1])) == 'numpy.argsort' and not W.scores(plain(x.args[1]).args[1][0]) and W.order(plain(x.args[1]).args[1][0]):
                val = x.args[0]
            elif x.op == 'sub' and W.order(x.args[1]):
                raise Bad('the ratios of the sorted trials are sorted once more, not put back in order')
            elif x.op in ('bin', 'iop'):
                raise Bad('the ratios are left in the order of the scores')
            else:
                raise Unk(show(x, 4))
            P = mk('posterior')
            lp, lq, lt, ln = (mk('log', z) for z in (P, mk('1-posterior'), W.nt, W.nn))
            arg = []

            def f2(n):
                n = strip(n) if n.op == 'alloc' else n
                if callname(n) in ('numpy.log', 'math.log') and len(n.args[1]) == 1:
                    return log(n.args[1][0])
                if callname(n) == 'numpy.log1p' and len(n.args[1]) == 1:
                    m = strip(n.args[1][0])
                    if m.op == 'un' and m.args[0] == '-' and post(m.args[1]):
                        return atom(lq)
                if callname(n) == 'numpy.searchsorted':
                    return atom(mk('rank'))
                if n.op in ('dim', 'size'):
                    return W.fsize(n)
                return None

            def post(n):
                n = strip(n)
                lo = hi = None
                if n.op == 'sub' and n.args[1].op == 'slice':
                    lo, hi = n.args[1].args[:2]
                    n = strip(n.args[0])
                c = pavcall(n)
                if not c:
                    return False
                if c[1] != 0:
                    raise Bad('result %d of the pooling is used' % c[1])
                arg.append((c[0], lo, hi))
                return True

            def part(d):
                for z, o in ((W.Nt, lt), (W.Nn, ln)):
                    if same(Rat(d), z):
                        return atom(o)
                if Rat(d).const() == 1:
                    return num(0)
                return atom(mk('log', const(repr(Rat(d)))))

            def log(n):
                n = strip(n)
                if post(n):
                    return atom(lp)
                if n.op == 'bin' and n.args[0] == '-' and is_const(n.args[1], 1) and post(n.args[2]):
                    return atom(lq)
                if n.op == 'bin' and n.args[0] == '/':
                    return log(n.args[1]) - log(n.args[2])
                if n.op == 'bin' and n.args[0] == '*':
                    return log(n.args[1]) + log(n.args[2])
                s = W.size(n)
                if same(s, W.Nt):
                    return atom(lt)
                if same(s, W.Nn):
                    return atom(ln)
                if all(z in (W.nt, W.nn) for z in s.atoms()) and s.p:
                    return part(s.p) - part(s.q)
                raise Unk('log of %s' % show(n, 4))
            e = rat(val, f2)
            want = atom(lp) - atom(lq) - atom(lt) + atom(ln)
            rest = e - want
            if rest.p:
                u = rest * (W.Nt + W.Nn) / atom(mk('rank'))
                k = u.const()
                if k is None:
                    k = (rest / atom(mk('rank'))).const()
                if k is None:
                    num_, den = rest.p, rest.q
                    ok = None
                    if all(mk('rank') in m for m in num_):
                        r2 = Rat({tuple(y for y in m if y is not mk('rank')): c for m, c in num_.items()}, den)
                        for z in (W.Nt + W.Nn, num(1)):
                            q = r2 * z
                            s = [c for c in q.p.values()]
                            t = [c for c in q.q.values()]
                            if q.p and {m: c / s[0] for m, c in q.p.items()} == {m: c / t[0] for m, c in q.q.items()}:
                                ok = s[0] / t[0]
                    if ok is None:
                        raise Bad('the log-ratio is %r' % e)
                    k = ok
                if k < 0:
                    raise Bad('the ratios fall with the scores inside a block')
                if k > Fraction(1, 1000):
                    raise Bad('the ratios grow by %s inside a block' % float(k))
            args = {(x_, l_, h_) for x_, l_, h_ in arg}
            if len(args) != 1:
                raise Bad('posteriors and their complements are of different trials') if len(args) > 1 else Unk('posterior')
            x_, l_, h_ = args.pop()
            q = pieces(x_)
            pad = 0
            if q and len(q) == 3 and W.sequence(q[1]):
                for side in (q[0], q[2]):
                    if side.op not in ('list', 'tuple') or [z.args[0] if is_const(z) else None for z in side.args] != [1, 0]:
                        raise Bad('the extra trials are %s, not a target and a non-target' % show(side, 3))
                ab = W.sequence(q[1])
                pad = 2
            else:
                ab = W.sequence(x_)
            if ab is None:
                raise Unk('pooled: %s' % show(x_, 5))
            if (ab[0], ab[1]) != (1, 0):
                raise Bad('pooled labels are %s for targets and %s for non-targets' % ab)
            if (pad != 0) != (name == 'laplace'):
                raise Bad('extra trials at both ends are %s' % ('added' if pad else 'left out'))
            lo = 0 if l_ is None or l_ is NONE else l_.args[0] if is_const(l_) else None
            hi = 0 if h_ is None or h_ is NONE else -h_.args[0] if is_const(h_) and isinstance(h_.args[0], int) and h_.args[0] < 0 else None
            if hi is None and h_ is not None:
                d = (W.size(h_) - W.Nt - W.Nn).const()
                hi = None if d is None else 2 * pad - d if pad else -d
            if lo is None or hi is None:
                raise Unk('posteriors %s to %s' % (l_, h_))
            if (lo, hi) != (pad, pad):
                raise Bad('%s posteriors are dropped before and %s after, with %d extra trials at each end' % (lo, hi, pad))
            return 'log posterior odds less log prior odds, in the order of the trials'
        Case(rep, f).run('opt_loglr(%s)' % name, go)
    return 1


def pooling(p, rep):
    got = start(p, PAV)
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    Y = r.env0[f.params()[0][0]]
    C = Case(rep, f)
    merges = [L for L in r.loops.values() if L.iter is None and L.cond is not None and any(
        y.op == 'cmp' and all(z.op == 'sub' for z in y.args[1:3]) for c in (L.cond, L.brk) for y in walk(c))]
    outer = [L for L in r.loops.values() if L.iter is not None and rangeof(L.iter) is not None and any(is_const(e, 0) for e in L.entry.values())]

    def going(L):
        """condition for one more merge"""
        c = L.cond
        if L.brk is not FALSE:
            c = mk('and', c, mk('not', L.brk))
        return c

    def roles():
        if len(merges) != 1:
            raise Unk('%d merging loops' % len(merges))
        M = merges[0]
        ci = [x for x in M.back if same(rat(M.back[x]) - rat(x), num(-1))]
        if len(ci) != 1:
            if any(M.back[x] is x or same(rat(M.back[x]) - rat(x), num(1)) for x in M.back if x.args[-1] and not any(y.op == 'store' for y in walk(M.back[x]))) and not ci:
                raise Bad('after a merge the current block is not the one before')
            raise Unk('position')
        ci = ci[0]
        prev = mk('bin', '-', ci, const(1))
        cmps = [y for y in walk(going(M)) if y.op == 'cmp' and all(z.op == 'sub' for z in y.args[1:3])]
        if len(cmps) != 1:
            raise Unk(show(M.cond, 5))
        g = cmps[0].args[1].args[0]
        return M, ci, prev, g, cmps[0]

    def pos(n, ci):
        return (rat(n) - rat(ci)).const()

    def test():
        M, ci, prev, g, c = roles()
        op, x, y = c.args[:3]
        if x.args[0] is not y.args[0]:
            raise Unk(show(c, 4))
        px, py = pos(x.args[1], ci), pos(y.args[1], ci)
        if {px, py} != {0, -1}:
            raise Bad('blocks %s and %s are compared' % (show(x.args[1], 3), show(y.args[1], 3)))
        if any(y.op == 'not' and any(z is c for z in walk(y)) for y in walk(going(M))):
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}.get(op, op)
        if op in ('>', '>='):
            px, py, op = py, px, {'>': '<', '>=': '<='}[op]
        if op not in ('<', '<='):
            raise Bad('blocks are pooled when %s' % show(c, 4))
        if (px, py) != (0, -1):
            raise Bad('blocks are pooled when they are in order')
        if op == '<':
            raise Bad('neighbouring blocks of the same level are kept apart')
        lows = [y for y in walk(going(M)) if y.op == 'cmp' and y is not c and ci in y.args[1:3]]
        if len(lows) != 1:
            raise Bad('the first block has no block before it') if not lows else Unk(show(M.cond, 4))
        o, u, w = lows[0].args[:3]
        if u is ci:
            o, u, w = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o), w, u
        if o == '!=' and is_const(u, 0):
            return 'pooled while out of order'
        if not (is_const(u) and isinstance(u.args[0], int) and o in ('<', '<=')):
            raise Unk(show(lows[0], 3))
        lim = u.args[0] + (1 if o == '<' else 0)
        if lim != 1:
            raise Bad('pooling goes down to block %d' % lim)
        if not (going(M).op in ('and',) or M.cond.op == 'bin' and M.cond.args[0] == '&'):
            raise (Unk if going(M).op == 'not' else Bad)('blocks are pooled when %s' % show(M.cond, 4))
        return 'pooled while out of order'
    C.run('pavx: which blocks are pooled', test)

    def mean():
        M, ci, prev, g, c = roles()
        st = {x: M.back[x] for x in M.back if M.back[x].op == 'store' and M.back[x].args[0] is x}
        if g not in st:
            raise Bad('the level of the pooled block is not changed')
        widths = [x for x in st if x is not g]
        if len(widths) != 1:
            raise Bad('the size of the pooled block is not changed') if not widths else Unk('sizes')
        l = widths[0]
        A = lambda a, d: atom(mk('block', const(a), const(d)))

        def el(x):
            if x.op == 'sub' and x.args[0] in (g, l):
                d = pos(x.args[1], ci)
                if d is None:
                    raise Unk(show(x, 3))
                return A('level' if x.args[0] is g else 'size', int(d))
            return None
        for x, name, want in ((g, 'level', (A('size', -1) * A('level', -1) + A('size', 0) * A('level', 0)) / (A('size', -1) + A('size', 0))), (l, 'size', A('size', -1) + A('size', 0))):
            if pos(st[x].args[1], ci) != -1:
                raise Bad('the %s of the pooled block is written at %s' % (name, show(st[x].args[1], 3)))
            e = rat(st[x].args[2], el)
            d = e - want
            if d.p:
                raise Bad('the %s of a pooled block is %r' % (name, e))
        return 'weighted mean, sum of the sizes'
    C.run('pavx: pooled block', mean)

    def first(e, name, ok):
        """what the first block holds"""
        e = strip(e)
        if e.op == 'store' and is_const(e.args[1], 0):
            v = e.args[2]
        elif plain(e) is Y or e is Y:
            v = mk('sub', Y, const(0))
        elif e.op == 'store':
            raise Bad('the %s of the first block is written at %s' % (name, show(e.args[1], 3)))
        else:
            w = callname(e)
            if w not in ('numpy.zeros', 'numpy.zeros_like', 'numpy.ones', 'numpy.ones_like'):
                raise Unk(show(e, 4))
            v = const(int('ones' in w))
        if not ok(v):
            raise Bad('the %s of the first block is %s' % (name, show(v, 3)))

    def new():
        M, ci, prev, g, c = roles()
        O = [L for L in outer if any(ci0 is not None and is_const(ci0, 0) for ci0 in L.entry.values()) and M in r.loops.values() and any(
            y.op == 'lfin' and r.loops.get(y.args[0]) is M for b in L.back.values() for y in walk(b))]
        if len(O) != 1:
            raise Unk('loop over the scores: %d' % len(O))
        O = O[0]
        rg = rangeof(O.iter)
        n = lambda z: rat(z, lambda x: atom(mk('n')) if x.op in ('dim', 'size') and strip(x.args[0]) is Y else None)
        if n(rg[0]).const() != 1 or not same(n(rg[1]), atom(mk('n'))):
            raise Bad('blocks of scores %s to %s' % (show(rg[0], 3), show(rg[1], 3)))
        oc = M.entry[ci]
        def after(e):
            if e.op == 'phi' and e.args[0].op == 'broke':
                k = [z for z in e.args[1:] if z.op == 'lfin']
                return k[0] if k else e
            return e
        lam = [x for x in O.back if after(O.back[x]).op == 'lfin' and after(O.back[x]).args[2] is ci]
        if len(lam) != 1:
            raise Unk('position')
        lam = lam[0]
        if not same(rat(oc) - rat(lam), num(1)):
            raise Bad('a new score makes block %s' % show(oc, 3))
        l = [x for x in M.back if M.back[x].op == 'store' and M.back[x].args[0] is x and x is not g]
        if len(l) != 1:
            raise Unk('sizes')
        l = l[0]
        one = lambda v: is_const(v, 1)
        for x, name, ok in ((g, 'level', lambda v: v is mk('sub', Y, O.ivar)), (l, 'size', one)):
            e = M.entry[x]
            if e.op != 'store':
                raise Bad('the %s of a new block is left as it was' % name)
            if not same(rat(e.args[1]), rat(oc)):
                raise Bad('a new %s is written at %s' % (name, show(e.args[1], 3)))
            if not ok(e.args[2]):
                raise Bad('the %s of a new block is %s' % (name, show(e.args[2], 3)))
            base = e.args[0]
            if base not in O.entry:
                raise Unk(show(base, 3))
            first(O.entry[base], name, (lambda v: v is mk('sub', Y, const(0))) if x is g else one)
        B = [y for y in walk(strip(r.ret)) if y.op == 'lfin' and r.loops[y.args[0]].iter is None and r.loops[y.args[0]] is not M]
        arrs = {y.args[0] for z in B for L in [r.loops[z.args[0]]] for bk in L.back.values() for y in walk(bk) if y.op == 'sub' and y.args[1] in L.back and any(q is y for q in L.back.values())}
        if len(arrs) == 1:
            ix = arrs.pop()
            if not (ix.op == 'lfin' and r.loops.get(ix.args[0]) is O):
                raise Bad('the blocks do not keep where they start')
            st = O.back[ix.args[2]]
            if st.op != 'store' or st.args[0] is not ix.args[2]:
                raise Unk(show(st, 4))
            if st.args[2] is not O.ivar or not same(rat(st.args[1]), rat(oc)):
                raise Bad('block %s starts at %s' % (show(st.args[1], 3), show(st.args[2], 3)))
            first(O.entry[ix.args[2]], 'start', lambda v: is_const(v, 0))
        return 'one block per score'
    C.run('pavx: new blocks', new)

    def spread():
        v = strip(r.ret)
        if v.op != 'tuple' or len(v.args) != 3:
            raise Unk(show(v, 3))
        w, h = strip(v.args[1]), strip(v.args[2])
        ends = []
        for x, name in ((w, 'sizes'), (h, 'levels')):
            if callname(x) in ('numpy.copy',) and x.args[1]:
                x = strip(x.args[1][0])
            if x.op == 'icall' and x.args[0].op == 'attr' and x.args[0].args[1] == 'copy':
                x = strip(x.args[0].args[0])
            if x.op != 'sub' or x.args[1].op != 'slice' or not (x.args[1].args[0] is NONE or is_const(x.args[1].args[0], 0)):
                if x.op == 'sub' and x.args[1].op == 'slice':
                    raise Bad('%s from block %s on' % (name, show(x.args[1].args[0], 3)))
                raise Unk(show(x, 4))
            ends.append(x.args[1].args[1])
        if ends[0] is not ends[1] and not same(rat(ends[0]), rat(ends[1])):
            raise Bad('%s sizes for %s levels' % (show(ends[0], 3), show(ends[1], 3)))
        e = rat(ends[0])
        at = [a for a in e.atoms()]
        if len(at) != 1 or not same(e, atom(at[0]) + num(1)):
            raise Bad('blocks up to %s are returned' % show(ends[0], 4))
        if v.args[2] is v.args[0] or h.op == 'sub' and not (callname(strip(v.args[2])) == 'numpy.copy' or strip(v.args[2]) is not v.args[2]):
            pass
        y = strip(v.args[0])
        if callname(y) == 'numpy.repeat':
            if strip(y.args[1][0]) is h and strip(y.args[1][1]) is w:
                return 'each block over its scores'
            raise Bad('levels %s are repeated by %s' % (show(y.args[1][0], 3), show(y.args[1][1], 3)))
        if y.op != 'lfin':
            raise Unk(show(y, 4))
        B = r.loops[y.args[0]]
        if B.iter is not None:
            raise Unk('loop')
        dn = [x for x in B.back if same(rat(B.back[x]) - rat(x), num(-1))]
        inner = strip(B.back[y.args[2]])
        if len(dn) != 1:
            raise Bad('blocks are not gone through from the last to the first') if inner.op in ('lfin', 'lfill', 'llast') else Unk('blocks')
        ci = dn[0]
        if inner.op == 'store' and inner.args[1].op == 'slice' and inner.args[0] is y.args[2]:
            rg = inner.args[1].args[:2]
            if inner.args[2].op != 'sub' or inner.args[2].args[1] is not ci:
                raise Bad('block i gets %s' % show(inner.args[2], 4))
            return ends_of(B, ci, rg)
        if inner.op != 'lfin':
            raise Unk(show(inner, 4))
        F = r.loops[inner.args[0]]
        st = F.back[inner.args[2]]
        rg = rangeof(F.iter) if F.iter is not None else None
        if rg is None or st.op != 'store':
            raise Unk(show(st, 4))
        if st.args[1] is not F.ivar or st.args[2].op != 'sub' or st.args[2].args[1] is not ci:
            raise Bad('score j of block i gets %s' % show(st.args[2], 4))
        return ends_of(B, ci, rg)

    def ends_of(B, ci, rg):
        nn = [x for x in B.back if B.back[x] is rg[0]]
        if not nn or rg[1] is not nn[0] or not (rg[0].op == 'sub' and rg[0].args[1] is ci):
            raise Bad('a block covers scores %s to %s, then up to %s' % (show(rg[0], 3), show(rg[1], 3), show(B.back.get(rg[1], NONE), 3)))
        n = rat(B.entry[nn[0]], lambda x: atom(mk('n')) if x.op in ('dim', 'size') and strip(x.args[0]) is Y else None)
        if not same(n, atom(mk('n'))):
            raise Bad('the last block ends at %r' % n)
        c = B.cond
        if c.op == 'cmp':
            o, u, w_ = c.args[:3]
            if u is nn[0]:
                o, u, w_ = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o), w_, u
            if w_ is nn[0] and is_const(u) and isinstance(u.args[0], int) and o in ('<', '<='):
                if u.args[0] + (1 if o == '<' else 0) != 1:
                    raise Bad('scores below %d keep the level of their own' % (u.args[0] + (1 if o == '<' else 0)))
        return 'each block over its scores'
    C.run('pavx: level of every score', spread)
    return 1


def segment(n, M, F, iv):
    """rate at which the segment from vertex i to i + 1 meets p_miss = p_fa"""
    V = lambda a, d: atom(mk('vertex', const('miss' if a is M else 'fa'), const(d)))

    def mat(n):
        """number, vector or matrix of expressions"""
        n = strip(n)
        c = callname(n)
        if n.op == 'const' and isinstance(n.args[0], (int, float)):
            return num(Fraction(n.args[0]))
        if n.op in ('list', 'tuple'):
            return [mat(x) for x in n.args]
        if n.op == 'sub' and strip(n.args[0]) in (M, F):
            a, ix = strip(n.args[0]), n.args[1]
            off = lambda z: int((rat(z) - rat(iv)).const())
            if ix.op == 'slice':
                return [V(a, d) for d in range(off(ix.args[0]), off(ix.args[1]))]
            return V(a, off(ix))
        if n.op == 'sub' and is_const(n.args[1]):
            return mat(n.args[0])[n.args[1].args[0]]
        if n.op == 'sub' and n.args[1].op == 'tuple' and all(is_const(z) for z in n.args[1].args):
            m = mat(n.args[0])
            for z in n.args[1].args:
                m = m[z.args[0]]
            return m
        if c in ('numpy.array', 'numpy.asarray'):
            return mat(n.args[1][0])
        if c == 'numpy.ones':
            s = strip(n.args[1][0])
            s = [z.args[0] for z in s.args] if s.op in ('tuple', 'list') else [s.args[0]]
            return [[num(1)] * s[1] for _ in range(s[0])] if len(s) == 2 else [num(1)] * s[0]
        if c == 'numpy.vstack' or c == 'numpy.stack' and (not n.args[2] or all(is_const(v, 0) for _, v in n.args[2])):
            return mat(n.args[1][0])
        if c in ('numpy.concatenate', 'numpy.hstack') and len(n.args[1]) == 1:
            m = mat(n.args[1][0])
            if any(k == 'rows' and v is TRUE for k, v in n.args[2]) and not isinstance(m[0][0], list):
                return m
            if all(is_const(v, 0) for k, v in n.args[2] if k == 'axis') and (c == 'numpy.concatenate' or not isinstance(m[0][0], list)):
                return [z for y in m for z in y]
        if c in ('numpy.column_stack',) or n.op == 'T' or n.op == 'attr' and n.args[1] == 'T' or c == 'numpy.transpose':
            m = mat(n.args[1][0] if c else n.args[0])
            return [list(z) for z in zip(*m)] if m and isinstance(m[0], list) else m
        if c in ('numpy.dot', 'numpy.matmul') or n.op == 'bin' and n.args[0] == '@':
            x, y = [mat(z) for z in (n.args[1][:2] if c else n.args[1:3])]
            vx, vy = not isinstance(x[0], list), not isinstance(y[0], list)
            x = [x] if vx else x
            y = [[z] for z in y] if vy else y
            o = []
            for row in x:
                o.append([])
                for col in zip(*y):
                    t = num(0)
                    for u, w in zip(row, col):
                        t = t + u * w
                    o[-1].append(t)
            if vy:
                o = [z[0] for z in o]
            return o[0] if vx else o
        if c in ('scipy.linalg.solve', 'numpy.linalg.solve'):
            A, B = [mat(z) for z in n.args[1][:2]]
            if len(A) != 2 or len(A[0]) != 2 or len(B) != 2:
                raise Unk(show(n, 3))
            (e, g), (h, k) = A
            det = e * k - g * h
            if not det.p:
                raise Bad('the line has no equation')
            col = isinstance(B[0], list)
            u, w = (B[0][0], B[1][0]) if col else B
            x, y = (k * u - g * w) / det, (e * w - h * u) / det
            return [[x], [y]] if col else [x, y]
        if c == 'numpy.diff' and n.args[1]:
            m = mat(n.args[1][0])
            return [y - x for x, y in zip(m, m[1:])]
        if c == 'numpy.sum' and n.args[1]:
            t = num(0)
            for z in flat(mat(n.args[1][0])):
                t = t + z
            return t
        if n.op == 'bin' and n.args[0] in '+-*/':
            x, y = mat(n.args[1]), mat(n.args[2])
            return each(x, y, n.args[0])
        if n.op == 'un' and n.args[0] == '-':
            return each(num(0), mat(n.args[1]), '-')
        raise Unk(show(n, 4))

    def each(x, y, o):
        if isinstance(x, list) and isinstance(y, list):
            return [each(u, w, o) for u, w in zip(x, y)]
        if isinstance(x, list):
            return [each(u, y, o) for u in x]
        if isinstance(y, list):
            return [each(x, w, o) for w in y]
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[o]()

    def flat(m):
        return [z for y in m for z in flat(y)] if isinstance(m, list) else [m]

    def absolute(n):
        n = strip(n)
        if callname(n) in ('numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.fabs'):
            return n.args[1][0]
        if n.op == 'abs':
            return n.args[0]
        return None

    def flatness(c):
        """differences, one of which is zero where c holds; whether c must hold"""
        if c.op == 'not':
            d, s = flatness(c.args[0])
            return d, not s
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            x, y = c.args[1:3]
            if is_const(x, 0):
                x, y = y, x
            if is_const(y, 0):
                x = strip(x)
                if callname(x) in ('numpy.min', 'numpy.amin', 'builtins.min') and absolute(x.args[1][0]) is not None:
                    return flat(mat(absolute(x.args[1][0]))), c.args[0] == '=='
                if callname(x) in ('numpy.max', 'numpy.amax', 'builtins.max'):
                    raise Bad('a segment is taken as flat only when both its vertices are the same')
                return flat(mat(x)), c.args[0] == '=='
            return flat(each(mat(x), mat(y), '-')), c.args[0] == '=='
        if callname(c) == 'numpy.any' and c.args[1]:
            return flatness(c.args[1][0])
        if c.op == 'or':
            p = [flatness(z) for z in c.args]
            return [d for q, _ in p for d in q], all(s for _, s in p)
        raise Unk(show(c, 4))

    n = strip(n)
    if n.op != 'phi':
        raise Unk(show(n, 4))
    c, a, b = n.args
    ds, s = flatness(c)
    if not s:
        a, b = b, a
    dx, dy = V(F, 1) - V(F, 0), V(M, 1) - V(M, 0)
    for w, name in ((dx, 'horizontally'), (dy, 'vertically')):
        if not any(same(d, w) or same(d, num(0) - w) for d in ds):
            raise Bad('segments that do not move %s are not recognised' % name)
    for d in ds:
        if not any(same(d, w) or same(d, num(0) - w) for w in (dx, dy)):
            raise Bad('a segment is left out when %r is 0' % d)
    if mat(a) is None or not same(mat(a), num(0)):
        raise Bad('a flat segment gives the rate %s' % show(a, 4))
    e = mat(b)
    want = (V(F, 0) * V(M, 1) - V(F, 1) * V(M, 0)) / (dy - dx)
    if isinstance(e, list):
        e = flat(e)[0]
    if not same(e, want):
        raise Bad('the crossing of a segment is %r' % e)


def greatest(n, cur):
    """(whether the larger is kept, the value compared) of the larger or smaller of cur and a value"""
    c = callname(n)
    if c:
        ops = n.args[1][0].args if len(n.args[1]) == 1 and n.args[1][0].op in ('tuple', 'list') else n.args[1]
        ops = [strip(z) for z in ops]
        if len(ops) == 2 and cur in ops:
            other = ops[1] if ops[0] is cur else ops[0]
            if c in ('numpy.maximum', 'builtins.max', 'numpy.fmax', 'numpy.max', 'numpy.amax'):
                return True, other
            if c in ('numpy.minimum', 'builtins.min', 'numpy.fmin', 'numpy.min', 'numpy.amin'):
                return False, other
    if n.op == 'phi' and n.args[0].op == 'cmp' and n.args[0].args[0] in ('<', '<=', '>', '>='):
        (o, x, y), a, b = n.args[0].args[:3], n.args[1], n.args[2]
        if {x, y} == {a, b} and cur in (a, b) and a is not b:
            return (a is y) == (o[0] == '<'), b if a is cur else a
    return None, None


def crossing(p, rep):
    """the equal error rate is where a segment of the hull meets p_miss = p_fa"""
    got = start(p, ME + 'roc:rocch2eer')
    if not got:
        return 0
    f, r = got
    rep.unit(f.fq)
    a, b = two(f)
    M, F = r.env0[a], r.env0[b]

    def go():
        v = strip(r.ret)
        if v.op == 'lfin':
            L = r.loops[v.args[0]]
            val = L.back[v.args[2]]
            ini, iv = L.entry[v.args[2]], L.ivar
            cur = v.args[2]
        else:
            raise Unk(show(v, 4))
        rg = rangeof(L.iter)
        if rg is None:
            raise Unk(show(L.iter, 3))
        size = lambda z: rat(z, lambda x: atom(mk('vertices')) if x.op in ('dim', 'size') and strip(x.args[0]) in (M, F) else None)
        if size(rg[0]).const() != 0 or not same(size(rg[1]), atom(mk('vertices')) - num(1)):
            raise Bad('segments %s to %s are examined' % (show(rg[0], 3), show(rg[1], 3)))
        if not is_const(ini, 0):
            raise Bad('the largest rate starts at %s' % show(ini, 3))
        skip = None
        full = val
        v1 = strip(val)
        if v1.op == 'phi' and any(strip(z) is cur for z in v1.args[1:]) and not any(y is cur for y in walk(v1.args[0])):
            skip = v1.args[0], strip(v1.args[1]) is cur
            val = v1.args[2 if skip[1] else 1]
        most, other = greatest(strip(val), cur)
        if most is None:
            raise Unk(show(val, 4))
        if not most:
            raise Bad('the smallest crossing is taken')
        if skip:
            other = mk('phi', skip[0], const(0), other) if skip[1] else mk('phi', skip[0], other, const(0))
        val = full
        for s in [y for y in walk(val) if y.op == 'slice']:
            lo, hi = s.args[:2]
            if lo is NONE or hi is NONE:
                continue
            if not same(rat(lo), rat(iv)) or not same(rat(hi) - rat(iv), num(2)):
                raise Bad('a segment is vertices %s to %s' % (show(lo, 3), show(hi, 3)))
        segment(other, M, F, iv)
        return 'largest crossing over all segments'
    Case(rep, f).run('rocch2eer', go)
    return 1


def check(p, rep, tier):
    n = 0
    for fn in (roc, rocch, area, optimal, pooling, crossing):
        n += fn(p, rep)
    rep.require('curve functions', n, 3)
