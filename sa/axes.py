"""Named-axis inference on the value graph.

Every array gets a tuple of axis names.  An axis name identifies an *ordering
of items* (the models of this object, the rows selected by that mask, ...), so
two arrays share an axis name only when entry i of one belongs with entry i of
the other.  Index arrays carry the axis they point into (`cod`).  Conflicts are
recorded only between names that are both grounded in declared axes."""
from .ir import *
from .interp import *

ONE = mk('axone')


class T(object):
    """axes: tuple of axis terms (None = unknown axis); cod: axis an index points into;
    kind: optional tag (labels, mask, inv)"""
    __slots__ = ('axes', 'cod', 'kind')

    def __init__(self, axes, cod=None, kind=None):
        self.axes, self.cod, self.kind = tuple(axes), cod, kind

    def __repr__(self):
        return '[%s]%s' % (', '.join(show(a, 4) if a is not None else '?' for a in self.axes),
                           '' if self.cod is None else '→' + show(self.cod, 4))


def strip(n):
    """look through value-preserving wrappers"""
    while True:
        cn = callname(n)
        if cn in ('numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.astype', 'numpy.ascontiguousarray', 'builtins.list',
                  'builtins.tuple', 'copy.deepcopy', 'copy.copy', 'numpy.tolist', 'numpy.view', 'builtins.sorted_') and n.args[1]:
            n = n.args[1][0]
            continue
        if n.op == 'alloc' and n.args[1].op == 'call' and callname(n.args[1]) in ('numpy.asarray', 'numpy.array', 'numpy.copy',
                                                                                 'builtins.list', 'builtins.tuple', 'copy.deepcopy') and n.args[1].args[1]:
            n = n.args[1].args[1][0]
            continue
        if n.op == 'phi':
            a, b = strip(n.args[1]), strip(n.args[2])
            if a is b:
                n = a
                continue
        return n


def project(n, asg, memo=None):
    """resolve phi nodes whose condition is decided by asg: {cond: bool}"""
    memo = {} if memo is None else memo
    for c, v in asg.items():
        if v and c.op == 'cmp' and c.args[0] == 'is' and is_const(c.args[2], None) and c.args[1].op == 'attr':
            memo.setdefault(c.args[1].uid, NONE)

    def f(x):
        if x in asg:
            return const(asg[x])
        if x.uid in memo:
            return memo[x.uid]
        memo[x.uid] = x
        if x in asg:
            r = const(asg[x])
        elif x.op == 'phi':
            c = f(x.args[0])
            if c.op == 'const':
                r = f(x.args[1] if c.args[0] else x.args[2])
            else:
                r = phi(c, f(x.args[1]), f(x.args[2]))
        elif any(True for _ in children(x)):
            if x.op == 'and':
                r = conj(*[f(y) for y in x.args[0]])
            elif x.op == 'or':
                r = disj(*[f(y) for y in x.args[0]])
            elif x.op == 'not':
                r = neg(f(x.args[0]))
            elif x.op == 'cmp' and x.args[0] in ('is', 'is not') and is_const(x.args[2], None):
                a = f(x.args[1])
                if a.op == 'const':
                    r = const((a.args[0] is None) == (x.args[0] == 'is'))
                elif a.op in ('alloc', 'sub', 'store', 'bin') or callname(a):
                    r = const(x.args[0] != 'is')
                else:
                    r = mk('cmp', x.args[0], a, x.args[2])
                    if r in asg:
                        r = const(asg[r])
            else:
                r = rebuild(x, f)
        else:
            r = x
        memo[x.uid] = r
        return r
    return f(n)


def top_conds(n, acc=None, depth=6):
    """atoms guarding the top-level phi structure of n"""
    acc = [] if acc is None else acc
    n0 = n
    if n.op == 'alloc' and n.args[1].op == 'phi':
        n = n.args[1]
    if n.op == 'phi' and depth:
        for a in atoms(n.args[0]):
            if a not in acc:
                acc.append(a)
        top_conds(n.args[1], acc, depth - 1)
        top_conds(n.args[2], acc, depth - 1)
    return acc


def atoms(c):
    if c.op in ('and', 'or'):
        out = []
        for x in c.args[0]:
            out += atoms(x)
        return out
    if c.op == 'not':
        return atoms(c.args[0])
    if c.op == 'phi':
        return atoms(c.args[0]) + atoms(c.args[1]) + atoms(c.args[2])
    if c.op == 'cmp' and c.args[0] in ('is not', '!=', 'not in'):
        return [mk('cmp', NEG[c.args[0]], c.args[1], c.args[2])]
    if c.op == 'const':
        return []
    return [c]


def grounded(a):
    """axis term whose identity is fully known"""
    if a is None:
        return False
    if a is ONE:
        return True
    if a.op == 'ax':
        return True
    if a.op == 'axsel':
        return grounded(a.args[0]) and not any(x.op in ('unk',) for x in walk(a.args[1]))
    if a.op == 'axcat':
        return grounded(a.args[1])
    if a.op == 'axroot':
        return True
    return False


ELEMWISE = {'exp', 'log', 'sqrt', 'abs', 'sign', 'floor', 'ceil', 'isfinite', 'isnan', 'isinf', 'log10', 'log2', 'log1p',
            'expm1', 'tanh', 'maximum', 'minimum', 'isclose', 'logaddexp', 'clip', 'where', 'nan_to_num', 'round', 'around',
            'sin', 'cos', 'arctan2', 'conj', 'invert', 'hypot', 'fmax', 'fmin', 'equal'}
REDUCE = {'sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin', 'median', 'count_nonzero',
          'quantile', 'percentile', 'nansum', 'nanmean'}


class Axes(object):
    def __init__(self, schema=None, interp=None):
        self.memo = {}
        self.schema = schema or (lambda obj, name: None)
        self.seed = {}          # node -> T
        self.conflicts = []     # (node, msg)
        self.I = interp
        self.hyp_checks = []

    # -- conflicts ---------------------------------------------------------
    def conflict(self, node, msg):
        k = (node, msg)
        if k not in self.conflicts:
            self.conflicts.append(k)

    def same(self, a, b, node, what):
        """unify two axis names; a conflict only if both are grounded and differ"""
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if a is ONE:
            return b
        if b is ONE:
            return a
        if grounded(a) and grounded(b):
            self.conflict(node, '%s: axis %s against axis %s' % (what, axname(a), axname(b)))
            return None
        return a if grounded(a) else b

    # -- inference -----------------------------------------------------------
    def ty(self, n):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        r = self.seed.get(n)
        if r is None:
            m = getattr(self, 't_' + n.op, None)
            r = m(n) if m is not None else None
        if r is not None and r.kind == 'partial':
            r = None            # rank of the elements unknown
        self.memo[n] = r
        return r

    def axis(self, n, k=0):
        t = self.ty(n)
        if t is not None and -len(t.axes) <= k < len(t.axes):
            return t.axes[k]
        return None

    def laxis(self, n):
        """axis of a label array: its own ordering"""
        n = strip(n)
        t = self.ty(n)
        if t is None and callname(n) == 'numpy.concatenate':
            t = self.t_call(n)
        if t is not None and len(t.axes) >= 1 and t.axes[0] is not None:
            return t.axes[0]
        if n.op == 'alloc' and n.args[1].op == 'lmap' and is_const(n.args[1].args[2], True):
            a = self.range_axis(n.args[1].args[0].args[0])
            if a is not None:
                return a
        return mk('axroot', n)

    def t_const(self, n):
        return T(())

    def t_dim(self, n):
        return T(())

    t_size = t_ndim = t_fmt = t_dim

    def t_attr(self, n):
        return self.schema(n.args[0], n.args[1])

    def t_param(self, n):
        return None

    def t_alloc(self, n):
        c = n.args[1]
        if c.op in ('list', 'dict', 'set'):
            return None
        return self.ty(c)

    def t_phi(self, n):
        s = strip(n)
        if s is not n:
            return self.ty(s)
        a, b = self.ty(n.args[1]), self.ty(n.args[2])
        if n.args[1].op == 'const' and n.args[1].args[0] is None:
            return b
        if n.args[2].op == 'const' and n.args[2].args[0] is None:
            return a
        if a is None or b is None or len(a.axes) != len(b.axes):
            return None
        return T([x if x is y else None for x, y in zip(a.axes, b.axes)], a.cod if a.cod is b.cod else None,
                 a.kind if a.kind == b.kind else None)

    def t_T(self, n):
        t = self.ty(n.args[0])
        return None if t is None else T(t.axes[::-1], t.cod, t.kind)

    def t_un(self, n):
        return self.ty(n.args[1])

    def t_not(self, n):
        return self.ty(n.args[0])

    def bcast(self, ts, node, what):
        if any(t is None for t in ts):
            known = [t for t in ts if t is not None]
            # an unknown operand makes the result unknown unless the others have
            # at least two axes (an operand of higher rank is not expected)
            return None
        r = max(len(t.axes) for t in ts)
        out = []
        for k in range(1, r + 1):
            cur = ONE
            for t in ts:
                if len(t.axes) >= k:
                    a = t.axes[-k]
                    if cur is ONE:
                        cur = a
                    elif a is not ONE:
                        cur = self.same(cur, a, node, what)
            out.append(cur)
        return T(out[::-1])

    def t_bin(self, n):
        op, a, b = n.args
        ta, tb = self.ty(a), self.ty(b)
        if op == '@':
            return self.dot(ta, tb, n)
        t = self.bcast([ta, tb], n, 'elementwise %s' % op)
        if t is not None and op in '+-' and ta is not None and ta.cod is not None and b.op == 'const':
            pass
        return t

    def t_iop(self, n):
        ta, tb = self.ty(n.args[1]), self.ty(n.args[2])
        self.bcast([ta, tb], n, 'elementwise %s=' % n.args[0])
        return ta

    def t_cmp(self, n):
        if n.args[0] in ('is', 'is not', 'isinstance', 'in', 'not in'):
            return T(())
        return self.bcast([self.ty(n.args[1]), self.ty(n.args[2])], n, 'comparison %s' % n.args[0])

    def t_and(self, n):
        return T(())

    t_or = t_and

    def t_ivar(self, n):
        return T((), cod=self.range_axis(n.args[0]))

    def range_axis(self, it):
        if callname(it) == 'builtins.range' and len(it.args[1]) == 1:
            return self.dim_axis(it.args[1][0])
        if callname(it) == 'builtins.range':
            hi = it.args[1][1]
            a = self.dim_axis(hi)
            return a
        return None

    def dim_axis(self, d):
        """axis whose length the scalar d is"""
        if d.op == 'dim':
            t = self.ty(d.args[0])
            if t is None and d.args[1] == 0:
                x = strip(d.args[0])
                if x.op in ('param', 'phi', 'call', 'icall', 'alloc', 'lphi', 'lfin', 'sub', 'new'):
                    return self.laxis(x)
            return self.axis(d.args[0], d.args[1])
        if d.op == 'size':
            t = self.ty(d.args[0])
            if t is not None and len(t.axes) == 1:
                return t.axes[0]
        if is_const(d, 1):
            return ONE
        t = self.seed.get(d)
        if t is not None and t.kind == 'dim':
            return t.cod
        return None

    def t_store(self, n):
        o, ix, v = n.args
        to = self.ty(o)
        if to is not None:
            r = self.sel(to, ix, n, store=True)
            tv = self.ty(v)
            if r is not None and tv is not None and tv.axes:
                if len(tv.axes) <= len(r.axes):
                    for a, b in zip(r.axes[::-1], tv.axes[::-1]):
                        self.same(a, b, n, 'store')
        return to

    def t_lfill(self, n):
        e, iv, ix, v, c = n.args
        te = self.ty(e)
        if te is not None:
            r = self.sel(te, ix, n, store=True)
            tv = self.ty(v)
            if r is not None and tv is not None and tv.axes and len(tv.axes) <= len(r.axes):
                for a, b in zip(r.axes[::-1], tv.axes[::-1]):
                    self.same(a, b, n, 'store')
        if e.op == 'alloc' and e.args[1].op in ('dict', 'call'):
            # d[label(iv)] = iv : inverse map of the label array
            ti = self.ty(v)
            if ti is not None and ti.cod is not None and v.op == 'ivar' and ix.op == 'sub' and ix.args[1] is v:
                return T((), cod=ti.cod, kind='inv')
        return te

    def t_lsum(self, n):
        te, tb = self.ty(n.args[0]), self.ty(n.args[2])
        return self.bcast([te, tb], n, 'accumulation')

    def t_llast(self, n):
        return None

    def t_lmap(self, n):
        iv, body, c = n.args
        a = self.range_axis(iv.args[0])
        tb = self.ty(body)
        if not is_const(c, True):
            a = mk('axsel', a, c) if a is not None else None
        if tb is None:
            return T((a,), kind='partial') if a is not None else None
        return T((a,) + tb.axes, tb.cod)

    def t_lphi(self, n):
        L = self.I.loops.get(n.args[0])
        if L is None or n not in L.entry:
            return None
        return self.loopty(n, L, lambda y: y)

    def t_lfin(self, n):
        L = self.I.loops.get(n.args[0])
        x = n.args[2]
        if L is None or x not in L.entry:
            return None
        return self.loopty(x, L, lambda y: mk('lfin', L.id, y.args[1], y))

    def loopty(self, x, L, wrap):
        """inductive hypothesis: the relation between the loop-carried arrays at
        loop entry is preserved by the body (checked in check_loops)"""
        te = self.ty(L.entry[x])
        if te is None:
            return None
        roots = {}
        for y, e in L.entry.items():
            if e is UNBOUND:
                continue
            t = self.ty(e)
            if t is not None and t.kind == 'labels' and t.axes[0] is not None:
                roots[t.axes[0]] = mk('axroot', wrap(y))
        axes = []
        for a in te.axes:
            axes.append(roots.get(a, a if not roots else a))
        return T(axes, te.cod, te.kind)

    def check_loops(self):
        n = 0
        for L in self.I.loops.values():
            roots = {}
            for y, e in L.entry.items():
                t = self.ty(e) if e is not UNBOUND else None
                if t is not None and t.kind == 'labels':
                    roots[y] = t.axes[0]
            for x in L.entry:
                if L.entry[x] is UNBOUND:
                    continue
                te = self.ty(L.entry[x])
                if te is None or x in roots:
                    continue
                tb = self.ty(L.back[x])
                if tb is None or len(tb.axes) != len(te.axes):
                    continue
                for k, a in enumerate(te.axes):
                    for y, ra in roots.items():
                        if ra is a and a is not None:
                            n += 1
                            self.same(tb.axes[k], self.laxis(L.back[y]), L.back[x],
                                      'loop-carried %s axis %d vs %s' % (x.args[1], k, y.args[1]))
        return n

    def dot(self, ta, tb, n):
        if ta is None or tb is None or not ta.axes or not tb.axes:
            return None
        if len(ta.axes) > 2 or len(tb.axes) > 2:
            return None
        k = tb.axes[0] if len(tb.axes) <= 2 else tb.axes[-2]
        self.same(ta.axes[-1], k, n, 'matrix product contraction')
        if len(tb.axes) == 1:
            return T(ta.axes[:-1])
        return T(ta.axes[:-1] + tb.axes[1:])

    # -- selection -------------------------------------------------------------
    def norm_index(self, ix):
        """equivalent spellings of a selection"""
        ix = strip(ix)
        if ix.op == 'sub' and is_const(ix.args[1], 0) and callname(ix.args[0]) in ('numpy.nonzero', 'numpy.where') and \
                len(ix.args[0].args[1]) == 1:
            return self.norm_index(ix.args[0].args[1][0])
        if callname(ix) == 'numpy.flatnonzero':
            return self.norm_index(ix.args[1][0])
        if ix.op == 'cmp' and ix.args[0] == '==' and is_const(ix.args[2], True):
            return self.norm_index(ix.args[1])
        if ix.op == 'cmp' and ix.args[0] == '==' and is_const(ix.args[2], False):
            return mk('un', '~', self.norm_index(ix.args[1]))
        return ix

    def sel1(self, a, ix, node):
        """select along one axis; returns list of resulting axes or None"""
        if ix.op == 'slice':
            if all(is_const(x, None) for x in ix.args):
                return [a]
            return [mk('axsel', a, ix) if a is not None else None]
        if ix.op == 'const' and isinstance(ix.args[0], int) and not isinstance(ix.args[0], bool):
            return []
        if ix.op == 'const':
            return None
        t = self.ty(ix)
        if t is not None and len(t.axes) == 0:
            if t.cod is not None:
                self.same(a, t.cod, node, 'element index')
            return []
        if t is not None and len(t.axes) == 1:
            if t.cod is not None:
                self.same(a, t.cod, node, 'index array')
                if t.axes[0] is not None:
                    return [t.axes[0]]
                return [mk('axsel', a, self.norm_index(ix)) if a is not None else None]
            # mask over an axis
            if t.axes[0] is not None and (ix.op in ('cmp', 'un', 'not') or t.kind == 'mask'):
                self.same(a, t.axes[0], node, 'mask')
            return [mk('axsel', a, self.norm_index(ix)) if a is not None else None]
        if t is None:
            if ix.op in ('param', 'call', 'sub', 'shuffled', 'rnd', 'alloc', 'phi', 'attr', 'cmp', 'un', 'inplace'):
                return [mk('axsel', a, self.norm_index(ix)) if a is not None else None]
        return None

    def sel(self, to, ix, node, store=False):
        axes = list(to.axes)
        if callname(ix) == 'numpy.ix_':
            ixs = list(ix.args[1])
            out = []
            for a, i in zip(axes, ixs):
                r = self.sel1(a, i, node)
                if r is None:
                    return None
                out += r
            return T(out + axes[len(ixs):], to.cod)
        if ix.op == 'tuple':
            ixs = list(ix.args)
            nreal = sum(1 for i in ixs if not is_const(i, None) and not (i.op == 'const' and i.args[0] is Ellipsis))
            out, k = [], 0
            arr = 0
            for i in ixs:
                if is_const(i, None):
                    out.append(ONE)
                    continue
                if i.op == 'const' and i.args[0] is Ellipsis:
                    m = len(axes) - nreal
                    out += axes[k:k + m]
                    k += m
                    continue
                if k >= len(axes):
                    return None
                if callname(i) == 'numpy.ix_':
                    for j in i.args[1]:
                        if k >= len(axes):
                            return None
                        r = self.sel1(axes[k], j, node)
                        if r is None:
                            return None
                        out += r
                        k += 1
                    continue
                if i.op == 'sub' and callname(i.args[0]) == 'numpy.ix_' and i.args[1].op == 'const':
                    i = i.args[0].args[1][i.args[1].args[0]]
                    arr -= 1
                t = self.ty(i)
                if i.op not in ('slice', 'const') and not (t is not None and len(t.axes) == 0):
                    arr += 1
                r = self.sel1(axes[k], i, node)
                if r is None:
                    return None
                out += r
                k += 1
            if arr > 1:
                return None
            return T(out + axes[k:], to.cod)
        t = self.ty(ix)
        if t is not None and len(t.axes) >= 2 and t.cod is None:
            if len(t.axes) <= len(axes):
                for a, b in zip(axes, t.axes):
                    self.same(a, b, node, 'mask')
                return T([mk('axsel', axes[0], ix) if axes[0] is not None else None] + axes[len(t.axes):], to.cod)
            return None
        if not axes:
            return None
        r = self.sel1(axes[0], ix, node)
        if r is None:
            return None
        return T(r + axes[1:], to.cod)

    def t_sub(self, n):
        o, ix = n.args
        cn = callname(o)
        if ix.op == 'const' and cn is not None and isinstance(ix.args[0], int):
            r = self.multi(o, cn, ix.args[0])
            if r is not None:
                return r
        if o.op == 'call' and o.args[0].op == 'func' and ix.op == 'const':
            r = self.repo_multi(o, ix.args[0])
            if r is not None:
                return r
        to = self.ty(o)
        if to is None:
            if o.op in ('param', 'lphi') and ix.op == 'ivar':
                return None
            return None
        if to.kind == 'inv':
            return T((), cod=to.cod)
        r = self.sel(to, ix, n)
        if r is not None and to.kind == 'labels' and len(r.axes) == 1:
            r.kind = 'labels'
        return r

    def repo_multi(self, o, k):
        fn = o.args[0].args[0]
        kw = dict(o.args[2])
        nm = fn.split(':')[1]
        if nm == 'ismember':
            a, b = self.laxis(kw['a']), self.laxis(kw['b'])
            if k == 0:
                return T((a,), kind='mask')
            if k == 1:
                return T((a,), cod=b)
        if nm == 'intersect':
            c = mk('axroot', mk('common', *sorted([strip(kw['a']), strip(kw['b'])])))
            if k == 0:
                return T((c,), kind='labels')
            return T((c,), cod=self.laxis(kw['a'] if k == 1 else kw['b']))
        if nm == 'sort':
            a = self.laxis(kw['a'])
            s = mk('axsel', a, mk('order', strip(kw['a']), kw.get('reverse', FALSE)))
            if k == 0:
                return T((s,), kind='labels')
            return T((s,), cod=a)
        if nm in ('split_list', 'split_list_group_by_key'):
            a = self.laxis(kw['a'])
            if nm == 'split_list_group_by_key' and not is_const(kw.get('key', NONE), None):
                self.same(a, self.laxis(kw['key']), o, 'grouping key')
            key = mk('part', kw['idx'], kw['num_parts'], a if nm == 'split_list' else mk('grp', a, strip(kw['a'])))
            s = mk('axsel', a, key)
            if k == 0:
                return T((s,), kind='labels')
            return T((s,), cod=a)
        return None

    def t_call(self, n):
        f = n.args[0]
        if f.op == 'func':
            nm = f.args[0].split(':')[1]
            kw = dict(n.args[2])
            if nm == 'sort' and not is_const(kw.get('return_index', FALSE), True):
                a = self.laxis(kw['a'])
                return T((mk('axsel', a, mk('order', strip(kw['a']), kw.get('reverse', FALSE))),), kind='labels')
            if nm == 'intersect' and not is_const(kw.get('return_index', FALSE), True):
                return T((mk('axroot', mk('common', *sorted([strip(kw['a']), strip(kw['b'])]))),), kind='labels')
            if nm == 'list2ndarray':
                return self.ty(kw['a'])
            return None
        cn = callname(n)
        if cn is None:
            if f.op == 'attr' and f.args[1] == 'get' or False:
                t = self.ty(f.args[0])
                if t is not None and t.kind == 'inv':
                    return T((), cod=t.cod)
            return None
        args = n.args[1]
        s = cn[6:] if cn.startswith('numpy.') else cn
        if s in ('asarray', 'array', 'copy', 'astype', 'builtins.list', 'builtins.tuple', 'zeros_like', 'ones_like',
                 'empty_like', 'full_like', 'copy.deepcopy', 'tolist', 'nan_to_num') and args:
            t = self.ty(args[0])
            if t is not None and s in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
                return T(t.axes)
            return t
        if s in ('zeros', 'ones', 'empty', 'full') and args:
            sh = args[0]
            if sh.op == 'shape':
                t = self.ty(sh.args[0])
                return T(t.axes) if t is not None else None
            xs = sh.args if sh.op == 'tuple' else sh.args[1].args if sh.op == 'alloc' and sh.args[1].op == 'list' else (sh,)
            return T([self.dim_axis(x) for x in xs])
        if s == 'arange' and len(args) == 1:
            a = self.dim_axis(args[0])
            return T((a,), cod=a)
        if s in ELEMWISE:
            ts = [self.ty(x) for x in args]
            return self.bcast(ts, n, s)
        if s in REDUCE and args:
            t = self.ty(args[0])
            ax = kwof(n, 'axis')
            if ax is None or is_const(ax, None):
                return T(())
            if t is None or ax.op != 'const' or not isinstance(ax.args[0], int):
                return None
            k = ax.args[0]
            if not -len(t.axes) <= k < len(t.axes):
                return None
            k %= len(t.axes)
            red = t.axes[k]
            kd = kwof(n, 'keepdims')
            if kd is not None and is_const(kd, True):
                return T(t.axes[:k] + (ONE,) + t.axes[k + 1:])
            return T(t.axes[:k] + t.axes[k + 1:], cod=red if s.startswith('arg') else None)
        if s in ('sort', 'cumsum', 'cumprod') and args:
            t = self.ty(args[0])
            if t is None:
                return None
            if s != 'sort':
                return t
            if len(t.axes) == 1:
                return T((mk('axsel', t.axes[0], mk('order', strip(args[0]), FALSE)) if t.axes[0] is not None else None,), t.cod, t.kind)
            return None
        if s == 'argsort' and args:
            t = self.ty(args[0])
            if t is not None and len(t.axes) > 1:
                return None
            a = self.laxis(args[0])
            return T((mk('axsel', a, mk('order', strip(args[0]), FALSE)),), cod=a)
        if s in ('union1d', 'setdiff1d', 'setxor1d', 'unique', 'intersect1d') and not any(k.startswith('return') for k, _ in n.args[2]):
            return T((mk('axroot', n),), kind='labels')
        if s == 'flatnonzero' and args:
            t = self.ty(args[0])
            a = self.axis(args[0])
            return T((mk('axsel', a, self.norm_index(args[0])) if a is not None else None,), cod=a)
        if s == 'concatenate' and args:
            x = strip(args[0])
            x = x.args[1] if x.op == 'alloc' else x
            ax = kwof(n, 'axis', const(0))
            if x.op == 'lmap':
                tb = self.ty(x.args[1])
                if tb is not None and ax.op == 'const' and isinstance(ax.args[0], int) and -len(tb.axes) <= ax.args[0] < len(tb.axes):
                    k = ax.args[0] % len(tb.axes)
                    if tb.axes[k] is not None:
                        return T(tb.axes[:k] + (mk('axcat', x.args[0], tb.axes[k], x.args[2]),) + tb.axes[k + 1:])
                if tb is None and is_const(ax, 0) and strip(x.args[1]).op in ('icall', 'call', 'param', 'sub', 'attr'):
                    return T((mk('axcat', x.args[0], self.laxis(x.args[1]), x.args[2]),), kind='partial')
            return None
        if s == 'dot' and len(args) == 2:
            return self.dot(self.ty(args[0]), self.ty(args[1]), n)
        if s == 'outer' and len(args) == 2:
            a, b = self.ty(args[0]), self.ty(args[1])
            if a and b and len(a.axes) == 1 and len(b.axes) == 1:
                return T(a.axes + b.axes)
        if s == 'squeeze' and args:
            return None
        if s == 'expand_dims' and args:
            t = self.ty(args[0])
            ax = kwof(n, 'axis')
            if t is not None and ax is not None and ax.op == 'const':
                l = list(t.axes)
                k = ax.args[0]
                l.insert(k if k >= 0 else len(l) + 1 + k, ONE)
                return T(l, t.cod)
        if s == 'take' and len(args) == 2:
            t = self.ty(args[0])
            ax = kwof(n, 'axis', const(0))
            if t is not None and ax.op == 'const' and isinstance(ax.args[0], int) and t.axes:
                k = ax.args[0] % len(t.axes)
                r = self.sel1(t.axes[k], args[1], n)
                if r is not None:
                    return T(t.axes[:k] + tuple(r) + t.axes[k + 1:], t.cod)
        if s == 'logical_xor' and len(args) == 2:
            return self.bcast([self.ty(a) for a in args], n, s)
        if s == 'repeat' and len(args) == 2:
            t = self.ty(args[0])
            ax = kwof(n, 'axis')
            if t is not None and ax is not None and ax.op == 'const' and t.axes:
                k = ax.args[0] % len(t.axes)
                a = t.axes[k]
                d = self.dim_axis(args[1])
                if a is ONE and d is not None:
                    return T(t.axes[:k] + (d,) + t.axes[k + 1:])
                return T(t.axes[:k] + (mk('axrep', a, args[1]) if a is not None else None,) + t.axes[k + 1:])
        return None

    def multi(self, o, cn, k):
        s = cn[6:] if cn.startswith('numpy.') else cn
        args = o.args[1]
        if s in ('nonzero', 'where') and len(args) == 1:
            t = self.ty(args[0])
            if t is not None and 0 <= k < len(t.axes):
                a = t.axes[k]
                if len(t.axes) == 1:
                    return T((mk('axsel', a, self.norm_index(args[0])) if a is not None else None,), cod=a)
                return T((mk('axroot', o),), cod=a)
            return None
        if s == 'unique':
            order = ['return_index', 'return_inverse', 'return_counts']
            outs = ['u'] + [x for x in order if is_const(kwof(o, x, FALSE), True)]
            if len(outs) > 1 and k < len(outs):
                src = self.laxis(args[0])
                u = mk('axroot', mk('call', o.args[0], o.args[1], ()))
                if outs[k] == 'u':
                    return T((u,), kind='labels')
                if outs[k] == 'return_index':
                    return T((u,), cod=src)
                if outs[k] == 'return_inverse':
                    return T((src,), cod=u)
                return T((u,))
        return None

    def t_icall(self, n):
        f = n.args[0]
        if f.op == 'attr' and f.args[1] == 'get':
            t = self.ty(f.args[0])
            if t is not None and t.kind == 'inv':
                return T((), cod=t.cod)
        return None

    def t_shuffled(self, n):
        t = self.ty(n.args[0])
        if t is None:
            return None
        a = t.axes[0] if t.axes else None
        return T((mk('axsel', a, n) if a is not None else None,) + t.axes[1:], t.cod)

    def t_rnd(self, n):
        if n.args[0] == 'permutation' and n.args[2]:
            x = n.args[2][0]
            a = self.dim_axis(x)
            if a is not None:
                return T((mk('axsel', a, n),), cod=a)
        return None


def axname(a):
    if a is None:
        return '?'
    if a is ONE:
        return '1'
    if a.op == 'ax':
        return '%s(%s)' % (a.args[1], show(a.args[0], 3))
    if a.op == 'axroot':
        return 'items(%s)' % show(a.args[0], 4)
    if a.op == 'axsel':
        return '%s[%s]' % (axname(a.args[0]), show(a.args[1], 4))
    return show(a, 4)
