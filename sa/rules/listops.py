"""C14: list objects compare, copy, iterate and select by all of their data.

Each operation is interpreted on symbolic lists.  The result of == is a boolean formula over comparisons of fields: it
is evaluated with every field equal, and with each field different, present on one side only or absent on both."""
import ast

from ..ir import *
from ..interp import *
from ..scope import *
from ..project import AnalysisBroken
from .splits import strip, steps, callname, names_of, where

U = 'hyperion.utils.'
# the data of each list: field -> may be None
CONTENT = {
    'trial_ndx:TrialNdx': {'model_set': False, 'seg_set': False, 'trial_mask': False},
    'trial_key:TrialKey': {'model_set': False, 'seg_set': False, 'tar': False, 'non': False, 'model_cond': True, 'seg_cond': True, 'trial_cond': True,
                           'model_cond_name': True, 'seg_cond_name': True, 'trial_cond_name': True},
    'trial_scores:TrialScores': {'model_set': False, 'seg_set': False, 'scores': False, 'score_mask': False},
    'scp_list:SCPList': {'key': False, 'file_path': False, 'offset': True, 'range_spec': True},
    'utt2info:Utt2Info': {'utt_info': False},
    'fold_list:FoldList': {'fold': False, 'key': False, 'mask': True},
    'train_val_eval_list:TrainValEvalList': {'part': False, 'key': False, 'part_names': True, 'mask': True},
    'segment_list:SegmentList': {'segments': False, 'index_by_file': False},
    'ext_segment_list:ExtSegmentList': {'segments': False, 'ext_segments': False, 'files': False, 'index_column': False},
    'rttm:RTTM': {'segments': False, 'index_by_file': False}}
SCALARS = {'index_by_file', 'index_column'}


class Unk(Exception):
    pass


class Bad(Exception):
    pass


class Raises(Exception):
    pass


class Eq(object):
    """value of a comparison of lists S and O in one scenario"""
    def __init__(self, S, O, st, sizes=(7, 7)):
        self.S, self.O, self.st, self.memo = S, O, st, {}
        self.sizes = {S: sizes[0], O: sizes[1]}

    def field(self, n):
        n = strip(n)
        if n.op == 'attr' and n.args[0] in (self.S, self.O):
            a = n.args[1].lstrip('_')
            if a in self.st:
                return n.args[0], a
        return None

    def absent(self, n):
        f = self.field(n)
        if f is None:
            return False
        s = self.st[f[1]]
        return s == 'none' or s == ('O' if f[0] is self.S else 'S')

    def truth(self, n):
        v = self.ev(n)
        if v is True or v is False:
            return v
        if isinstance(v, tuple) and v[0] == 'E':
            if v[2] or v[1] == 'none':
                return v[1] == 'all'
            raise Bad('an array of comparisons is used as one truth value')
        raise Unk(show(n, 4))

    def ev(self, n):
        if n not in self.memo:
            self.memo[n] = self.ev1(n)
        return self.memo[n]

    def ev1(self, n):
        op = n.op
        if op == 'const':
            if isinstance(n.args[0], bool):
                return n.args[0]
            raise Unk(show(n))
        if op == 'alloc':
            return self.ev(n.args[1])
        if op == 'phi':
            return self.ev(n.args[1] if self.truth(n.args[0]) else n.args[2])
        if op == 'not':
            return not self.truth(n.args[0])
        if op == 'and':
            return all(self.truth(x) for x in n.args[0])
        if op == 'or':
            return any(self.truth(x) for x in n.args[0])
        if op == 'un' and n.args[0] in ('~', 'not'):
            return self.neg(self.ev(n.args[1]))
        if op == 'bin' and n.args[0] in '&|*':
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            if isinstance(a, bool) and isinstance(b, bool):
                return (a or b) if n.args[0] == '|' else (a and b)
            raise Unk(show(n, 4))
        if op == 'cmp':
            return self.cmp(n)
        if op == 'sub' and n.args[0].op != 'attr':
            v = self.ev(n.args[0])
            if isinstance(v, tuple) and 'score_mask' not in {y.args[1] for y in walk(n.args[1]) if y.op == 'attr'}:
                # the elements left out may be the ones that differ
                return ('E', 'all' if v[1] == 'mixed' else v[1], v[2])
        m = self.measure(n)
        if m and m[2][0] in ('size', 'dim'):
            return self.sizes[m[0]] != 0
        c = callname(n)
        if op == 'icall':
            fn, args = n.args[0], n.args[1]
            if fn.op == 'attr' and fn.args[1] == 'equals' and len(args) == 1:
                return self.equal(fn.args[0], args[0])
        if c in ('numpy.all', 'builtins.all', 'numpy.alltrue') and n.args[1]:
            v = self.ev(n.args[1][0])
            return v if isinstance(v, bool) else v[1] == 'all'
        if c in ('numpy.any', 'builtins.any') and n.args[1]:
            v = self.ev(n.args[1][0])
            return v if isinstance(v, bool) else v[1] != 'none'
        if c in ('numpy.array_equal', 'numpy.allclose', 'numpy.array_equiv') and len(n.args[1]) >= 2:
            return self.equal(n.args[1][0], n.args[1][1])
        if c in ('numpy.isclose', 'numpy.equal') and len(n.args[1]) >= 2:
            return self.elem(n.args[1][0], n.args[1][1])
        if c == 'numpy.not_equal' and len(n.args[1]) >= 2:
            return self.neg(self.elem(n.args[1][0], n.args[1][1]))
        if c in ('numpy.logical_not',) and n.args[1]:
            return self.neg(self.ev(n.args[1][0]))
        if c in ('numpy.logical_and', 'builtins.bool', 'numpy.bool_') and n.args[1]:
            return all([self.truth(x) for x in n.args[1]])
        if c == 'builtins.isinstance':
            return True
        raise Unk(show(n, 4))

    def neg(self, v):
        if isinstance(v, bool):
            return not v
        return ('E', {'all': 'none', 'none': 'all', 'mixed': 'mixed'}[v[1]], v[2])

    def pair(self, a, b):
        fa, fb = self.field(a), self.field(b)
        if fa is None or fb is None:
            raise Unk('%s with %s' % (show(a, 4), show(b, 4)))
        if fa[0] is fb[0]:
            raise Bad('%s is compared with %s of the same list' % (fa[1], fb[1]))
        if fa[1] != fb[1]:
            raise Bad('%s is compared with %s' % (fa[1], fb[1]))
        return fa[1]

    def reduced(self, a, b):
        """the field two equal functions of it are compared of, when they can be equal for different values"""
        if subst(strip(a), {self.S: self.O}) is not strip(b) and subst(strip(a), {self.O: self.S}) is not strip(b):
            return None
        if a is b or self.field(a):
            return None
        lossy = False
        n = strip(a)
        while not self.field(n):
            c = callname(n)
            if c in ('numpy.sort', 'builtins.sorted', 'builtins.set', 'builtins.frozenset', 'numpy.unique', 'numpy.sum', 'builtins.sum', 'numpy.mean', 'numpy.max', 'numpy.min',
                     'numpy.round', 'numpy.any', 'numpy.all', 'collections.Counter') and n.args[1]:
                lossy, n = True, strip(n.args[1][0])
            elif n.op == 'icall' and n.args[0].op == 'attr' and n.args[0].args[1] in ('sort_values', 'unique', 'sum', 'mean', 'round', 'head', 'drop_duplicates'):
                lossy, n = True, strip(n.args[0].args[0])
            elif n.op == 'sub':
                lossy, n = True, strip(n.args[0])
            else:
                return None
        return self.field(n)[1] if lossy else None

    def elem(self, a, b):
        x = self.reduced(a, b)
        if x is not None:
            if self.st[x] in ('S', 'O', 'none'):
                raise Raises('%s of a list without %s' % (show(strip(a), 3), x))
            return ('E', 'all' if self.st[x] in ('same', 'differ') else 'none', x in SCALARS)
        a = self.pair(a, b)
        s = self.st[a]
        if s == 'shape' and sorted(self.sizes.values()) == [0, 1]:
            return ('E', 'all', False)
        return ('E', {'same': 'all', 'none': 'all', 'differ': 'mixed'}.get(s, 'none'), a in SCALARS)

    def equal(self, a, b):
        x = self.reduced(a, b)
        if x is not None:
            return self.elem(a, b)[1] == 'all'
        a = self.pair(a, b)
        return self.st[a] in ('same', 'none')

    def measure(self, n):
        """(list, field, what) of the shape, size or length of a field"""
        n = strip(n)
        if n.op in ('shape', 'size', 'dim'):
            f = self.field(n.args[0])
            if f:
                if self.absent(n.args[0]):
                    raise Raises('%s of a list without %s' % (n.op, f[1]))
                return f[0], f[1], (n.op,) + tuple(n.args[1:])
        if n.op == 'attr' and n.args[1] == 'shape' or n.op == 'sub' and n.args[0].op == 'shape':
            f = self.field(n.args[0] if n.op == 'attr' else n.args[0].args[0])
            if f:
                return f[0], f[1], (n.op,)
        return None

    def cmp(self, n):
        op, a, b = n.args[:3]
        if op == 'isinstance':
            return True
        if op in ('is', 'is not') and (is_const(a, None) or is_const(b, None)):
            x = b if is_const(a, None) else a
            if self.field(x) is None:
                raise Unk(show(n, 4))
            return self.absent(x) == (op == 'is')
        ma, mb = self.measure(a), self.measure(b)
        for m, k, o in ((ma, b, op), (mb, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if m and is_const(k) and isinstance(k.args[0], int) and m[2] in (('size',), ('dim', 0)):
                x, y = self.sizes[m[0]], k.args[0]
                return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
        if op not in ('==', '!='):
            raise Unk(show(n, 4))
        if ma and mb:
            if ma[0] is mb[0] or ma[1] != mb[1]:
                raise Bad('sizes of %s and %s are compared' % (ma[1], mb[1]))
            v = self.st[ma[1]] != 'shape'
        elif (ma and is_const(b, 0)) or (mb and is_const(a, 0)):
            v = False
        elif (ma and is_const(b)) or (mb and is_const(a)):
            v = False
        elif self.field(a) and self.field(b) or self.reduced(a, b):
            v = self.elem(a, b)
        else:
            x, y = self.ev(a), self.ev(b)
            if not isinstance(x, bool) or not isinstance(y, bool):
                raise Unk(show(n, 4))
            v = x == y
        return v if op == '==' else self.neg(v)


def run(p, c, name, others=(), noinline=(), heap=None):
    f = p.find_method(c, name)
    I = Interp(p)
    I.noinline = set(getattr(I, 'noinline', ()) or ()) | set(noinline)
    S = mk('param', 'LIST', 'self')
    I.types[S] = c
    args = {}
    for o in others:
        args[o] = mk('param', f.fq, o)
        I.types[args[o]] = c
    h = heap(S) if heap else None
    r = I.run(f, c, selfnode=S, args=args, heap=h)
    return f, I, S, r


def comparisons(p, rep, x, c):
    fields = CONTENT[x]
    n = 0
    for name in ('__eq__', '__ne__'):
        f = p.find_method(c, name)
        if not f:
            continue
        other = [a for a in f.params()[0]][1]
        f, I, S, r = run(p, c, name, (other,))
        O = r.env0[other]
        rep.unit(f.fq)
        scen = [('all equal', {a: 'same' for a in fields}, True)]
        opt = [a for a in fields if fields[a]]
        if opt:
            scen.append(('all equal, without %s' % ', '.join(opt), {a: 'none' if a in opt else 'same' for a in fields}, True))
            for a in opt:
                scen.append(('%s only in the first' % a, dict({b: 'same' for b in fields}, **{a: 'S'}), False))
                scen.append(('%s only in the second' % a, dict({b: 'same' for b in fields}, **{a: 'O'}), False))
                scen.append(('all equal, without %s' % a, dict({b: 'same' for b in fields}, **{a: 'none'}), True))
        for a in fields:
            scen.append(('%s different' % a, dict({b: 'same' for b in fields}, **{a: 'differ'}), False))
            for b in opt:
                if b != a:
                    scen.append(('%s different, without %s' % (a, b), dict({k: 'same' for k in fields}, **{a: 'differ', b: 'none'}), False))
        n += 1
        scen = [(w, st, want, (7, 7)) for w, st, want in scen]
        for k in (1, 2):
            scen += [('different, of %d' % k, {a: 'differ' for a in fields}, False, (k, k))]
        scen += [('both empty', {a: 'same' for a in fields}, True, (0, 0))]
        for k in ((0, 1), (1, 0), (0, 7), (7, 0)):
            scen += [('of %d and %d elements' % k, {a: 'same' if a in SCALARS else 'shape' for a in fields}, False, k)]
        for what, st, want, sizes in scen:
            q = '%s %s: %s' % (c.name, name.strip('_'), what)
            want1 = want if name == '__eq__' else not want
            try:
                v = Eq(S, O, st, sizes).truth(r.ret)
            except Unk as e:
                rep.undec('compare', q, str(e))
                continue
            except (Bad, Raises) as e:
                rep.violation('compare', q, str(e), where(f))
                continue
            if v is want1:
                rep.discharged('compare', q, 'compares as %s' % ('equal' if want else 'different'))
            else:
                rep.violation('compare', q, 'the lists compare as %s' % ('different' if want else 'equal'), where(f))
    return n


def orders(p, rep, x, c):
    f = p.find_method(c, '__cmp__')
    if not f:
        return 0
    rep.unit(f.fq)
    other = f.params()[0][1]
    f, I, S, r = run(p, c, '__cmp__', (other,))
    fields = CONTENT[x]
    for what, st, same in (('equal', {a: 'same' for a in fields}, True), ('different', {a: 'differ' for a in fields}, False)):
        E = Eq(S, r.env0[other], st)
        q = '%s cmp: %s' % (c.name, what)
        try:
            v = r.ret
            while v.op == 'phi':
                v = v.args[1 if E.truth(v.args[0]) else 2]
            if not is_const(v):
                raise Unk(show(v, 4))
            if bool(v.args[0]) is same:
                rep.violation('compare', q, 'gives %s' % show(v), where(f))
            else:
                rep.discharged('compare', q, show(v))
        except (Unk, Bad, Raises) as e:
            rep.undec('compare', q, str(e))
    return 1


def copies(p, rep, x, c):
    f = p.find_method(c, 'copy')
    if not f:
        return 0
    rep.unit(f.fq)
    names = []
    init = p.find_method(c, '__init__')
    r0 = Interp(p).run(init, c)
    names = sorted({a for (o, a) in r0.state.heap if o is r0.selfnode})
    f, I, S, r = run(p, c, 'copy', heap=lambda S: {(S, a): mk('attr', S, a) for a in names})
    q = '%s.copy' % c.name
    if r.ret is S:
        rep.violation('copy', q, 'the list itself is returned', where(f))
        return 1
    if r.ret.op not in ('new', 'objcopy'):
        rep.undec('copy', q, show(r.ret, 4))
        return 1
    for a in names:
        if a.lstrip('_') not in CONTENT[x]:
            continue
        v = r.state.heap.get((r.ret, a))
        own = mk('attr', S, a)
        qa = '%s of %s' % (q, a)
        if v is None:
            rep.undec('copy', qa, 'not set')
        elif v is own and a.lstrip('_') not in SCALARS:
            rep.violation('copy', qa, 'the copy holds the same %s: changes of one change the other' % a, where(f))
        elif own not in set(walk(v)):
            rep.violation('copy', qa, 'the %s of the copy is %s' % (a, show(v, 4)), where(f))
        else:
            others = {y.args[1] for y in walk(v) if y.op == 'attr' and y.args[0] is S} - {a}
            if others & set(names):
                rep.violation('copy', qa, 'made from %s' % ', '.join(sorted(others)), where(f))
            else:
                rep.discharged('copy', qa, 'a copy of its own')
    return 1


MODES = {'segment_list:SegmentList': ('index_by_file', [(True, 'file_id'), (False, None)]),
         'rttm:RTTM': ('index_by_file', [(True, 'file_id'), (False, None)]),
         'ext_segment_list:ExtSegmentList': ('index_column', [(k, k) for k in ('file_id', 'series_id', 'segment_id', 'ext_segment_id')])}


def mode(S, attr, val, vals):
    facts = {}
    for A in (mk('attr', S, attr), mk('attr', S, '_' + attr)):
        if isinstance(val, bool):
            facts[A] = val
            facts[mk('not', A)] = not val
        else:
            for x in vals:
                facts[mk('cmp', '==', A, mk('const', x))] = x == val
                facts[mk('cmp', '!=', A, mk('const', x))] = x != val
    return facts


def iterations(p, rep, x, c):
    fi, fn = p.find_method(c, '__iter__'), p.find_method(c, '__next__')
    if not fi or not fn:
        return 0
    from .splits import truth as facttruth
    rep.unit(fi.fq)
    rep.unit(fn.fq)
    q = '%s iteration' % c.name
    sub = [c.fq + '.' + m for m in ('filter', '__getitem__')]
    _, _, S, r0 = run(p, c, '__iter__')
    start = {a: v for (o, a), v in r0.state.heap.items() if o is r0.selfnode and is_const(v)}
    keyed = [m.fq for m in (p.find_method(c, k) for k in ('__getitem__', 'getitem_by_key', 'getitem_by_index', 'filter')) if m]
    fn, I, S, r = run(p, c, '__next__', noinline=keyed)
    steps_ = {a: v for (o, a), v in r.state.heap.items() if o is S and v.op in ('bin', 'iop') and mk('attr', S, a) in v.args}
    if r0.ret is not r0.selfnode:
        rep.undec('iterate', q, '__iter__ returns %s' % show(r0.ret, 3))
        return 1
    if len(steps_) != 1:
        if not any(mk('attr', S, a) in set(walk(r.ret)) for a in start) or not steps_ and r.ret.op != 'noreturn' and start:
            rep.violation('iterate', q, 'the position does not advance', where(fn))
        else:
            rep.undec('iterate', q, 'position kept in %s' % sorted(steps_))
        return 1
    (k, v), = steps_.items()
    pos = mk('attr', S, k)
    if v is not mk('bin', '+', pos, const(1)) and v is not mk('bin', '+', const(1), pos) and not (v.args[0] == '+' and {v.args[1], v.args[2]} == {pos, const(1)}):
        rep.violation('iterate', q, 'the position advances to %s' % show(v, 4), where(fn))
    else:
        rep.discharged('iterate', q, 'one position at a time')
    if k not in start:
        rep.violation('iterate', q, 'a new iteration goes on from the position of the last one', where(fi))
    elif not is_const(start[k], 0):
        rep.violation('iterate', q, 'an iteration starts at %s' % show(start[k]), where(fi))
    else:
        rep.discharged('iterate', q, 'from the first element')
    attr, modes = MODES.get(x, (None, [(None, None)]))
    stops = [e for e in r.events if e.kind == 'raise' and 'StopIteration' in show(e.target, 3)]
    for val, col in modes:
        facts = mode(S, attr, val, [m[0] for m in modes]) if attr else {}
        qm = q + (' (%s=%s)' % (attr, val) if attr else '')
        ret = steps(r.ret, facts, 12)
        got = set()
        for y in walk(ret):
            if y.op == 'sub' and y.args[1] is pos:
                b = y.args[0]
                got.add(b.args[0] if b.op == 'attr' and b.args[1] == 'iloc' else b)
            elif y.op == 'call' and y.args[0].op in ('func', 'bound') and any(pos is z for z in y.args[1]) or \
                    y.op == 'call' and y.args[0].op == 'func' and any(pos is z for _, z in y.args[2]):
                got.add(mk('item', S))
        bounds = set()
        for e in stops:
            if any(facttruth(steps(g, facts), facts) is False for g in e.path):
                continue
            for g in e.path:
                for y in walk(steps(g, facts, 12)):
                    if y.op == 'cmp' and pos in y.args[1:3]:
                        o = y.args[2] if y.args[1] is pos else y.args[1]
                        neg = g.op == 'not'
                        sense = y.args[0] if not neg else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}.get(y.args[0])
                        if y.args[1] is not pos:
                            sense = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(sense, sense)
                        bounds.add((sense, o))
        if len(got) != 1 or len(bounds) != 1:
            if not bounds:
                rep.violation('iterate', qm, 'never ends', where(fn))
            else:
                rep.undec('iterate', qm, 'elements of %s' % [show(g, 3) for g in got])
            continue
        lst, (sense, bound) = strip(steps(got.pop(), facts)), bounds.pop()
        if sense not in ('>=', '=='):
            if sense in ('<', '<=', '!='):
                rep.violation('iterate', qm, 'ends when the position is %s the size' % {'<': 'below', '<=': 'not above', '!=': 'not'}[sense], where(fn))
            else:
                rep.violation('iterate', qm, 'reads one element past the end', where(fn))
            continue
        over = strip(steps(bound.args[0], facts)) if bound.op in ('dim', 'size') else None
        if over is None:
            if is_const(bound) or bound.op == 'bin' and any(is_const(z) and not is_const(z, 0) for z in bound.args[1:]):
                rep.violation('iterate', qm, 'ends at %s' % show(bound, 4), where(fn))
            else:
                rep.undec('iterate', qm, 'ends at %s' % show(bound, 4))
            continue
        if lst.op == 'item':
            ok = True
        else:
            def table(z):
                return z.args[0] if z.op == 'sub' and is_const(z.args[1]) and z.args[0].op == 'attr' else z.args[0] if z.op == 'attr' and z.args[0].op == 'attr' else z
            ok = lst is over or table(lst) is table(over) or (names_of(lst) and names_of(lst) == names_of(over))
        if not ok:
            rep.violation('iterate', qm, 'goes over %s, but ends with the last of %s' % (show(lst, 3), show(over, 3)), where(fn))
            continue
        tab = over.args[1].lstrip('_') if over.op == 'attr' and over.args[0] is S else None
        if attr and (col != 'segment_id' and tab == 'segments' and col or col is None and names_of(over) & {'file_id', 'series_id'} or
                     tab == 'ext_segments' and col != 'ext_segment_id' or tab == 'files' and col not in ('file_id', 'series_id')):
            rep.violation('iterate', qm, 'goes over %s' % show(over, 3), where(fn))
            continue
        if col and names_of(over) and col not in names_of(over) and lst.op != 'item':
            rep.violation('iterate', qm, 'goes over the %s' % ', '.join(names_of(over)), where(fn))
            continue
        rep.discharged('iterate', qm, 'all elements of %s' % show(over, 3))
    return 1


def contains(p, rep, x, c):
    f = p.find_method(c, '__contains__')
    if not f:
        return 0
    rep.unit(f.fq)
    f, I, S, r = run(p, c, '__contains__')
    q = '%s membership' % c.name
    key = [a for a in f.params()[0]][1]
    K = r.env0[key]
    n = r.ret
    if n.op != 'cmp' or n.args[0] not in ('in', 'not in') or n.args[1] is not K:
        rep.undec('contains', q, show(n, 4))
    elif n.args[0] == 'not in':
        rep.violation('contains', q, 'answers the opposite', where(f))
    else:
        X = n.args[2]
        init = p.find_method(c, '__init__')
        r0 = Interp(p).run(init, c)
        if X.op == 'attr' and X.args[0] is S and is_const(r0.state.heap.get((r0.selfnode, X.args[1]), S), None):
            rep.violation('contains', q, '%s is None until it is computed' % X.args[1], where(f))
        elif X.op == 'attr' and X.args[0] is S and X.args[1] in ('segments', 'utt_info', 'ext_segments', 'files'):
            rep.violation('contains', q, 'looks the key up among the columns of the table', where(f))
        elif X.op == 'sub' and X.args[0].op == 'attr' and X.args[0].args[0] is S and is_const(X.args[1]) or \
                X.op == 'attr' and X.args[0].op == 'attr' and X.args[0].args[0] is S and X.args[1] not in ('index', 'values'):
            rep.violation('contains', q, 'looks the key up among the row labels, not the values, of %s' % show(X, 3), where(f))
        else:
            used = {y.args[1] for y in walk(X) if y.op == 'attr' and y.args[0] is S}
            if used & {'file_path', 'offset', 'range_spec', 'fold', 'part', 'tbeg', 'tend'} and not used & {'key'}:
                rep.violation('contains', q, 'looks the key up in %s' % ', '.join(sorted(used)), where(f))
            else:
                rep.discharged('contains', q, 'key looked up in %s' % show(X, 3))
    return 1


def lengths(p, rep, x, c):
    f = p.find_method(c, '__len__')
    if not f:
        return 0
    rep.unit(f.fq)
    f, I, S, r = run(p, c, '__len__')
    q = 'len(%s)' % c.name
    n = strip(r.ret)
    if n.op == 'dim':
        if n.args[1] == 0 or is_const(n.args[1], 0):
            rep.discharged('length', q, show(n, 3))
        else:
            rep.violation('length', q, 'is %s' % show(n, 3), where(f))
    elif is_const(n):
        rep.violation('length', q, 'is %s' % show(n), where(f))
    else:
        m = [y for y in walk(n) if callname(y) in ('numpy.max', 'numpy.amax', 'builtins.max')]
        if m and x.startswith(('fold', 'train')):
            if n.op == 'bin' and n.args[0] == '+' and is_const(n.args[2], 1) and strip(n.args[1]) is strip(m[0]):
                rep.discharged('length', q, 'the number of %s' % ('folds' if x.startswith('fold') else 'parts'))
            else:
                rep.violation('length', q, 'is %s' % show(n, 4), where(f))
        else:
            rep.undec('length', q, show(n, 4))
    return 1


# ---- access -------------------------------------------------------------------------------------------------------
ROWS = {'segment_list:SegmentList': {'segments': {True: 'file_id', False: 'segment_id'}},
        'rttm:RTTM': {'segments': {True: 'file_id', False: None}},
        'ext_segment_list:ExtSegmentList': {
            'segments': {'file_id': 'file_id', 'segment_id': 'segment_id', 'ext_segment_id': 'ext_segment_id', 'series_id': 'file_id'},
            'files': {'file_id': 'file_id', 'segment_id': 'file_id', 'ext_segment_id': 'file_id', 'series_id': 'series_id'}}}


def rowlabels(p, rep, x, c):
    """the rows of the tables are labelled with the ids that the list is indexed by"""
    from .splits import resolved, truth as facttruth
    attr, modes = MODES[x]
    n = 0
    for f in (p.find_method(c, '__init__'), p.find_setter(c, attr)):
        if not f:
            continue
        I = Interp(p)
        r = I.run(f, c)
        S = r.selfnode
        given = r.env0.get(attr) if f.name == '__init__' else r.env0[f.params()[0][1]]
        if given is None:
            continue
        rep.unit(f.fq)
        n += 1
        kept = r.state.heap.get((S, '_' + attr), r.state.heap.get((S, attr)))
        what = '%s %s' % (c.name, 'made' if f.name == '__init__' else 'with %s set' % attr)
        if kept is not given:
            rep.violation('index', what, 'the way of indexing is not kept', where(f)) if kept is None or is_const(kept) else rep.undec('index', what, show(kept, 4))
            continue
        for val, _ in modes:
            vals = [m[0] for m in modes]
            facts = mode(S, attr, val, vals)
            for A, v in list(mode(mk('holder'), attr, val, vals).items()):
                for H in (mk('attr', mk('holder'), attr), mk('attr', mk('holder'), '_' + attr)):
                    facts[subst(A, {H: given})] = v
            q = '%s: %s=%s' % (what, attr, val)
            for tab, want in ROWS[x].items():
                own_ = {mk('attr', S, tab), r.state.heap.get((S, tab))} - {None}
                own_ = own_ | {resolved(z, facts) for z in own_}
                got = []
                for e in r.events:
                    if e.kind != 'setattr' or e.extra != 'index' or resolved(e.target, facts) not in own_ and e.target not in own_:
                        continue
                    if any(not isinstance(g, tuple) and facttruth(resolved(g, facts), facts) is False for g in e.path):
                        continue
                    got.append(e)
                if not got:
                    rep.violation('index', q, 'the rows of %s keep other labels' % tab, where(f))
                    continue
                v = strip(resolved(got[-1].value, facts))
                names = {y.args[1] for y in [v] if y.op == 'attr'} | {y.args[1].args[0] for y in [v] if y.op == 'sub' and is_const(y.args[1])}
                if want[val] is None:
                    good = v.op == 'lmap' and v.args[1] is v.args[0] or v.op in ('range', 'arange') or callname(v) in ('numpy.arange', 'builtins.range', 'pandas.RangeIndex')
                    good = True if good else False if names & {'file_id', 'segment_id', 'name'} else None
                else:
                    good = True if names == {want[val]} else False if names or v.op == 'lmap' else None
                if good:
                    rep.discharged('index', q, '%s by %s' % (tab, want[val] or 'position'))
                elif good is False:
                    rep.violation('index', q, 'the rows of %s are labelled with %s' % (tab, ', '.join(sorted(map(str, names))) or show(v, 3)), where(f))
                else:
                    rep.undec('index', q, show(v, 4))
    return n


def keykind(nodes, K, isstr):
    facts = {}
    for y in nodes:
        if y.op == 'cmp' and y.args[0] == 'isinstance' and y.args[1] is K:
            t = show(y.args[2], 4) + ' ' + ' '.join(show(z, 2) for z in walk(y.args[2]))
            if 'str' in t and 'int' not in t:
                facts[y] = isstr
            elif 'int' in t and 'str' not in t:
                facts[y] = not isstr
    return facts


class Row(object):
    """the elements of a table row of known length"""
    def __init__(self, lo, hi, kind):
        self.lo, self.hi, self.kind = lo, hi, kind


def access(p, rep, x, c):
    f = p.find_method(c, '__getitem__')
    if not f:
        return 0
    from .splits import resolved
    rep.unit(f.fq)
    keep = [m.fq for m in [p.find_method(c, k) for k in ('get_index', 'filter')] if m]
    f, I, S, r = run(p, c, '__getitem__', noinline=keep)
    K = r.env0[f.params()[0][1]]
    nodes = set(walk(r.ret)) | {y for e in r.events for g in e.path if not isinstance(g, tuple) for y in walk(g)}
    n = 0
    if x.startswith('scp_list'):
        for isstr in (True, False):
            for have in (True, False):
                n += 1
                facts = keykind(nodes, K, isstr)
                for a in ('offset', 'range_spec'):
                    facts[mk('attr', S, a)] = 'given' if have else 'none'
                q = '%s[%s]%s' % (c.name, 'key' if isstr else 'position', '' if have else ' without offsets and ranges')
                v = resolved(r.ret, facts)
                want = ([] if isstr else ['key']) + ['file_path', 'offset', 'range_spec']
                if v.op != 'tuple':
                    rep.undec('access', q, show(v, 4))
                    continue
                got = list(v.args[0] if isinstance(v.args[0], tuple) else v.args)
                if len(got) != len(want):
                    rep.violation('access', q, 'returns %d values' % len(got), where(f))
                    continue
                bad = unk = None
                for w, g in zip(want, got):
                    if w in ('offset', 'range_spec') and not have:
                        bad = bad or (None if is_const(g, None) else '%s is %s' % (w, show(g, 3)))
                        continue
                    if g.op != 'sub' or g.args[0].op != 'attr' or g.args[0].args[0] is not S:
                        if is_const(g):
                            bad = '%s is %s' % (w, show(g))
                        else:
                            unk = show(g, 4)
                        continue
                    if g.args[0].args[1] != w:
                        bad = '%s is returned for %s' % (g.args[0].args[1], w)
                    ix = g.args[1]
                    if isstr and ix is K:
                        bad = 'the key is used as position of %s' % w
                    elif not isstr and ix is not K:
                        bad = 'element %s of %s is returned' % (show(ix, 3), w)
                    elif isstr and K not in set(walk(ix)):
                        bad = 'element %s of %s is returned' % (show(ix, 3), w)
                if bad:
                    rep.violation('access', q, bad, where(f))
                elif unk:
                    rep.undec('access', q, unk)
                else:
                    rep.discharged('access', q, ', '.join(want))
    elif x.startswith('utt2info'):
        for isstr in (True, False):
            for cols in (2, 3):
                n += 1
                facts = keykind(nodes, K, isstr)
                q = '%s[%s] with %d fields' % (c.name, 'key' if isstr else 'position', cols - 1)
                want = ([] if isstr else [1]) and [0] or []
                want += [1] if cols == 2 else [(1, 3)]

                def ev(z):
                    z = strip(z)
                    if z.op == 'phi':
                        t = cond(z.args[0])
                        if t is None:
                            raise Unk(show(z.args[0], 4))
                        return ev(z.args[1 if t else 2])
                    if z.op == 'sub' and z.args[0].op == 'attr' and z.args[0].args[1] in ('loc', 'iloc') and z.args[1] is K:
                        if (z.args[0].args[1] == 'loc') != isstr:
                            raise Bad('a %s is looked up as %s' % (('key', 'position') if isstr else ('position', 'key')))
                        return Row(0, cols, 'row')
                    if z.op == 'sub':
                        b = ev(z.args[0])
                        if isinstance(b, Row):
                            k = z.args[1]
                            if is_const(k) and isinstance(k.args[0], int):
                                k = k.args[0]
                                return b.lo + k if k >= 0 else b.hi + k
                            if k.op == 'slice':
                                lo, hi, st = (list(k.args) + [NONE, NONE])[:3]
                                if (lo is NONE or is_const(lo)) and (hi is NONE or is_const(hi)):
                                    l, h = (lo.args[0] or 0) if lo is not NONE else 0, hi.args[0] if hi is not NONE else None
                                    l = b.lo + l if l >= 0 else b.hi + l
                                    h = b.hi if h is None else b.lo + h if h >= 0 else b.hi + h
                                    return Row(l, min(h, b.hi), 'part')
                    raise Unk(show(z, 4))

                def cond(g):
                    if g in facts:
                        return facts[g]
                    if g.op == 'not':
                        v = cond(g.args[0])
                        return None if v is None else not v
                    if g.op == 'cmp' and g.args[0] in ('==', '!=', '<', '<=', '>', '>='):
                        def num_(z):
                            if is_const(z) and isinstance(z.args[0], int):
                                return z.args[0]
                            if z.op in ('dim', 'size'):
                                if z.op == 'dim' and strip(z.args[0]).op == 'attr' and strip(z.args[0]).args[1] == 'utt_info' and z.args[1] == 1:
                                    return cols
                                b = ev(z.args[0])
                                return b.hi - b.lo if isinstance(b, Row) else None
                            if z.op == 'bin' and z.args[0] in '+-':
                                a, b = num_(z.args[1]), num_(z.args[2])
                                return None if a is None or b is None else a + b if z.args[0] == '+' else a - b
                            return None
                        a, b = num_(g.args[1]), num_(g.args[2])
                        if a is None or b is None:
                            return None
                        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[g.args[0]]
                    return None
                try:
                    v = resolved(r.ret, facts)
                    while v.op == 'phi':
                        t = cond(v.args[0])
                        if t is None:
                            raise Unk(show(v.args[0], 4))
                        v = v.args[1 if t else 2]
                    vs = list(v.args[0] if isinstance(v.args[0], tuple) else v.args) if v.op == 'tuple' else [v]
                    got = [ev(z) for z in vs]
                    got = [(g.lo, g.hi) if isinstance(g, Row) else g for g in got]
                    if got == want:
                        rep.discharged('access', q, 'columns %s' % got)
                    else:
                        rep.violation('access', q, 'returns columns %s, not %s' % (got, want), where(f))
                except Bad as e:
                    rep.violation('access', q, str(e), where(f))
                except Unk as e:
                    rep.undec('access', q, str(e))
    elif x in MODES:
        attr, modes = MODES[x]
        kinds = (True, False) if keykind(nodes, K, True) else (None,)
        for val, _ in modes:
            for isstr in kinds:
                n += 1
                facts = mode(S, attr, val, [m[0] for m in modes])
                if isstr is not None:
                    facts.update(keykind(nodes, K, isstr))
                q = '%s[%s] with %s=%s' % (c.name, 'id' if isstr is None else 'key' if isstr else 'position', attr, val)
                v = resolved(r.ret, facts)
                row = val in (False, 'segment_id')
                new = v.op == 'new' or v.op == 'call' and v.args[0].op in ('func', 'bound') and v.args[0].args[0] in keep
                if row and new:
                    rep.violation('access', q, 'returns a list, not the segment', where(f))
                    continue
                if not row and not new:
                    if v.op == 'sub' or callname(v) == 'pandas.merge':
                        rep.violation('access', q, 'returns %s, not the list of its segments' % show(v, 3), where(f))
                    else:
                        rep.undec('access', q, show(v, 4))
                    continue
                rows = v
                if v.op == 'new':
                    rows = r.state.heap.get((v, 'segments'), NONE)
                    rows = resolved(rows, facts)
                acc = [y for y in walk(rows) if y.op == 'sub' and y.args[0].op == 'attr' and y.args[0].args[1] in ('loc', 'iloc')]
                bad = None
                for y in acc:
                    k, how = y.args[1], y.args[0].args[1]
                    one = k.op not in ('alloc', 'list', 'slice')
                    if isstr is True and how == 'iloc' and K in set(walk(k)):
                        bad = 'a key is used as position'
                    if isstr is False and how == 'loc' and strip(k) in (K, mk('list', (K,))) or isstr is False and how == 'loc' and k is K:
                        bad = 'a position is looked up as key'
                    if isstr is None and x.startswith('rttm') and row and how == 'loc':
                        bad = 'a position is looked up as key'
                    if one and callname(v) == 'pandas.merge' and any(z is y for z in v.args[1]):
                        bad = 'the row of one segment is no table to merge'
                    if one and v.op == 'new' and not row:
                        bad = 'one row is no table of segments'
                if bad:
                    rep.violation('access', q, bad, where(f))
                elif acc or new:
                    rep.discharged('access', q, 'one segment' if row else 'list of the segments')
                else:
                    rep.undec('access', q, show(v, 4))
    return n


# ---- selection ----------------------------------------------------------------------------------------------------
FILTERS = ('filter', 'filter_paths', 'filter_index', 'filter_info')
ISM = U + 'list_utils:ismember'


def filters(p, rep, x, c):
    n = 0
    for name in FILTERS:
        f = p.find_method(c, name)
        if not f or 'keep' not in f.params()[0]:
            continue
        n += 1
        rep.unit(f.fq)
        f, I, S, r = run(p, c, name, noinline=(ISM,))
        env = r.env0
        keep = env['keep']
        d = f.default_of('keep')
        if d is not None and not (isinstance(d, ast.Constant) and d.value is True):
            rep.violation('select', '%s.%s' % (c.name, name), 'without keep, the elements given are left out', where(f))
        tests = [(e.target, e) for e in r.events if e.kind == 'assert' and e.target is not None] + \
            [(g, e) for e in r.events if e.kind == 'raise' for g in e.path if not isinstance(g, tuple)]
        for g, e in tests:
            for y in walk(g):
                if callname(y) in ('numpy.all', 'builtins.all') and y.args[1]:
                    m = strip(y.args[1][0])
                    if m.op == 'sub' and is_const(m.args[1], 0) and m.args[0].op == 'call' and m.args[0].args[0].op == 'func' and m.args[0].args[0].args[0] == ISM:
                        dd = {(z if isinstance(z, str) else z.args[-1]): w for z, w in m.args[0].args[2]}
                        if mine(dd.get('a', NONE), S, [env[k] for k in f.params()[0][1:]]) is True and \
                                mine(steps(dd.get('b', NONE), {keep: True, mk('not', keep): False}), S, [env[k] for k in f.params()[0][1:]]) is False:
                            rep.violation('select', '%s.%s' % (c.name, name), 'fails unless every element of the list is among those given', where(f))
        if r.ret.op != 'new':
            rep.undec('select', '%s.%s' % (c.name, name), show(r.ret, 4))
            continue
        heap = {a: v for (o, a), v in r.state.heap.items() if o is r.ret}
        given = [env[a] for a in f.params()[0][1:] if a not in ('keep', 'field', 'raise_missing')]
        from .splits import resolved
        for a in CONTENT[x]:
            v = heap.get(a)
            if not CONTENT[x][a] or v is None:
                continue
            for st in ('given', 'none'):
                q = '%s.%s: %s %s' % (c.name, name, a, 'present' if st == 'given' else 'absent')
                w = resolved(v, {mk('attr', S, a): st})
                if st == 'given' and is_const(w, None):
                    rep.violation('select', q, 'is lost', where(f))
                elif st == 'none' and w.op == 'sub' and mk('attr', S, a) in set(walk(w)):
                    rep.violation('select', q, 'elements are taken of a missing %s' % a, where(f))
                else:
                    rep.discharged('select', q, 'follows')
        attr, modes = MODES.get(x, (None, [(None, None)]))
        for val, _ in modes:
            base = mode(S, attr, val, [m[0] for m in modes]) if attr else {}
            for kept in (True, False):
                facts = dict(base)
                facts[keep] = kept
                facts[mk('not', keep)] = not kept
                q = '%s.%s(%skeep=%s)' % (c.name, name, '%s=%s, ' % (attr, val) if attr else '', kept)
                vs = [steps(v, facts, 14) for a, v in sorted(heap.items()) if a.lstrip('_') in CONTENT[x]]
                nodes = set()
                for v in vs:
                    nodes |= set(walk(v))
                used = [g for g in given if g in nodes]
                diffs = [y for y in nodes if callname(y) == 'numpy.setdiff1d']
                if not used and not diffs:
                    rep.violation('select', q, 'what is given selects nothing', where(f))
                    continue
                comp = diffs or [y for y in nodes if y.op == 'un' and y.args[0] == '~' or callname(y) in ('numpy.logical_not', 'numpy.in1d', 'numpy.isin')]
                if kept and diffs:
                    rep.violation('select', q, 'the elements given are left out', where(f))
                    continue
                if not kept and not comp:
                    rep.violation('select', q, 'the elements given are the ones kept', where(f))
                    continue
                bad = False
                for y in diffs:
                    a, b = (strip(z) for z in y.args[1][:2])
                    if callname(a) in ('numpy.arange', 'builtins.range') and len(a.args[1]) == 1:
                        k = strip(a.args[1][0])
                        over = k.args[0] if k.op in ('dim', 'size') else k
                        if k.op in ('icall', 'call') and k.op == 'icall' and k.args[0].op == 'attr' and k.args[0].args[1] in ('nunique',) or \
                                any(callname(z) in ('numpy.unique', 'builtins.set') or z.op == 'icall' and z.args[0].op == 'attr' and z.args[0].args[1] in ('unique', 'nunique', 'drop_duplicates')
                                    for z in walk(over)):
                            rep.violation('select', q, 'positions up to the number of different ids, %s, not of elements' % show(k, 3), where(f))
                            bad = True
                        elif k.op == 'bin' and k.args[0] in '+-' and any(is_const(z) and not is_const(z, 0) for z in k.args[1:3]) or is_const(k):
                            rep.violation('select', q, 'positions up to %s' % show(k, 3), where(f))
                            bad = True
                    if a in given or b not in given:
                        if a in given:
                            rep.violation('select', q, 'keeps what is given and not in the list', where(f))
                            bad = True
                        continue
                    o = own(a, S)
                    w = used_for(b, y, nodes, S, given)
                    if o and w and o != w:
                        rep.violation('select', q, 'elements of %s are left out of %s' % (w, o), where(f))
                        bad = True
                for y in nodes:
                    if y.op == 'sub' and y.args[1].op == 'sub':
                        m, k = strip(y.args[1].args[0]), y.args[1].args[1]
                        if m.op == 'call' and m.args[0].op == 'func' and m.args[0].args[0] == ISM and is_const(k):
                            d = {(z if isinstance(z, str) else z.args[-1]): w for z, w in m.args[2]}
                            a, b = strip(d.get('a', NONE)), strip(d.get('b', NONE))
                            amine, bmine = mine(a, S, given), mine(b, S, given)
                            if not own(y.args[0], S):
                                continue
                            if amine is True and bmine is False and is_const(k, 1):
                                rep.violation('select', q, 'positions in what is given are used as positions in the list', where(f))
                                bad = True
                            elif amine is False and bmine is True and is_const(k, 0):
                                rep.violation('select', q, 'a mask over what is given is used over the list', where(f))
                                bad = True
                if not bad:
                    rep.discharged('select', q, 'elements %s' % ('given' if kept else 'not given'))
    return n


def mine(a, S, given):
    a = strip(a)
    if a in given or callname(a) == 'numpy.setdiff1d':
        return False
    return True if own(a, S) else None


def own(a, S):
    """the field of the list a is"""
    a = strip(a)
    if a.op == 'attr' and a.args[0] is S:
        return a.args[1]
    if a.op in ('sub', 'attr') and a.args[0].op == 'attr' and a.args[0].args[0] is S:
        k = a.args[1] if a.op == 'attr' else a.args[1].args[0] if is_const(a.args[1]) else show(a.args[1], 2)
        return '%s' % (k,)
    return None


def used_for(g, diff, nodes, S, given):
    """the field whose members diff selects"""
    out = set()
    for y in nodes:
        if y.op == 'call' and y.args[0].op == 'func' and y.args[0].args[0] == ISM:
            d = {(z if isinstance(z, str) else z.args[-1]): w for z, w in y.args[2]}
            a, b = strip(d.get('a', NONE)), strip(d.get('b', NONE))
            if a is diff or strip(a) is diff:
                out.add(own(b, S))
            if b is diff:
                out.add(own(a, S))
    return out.pop() if len(out) == 1 else None


# ---- cached values ------------------------------------------------------------------------------------------------
def caches(p, rep, c):
    """cached attribute -> data it is computed from: {c: {d}}"""
    out = {}
    init = c.methods.get('__init__') if hasattr(c, 'methods') else None
    f0 = p.find_method(c, '__init__')
    if not f0:
        return 0
    r0 = Interp(p).run(f0, c)
    none = {a for (o, a), v in r0.state.heap.items() if o is r0.selfnode and is_const(v, None)}
    names = {a for (o, a) in r0.state.heap if o is r0.selfnode}
    if not none:
        return 0
    runs = []
    for name, f in sorted(c.methods.items()):
        if f.kind in ('static', 'classmethod') or name.startswith('__') and name not in ('__init__',):
            continue
        if name == '__init__' or name.startswith('_') and not name.startswith('__'):
            continue
        I = Interp(p)
        S = mk('param', 'LIST', 'self')
        I.types[S] = c
        try:
            r = I.run(f, c, selfnode=S)
        except (AnalysisBroken, RecursionError):
            continue
        r.loops = dict(I.loops)
        runs.append((name, f, S, r))
    def reach(v, r):
        seen, todo, done = set(), [v], set()
        while todo:
            for y in walk(todo.pop()):
                if y in seen:
                    continue
                seen.add(y)
                if y.op in ('lfin', 'broke') and y.args[0] in r.loops and y.args[0] not in done:
                    done.add(y.args[0])
                    L = r.loops[y.args[0]]
                    todo += list(L.entry.values()) + list(L.back.values())
        return seen

    def same(S, d, v):
        """the value of the field, perhaps computed now because it was missing"""
        A = mk('attr', S, d)
        if v is A:
            return True
        w = strip(steps(v, {A: 'given'}, 6))
        return w is A or w.op == 'phi' and strip(w.args[1]) is A and strip(w.args[2]) is A

    made = {}
    for name, f, S, r in runs:
        for (o, a), v in r.state.heap.items():
            if o is S and a in none and v is not mk('attr', S, a):
                lazy = v.op == 'phi' and (v.args[1] is mk('attr', S, a) or v.args[2] is mk('attr', S, a))
                inside = reach(v, r)
                data = {y.args[1] for y in inside if y.op == 'attr' and y.args[0] is S and y.args[1] in names and y.args[1] != a}
                params = [y for y in inside if y.op == 'param' and y is not S]
                if data and not params and not is_const(v):
                    made.setdefault(a, []).append((name, lazy, data))
    n = 0
    for a, ways in sorted(made.items()):
        # read as an answer when it is there
        guarded = [r for _, _, S, r in runs for e in r.events for g in e.path if any(y.op == 'cmp' and y.args[0] in ('is', 'is not') and mk('attr', S, a) in y.args[1:] for y in walk(g))] or \
            [1 for _, _, S, r in runs if any(y.op == 'cmp' and y.args[0] in ('is', 'is not') and mk('attr', S, a) in y.args[1:] for y in walk(r.ret))] or \
            [1 for _, l, _ in ways if l]
        if not guarded:
            continue
        data = set().union(*[d for _, _, d in ways])
        n += 1
        for name, f, S, r in runs:
            if name in [w[0] for w in ways] and (S, a) in r.state.heap:
                continue
            changed = {d for d in data if (S, d) in r.state.heap and not same(S, d, r.state.heap[(S, d)])}
            changed |= {e.target.args[1] for e in r.events if e.kind == 'mutate' and e.target is not None and e.target.op == 'attr' and e.target.args[0] is S and e.target.args[1] in data}
            if not changed:
                continue
            rep.unit(f.fq)
            v = r.state.heap.get((S, a))
            q = '%s.%s' % (c.name, name)
            if v is None or v is mk('attr', S, a):
                rep.violation('cache', q, 'changes %s and leaves %s, which was computed from it, as it was' % (', '.join(sorted(changed)), a), where(f))
            else:
                rep.discharged('cache', q, '%s follows %s' % (a, ', '.join(sorted(changed))))
    return n


def check(p, rep, tier):
    n = 0
    for x in CONTENT:
        try:
            c = p.cls(U + x)
        except AnalysisBroken:
            continue
        n += comparisons(p, rep, x, c)
        n += orders(p, rep, x, c)
        n += copies(p, rep, x, c)
        n += iterations(p, rep, x, c)
        n += contains(p, rep, x, c)
        n += lengths(p, rep, x, c)
        n += filters(p, rep, x, c)
        n += access(p, rep, x, c)
        if x in ROWS:
            n += rowlabels(p, rep, x, c)
    for c in p.all_classes(('hyperion.utils', 'hyperion.clustering')):
        n += caches(p, rep, c)
    rep.require('list operations', n, 20)
