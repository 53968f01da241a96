"""Structural abstract interpreter: turns a function of the analysed program
(with the repository functions it calls inlined) into a value graph plus an
ordered list of effects.  Branches join with `phi`, loops with `lphi`/`lfin`;
no path is enumerated and nothing is executed."""
import ast
import sys
from .ir import *
from .project import Project, Func, Cls, Mod, Ext, AnalysisBroken

sys.setrecursionlimit(20000)

# canonical positional names of external functions (after the first data arg)
SIG = {
    'sum': ['a', 'axis', 'dtype', 'out', 'keepdims'], 'mean': ['a', 'axis', 'dtype', 'out', 'keepdims'],
    'std': ['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'], 'var': ['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'],
    'max': ['a', 'axis', 'out', 'keepdims'], 'min': ['a', 'axis', 'out', 'keepdims'],
    'amax': ['a', 'axis', 'out', 'keepdims'], 'amin': ['a', 'axis', 'out', 'keepdims'],
    'prod': ['a', 'axis', 'dtype', 'out', 'keepdims'], 'any': ['a', 'axis', 'out'], 'all': ['a', 'axis', 'out'],
    'argmax': ['a', 'axis', 'out'], 'argmin': ['a', 'axis', 'out'],
    'argsort': ['a', 'axis', 'kind', 'order'], 'sort': ['a', 'axis', 'kind', 'order'],
    'cumsum': ['a', 'axis', 'dtype', 'out'], 'cumprod': ['a', 'axis', 'dtype', 'out'],
    'concatenate': ['arrays', 'axis', 'out'], 'stack': ['arrays', 'axis', 'out'],
    'repeat': ['a', 'repeats', 'axis'], 'tile': ['a', 'reps'], 'take': ['a', 'indices', 'axis'],
    'expand_dims': ['a', 'axis'], 'squeeze': ['a', 'axis'], 'roll': ['a', 'shift', 'axis'],
    'zeros': ['shape', 'dtype', 'order'], 'ones': ['shape', 'dtype', 'order'], 'empty': ['shape', 'dtype', 'order'],
    'full': ['shape', 'fill_value', 'dtype'], 'array': ['a', 'dtype'], 'asarray': ['a', 'dtype'],
    'zeros_like': ['a', 'dtype'], 'ones_like': ['a', 'dtype'], 'empty_like': ['a', 'dtype'],
    'astype': ['a', 'dtype'], 'clip': ['a', 'a_min', 'a_max', 'out'], 'linspace': ['start', 'stop', 'num'],
    'diff': ['a', 'n', 'axis'], 'delete': ['a', 'obj', 'axis'], 'insert': ['a', 'obj', 'values', 'axis'],
    'append': ['a', 'values', 'axis'], 'dot': ['a', 'b', 'out'], 'where': ['cond', 'x', 'y'],
    'unique': ['a', 'return_index', 'return_inverse', 'return_counts', 'axis'],
    'intersect1d': ['a', 'b', 'assume_unique', 'return_indices'],
    'quantile': ['a', 'q', 'axis'], 'percentile': ['a', 'q', 'axis'], 'median': ['a', 'axis'],
    'swapaxes': ['a', 'axis1', 'axis2'], 'vstack': ['arrays'], 'hstack': ['arrays'],
}
KEEP_POS = {'where': 3, 'dot': 2, 'clip': 3, 'tile': 2, 'repeat': 2, 'take': 2, 'roll': 2, 'delete': 2,
            'insert': 3, 'append': 2, 'swapaxes': 3, 'intersect1d': 2, 'linspace': 3, 'full': 2,
            'quantile': 2, 'percentile': 2}
ALIASFN = {'amax': 'max', 'amin': 'min', 'absolute': 'abs', 'fabs': 'abs', 'alltrue': 'all', 'sometrue': 'any',
           'multiply': None, 'ascontiguousarray': 'asarray', 'nonzero': 'nonzero', 'row_stack': 'vstack'}
BINUF = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**',
         'floor_divide': '//', 'mod': '%', 'remainder': '%', 'matmul': '@', 'logical_and': '&', 'logical_or': '|',
         'bitwise_and': '&', 'bitwise_or': '|', 'logical_xor': '^'}
CMPUF = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}
ALLOCFN = {'zeros', 'ones', 'empty', 'full', 'array', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
           'arange', 'copy', 'eye', 'identity', 'linspace'}
NDMETHODS = {'sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin', 'argsort',
             'cumsum', 'cumprod', 'astype', 'reshape', 'ravel', 'flatten', 'transpose', 'squeeze', 'repeat',
             'take', 'clip', 'dot', 'copy', 'conj', 'round', 'nonzero', 'tolist', 'swapaxes', 'diagonal', 'trace',
             'tobytes', 'tostring', 'item', 'view'}
MUTMETHODS = {'sort', 'fill', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add',
              'discard', 'reverse', 'partition', 'put', 'itemset', 'resize', 'setfield', 'byteswap_', 'popitem'}
MUTFN = {'numpy.random.shuffle': 0, 'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0,
         'numpy.fill_diagonal': 0, 'random.shuffle': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0,
         'numpy.maximum.at': 0, 'numpy.minimum.at': 0, 'heapq.heappush': 0, 'heapq.heapify': 0}
IMPURE_EXT = ('numpy.random.', 'random.', 'time.', 'builtins.open', 'builtins.input', 'builtins.print', 'os.',
              'subprocess.', 'builtins.next', 'uuid.', 'multiprocessing.', 'threading.', 'h5py.', 'soundfile.',
              'shutil.', 'tempfile.', 'datetime.', 'builtins.object', 'numpy.fromfile', 'numpy.frombuffer_')
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>', 'is': 'is not', 'is not': 'is',
       'in': 'not in', 'not in': 'in'}


class Site(object):
    __slots__ = ('func', 'line', 'node')

    def __init__(self, func, node):
        self.func, self.node, self.line = func, node, getattr(node, 'lineno', 0)

    def __str__(self):
        return '%s:%d %s' % (self.func.mod.rel, self.line, self.func.qual)


class Event(object):
    __slots__ = ('kind', 'target', 'value', 'extra', 'path', 'loops', 'site', 'seq', 'stack')

    def __init__(self, kind, target, value, extra, path, loops, site, seq, stack):
        self.kind, self.target, self.value, self.extra = kind, target, value, extra
        self.path, self.loops, self.site, self.seq, self.stack = path, loops, site, seq, stack

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.kind, self.target, self.value, self.site)


class Loop(object):
    def __init__(self, lid, site):
        self.id, self.site = lid, site
        self.iter = None
        self.ivar = None
        self.entry, self.back = {}, {}
        self.brk = FALSE      # condition of leaving through break, in terms of lphis
        self.cond = None      # while condition
        self.parent = None


class State(object):
    __slots__ = ('frames', 'heap', 'path')

    def __init__(self, frames, heap, path):
        self.frames, self.heap, self.path = frames, heap, path

    def copy(self):
        return State([dict(f) for f in self.frames], dict(self.heap), self.path)


class Out(object):
    """Outcome of a block: fallthrough state plus (cond, state, value) for
    return, break and continue; raised paths disappear (kept as events)."""
    __slots__ = ('fall', 'ret', 'brk', 'cnt')

    def __init__(self, fall=None, ret=None, brk=None, cnt=None):
        self.fall, self.ret, self.brk, self.cnt = fall, ret, brk, cnt


class Budget(Exception):
    pass


def neg(c):
    if c.op == 'const':
        return const(not c.args[0])
    if c.op == 'not':
        return c.args[0]
    if c.op == 'cmp' and c.args[0] in ('is', 'in', 'is not', 'not in', '==', '!='):
        return mk('cmp', NEG[c.args[0]], c.args[1], c.args[2])
    return mk('not', c)


def conj(*cs):
    xs = []
    for c in cs:
        if is_const(c, True):
            continue
        if c.op == 'const' and not c.args[0]:
            return FALSE
        for y in (c.args[0] if c.op == 'and' else (c,)):
            if y not in xs:
                xs.append(y)
    for x in xs:
        if neg(x) in xs:
            return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', tuple(xs))


def disj(*cs):
    xs = []
    for c in cs:
        if is_const(c, True):
            return TRUE
        if c.op == 'const' and not c.args[0]:
            continue
        for y in (c.args[0] if c.op == 'or' else (c,)):
            if y not in xs:
                xs.append(y)
    for x in xs:
        if neg(x) in xs:
            return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk('or', tuple(xs))


def phi(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[0] else b
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if c.op == 'cmp' and c.args[0] in ('is not', 'not in', '!='):
        return phi(mk('cmp', NEG[c.args[0]], c.args[1], c.args[2]), b, a)
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return neg(c)
    if is_const(b, False) and isboolish(a):
        return conj(c, a)
    if is_const(a, True) and isboolish(b):
        return disj(c, b)
    if a.op == 'alloc' and b.op == 'alloc' and a.args[0] == b.args[0] and a.args[1].op == b.args[1].op:
        # the same container, filled differently on two branches
        x, y = a.args[1], b.args[1]
        if x.op == 'dict' and {k for k, _ in x.args[0]} == {k for k, _ in y.args[0]}:
            dy = dict(y.args[0])
            return mk('alloc', a.args[0], mk('dict', tuple((k, phi(c, v, dy[k])) for k, v in x.args[0])))
        if x.op == 'list' and len(x.args) == len(y.args):
            return mk('alloc', a.args[0], mk('list', *[phi(c, v, w) for v, w in zip(x.args, y.args)]))
    return mk('phi', c, a, b)


def isboolish(n):
    return n.op in ('cmp', 'not', 'and', 'or') or (n.op == 'const' and isinstance(n.args[0], bool))


UNBOUND = mk('unbound')


class Interp(object):
    def __init__(self, proj, budget=60000, maxdepth=9, field_types=True):
        self.p = proj
        self.budget = budget
        self.maxdepth = maxdepth
        self.types = {}        # node -> Cls
        self.closures = {}
        self.loops = {}
        self._ft = {}
        self._ft_on = field_types
        self.noinline = set()  # fq of functions kept opaque
        self.opaque_hook = None
        self.call_hook = None
        self.reset()

    def reset(self):
        self.events = []
        self.gaps = []
        self.steps = 0
        self.seq = 0
        self.callstack = []
        self.loopstack = []
        self.nloop = 0
        self.curloc = None
        self.inlined = set()
        self.origin = {}
        self._pathmemo = None

    # ------------------------------------------------------------------
    def run(self, func, self_cls=None, args=None, assume=(), selfnode=None, heap=None, tag=''):
        """Analyse one entry point with symbolic arguments."""
        self.reset()
        st = State([{}], dict(heap or {}), tuple(assume))
        args = dict(args or {})
        pos, va, kwo, kw = func.params()
        env = {}
        first = True
        recv = None
        for nme in pos + kwo:
            if first and func.cls is not None and func.kind != 'static':
                first = False
                c = self_cls or func.cls
                if func.kind == 'classmethod':
                    env[nme] = mk('cls', c.fq)
                else:
                    recv = selfnode or mk('param', func.fq + tag, nme)
                    env[nme] = recv
                    self.types[recv] = c
                continue
            first = False
            env[nme] = args.get(nme, mk('param', func.fq + tag, nme))
        if va:
            env[va] = args.get(va, mk('param', func.fq + tag, va))
        if kw:
            env[kw] = args.get(kw, mk('param', func.fq + tag, kw))
        r = Run()
        r.func, r.selfnode, r.env0 = func, recv, dict(env)
        try:
            val, st2 = self._exec_func(func, env, st, None, None)
        except Budget:
            if self.maxdepth > 3:
                # too much to follow in full: follow fewer calls
                keep, self.maxdepth = self.maxdepth, 3
                try:
                    return self.run(func, self_cls, args, assume, selfnode, heap, tag)
                finally:
                    self.maxdepth = keep
            self.gaps.append(('budget', str(func)))
            val, st2 = mk('unk', 'budget'), st
        r.ret, r.state = val, st2
        r.events, r.gaps, r.steps = self.events, self.gaps, self.steps
        r.inlined = set(self.inlined)
        return r

    def _exec_func(self, func, env, st, parent_frame, site):
        self.callstack.append(func)
        self.inlined.add(func.fq)
        lo = self.curloc
        pth = st.path
        st = st.copy()
        if parent_frame is not None:
            env = dict(env)
            env['%closure'] = parent_frame
        st.frames.append(env)
        try:
            node = func.node
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st)
                st.frames.pop()
                st.path = pth
                return v, st
            o = self.block(node.body, st)
            rets = []
            if o.ret is not None:
                c, s, v = o.ret
                if o.fall is not None:
                    s = self.join(c, s, o.fall)
                    v = phi(c, v, NONE)
                st2 = s
                val = v
            elif o.fall is not None:
                st2, val = o.fall, NONE
            else:
                st2, val = st, mk('noreturn')
            st2 = st2.copy()
            st2.frames.pop()
            st2.path = pth
            if self._is_gen(node):
                val = mk('gen', func.fq, self._uid())
            return val, st2
        finally:
            self.callstack.pop()
            self.curloc = lo

    _gencache = {}

    def _is_gen(self, node):
        r = self._gencache.get(node)
        if r is None:
            r = False
            todo = list(node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
            self._gencache[node] = r
        return r

    # -- bookkeeping -----------------------------------------------------
    def _uid(self):
        self.seq += 1
        return self.seq

    def allocid(self, node, extra=''):
        fs = '/'.join(f.qual for f in self.callstack[-3:])
        return '%s:%s:%s%s' % (fs, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), extra)

    def emit(self, kind, target, value, st, node, extra=None):
        self.seq += 1
        e = Event(kind, target, value, extra, st.path, tuple(self.loopstack),
                  Site(self.callstack[-1], node or self.curloc), self.seq,
                  tuple(f.fq for f in self.callstack))
        self.events.append(e)
        return e

    def gap(self, what, node=None):
        self.gaps.append((what, str(Site(self.callstack[-1], node or self.curloc)) if self.callstack else ''))
        return mk('unk', what)

    # -- joins -----------------------------------------------------------
    def join(self, c, a, b):
        """state after: if c then a else b"""
        if a is None:
            return b
        if b is None:
            return a
        fr = []
        for fa, fb in zip(a.frames, b.frames):
            if fa is fb:
                fr.append(fa)
                continue
            f = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                if k == '%closure':
                    f[k] = fa.get(k) or fb.get(k)
                    continue
                f[k] = phi(c, fa.get(k, UNBOUND), fb.get(k, UNBOUND))
            fr.append(f)
        hp = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va = a.heap.get(k)
            vb = b.heap.get(k)
            if va is None:
                va = mk('attr', k[0], k[1])
            if vb is None:
                vb = mk('attr', k[0], k[1])
            hp[k] = phi(c, va, vb)
        pa, pb = a.path, b.path
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        return State(fr, hp, pa[:n])

    def join3(self, x, y):
        """merge two (cond,state,val) outcomes; x takes priority"""
        if x is None:
            return y
        if y is None:
            return x
        c = x[0]
        return (disj(x[0], y[0]), self.join(c, x[1], y[1]),
                None if x[2] is None or y[2] is None else phi(c, x[2], y[2]))

    def gate(self, c, x, y):
        """outcome x under c, y under not c"""
        if x is None and y is None:
            return None
        if x is None:
            return (conj(neg(c), y[0]), y[1], y[2])
        if y is None:
            return (conj(c, x[0]), x[1], x[2])
        return (phi(c, x[0], y[0]), self.join(c, x[1], y[1]),
                None if x[2] is None or y[2] is None else phi(c, x[2], y[2]))

    # -- statements --------------------------------------------------------
    def block(self, stmts, st):
        out = Out(fall=st)
        for i, s in enumerate(stmts):
            if out.fall is None:
                break
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            self.curloc = s
            o = self.stmt(s, out.fall)
            # earlier ret/brk/cnt have priority conditions
            out.ret = self.join3(out.ret, o.ret)
            out.brk = self.join3(out.brk, o.brk)
            out.cnt = self.join3(out.cnt, o.cnt)
            out.fall = o.fall
        return out

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.gap('stmt ' + type(s).__name__, s)
            return Out(fall=st)
        try:
            return m(s, st)
        except (Budget, AnalysisBroken, RecursionError):
            raise
        except Exception as e:          # analysis gap, never a verdict
            if DEBUG:
                raise
            self.gap('internal %s: %s' % (type(e).__name__, e), s)
            return Out(fall=st)

    def s_Pass(self, s, st):
        return Out(fall=st)

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.frames[-1][nm] = self.obj2node(self.p.lookup(a.name if a.asname else nm))
        return Out(fall=st)

    def s_ImportFrom(self, s, st):
        m = self.callstack[-1].mod
        base = self.p._abs(m, s.level, s.module)
        for a in s.names:
            if a.name != '*':
                st.frames[-1][a.asname or a.name] = self.obj2node(self.p.lookup(base + '.' + a.name))
        return Out(fall=st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return Out(fall=st)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.emit('assert', c, None, st, s)
        if c.op == 'const' and not c.args[0]:
            self.emit('raise', mk('ext', 'builtins.AssertionError'), None, st, s)
            return Out()
        st.path = self.addpath(st.path, c)
        return Out(fall=st)

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        self.emit('raise', v, None, st, s)
        return Out()

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.emit('return', v, None, st, s)
        return Out(ret=(TRUE, st, v))

    def s_Break(self, s, st):
        return Out(brk=(TRUE, st, None))

    def s_Continue(self, s, st):
        return Out(cnt=(TRUE, st, None))

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return Out(fall=st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return Out(fall=st)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        rhs = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            new = self.binop(op, old, rhs)
            if self.immutable(old):
                self.setname(t.id, new, st)
            else:
                if old.op == 'alloc' and old.args[1].op == 'list' and op == '+':
                    new = mk('extend', old, rhs)
                else:
                    new = mk('iop', op, old, rhs)
                self.emit('mutate', old, rhs, st, s, ('aug' + op,))
                self.setname(t.id, new, st)
                self.replace_holders(old, new, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.getattr(o, t.attr, st, t)
            new = self.binop(op, old, rhs)
            if not self.immutable(old):
                self.emit('mutate', old, rhs, st, s, ('aug' + op,))
            self.setattr(o, t.attr, new, st, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            ix = self.index(t.slice, st)
            old = self.sub(o, ix, st)
            self.store(o, ix, self.binop(op, old, rhs), st, s, aug=op)
        return Out(fall=st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.emit('delattr', o, None, st, s, t.attr)
                st.heap[(o, t.attr)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                ix = self.index(t.slice, st)
                self.emit('mutate', o, None, st, s, ('del', ix))
                c = self.dictof(o)
                if c is not None and ix.op == 'const':
                    new = mk('alloc', o.args[0], mk('dict', tuple(kv for kv in c if kv[0] is not ix)))
                else:
                    new = mk('delitem', o, ix)
                self.replace_holders(o, new, st)
        return Out(fall=st)

    def s_FunctionDef(self, s, st):
        f = Func(self.callstack[-1].mod, s, parent=self.callstack[-1])
        st.frames[-1][s.name] = self.closure(f, st, s)
        return Out(fall=st)

    def s_ClassDef(self, s, st):
        st.frames[-1][s.name] = mk('unk', 'localclass ' + s.name)
        return Out(fall=st)

    def closure(self, f, st, node):
        n = mk('clo', self.allocid(node), self._uid())
        self.closures[n] = (f, dict(st.frames[-1]), len(st.frames) - 1)
        return n

    def addpath(self, path, c):
        if is_const(c, True):
            return path
        if c.op == 'and':
            for x in c.args[0]:
                path = self.addpath(path, x)
            return path
        if c.op == 'not' and c.args[0].op == 'or':
            for x in c.args[0].args[0]:
                path = self.addpath(path, neg(x))
            return path
        return path if c in path else path + (c,)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c.op == 'const':
            return self.block(s.body if c.args[0] else s.orelse, st)
        a, b = st.copy(), st.copy()
        base = st.path
        a.path = self.addpath(base, c)
        b.path = self.addpath(base, neg(c))
        oa = self.block(s.body, a)
        ob = self.block(s.orelse, b)
        o = Out()
        if oa.fall is not None and ob.fall is not None:
            o.fall = self.join(c, oa.fall, ob.fall)
            o.fall.path = base
        elif oa.fall is not None:
            o.fall = oa.fall
        elif ob.fall is not None:
            o.fall = ob.fall
        o.ret = self.gate(c, oa.ret, ob.ret)
        o.brk = self.gate(c, oa.brk, ob.brk)
        o.cnt = self.gate(c, oa.cnt, ob.cnt)
        return o

    def s_With(self, s, st):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.emit('enter', v, None, st, s)
            opened.append(v)
            ent = v
            t = self.typeof(v)
            if t is not None:
                f = self.p.find_method(t, '__enter__')
                if f is not None:
                    ent = self.callfunc(f, [v], {}, st, s, recv_cls=t)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, st)
        o = self.block(s.body, st)
        fin = o.fall or (o.ret[1] if o.ret else st)
        for v in reversed(opened):
            self.emit('exit', v, None, fin, s)
            t = self.typeof(v)
            if t is not None:
                f = self.p.find_method(t, '__exit__')
                if f is not None and o.fall is not None:
                    self.callfunc(f, [v, NONE, NONE, NONE], {}, o.fall, s, recv_cls=t)
        return o

    def s_Try(self, s, st):
        before = st.copy()
        c = mk('exc', self.allocid(s))
        self.emit('try', c, None, st, s)
        o = self.block(s.body, st)
        self.emit('endtry', c, None, st, s)
        if o.fall is not None and s.orelse:
            o2 = self.block(s.orelse, o.fall)
            o = Out(o2.fall, self.join3(o.ret, o2.ret), self.join3(o.brk, o2.brk), self.join3(o.cnt, o2.cnt))
        mid = before
        if o.fall is not None:
            pass
        for h in s.handlers:
            hs = before.copy()
            hs.path = self.addpath(hs.path, c)
            if h.name:
                hs.frames[-1][h.name] = mk('unk', 'exception')
            oh = self.block(h.body, hs)
            fall = None
            if oh.fall is not None and o.fall is not None:
                fall = self.join(c, oh.fall, o.fall)
                fall.path = before.path
            else:
                fall = oh.fall or o.fall
            o = Out(fall, self.gate(c, oh.ret, o.ret), self.gate(c, oh.brk, o.brk), self.gate(c, oh.cnt, o.cnt))
        if s.finalbody:
            if o.fall is not None:
                f = self.block(s.finalbody, o.fall)
                o.fall = f.fall
                o.ret = self.join3(o.ret, f.ret)
            elif o.ret is not None:
                self.block(s.finalbody, o.ret[1])
        return o

    # -- loops -------------------------------------------------------------
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        lit = self.literal_items(it, st)
        if lit is not None and len(lit) <= 24 and not self._has_break(s.body):
            out = Out(fall=st)
            for v in lit:
                if out.fall is None:
                    break
                self.assign(s.target, v, out.fall)
                o = self.block(s.body, out.fall)
                o.fall = self.join(o.cnt[0], o.cnt[1], o.fall) if o.cnt and o.fall else (o.fall or (o.cnt and o.cnt[1]))
                out.ret = self.join3(out.ret, o.ret)
                out.fall = o.fall
            return out
        return self.loop(s, st, it)

    def _has_break(self, body):
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Break):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                todo.extend(x.orelse if not isinstance(x, ast.FunctionDef) else [])
                continue
            todo.extend(ast.iter_child_nodes(x))
        return False

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, it, comp=None):
        self.nloop += 1
        L = Loop('L%d' % self.nloop, Site(self.callstack[-1], s))
        self.loops[L.id] = L
        depth = len(self.loopstack)
        entry = st.copy()
        changed = {}
        nev, ngap = len(self.events), len(self.gaps)
        seq0, nl0 = self.seq, self.nloop
        L.iter = it
        o = None
        affine = {}
        share, apart = {}, set()

        def phnode(where, k):
            where, k = share.get((where, k), (where, k))
            if where == 'h':
                return mk('lphi', L.id, '%s.%s' % (show(k[0], 3), k[1]), k[0])
            return mk('lphi', L.id, k, where)

        def val(s_, where, k):
            if where == 'h':
                return s_.heap.get(k) if k in s_.heap else mk('attr', k[0], k[1])
            return s_.frames[where].get(k)
        for rnd in range(8):
            del self.events[nev:]
            del self.gaps[ngap:]
            self.nloop = nl0
            b = entry.copy()
            self.loopstack.append(L)
            try:
                for (where, k), _ in changed.items():
                    if where == 'h':
                        b.heap[k] = phnode(where, k)
                    else:
                        b.frames[where][k] = phnode(where, k)
                if it is not None:
                    elem, L.ivar = self.iter_elem(it, depth, b, L)
                    for (where, k), step in affine.items():
                        # counters: the value in the round is known
                        b.frames[where][k] = self.binop('+', entry.frames[where][k], self.binop('*', L.ivar, step))
                    self.assign(s.target, elem, b)
                    L.cond = TRUE
                else:
                    L.cond = self.cond(s.test, b)
                    if L.cond.op == 'const' and not L.cond.args[0]:
                        return Out(fall=entry)
                    b.path = self.addpath(b.path, L.cond)
                o = self.block(s.body, b)
            finally:
                self.loopstack.pop()
            end = o.fall
            if o.cnt is not None:
                end = self.join(o.cnt[0], o.cnt[1], end) if end is not None else o.cnt[1]
            cmpst = [x for x in (end, o.brk and o.brk[1]) if x is not None]
            # names of one object follow it together only while they stay names of one object
            split = {k for k, r in share.items() if any(val(e, *k) is not val(e, *r) for e in cmpst)}
            if split and rnd < 6:
                apart |= split
                for k in split:
                    del share[k]
                affine = {}
                continue
            new = {}
            for e in cmpst:
                for i, (f0, f1) in enumerate(zip(entry.frames, e.frames)):
                    for k, v in f1.items():
                        if k == '%closure':
                            continue
                        was = changed.get((i, k)) and phnode(i, k) or f0.get(k)
                        if v is not was and (i, k) not in changed:
                            new[(i, k)] = True
                for k, v in e.heap.items():
                    was = entry.heap.get(k)
                    if v is not was and ('h', k) not in changed:
                        # a freshly allocated object of this iteration is not loop state
                        new[('h', k)] = True
            if not new:
                if affine or rnd > 5 or L.ivar is None or end is None or o.brk is not None or o.ret is not None:
                    break
                affine = self.counters(L, entry, end, changed, phnode)
                if not affine:
                    break
                continue
            affine = {}
            if rnd > 5:
                break
            changed.update(new)
            groups = {}
            for c in changed:
                if c in apart:
                    continue
                v0 = val(entry, *c)
                if v0 is not None and v0 is not UNBOUND and v0.op not in ('const', 'tuple', 'cls', 'func', 'ext'):
                    groups.setdefault(v0, []).append(c)
            share.clear()
            for g in groups.values():
                if len(g) > 1:
                    r = max(g, key=lambda c: (-1 if c[0] == 'h' else c[0]))
                    for c in g:
                        if c != r and all(val(e, *c) is val(e, *r) for e in cmpst):
                            share[c] = r
        L.entry, L.back = {}, {}
        base = end if end is not None else (o.brk[1] if o.brk else entry)
        for (where, k) in changed:
            n = phnode(where, k)
            if where == 'h':
                L.entry[n] = entry.heap.get(k, mk('attr', k[0], k[1]))
                L.back[n] = base.heap.get(k, L.entry[n]) if end is not None else n
            else:
                L.entry[n] = entry.frames[where].get(k, UNBOUND)
                L.back[n] = base.frames[where].get(k, n) if end is not None else n
        L.changed = changed
        after = entry.copy()
        brk = o.brk
        for (where, k) in changed:
            if where == 'h':
                n = phnode(where, k)
                v = self.fin(L, n, depth)
                if brk is not None:
                    v = phi(mk('broke', L.id), brk[1].heap.get(k, n), v)
                after.heap[k] = v
            elif (where, k) in affine:
                after.frames[where][k] = self.binop('+', entry.frames[where][k], self.binop('*', self.rounds(L), affine[where, k]))
            else:
                n = phnode(where, k)
                v = self.fin(L, n, depth)
                if brk is not None:
                    v = phi(mk('broke', L.id), brk[1].frames[where].get(k, n), v)
                after.frames[where][k] = v
        after.path = entry.path
        out = Out(fall=after)
        if it is None and is_const(L.cond, True) and brk is None:
            out.fall = None
        if it is None and brk is None and L.cond is not None and out.fall is not None:
            pass
        if o.ret is not None:
            out.ret = (mk('inloop', L.id, o.ret[0]), o.ret[1], o.ret[2])
        L.brk = brk[0] if brk is not None else FALSE
        if getattr(s, 'orelse', None) and out.fall is not None:
            o2 = self.block(s.orelse, out.fall)
            out.fall = o2.fall
            out.ret = self.join3(out.ret, o2.ret)
        return out

    def rounds(self, L):
        """number of rounds of a loop that counts from 0"""
        iv = L.ivar
        if iv is None or iv.op != 'ivar' or callname(iv.args[0]) != 'builtins.range':
            return None
        a = iv.args[0].args[1]
        if len(a) == 1:
            return a[0]
        if len(a) == 2 and is_const(a[0], 0):
            return a[1]
        return None

    def counters(self, L, entry, end, changed, phnode):
        """variables that grow by the same amount in every round"""
        out = {}
        if self.rounds(L) is None:
            return out
        for (where, k) in changed:
            if where == 'h':
                continue
            n = phnode(where, k)
            e, b = entry.frames[where].get(k), end.frames[where].get(k)
            if e is None or e is UNBOUND or b is None or b.op not in ('bin', 'iop') or b.args[0] not in ('+', '-') or b.args[1] is not n:
                continue
            c = b.args[2]
            if any(y is L.ivar or y.op in ('lphi', 'lfin', 'lsum', 'rnd', 'icall') and (y.op != 'lphi' or y.args[0] == L.id) for y in walk(c)):
                continue
            if not self.numeric(e) or not self.numeric(c):
                continue
            out[where, k] = c if b.args[0] == '+' else self.binop('*', const(-1), c)
        return out

    def numeric(self, x):
        """certainly one number"""
        if is_const(x) and not is_const(x, None):
            return isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool)
        if x.op == 'dim':
            return True
        if x.op in ('bin', 'iop', 'un'):
            return all(self.numeric(y) for y in x.args[1:])
        if x.op == 'phi':
            return self.numeric(x.args[1]) and self.numeric(x.args[2])
        return callname(x) in ('builtins.int', 'builtins.len', 'builtins.float') or x.op in ('param', 'attr', 'ivar')

    def fin(self, L, n, depth):
        """value of a loop-carried variable after the loop, canonicalised"""
        e, b = L.entry[n], L.back[n]
        iv = L.ivar
        if iv is not None:
            c = TRUE
            body = b
            if b.op == 'phi':
                if b.args[2] is n:
                    c, body = b.args[0], b.args[1]
                elif b.args[1] is n:
                    c, body = neg(b.args[0]), b.args[2]
            dep = lambda x: any(y.op == 'lphi' and y.args[0] == L.id for y in walk(x))
            if body.op == 'append' and body.args[0] is n and not dep(body.args[1]) and not dep(c):
                m = mk('lmap', iv, body.args[1], c)
                if e.op == 'alloc' and e.args[1].op == 'list' and not e.args[1].args:
                    return mk('alloc', e.args[0], m)
                return mk('extend', e, m)
            if body.op == 'store' and body.args[0] is n and not dep(body.args[1]) and not dep(body.args[2]) and \
                    c.op == 'cmp' and c.args[0] == 'not in' and c.args[1] is body.args[1] and c.args[2] is n:
                return mk('lfill', e, iv, body.args[1], body.args[2], mk('firstonly'))
            if body.op in ('store',) and body.args[0] is n and not dep(body.args[1]) and not dep(body.args[2]) and not dep(c):
                return mk('lfill', e, iv, body.args[1], body.args[2], c)
            if body.op in ('bin', 'iop') and body.args[0] == '+' and not dep(c):
                if body.args[1] is n and not dep(body.args[2]):
                    return mk('lsum', e, iv, body.args[2], c)
                if body.args[2] is n and not dep(body.args[1]):
                    return mk('lsum', e, iv, body.args[1], c)
            if not dep(b):
                # assigned afresh in each iteration: last value
                return mk('llast', e, iv, b)
        return mk('lfin', L.id, n.args[1], n)

    def iter_elem(self, it, depth, st, L):
        cn = callname(it)
        if it.op == 'phi':
            a = it.args[1], it.args[2]
        if cn == 'builtins.range':
            iv = mk('ivar', it, depth)
            return iv, iv
        if cn == 'builtins.enumerate':
            seq = it.args[1][0]
            e, iv = self.iter_elem(seq, depth, st, L)
            start = it.args[1][1] if len(it.args[1]) > 1 else kwof(it, 'start', const(0))
            i = iv if is_const(start, 0) else self.binop('+', iv, start)
            return tup(i, e), iv
        if cn == 'builtins.zip':
            es = [self.iter_elem(x, depth, st, L) for x in it.args[1]]
            if not es:
                return mk('unk', 'zip'), mk('ivar', it, depth)
            iv = es[0][1]
            out = [es[0][0]]
            for x, (e, v) in zip(it.args[1][1:], es[1:]):
                out.append(subst(e, {v: iv}))
            return tup(*out), iv
        if cn in ('builtins.list', 'builtins.iter', 'builtins.tuple', 'tqdm.tqdm') and len(it.args[1]) == 1:
            return self.iter_elem(it.args[1][0], depth, st, L)
        if cn == 'builtins.reversed':
            e, iv = self.iter_elem(it.args[1][0], depth, st, L)
            return mk('rev', e, it), mk('ivar', it, depth)
        if it.op == 'icall' and it.args[0].op == 'attr' and not it.args[1]:
            d, nm = it.args[0].args
            if nm in ('items', 'iteritems'):
                iv = mk('ivar', mk('call', ext('builtins.range'), (mk('dim', d, 0),), ()), depth)
                k = mk('dkey', d, iv)
                return tup(k, self.sub(d, k, st)), iv
            if nm in ('keys', 'iterkeys'):
                iv = mk('ivar', mk('call', ext('builtins.range'), (mk('dim', d, 0),), ()), depth)
                return mk('dkey', d, iv), iv
            if nm in ('values',):
                iv = mk('ivar', mk('call', ext('builtins.range'), (mk('dim', d, 0),), ()), depth)
                return self.sub(d, mk('dkey', d, iv), st), iv
        t = self.typeof(it)
        if t is not None:
            f = self.p.find_method(t, '__iter__')
        iv = mk('ivar', mk('call', ext('builtins.range'), (self.dim(it, 0),), ()), depth)
        if self.dictof(it) is not None:
            return mk('dkey', it, iv), iv
        if it.op == 'alloc' and it.args[1].op == 'lmap':
            lm = it.args[1]
            if is_const(lm.args[2], True):
                v = mk('ivar', lm.args[0].args[0], depth)
                return subst(lm.args[1], {lm.args[0]: v}), v
        return self.sub(it, iv, st), iv

    def literal_items(self, it, st=None):
        """concrete element list of an iterable, when known"""
        if it.op == 'tuple':
            return list(it.args)
        if it.op == 'alloc' and it.args[1].op in ('list', 'set'):
            return list(it.args[1].args)
        if it.op in ('list', 'set'):
            return list(it.args)
        d = self.dictof(it)
        if d is not None:
            return [k for k, _ in d]
        cn = callname(it)
        if cn == 'builtins.range' and all(is_const(a) for a in it.args[1]):
            try:
                return [const(i) for i in range(*[a.args[0] for a in it.args[1]])][:25]
            except Exception:
                return None
        if cn == 'builtins.enumerate':
            x = self.literal_items(it.args[1][0])
            return None if x is None else [tup(const(i), e) for i, e in enumerate(x)]
        if cn == 'builtins.zip':
            xs = [self.literal_items(a) for a in it.args[1]]
            if any(x is None for x in xs):
                return None
            return [tup(*t) for t in zip(*xs)]
        if cn in ('builtins.list', 'builtins.tuple', 'builtins.sorted') and len(it.args[1]) == 1:
            x = self.literal_items(it.args[1][0])
            if x is not None and cn == 'builtins.sorted':
                if all(is_const(e) for e in x):
                    try:
                        return sorted(x, key=lambda e: e.args[0])
                    except Exception:
                        return None
                return None
            return x
        if it.op == 'icall' and it.args[0].op == 'attr' and not it.args[1]:
            d = self.dictof(it.args[0].args[0])
            if d is not None:
                nm = it.args[0].args[1]
                if nm == 'items':
                    return [tup(k, v) for k, v in d]
                if nm == 'keys':
                    return [k for k, _ in d]
                if nm == 'values':
                    return [v for _, v in d]
        return None

    def dictof(self, n):
        if n.op == 'alloc' and n.args[1].op == 'dict':
            return n.args[1].args[0]
        if n.op == 'dict':
            return n.args[0]
        return None

    # -- assignment ----------------------------------------------------------
    def setname(self, name, v, st):
        st.frames[-1][name] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, mk('unk', 'star'), st)
                else:
                    self.assign(x, self.sub(v, const(i if not stars or i < stars[0] else i - len(t.elts)), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            ix = self.index(t.slice, st)
            self.store(o, ix, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def setattr(self, o, name, v, st, node):
        t = self.typeof(o)
        if t is not None:
            f = self.p.find_setter(t, name)
            if f is not None:
                self.callfunc(f, [o, v], {}, st, node, recv_cls=t)
                return
        self.emit('setattr', o, v, st, node, name)
        if o.op == 'phi':
            for ob, cc in ((o.args[1], o.args[0]), (o.args[2], neg(o.args[0]))):
                if ob.op in ('new', 'param', 'attr', 'objcopy'):
                    old = st.heap.get((ob, name), mk('attr', ob, name))
                    st.heap[(ob, name)] = phi(cc, v, old)
        st.heap[(o, name)] = v

    def store(self, o, ix, v, st, node, aug=None):
        self.emit('mutate', o, v, st, node, ('aug' + aug if aug else 'store', ix))
        d = self.dictof(o)
        if d is not None and ix.op == 'const':
            kv = [x for x in d]
            for i, (k, _) in enumerate(kv):
                if k is ix:
                    kv[i] = (ix, v)
                    break
            else:
                kv.append((ix, v))
            new = mk('alloc', o.args[0], mk('dict', tuple(kv)))
        elif o.op == 'alloc' and o.args[1].op == 'list' and ix.op == 'const' and isinstance(ix.args[0], int) and \
                -len(o.args[1].args) <= ix.args[0] < len(o.args[1].args):
            xs = list(o.args[1].args)
            xs[ix.args[0]] = v
            new = mk('alloc', o.args[0], mk('list', *xs))
        else:
            new = mk('store', o, ix, v)
        self.replace_holders(o, new, st)

    def replace_holders(self, old, new, st):
        if old.op == 'const':
            return
        for f in st.frames:
            for k, v in list(f.items()):
                if v is old:
                    f[k] = new
                elif k != '%closure' and isinstance(v, N) and v.op in ('tuple',) and any(x is old for x in v.args):
                    f[k] = mk('tuple', *[new if x is old else x for x in v.args])
        for k, v in list(st.heap.items()):
            if v is old:
                st.heap[k] = new
        # storing through an attribute read of an object never stored before
        if old.op == 'attr' and (old.args[0], old.args[1]) not in st.heap:
            st.heap[(old.args[0], old.args[1])] = new
        # storing through a view updates its base too
        if old.op == 'sub' and old.args[0].op not in ('const', 'ext'):
            b = old.args[0]
            if b.op in ('alloc', 'param', 'attr', 'store', 'lphi', 'lfill') and not b is new:
                nb = mk('store', b, old.args[1], new)
                self.replace_holders(b, nb, st)

    # -- expressions -----------------------------------------------------------
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget * 12:
            raise Budget()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.gap('expr ' + type(e).__name__, e)
        r = m(e, st)
        if r.op not in ('const', 'param', 'ext') and r not in self.origin and self.callstack:
            self.origin[r] = '%s:%d' % (self.callstack[-1].mod.rel, getattr(e, 'lineno', 0))
        return r

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, nm, st, node=None):
        f = st.frames[-1]
        if nm in f:
            v = f[nm]
            if v is UNBOUND:
                self.emit('unbound', const(nm), None, st, node)
                return mk('unk', 'unbound ' + nm)
            if v.op == 'phi' and any(x is UNBOUND for x in v.args[1:]):
                known = self.known(v.args[0], st)
                if known is not None:
                    r = v.args[1] if known else v.args[2]
                    if r is UNBOUND:
                        self.emit('unbound', const(nm), None, st, node)
                        return mk('unk', 'unbound ' + nm)
                    return r
            return v
        c = f.get('%closure')
        while c is not None:
            if nm in c:
                return c[nm]
            c = c.get('%closure')
        fn = self.callstack[-1]
        # a local of this function that is not bound on this path
        r = self.p.member(fn.mod, nm)
        if r is not None:
            return self.obj2node(r)
        if nm in BUILTINS:
            return ext('builtins.' + nm)
        if nm == '__class__':
            return mk('cls', fn.cls.fq) if fn.cls else mk('unk', nm)
        self.emit('undef', const(nm), None, st, node)
        return mk('unk', 'undef ' + nm)

    def obj2node(self, r):
        if isinstance(r, Func):
            n = mk('func', r.fq)
            self.closures.setdefault(n, (r, None, None))
            return n
        if isinstance(r, Cls):
            return mk('cls', r.fq)
        if isinstance(r, Mod):
            return mk('mod', r.name)
        if isinstance(r, Ext):
            nm = r.name
            if nm in ('six.moves.xrange', 'past.builtins.range', 'six.moves.range'):
                nm = 'builtins.range'
            if nm.startswith('six.moves.'):
                nm = 'builtins.' + nm[10:]
            return ext(nm)
        if isinstance(r, tuple) and r[0] == 'global':
            m, nme = r[1], r[2]
            v = m.globals.get(nme)
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in v.elts):
                return tup(*[const(x.value) for x in v.elts])
            if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                return const(ast.literal_eval(v))
            if v is not None and nme not in ('logger',):
                key = ('gv', m.name, nme)
                if not getattr(self, '_gv', None):
                    self._gv = {}
                if key in self._gv:
                    return self._gv[key]
                self._gv[key] = mk('global', m.name + '.' + nme)
                # evaluate simple module-level expressions (dicts of classes ...)
                if isinstance(v, (ast.Dict, ast.Tuple, ast.List, ast.BinOp, ast.Call, ast.Attribute, ast.Name)):
                    fake = Func(m, ast.parse('lambda: 0').body[0].value)
                    fake.name = '<module>'
                    self.callstack.append(fake)
                    try:
                        x = self.ev(v, State([{}], {}, ()))
                        if x.op in ('alloc', 'tuple', 'const', 'cls', 'func', 'ext', 'bin'):
                            self._gv[key] = x
                    except (Budget, RecursionError):
                        raise
                    except Exception:
                        pass
                    finally:
                        self.callstack.pop()
                return self._gv[key]
            return mk('global', m.name + '.' + nme)
        if isinstance(r, tuple) and r[0] == 'missing':
            return mk('unk', 'missing %s.%s' % (r[1], r[2]))
        return mk('unk', 'obj')

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def typeof(self, n, memo=None):
        t = self.types.get(n)
        if t is not None:
            return t
        if n.op == 'new':
            return self._clsof(n.args[0])
        if n.op == 'objcopy':
            return self.typeof(n.args[1])
        if n.op == 'attr' and self._ft_on:
            bt = self.typeof(n.args[0])
            if bt is not None:
                return self.field_type(bt, n.args[1])
        if n.op == 'phi':
            if memo is None:
                memo = {}
            if n not in memo:
                a, b = self.typeof(n.args[1], memo), self.typeof(n.args[2], memo)
                memo[n] = a if a is b or is_const(n.args[2], None) else b if is_const(n.args[1], None) else None
            return memo[n]
        if n.op in ('lphi',):
            L = self.loops.get(n.args[0])
            if L is not None and n in L.entry:
                return self.typeof(L.entry[n]) if L.entry[n].op != 'lphi' else None
        if n.op == 'call' and n.args[0].op == 'func':
            return None
        return None

    def _clsof(self, fq):
        mn, nm = fq.split(':')
        return self.p.mods[mn].classes[nm]

    def field_type(self, c, name):
        """class of self.<name>, when every __init__ assignment along the MRO agrees"""
        key = (c.fq, name)
        if key in self._ft:
            return self._ft[key]
        self._ft[key] = None
        found = set()
        for k in self.p.mro(c):
            init = k.methods.get('__init__')
            if init is None:
                continue
            for s in ast.walk(init.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            r = self._expr_cls(k.mod, s.value)
                            found.add(r)
        found.discard('none')
        if len(found) == 1:
            r = found.pop()
            if isinstance(r, Cls):
                self._ft[key] = r
        return self._ft[key]

    def _expr_cls(self, mod, v):
        if isinstance(v, ast.Constant) and v.value is None:
            return 'none'
        if isinstance(v, ast.Call):
            r = self.p.resolve_expr(mod, v.func)
            if isinstance(r, Cls):
                return r
            if isinstance(r, Func) and r.cls is not None and r.name in ('load', 'create', 'read'):
                if r.name == 'load' and r.kind in ('classmethod', 'static'):
                    b = self.p.resolve_expr(mod, v.func.value) if isinstance(v.func, ast.Attribute) else None
                    return b if isinstance(b, Cls) else None
        return None

    def getattr(self, o, name, st, node=None):
        if o.op == 'ext':
            return self.extname(o.args[0] + '.' + name)
        if o.op == 'mod':
            r = self.p.member(self.p.mods[o.args[0]], name)
            if r is None:
                self.emit('undef', const(o.args[0] + '.' + name), None, st, node)
                return mk('unk', 'missing')
            return self.obj2node(r)
        if o.op == 'cls':
            c = self._clsof(o.args[0])
            if (o, name) in st.heap:
                return st.heap[(o, name)]
            f = self.p.find_method(c, name)
            if f is not None:
                if f.kind == 'classmethod':
                    n = mk('func', f.fq)
                    self.closures[n] = (f, None, None)
                    return mk('bound', n, o)
                n = mk('func', f.fq)
                self.closures[n] = (f, None, None)
                return n
            a = self.p.find_class_attr(c, name)
            if a is not None:
                if isinstance(a[1], ast.Constant):
                    return const(a[1].value)
                return mk('attr', o, name)
            if name == '__name__':
                return const(c.name)
            return mk('attr', o, name)
        if o.op == 'super':
            c = self._clsof(o.args[0])
            recv = o.args[1]
            rc = self._clsof(recv.args[0]) if recv.op == 'cls' else (self.typeof(recv) or c)
            f = self.p.find_method(rc, name, after=c)
            if f is None:
                return mk('attr', o, name)
            if f.kind == 'property':
                return self.callfunc(f, [recv], {}, st, node, recv_cls=rc)
            n = mk('func', f.fq)
            self.closures[n] = (f, None, None)
            if f.kind == 'static':
                return n
            return mk('bound', n, mk('cls', rc.fq) if f.kind == 'classmethod' and recv.op != 'cls' else recv)
        if (o, name) in st.heap:
            return st.heap[(o, name)]
        if name == '__class__':
            t = self.typeof(o)
            if t is not None:
                return mk('cls', t.fq)
        if name == '__dict__':
            t = self.typeof(o)
        if o.op == 'phi':
            a, b = o.args[1], o.args[2]
            if any(x.op in ('new', 'objcopy') or self.typeof(x) for x in (a, b)) and not (a.op == 'const' or b.op == 'const'):
                return phi(o.args[0], self.getattr(a, name, st, node), self.getattr(b, name, st, node))
            if is_const(a, None):
                return self.getattr(b, name, st, node)
            if is_const(b, None):
                return self.getattr(a, name, st, node)
        t = self.typeof(o)
        if t is not None:
            f = self.p.find_method(t, name)
            if f is not None:
                if f.kind == 'property':
                    return self.callfunc(f, [o], {}, st, node, recv_cls=t)
                n = mk('func', f.fq)
                self.closures[n] = (f, None, None)
                if f.kind == 'static':
                    return n
                return mk('bound', n, mk('cls', t.fq) if f.kind == 'classmethod' else o)
            a = self.p.find_class_attr(t, name)
            if a is not None and isinstance(a[1], ast.Constant):
                return const(a[1].value)
            if o.op == 'objcopy':
                return self.getattr(o.args[1], name, st, node)
            self.emit('noattr?', o, mk('cls', t.fq), st, node, name)
            return mk('attr', o, name)
        if name == 'T':
            return self.transpose(o)
        if name == 'shape':
            return mk('shape', o)
        if name == 'size' and o.op not in ('param_',):
            return mk('size', o)
        if name == 'ndim':
            return mk('ndim', o)
        if o.op == 'objcopy':
            return self.getattr(o.args[1], name, st, node)
        return mk('attr', o, name)

    def transpose(self, o):
        if o.op == 'T':
            return o.args[0]
        return mk('T', o)

    def extname(self, nm):
        if nm.startswith('np.'):
            nm = 'numpy.' + nm[3:]
        if nm == 'numpy.newaxis':
            return NONE
        return ext(nm)

    def e_Tuple(self, e, st):
        return tup(*self.elts(e.elts, st))

    def elts(self, xs, st):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                it = self.literal_items(v)
                if it is not None:
                    out.extend(it)
                else:
                    out.append(mk('star', v))
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        return mk('alloc', self.allocid(e), mk('list', *self.elts(e.elts, st)))

    def e_Set(self, e, st):
        return mk('alloc', self.allocid(e), mk('set', *self.elts(e.elts, st)))

    def e_Dict(self, e, st):
        kv = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                d = self.dictof(x)
                if d is None:
                    kv.append((mk('star'), x))
                else:
                    kv.extend(d)
            else:
                kn = self.ev(k, st)
                vn = self.ev(v, st)
                kv = [t for t in kv if t[0] is not kn] + [(kn, vn)]
        return mk('alloc', self.allocid(e), mk('dict', tuple(kv)))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            try:
                if op == '+':
                    return const(x + y)
                if op == '-':
                    return const(x - y)
                if op == '*':
                    return const(x * y)
                if op == '/':
                    return const(x / y)
                if op == '//':
                    return const(x // y)
                if op == '%' and not isinstance(x, str):
                    return const(x % y)
                if op == '**' and abs(y) < 64 and y == int(y):
                    return const(x ** y)
            except Exception:
                pass
        if op == '+':
            la, lb = self._lit(a), self._lit(b)
            if la is not None and lb is not None:
                if a.op == 'tuple':
                    return tup(*(la + lb))
                return mk('list', *(la + lb))
        if op in '+-*/' or op == '//':
            if b.op == 'const' and isinstance(b.args[0], (int, float)) and not isinstance(b.args[0], bool):
                if b.args[0] == 0 and op in '+-' and isinstance(b.args[0], int):
                    return a
                if b.args[0] == 1 and op == '*' and isinstance(b.args[0], int):
                    return a
            if a.op == 'const' and isinstance(a.args[0], int) and not isinstance(a.args[0], bool):
                if a.args[0] == 0 and op == '+':
                    return b
                if a.args[0] == 1 and op == '*':
                    return b
        return mk('bin', op, a, b)

    def _lit(self, n):
        if n.op == 'tuple':
            return list(n.args)
        if n.op == 'alloc' and n.args[1].op == 'list':
            return list(n.args[1].args)
        if n.op == 'list':
            return list(n.args)
        return None

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            if v.op == 'const' and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            if v.op == 'un' and v.args[0] == '-':
                return v.args[1]
            return mk('un', '-', v)
        if isinstance(e.op, ast.Invert):
            if v.op == 'un' and v.args[0] == '~':
                return v.args[1]
            return mk('un', '~', v)
        return v

    def e_BoolOp(self, e, st):
        # value semantics; boolean-valued operands give and/or nodes
        vals = []
        cur = st
        sub_ = st.copy()
        for x in e.values:
            v = self.ev(x, sub_)
            vals.append(v)
            c = self.truth(v, sub_)
            sub_.path = self.addpath(sub_.path, c if isinstance(e.op, ast.And) else neg(c))
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v, st)
            if isinstance(e.op, ast.And):
                r = self._bool2(c, r, v, True, st)
            else:
                r = self._bool2(c, v, r, False, st)
        return r

    def _bool2(self, c, a, b, is_and, st):
        if is_and:
            if isboolish(b) or is_const(b, False):
                return conj(c, a) if isboolish(a) else phi(c, a, FALSE)
            return phi(c, a, b)
        if isboolish(a):
            return disj(c, b) if isboolish(b) else phi(c, TRUE, b)
        return phi(c, a, b)

    def cond(self, e, st):
        return self.simplify_cond(self.truth(self.ev(e, st), st), st)

    def truth(self, v, st):
        """boolean condition node for the truth of v"""
        if v.op == 'const':
            try:
                return const(bool(v.args[0]))
            except Exception:
                return v
        if v.op in ('new', 'func', 'cls', 'bound', 'clo', 'mod', 'objcopy'):
            t = self.typeof(v)
            if t is None or not self.p.find_method(t, '__len__'):
                return TRUE
        if v.op == 'tuple':
            return const(bool(v.args))
        if v.op == 'dim':
            return mk('cmp', '!=', v, const(0))
        return self.simplify_cond(v, st)

    def known(self, c, st):
        if c.op == 'const':
            return bool(c.args[0])
        if c in st.path:
            return True
        if neg(c) in st.path:
            return False
        if c.op == 'and':
            ks = [self.known(x, st) for x in c.args[0]]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if c.op == 'or':
            ks = [self.known(x, st) for x in c.args[0]]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        if c.op == 'cmp' and c.args[0] == '==' and c.args[2].op == 'const':
            for x in st.path:
                if x.op == 'cmp' and x.args[0] == '==' and x.args[1] is c.args[1] and x.args[2].op == 'const' and x.args[2] is not c.args[2]:
                    return False
        if c.op == 'cmp' and c.args[0] == 'is' and is_const(c.args[2], None):
            x = c.args[1]
            # x > 0, len(x) ... known truth of x itself implies not None
            if x in st.path:
                return False
        return None

    def atpath(self, st):
        """results for conditions under one path"""
        if self._pathmemo is None or self._pathmemo[0] is not st.path:
            self._pathmemo = (st.path, {})
        return self._pathmemo[1]

    def simplify_cond(self, c, st):
        if c.op not in ('and', 'or', 'not', 'phi'):
            return self.simplify_cond_(c, st)
        memo = self.atpath(st)
        if c not in memo:
            memo[c] = self.simplify_cond_(c, st)
        return memo[c]

    def simplify_cond_(self, c, st):
        k = self.known(c, st)
        if k is not None:
            return const(k)
        if c.op == 'and':
            return conj(*[self.simplify_cond(x, st) for x in c.args[0]])
        if c.op == 'or':
            return disj(*[self.simplify_cond(x, st) for x in c.args[0]])
        if c.op == 'not':
            return neg(self.simplify_cond(c.args[0], st))
        if c.op == 'phi' and isboolish(c.args[1]) and isboolish(c.args[2]):
            k = self.known(c.args[0], st)
            if k is not None:
                return self.simplify_cond(c.args[1] if k else c.args[2], st)
        return c

    def e_Compare(self, e, st):
        a = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, st)
            out.append(self.compare(CMPOPS[type(op)], a, b, st))
            a = b
        return out[0] if len(out) == 1 else conj(*out)

    def compare(self, op, a, b, st):
        if a.op != 'phi' and b.op != 'phi':
            return self.compare_(op, a, b, st)
        memo = self.atpath(st)
        k = (op, a, b)
        if k not in memo:
            memo[k] = self.compare_(op, a, b, st)
        return memo[k]

    def compare_(self, op, a, b, st):
        if is_const(b, None) and op == '==':
            op = 'is'
        if is_const(b, None) and op == '!=':
            op = 'is not'
        if op in ('is', 'is not') and is_const(a, None):
            a, b = b, a
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            try:
                r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                     '>': lambda: x > y, '>=': lambda: x >= y, 'is': lambda: x is y or (x == y and type(x) == type(y)),
                     'is not': lambda: not (x is y or (x == y and type(x) == type(y))),
                     'in': lambda: x in y, 'not in': lambda: x not in y}[op]()
                return const(bool(r))
            except Exception:
                pass
        if op in ('is', 'is not') and is_const(b, None):
            r = self.isnone(a, st)
            if r is not None:
                return const(r if op == 'is' else not r)
            if a.op == 'phi':
                x = self.compare(op, a.args[1], b, st)
                y = self.compare(op, a.args[2], b, st)
                return self.simplify_cond(phi(a.args[0], x, y), st)
        if op in ('==', '!=') and a.op == 'phi' and b.op == 'const' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
            x = self.compare(op, a.args[1], b, st)
            y = self.compare(op, a.args[2], b, st)
            return self.simplify_cond(phi(a.args[0], x, y), st)
        if op in ('in', 'not in'):
            it = self.literal_items(b)
            if it is not None and a.op == 'const' and all(x.op == 'const' for x in it):
                r = any(x is a for x in it)
                return const(r if op == 'in' else not r)
            if it is not None and it and len(it) <= 6 and b.op != 'dict' and self.dictof(b) is None:
                r = disj(*[self.compare('==', a, x, st) for x in it])
                return r if op == 'in' else neg(r)
        if op == '>':
            return mk('cmp', '<', b, a)
        if op == '>=':
            return mk('cmp', '<=', b, a)
        if op in ('==', '!=') and b.op != 'const' and (a.op == 'const' or a.uid > b.uid):
            a, b = b, a
        n = mk('cmp', op, a, b)
        k = self.known(n, st)
        return n if k is None or op not in ('is', 'is not', '==', '!=', 'in', 'not in') else const(k)

    def isnone(self, a, st):
        if a.op == 'const':
            return a.args[0] is None
        if a.op in ('alloc', 'tuple', 'list', 'dict', 'new', 'func', 'cls', 'bound', 'clo', 'bin', 'cmp', 'mod',
                    'dim', 'shape', 'T', 'store', 'iop', 'lmap', 'lfill', 'objcopy', 'slice', 'un', 'fmt', 'size',
                    'ndim', 'ivar', 'lsum', 'gen', 'and', 'or', 'not'):
            return False
        if a.op == 'call' and callname(a) and (callname(a).startswith('numpy.') or callname(a).startswith('scipy.') or
                                               callname(a) in ('builtins.len', 'builtins.int', 'builtins.str', 'builtins.float',
                                                               'builtins.list', 'builtins.dict', 'builtins.range')):
            return False
        if a.op == 'lphi':
            L = self.loops.get(a.args[0])
        if a.op == 'sub' and (a.args[1].op in ('slice', 'alloc', 'cmp', 'un', 'shuffled', 'rnd') or callname(a.args[1])):
            return False
        if a.op == 'sub' and a.args[1].op == 'tuple' and any(x.op == 'slice' for x in a.args[1].args):
            return False
        if a.op in ('append', 'extend', 'llast_', 'shuffled'):
            return False
        c = mk('cmp', 'is', a, NONE)
        if c in st.path:
            return True
        if neg(c) in st.path or a in st.path:
            return False
        return None

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c.op == 'const':
            return self.ev(e.body if c.args[0] else e.orelse, st)
        a, b = st.copy(), st.copy()
        a.path = self.addpath(st.path, c)
        b.path = self.addpath(st.path, neg(c))
        va = self.ev(e.body, a)
        vb = self.ev(e.orelse, b)
        j = self.join(c, a, b)
        st.frames[:] = j.frames
        st.heap.clear()
        st.heap.update(j.heap)
        return phi(c, va, vb)

    def e_Lambda(self, e, st):
        f = Func(self.callstack[-1].mod, e, parent=self.callstack[-1])
        return self.closure(f, st, e)

    def e_JoinedStr(self, e, st):
        return mk('fmt', *[self.ev(x, st) for x in e.values])

    def e_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        sp = e.format_spec
        if sp is not None and len(sp.values) == 1 and isinstance(sp.values[0], ast.Constant) and sp.values[0].value:
            return mk('fspec', sp.values[0].value, v)
        return v

    def e_Starred(self, e, st):
        return mk('star', self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.emit('yield', v, None, st, e)
        return mk('unk', 'sent')

    e_YieldFrom = e_Yield

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def index(self, s, st):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, st)
        if isinstance(s, ast.Tuple):
            return tup(*[self.index(x, st) for x in s.elts])
        return self.ev(s, st)

    def e_Slice(self, s, st):
        f = lambda x: NONE if x is None else self.ev(x, st)
        lo, hi, stp = f(s.lower), f(s.upper), f(s.step)
        if is_const(lo, 0):
            lo = NONE
        if is_const(stp, 1):
            stp = NONE
        return mk('slice', lo, hi, stp)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        ix = self.index(e.slice, st)
        return self.sub(o, ix, st, e)

    def sub(self, o, ix, st, node=None):
        if o.op in ('tuple',) or (o.op == 'alloc' and o.args[1].op == 'list') or o.op == 'list':
            xs = o.args if o.op != 'alloc' else o.args[1].args
            if ix.op == 'const' and isinstance(ix.args[0], int) and not any(x.op == 'star' for x in xs):
                if -len(xs) <= ix.args[0] < len(xs):
                    return xs[ix.args[0]]
            if ix.op == 'slice' and all(is_const(a) for a in ix.args) and not any(x.op == 'star' for x in xs):
                try:
                    ys = xs[slice(*[a.args[0] for a in ix.args])]
                    return tup(*ys) if o.op == 'tuple' else mk('list', *ys)
                except Exception:
                    pass
        if o.op == 'const' and isinstance(o.args[0], (str, bytes)) and ((ix.op == 'const' and isinstance(ix.args[0], int)) or (
                ix.op == 'slice' and all(is_const(a) for a in ix.args))):
            try:
                return const(o.args[0][ix.args[0] if ix.op == 'const' else slice(*[a.args[0] for a in ix.args])])
            except Exception:
                pass
        if o.op == 'append' and (is_const(ix) and isinstance(ix.args[0], int) or ix.op == 'slice' and all(is_const(a) for a in ix.args)):
            xs, b = [], o
            while b.op == 'append':
                xs.insert(0, b.args[1])
                b = b.args[0]
            if b.op == 'alloc' and b.args[1].op == 'list' and not any(x.op == 'star' for x in b.args[1].args):
                xs = list(b.args[1].args) + xs
                if ix.op == 'slice':
                    try:
                        return mk('list', *xs[slice(*[a.args[0] for a in ix.args])])
                    except (TypeError, ValueError):
                        return mk('sub', o, ix)
                if -len(xs) <= ix.args[0] < len(xs):
                    return xs[ix.args[0]]
            elif ix.op != 'slice' and -len(xs) <= ix.args[0] < 0:
                return xs[ix.args[0]]
        d = self.dictof(o)
        if d is not None and ix.op == 'const':
            for k, v in d:
                if k is ix:
                    return v
        if d is not None and ix.op == 'phi' and ix.args[1].op == 'const' and ix.args[2].op == 'const':
            return phi(ix.args[0], self.sub(o, ix.args[1], st), self.sub(o, ix.args[2], st))
        if o.op == 'shape' and ix.op == 'const' and isinstance(ix.args[0], int):
            return self.dim(o.args[0], ix.args[0])
        if o.op == 'phi' and (o.args[1].op in ('tuple',) or o.args[2].op in ('tuple',)) and ix.op == 'const':
            return phi(o.args[0], self.sub(o.args[1], ix, st), self.sub(o.args[2], ix, st))
        if o.op == 'phi' and ix.op == 'const' and all(x.op == 'call' and x.args[0].op == 'func' for x in o.args[1:]):
            return phi(o.args[0], self.sub(o.args[1], ix, st), self.sub(o.args[2], ix, st))
        if o.op == 'phi' and ix.op == 'const' and self.dictof(o.args[1]) is not None and self.dictof(o.args[2]) is not None:
            return phi(o.args[0], self.sub(o.args[1], ix, st), self.sub(o.args[2], ix, st))
        if o.op == 'store' and o.args[1] is ix and ix.op in ('const', 'ivar', 'param', 'slice', 'tuple'):
            return o.args[2]
        if o.op == 'store' and ix.op == 'const' and o.args[1].op == 'const' and type(ix.args[0]) is type(o.args[1].args[0]) \
                and isinstance(ix.args[0], str):
            return self.sub(o.args[0], ix, st)
        if ix.op == 'slice' and all(is_const(a, None) for a in ix.args) and o.op in ('const',):
            return o
        t = self.typeof(o)
        if t is not None:
            f = self.p.find_method(t, '__getitem__')
            if f is not None:
                return self.callfunc(f, [o, ix], {}, st, node, recv_cls=t)
        if o.op == 'alloc' and o.args[1].op == 'lmap' and ix.op == 'ivar' and is_const(o.args[1].args[2], True):
            lm = o.args[1]
            if ix.args[0] is lm.args[0].args[0] or (callname(ix.args[0]) == 'builtins.range' and
                                                    len(ix.args[0].args[1]) == 1 and ix.args[0].args[1][0] is self.dim(o, 0)):
                return subst(lm.args[1], {lm.args[0]: mk('ivar', lm.args[0].args[0], ix.args[1])})
        return mk('sub', o, ix)

    def dim(self, o, k):
        if o.op == 'tuple' and k == 0:
            return const(len(o.args))
        if o.op == 'alloc' and o.args[1].op in ('list',) and k == 0 and not any(x.op == 'star' for x in o.args[1].args):
            return const(len(o.args[1].args))
        if o.op == 'const' and isinstance(o.args[0], (str, bytes)):
            return const(len(o.args[0]))
        d = self.dictof(o)
        if d is not None:
            return const(len(d))
        if o.op == 'store':
            return self.dim(o.args[0], k)
        if o.op == 'T' and isinstance(k, int) and k in (0, 1):
            return self.dim(o.args[0], 1 - k)
        if o.op == 'alloc':
            c = o.args[1]
            cn = callname(c)
            if cn in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and c.args[1]:
                sh = c.args[1][0]
                if sh.op == 'tuple' and -len(sh.args) <= k < len(sh.args):
                    return sh.args[k]
                if sh.op == 'alloc' and sh.args[1].op == 'list' and -len(sh.args[1].args) <= k < len(sh.args[1].args):
                    return sh.args[1].args[k]
                if sh.op not in ('tuple', 'alloc', 'shape') and k == 0:
                    return sh
                if sh.op == 'shape':
                    return self.dim(sh.args[0], k)
            if cn in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.copy', 'numpy.array') and c.args[1]:
                return self.dim(c.args[1][0], k)
        if o.op == 'lfill':
            return self.dim(o.args[0], k)
        if callname(o) in ('numpy.asarray', 'numpy.astype') and o.args[1]:
            return self.dim(o.args[1][0], k)
        if o.op == 'phi':
            a, b = self.dim(o.args[1], k), self.dim(o.args[2], k)
            if a is b:
                return a
        return mk('dim', o, k)

    # comprehensions ------------------------------------------------------------
    def e_ListComp(self, e, st):
        return self.compr(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.compr(e, st, 'gen')

    def e_SetComp(self, e, st):
        return self.compr(e, st, 'set')

    def e_DictComp(self, e, st):
        return self.compr(e, st, 'dict')

    def compr(self, e, st, kind):
        items = []        # (body, cond) unrolled, or symbolic
        sym = []

        def rec(gi, s, cnd):
            if gi == len(e.generators):
                if kind == 'dict':
                    b = tup(self.ev(e.key, s), self.ev(e.value, s))
                else:
                    b = self.ev(e.elt, s)
                return [(b, cnd)]
            g = e.generators[gi]
            it = self.ev(g.iter, s)
            lit = self.literal_items(it)
            outs = []
            if lit is not None and len(lit) <= 64:
                for x in lit:
                    s2 = s.copy()
                    self.assign(g.target, x, s2)
                    c2 = cnd
                    ok = True
                    for t in g.ifs:
                        tc = self.cond(t, s2)
                        if tc.op == 'const' and not tc.args[0]:
                            ok = False
                            break
                        s2.path = self.addpath(s2.path, tc)
                        c2 = conj(c2, tc)
                    if ok:
                        outs.extend(rec(gi + 1, s2, c2))
                return outs
            L = Loop('C', Site(self.callstack[-1], e))
            L.iter = it
            depth = len(self.loopstack)
            self.loopstack.append(L)
            try:
                s2 = s.copy()
                elem, iv = self.iter_elem(it, depth, s2, L)
                L.ivar = iv
                self.assign(g.target, elem, s2)
                c2 = TRUE
                for t in g.ifs:
                    tc = self.cond(t, s2)
                    s2.path = self.addpath(s2.path, tc)
                    c2 = conj(c2, tc)
                inner = rec(gi + 1, s2, c2)
            finally:
                self.loopstack.pop()
            if len(inner) == 1 and inner[0][0].op != 'star':
                return [(mk('star', mk('lmap', iv, inner[0][0], inner[0][1])), cnd)]
            return [(mk('star', mk('lmap', iv, mk('list', *[b for b, _ in inner]), c2)), cnd)]
        s = st.copy()
        s.frames.append(dict(s.frames[-1]))
        res = rec(0, s, TRUE)
        aid = self.allocid(e)
        if len(res) == 1 and res[0][0].op == 'star' and res[0][0].args[0].op == 'lmap':
            lm = res[0][0].args[0]
            return mk('alloc', aid, lm) if kind == 'list' else mk('alloc', aid, lm) if kind == 'gen' else \
                mk('alloc', aid, mk(kind + 'comp', lm))
        if kind == 'dict':
            kv = []
            for b, c in res:
                if b.op != 'tuple':
                    return mk('alloc', aid, mk('dictcomp', mk('list', *[b for b, _ in res])))
                kv.append((b.args[0], b.args[1] if is_const(c, True) else mk('cond', c, b.args[1])))
            return mk('alloc', aid, mk('dict', tuple(kv)))
        xs = []
        for b, c in res:
            xs.append(b if is_const(c, True) else mk('cond', c, b))
        if any(x.op == 'cond' for x in xs):
            return mk('alloc', aid, mk('condlist', *xs))
        return mk('alloc', aid, mk('set' if kind == 'set' else 'list', *xs))

    # -- calls -------------------------------------------------------------------
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.do_super(e, st)
        fn = self.ev(e.func, st)
        args, kws = self.args(e, st)
        return self.call(fn, args, kws, st, e)

    def do_super(self, e, st):
        fn = self.callstack[-1]
        while fn.cls is None and fn.parent is not None:
            fn = fn.parent
        env = st.frames[-1]
        first = fn.params()[0]
        recv = env.get(first[0]) if first else None
        if e.args:
            c = self.ev(e.args[0], st)
            if len(e.args) > 1:
                recv = self.ev(e.args[1], st)
            if c.op != 'cls':
                return mk('unk', 'super')
            if recv is None:
                return mk('unk', 'super')
            rt = self.typeof(recv) if recv.op != 'cls' else self._clsof(recv.args[0])
            if rt is not None and self._clsof(c.args[0]) not in self.p.mro(rt):
                self.emit('badsuper', c, recv, st, e)
            return mk('super', c.args[0], recv)
        if fn.cls is None or recv is None:
            return mk('unk', 'super')
        return mk('super', fn.cls.fq, recv)

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                it = self.literal_items(v)
                if it is not None:
                    args.extend(it)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, st))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.dictof(v)
                if d is not None and all(kk.op == 'const' for kk, _ in d):
                    for kk, vv in d:
                        kws[kk.args[0]] = vv
                else:
                    kws['**'] = v
            else:
                kws[k.arg] = v
        return args, kws

    def call(self, fn, args, kws, st, node):
        if self.call_hook is not None:
            r = self.call_hook(self, fn, args, kws, st, node)
            if r is not None:
                return r
        if fn.op == 'phi':
            alts = []
            c = fn.args[0]
            a, b = fn.args[1], fn.args[2]
            cal = ('func', 'bound', 'clo', 'cls', 'ext')
            if a.op in cal or b.op in cal or a.op == 'phi' or b.op == 'phi':
                sa, sb = st.copy(), st.copy()
                sa.path = self.addpath(st.path, c)
                sb.path = self.addpath(st.path, neg(c))
                va = self.call(a, args, kws, sa, node) if a.op != 'const' else NONE
                vb = self.call(b, args, kws, sb, node) if b.op != 'const' else NONE
                j = self.join(c, sa, sb)
                st.frames[:] = j.frames
                st.heap.clear()
                st.heap.update(j.heap)
                return phi(c, va, vb)
        if fn.op == 'bound':
            f = self.closures[fn.args[0]][0]
            recv = fn.args[1]
            rc = self.typeof(recv) if recv.op != 'cls' else self._clsof(recv.args[0])
            return self.callfunc(f, [recv] + args, kws, st, node, recv_cls=rc)
        if fn.op == 'func':
            f = self.closures[fn][0]
            return self.callfunc(f, args, kws, st, node)
        if fn.op == 'clo':
            f, env, fi = self.closures[fn]
            live = None
            return self.callfunc(f, args, kws, st, node, closure=env)
        if fn.op == 'cls':
            return self.construct(fn, args, kws, st, node)
        if fn.op == 'ext':
            return self.callext(fn.args[0], args, kws, st, node)
        if fn.op == 'attr':
            return self.callmethod(fn.args[0], fn.args[1], args, kws, st, node)
        t = self.typeof(fn)
        if t is not None:
            f = self.p.find_method(t, '__call__')
            if f is not None:
                return self.callfunc(f, [fn] + args, kws, st, node, recv_cls=t)
        return self.opaque(fn, args, kws, st, node)

    def opaque(self, fn, args, kws, st, node, impure=True):
        self.emit('call', fn, tup(*args), st, node, kws)
        k = tuple(sorted(kws.items(), key=lambda t: t[0]))
        if impure:
            return mk('icall', fn, tuple(args), k, self.allocid(node, '#%d' % self.seq))
        return mk('call', fn, tuple(args), k)

    def construct(self, cn, args, kws, st, node):
        c = self._clsof(cn.args[0])
        if self.p.find_method(c, '__init__') is None:
            n = mk('new', c.fq, self.allocid(node, '#%d' % self._uid()))
            self.emit('new', n, tup(*args), st, node, kws)
            return n
        n = mk('new', c.fq, self.allocid(node, '#%d' % self._uid()))
        ini = self.p.find_method(c, '__init__')
        b = self.bind(ini, [n] + args, kws, st, node)
        self.emit('new', n, tup(*args), st, node, dict(kws, **{'%bound': b}))
        self.callfunc(ini, [n] + args, kws, st, node, recv_cls=c)
        return n

    def bind(self, f, args, kws, st, node):
        """map call arguments to parameter names; None when it cannot"""
        pos, va, kwo, kw = f.params()
        a = f.node.args
        env = {}
        rest = []
        star = None
        i = 0
        for x in args:
            if x.op == 'star':
                star = x
                break
            if i < len(pos):
                env[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        if star is not None:
            for j in range(i, len(pos)):
                if pos[j] not in kws:
                    env[pos[j]] = mk('sub', star.args[0], const(j - i))
        if rest and not va:
            self.emit('arity', const(f.fq), const('too many positional arguments'), st, node)
        extra = []
        skw = None
        for k, v in kws.items():
            if k == '**':
                skw = v
                continue
            if k in pos or k in kwo:
                if k in env and star is None:
                    self.emit('arity', const(f.fq), const('multiple values for %s' % k), st, node)
                env[k] = v
            else:
                extra.append((const(k), v))
                if not kw:
                    self.emit('arity', const(f.fq), const('unexpected keyword %s' % k), st, node)
        dpos = pos[len(pos) - len(a.defaults):] if a.defaults else []
        for nme, d in zip(dpos, a.defaults):
            if nme not in env:
                env[nme] = self.kwget(skw, nme, self.default(f, d, nme))
        for nme, d in zip(kwo, a.kw_defaults):
            if nme not in env and d is not None:
                env[nme] = self.kwget(skw, nme, self.default(f, d, nme))
        for nme in pos + kwo:
            if nme not in env:
                if skw is not None:
                    env[nme] = mk('sub', skw, const(nme))
                else:
                    if star is None:
                        self.emit('arity', const(f.fq), const('missing argument %s' % nme), st, node)
                    env[nme] = mk('unk', 'missingarg')
        if va:
            env[va] = tup(*rest) if star is None else mk('unk', 'varargs')
        if kw:
            kv = list(extra)
            if skw is not None:
                env[kw] = skw if not kv else mk('alloc', self.allocid(node), mk('dict', tuple(kv + [(mk('star'), skw)])))
            else:
                env[kw] = mk('alloc', self.allocid(node, 'kw'), mk('dict', tuple(kv)))
        return env

    def kwget(self, skw, name, default):
        if skw is None:
            return default
        return mk('kwget', skw, name, default)

    def default(self, f, d, nme):
        if isinstance(d, ast.Constant):
            return const(d.value)
        self.callstack.append(f)
        try:
            if isinstance(d, (ast.List, ast.Dict)):
                return mk('alloc', 'default:%s:%s' % (f.fq, nme), self.ev(d, State([{}], {}, ())).args[1])
            return self.ev(d, State([{}], {}, ()))
        except (Budget, RecursionError):
            raise
        except Exception:
            return mk('unk', 'default')
        finally:
            self.callstack.pop()

    def callfunc(self, f, args, kws, st, node, recv_cls=None, closure=None):
        if f.kind in ('static',) and recv_cls is not None and args and (args[0].op in ('cls',) or self.typeof(args[0]) is recv_cls) \
                and len(args) > 0 and args[0] is not None and f.cls is not None and getattr(self, '_strip', False):
            args = args[1:]
        if f.kind == 'classmethod' and (not args or not (args[0].op == 'cls')):
            if recv_cls is not None and args and self.typeof(args[0]) is not None:
                args = [mk('cls', recv_cls.fq)] + args[1:]
        env = self.bind(f, args, kws, st, node)
        pos = f.params()[0]
        shown = [env.get(p) for p in pos]
        self.emit('invoke', mk('func', f.fq), tup(*[x for x in shown if x is not None]), st, node, env)
        if self.opaque_hook is not None:
            r = self.opaque_hook(self, f, env, st, node)
            if r is not None:
                return r
        if f.fq in self.noinline or f in self.callstack or self.deep() or \
                (f.abstract and (recv_cls is None or self.p.find_method(recv_cls, f.name) is f)):
            if f in self.callstack or self.deep():
                self.gap('not inlined ' + f.fq, node)
            n = mk('func', f.fq)
            self.closures.setdefault(n, (f, None, None))
            k = tuple((p, env[p]) for p in list(pos) + f.params()[2] if p in env)
            if f.params()[3] and f.params()[3] in env:
                k += (('**', env[f.params()[3]]),)
            return mk('call', n, (), k)
        recvs = args[:1]
        val, st2 = self._exec_func(f, env, st, closure, node)
        st.frames[:] = st2.frames
        st.heap.clear()
        st.heap.update(st2.heap)
        return val

    def deep(self):
        """calls nested too far to follow; private steps do not count"""
        n = len(self.callstack)
        if n <= self.maxdepth:
            return False
        return n > self.maxdepth * 3 // 2 or sum(1 for f in self.callstack if not f.name.startswith('_') or f.name.startswith('__')) > self.maxdepth

    def _isarrayish(self, o):
        return o.op not in ('icall_',)

    def callmethod(self, o, name, args, kws, st, node):
        if o.op == 'super':
            # unresolved super() member (object or external base)
            if name == '__init__':
                return NONE
            return self.opaque(mk('attr', o, name), args, kws, st, node)
        if o.op == 'phi' and not (name in MUTMETHODS):
            a, b = o.args[1], o.args[2]
            if is_const(a, None):
                return self.callmethod_(b, name, args, kws, st, node)
            if is_const(b, None):
                return self.callmethod_(a, name, args, kws, st, node)
        return self.callmethod_(o, name, args, kws, st, node)

    def callmethod_(self, o, name, args, kws, st, node):
        d = self.dictof(o)
        if name in ('get',) and d is not None and args and args[0].op == 'const':
            for k, v in d:
                if k is args[0]:
                    return v
            if not any(k.op == 'star' for k, _ in d):
                return args[1] if len(args) > 1 else NONE
        if name == 'copy' and not args and not kws:
            if self.typeof(o) is not None:
                return self.objcopy(o, st, node)
            if o.op == 'alloc' and o.args[1].op in ('dict', 'list', 'set'):
                return mk('alloc', self.allocid(node, 'cp'), o.args[1])
            return mk('alloc', self.allocid(node, 'cp'), mk('call', ext('numpy.copy'), (o,), ()))
        if d is not None and name in ('items', 'keys', 'values') and not args:
            return mk('icall', mk('attr', o, name), (), (), '')
        if name in ('items', 'keys', 'values', 'iteritems', 'iterkeys') and not args:
            return mk('icall', mk('attr', o, name), (), (), '')
        if name == 'format' and o.op in ('const', 'fmt', 'bin'):
            it = [(k, v) for k, v in sorted(kws.items())]
            if o.op == 'const' and isinstance(o.args[0], str):
                fm = self.strformat(o.args[0], args, kws)
                if fm is not None:
                    return fm
            return mk('fmt', o, *args)
        if name == 'join' and o.op == 'const':
            return mk('call', ext('str.join'), (o,) + tuple(args), ())
        if name in ('startswith', 'endswith', 'split', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'find', 'rfind',
                    'decode', 'encode', 'zfill', 'isdigit', 'rsplit', 'splitlines', 'partition_', 'count', 'index', 'isin', 'isnull',
                    'groupby_') and not (name == 'index' and False):
            if o.op == 'const' and all(a.op == 'const' for a in args) and not kws:
                try:
                    r = getattr(o.args[0], name)(*[a.args[0] for a in args])
                    if isinstance(r, (str, bool, int)):
                        return const(r)
                except Exception:
                    pass
            return mk('call', mk('attr', o, name), tuple(args), tuple(sorted(kws.items(), key=lambda t: t[0])))
        if name in MUTMETHODS and not (name in ('sort', 'add', 'update') and False):
            return self.mutmethod(o, name, args, kws, st, node)
        if is_const(kws.get('inplace', FALSE), True):
            self.emit('mutate', o, tup(*args), st, node, (name,))
            k = tuple(sorted(((a, b) for a, b in kws.items() if a != 'inplace'), key=lambda t: t[0]))
            self.replace_holders(o, mk('call', mk('attr', o, name), tuple(args), k), st)
            return NONE
        if name in NDMETHODS:
            if name == 'reshape' and len(args) > 1:
                args = [tup(*args)]
            if name == 'transpose':
                if not args:
                    return self.transpose(o)
                if len(args) > 1:
                    args = [tup(*args)]
            return self.callext('numpy.' + name, [o] + args, kws, st, node, method=True)
        if name in ('permutation', 'shuffle', 'randint', 'randn', 'rand', 'choice', 'uniform', 'normal', 'random_sample',
                    'multivariate_normal', 'random', 'standard_normal', 'integers', 'binomial', 'multinomial', 'poisson', 'gamma', 'dirichlet'):
            self.emit('rng', o, tup(*args), st, node, (name, kws))
            if name == 'shuffle' and args:
                self.emit('mutate', args[0], None, st, node, ('shuffle',))
                self.replace_holders(args[0], mk('shuffled', args[0], o, self._uid()), st)
                return NONE
            return mk('rnd', name, o, tuple(args), tuple(sorted(kws.items(), key=lambda t: t[0])), self._uid())
        return self.opaque(mk('attr', o, name), args, kws, st, node)

    def objcopy(self, o, st, node, deep=False):
        n = mk('objcopy', self.allocid(node, '#%d' % self._uid()), o)
        for (ob, k), v in list(st.heap.items()):
            if ob is o:
                st.heap[(n, k)] = v if not deep else mk('alloc', self.allocid(node, 'dc' + k), mk('call', ext('copy.deepcopy'), (v,), ()))
        if deep:
            st.heap[(n, '%deep')] = TRUE
        return n

    def strformat(self, s, args, kws):
        import string
        out = []
        ai = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if lit:
                    out.append(const(lit))
                if fld is not None:
                    if fld == '':
                        v = args[ai]
                        ai += 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    elif fld in kws:
                        v = kws[fld]
                    else:
                        return None
                    out.append(v if not spec else mk('fspec', spec, v))
        except Exception:
            return None
        if all(x.op == 'const' and isinstance(x.args[0], str) for x in out):
            return const(''.join(x.args[0] for x in out))
        return mk('fmt', *out)

    def mutmethod(self, o, name, args, kws, st, node):
        self.emit('mutate', o, tup(*args), st, node, (name, kws))
        d = self.dictof(o)
        ret = NONE
        if name == 'append' and args:
            if o.op == 'alloc' and o.args[1].op == 'list' and not any(
                    isinstance(l, Loop) for l in self.loopstack if l.id != 'C' and not self._local_alloc(o, l)):
                new = mk('alloc', o.args[0], mk('list', *(o.args[1].args + (args[0],))))
            else:
                new = mk('append', o, args[0])
        elif name == 'extend' and args:
            it = self.literal_items(args[0])
            if o.op == 'alloc' and o.args[1].op == 'list' and it is not None and not self.loopstack:
                new = mk('alloc', o.args[0], mk('list', *(o.args[1].args + tuple(it))))
            else:
                new = mk('extend', o, args[0])
        elif name == 'update' and d is not None and (args or kws):
            kv = dict()
            order = []
            for k, v in d:
                kv[k] = v
            d2 = self.dictof(args[0]) if args else ()
            if d2 is not None:
                for k, v in list(d2) + [(const(a), b) for a, b in kws.items()]:
                    kv[k] = v
                new = mk('alloc', o.args[0], mk('dict', tuple(kv.items())))
            else:
                new = mk('alloc', o.args[0], mk('dict', tuple(kv.items()) + ((mk('star'), args[0]),)))
        elif name == 'sort':
            new = mk('alloc', o.args[0], mk('call', ext('numpy.sort'), (o,), tuple(sorted(kws.items())))) if o.op == 'alloc' else \
                mk('inplace', 'sort', o)
        elif name == 'setdefault' and args:
            new = mk('inplace', name, o, *args)
            ret = mk('sub', new, args[0])
        elif name == 'pop':
            ret = mk('popped', o, tuple(args), self._uid())
            if d is not None and args and args[0].op == 'const':
                for k, v in d:
                    if k is args[0]:
                        ret = v
                new = mk('alloc', o.args[0], mk('dict', tuple(t for t in d if t[0] is not args[0])))
            else:
                new = mk('inplace', 'pop', o, *args)
        else:
            new = mk('inplace', name, o, *args)
        self.replace_holders(o, new, st)
        return ret

    def _local_alloc(self, o, L):
        """was the list allocated inside the body of loop L?"""
        s = L.site.node
        try:
            ln = int(o.args[0].split(':')[1])
            return s.lineno <= ln <= s.end_lineno and o.args[0].split(':')[0].endswith(L.site.func.qual)
        except Exception:
            return False

    def callext(self, nm, args, kws, st, node, method=False):
        r = self._callext(nm, args, kws, st, node, method)
        if nm in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
            self.emit('empty', ext(nm), r, st, node)
        return r

    def _callext(self, nm, args, kws, st, node, method=False):
        # ---- builtins
        if nm.startswith('builtins.'):
            b = nm[9:]
            r = self.builtin(b, args, kws, st, node)
            if r is not None:
                return r
            if b in ('open', 'input', 'next', 'print'):
                return self.opaque(ext(nm), args, kws, st, node)
            return mk('call', ext(nm), tuple(args), tuple(sorted(kws.items(), key=lambda t: t[0])))
        if nm in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
            if self.typeof(args[0]) is not None:
                return self.objcopy(args[0], st, node, deep=nm.endswith('deepcopy'))
            if args[0].op == 'alloc':
                return mk('alloc', self.allocid(node, 'cp'), args[0].args[1])
            return mk('alloc', self.allocid(node, 'cp'), mk('call', ext('numpy.copy' if nm == 'copy.copy' else nm), tuple(args), ()))
        short = None
        if nm.startswith('numpy.') and nm.count('.') == 1:
            short = nm[6:]
            short = ALIASFN.get(short, short) or short
            nm = 'numpy.' + short
        # in-place effects
        if nm in MUTFN and len(args) > MUTFN[nm]:
            o = args[MUTFN[nm]]
            self.emit('mutate', o, tup(*args[1:]), st, node, (nm,))
            if 'shuffle' in nm:
                self.emit('rng', ext('numpy.random'), tup(*args), st, node, (nm, kws))
                self.replace_holders(o, mk('shuffled', o, ext('numpy.random'), self._uid()), st)
            else:
                self.replace_holders(o, mk('inplace', nm, *args), st)
            return NONE
        out = kws.get('out')
        for k in ('overwrite_a', 'overwrite_b', 'overwrite_x', 'overwrite_ab'):
            if k in kws and is_const(kws[k], True):
                j = 1 if k == 'overwrite_b' else 0
                if len(args) > j:
                    self.emit('mutate', args[j], None, st, node, (nm + ':' + k,))
        if nm == 'numpy.nan_to_num' and is_const(kws.get('copy', TRUE), False) and args:
            self.emit('mutate', args[0], None, st, node, (nm,))
        if nm.startswith('numpy.random.') or nm.startswith('random.'):
            self.emit('rng', ext(nm.rsplit('.', 1)[0]), tup(*args), st, node, (nm.rsplit('.', 1)[1], kws))
            k = tuple(sorted(kws.items(), key=lambda t: t[0]))
            if nm in ('numpy.random.RandomState', 'numpy.random.default_rng'):
                return mk('call', ext(nm), tuple(args), k)
            return mk('rnd', nm.rsplit('.', 1)[1], ext(nm.rsplit('.', 1)[0]), tuple(args), k, self._uid())
        if short is not None:
            if short in BINUF and len(args) >= 2:
                r = self.binop(BINUF[short], args[0], args[1])
                o = kws.get('out') or (args[2] if len(args) > 2 else None)
                if o is not None:
                    self.emit('mutate', o, r, st, node, (nm + ':out',))
                    self.replace_holders(o, mk('store', o, mk('slice', NONE, NONE, NONE), r), st)
                return r
            if short in CMPUF and len(args) == 2:
                return self.compare(CMPUF[short], args[0], args[1], st)
            if short == 'logical_not' and len(args) == 1:
                return mk('un', '~', args[0]) if args[0].op != 'un' or args[0].args[0] != '~' else args[0].args[1]
            if short == 'negative' and len(args) == 1 and not kws:
                return mk('un', '-', args[0])
            if short == 'transpose' and len(args) == 1 and not kws:
                return self.transpose(args[0])
            if short == 'shape' and len(args) == 1:
                return mk('shape', args[0])
            if short == 'ndim' and len(args) == 1:
                return mk('ndim', args[0])
            if short == 'size' and len(args) == 1:
                return mk('size', args[0])
            if short == 'square' and len(args) == 1 and not kws:
                return self.binop('**', args[0], const(2))
            sig = SIG.get(short)
            if sig is not None:
                keep = KEEP_POS.get(short, 1)
                kws = dict(kws)
                for i in range(keep, len(args)):
                    if i < len(sig):
                        kws.setdefault(sig[i], args[i])
                args = list(args[:keep])
                for i in range(len(args), min(keep, len(sig))):
                    if sig[i] in kws:
                        args.append(kws.pop(sig[i]))
                    else:
                        break
            if out is None and kws.get('out') is not None:
                out = kws['out']
        k = tuple(sorted(((a, b) for a, b in kws.items() if a != 'out'), key=lambda t: t[0]))
        if short == 'vstack':
            nm, k = 'numpy.concatenate', (('axis', const(0)), ('rows', TRUE))
        if short == 'concatenate':
            k = tuple(t for t in k)
        impure = any(nm.startswith(x) for x in IMPURE_EXT) or not (
            nm.startswith('numpy') or nm.startswith('scipy') or nm.startswith('os.path') or nm.startswith('math') or
            nm.startswith('itertools') or nm.startswith('functools') or nm.startswith('sklearn') or nm.startswith('str.') or
            nm.startswith('re.') or nm.startswith('struct.') or nm.startswith('copy.') or nm.startswith('collections') or
            nm.startswith('pandas.') or nm.startswith('json.'))
        if nm.startswith('os.path'):
            impure = False
        if impure:
            self.emit('call', ext(nm), tup(*args), st, node, kws)
            return mk('icall', ext(nm), tuple(args), k, self.allocid(node, '#%d' % self.seq))
        self.emit('call', ext(nm), tup(*args), st, node, kws)
        r = mk('call', ext(nm), tuple(args), k)
        if short in ALLOCFN:
            if not (short == 'array' and is_const(kws.get('copy', TRUE), False)):
                r = mk('alloc', self.allocid(node), r)
        if out is not None and not is_const(out, None):
            self.emit('mutate', out, r, st, node, (nm + ':out',))
            new = mk('store', out, mk('slice', NONE, NONE, NONE), r)
            self.replace_holders(out, new, st)
            return new
        return r

    def builtin(self, b, args, kws, st, node):
        if b == 'len' and len(args) == 1:
            t = self.typeof(args[0])
            if t is not None:
                f = self.p.find_method(t, '__len__')
                if f is not None:
                    return self.callfunc(f, args, {}, st, node, recv_cls=t)
            return self.dim(args[0], 0)
        if b == 'range' or b == 'xrange':
            a = args
            if len(a) == 2 and is_const(a[0], 0):
                a = a[1:]
            if len(a) == 3 and is_const(a[2], 1):
                a = a[:2]
                if is_const(a[0], 0):
                    a = a[1:]
            return mk('call', ext('builtins.range'), tuple(a), ())
        if b == 'isinstance' and len(args) == 2:
            r = self.isinst(args[0], args[1], st)
            if r is not None:
                return const(r)
            return self.simplify_cond(mk('cmp', 'isinstance', args[0], args[1]), st)
        if b in ('int', 'float', 'bool', 'str') and len(args) == 1 and args[0].op == 'const':
            try:
                return const({'int': int, 'float': float, 'bool': bool, 'str': str}[b](args[0].args[0]))
            except Exception:
                return None
        if b == 'getattr' and len(args) >= 2 and args[1].op == 'const':
            return self.getattr(args[0], args[1].args[0], st, node)
        if b == 'setattr' and len(args) == 3 and args[1].op == 'const':
            self.setattr(args[0], args[1].args[0], args[2], st, node)
            return NONE
        if b == 'dict':
            if not args:
                kv = tuple((const(k), v) for k, v in kws.items() if k != '**')
                if '**' in kws:
                    kv += ((mk('star'), kws['**']),)
                return mk('alloc', self.allocid(node), mk('dict', kv))
            if len(args) == 1 and not kws:
                d = self.dictof(args[0])
                if d is not None:
                    return mk('alloc', self.allocid(node), mk('dict', d))
                a = args[0]
                c = a.args[1] if a.op == 'alloc' else a
                if c.op in ('list', 'condlist') or c.op == 'tuple':
                    kv = []
                    for x in c.args:
                        cnd = None
                        if x.op == 'cond':
                            cnd, x = x.args
                        if x.op != 'tuple' or len(x.args) != 2:
                            return None
                        kv = [t for t in kv if t[0] is not x.args[0]] + [
                            (x.args[0], x.args[1] if cnd is None else mk('cond', cnd, x.args[1]))]
                    return mk('alloc', self.allocid(node), mk('dict', tuple(kv)))
                if c.op == 'lmap':
                    return mk('alloc', self.allocid(node), mk('dictcomp', c))
        if b in ('list', 'tuple', 'set') and not args:
            if b == 'tuple':
                return tup()
            return mk('alloc', self.allocid(node), mk(b))
        if b in ('list', 'tuple') and len(args) == 1:
            it = self.literal_items(args[0])
            if it is not None and not any(x.op in ('star', 'cond') for x in it):
                return tup(*it) if b == 'tuple' else mk('alloc', self.allocid(node), mk('list', *it))
            if args[0].op == 'alloc' and args[0].args[1].op == 'lmap':
                return mk('alloc', self.allocid(node), args[0].args[1])
            if b == 'list' and callname(args[0]) == 'builtins.map' and len(args[0].args[1]) == 2:
                return None
            return mk('alloc', self.allocid(node), mk('call', ext('builtins.' + b), tuple(args), ()))
        if b == 'map' and len(args) == 2:
            it = self.literal_items(args[1])
            if it is not None:
                return mk('alloc', self.allocid(node), mk('list', *[self.call(args[0], [x], {}, st, node) for x in it]))
            depth = len(self.loopstack)
            L = Loop('C', Site(self.callstack[-1], node))
            L.iter = args[1]
            self.loopstack.append(L)
            try:
                e, iv = self.iter_elem(args[1], depth, st, L)
                L.ivar = iv
                body = self.call(args[0], [e], {}, st, node)
            finally:
                self.loopstack.pop()
            return mk('alloc', self.allocid(node), mk('lmap', iv, body, TRUE))
        if b == 'type' and len(args) == 1:
            t = self.typeof(args[0])
            if t is not None:
                return mk('cls', t.fq)
        if b == 'vars' and len(args) == 1:
            return mk('attr', args[0], '__dict__')
        if b == 'locals':
            f = st.frames[-1]
            return mk('alloc', self.allocid(node), mk('dict', tuple((const(k), v) for k, v in f.items()
                                                                     if k != '%closure' and isinstance(v, N))))
        if b == 'abs' and len(args) == 1:
            return mk('call', ext('numpy.abs'), tuple(args), ())
        if b in ('sum', 'max', 'min', 'any', 'all', 'round') and len(args) == 1 and not kws:
            return mk('call', ext('builtins.' + b), tuple(args), ())
        if b == 'slice':
            a = list(args) + [NONE] * 3
            if len(args) == 1:
                return mk('slice', NONE, args[0], NONE)
            lo = NONE if is_const(a[0], 0) else a[0]
            return mk('slice', lo, a[1], a[2])
        if b == 'hasattr' and len(args) == 2 and args[1].op == 'const':
            t = self.typeof(args[0])
            if t is not None and self.p.find_method(t, args[1].args[0]):
                return TRUE
            if (args[0], args[1].args[0]) in st.heap:
                return TRUE
        return None

    def isinst(self, v, t, st):
        ts = t.args if t.op == 'tuple' else (t,)
        res = []
        for x in ts:
            res.append(self.isinst1(v, x, st))
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return None

    def isinst1(self, v, t, st):
        if v.op == 'phi':
            a, b = self.isinst1(v.args[1], t, st), self.isinst1(v.args[2], t, st)
            return a if a == b else None
        vt = self.typeof(v)
        if t.op == 'cls':
            if vt is not None:
                c = self._clsof(t.args[0])
                if c in self.p.mro(vt):
                    return True
                if v.op == 'new':
                    return False
                return None
            if v.op in ('const', 'alloc', 'tuple', 'bin'):
                return False
            return None
        if t.op != 'ext':
            return None
        n = t.args[0]
        if n == 'numpy.ndarray' and v.op == 'T':
            # transposing keeps the type
            r = self.isinst1(v.args[0], t, st)
            if r is not None:
                return r
            c = self.simplify_cond(mk('cmp', 'isinstance', v.args[0], t), st)
            if c.op == 'const':
                return c.args[0]
        if v.op == 'const':
            x = v.args[0]
            m = {'builtins.int': int, 'builtins.float': float, 'builtins.str': str, 'builtins.list': list,
                 'builtins.tuple': tuple, 'builtins.dict': dict, 'builtins.bool': bool, 'six.string_types': str,
                 'builtins.basestring': str}
            if n in m:
                return isinstance(x, m[n])
            return False
        if v.op == 'alloc':
            k = v.args[1].op
            if k in ('list', 'lmap', 'condlist'):
                return n == 'builtins.list'
            if k in ('dict', 'dictcomp'):
                return n == 'builtins.dict'
            if k == 'call':
                if n == 'numpy.ndarray':
                    return bool(callname(v.args[1]) and callname(v.args[1]).startswith('numpy.'))
                return False
        if v.op == 'tuple':
            return n == 'builtins.tuple'
        if vt is not None and n in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.int', 'numpy.ndarray', 'builtins.float'):
            return False
        return None

    def immutable(self, n):
        """value certainly of an immutable type (scalar, string, tuple)"""
        if n.op in ('const', 'dim', 'tuple', 'fmt', 'cmp', 'ivar', 'size', 'ndim', 'shape'):
            return True
        if n.op == 'bin':
            return self.immutable(n.args[1]) and self.immutable(n.args[2])
        if n.op == 'phi':
            return self.immutable(n.args[1]) and self.immutable(n.args[2])
        if n.op == 'lphi':
            L = self.loops.get(n.args[0])
            # decided from the value on entry (filled in later rounds)
            e = getattr(L, 'entry0', {}).get(n)
            return False
        if n.op == 'call' and callname(n) in ('builtins.int', 'builtins.float', 'builtins.str', 'builtins.len', 'builtins.max',
                                              'builtins.min', 'builtins.sum', 'os.path.join'):
            return True
        return False


class Run(object):
    pass


DEBUG = False
