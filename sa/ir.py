"""Value graph: hash-consed terms in gated-SSA style.  Every expression of the
analysed program becomes a node; joins are `phi`, loop-carried values `lphi`."""


class N(object):
    __slots__ = ('op', 'args', 'uid')
    _tab = {}
    _cnt = [0]

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args):
    key = (op,) + tuple((a if isinstance(a, N) else (type(a).__name__, a)) for a in args)
    n = N._tab.get(key)
    if n is None:
        n = N()
        n.op, n.args = op, args
        N._cnt[0] += 1
        n.uid = N._cnt[0]
        N._tab[key] = n
    return n


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(n, v=Ellipsis):
    if not isinstance(n, N) or n.op != 'const':
        return False
    if v is Ellipsis:
        return True
    return n.args[0] is v or (type(n.args[0]) is type(v) and n.args[0] == v)


def ext(name):
    return mk('ext', name)


def tup(*xs):
    return mk('tuple', *xs)


def children(n):
    for a in n.args:
        if isinstance(a, N):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, N):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, N):
                            yield c


def walk(n, seen=None):
    """All distinct nodes reachable through arguments."""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        st.extend(children(x))


def rebuild(n, f):
    def g(a):
        if isinstance(a, N):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(b) for b in a)
        return a
    return mk(n.op, *[g(a) for a in n.args])


def subst(n, mapping, memo=None):
    memo = {} if memo is None else memo

    def f(x):
        if x in mapping:
            return mapping[x]
        if x.uid in memo:
            return memo[x.uid]
        memo[x.uid] = x
        r = rebuild(x, f) if any(True for _ in children(x)) else x
        memo[x.uid] = r
        return r
    return f(n)


N.__hash__ = lambda s: s.uid
N.__eq__ = lambda a, b: a is b


def callname(n):
    """dotted name of the external function called by node n, or None"""
    if isinstance(n, N) and n.op == 'call' and n.args[0].op == 'ext':
        return n.args[0].args[0]
    return None


def kwof(n, name, default=None):
    for k, v in n.args[2]:
        if k == name:
            return v
    return default


def show(n, d=7):
    if not isinstance(n, N):
        return repr(n)
    if d == 0:
        return '…'
    op, a = n.op, n.args
    s = lambda x: show(x, d - 1)
    if op == 'const':
        return repr(a[0])
    if op == 'param':
        return a[1]
    if op == 'ext':
        return a[0]
    if op == 'attr':
        return s(a[0]) + '.' + a[1]
    if op == 'call':
        fs = s(a[0])
        ps = [s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]
        return '%s(%s)' % (fs.replace('numpy.', 'np.').replace('builtins.', ''), ', '.join(ps))
    if op == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if op == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if op == 'un':
        return '%s%s' % (a[0], s(a[1]))
    if op == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'slice':
        return ':'.join('' if is_const(x, None) else s(x) for x in a[:2])
    if op == 'phi':
        return 'φ(%s ? %s : %s)' % tuple(s(x) for x in a)
    if op == 'tuple':
        return '(%s)' % ', '.join(s(x) for x in a)
    if op == 'list':
        return '[%s]' % ', '.join(s(x) for x in a)
    if op == 'lphi':
        return 'λ%s.%s' % (a[0], a[1])
    if op == 'idx':
        return 'i%s' % a[0]
    if op == 'dim':
        return 'dim(%s,%s)' % (s(a[0]), a[1])
    parts = []
    for x in a:
        if isinstance(x, N):
            parts.append(s(x))
        elif isinstance(x, tuple):
            parts.append('(' + ', '.join(s(y) if isinstance(y, N) else
                                         ('%s:%s' % (s(y[0]), s(y[1])) if isinstance(y, tuple) and len(y) == 2 else str(y))
                                         for y in x) + ')')
        else:
            parts.append(str(x))
    return '%s{%s}' % (op, ', '.join(parts))
