"""signatures of library functions, read from the sources and stubs of the installed libraries"""
import ast
import os

FORWARD = {'overload', 'array_function_dispatch', 'Substitution', 'Appender', '_copy_docstring_and_deprecators', '_docstring.dedent_interpd', 'set_module', 'deprecate_nonkeyword_arguments',
           '_deprecate_positional_args', 'staticmethod', 'lru_cache', 'functools.lru_cache', 'functools.wraps'}


def find_site():
    for r in ('/opt/venv/lib', '/usr/lib/python3', '/usr/local/lib'):
        if os.path.isdir(r):
            for d in sorted(os.listdir(r)):
                x = os.path.join(r, d, 'site-packages')
                if os.path.isdir(os.path.join(x, 'numpy')):
                    return x
    return None


class Library(object):
    """functions of the libraries by dotted name"""

    def __init__(self):
        self.roots = [x for x in (find_site(), os.path.dirname(os.__file__)) if x]
        self.memo = {}

    def tree(self, path):
        if path not in self.memo:
            try:
                with open(path, encoding='utf-8') as f:
                    self.memo[path] = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                self.memo[path] = None
        return self.memo[path]

    def file(self, name, stub=False):
        e = '.pyi' if stub else '.py'
        for r in self.roots:
            b = os.path.join(r, *name.split('.'))
            for x in (b + e, b + '/__init__' + e):
                if os.path.isfile(x):
                    return x
        return None

    def find(self, mod, name, stub=False, depth=0):
        """the definitions (alternatives, for a stub) of a function, or the constructor of a class; None when unclear"""
        f = self.file(mod, stub) if depth <= 8 else None
        t = self.tree(f) if f else None
        if t is None:
            return None
        hits = []

        def scan(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                    hits.append(n)
                elif isinstance(n, ast.ImportFrom):
                    hits.extend((n, a) for a in n.names if (a.asname or a.name) == name)
                elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                    hits.append(None)
                elif isinstance(n, (ast.If, ast.Try)):
                    for b in [n.body, n.orelse, getattr(n, 'finalbody', [])] + [h.body for h in getattr(n, 'handlers', [])]:
                        scan(b)
        scan(t.body)
        pk = mod if os.path.basename(f).startswith('__init__.') else mod.rpartition('.')[0]

        def absolute(n):
            if not n.level:
                return n.module
            b = pk
            for _ in range(n.level - 1):
                b = b.rpartition('.')[0]
            return b + ('.' + n.module if n.module else '')
        if not hits:
            for n in t.body:
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    r = self.find(absolute(n), name, stub, depth + 1)
                    if r:
                        return r
            return None
        if None in hits:
            return None
        if all(isinstance(h, ast.FunctionDef) for h in hits):
            return hits if len(hits) == 1 or stub else None
        if len(hits) == 1 and isinstance(hits[0], ast.ClassDef):
            ms = {x.name: x for x in hits[0].body if isinstance(x, ast.FunctionDef)}
            return [ms['__init__']] if '__init__' in ms and '__new__' not in ms and not hits[0].keywords else None
        if len(hits) == 1:
            return self.find(absolute(hits[0][0]), hits[0][1].name, stub, depth + 1)
        return None

    def defs(self, dotted):
        mod, _, name = dotted.rpartition('.')
        if not mod or not self.file(mod):
            return None
        d = self.find(mod, name)
        if not d and dotted.startswith('numpy.'):
            d = self.find(mod, name, stub=True)
        for f in d or ():
            for x in f.decorator_list:
                if ast.unparse(x).split('(')[0] not in FORWARD:
                    return None
        return d


def binds(fd, call):
    """'' or what is wrong with the call of the function; None when its arguments are not written out"""
    a = fd.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    free = fd.name == '__init__'
    if free:
        pos = pos[1:]
    only = {x.arg for x in a.posonlyargs}
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    kwonly = [x.arg for x in a.kwonlyargs]
    if any('positional' in ast.unparse(x) for x in fd.decorator_list):
        # positional use of these is deprecated, not refused
        pos = pos + kwonly
        kwonly = []
    if len(call.args) > len(pos) and not a.vararg:
        return 'takes %d positional arguments, given %d' % (len(pos), len(call.args))
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return 'argument %s is given twice' % k.arg
        if (k.arg not in pos or k.arg in only) and k.arg not in kwonly and not a.kwarg:
            return 'has no argument %s' % k.arg
        given.add(k.arg)
    names = [x.arg for x in a.posonlyargs + a.args][1 if free else 0:]
    for r in names[:len(names) - len(a.defaults)]:
        if r not in given:
            return 'argument %s is missing' % r
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return 'argument %s is missing' % x.arg
    return ''
