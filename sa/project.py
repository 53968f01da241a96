"""Project loader: parses /repo/hyperion, resolves names through imports and
package re-exports, and computes class hierarchies.  Pure syntax: nothing of
the repository is imported or executed."""
import ast
from .normal import normal
import warnings
import os

REPO = os.environ.get('HYP_REPO', '/repo')
PKG = 'hyperion'


class AnalysisBroken(Exception):
    """An anchor the rules need is gone: the run gives no verdict."""


class Mod(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.imports = {}      # local alias -> dotted target
        self.stars = []        # from X import *
        self.funcs = {}
        self.classes = {}
        self.globals = {}      # name -> value expr (last)
        self.toplevel = set()  # every name bound at module level

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Func(object):
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = 'function'
        self.decos = []
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in node.decorator_list:
                s = ast.unparse(d)
                self.decos.append(s)
                if s == 'staticmethod':
                    self.kind = 'static'
                elif s == 'classmethod':
                    self.kind = 'classmethod'
                elif s in ('property', 'abstractproperty'):
                    self.kind = 'property'
                elif s.endswith('.setter'):
                    self.kind = 'setter'
            if cls is not None and self.kind == 'function':
                self.kind = 'method'

    @property
    def abstract(self):
        return any(d in ('abstractmethod', 'abc.abstractmethod', 'abstractproperty')
                   for d in self.decos)

    @property
    def qual(self):
        q = self.name
        if self.cls is not None:
            q = self.cls.name + '.' + q
        elif self.parent is not None:
            q = self.parent.qual + '.' + q
        return q

    @property
    def fq(self):
        return self.mod.name + ':' + self.qual

    @property
    def lineno(self):
        return self.node.lineno

    def params(self):
        a = self.node.args
        return ([x.arg for x in a.posonlyargs + a.args], a.vararg.arg if a.vararg else None,
                [x.arg for x in a.kwonlyargs], a.kwarg.arg if a.kwarg else None)

    def param_names(self, drop_self=True):
        pos, va, kwo, kw = self.params()
        if drop_self and self.cls is not None and self.kind != 'static' and pos:
            pos = pos[1:]
        return pos + kwo

    def default_of(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg == name:
                return d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def __repr__(self):
        return '<Func %s>' % self.fq


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}       # class-level assignments
        self.base_exprs = node.bases
        self._mro = None

    @property
    def fq(self):
        return self.mod.name + ':' + self.name

    def __repr__(self):
        return '<Cls %s>' % self.fq


class Ext(object):
    """Anything outside the repository, by dotted name."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<Ext %s>' % self.name


class Project(object):
    def __init__(self, repo=None, subdirs=None):
        self.repo = repo or REPO
        self.mods = {}
        self.unparsable = {}
        self._load()

    # -- loading ---------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory %s not found' % root)
        for dp, dn, fn in os.walk(root):
            dn.sort()
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3]
                parts = rel.split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(p, encoding='utf-8', errors='replace') as fh:
                    src = fh.read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = normal(ast.parse(src, p))
                except SyntaxError as e:
                    self.unparsable[os.path.relpath(p, self.repo)] = str(e)
                    continue
                m = Mod(name, p, tree, src)
                self.mods[name] = m
        for m in self.mods.values():
            self._index(m)

    def _abs(self, m, level, target):
        if level == 0:
            return target or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        base = '.'.join(parts)
        return base + ('.' + target if target else '')

    def _index(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = a.name
                        else:
                            m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
                        m.toplevel.add(a.asname or a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self._abs(m, s.level, s.module)
                    for a in s.names:
                        if a.name == '*':
                            m.stars.append(base)
                        else:
                            m.imports[a.asname or a.name] = base + '.' + a.name
                            m.toplevel.add(a.asname or a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[s.name] = Func(m, s)
                    m.toplevel.add(s.name)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(m, s)
                    m.classes[s.name] = c
                    m.toplevel.add(s.name)
                    self._index_class(c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.globals[n.id] = s.value if isinstance(t, ast.Name) else None
                                m.toplevel.add(n.id)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                    if isinstance(s.target, ast.Name):
                        m.globals[s.target.id] = s.value
                        m.toplevel.add(s.target.id)
                elif isinstance(s, ast.If):
                    visit(s.body); visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse); visit(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.globals[n.id] = None
                            m.toplevel.add(n.id)
                    visit(s.body)
        visit(m.tree.body)

    def _index_class(self, c):
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(c.mod, s, cls=c)
                if f.kind == 'setter':
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attrs[s.target.id] = s.value

    # -- resolution ------------------------------------------------------
    def lookup(self, dotted, _seen=None):
        """Resolve an absolute dotted name to Mod/Func/Cls/('global',mod,name)/Ext."""
        _seen = _seen or set()
        if dotted in _seen:
            return Ext(dotted)
        _seen.add(dotted)
        if dotted in self.mods:
            return self.mods[dotted]
        if '.' in dotted:
            base, name = dotted.rsplit('.', 1)
            b = self.lookup(base, _seen)
            if isinstance(b, Mod):
                r = self.member(b, name, _seen)
                if r is not None:
                    return r
                if b.name.startswith(PKG):
                    return ('missing', b.name, name)
            if isinstance(b, Cls):
                f = self.find_method(b, name)
                if f:
                    return f
            if isinstance(b, tuple):
                return Ext(dotted)
        return Ext(dotted)

    def member(self, m, name, _seen=None):
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.globals and name not in m.imports:
            v = m.globals[name]
            if isinstance(v, ast.Name) and v.id in m.toplevel and v.id != name:
                return self.member(m, v.id, _seen)      # alias  A = B
            return ('global', m, name)
        if name in m.imports:
            return self.lookup(m.imports[name], _seen)
        if m.name + '.' + name in self.mods:
            return self.mods[m.name + '.' + name]
        for s in m.stars:
            sm = self.mods.get(s)
            if sm is not None and name in sm.toplevel and not name.startswith('_'):
                return self.member(sm, name, _seen)
        return None

    def resolve_expr(self, m, expr):
        """Resolve Name/Attribute chains in module scope."""
        if isinstance(expr, ast.Name):
            return self.member(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value)
            if isinstance(b, Mod):
                return self.member(b, expr.attr)
            if isinstance(b, Ext):
                return Ext(b.name + '.' + expr.attr)
            if isinstance(b, Cls):
                return self.find_method(b, expr.attr)
        return None

    # -- classes ---------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.base_exprs:
            r = self.resolve_expr(c.mod, b)
            out.append(r if r is not None else Ext(ast.unparse(b)))
        return out

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]          # recursion guard
            res = [c]
            for b in self.bases(c):
                if isinstance(b, Cls):
                    for x in self.mro(b):
                        if x not in res:
                            res.append(x)
            # keep diamond order: a base appears after all its subclasses
            c._mro = res
        return c._mro

    def has_ext_base(self, c):
        for x in self.mro(c):
            for b in self.bases(x):
                if not isinstance(b, Cls) and not (isinstance(b, Ext) and b.name in ('object', 'builtins.object')):
                    if isinstance(b, Ext) and b.name == 'object':
                        continue
                    return True
        return False

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for x in mro:
            if name in x.methods:
                return x.methods[name]
        return None

    def find_setter(self, c, name):
        for x in self.mro(c):
            if name in x.setters:
                return x.setters[name]
        return None

    def find_class_attr(self, c, name):
        for x in self.mro(c):
            if name in x.attrs:
                return x, x.attrs[name]
        return None

    def subclasses(self, c):
        return [x for m in self.mods.values() for x in m.classes.values()
                if c in self.mro(x)]

    def all_classes(self, prefix=None):
        for mn in sorted(self.mods):
            if prefix is None or any(mn == p or mn.startswith(p + '.') for p in prefix):
                for c in self.mods[mn].classes.values():
                    yield c

    def all_funcs(self, prefix=None):
        for mn in sorted(self.mods):
            if prefix is None or any(mn == p or mn.startswith(p + '.') for p in prefix):
                m = self.mods[mn]
                for f in m.funcs.values():
                    yield f
                for c in m.classes.values():
                    for f in list(c.methods.values()) + list(c.setters.values()):
                        yield f

    def cls(self, fq):
        mn, n = fq.split(':')
        m = self.mods.get(mn)
        if m is None or n not in m.classes:
            raise AnalysisBroken('class %s not found' % fq)
        return m.classes[n]

    def func(self, fq):
        mn, n = fq.split(':')
        m = self.mods.get(mn)
        if m is None:
            raise AnalysisBroken('module %s not found' % mn)
        if '.' in n:
            c, f = n.split('.')
            if c not in m.classes:
                raise AnalysisBroken('class %s not found' % fq)
            r = self.find_method(m.classes[c], f)
            if r is None:
                raise AnalysisBroken('method %s not found' % fq)
            return r
        if n not in m.funcs:
            raise AnalysisBroken('function %s not found' % fq)
        return m.funcs[n]


def probe(p, src, name='probe'):
    """functions of the analysis, composed of calls of the library, to be read like its own code"""
    m = Mod('analysis.' + name, os.path.join(REPO, name + '.py'), ast.parse(src), src)
    p._index(m)
    return m.funcs
