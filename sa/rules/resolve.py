"""C16: every name, attribute, argument and format field that an operation uses exists."""
import ast
import builtins
import os
import string
import warnings
from ..ir import *
from ..interp import *
from ..scope import *
from ..project import Cls, Func, Mod, Ext
from ..libs import Library, binds, find_site
from ..missing import missing

SCOPE = NUM + ['hyperion.bin']
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__builtins__', '__spec__', '__class__', '__module__',
                               'WindowsError', '__qualname__'}
OBJ = {'__class__', '__dict__', '__doc__', '__module__', '__name__', '__init__', '__eq__', '__hash__', '__str__', '__repr__', '__len__',
       '__ne__', '__setattr__', '__getattribute__', '__reduce__', '__sizeof__', '__format__', '__dir__', '__subclasses__', '__mro__',
       '__bases__', '__qualname__', '__new__', '__del__', '__weakref__'}
EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


# ---- (a) names ---------------------------------------------------------------------------------------------------
class Scope(object):
    def __init__(self, kind, parent):
        self.kind, self.parent = kind, parent
        self.bound = set()
        self.globals = set()


def bind_target(t, names):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)


def local_bindings(node):
    """names bound in a function body (not in nested scopes)"""
    names, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    names.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            names.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                names.add(al.asname or al.name.split('.')[0])
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            glob.update(x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            names.add(x.name)
        elif hasattr(ast, 'MatchAs') and isinstance(x, ast.MatchAs) and x.name:
            names.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return names - glob, glob


def module_names(p, m, seen=None):
    seen = seen or set()
    if m.name in seen:
        return set(), False
    seen.add(m.name)
    names = set(m.toplevel)
    open_ = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            names.update(n.names)
    # names bound anywhere at module level, including in nested blocks
    todo = list(m.tree.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                names.add(al.asname or al.name.split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            names.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    for s in m.stars:
        sm = p.mods.get(s)
        if sm is None:
            open_ = True
        else:
            n2, o2 = module_names(p, sm, seen)
            names |= {x for x in n2 if not x.startswith('_')}
            open_ = open_ or o2
    return names, open_


def undefined_names(p, m):
    """(name, node, qualified function) for every load that no scope binds"""
    mn, open_ = module_names(p, m)
    if open_:
        return
    out = []

    def visit(node, scopes, cls, qn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(node, 'decorator_list', []):
                visit(d, scopes, cls, qn)
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                visit(d, scopes, cls, qn)
            b, g = local_bindings(node)
            q = qn + [getattr(node, 'name', '<lambda>')]
            sc = [s for s in scopes if s[0] != 'class'] + [('func', b)]
            for s in (node.body if isinstance(node.body, list) else [node.body]):
                visit(s, sc, None, q)
            return
        if isinstance(node, ast.ClassDef):
            for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
                visit(d, scopes, cls, qn)
            b = set()
            for s in node.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        b.add(x.id)
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    b.add(s.name)
            for s in node.body:
                visit(s, scopes + [('class', b)], node, qn + [node.name])
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set()
            for g in node.generators:
                bind_target(g.target, b)
            b = set()
            for k, g in enumerate(node.generators):         # an iterable sees only the targets before it
                visit(g.iter, scopes + [('func', set(b))] if k else scopes, cls, qn)
                bind_target(g.target, b)
                for x in g.ifs:
                    visit(x, scopes + [('func', set(b))], cls, qn)
            sc = scopes + [('func', b)]
            for ch in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]):
                visit(ch, sc, cls, qn)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            if node.id not in mn and node.id not in BUILTIN and not any(node.id in b for _, b in scopes):
                out.append((node.id, node, '.'.join(qn) or '<module>'))
        for ch in ast.iter_child_nodes(node):
            visit(ch, scopes, cls, qn)
    for s in m.tree.body:
        visit(s, [], None, [])
    return out


# ---- (c) attributes of self -------------------------------------------------------------------------------------
# attributes of tables and arrays: storing one on some other object says nothing about a class
TABLEATTR = {'index', 'columns', 'shape', 'dtype', 'values', 'flat', 'real', 'imag'}


def class_attrs(p, c, memo={}):
    """every attribute name an instance of c can have; None when it cannot be bounded"""
    key = (id(p), c.fq)
    if key in memo:
        return memo[key]
    names = set(OBJ)
    ok = True
    fam = list(p.mro(c))
    for s in p.subclasses(c):
        for x in p.mro(s):
            if x not in fam:
                fam.append(x)
    for x in fam:
        for b in p.bases(x):
            if not isinstance(b, Cls) and not (isinstance(b, Ext) and b.name.split('.')[-1] in ('object', 'ABC')):
                ok = False
        names |= set(x.methods) | set(x.attrs) | set(x.setters)
        if '__getattr__' in x.methods or '__getattribute__' in x.methods:
            ok = False
        for n in x.node.body:
            if isinstance(n, ast.ClassDef):
                names.add(n.name)
            for t in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    names.add(t.id)
        for f in list(x.methods.values()) + list(x.setters.values()):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) or n.attr not in TABLEATTR:
                        names.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        names.add(n.args[1].value)
                    else:
                        ok = False
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    ok = False
    memo[key] = names if ok else None
    return memo[key]


def outside_stores(p, prefixes):
    """attribute names assigned on other objects anywhere (o.x = ...)"""
    names = set()
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')) and n.attr not in TABLEATTR:
                names.add(n.attr)
        # a plain function's parameter named self is some object handed to it
        for d in m.tree.body:
            if isinstance(d, ast.FunctionDef):
                names |= {n.attr for n in ast.walk(d) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return names


def self_attrs(p, f, c, outside):
    """loads of attributes of self/cls that no instance has"""
    pos = f.params()[0]
    if not pos or f.kind == 'static':
        return
    me = pos[0]
    names = class_attrs(p, c)
    if names is None:
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store):
            return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
            if n.attr not in names and n.attr not in outside:
                yield n
            else:
                yield None


# ---- (e) attributes of modules -----------------------------------------------------------------------------------
def names_in_source(path):
    out = set()
    try:
        with open(path, encoding='utf-8') as f:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out
    for n in ast.walk(t):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)        # __all__ lists, deprecation tables
    return out


def external_tables():
    site = find_site()
    tab = {}
    if site is None:
        return tab
    np_ = names_in_source(site + '/numpy/__init__.pyi') | names_in_source(site + '/numpy/__init__.py')
    for s in ('core/__init__.py', 'core/numeric.py', 'core/fromnumeric.py', 'lib/__init__.py', 'core/multiarray.py', 'core/umath.py',
              'core/numerictypes.py', 'core/function_base.py', 'core/shape_base.py', 'lib/function_base.py'):
        np_ |= names_in_source(os.path.join(site, 'numpy', s))
    for d in sorted(os.listdir(site + '/numpy')):
        np_.add(d.split('.')[0])
    if len(np_) > 400:
        tab['numpy'] = np_
    pd_ = names_in_source(site + '/pandas/__init__.py')
    if os.path.isdir(site + '/pandas'):
        for d in sorted(os.listdir(site + '/pandas')):
            pd_.add(d.split('.')[0])
    if len(pd_) > 80:
        tab['pandas'] = pd_
    return tab


def bad_attr_chain(p, m, n, tabs):
    """n = <module>.<name> where the module has no such name"""
    r = p.resolve_expr(m, n.value)
    if isinstance(r, Mod):
        if p.member(r, n.attr) is None and n.attr not in r.toplevel and not any(p.mods.get(s) is None for s in r.stars) and \
                n.attr not in ('__name__', '__file__', '__doc__', '__path__'):
            return r.name
    if isinstance(r, Ext) and r.name in tabs and isinstance(n.value, (ast.Name, ast.Attribute)):
        if n.attr not in tabs[r.name] and not n.attr.startswith('__'):
            return r.name
    return None


# ---- (g) calls of library functions
def library_call(p, m, n, idx, lib):
    b = n.func
    while isinstance(b, ast.Attribute):
        b = b.value
    if not isinstance(b, ast.Name) or isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, (ast.Name, ast.Attribute)):
        return None
    r = p.resolve_expr(m, n.func)
    if not isinstance(r, Ext) or r.name.startswith('hyperion'):
        return None
    if shadowed(m, ast.Attribute(b, '', ast.Load(), lineno=n.lineno), idx):
        return None
    ds = lib.defs(r.name)
    if not ds:
        return None
    es = [binds(d, n) for d in ds]
    if all(es):
        return '%s %s' % (r.name, es[0])
    return '' if '' in es else None


# ---- (h) format strings ------------------------------------------------------------------------------------------
def format_errors(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
            isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(n.func.value.value) if f is not None]
        except ValueError as e:
            return 'format string: %s' % e
        auto = 0
        for f in fields:
            h = f.split('.')[0].split('[')[0]
            if h == '':
                auto += 1
            elif h.isdigit():
                if int(h) >= len(n.args):
                    return 'format field {%s} has no argument' % h
            elif h not in {k.arg for k in n.keywords}:
                return 'format field {%s} has no argument' % h
        if auto > len(n.args):
            return 'format string has %d fields for %d arguments' % (auto, len(n.args))
        return ''
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        import re
        s = n.left.value.replace('%%', '')
        specs = re.findall(r'%(\([^)]*\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa]', s)
        if any(x[0] for x in specs):
            return ''
        k = sum(1 + (x[1] == '*') + (x[2] == '*') for x in specs)
        if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
            if len(n.right.elts) != k:
                return '%% format has %d fields for %d values' % (k, len(n.right.elts))
        elif isinstance(n.right, ast.Constant) and k != 1:
            return '%% format has %d fields for 1 value' % k
        return ''
    return None


def owner(m, node, index):
    """qualified name of the innermost function holding the node"""
    best = '<module>'
    for q, lo, hi in index:
        if lo <= node.lineno <= hi:
            best = q
    return best


def func_index(m):
    out = []

    def rec(body, q):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                n = q + [s.name]
                out.append(('.'.join(n), s.lineno, s.end_lineno))
                rec(s.body, n)
            elif hasattr(s, 'body') and isinstance(s.body, list):
                rec(s.body, q)
                rec(getattr(s, 'orelse', []) or [], q)
    rec(m.tree.body, [])
    return sorted(out, key=lambda t: (t[1], -t[2]))


def inscope(name):
    if name.startswith('hyperion.bin.'):
        return not name.startswith('hyperion.bin.keras-')       # keras/tensorflow is another runtime, not installed
    return any(name == x or name.startswith(x + '.') for x in SCOPE) and not name.startswith(UNFINISHED) and not name.startswith(
        'hyperion.deprec')


def check(p, rep, tier):
    tabs = external_tables()
    lib = Library()
    rep.extra['external_modules'] = {k: len(v) for k, v in tabs.items()}
    nm = 0
    outside = outside_stores(p, SCOPE)
    for rel, err in sorted(p.unparsable.items()):
        mod = rel[:-3].replace('/', '.')
        if inscope(mod):
            rep.violation('syntax', rel, 'does not parse: %s' % err.split(' (')[0], rel)
    for mn in sorted(p.mods):
        if not inscope(mn):
            continue
        m = p.mods[mn]
        nm += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                compile(m.src, m.rel, 'exec', dont_inherit=True)
            rep.discharged('syntax', m.rel)
        except SyntaxError as e:
            rep.violation('syntax', m.rel, 'does not compile: %s' % e.msg, '%s:%s' % (m.rel, e.lineno))
        idx = func_index(m)
        short = mn[len('hyperion.'):]
        rep.unit(mn)
        und = undefined_names(p, m)
        if und is None:
            rep.undec('name', short, 'star import from outside the repository')
        else:
            seen = set()
            for nme, node, q in und:
                if (q, nme) not in seen:
                    seen.add((q, nme))
                    rep.violation('name', '%s:%s' % (short, q), 'name %s is never defined' % nme, '%s:%d' % (m.rel, node.lineno))
            k = sum(1 for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
            rep.obl += k
            rep.ok += k
            rep.rules['name'] = rep.rules.get('name', 0) + k
        for a, t in m.imports.items():
            r = p.lookup(t)
            if isinstance(r, tuple) and r[0] == 'missing' or (isinstance(r, Ext) and r.name.startswith('hyperion')):
                rep.violation('import', '%s' % short, 'imports %s, which does not exist' % t, m.rel)
            else:
                rep.discharged('import', short)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, (ast.Name, ast.Attribute)):
                    if isinstance(n.value, ast.Name) and shadowed(m, n, idx):
                        continue
                    b = bad_attr_chain(p, m, n, tabs)
                    if b:
                        rep.violation('module-attribute', '%s:%s' % (short, owner(m, n, idx)), '%s has no %s' % (b, n.attr),
                                      '%s:%d' % (m.rel, n.lineno))
            if isinstance(n, ast.Call):
                e = library_call(p, m, n, idx, lib)
                if e:
                    rep.violation('library-call', '%s:%s' % (short, owner(m, n, idx)), e, '%s:%d' % (m.rel, n.lineno))
                elif e == '':
                    rep.discharged('library-call', short)
            fe = format_errors(n)
            if fe:
                rep.violation('format', '%s:%s' % (short, owner(m, n, idx)), fe, '%s:%d' % (m.rel, n.lineno))
            elif fe == '':
                rep.discharged('format', short)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                fn = n.value.func
                if isinstance(fn, ast.Name) and fn.id in EXC and fn.id not in m.toplevel:
                    rep.violation('not-raised', '%s:%s' % (short, owner(m, n, idx)), '%s is built but not raised' % fn.id,
                                  '%s:%d' % (m.rel, n.lineno))
            if isinstance(n, ast.Raise) and n.exc is not None:
                rep.discharged('not-raised', short)
    rep.require('modules', nm, 80)
    na = 0
    for c in p.all_classes(SCOPE):
        if not inscope(c.mod.name):
            continue
        short = c.mod.name[len('hyperion.'):]
        for f in list(c.methods.values()) + list(c.setters.values()):
            for n in self_attrs(p, f, c, outside):
                na += 1
                if n is None:
                    rep.discharged('self-attribute', c.name)
                    continue
                rep.violation('self-attribute', '%s:%s.%s' % (short, c.name, f.name), 'self.%s is never set by %s or its bases' % (n.attr, c.name),
                              '%s:%d' % (c.mod.rel, n.lineno))
    rep.require('attribute reads of self', na, 1500)
    calls(p, rep, outside)


def shadowed(m, n, idx):
    """is the root name of the attribute a local of the enclosing function?"""
    o = [(q, lo, hi) for q, lo, hi in idx if lo <= n.lineno <= hi]
    if not o:
        return False
    for node in ast.walk(m.tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.lineno <= n.lineno <= node.end_lineno:
            b = getattr(node, '_lb', None)
            if b is None:
                b = node._lb = local_bindings(node)[0]
            if n.value.id in b:
                return True
    return False


def overridden(p, e, c, subs):
    """the callee is a method of the analysed (base) class that subclasses replace: judged on the subclasses"""
    fq = e.target.args[0].split(':')[1]
    if c is None or '.' not in fq:
        return False
    cn, mn = fq.rsplit('.', 1)
    if cn not in [x.name for x in p.mro(c)]:
        return False
    m = p.find_method(c, mn)
    return m is not None and (m.abstract or any(p.find_method(s, mn) is not m for s in subs))


def calls(p, rep, outside):
    nf = 0
    seen = set()
    for f, c in entry_functions(p, SCOPE, inherited=True):
        if not inscope(f.mod.name):
            continue
        I = Interp(p, maxdepth=3)
        run = I.run(f, c)
        nf += 1
        loops = dict(I.loops)
        nones = [a for a in f.param_names() if isinstance(f.default_of(a), ast.Constant) and f.default_of(a).value is None and a in run.env0]
        for which in ([nones] + [[a] for a in nones if len(nones) > 1]) if nones else []:
            for e, w in missing(run.events, loops, {run.env0[a]: 'none' for a in which}):
                sf = e.site.func
                if len(e.stack) > 2 or not inscope(sf.mod.name) or ('leftout', str(e.site), w) in seen:
                    continue
                seen.add(('leftout', str(e.site), w))
                rep.violation('leftout', '%s:%s' % (f.mod.name[len('hyperion.'):], f.qual), '%s when %s left out' % (w, ' and '.join(which) + (' are' if len(which) > 1 else ' is')), e.site)
        if nones:
            rep.discharged('leftout', '%s:%s' % (f.mod.name[len('hyperion.'):], f.qual))
        subs = [s for s in p.subclasses(c)] if c is not None else []
        short = f.mod.name[len('hyperion.'):]
        for e in run.events:
            if len(e.stack) > 2:
                continue
            sf = e.site.func
            if not inscope(sf.mod.name):
                continue
            cons = '%s:%s' % (sf.mod.name[len('hyperion.'):], sf.qual)
            k = (e.kind, str(e.site), show(e.target, 3), show(e.value, 3) if e.value is not None else '')
            if k in seen:
                continue
            if e.kind == 'arity':
                if overridden(p, e, c, subs):
                    continue
                seen.add(k)
                rep.violation('argument', cons, 'call of %s: %s' % (e.target.args[0].split(':')[1], e.value.args[0]), e.site)
            elif e.kind == 'badsuper':
                seen.add(k)
                rep.violation('super', cons, 'super() names the unrelated class %s' % e.target.args[0].split(':')[1], e.site)
            elif e.kind == 'unbound':
                seen.add(k)
                rep.violation('unbound', cons, '%s is used where it has not been assigned' % e.target.args[0], e.site)
            elif e.kind == 'noattr?':
                t = I._clsof(e.value.args[0])
                names = class_attrs(p, t)
                if names is None or e.extra in names or e.extra in outside or e.target.op == 'param' and e.target is run.selfnode:
                    continue
                seen.add(k)
                rep.violation('attribute', cons, '%s has no attribute %s' % (e.value.args[0].split(':')[1], e.extra), e.site)
            elif e.kind == 'invoke':
                seen.add(k)
                rep.discharged('argument', cons)
    rep.require('functions with calls examined', nf, 500)
