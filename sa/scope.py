"""Which parts of the package each family of rules looks at."""
import ast

NUM = ['hyperion.' + x for x in ('utils', 'io', 'helpers', 'score_norm', 'calibration', 'classifiers', 'transforms', 'metrics',
                                 'feats', 'pdfs', 'generators', 'clustering', 'hyp_model', 'hyp_defs')]
MODEL = ['hyperion.' + x for x in ('score_norm', 'calibration', 'classifiers', 'transforms', 'pdfs', 'feats')]


# unfinished modules that no entry point of the package can use (see DESIGN.md)
UNFINISHED = ('hyperion.pdfs.hmm', 'hyperion.pdfs.jfa', 'hyperion.utils.misc')


def public(f):
    return not f.name.startswith('_') or f.name in ('__init__', '__call__', '__eq__', '__getitem__', '__len__', '__iter__', '__next__')


def qual(f):
    return f.fq.split(':')[1]


def entry_functions(p, prefixes=NUM, inherited=False):
    """(func, class to run it on) for every function and method; with `inherited`, also base-class methods on every
    subclass that overrides something they use"""
    for f in p.all_funcs(prefixes):
        if f.name == 'test' and f.cls is not None:
            continue
        if f.mod.name.startswith(UNFINISHED):
            continue
        yield f, f.cls
    if not inherited:
        return
    uses = {}
    for c in p.all_classes(prefixes):
        if c.mod.name.startswith(UNFINISHED):
            continue
        own = set(c.methods)
        done = set(own)
        for b in p.mro(c)[1:]:
            for f in b.methods.values():
                if f.name in done or f.name == 'test' or f.kind == 'static':
                    continue
                done.add(f.name)
                if selfcalls(p, c, f, uses) & own:
                    yield f, c


def users(f, memo={}):
    """for a private step: the functions of its module that use it, where it is judged instead"""
    if not f.name.startswith('_') or f.name.startswith('__'):
        return []
    if f not in memo:
        out = []
        fs = list(f.mod.funcs.values())
        for c in f.mod.classes.values():
            fs += list(c.methods.values()) + list(c.setters.values())
        for g in fs:
            if g is not f and any((n.id if isinstance(n, ast.Name) else n.attr) == f.name for n in ast.walk(g.node)
                                  if isinstance(n, (ast.Name, ast.Attribute))):
                out.append(g)
        memo[f] = out
    return memo[f]


def selfcalls(p, c, f, memo):
    """names of the methods of c that f may reach through self"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        k = g.fq
        if k not in memo:
            memo[k] = {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
        for a in memo[k]:
            if a not in seen:
                m = p.find_method(c, a)
                if m is not None:
                    seen.add(a)
                    todo.append(m)
    return seen
