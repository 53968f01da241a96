"""C06: command-line options reach the object they configure.

Components: add_argparse_* and filter_* of each class are interpreted with a symbolic prefix and paired.
Scripts: the `if __name__ == '__main__'` block is interpreted with the namespace argparse would build."""
import ast
from ..ir import *
from ..interp import *
from ..scope import *
from ..project import Func, Ext, Cls
from ..missing import missing

PFX = 'zz'
FLAG = {'store_true': True, 'store_false': False}


class Opt(object):
    def __init__(self, e, strip=True):
        kws = e.extra or {}
        self.e = e
        self.kws = kws
        a = [x.args[0] if is_const(x) else None for x in e.value.args]
        self.ok = bool(a) and all(isinstance(x, str) for x in a)
        self.strs = [x for x in a if isinstance(x, str)]
        d = kws.get('dest')
        self.dest = None
        if d is not None:
            self.dest = d.args[0] if is_const(d) else None
        elif self.strs:
            lng = [x for x in self.strs if x.startswith('--')] or self.strs
            self.dest = lng[0].lstrip('-').replace('-', '_')
        self.ok = self.ok and self.dest is not None
        act = kws.get('action')
        self.action = act.args[0] if act is not None and is_const(act) else ('store' if act is None else None)
        self.type = kws.get('type')
        self.default = kws.get('default')
        self.choices = None
        c = kws.get('choices')
        if c is not None:
            x = c.args[1] if c.op == 'alloc' else c
            xs = x.args if x.op in ('list', 'tuple', 'set') else None
            if xs is not None and all(is_const(v) for v in xs):
                self.choices = [v.args[0] for v in xs]

    @property
    def key(self):
        return self.strs[0] if self.strs else self.dest


def is_parser(n):
    """a parser, or a group / subparser of one"""
    while isinstance(n, N) and n.op in ('icall', 'call', 'new'):
        fn = n.args[0]
        if not isinstance(fn, N):
            return False
        if fn.op == 'ext':
            return fn.args[0].endswith('ArgumentParser')
        if fn.op != 'attr' or fn.args[1] not in ('add_argument_group', 'add_mutually_exclusive_group', 'add_subparsers', 'add_parser'):
            return False
        n = fn.args[0]
    return False


def options(events, parser=None):
    out = []
    for e in events:
        if e.kind == 'call' and e.target.op == 'attr' and e.target.args[1] == 'add_argument':
            out.append(Opt(e))
    return out


def tname(t):
    if t is None:
        return None
    if t.op == 'ext':
        return t.args[0].replace('builtins.', '')
    return t.op


def local_checks(rep, o, who, site):
    """what can be decided on one add_argument call"""
    R = 'option'
    w = '%s %s' % (who, o.key)
    bad = []
    tn = tname(o.type)
    if tn == 'bool':
        bad.append('type=bool turns every non-empty string, "False" included, into True')
    d = o.default
    dv = d.args[0] if d is not None and is_const(d) else None
    known = d is not None and is_const(d) and dv is not None
    if o.action in FLAG:
        want = FLAG[o.action]
        if known and isinstance(dv, bool) and dv is want:
            bad.append('the flag stores %s, which is also its default: giving it changes nothing' % want)
        if o.strs and o.dest:
            n = o.strs[-1].lstrip('-').replace('-', '_')
            for neg_ in ('no_', ):
                if n.startswith(neg_) and n[len(neg_):] == o.dest and want:
                    bad.append('--%s sets %s to True' % (n.replace('_', '-'), o.dest))
            if n == o.dest and not n.startswith('no_') and not want:
                bad.append('--%s sets %s to False' % (n.replace('_', '-'), o.dest))
    if o.action == 'store':
        if o.choices is not None:
            if known and dv not in o.choices and not any(str(dv) == str(c) and type(dv) is type(c) for c in o.choices):
                bad.append('default %r is not one of the choices %r' % (dv, o.choices))
            if tn in (None, 'str', 'str.lower'):
                ns = [c for c in o.choices if not isinstance(c, str)]
                if ns:
                    bad.append('choices %r are not strings but no type converts the argument: they can never be selected' % ns)
            if tn == 'str.lower' and any(isinstance(c, str) and c != c.lower() for c in o.choices):
                bad.append('choices with upper case letters can never match the lower-cased argument')
            if tn in ('int', 'float') and any(isinstance(c, str) for c in o.choices):
                bad.append('choices are strings but the argument is converted to a number')
        if known and isinstance(dv, (int, float)) and not isinstance(dv, bool) and tn in (None, 'str', 'str.lower') and not o.kws.get('nargs'):
            bad.append('default is the number %r but a given value stays a string' % dv)
        if known and isinstance(dv, bool) and tn in (None, 'str', 'int', 'float') and not o.kws.get('nargs') and not o.kws.get('const'):
            bad.append('default is %r but a given value is not converted to a boolean' % dv)
        if known and tn == 'int' and isinstance(dv, float) and dv != int(dv):
            bad.append('default %r cannot be given: values are converted to int' % dv)
        if known and tn in ('int', 'float') and isinstance(dv, str):
            try:
                (int if tn == 'int' else float)(dv)
            except ValueError:
                bad.append('default %r is not a %s' % (dv, tn))
    for b in bad:
        rep.violation(R, who, '%s: %s' % (o.key, b), o.e.site)
    if not bad:
        rep.discharged(R, w)


# ---------------------------------------------------------------------- components
def dict_items(n):
    """(key, value) pairs of the dictionary a filter returns, or None"""
    if n.op == 'alloc':
        n = n.args[1]
    if n.op == 'dict':
        return list(n.args[0])
    if n.op == 'phi':
        a, b = dict_items(n.args[1]), dict_items(n.args[2])
        if a is None or b is None:
            return None
        return a + b
    return None


def kwreads(n, kw):
    """names read from the keyword dictionary `kw` anywhere in n"""
    out = set()
    for x in walk(n):
        if x.op == 'sub' and x.args[0] is kw and is_const(x.args[1]):
            out.add(x.args[1].args[0])
        elif x.op in ('kwget',) and x.args[0] is kw:
            out.add(x.args[1] if isinstance(x.args[1], str) else x.args[1].args[0])
        elif x.op == 'cmp' and x.args[0] in ('in', 'not in') and x.args[2] is kw and is_const(x.args[1]):
            out.add(x.args[1].args[0])
        elif x.op in ('call', 'icall') and x.args[0].op == 'attr' and x.args[0].args[0] is kw and x.args[1] and is_const(x.args[1][0]):
            out.add(x.args[1][0].args[0])
    return out


def valpart(v):
    while v.op in ('cond',):
        v = v.args[1]
    return v


def value_reads(v, kw):
    """names whose value (not presence) reaches v, with the sign under which they do: {name: {True, False}}"""
    out = {}

    def go(n, pos):
        if n.op == 'sub' and n.args[0] is kw and is_const(n.args[1]):
            out.setdefault(n.args[1].args[0], set()).add(pos)
        elif n.op == 'kwget' and n.args[0] is kw:
            nm = n.args[1] if isinstance(n.args[1], str) else n.args[1].args[0]
            out.setdefault(nm, set()).add(pos)
        elif n.op in ('call', 'icall') and n.args[0].op == 'attr' and n.args[0].args[0] is kw and n.args[1] and is_const(n.args[1][0]):
            out.setdefault(n.args[1][0].args[0], set()).add(pos)
        elif n.op == 'not':
            go(n.args[0], not pos)
        elif n.op == 'cmp' and n.args[0] in ('in', 'not in') and n.args[2] is kw:
            pass
        elif n.op == 'cond':
            go(n.args[1], pos)
        else:
            for c in children(n):
                go(c, pos)
    go(v, True)
    return out


def optreads(n, pos=True, out=None):
    """options a value depends on, with the sign under which they enter"""
    out = {} if out is None else out
    if n.op == 'opt':
        out.setdefault(n.args[0], set()).add(pos)
    elif n.op == 'not':
        optreads(n.args[0], not pos, out)
    elif n.op == 'cmp' and n.args[0] in ('in', 'not in'):
        pass
    else:
        for x in children(n):
            optreads(x, pos, out)
    return out


def targets(p, c, name):
    """functions that take what the filter returns: the constructor, and factory methods of the class"""
    out = []
    ini = p.find_method(c, '__init__')
    if ini is not None:
        out.append(ini)
    for m in ('create', 'create_plda', 'create_feature_normalization'):
        f = p.find_method(c, m)
        if f is not None:
            out.append(f)
    return out


def pair(name):
    s = name.replace('add_argparse_', '')
    return ['filter_' + s]


def component(p, rep, c, I):
    adds = {n: f for n, f in c.methods.items() if n.startswith('add_argparse')}
    filts = {n: f for n, f in c.methods.items() if n.startswith('filter_') and n.endswith('args')}
    if not adds and not filts:
        return
    rep.unit(c.fq)
    who = lambda f: qual_(f)
    dests, reads, keys = {}, {}, {}
    for n, f in adds.items():
        with_, without = {}, {}
        for pfx, tab in ((PFX, with_), (None, without)):
            args = {'prefix': const(pfx)} if 'prefix' in f.param_names() else {}
            run = I.run(f, c, args=args)
            for o in options(run.events):
                if not o.ok:
                    rep.undec('option', who(f), 'option string or dest is not a constant')
                    continue
                tab[o.dest] = o
                if pfx is None:
                    local_checks(rep, o, who(f), o.e.site)
            if pfx is None:
                seen = {}
                for o in options(run.events):
                    if not o.ok:
                        continue
                    for st in o.strs:
                        if st in seen and not exclusive(seen[st].e.path, o.e.path):
                            rep.violation('option', who(f), 'option %s is registered twice' % st, o.e.site)
                        seen[st] = o
        if 'prefix' in f.param_names():
            for d, o in with_.items():
                if not all(s.startswith('--' + PFX + '-') for s in o.strs) or not d.startswith(PFX + '_'):
                    rep.violation('prefix', who(f), 'option %s / dest %s does not carry the prefix' % (
                        o.strs[-1].replace('--' + PFX + '-', '--<prefix>-'), d.replace(PFX + '_', '<prefix>_')), o.e.site)
                elif d[len(PFX) + 1:] not in without:
                    rep.violation('prefix', who(f), 'dest %s exists only with a prefix' % d[len(PFX) + 1:], o.e.site)
                else:
                    rep.discharged('prefix', who(f))
            for d, o in without.items():
                if PFX + '_' + d not in with_ and d not in with_:
                    rep.violation('prefix', who(f), 'dest %s exists only without a prefix' % d, o.e.site)
        dests[n] = {d[len(PFX) + 1:] if d.startswith(PFX + '_') else d: o for d, o in with_.items()} or without
    for n, f in filts.items():
        kwn = f.params()[3]
        if kwn is None:
            continue
        haspfx = 'prefix' in f.param_names()
        mine = {}
        for m in dests:
            if n in pair(m) or n == 'filter_val_args' and m == 'add_argparse_args':
                mine.update(dests[m])
        full = dict(mine)
        if not mine:
            for m in dests:
                full.update(dests[m])
        # the namespace the parser builds, with every registered option in it
        ns = {d: mk('opt', d) for d in full}
        kwnode = mk('alloc', 'ns:' + f.fq, mk('dict', tuple((const((PFX + '_' if haspfx else '') + d), v) for d, v in sorted(ns.items()))))
        args = {'prefix': const(PFX)} if haspfx else {}
        run = I.run(f, c, args=dict(args, **{kwn: kwnode}))
        sym = I.run(f, c, args=args)
        symitems = dict_items(sym.ret)
        keys[n] = [k.args[0] for k, _ in symitems or () if is_const(k)]
        if len(set(map(len, keys[n]))) == 1 and len(keys[n]) > 3 and len(keys[n][0]) == 1:
            rep.violation('filter', who(f), 'the key list is a string: its letters %r are taken as option names' % ''.join(keys[n]), f.mod.rel)
        skw = sym.env0[kwn]
        if haspfx:
            for k, v in symitems or ():
                for j in value_reads(v, skw):
                    if isinstance(j, str) and not j.startswith(PFX + '_'):
                        rep.violation('prefix', who(f), 'key %s is read from %s, without the prefix' % (k.args[0], j), f.mod.rel)
        items = dict_items(run.ret)
        if items is None:
            rep.undec('filter', who(f), 'result is not a literal dictionary')
            continue
        keys[n] = sorted(set(keys[n]) | {k.args[0] for k, _ in items if is_const(k)})
        got = set()
        for k, v in items:
            if not is_const(k):
                rep.undec('filter', who(f), 'key is not a constant')
                continue
            k = k.args[0]
            bad = False
            for j, signs in optreads(v).items():
                got.add(j)
                if j == k:
                    if False in signs and True not in signs:
                        rep.violation('filter', who(f), 'key %s gets the negation of option %s' % (k, j), f.mod.rel)
                        bad = True
                elif j == 'no_' + k:
                    if True in signs and False not in signs:
                        rep.violation('filter', who(f), 'key %s gets option %s unnegated' % (k, j), f.mod.rel)
                        bad = True
                elif k in full:
                    rep.violation('filter', who(f), 'key %s gets the value of option %s' % (k, j), f.mod.rel)
                    bad = True
            if not bad:
                rep.discharged('filter', who(f), 'key %s' % k)
        for e in run.events:
            for x in [e.target, e.value] + list(e.path):
                if isinstance(x, N) and e.kind not in ('invoke', 'enter', 'exit', 'mutate'):
                    got |= set(optreads(x))
        reads[n] = got
    # every registered option is picked up by a filter of its group
    for n, ds in dests.items():
        f = adds[n]
        mine = [x for x in pair(n) if x in reads]
        if not mine:
            continue
        got = set()
        for x in reads:
            if x in mine or x == 'filter_val_args':
                got |= reads[x]
        for d, o in ds.items():
            if d in got:
                rep.discharged('forward', who(f))
            else:
                rep.violation('forward', who(f), 'option %s (dest %s) is never picked up by %s' % (
                    o.strs[-1].replace('--' + PFX + '-', '--'), d, '/'.join(mine)), o.e.site)
    # every key the filter can return is accepted by the constructor, which uses it
    tgts = targets(p, c, None)
    dead = None
    for n, ks in keys.items():
        f = filts[n]
        if 'eval' in n or 'val_' in n and 'eval' in n:
            continue
        for k in ks:
            accept = [t for t in tgts if k in t.param_names() or t.params()[3] is not None]
            if tgts and not accept:
                rep.violation('accept', who(f), 'key %s is not a parameter of %s' % (k, ', '.join(t.qual for t in tgts)), f.mod.rel)
            elif tgts:
                rep.discharged('accept', who(f))
    for t in tgts:
        used = None
        for k in sorted({k for n, ks in keys.items() for k in ks if 'eval' not in n}):
            if k not in t.param_names():
                continue
            if used is None:
                used = used_params(I, t, c)
            if used is not None and k not in used:
                rep.violation('used', qual_(t), 'option %s reaches parameter %s, which is never used' % (k, k), t.mod.rel)
            elif used is not None:
                rep.discharged('used', qual_(t))
    defaults(p, rep, c, dests, I)
    swaps(p, rep, c, {k for n, ks in keys.items() for k in ks}, I)
    choices(p, rep, c, dests, I)


def used_params(I, f, c):
    """parameters of a constructor or factory that reach a field, a condition or another call; only the chain of
    constructors itself is followed"""
    roots = []

    def hook(I_, g, env, st, node):
        if g is f or g.name == '__init__' and g.cls is not None and g.cls in I_.p.mro(c):
            return None
        roots.extend(v for v in env.values() if isinstance(v, N))
        k = tuple((x, v) for x, v in env.items() if isinstance(v, N))
        return mk('icall', mk('func', g.fq), (), k, 'u%d' % len(roots))
    I.opaque_hook = hook
    try:
        run = I.run(f, c)
    finally:
        I.opaque_hook = None
    if any(g[0] == 'budget' for g in run.gaps):
        return None
    for e in run.events:
        if e.kind in ('invoke', 'enter', 'exit'):
            continue
        roots += [x for x in [e.target, e.value] + list(e.path) if isinstance(x, N)]
        if isinstance(e.extra, dict):
            roots += [x for kk, x in e.extra.items() if isinstance(x, N)]
            b = e.extra.get('%bound')
            if isinstance(b, dict):
                roots += [x for x in b.values() if isinstance(x, N)]
        elif isinstance(e.extra, tuple):
            roots += [x for x in e.extra if isinstance(x, N)]
    roots += [v for v in run.state.heap.values() if isinstance(v, N)]
    if isinstance(run.ret, N):
        roots.append(run.ret)
    seen, seenw = set(), set()
    for r in roots:
        for x in walk(r, seenw):
            if x.op == 'param':
                seen.add(x.args[1])
    return seen


def ctor_run(I, f, c):
    I.opaque_hook = lambda I_, g, env, st, node: None if g.name == '__init__' and g.cls in I_.p.mro(c) else mk('icall', mk('func', g.fq), (), (), 'c')
    try:
        return I.run(f, c)
    finally:
        I.opaque_hook = None


def exclusive(a, b):
    return any(neg(x) in b for x in a)


def qual_(f):
    return f.fq.replace('hyperion.', '', 1)


def defaults(p, rep, c, dests, I):
    """an option left out must not turn into a value the class cannot compute with"""
    ini = p.find_method(c, '__init__')
    if ini is None:
        return
    for n, ds in dests.items():
        for d, o in ds.items():
            if o.action != 'store' or d not in ini.param_names():
                continue
            dd = ini.default_of(d)
            if not isinstance(dd, ast.Constant) or isinstance(dd.value, (str, bool)) or dd.value is None:
                continue
            isnone = (o.default is None or is_const(o.default, None)) and not is_const(o.kws.get('required', FALSE), True)
            if isnone and not nonetested(p, c, d):
                rep.violation('default', qual_(c.methods[n]), 'option %s defaults to None, the constructor to %r, and nothing tests it for None' % (
                    o.strs[-1].replace('--' + PFX + '-', '--'), dd.value), o.e.site)
            else:
                rep.discharged('default', qual_(c.methods[n]))


def nonetested(p, c, d):
    for b in p.mro(c):
        for f in b.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Compare) and any(isinstance(y, ast.Constant) and y.value is None for y in x.comparators):
                    nm = x.left.attr if isinstance(x.left, ast.Attribute) else getattr(x.left, 'id', None)
                    if nm is not None and nm.lstrip('_') == d:
                        return True
    return False


def swaps(p, rep, c, ks, I):
    """a constructor does not store one option in the field of another"""
    ini = p.find_method(c, '__init__')
    if ini is None:
        return
    run = ctor_run(I, ini, c)
    ps = set(ini.param_names())
    for (ob, at), v in run.state.heap.items():
        if ob is not run.selfnode or not isinstance(v, N):
            continue
        nm = at.lstrip('_')
        if nm not in ps or nm not in ks:
            continue
        src = {x.args[1] for x in walk(v) if x.op == 'param' and x.args[1] in ps}
        if src and nm not in src and v.op == 'param':
            rep.violation('swap', qual_(ini), 'field %s is set from option %s instead of option %s' % (at, v.args[1], nm), ini.mod.rel)
        else:
            rep.discharged('swap', qual_(ini))


def factory(p, rep, f, c, I):
    """create(...) functions: each object built gets the options its constructor shares with the factory"""
    ps = set(f.param_names())
    got = []
    I.opaque_hook = lambda I_, g, env, st, node: None if g.mod is f.mod and g.name != '__init__' else mk('icall', mk('func', g.fq), (), tuple(
        (k, v) for k, v in env.items() if isinstance(v, N)), 'f%d' % len(I_.events))
    try:
        run = I.run(f, c)
    finally:
        I.opaque_hook = None
    n = 0
    for e in run.events:
        if e.kind != 'new' or not isinstance(e.extra, dict) or '%bound' not in e.extra:
            continue
        k = I._clsof(e.target.args[0])
        ini = p.find_method(k, '__init__')
        b = e.extra['%bound']
        if b is None or ini is None:
            continue
        n += 1
        both = [x for x in ini.param_names() if x in ps]
        pinned = {y.args[1] for q in e.path for y in walk(q) if y.op == 'param'}
        for x in both:
            v = b.get(x)
            if v is None:
                continue
            src = {y.args[1] for y in walk(v) if y.op == 'param' and y.args[1] in ps}
            if x in src or x in pinned and not src:
                rep.discharged('factory', qual_(f))
            elif src:
                rep.violation('factory', qual_(f), '%s gets %s as its %s instead of %s' % (k.name, ', '.join(sorted(src)), x, x), e.site)
            else:
                rep.violation('factory', qual_(f), '%s takes %s but the factory does not pass it' % (k.name, x), e.site)
    return n


def choices(p, rep, c, dests, I):
    """constants the class compares an option with, against the choices it offers"""
    ini = p.find_method(c, '__init__')
    if ini is None:
        return
    want = {}
    for n, ds in dests.items():
        for d, o in ds.items():
            if o.choices and all(isinstance(x, str) for x in o.choices) and d in ini.param_names():
                want[d] = (o, adds_name(c, n))
    if not want:
        return
    run = ctor_run(I, ini, c)
    fieldof = {}
    for (ob, at), v in run.state.heap.items():
        if ob is run.selfnode and isinstance(v, N) and v.op == 'param' and v.args[1] in want:
            fieldof[at] = v.args[1]
    comp = {d: set() for d in want}
    mro = p.mro(c)
    seen = set()

    def note(n, self_, params):
        for x in walk(n, seen):
            if x.op != 'cmp' or x.args[0] not in ('==', '!=', 'in', 'not in'):
                continue
            for a_, b_ in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                d = None
                if a_.op == 'attr' and a_.args[0] is self_:
                    d = fieldof.get(a_.args[1])
                elif a_.op == 'param' and params and a_.args[1] in want:
                    d = a_.args[1]
                if d is None:
                    continue
                b2 = b_.args[1] if b_.op == 'alloc' else b_
                for v in ([b2] if is_const(b2) else b2.args if b2.op in ('list', 'tuple', 'set') else []):
                    if isinstance(v, N) and is_const(v) and isinstance(v.args[0], str):
                        comp[d].add(v.args[0])

    def hook(I_, g, env, st, node):
        return None if g.cls is not None and g.cls in mro and g.name != '__init__' else mk('icall', mk('func', g.fq), (), (), 'h')
    I.opaque_hook = hook
    try:
        for f in set(m for b_ in mro for m in b_.methods.values()):
            if f.name.startswith(('add_argparse', 'filter_')) or f.abstract:
                continue
            seen.clear()
            r = I.run(f, c)
            for e in r.events:
                for n in [e.target, e.value] + list(e.path):
                    if isinstance(n, N):
                        note(n, r.selfnode, f.name == '__init__')
            for n in [r.ret] + list(r.state.heap.values()):
                if isinstance(n, N):
                    note(n, r.selfnode, f.name == '__init__')
    finally:
        I.opaque_hook = None
    for d, (o, f) in want.items():
        C, K = set(o.choices), comp[d]
        if K - C and C - K:
            rep.violation('choices', qual_(f), 'option %s offers %s, but the class only knows %s' % (
                d, sorted(C - K), sorted(K - C)), o.e.site)
        else:
            rep.discharged('choices', qual_(f))


def adds_name(c, n):
    return c.methods[n]


# ---------------------------------------------------------------------- scripts
class Script(object):
    def __init__(self, I):
        self.I = I
        self.ns = {}        # namespace node -> {dest: Opt}
        self.optnode = {}   # opt node -> (dest, Opt)
        self.used = []      # values that reach a function outside the script
        self.bound = []     # argument bindings of those calls

    def hook(self, I, fn, args, kws, st, node):
        if fn.op == 'attr' and fn.args[1] in ('parse_args', 'parse_known_args') and not args:
            opts = {}
            for o in options(I.events):
                if o.ok:
                    opts[o.dest] = o
            ns = mk('ns', I.allocid(node))
            self.ns[ns] = opts
            for d, o in opts.items():
                n = mk('opt', d)
                self.optnode[n] = (d, o)
                st.heap[(ns, d)] = n
            if fn.args[1] == 'parse_known_args':
                return tup(ns, mk('unk', 'rest'))
            return ns
        if fn.op == 'ext' and fn.args[0] == 'builtins.vars' and len(args) == 1 and args[0] in self.ns:
            ns = args[0]
            items = []
            for (ob, at), v in st.heap.items():
                if ob is ns and v.op != 'unbound':
                    items.append((const(at), v))
            return mk('alloc', I.allocid(node, 'vars'), mk('dict', tuple(items)))
        return None


def main_block(m):
    body = []
    for s in m.tree.body:
        if isinstance(s, ast.If) and '__name__' in ast.dump(s.test):
            body += s.body
    return body


def script(p, rep, m):
    body = main_block(m)
    if not body:
        return
    rep.unit(m.name)
    nm = m.name.replace('hyperion.', '', 1)
    fn = ast.parse('def __main__():\n    pass').body[0]
    fn.body = body
    ast.copy_location(fn, body[0])
    f = Func(m, fn)
    I = Interp(p, budget=90000)
    S = Script(I)
    I.call_hook = S.hook
    # numerical work is not of interest here
    I.opaque_hook = lambda I_, g, env, st, node: None if stay(p, m, g, env, I_, S) else opq(S, p, g, env, node, Site(I_.callstack[-1], node))
    run = I.run(f)
    if not S.ns:
        rep.undec('script', nm, 'no parse_args call found')
        return
    if any(g[0] == 'budget' for g in run.gaps):
        rep.undec('script', nm, 'analysis budget exhausted')
        return
    for o in options(run.events):
        if o.ok and o.e.site.func is f:
            local_checks(rep, o, nm, o.e.site)
    seen = {}
    for o in options(run.events):
        if not o.ok:
            continue
        for st in o.strs:
            if st in seen and not exclusive(seen[st].e.path, o.e.path):
                rep.violation('option', nm, 'option %s is registered twice: the script stops before reading its arguments' % st, o.e.site)
            seen[st] = o
    for e in run.events:
        if e.kind == 'arity' and any(True for _ in [0]):
            what = e.target.args[0].split(':')[-1]
            rep.violation('script', nm, 'call of %s: %s' % (what, e.value.args[0]), e.site)
    dl = set()
    for e in run.events:
        if e.kind == 'delattr' and e.target in S.ns:
            if e.extra not in S.ns[e.target] and e.extra:
                rep.violation('script', nm, 'deletes args.%s, which no option defines' % e.extra, e.site)
            dl.add(e.extra)
    leftout(rep, nm, run, S)
    # reads of undefined options
    roots = []
    for e in run.events:
        roots += [x for x in [e.target, e.value] + list(e.path) if isinstance(x, N)]
        ex = e.extra
        if isinstance(ex, dict):
            for k, x in ex.items():
                if isinstance(x, N):
                    roots.append(x)
    sw = set()
    undef = {}
    for r in roots:
        for x in walk(r, sw):
            if x.op == 'attr' and x.args[0] in S.ns:
                undef[x.args[1]] = x
    for a in sorted(undef):
        if not a.startswith('_'):
            rep.violation('script', nm, 'reads args.%s, which no option defines' % a, m.rel)
    # every option given reaches some computation
    used = set()
    sw = set()
    for e in run.events:
        xs = []
        # reaching a ** catch-all or a filter is not a use
        if e.kind == 'invoke':
            continue
        if e.kind == 'call' and e.target.op == 'attr' and e.target.args[1] == 'add_argument':
            continue
        if e.kind == 'call' and callish(e.target).startswith('logging.'):
            continue
        xs += [x for x in [e.target, e.value] + list(e.path) if isinstance(x, N)]
        if isinstance(e.extra, dict):
            xs += [x for x in e.extra.values() if isinstance(x, N)]
        elif isinstance(e.extra, tuple):
            xs += [x for x in e.extra if isinstance(x, N)]
        for x in xs:
            for y in walk(x, sw):
                if y.op == 'opt':
                    used.add(y)
    for x in S.used:
        for y in walk(x, sw):
            if y.op == 'opt':
                used.add(y)
    dests = {d for o in S.ns.values() for d in o}
    for n, (d, o) in sorted(S.optnode.items(), key=lambda t: t[1][0]):
        if n in used or d in dl:
            rep.discharged('script', nm, 'option %s is used' % d)
        else:
            rep.violation('unused', nm, 'option %s (dest %s) reaches nothing' % (o.strs[-1], d), o.e.site)
    # an option bound to the parameter of another option
    for b, site, callee in S.bound:
        for k, v in b.items():
            if isinstance(v, N) and v.op == 'opt' and k != v.args[0] and k in dests and b.get(v.args[0]) is not v:
                w = b.get(v.args[0])
                if isinstance(w, N) and w.op == 'opt':
                    rep.violation('script', nm, 'parameter %s of %s gets option %s and parameter %s gets option %s' % (
                        k, callee, v.args[0], v.args[0], w.args[0]), site)


def leftout(rep, nm, run, S):
    """what a script does with options that are None when left out, when they are all left out"""
    facts = {}
    for n, (d, o) in S.optnode.items():
        if (o.default is None or is_const(o.default, None)) and not is_const(o.kws.get('required', FALSE), True) and 'action' not in o.kws:
            facts[n] = 'none'
            facts[mk('cmp', 'is', n, NONE)] = True
            facts[mk('cmp', 'is not', n, NONE)] = False
    if not facts:
        return
    bad = 0
    for e, w in missing(run.events, S.I.loops, facts):
        bad += 1
        rep.violation('script', nm, w + ' when the options are left out', e.site)
    if not bad:
        rep.discharged('script', nm, 'nothing is missing when the optional options are left out')


def callish(n):
    if n.op == 'ext':
        return n.args[0]
    if n.op == 'attr':
        return callish(n.args[0]) + '.' + n.args[1]
    return ''


def stay(p, m, g, env, I, S):
    """functions whose body is followed in a script: its own, those that
    declare or filter options, and what these call"""
    def setup(h):
        return h.name.startswith(('filter_', 'add_argparse', 'create')) and h.cls is not None
    if g.mod is m or setup(g):
        return True
    if any(isinstance(v, N) and (is_parser(v) or v in S.ns) for v in env.values()):
        return True
    return bool(I.callstack) and I.callstack[-1].mod is g.mod and any(setup(h) for h in I.callstack) \
        and g.name != '__init__'


def opq(S, p, g, env, node, site):
    named = {k: v for k, v in env.items() if isinstance(v, N)}
    kw = g.params()[3]
    S.bound.append((named, site, qual_(g)))
    acc = set()
    if g.name == '__init__' and g.cls is not None:
        for b in p.mro(g.cls):
            i = b.methods.get('__init__')
            if i is not None:
                acc |= set(i.param_names())
    for k, v in named.items():
        if k == kw:
            d = dict_items(v)
            for kk, vv in d or ():
                if not acc or not is_const(kk) or kk.args[0] in acc:
                    S.used.append(vv)
            if d is None:
                S.used.append(v)
        else:
            S.used.append(v)
    k = tuple((x, v) for x, v in named.items())
    return mk('icall', mk('func', g.fq), (), k, 'script%d' % len(S.bound))


def nm(x):
    n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
    return n.lstrip('_') if n else None


def swapped(p, rep):
    """constructor and base-constructor calls that hand one option over as another"""
    byname = {}
    for c in p.all_classes(NUM):
        i = p.find_method(c, '__init__')
        if i is not None:
            byname.setdefault(c.name, []).append(i)
    for f in p.all_funcs(NUM + ['hyperion.bin']):
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call) or any(isinstance(a, ast.Starred) for a in x.args):
                continue
            fn = x.func
            tg = []
            if isinstance(fn, ast.Attribute) and fn.attr == '__init__' and f.cls is not None and isinstance(fn.value, ast.Call):
                b = p.find_method(f.cls, '__init__', after=f.cls)
                tg = [b] if b is not None else []
            elif isinstance(fn, ast.Name):
                r = p.resolve_expr(f.mod, fn)
                if isinstance(r, Cls):
                    b = p.find_method(r, '__init__')
                    tg = [b] if b is not None else []
            for t in tg:
                ps = t.params()[0][1:]
                b = dict(zip(ps, x.args))
                b.update({k.arg: k.value for k in x.keywords if k.arg})
                bad = [(q, nm(a)) for q, a in b.items() if nm(a) not in (None, q) and nm(a) in ps and nm(b.get(nm(a))) != nm(a)]
                for q, a in bad:
                    rep.violation('swapped', qual_(f), '%s gets %s as its %s' % (t.qual, a, q), '%s:%d' % (f.mod.rel, x.lineno))
                if not bad:
                    rep.discharged('swapped', qual_(f))


def check(p, rep, tier):
    swapped(p, rep)
    I = Interp(p)
    n = 0
    for c in p.all_classes(NUM + ['hyperion.torch']):
        if c.mod.name.startswith(UNFINISHED):
            continue
        if any(x.startswith(('add_argparse', 'filter_')) for x in c.methods):
            component(p, rep, c, I)
            n += 1
    rep.require('classes with command-line options', n, 15)
    nf = 0
    for f in p.all_funcs(NUM + ['hyperion.torch.helpers', 'hyperion.torch.lr_schedulers']):
        if f.name.startswith('create') and f.cls is not None and f.kind in ('static', 'classmethod') and not f.mod.name.startswith(UNFINISHED):
            k_ = factory(p, rep, f, f.cls, I)
            nf += k_ > 0
            if k_:
                rep.unit(f.fq)
    rep.require('factories', nf, 1)
    k = 0
    for m in list(p.mods.values()):
        if m.name.startswith('hyperion.bin.') and not m.name.startswith('hyperion.bin.keras-'):
            script(p, rep, m)
            k += 1
    rep.require('scripts', k, 20)
