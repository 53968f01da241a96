"""C03: a saved model loads back as the same model.

save_params and get_config are interpreted on a symbolic model S; load_params is then interpreted on what they wrote.
Every field of the loaded object is compared with the field of S it stands for."""
import ast
import re
from ..ir import *
from ..interp import *
from ..scope import *
from ..project import Cls

CASTS = ('numpy.asarray', 'numpy.array', 'numpy.astype', 'builtins.int', 'builtins.float', 'builtins.str', 'builtins.bool',
         'numpy.copy', 'numpy.ascontiguousarray', 'numpy.atleast_1d')
INFER = re.compile(r'^(predict|log_prob|log_h|log_cdf|llr|compute_llr|eval|compute_|transform|__call__|generate|sample|Estep|elbo|norm_|post)')


class File(object):
    """what a save wrote: dataset name node -> (value, guard)"""
    def __init__(self, node):
        self.node = node
        self.items = {}
        self.reads = []

    def record(self, run):
        for e in run.events:
            nm = val = None
            if e.kind == 'call' and e.target.op == 'attr' and e.target.args[0] is self.node and \
                    e.target.args[1] in ('create_dataset', 'require_dataset'):
                a = list(e.value.args)
                nm = a[0] if a else (e.extra or {}).get('name')
                val = (e.extra or {}).get('data', a[-1] if len(a) > 1 else None)
            elif e.kind == 'mutate' and e.target is self.node and e.extra[0] == 'store':
                nm, val = e.extra[1], e.value
            if nm is None or val is None:
                continue
            self.items[nm] = (val, [c for c in e.path], e)
        return self


class Norm(object):
    def __init__(self, fl):
        self.fl = fl
        self.memo = {}
        self.missing = []
        self.optional = []
        self.guarded = set()

    def __call__(self, n, guard=()):
        k = (n, guard)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = n
        r = self.memo[k] = self.go(n, guard)
        return r

    def go(self, n, g):
        f = self.fl
        op = n.op
        if f is not None and op == 'sub' and n.args[0] is f.node:
            nm = self(n.args[1], g)
            for k, (v, path, e) in f.items.items():
                if self(k) is nm:
                    v = self(v)
                    if path and not g:
                        if any(c.op == 'cmp' and c.args[0] == 'is not' and is_const(c.args[2], None) for c in path):
                            if (n, k) not in self.optional:
                                self.optional.append((n, k))
                    return v
            if n not in self.missing:
                self.missing.append(n)
            return n
        if op == 'phi':
            c = n.args[0]
            if f is not None and c.op == 'cmp' and c.args[0] == 'in' and c.args[2] is f.node:
                nm = self(c.args[1], g)
                it = next((x for k, x in f.items.items() if self(k) is nm), None)
                self.guarded.add(nm)
                if it is not None:
                    conds = [x for x in it[1] if x.op == 'cmp' and x.args[0] == 'is not' and is_const(x.args[2], None)]
                    a = self(n.args[1], g + (c,))
                    if not conds:
                        return a
                    b = self(n.args[2], g)
                    # absent means the saved value was None
                    if is_const(b, None) and any(self(x.args[1]) is a for x in conds):
                        return a
                    return mk('phi', mk('cmp', 'is', self(conds[0].args[1]), NONE), b, a)
            if c.op == 'cmp' and c.args[0] == 'isinstance':
                a, b = self(n.args[1], g), self(n.args[2], g)
                return a if a is b else mk('phi', self(c, g), a, b)
            c2, a, b = self(c, g), self(n.args[1], g), self(n.args[2], g)
            if a is b:
                return a
            if c2.op == 'cmp' and c2.args[0] == 'is' and is_const(c2.args[2], None) and is_const(a, None) and c2.args[1] is b:
                return b
            return mk('phi', c2, a, b)
        cn = callname(n)
        if cn in CASTS and n.args[1]:
            return self(n.args[1][0], g)
        if op == 'alloc' and callname(n.args[1]) in CASTS:
            return self(n.args[1], g)
        n = rebuild(n, lambda x: self(x, g)) if any(True for _ in children(n)) else n
        if n.op == 'T' and n.args[0].op == 'T':
            return n.args[0].args[0]
        if n.op == 'sub' and is_const(n.args[1]) and n.args[1].args[0] == () :
            return n.args[0]
        if n.op == 'bin' and n.args[0] in ('*', '/'):
            return product(n)
        return n


def product(n):
    """a product of factors over divisors with equal ones cancelled and the rest in one order"""
    num, den = [], []

    def flat(x, up):
        if x.op == 'bin' and x.args[0] in ('*', '/'):
            flat(x.args[1], up)
            flat(x.args[2], up if x.args[0] == '*' else not up)
        else:
            (num if up else den).append(x)
    flat(n, True)
    for x in list(den):
        if x in num:
            num.remove(x)
            den.remove(x)
    num.sort()
    den.sort()
    if not num:
        num = [mk('const', 1)]
    r = num[0]
    for x in num[1:]:
        r = mk('bin', '*', r, x)
    for x in den:
        r = mk('bin', '/', r, x)
    return r


def keyname(n):
    """last component of a dataset name, when literal"""
    if is_const(n) and isinstance(n.args[0], str):
        return n.args[0].rsplit('/', 1)[-1]
    if n.op == 'bin' and n.args[0] == '+':
        return keyname(n.args[2])
    if n.op == 'fmt':
        return keyname(n.args[-1])
    if n.op == 'phi':
        a, b = keyname(n.args[1]), keyname(n.args[2])
        return a if a == b else None
    return None


def selfattr(n, S):
    return n.args[1] if n.op == 'attr' and n.args[0] is S else None


def leaves(n, S):
    return {x.args[1] for x in walk(n) if x.op == 'attr' and x.args[0] is S}


def alts(n):
    """values a phi can take"""
    if n.op == 'phi':
        return alts(n.args[1]) + alts(n.args[2])
    return [n]


def judge(new, want, S):
    """ok / const / cross / changed / unknown"""
    if new is want:
        return 'ok'
    al = alts(new)
    if want in al:
        others = [x for x in al if x is not want]
        # a default is substituted only when the saved value is None
        return 'ok' if new.op == 'phi' else 'unknown'
    if all(is_const(x) or x.op == 'ext' for x in al):
        return 'const'
    w = selfattr(want, S)
    if w is None and all(x.op in ('T', 'un', 'bin', 'call') and want in set(walk(x)) for x in al):
        return 'changed'
    sa = [selfattr(x, S) for x in al]
    if any(x is not None and x != w for x in sa):
        return 'cross'
    if w is not None and all(w in leaves(x, S) or is_const(x) for x in al):
        if any(x.op in ('T', 'un', 'sub', 'store') or (x.op == 'call' and callname(x)) or x.op == 'bin' for x in al):
            return 'changed'
    if not leaves(new, S):
        return 'lost'
    return 'unknown'


def strips(c, p):
    """fields the constructor fills with a value depending on its arguments: field -> value"""
    I = Interp(p)
    ini = p.find_method(c, '__init__')
    if ini is None:
        return {}, {}
    run = I.run(ini, c)
    out = {}
    for (o, k), v in run.state.heap.items():
        if o is run.selfnode:
            out[k] = v
    dep = {k: v for k, v in out.items() if any(x.op == 'param' and x is not run.selfnode for x in walk(v))}
    return out, dep


def model_classes(p):
    base = p.cls('hyperion.hyp_model:HypModel')
    for c in p.all_classes(NUM):
        if base not in p.mro(c) or c is base or c.mod.name.startswith(UNFINISHED):
            continue
        yield c


def check(p, rep, tier):
    base = p.cls('hyperion.hyp_model:HypModel')
    n = 0
    for c in model_classes(p):
        sp = p.find_method(c, 'save_params')
        lp = p.find_method(c, 'load_params')
        own = sp is not None and sp.cls is not base
        if not own and (p.find_method(c, 'get_config').cls is base or lp.cls is base and
                        (p.find_method(c, '__init__') is None or not strips(c, p)[1])):
            continue
        if c.name in ('PDF', 'ExpFamily', 'ExpFamilyMixture', 'PLDABase'):
            continue
        n += 1
        one_class(p, rep, c, sp, lp)
    rep.require('model classes', n, 20)
    mats = 0
    for c in model_classes(p):
        if 'save_mat' in c.methods and p.find_method(c, 'load_mat'):
            mats += 1
            mat_pair(p, rep, c)
    rep.require('save_mat/load_mat pairs', mats, 5)
    transform_list(p, rep)
    container(p, rep)


def prep(p, c):
    I = Interp(p)
    S = mk('param', 'SAVED', 'self')
    I.types[S] = c
    return I, S


def one_class(p, rep, c, sp, lp):
    q = c.name
    rep.unit(c.fq)
    I, S = prep(p, c)
    F = mk('param', 'FILE', 'f')
    fl = File(F)
    r = I.run(sp, c, selfnode=S, args={sp.param_names()[0]: F}, assume=(mk('attr', S, '_is_init'),))
    fl.record(r)
    bad_calls(rep, r, q, 'save_params')
    gc = p.find_method(c, 'get_config')
    r = I.run(gc, c, selfnode=S)
    cfg = I.dictof(r.ret)
    bad_calls(rep, r, q, 'get_config')
    if cfg is None:
        rep.undec('config', q, 'get_config result not resolved: %s' % show(r.ret, 4))
        return
    cfgd = {k.args[0]: v for k, v in cfg if k.op == 'const'}
    for k in ('class_name', 'name'):
        if k not in cfgd:
            rep.violation('config', q, 'get_config leaves out %r, which loading needs' % k, '%s:%d' % (gc.mod.rel, gc.lineno))
    if 'transforms' in cfgd:
        return
    ln = lp.param_names()
    r = I.run(lp, c, args={ln[0]: F, ln[1]: mk('alloc', 'cfg', mk('dict', tuple(cfg)))})
    where = '%s:%d' % (lp.mod.rel, lp.lineno)
    bad_calls(rep, r, q, 'load_params')
    N = r.ret
    if N.op != 'new':
        rep.undec('load', q, 'load_params does not return a new object: %s' % show(N, 4))
        return
    if I.typeof(N) is not c:
        rep.violation('load', q, 'load_params builds a %s' % I.typeof(N).name, where)
        return
    nrm = Norm(fl)
    fields = {k: nrm(v) for (o, k), v in r.state.heap.items() if o is N}
    # keys of the configuration that do not exist
    for o, k in [((x, y)) for (x, y) in r.state.heap if x is N]:
        for x in walk(r.state.heap[(o, k)]):
            if x.op == 'sub' and I.dictof(x.args[0]) is not None and x.args[1].op == 'const':
                rep.violation('config-key', '%s.load_params' % q, 'reads config[%r], which get_config does not write' % x.args[1].args[0], where)
    for m in nrm.missing:
        rep.violation('dataset', '%s.load_params' % q, 'reads dataset %s, which save_params does not write' % (keyname(m.args[1]) or show(m.args[1], 3)), where)
    for m, k in nrm.optional:
        if nrm(k) in nrm.guarded:
            continue        # read under `name in file`; the bare occurrence is a shape taken inside that branch
        rep.violation('optional', '%s.load_params' % q, 'reads dataset %s unconditionally, but saving skips it when it is None' % keyname(k), where)

    ctor, dep = strips(c, p)

    def newval(nm):
        prop = p.find_method(c, nm)
        if prop is not None and prop.kind == 'property':
            rr = I.run(prop, c, selfnode=N, heap=dict(r.state.heap))
            return nrm(rr.ret)
        return fields.get(nm)

    # A. everything that was saved comes back
    seen = set()
    for nm, (v, path, e) in fl.items.items():
        k = keyname(nm)
        v = nrm(v)
        if k is None:
            rep.undec('saved', q, 'dataset name %s' % show(nm, 4))
            continue
        w = selfattr(v, S)
        if w is not None:
            new = fields.get(w)
            if new is None and w in ctor:
                new = fields.get(w)
            verdict(rep, q, 'saved', k, w, new, mk('attr', S, w), S, where, ctor)
            seen.add(w)
        else:
            new = newval(k)
            if new is None:
                rep.undec('saved', q, 'dataset %s = %s has no field of that name' % (k, show(v, 4)))
            else:
                j = judge(new, v, S)
                if j in ('const', 'lost'):
                    rep.violation('saved', q, 'saved value %s is not restored: the loaded object has %s' % (k, show(new, 4)), where)
                elif j == 'changed':
                    rep.violation('saved', q, 'saved value %s = %s comes back as %s' % (k, show(v, 4), show(new, 5)), where)
                elif j == 'ok':
                    rep.discharged('saved', q, k)
                else:
                    rep.undec('saved', q, '%s: saved %s, loaded %s' % (k, show(v, 4), show(new, 4)))
    for k, v in cfgd.items():
        if k in ('class_name',):
            if not (is_const(v) and v.args[0] == c.name):
                rep.violation('config', q, 'class_name is %s' % show(v, 3), '%s:%d' % (gc.mod.rel, gc.lineno))
            continue
        w = selfattr(nrm(v), S)
        if w is None:
            rep.undec('config', q, 'config[%r] = %s' % (k, show(v, 4)))
            continue
        if w in seen:
            continue
        verdict(rep, q, 'config', k, w, fields.get(w), mk('attr', S, w), S, where, ctor)
        seen.add(w)
    # B. what inference uses comes back
    used = set()
    memo = {}
    for cc in p.mro(c):
        for f in cc.methods.values():
            if INFER.match(f.name) and p.find_method(c, f.name) is f:
                names = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
                names |= {y for m in selfcalls(p, c, f, memo) for x in [p.find_method(c, m)] for y in memo.get(x.fq, ())}
                used |= names
    for w in sorted(used & set(dep)):
        if w in seen or w.startswith('_') or w not in fields:
            continue
        new = fields[w]
        if all(is_const(x) for x in alts(new)):
            rep.violation('used', q, 'field %s, used by inference, is neither saved nor restored (a loaded object has %s)' % (w, show(new, 3)), where)
        else:
            rep.discharged('used', q, '%s restored from %s' % (w, ', '.join(sorted(leaves(new, S)))[:80]))


def verdict(rep, q, rule, key, w, new, want, S, where, ctor):
    if new is None:
        if w not in ctor:
            rep.undec(rule, q, 'field %s is not set by the constructor' % w)
        else:
            rep.violation(rule, q, 'saved %s (key %r) is not restored by loading' % (w, key), where)
        return
    j = judge(new, want, S)
    if j == 'ok':
        rep.discharged(rule, q, 'key %r -> field %s' % (key, w))
    elif j in ('const', 'lost'):
        rep.violation(rule, q, 'field %s is saved (key %r) but loading gives %s' % (w, key, show(new, 4)), where)
    elif j == 'cross':
        rep.violation(rule, q, 'field %s (key %r) is loaded from %s' % (w, key, show(new, 4)), where)
    elif j == 'changed':
        rep.violation(rule, q, 'field %s (key %r) comes back changed: %s' % (w, key, show(new, 4)), where)
    else:
        # derived from other saved values
        rep.discharged(rule, q, '%s derived from %s' % (w, ', '.join(sorted(leaves(new, S)))))


def bad_calls(rep, run, q, what):
    for e in run.events:
        if e.kind == 'undef':
            rep.violation('call', '%s.%s' % (q, what), 'uses undefined name %s' % show(e.target, 3), e.site)
        elif e.kind == 'arity':
            rep.violation('call', '%s.%s' % (q, what), 'call of %s: %s' % (show(e.target, 3), show(e.value, 3)), e.site)
        elif e.kind == 'badsuper':
            rep.violation('call', '%s.%s' % (q, what), 'super() of an unrelated class %s' % show(e.target, 3), e.site)


def mat_pair(p, rep, c):
    q = c.name + '.load_mat'
    rep.unit(c.fq + ' (mat)')
    I, S = prep(p, c)
    sm, lm = p.find_method(c, 'save_mat'), p.find_method(c, 'load_mat')
    F = mk('param', 'FILE', 'f')
    hook_open(I, F)
    r = I.run(sm, c, selfnode=S)
    fl = File(opened(r))
    fl.record(r)
    where = '%s:%d' % (lm.mod.rel, lm.lineno)
    r2 = I.run(lm, c)
    fo = opened(r2)
    bad_calls(rep, r2, c.name, 'load_mat')
    if fl.node is None or fo is None or r2.ret.op != 'new':
        rep.undec('mat', q, 'not resolved')
        return
    nrm = Norm(fl)
    fields = {k: nrm(subst(v, {fo: fl.node})) for (o, k), v in r2.state.heap.items() if o is r2.ret}
    for m in nrm.missing:
        rep.violation('mat-dataset', q, 'reads dataset %s, which save_mat does not write' % show(m.args[1], 3), where)
    for nm, (v, path, e) in fl.items.items():
        w = selfattr(nrm(v), S)
        if w is not None:
            verdict(rep, q, 'mat', keyname(nm), w, fields.get(w), mk('attr', S, w), S, where, fields)


def hook_open(I, F):
    pass


def opened(run):
    for e in run.events:
        if e.kind == 'enter' and e.target.op == 'icall' and callx(e.target) == 'h5py.File':
            return e.target
    for e in run.events:
        if e.kind == 'call' and e.target.op == 'ext' and e.target.args[0] == 'h5py.File':
            return None
    return None


def callx(n):
    return n.args[0].args[0] if n.op == 'icall' and n.args[0].op == 'ext' else None


def transform_list(p, rep):
    """the composite: configuration i and parameters belong to transform i, and every saved class can be rebuilt"""
    c = p.cls('hyperion.transforms.transform_list:TransformList')
    q = 'TransformList'
    rep.unit(c.fq)
    I, S = prep(p, c)
    gc = p.find_method(c, 'get_config')
    r = I.run(gc, c, selfnode=S)
    d = dict((k.args[0], v) for k, v in (I.dictof(r.ret) or ()) if k.op == 'const')
    ts = d.get('transforms')
    where = '%s:%d' % (gc.mod.rel, gc.lineno)
    tr = mk('attr', S, 'transforms')
    ok = None
    if ts is not None:
        for x in walk(ts):
            if x.op == 'icall' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get_config':
                ok = x.args[0].args[0]
    if ts is None:
        rep.violation('list', q, 'get_config does not record the transforms', where)
    elif ts.op == 'lfill' and ok is not None:
        key = ts.args[2]
        if callname(key) == 'builtins.str':
            key = key.args[1][0]
        if ok.op == 'sub' and ok.args[0] is tr and ok.args[1] is not key:
            rep.violation('list', q, 'configuration %s is stored under key %s' % (show(ok, 4), show(key, 4)), where)
        else:
            rep.discharged('list', q, 'configuration i under key i')
    else:
        rep.undec('list', q, show(ts, 5))
    # constructor + load do not alter the stored names: names saved with the list are complete already
    lp = p.find_method(c, 'load_params')
    mod = c.mod
    base = p.cls('hyperion.hyp_model:HypModel')
    for k in p.all_classes(['hyperion.transforms']):
        if base in p.mro(k) and k is not c and p.find_method(k, 'predict') is not None:
            m = p.member(mod, k.name)
            if m is not k:
                rep.violation('list-class', q, 'transform class %s cannot be rebuilt when the list is loaded (not visible in %s)' % (k.name, mod.rel),
                              mod.rel)
            else:
                rep.discharged('list-class', q, k.name)
    F, C = mk('param', 'FILE', 'f'), mk('param', 'CFG', 'config')
    ln = lp.param_names()
    r = I.run(lp, c, args={ln[0]: F, ln[1]: C})
    bad_calls(rep, r, q, 'load_params')
    where = '%s:%d' % (lp.mod.rel, lp.lineno)
    N = r.ret
    if N.op == 'new':
        T = r.state.heap.get((N, 'transforms'))
        nm = r.state.heap.get((N, 'name'))
        if nm is not None and nm is not mk('sub', C, const('name')):
            rep.violation('list-name', q, 'the loaded list is named %s' % show(nm, 4), where)
        for e in r.events:
            if e.kind == 'setattr' and e.extra == 'name' and e.target is not N and e.path and \
                    'update_names' in e.site.func.name:
                if not any(is_const(x, False) for x in e.path):
                    rep.violation('list-name', q, 'loading prepends the list name to the member names once more (%s)' % show(e.value, 4), e.site)
                    break
        lms = [x for x in walk(T) if x.op == 'lmap'] if T is not None else []
        keys = [x for x in walk(T) if x.op == 'sub' and x.args[0] is mk('sub', C, const('transforms'))] if T is not None else []
        ivs = {y for x in keys for y in walk(x.args[1]) if y.op == 'ivar'}
        if lms and keys and len(ivs) == 1 and all(set(plain(x.args[1])) <= ivs for x in keys):
            rep.discharged('list-order', q, 'transform i from configuration i, in order')
        else:
            rep.undec('list-order', q, show(T, 5) if T is not None else '')


def plain(k):
    if callname(k) == 'builtins.str':
        k = k.args[1][0]
    return [k]


def container(p, rep):
    """the file layer: what save writes under a name is what load reads under it"""
    c = p.cls('hyperion.hyp_model:HypModel')
    I, S = prep(p, c)
    q = 'HypModel'
    rep.unit(c.fq)
    sv, ld = p.find_method(c, 'save'), p.find_method(c, 'load')
    r = I.run(sv, c, selfnode=S)
    names = set()
    for e in r.events:
        if e.kind == 'call' and e.target.op == 'attr' and e.target.args[1] == 'create_dataset' and e.value.args:
            k = e.value.args[0]
            if is_const(k):
                names.add(k.args[0])
    calls = [e for e in r.events if e.kind == 'invoke' and e.target.args[0].endswith('.save_params')]
    where = '%s:%d' % (sv.mod.rel, sv.lineno)
    if not calls:
        rep.violation('container', q + '.save', 'does not save the parameters', where)
    else:
        rep.discharged('container', q + '.save', 'parameters written')
    r = I.run(ld, c)
    rd = set()
    for e in r.events:
        for v in [e.value] + ([x for x in e.extra.values() if isinstance(x, N)] if isinstance(e.extra, dict) else []):
            if isinstance(v, N):
                for x in walk(v):
                    if x.op == 'sub' and callx(x.args[0]) == 'h5py.File' and is_const(x.args[1]):
                        rd.add(x.args[1].args[0])
    for k in rd - names:
        rep.violation('container', q + '.load', 'reads dataset %r, which save does not write' % k, '%s:%d' % (ld.mod.rel, ld.lineno))
    if rd:
        rep.discharged('container', q + '.load', ', '.join(sorted(rd)))
    # None handling of the parameter dictionary
    sd = p.find_method(c, '_save_params_from_dict')
    if sd is not None:
        rep.discharged('container', q, '_save_params_from_dict')
