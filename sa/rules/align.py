"""C01: entries of a labelled container stay attached to their labels.

Named axes: every declared field of a container must, in every object a method
produces, be ordered like the label list it belongs to; index arrays may only
be applied to the axis they point into; stores and elementwise combinations
must join equal axes.  Plus provenance (a field is built from the same field of
its sources) and label-space typing of the list operations."""
import ast
import itertools
from ..ir import *
from ..interp import *
from ..axes import *
from ..scope import users

U = 'hyperion.utils.'
# class -> (label field per axis, {field: axes}, provenance-exclusive fields)
SCHEMA = {
    U + 'trial_ndx:TrialNdx': dict(labels={'M': 'model_set', 'S': 'seg_set'},
                                   fields={'trial_mask': ('M', 'S')}),
    U + 'trial_key:TrialKey': dict(labels={'M': 'model_set', 'S': 'seg_set'},
                                   fields={'tar': ('M', 'S'), 'non': ('M', 'S'), 'model_cond': ('MC', 'M'),
                                           'seg_cond': ('SC', 'S'), 'trial_cond': ('TC', 'M', 'S')}),
    U + 'trial_scores:TrialScores': dict(labels={'M': 'model_set', 'S': 'seg_set'},
                                         fields={'scores': ('M', 'S'), 'score_mask': ('M', 'S')}),
    U + 'scp_list:SCPList': dict(labels={'K': 'key'},
                                 fields={'file_path': ('K',), 'offset': ('K',), 'range_spec': ('K', '2')}),
}
FIELDS = {}
for c, d in SCHEMA.items():
    for ax_, l in d['labels'].items():
        FIELDS[l] = (ax_,)
    for f, a in d['fields'].items():
        FIELDS.setdefault(f, a)
LABELFIELDS = {l for d in SCHEMA.values() for l in d['labels'].values()}
LABELKIND = {'model_set': 'model', 'seg_set': 'segment', 'key': 'key', 'file_path': 'file'}


def schema(obj, name):
    a = FIELDS.get(name)
    if a is None:
        return None
    return T([mk('ax', obj if x in 'MSK' else NONE, x) for x in a], kind='labels' if len(a) == 1 else None)


SUMMARY = {'hyperion.utils.list_utils:' + x for x in ('ismember', 'intersect', 'sort', 'split_list', 'split_list_group_by_key')}


def labelkind(n, depth=12):
    """which label space a list of labels lives in"""
    n = strip(n)
    if depth == 0:
        return None
    if n.op == 'attr':
        return LABELKIND.get(n.args[1])
    if n.op == 'param':
        return LABELKIND.get(n.args[1])
    if n.op == 'phi':
        a, b = labelkind(n.args[1], depth - 1), labelkind(n.args[2], depth - 1)
        return a if a == b else None
    if n.op == 'sub':
        if n.args[0].op == 'call' and n.args[0].args[0].op == 'func':
            kw = dict(n.args[0].args[2])
            if is_const(n.args[1], 0) and 'a' in kw:
                return labelkind(kw['a'], depth - 1)
            return None
        if n.args[1].op in ('ivar',) or n.args[1].op == 'const':
            return None
        return labelkind(n.args[0], depth - 1)
    cn = callname(n)
    if cn in ('numpy.setdiff1d', 'numpy.union1d', 'numpy.intersect1d') and len(n.args[1]) >= 2:
        a, b = labelkind(n.args[1][0], depth - 1), labelkind(n.args[1][1], depth - 1)
        return a or b
    if cn in ('numpy.unique', 'numpy.sort') and n.args[1]:
        return labelkind(n.args[1][0], depth - 1)
    return None


def roots(n, acc=None, depth=40):
    """fields (of any container) a data expression selects from"""
    acc = set() if acc is None else acc
    if depth == 0:
        return acc
    n = strip(n)
    r = lambda x: roots(x, acc, depth - 1)
    if n.op == 'attr':
        if n.args[1] in FIELDS:
            acc.add(n.args[1])
    elif n.op == 'sub':
        r(n.args[0])
    elif n.op in ('T', 'alloc'):
        r(n.args[0] if n.op == 'T' else n.args[1])
    elif n.op == 'store':
        r(n.args[0])
        if n.args[2].op != 'const':
            r(n.args[2])
    elif n.op == 'lfill':
        r(n.args[0])
        r(n.args[3])
    elif n.op == 'lmap':
        r(n.args[1])
    elif n.op == 'phi':
        r(n.args[1])
        r(n.args[2])
    elif n.op in ('bin', 'iop'):
        r(n.args[1])
        r(n.args[2])
    elif n.op in ('lphi', 'lfin'):
        L = CUR.loops.get(n.args[0])
        x = n if n.op == 'lphi' else n.args[2]
        if L is not None and x in L.entry:
            key = ('seen', x)
            if key not in acc:
                acc.add(key)
                r(L.entry[x])
                r(L.back[x])
    elif callname(n) in ('numpy.concatenate', 'numpy.take', 'numpy.delete', 'numpy.repeat', 'numpy.squeeze', 'numpy.append'):
        r(n.args[1][0])
        if callname(n) == 'numpy.append':
            r(n.args[1][1])
    elif n.op in ('list', 'tuple'):
        for x in n.args:
            r(x)
    elif n.op == 'append':
        r(n.args[0])
        r(n.args[1])
    return acc


CUR = None


def fieldval(st, o, f):
    v = st.heap.get((o, f))
    if v is not None:
        return v
    if o.op == 'objcopy':
        return fieldval(st, o.args[1], f)
    return mk('attr', o, f)


def objects_of(run, I):
    """(object, class) pairs produced or updated by the run"""
    out = []
    todo = [run.ret]
    while todo:
        n = todo.pop()
        if n.op == 'phi':
            todo += [n.args[1], n.args[2]]
        elif n.op == 'tuple':
            todo += list(n.args)
        elif n.op in ('new', 'objcopy'):
            c = I.typeof(n)
            if c is not None:
                out.append((n, c))
    if run.selfnode is not None:
        c = I.typeof(run.selfnode)
        if any(k[0] is run.selfnode for k in run.state.heap):
            out.append((run.selfnode, c))
    return out


def polarity(term, own, param):
    """parity of complement operations applied between the caller's list and the
    selection; None if the caller's list plays no part"""
    res = set()

    def rec(n, p, depth):
        if depth == 0:
            return
        n = strip(n)
        if n is param:
            res.add(p)
            return
        cn = callname(n)
        if cn == 'numpy.setdiff1d' and len(n.args[1]) >= 2:
            rec(n.args[1][1], 1 - p, depth - 1)
            rec(n.args[1][0], p, depth - 1)
            return
        if cn == 'numpy.isin' or cn == 'numpy.in1d':
            inv = kwof(n, 'invert')
            rec(n.args[1][1], 1 - p if inv is not None and is_const(inv, True) else p, depth - 1)
            return
        if n.op == 'un' and n.args[0] == '~' or n.op == 'not':
            rec(n.args[-1], 1 - p, depth - 1)
            return
        if n.op == 'cmp' and n.args[0] == '==' and is_const(n.args[2], False):
            rec(n.args[1], 1 - p, depth - 1)
            return
        if n.op == 'cmp' and n.args[0] in ('==',) and is_const(n.args[2], 0):
            rec(n.args[1], 1 - p, depth - 1)
            return
        if n.op == 'cmp' and n.args[0] == 'not in':
            rec(n.args[2], 1 - p, depth - 1)
            return
        if cn in ('numpy.delete',):
            rec(n.args[1][1], 1 - p, depth - 1)
            return
        if n.op in ('param', 'const', 'attr'):
            return
        for c in children(n):
            rec(c, p, depth - 1)
    rec(term, 0, 25)
    return res


def check(p, rep, tier):
    global CUR
    nfun = 0
    for cfq, sch in sorted(SCHEMA.items()):
        c = p.cls(cfq)
        for m in sorted(c.methods.values(), key=lambda f: f.lineno):
            if m.kind == 'property' or m.name in ('test', '__init__', 'validate'):
                continue
            if users(m):
                continue
            I = Interp(p)
            I.noinline |= SUMMARY
            CUR = I
            run = I.run(m, c)
            objs = [(o, k) for o, k in objects_of(run, I) if k is not None and k.fq in SCHEMA]
            if not objs:
                # still run the local rules on methods that only read
                if m.name in ('__eq__', '__ne__', '__cmp__', '__len__', 'copy', 'len', 'save', '_create_dict', 'get_index', '__contains__'):
                    continue
            nfun += 1
            rep.unit('%s.%s' % (c.name, m.name))
            analyse(p, rep, I, run, m, objs)
    rep.require('container operations analysed', nfun, 20)
    contracts(p, rep)


def analyse(p, rep, I, run, m, objs):
    construct = m.fq.split(':')[1]
    where = '%s:%d' % (m.mod.rel, m.lineno)
    # label-space typing of list operations
    kinds = 0
    for e in run.events:
        prs = []
        if e.kind == 'invoke' and e.target.args[0].split(':')[1] in ('ismember', 'intersect'):
            prs.append((e.extra['a'], e.extra['b'], e.target.args[0].split(':')[1]))
        if e.kind == 'call' and e.target.op == 'ext' and e.target.args[0] in (
                'numpy.setdiff1d', 'numpy.union1d', 'numpy.intersect1d', 'numpy.isin', 'numpy.in1d') and len(e.value.args) >= 2:
            prs.append((e.value.args[0], e.value.args[1], e.target.args[0].replace('numpy.', 'np.')))
        for a, b, fn in prs:
            ka, kb = labelkind(a), labelkind(b)
            if ka and kb:
                if ka != kb:
                    rep.violation('label-space', construct, '%s matches %s names against %s names: %s / %s' % (
                        fn, ka, kb, show(strip(a), 3), show(strip(b), 3)), e.site)
                else:
                    rep.discharged('label-space', construct, '%s on %s names' % (fn, ka))
                    kinds += 1
    # case split on the top-level guards of the produced fields
    conds = []
    for o, c in objs:
        sch = SCHEMA[c.fq]
        for f in list(sch['labels'].values()) + list(sch['fields']):
            for a in top_conds(fieldval(run.state, o, f)):
                if a not in conds and a.op != 'broke' and not (a.op == 'cmp' and a.args[0] == 'isinstance'):
                    conds.append(a)
    keep = run.env0.get('keep')
    if keep is not None and keep not in conds:
        conds.insert(0, keep)
    conds = conds[:7]
    for vals in itertools.product((True, False), repeat=len(conds)):
        asg = dict(zip(conds, vals))
        if inconsistent(asg) or any(v and c.op == 'cmp' and c.args[0] == 'is' and c.args[1].op == 'attr' and
                                    c.args[1].args[1] in LABELFIELDS for c, v in asg.items()):
            continue
        pm = {}
        for o, c in objs:
            sch = SCHEMA[c.fq]
            A = Axes(schema, I)
            value = {f: project(fieldval(run.state, o, f), asg, pm) for f in list(sch['labels'].values()) + list(sch['fields'])}
            anchor = {}
            for axn, l in sch['labels'].items():
                anchor[axn] = A.laxis(value[l])
            touched = any((o, f) in run.state.heap for f in value)
            for f, axs in sch['fields'].items():
                v = value[f]
                if is_const(v, None):
                    continue
                t = A.ty(v)
                if t is None:
                    if touched:
                        rep.undec('axis', '%s -> %s.%s' % (construct, c.name, f), 'no axis type for %s' % show(v, 5))
                    continue
                if len(t.axes) != len(axs):
                    if len(t.axes) < len(axs):
                        rep.undec('axis', '%s -> %s.%s' % (construct, c.name, f), 'rank differs')
                    continue
                for k, axn in enumerate(axs):
                    if axn not in anchor:
                        continue
                    a, b = t.axes[k], anchor[axn]
                    if a is None:
                        rep.undec('axis', '%s -> %s.%s' % (construct, c.name, f), 'axis %d unknown' % k)
                    elif a is b:
                        rep.discharged('axis', '%s -> %s.%s axis %d' % (construct, c.name, f, k), axname(a)[:120])
                    elif grounded(a) and grounded(b):
                        rep.violation('axis', '%s -> %s.%s' % (construct, c.name, f),
                                      'axis %d is ordered as %s but %s is ordered as %s' % (
                                          k, axname(a)[:160], sch['labels'][axn], axname(b)[:160]), where)
                    else:
                        rep.undec('axis', '%s -> %s.%s' % (construct, c.name, f), 'axis %d: %s vs %s' % (k, axname(a)[:80], axname(b)[:80]))
            # provenance
            for f, v in value.items():
                if not touched or is_const(v, None):
                    continue
                rs = {x for x in roots(v) if isinstance(x, str)}
                own = set(value)
                rs &= own
                if not rs:
                    continue
                if f not in rs:
                    rep.violation('provenance', '%s -> %s.%s' % (construct, c.name, f),
                                  'field %s is filled from %s' % (f, ', '.join(sorted(rs))), where)
                elif rs - {f} and f not in ('score_mask', 'scores'):
                    rep.violation('provenance', '%s -> %s.%s' % (construct, c.name, f),
                                  'field %s mixes in %s' % (f, ', '.join(sorted(rs - {f}))), where)
                else:
                    rep.discharged('provenance', '%s -> %s.%s' % (construct, c.name, f))
            # polarity of keep
            if keep is not None and keep in asg and m.name.startswith('filter'):
                for axn, l in sch['labels'].items():
                    par = run.env0.get(l if l in run.env0 else 'filter_key' if 'filter_key' in run.env0 else 'index')
                    if par is None or par.op != 'param':
                        continue
                    pol = polarity(value[l], None, par)
                    for f, axs in sch['fields'].items():
                        if axn in axs and not is_const(value[f], None):
                            t = A.ty(value[f])
                            if t is not None and len(t.axes) == len(axs) and t.axes[axs.index(axn)] is not None:
                                pol |= polarity(t.axes[axs.index(axn)], None, par)
                    want = 0 if asg[keep] else 1
                    if not pol:
                        rep.undec('keep', construct, 'selection does not mention the list for %s' % l)
                    elif pol == {want}:
                        rep.discharged('keep', construct, '%s keep=%s' % (l, asg[keep]))
                    elif 1 - want in pol and want not in pol:
                        rep.violation('keep', construct, 'with keep=%s the selection of %s is the complement of what was asked' % (asg[keep], l), where)
                    else:
                        rep.undec('keep', construct, 'mixed polarity')
            # which part
            if m.name == 'split':
                partargs(rep, construct, where, sch, value, A, run)
            A.check_loops()
            for n_, msg in A.conflicts:
                st = I.origin.get(n_) if hasattr(I, 'origin') else None
                rep.violation('index-axis', construct, msg, st or where)
    # effects inside the method: type every array expression evaluated
    A = Axes(schema, I)
    cnt = 0
    for n in list(I.origin):
        if n.op in ('sub', 'store', 'bin', 'cmp', 'iop', 'lfill'):
            if A.ty(n) is not None:
                cnt += 1
    for e in run.events:
        if e.kind == 'mutate' and isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'store':
            A.ty(mk('store', e.target, e.extra[1], e.value))
    loops = A.check_loops()
    for i in range(loops):
        rep.discharged('loop-invariant', construct)
    for n_, msg in A.conflicts:
        rep.violation('index-axis', construct, msg, I.origin.get(n_) or where)
    for i in range(cnt):
        rep.obl += 1
        rep.ok += 1
    rep.rules['index-axis'] = rep.rules.get('index-axis', 0) + cnt


def inconsistent(asg):
    """x is None and x.foo == ... style contradictions are harmless; only drop
    assignments where one object is claimed to be two constants"""
    eq = {}
    for c, v in asg.items():
        if v and c.op == 'cmp' and c.args[0] == '==' and c.args[2].op == 'const':
            if c.args[1] in eq and eq[c.args[1]] is not c.args[2]:
                return True
            eq[c.args[1]] = c.args[2]
    return False


def partargs(rep, construct, where, sch, value, A, run):
    names = [k for k in run.env0]
    for axn, l in sch['labels'].items():
        a = A.laxis(value[l])
        if a is None:
            continue
        parts = [x for x in walk(a) if x.op == 'part']
        if not parts:
            rep.undec('part', construct, 'no part selection found for %s' % l)
            continue
        i, n = parts[0].args[0], parts[0].args[1]
        stem = {'model_set': 'model', 'seg_set': 'seg', 'key': ''}[l]
        pi, pn = run.env0.get((stem + '_idx').lstrip('_')), run.env0.get(('num_' + stem + '_parts').replace('__', '_'))
        if pi is None or pn is None:
            rep.undec('part', construct, 'parameters renamed')
            continue
        if strip(i) is pi and strip(n) is pn:
            rep.discharged('part', construct, '%s part %s of %s' % (l, show(i), show(n)))
        elif strip(i).op == 'param' and strip(n).op == 'param':
            rep.violation('part', construct, '%s is split with part %s of %s' % (l, show(i), show(n)), where)
        else:
            rep.undec('part', construct, 'part arguments computed')


def contracts(p, rep):
    """the list helpers deliver indices with the meaning the containers rely on"""
    L = 'hyperion.utils.list_utils:'
    for nm in ('ismember', 'intersect', 'sort', 'split_list', 'split_list_group_by_key'):
        f = p.func(L + nm)
        I = Interp(p)
        I.noinline |= {L + 'ismember'} if nm != 'ismember' else set()
        args = {}
        if nm in ('intersect', 'sort'):
            args['return_index'] = TRUE
        run = I.run(f, args=args)
        rep.unit('list_utils.' + nm)
        a = run.env0['a']
        b = run.env0.get('b')
        A = Axes(lambda o, n: None, I)
        axa = mk('axroot', a)
        A.seed[a] = T((axa,), kind='labels')
        if b is not None:
            axb = mk('axroot', b)
            A.seed[b] = T((axb,), kind='labels')
        if nm == 'split_list_group_by_key':
            continue
        ret = run.ret
        where = '%s:%d' % (f.mod.rel, f.lineno)
        if nm == 'ismember':
            want = [(axa, None), (axa, axb)]
        elif nm == 'intersect':
            want = None
        elif nm == 'sort':
            want = [None, None]
        if ret.op != 'tuple':
            rep.undec('contract', nm, 'returns %s' % show(ret, 4))
            continue
        ts = [A.ty(x) for x in ret.args]
        if nm == 'ismember':
            for k, (t, (ax0, cod)) in enumerate(zip(ts, want)):
                if t is None or not t.axes or t.axes[0] is None:
                    rep.undec('contract', nm, 'result %d untyped' % k)
                elif t.axes[0] is not ax0 or (cod is not None and t.cod is not None and t.cod is not cod):
                    rep.violation('contract', nm, 'result %d runs over %s and points into %s' % (k, axname(t.axes[0]), axname(t.cod)), where)
                else:
                    rep.discharged('contract', nm, 'result %d: %s' % (k, t))
        elif nm == 'intersect':
            if len(ts) == 3:
                for k, (src, other) in ((1, (a, b)), (2, (b, a))):
                    t = ts[k]
                    x = A.laxis(ret.args[0])
                    if t is None or t.cod is None:
                        rep.undec('contract', nm, 'result %d untyped' % k)
                    elif t.cod is A.laxis(other):
                        rep.violation('contract', nm, 'result %d points into %s instead of %s' % (k, show(other), show(src)), where)
                    else:
                        rep.discharged('contract', nm, 'result %d -> %s' % (k, axname(t.cod)))
        elif nm in ('sort', 'split_list'):
            vals, loc = ret.args
            sv = vals
            if sv.op == 'sub' and strip(sv.args[1]) is strip(loc):
                rep.discharged('contract', nm, 'values are the list at the returned index')
            elif sv.op == 'sub' and strip(sv.args[0]) is a:
                rep.violation('contract', nm, 'returned values are not the list at the returned index: %s vs %s' % (show(sv, 5), show(loc, 5)), where)
            else:
                rep.undec('contract', nm, show(sv, 5))
