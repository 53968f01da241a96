"""C23: clusterings join what is most alike and cut where asked.

Agglomerative: the distance handed to linkage must be a decreasing map of the score and the heights stored must be its
inverse; the labels after k merges are those of the first k rows of the tree; thresholds count merges in the direction
of the score.  K-means: assignment to the nearest mean, means of the assigned, and their order."""
from ..ir import *
from ..interp import *
from ..scope import *
from ..poly import *
from ..project import AnalysisBroken
from .splits import strip, steps, where, rangeof, truth
from .splits import callname as cname

AHC = 'hyperion.clustering.ahc:AHC'
KM = 'hyperion.clustering.kmeans:KMeans'


def callname(n):
    return cname(n) or ''


class Unk(Exception):
    pass


class Bad(Exception):
    pass


def uncopied(x):
    x = strip(x)
    while callname(x) in ('numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.asarray') and x.args[1]:
        x = strip(x.args[1][0])
    return x


class Case(object):
    def __init__(self, rep, f):
        self.rep, self.f = rep, f

    def run(self, q, fn):
        try:
            self.rep.discharged('cluster', q, fn())
        except Unk as e:
            self.rep.undec('cluster', q, str(e))
        except Bad as e:
            self.rep.violation('cluster', q, str(e), where(self.f))


def start(p, c, name, noinline=()):
    f = p.find_method(c, name)
    if not f:
        return None
    I = Interp(p)
    I.noinline = set(getattr(I, 'noinline', ()) or ()) | {m.fq for m in (p.find_method(c, k) for k in noinline) if m}
    S = mk('param', 'LIST', 'self')
    I.types[S] = c
    r = I.run(f, c, selfnode=S)
    r.loops = dict(I.loops)
    return f, S, r


def metric(S, name):
    A = mk('attr', S, 'metric')
    facts = {}
    for k in ('llr', 'prob'):
        facts[mk('cmp', '==', A, const(k))] = k == name
        facts[mk('cmp', '!=', A, const(k))] = k != name
    return facts


def cond(c, facts):
    """a condition with the choice of metric known (membership included)"""
    from .splits import truth
    return truth(c, facts)


def num_expr(n, env):
    def f(x):
        if x in env:
            return env[x]
        if x.op == 'alloc':
            return rat(x.args[1], f)
        if x.op == 'dim' and (x.args[1] == 0 or is_const(x.args[1], 0)):
            return atom(mk('dim', strip(x.args[0]), 0))
        if callname(x) in ('builtins.int',) and x.args[1]:
            return rat(x.args[1][0], f)
        return None
    return rat(n, f)


def column2(n):
    """x when n is x[:, 2]"""
    if n.op == 'sub' and n.args[1].op == 'tuple' and len(n.args[1].args) == 2 and n.args[1].args[0].op == 'slice' and is_const(n.args[1].args[1], 2):
        return n.args[0]
    return None


def is2(ix):
    return ix.op == 'tuple' and len(ix.args) == 2 and ix.args[0].op == 'slice' and is_const(ix.args[1], 2)


def tree(p, rep, c):
    got = start(p, c, 'fit')
    if not got:
        return 0
    f, S, r = got
    rep.unit(f.fq)
    Z = r.state.heap.get((S, 'Z'))
    C = Case(rep, f)
    X = r.env0[f.params()[0][1]]
    M = r.env0.get('mask')
    for m in ('llr', 'prob', 'distance'):
        facts = metric(S, m)
        for masked in ((False, True) if M is not None else (False,)):
            fm = dict(facts)
            if M is not None:
                fm[M] = 'given' if masked else 'none'

            def go():
                if Z is None:
                    raise Bad('no tree is kept')
                z = steps(Z, fm, 10)
                st = []
                while z.op in ('store', 'alloc', 'T'):
                    if z.op == 'store':
                        st.append(z)
                        z = z.args[0]
                    else:
                        z = z.args[1]
                    z = steps(z, fm, 10)
                if z is mk('attr', S, 'Z'):
                    raise Bad('no tree is kept')
                if callname(z) != 'scipy.cluster.hierarchy.linkage' or not z.args[1]:
                    raise Unk('tree %s' % show(z, 4))
                D = z.args[1][0]
                ss = [y for y in walk(D) if y.op == 'sub' and any(callname(w) in ('numpy.triu', 'numpy.tril', 'numpy.triu_indices', 'numpy.triu_indices_from', 'numpy.tril_indices')
                                                               for w in walk(y.args[1]))]
                ss = [y for y in ss if not any(y in set(walk(w.args[0])) for w in ss if w is not y)]
                if not ss and X not in set(walk(D)):
                    raise Bad('the distances do not depend on the scores: %s' % show(D, 4))
                if len(set(ss)) != 1:
                    raise Unk('scores %s' % show(D, 5))
                s = ss[0]
                tri = [w for w in walk(s.args[1]) if callname(w).startswith('numpy.tri')][0]
                k = dict(tri.args[2]).get('k', tri.args[1][1] if len(tri.args[1]) > 1 else const(0))
                if 'tril' in callname(tri):
                    raise Bad('the scores below the diagonal are in another order than linkage takes them')
                if not is_const(k, 1):
                    raise Bad('the scores taken start at diagonal %s' % show(k))
                x = strip(steps(s.args[0], fm, 10))
                if masked:
                    if x.op != 'store' or uncopied(x.args[0]) is not X:
                        raise Bad('the mask is not used' if x is X else 'scores of %s' % show(x, 4)) if M not in set(walk(x)) else Unk(show(x, 4))
                    ix = strip(x.args[1])
                    v = steps(x.args[2], fm, 10)
                    off = ix.op == 'cmp' and ix.args[0] == '==' and is_const(ix.args[2], False) or ix.op == 'un' and ix.args[0] == '~' or callname(ix) == 'numpy.logical_not' or \
                        ix.op == 'cmp' and ix.args[0] == '!=' and is_const(ix.args[2], True) or ix.op == 'cmp' and ix.args[0] == '==' and is_const(ix.args[2], 0)
                    if not off:
                        if ix is M or ix.op == 'cmp' and ix.args[0] == '==' and is_const(ix.args[2], True) or \
                                ix.op == 'cmp' and ix.args[0] == '!=' and ix.args[1] is M and ix.args[2].op == 'const' and not ix.args[2].args[0]:
                            raise Bad('the pairs of the mask are the ones ruled out')
                        raise Unk('mask %s' % show(ix, 4))
                    w = num_expr(v, {}).const()
                    if w is not None and (w > -1000 and m == 'llr' or w > -1 and m == 'prob'):
                        raise Bad('pairs out of the mask get the score %s' % w)
                    if w is not None and w < 1000 and m == 'distance':
                        raise Bad('pairs out of the mask get the distance %s' % w)
                elif x is not X:
                    if x.op == 'phi':
                        raise Unk(show(x, 4))
                    raise Bad('scores of %s' % show(x, 4)) if x.op == 'store' else Unk(show(x, 4))
                env = {s: atom(s)}
                for y in walk(mk('tuple', D, *[t.args[2] for t in st])):
                    if callname(y) in ('numpy.max', 'numpy.amax', 'builtins.max', 'numpy.min') and y.args[1] and y.args[1][0] is s or \
                            callname(y) in ('numpy.max', 'numpy.amax', 'numpy.min') and y.args[1] and strip(y.args[1][0]) is s:
                        env[y] = atom(y)
                d = num_expr(D, env)
                one = num_expr(D, dict(env, **{})).subst({s: atom(s) + num(1)}) - d
                slope = one.const()
                if slope is None:
                    raise Unk('distance %s' % show(D, 5))
                if m == 'distance':
                    if not same(d, atom(s)):
                        raise Bad('distances are changed to %s' % show(D, 5))
                    if st:
                        raise Bad('heights are changed to %s' % show(st[0].args[2], 5))
                    return 'distances as they are'
                if slope >= 0:
                    raise Bad('the most alike are the furthest apart: distance %s' % show(D, 5))
                if not st:
                    raise Bad('heights stay distances, but thresholds are scores')
                if len(st) != 1 or not is2(st[0].args[1]):
                    if not is2(st[0].args[1]):
                        raise Bad('the heights are written in %s of the tree' % show(st[0].args[1], 3))
                    raise Unk('heights changed %d times' % len(st))
                g = st[0].args[2]
                for y in walk(g):
                    if column2(y) is not None and strip(steps(column2(y), fm, 10)) is z:
                        env[y] = d
                if not same(num_expr(g, env), atom(s)):
                    raise Bad('the height of a pair with score s is not s: %s' % show(g, 5))
                return 'distances fall as scores rise, heights are scores'
            C.run('AHC.fit(%s%s)' % (m, ', mask' if masked else ''), go)
    return 1


def N_of(S):
    return atom(mk('dim', mk('attr', S, 'Z'), 0)) + num(1)


def branches(v, data, facts, k=4):
    """the values of v in the branches of conditions over the data only"""
    for y in walk(v):
        if y.op == 'phi' and truth(y.args[0], facts) is None:
            parts, todo = [], [y.args[0]]
            while todo:
                g = todo.pop()
                if truth(g, facts) is not None:
                    continue
                if g.op in ('and', 'or'):
                    todo += list(g.args[0])
                elif g.op == 'not':
                    todo.append(g.args[0])
                elif g.op == 'phi':
                    todo += list(g.args)
                else:
                    parts.append(g)
            leaves = {z for g in parts for z in walk(g) if z.op in ('attr', 'param', 'lphi', 'ivar', 'lfin', 'icall', 'global')}
            roots = {z for z in leaves if z.op == 'attr' and z in data or z.op == 'param' and z in data}
            if not roots or any(z.op == 'attr' and z not in data and z.args[0].op == 'param' for z in leaves) or any(z.op in ('lphi', 'ivar', 'lfin', 'icall') for z in leaves):
                continue
            if k == 0:
                return
            for b in (True, False):
                f = dict(facts)
                f[y.args[0]] = b
                for x in branches(steps(v, f, 10), data, f, k - 1):
                    yield x
            return
    yield v


def thresholds(p, rep, c):
    cut = 'get_flat_clusters_from_num_clusters'
    got = start(p, c, 'get_flat_clusters_from_thr', (cut,))
    n = 0
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        C = Case(rep, f)
        thr = r.env0[f.params()[0][1]]
        for m in ('llr', 'prob', 'distance'):
            def go():
                v = steps(r.ret, metric(S, m), 10)
                if v.op != 'call' or v.args[0].op != 'func' or not v.args[0].args[0].endswith(cut):
                    raise Unk(show(v, 4))
                a = dict((k if isinstance(k, str) else k.args[-1], w) for k, w in v.args[2]).get('num_clusters')
                sums = [y for y in walk(a) if callname(y) in ('numpy.sum', 'numpy.count_nonzero', 'builtins.sum') and y.args[1]]
                if thr not in set(walk(a)):
                    raise Bad('the number of clusters does not depend on the threshold: %s' % show(a, 4))
                if len(sums) != 1:
                    raise Unk(show(a, 5))
                w = strip(steps(sums[0].args[1][0], metric(S, m), 10))
                data = {mk('attr', S, 'Z'), thr}
                for x in branches(w, data, metric(S, m)):
                    x = strip(x)
                    if x.op == 'cmp' and thr in x.args[1:3]:
                        o = x.args[0]
                        if x.args[1] is thr:
                            o = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o)
                        if x is not w and o in ('<', '<=', '>', '>=') and ('>' in o) != (m != 'distance'):
                            raise Bad('merges with height %s threshold are done for some data' % o)
                e = num_expr(a, {sums[0]: atom(sums[0])}) - N_of(S)
                if same(e, num(0) - atom(sums[0])):
                    pass
                elif same(e, num(0) - N_of(S) + atom(sums[0]) + num(1)):
                    raise Unk('merges undone are counted')
                else:
                    raise Bad('the number of clusters is %s' % show(a, 6))
                if w.op != 'cmp' or thr not in w.args[1:3]:
                    raise Unk(show(w, 4))
                h = w.args[2] if w.args[1] is thr else w.args[1]
                if column2(h) is None or strip(column2(h)) is not mk('attr', S, 'Z'):
                    raise Bad('the threshold is compared with %s' % show(h, 4))
                op = w.args[0]
                if w.args[1] is thr:
                    op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                if op != ('>=' if m != 'distance' else '<='):
                    raise Bad('merges with height %s threshold are done' % op)
                return 'merges on the right side of the threshold'
            C.run('AHC.get_flat_clusters_from_thr(%s)' % m, go)
    got = start(p, c, 'get_flat_clusters', (cut, 'get_flat_clusters_from_thr'))
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        crit = r.env0.get('criterion')
        for name in ('threshold', 'num_clusters'):
            def go():
                facts = {mk('cmp', '==', crit, const('threshold')): name == 'threshold', mk('cmp', '!=', crit, const('threshold')): name != 'threshold'}
                v = steps(r.ret, facts, 6)
                if v.op != 'call' or v.args[0].op != 'func':
                    raise Unk(show(v, 4))
                thr = v.args[0].args[0].endswith('_thr')
                if thr != (name == 'threshold'):
                    raise Bad('clusters are chosen by %s' % ('threshold' if thr else 'number'))
                return 'chosen by %s' % name
            Case(rep, f).run('AHC.get_flat_clusters(%s)' % name, go)
    return n


def resolve(n):
    """element of an array after stores at other positions"""
    n = strip(n)
    if n.op == 'sub' and not n.args[1].op == 'slice':
        b = strip(n.args[0])
        while b.op == 'store':
            try:
                d = (num_expr(b.args[1], {}) - num_expr(n.args[1], {})).const()
            except Exception:
                return n
            if d is None:
                return n
            if d == 0:
                return resolve(b.args[2])
            b = strip(b.args[0])
        return mk('sub', b, n.args[1])
    return n


def merge_step(S, i, val, cur):
    """val: labels after merge i, from the labels cur"""
    val = strip(val)
    if val.op != 'store':
        raise Unk('labels %s' % show(val, 4))
    base, mask, new = val.args[:3]
    if resolve(base) is not cur:
        raise Bad('the labels before a merge are not those after the one before') if strip(base).op == 'sub' else Unk('labels %s' % show(base, 4))
    mask = strip(mask)
    if mask.op in ('bin',) and mask.args[0] == '|':
        parts = mask.args[1:3]
    elif mask.op == 'or':
        parts = mask.args[0]
    elif mask.op == 'bin' and mask.args[0] == '&':
        raise Bad('only what is in both clusters is merged')
    elif mask.op == 'cmp':
        raise Bad('only one of the two clusters takes the new label')
    else:
        raise Unk('merged %s' % show(mask, 4))
    cols = set()
    for q in parts:
        if q.op != 'cmp' or q.args[0] != '==':
            raise Unk('merged %s' % show(q, 4)) if q.op != 'cmp' else Bad('merged are those with labels %s' % show(q, 5))
        z = q.args[1] if q.args[1].op == 'sub' and strip(q.args[1].args[0]) is mk('attr', S, 'Z') else q.args[2]
        o = q.args[2] if z is q.args[1] else q.args[1]
        if z.op != 'sub' or strip(z.args[0]) is not mk('attr', S, 'Z') or z.args[1].op != 'tuple':
            if z.op == 'sub' and z.args[0].op == 'sub' and strip(z.args[0].args[0]) is mk('attr', S, 'Z') and is_const(z.args[1]):
                row, col = z.args[0].args[1], z.args[1]
            else:
                raise Unk('merged %s' % show(q, 4))
        else:
            row, col = z.args[1].args[:2]
        if not is_const(col):
            raise Unk('column %s' % show(col, 3))
        d = (num_expr(row, {}) - num_expr(i, {})).const()
        if d is None:
            raise Unk('row %s' % show(row, 4))
        if d != 0:
            raise Bad('merge i is taken from row i%+d of the tree' % d)
        if resolve(o) is not cur:
            raise Unk('labels compared %s' % show(o, 4))
        cols.add(col.args[0])
    if cols != {0, 1}:
        raise Bad('the clusters joined are in columns %s of the tree' % sorted(cols))
    d = num_expr(new, {}) - num_expr(i, {}) - N_of(S)
    if d.const() != 0:
        raise Bad('merge i gets label %s, not N + i' % show(new, 5)) if d.const() is not None or True else None


def numbering(v):
    """labels are numbered from 0"""
    if v.op == 'sub' and callname(strip(v.args[0])) == 'numpy.unique':
        if not any(k == 'return_inverse' and is_const(w, True) for k, w in strip(v.args[0]).args[2]):
            raise Bad('the positions of the labels are not asked for')
        return True
    return False


def cuts(p, rep, c):
    n = 0
    numbered = {}
    got = start(p, c, 'get_flat_clusters_from_num_clusters')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        C = Case(rep, f)
        want = r.env0[f.params()[0][1]]
        kept = mk('attr', S, 'flat_clusters')

        def count(x):
            m = [y for y in walk(x) if callname(y) in ('builtins.min', 'numpy.minimum') or y.op == 'min']
            if len(m) == 1:
                a = list(m[0].args[1]) if callname(m[0]) else list(m[0].args)
                vals = [num_expr(z, {}) for z in a]
                if not any(same(v, atom(want)) for v in vals) or not any(same(v, N_of(S)) for v in vals):
                    raise Unk('number of clusters %s' % show(m[0], 4))
                x1 = num_expr(x, {m[0]: atom(want)})
            else:
                x1 = num_expr(x, {})
            if not same(x1, N_of(S) - atom(want)):
                raise Bad('%s merges are done for that number of clusters' % show(x, 6))

        def computed():
            v = strip(steps(r.ret, {kept: 'none'}, 6))
            if v.op == 'sub' and strip(v.args[0]) is kept:
                raise Bad('kept labels are used when there are none')
            numbered['computed'] = numbering(v)
            while v.op == 'sub' and callname(strip(v.args[0])) == 'numpy.unique':
                v = strip(strip(v.args[0]).args[1][0])
            if callname(v) == 'numpy.arange':
                raise Bad('no clusters are joined')
            if v.op != 'lfin' or v.args[0] not in r.loops:
                raise Unk(show(v, 4))
            L = r.loops[v.args[0]]
            lam = v.args[2]
            e = strip(L.entry[lam])
            if callname(e) != 'numpy.arange' or not same(num_expr(e.args[1][0], {}), N_of(S)):
                raise Bad('at first the labels are %s' % show(e, 4)) if callname(e) in ('numpy.arange', 'numpy.zeros', 'numpy.ones') else Unk(show(e, 4))
            rg = rangeof(L.iter)
            if rg is None:
                raise Unk('merges %s' % show(L.iter, 4))
            lo, hi = rg
            if num_expr(lo, {}).const() != 0:
                raise Bad('the first merge is %s' % show(lo, 3))
            count(hi)
            merge_step(S, L.ivar, L.back[lam], lam)
            return 'labels after the first merges of the tree'

        def stored():
            v = steps(r.ret, {kept: 'given'}, 6)
            w = strip(v)
            if w.op != 'sub' or strip(w.args[0]) is not kept:
                if kept not in set(walk(w)):
                    return 'not used'
                raise Unk(show(w, 4))
            count(w.args[1])
            return 'labels kept after that number of merges'
        C.run('AHC.get_flat_clusters_from_num_clusters', computed)
        C.run('AHC.get_flat_clusters_from_num_clusters(kept)', stored)
    got = start(p, c, 'compute_flat_clusters')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)

        def table():
            v = strip(r.state.heap.get((S, 'flat_clusters'), NONE))
            L2 = None
            if v.op == 'lfin':
                L2 = r.loops[v.args[0]]
                b = strip(L2.back[v.args[2]])
                if b.op == 'store' and any(callname(y) == 'numpy.unique' for y in walk(b)):
                    u = strip(b.args[2])
                    if u.op != 'sub' or not is_const(u.args[1], 1):
                        raise Bad('the labels numbered are %s' % show(u, 4))
                    numbered['kept'] = numbering(u)
                    if resolve(strip(strip(u.args[0]).args[1][0])) is not mk('sub', v.args[2], L2.ivar) or b.args[1] is not L2.ivar:
                        raise Bad('the labels of one cut are numbered with those of another')
                    hi = rangeof(L2.iter)
                    if hi is None or not same(num_expr(hi[1], {}), N_of(S)):
                        raise Bad('not all cuts have their labels numbered')
                    v = strip(L2.entry[v.args[2]])
            if numbered.get('computed') is True and not numbered.get('kept') and v.op == 'lfin':
                raise Bad('the labels kept are not numbered as those of a single cut')
            if numbered.get('computed') is False and numbered.get('kept') and v.op == 'lfin':
                raise Bad('the labels of a single cut are not numbered as those kept')
            if v is NONE or v is mk('attr', S, 'flat_clusters'):
                raise Bad('the labels are not kept')
            if v.op != 'lfin':
                raise Unk(show(v, 4))
            L = r.loops[v.args[0]]
            lam = v.args[2]
            e = strip(L.entry[lam])
            if callname(e) in ('numpy.zeros', 'numpy.empty'):
                raise Bad('at first all elements are in one cluster')
            if e.op != 'store' or not is_const(e.args[1], 0) or callname(strip(e.args[2])) != 'numpy.arange':
                raise Unk('before merges %s' % show(e, 4))
            rg = rangeof(L.iter)
            if rg is None:
                raise Unk('merges %s' % show(L.iter, 4))
            if num_expr(rg[0], {}).const() != 0 or not same(num_expr(rg[1], {}), N_of(S) - num(1)):
                raise Bad('merges %s to %s are done' % (show(rg[0], 3), show(rg[1], 4)))
            b = strip(L.back[lam])
            if b.op == 'store' and (num_expr(b.args[1], {}) - num_expr(L.ivar, {})).const() not in (None, 1):
                raise Bad('the labels after merge i are written in row %s' % show(b.args[1], 3))
            if b.op != 'store' or (num_expr(b.args[1], {}) - num_expr(L.ivar, {})).const() != 1:
                raise Unk('row %s' % show(b, 3))
            merge_step(S, L.ivar, b.args[2], mk('sub', lam, L.ivar))
            return 'row k holds the labels after k merges'
        Case(rep, f).run('AHC.compute_flat_clusters', table)
    got = start(p, c, 'evaluate_impurity_det')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)

        def impurity():
            if r.ret.op != 'tuple' or len(r.ret.args) != 2:
                raise Unk(show(r.ret, 3))
            kept = mk('attr', S, 'flat_clusters')
            if not any(e.kind in ('invoke', 'call') and e.target is not None and 'compute_flat_clusters' in show(e.target, 3) and
                       all((steps_truth(q[0], {kept: 'none'}) in (None, q[1])) if isinstance(q, tuple) else steps_truth(q, {kept: 'none'}) is not False for q in e.path) for e in r.events):
                raise Bad('the clusters are not computed when none are kept')
            for x, name in zip(r.ret.args, ('homogeneity', 'completeness')):
                if not any(callname(y).startswith('sklearn.metrics.') for y in walk(x)):
                    raise Bad('%s does not depend on the clusters' % show(x, 3))
                fs = {callname(y).split('.')[-1] for y in walk(x) if callname(y).startswith('sklearn.metrics.')}
                if fs != {name + '_score'}:
                    raise Bad('1 - %s is given in the place of 1 - %s' % (', '.join(sorted(fs)), name)) if fs else Unk(show(x, 4))
                for y in walk(x):
                    if callname(y).startswith('sklearn.metrics.') and len(y.args[1]) == 2:
                        if y.args[1][1] is r.env0[f.params()[0][1]]:
                            raise Bad('true labels and clusters are exchanged in %s' % name)
                t = [y for y in walk(x) if callname(y).startswith('sklearn.metrics.')][0]
                fill = [y for y in walk(x) if y.op == 'lfill' and t in set(walk(y.args[3]))]
                if fill:
                    rg = rangeof(fill[0].args[1].args[0])
                    if rg and num_expr(rg[0], {}).const() not in (None, 0):
                        raise Bad('the cuts before %s are left out' % show(rg[0], 3))
                    if fill[0].args[2] is not fill[0].args[1]:
                        raise Bad('the value of one cut is given for another')
                    e = num_expr(x, {fill[0]: atom(fill[0])})
                    if not same(e, num(1) - atom(fill[0])):
                        raise Bad('%s is given for 1 - %s' % (show(x, 3), name))
            return '1 - homogeneity, 1 - completeness of each cut'
        Case(rep, f).run('AHC.evaluate_impurity_det', impurity)
    return n


def steps_truth(c, facts):
    from .splits import truth
    return truth(c, facts)


def decide(c, x, v):
    """truth of a comparison when x is v"""
    if c.op == 'not':
        t = decide(c.args[0], x, v)
        return None if t is None else not t
    if c is x:
        return bool(v)
    if c.op != 'cmp':
        return None
    d = (num_expr(c.args[1], {x: num(v)}) - num_expr(c.args[2], {x: num(v)})).const()
    return None if d is None else {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}.get(c.args[0])


def shape(b, want, what):
    b = strip(b)
    if callname(b) in ('numpy.zeros', 'numpy.empty') and b.args[1]:
        t = strip(b.args[1][0])
        for g, w in zip(t.args if t.op in ('tuple', 'list') else (t,), want):
            if w is not None and not same(num_expr(g, {}), w):
                raise Bad('the array of %s has %s rows' % (what, show(g, 3)))


# ---- k-means ------------------------------------------------------------------------------------------------------
def kmeans(p, rep, c):
    n = 0
    got = start(p, c, 'predict')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        X, MU = r.env0[f.params()[0][1]], mk('attr', S, 'mu')

        def nearest():
            if r.ret.op != 'tuple' or len(r.ret.args) != 2:
                raise Unk(show(r.ret, 3))
            ix, err = (strip(z) for z in r.ret.args)
            if callname(ix) == 'numpy.argmax':
                raise Bad('elements go to the furthest mean')
            if callname(ix) != 'numpy.argmin' or not ix.args[1]:
                raise Unk('assignment %s' % show(ix, 4))
            E = strip(ix.args[1][0])
            axis = dict(ix.args[2]).get('axis', ix.args[1][1] if len(ix.args[1]) > 1 else None)
            if axis is None or is_const(axis, 0):
                raise Bad('the nearest is searched over the elements, not over the means')
            if callname(E) in ('numpy.zeros', 'numpy.empty'):
                raise Bad('the distances are not computed')
            if E.op != 'lfill':
                raise Unk('distances %s' % show(E, 4))
            shape(E.args[0], (atom(mk('dim', X, 0)), None), 'distances')
            k, at, val = E.args[1], E.args[2], strip(E.args[3])
            if at.op != 'tuple' or len(at.args) != 2 or at.args[1] is not k:
                raise Unk('column %s' % show(at, 3))
            rg = rangeof(k.args[0])
            if rg is None or num_expr(rg[0], {}).const() != 0:
                raise Bad('the distances start at the mean %s' % show(rg[0], 3)) if rg else Unk(show(k.args[0], 3))
            if callname(val) in ('numpy.sqrt',):
                val = strip(val.args[1][0])
            if callname(val) != 'numpy.sum':
                raise Unk('distance %s' % show(val, 4))
            a = dict(val.args[2]).get('axis', val.args[1][1] if len(val.args[1]) > 1 else NONE)
            if not is_const(a, -1) and not is_const(a, 1):
                raise Bad('squares are added over axis %s' % show(a))
            sq = strip(val.args[1][0])
            d = None
            if callname(sq) == 'numpy.square':
                d = sq.args[1][0]
            elif sq.op == 'bin' and sq.args[0] == '**' and is_const(sq.args[2], 2):
                d = sq.args[1]
            elif sq.op == 'bin' and sq.args[0] == '*' and sq.args[1] is sq.args[2]:
                d = sq.args[1]
            if d is None:
                raise Unk('distance %s' % show(sq, 4))
            m = mk('sub', MU, k)
            e = num_expr(d, {m: atom(m), X: atom(X)})
            if not same(e, atom(X) - atom(m)) and not same(e, atom(m) - atom(X)):
                raise Bad('the distance is to %s' % show(d, 4))
            if err.op == 'sub' and strip(err.args[0]) is E:
                if err.args[1].op == 'tuple' and strip(err.args[1].args[-1]) is ix:
                    rows = strip(err.args[1].args[0])
                    if callname(rows) in ('numpy.arange', 'builtins.range') and not same(num_expr(rows.args[1][-1], {}), atom(mk('dim', X, 0))):
                        raise Bad('the distances given are those of the first %s' % show(rows.args[1][-1], 3))
                    return 'nearest mean and its distance'
                raise Bad('the distance given is %s' % show(err.args[1], 4))
            if callname(err) in ('numpy.min', 'numpy.amin') and strip(err.args[1][0]) is E:
                return 'nearest mean and its distance'
            raise Unk('distance %s' % show(err, 4))
        Case(rep, f).run('KMeans.predict', nearest)
    got = start(p, c, '_compute_centroids')
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)
        X, IX = (r.env0[a] for a in f.params()[0][1:3])

        def means():
            v = strip(r.ret)
            if callname(v) in ('numpy.zeros', 'numpy.empty'):
                raise Bad('the means are not computed')
            if v.op != 'lfill':
                raise Unk(show(v, 4))
            cond = v.args[4]
            if cond is not TRUE:
                sums = [y for y in walk(cond) if callname(y) in ('numpy.sum', 'numpy.any', 'numpy.count_nonzero') and y.args[1]]
                if len(sums) == 1:
                    w = strip(sums[0].args[1][0])
                    if w.op == 'cmp' and w.args[0] == '!=':
                        raise Bad('clusters are updated when other clusters have elements')
                    t = decide(cond, sums[0], 1)
                    if t is False:
                        raise Bad('clusters of one element are not updated: %s' % show(cond, 4))
            k, at, val = v.args[1], v.args[2], strip(v.args[3])
            if at is not k:
                raise Bad('the mean of cluster k is written in %s' % show(at, 3))
            if callname(val) == 'numpy.median' or callname(val) == 'numpy.sum':
                raise Bad('the %s of the elements is taken' % callname(val).split('.')[1])
            if callname(val) != 'numpy.mean':
                raise Unk('mean %s' % show(val, 4))
            a = dict(val.args[2]).get('axis', val.args[1][1] if len(val.args[1]) > 1 else NONE)
            if not is_const(a, 0) and not is_const(a, -2):
                raise Bad('the mean is over axis %s' % show(a))
            s = strip(val.args[1][0])
            if s.op != 'sub' or strip(s.args[0]) is not X:
                raise Bad('the mean is that of %s' % show(s, 4)) if s is X else Unk(show(s, 4))
            w = strip(s.args[1])
            if w.op != 'cmp' or w.args[0] != '==' or {w.args[1], w.args[2]} != {IX, k}:
                raise Bad('the mean is that of the elements with %s' % show(w, 4)) if w.op == 'cmp' and w.args[0] in ('!=', '<', '<=') else Unk(show(w, 4))
            return 'mean of the elements of each cluster'
        Case(rep, f).run('KMeans._compute_centroids', means)
    got = start(p, c, 'fit', ('predict', '_compute_centroids', '_choose_seeds'))
    if got:
        f, S, r = got
        n += 1
        rep.unit(f.fq)

        def order():
            last = None
            for e in r.events:
                if not e.loops:
                    continue
                if e.kind == 'setattr' and e.extra == 'mu' and e.target is S:
                    last = 'mu'
                elif e.kind in ('invoke', 'call') and e.target is not None and 'KMeans.predict' in show(e.target, 3):
                    last = 'predict'
            if last is None:
                raise Unk('no iteration')
            if not any(e.kind == 'setattr' and e.extra == 'mu' and e.target is S and e.loops for e in r.events):
                raise Bad('the means are never updated')
            if last == 'mu':
                raise Bad('the assignment returned was made with the means of the step before')
            v = r.ret.args[1] if r.ret.op == 'tuple' and len(r.ret.args) == 2 else None
            if v is None:
                raise Unk(show(r.ret, 3))
            for z in r.loops.values():
                for lam, b in z.back.items():
                    for y in walk(b):
                        if y.op == 'call' and y.args[0].op == 'func' and y.args[0].args[0].endswith('_compute_centroids'):
                            d = dict((k if isinstance(k, str) else k.args[-1], w) for k, w in y.args[2])
                            if d.get('x') is not r.env0[f.params()[0][1]]:
                                raise Bad('the means are those of %s' % show(d.get('x'), 3))
            return 'assignment made with the last means'
        Case(rep, f).run('KMeans.fit', order)
    return n


def check(p, rep, tier):
    n = 0
    for fq, fs in ((AHC, (tree, thresholds, cuts)), (KM, (kmeans,))):
        try:
            c = p.cls(fq)
        except AnalysisBroken:
            continue
        for f in fs:
            n += f(p, rep, c)
    rep.require('clustering functions', n, 5)
