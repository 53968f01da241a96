"""C07: what is random comes from a seed or a generator the caller gives, and nothing else is random."""
import ast
from ..ir import *
from ..interp import *
from ..alias import path_atoms
from ..scope import *
from ..cases import Facts

NEWRNG = ('numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.SeedSequence',
          'numpy.random.PCG64', 'numpy.random.MT19937', 'random.Random')
CLOCK = ('time.time', 'time.clock', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'time.time_ns', 'time.localtime',
         'time.strftime', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today',
         'os.getpid', 'os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'os.getenv', 'secrets.token_bytes', 'secrets.randbelow',
         'secrets.choice', 'socket.gethostname', 'threading.get_ident', 'builtins.id', 'builtins.hash')
# file system listings come in no particular order
LISTING = ('os.listdir', 'glob.glob', 'glob.iglob', 'os.walk', 'os.scandir')
# consumers whose answer does not depend on the order they get
ORDERFREE = ('builtins.sorted', 'builtins.len', 'builtins.min', 'builtins.max', 'builtins.sum', 'builtins.any', 'builtins.all',
             'builtins.set', 'builtins.frozenset', 'builtins.bool', 'builtins.isinstance', 'numpy.unique', 'numpy.sort', 'builtins.type')
SETMETHODS = ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'add', 'update',
              'discard', 'remove', '__contains__', 'copy')
# estimators that draw from the global generator unless given a state
RANDOMISED = ('LogisticRegression', 'LinearSVC', 'TSNE', 'KMeans', 'MiniBatchKMeans', 'SVC', 'SGDClassifier', 'FastICA',
              'GaussianMixture', 'RandomForestClassifier', 'MLPClassifier', 'train_test_split', 'KFold', 'StratifiedKFold')
SINKFREE = ('logging.', 'builtins.print', 'time.')
# copies of the Keras queue helpers, used by nothing in the packages
SKIPMODS = ('hyperion.utils.queues', 'hyperion.io.queues')


def dotted(n):
    return n.args[0].args[0] if isinstance(n, N) and n.op in ('call', 'icall') and n.args[0].op == 'ext' else None


def alternatives(n):
    if n.op == 'phi':
        for x in n.args[1:]:
            for y in alternatives(x):
                yield y
    else:
        yield n


def seedok(f, run, s):
    """None if the seed is explicit, otherwise what is wrong with it"""
    if s is None or is_const(s, None):
        return 'no seed: the state comes from the operating system'
    for x in walk(s):
        if x.op == 'param' and x.args[1] in run.env0 and run.env0[x.args[1]] is x and nonedefault(f, x.args[1]):
            g = Facts(sub={x: NONE}).ev(s)
            if any(is_const(a, None) for a in alternatives(g)):
                return 'no seed when %s is left out' % x.args[1]
    if any(is_const(a, None) for a in alternatives(s)):
        return 'no seed on some path'
    for x in walk(s):
        d = dotted(x)
        if d in CLOCK:
            return 'the seed comes from %s' % d
        if x.op == 'rnd' and isinstance(x.args[1], N) and x.args[1].op == 'ext':
            return 'the seed comes from the process-wide generator'
    return None


def nonedefault(f, name):
    d = f.default_of(name)
    return isinstance(d, ast.Constant) and d.value is None


def newseed(n):
    k = dict(n.args[2]) if n.args[2] else {}
    a = list(n.args[1])
    if n.args[0].args[0] == 'random.Random':
        return a[0] if a else k.get('x')
    return a[0] if a else k.get('seed', k.get('bit_generator'))


def isset(n):
    if n.op == 'alloc' and n.args[1].op == 'set':
        return True
    d = dotted(n)
    if d in ('builtins.set', 'builtins.frozenset'):
        return True
    if n.op == 'set':
        return True
    if n.op == 'bin' and n.args[0] in ('|', '&', '-', '^'):
        return isset(n.args[1]) or n.args[0] != '-' and isset(n.args[2])
    if n.op in ('call', 'icall') and n.args[0].op == 'attr' and n.args[0].args[1] in SETMETHODS[:4]:
        return isset(n.args[0].args[0])
    return False


def smallset(n):
    """sets of numbers written out in the program keep one order"""
    x = n.args[1] if n.op == 'alloc' else n
    return x.op == 'set' and all(is_const(a) and isinstance(a.args[0], (int, float)) for a in children(x)) or \
        dotted(n) in ('builtins.set', 'builtins.frozenset') and not n.args[1]


def testing(f, deep=3):
    """a self-test, or a step that only self-tests of the module use"""
    if f.name.startswith('test'):
        return True
    u = users(f)
    return bool(u) and deep > 0 and all(testing(g, deep - 1) for g in u)


def check(p, rep, tier):
    nd = nn = nf = ns = ne = 0
    found = {}

    def bad(rule, f, e_site, msg):
        k = (rule, str(e_site))
        if k not in found or (qual(f) in msg):
            found.setdefault(k, (rule, f, msg, e_site))
        if getattr(e_site, 'func', None) is f:
            found[k] = (rule, f, msg, e_site)

    for f, c in entry_functions(p, inherited=False):
        if f.mod.name in SKIPMODS or testing(f):
            continue
        I = Interp(p)
        run = I.run(f, c)
        nf += 1
        q = qual(f)
        rngp = run.env0.get('rng')
        rep.unit(f.fq)
        nodes = {}
        par = {}
        roots = [run.ret]
        for e in run.events:
            for x in (e.target, e.value):
                if isinstance(x, N):
                    roots.append(x)
            if isinstance(e.extra, dict):
                roots += [x for x in e.extra.values() if isinstance(x, N)]
        for L in I.loops.values():
            if isinstance(L.iter, N):
                roots.append(mk('iterates', L.iter))
        seen = set()
        for r in roots:
            for x in walk(r, seen):
                nodes[x.uid] = x
        for x in nodes.values():
            for y in children(x):
                par.setdefault(y.uid, []).append(x)
        for r in roots:
            par.setdefault(r.uid, [])
        # where draws come from
        drawn = False
        for e in run.events:
            if e.kind != 'rng':
                continue
            name, kws = e.extra[0], e.extra[1] if len(e.extra) > 1 else {}
            t = e.target
            if e.site.func.mod.name in SKIPMODS:
                continue
            if t.op == 'ext':
                full = t.args[0] + '.' + name
                if full in NEWRNG:
                    nn += 1
                    s = (e.value.args[0] if e.value is not None and e.value.args else None) or kws.get('seed', kws.get('x'))
                    why = seedok(f, run, s)
                    if why:
                        bad('seed', f, e.site, 'a generator is made with %s' % why)
                    else:
                        rep.discharged('seed', q, show(s, 3))
                else:
                    bad('global', f, e.site, '%s draws from the process-wide generator, whatever seed or generator is given' % full)
                continue
            judged = False
            for a in alternatives(t):
                if dotted(a) in NEWRNG:
                    judged = True
                elif a.op == 'ext' and a.args[0] in ('numpy.random', 'random'):
                    bad('global', f, e.site, '%s may draw from the process-wide generator' % name)
                    judged = True
                elif a.op == 'param' or a.op == 'attr' and 'rng' in a.args[1] or a.op == 'lphi':
                    judged = True
            if not judged:
                continue
            nd += 1
            if rngp is not None and e.stack is not None:
                own = e.site.func is f
                F1 = Facts(nonnone=[rngp])
                g = F1.ev(t)
                alts = [a for a in alternatives(g)]
                if own and any(dotted(a) in NEWRNG for a in alts) and possible(F1, e.path):
                    bad('given', f, e.site, '%s draws from %s although the caller gave rng' % (name, show(g, 3)))
                    continue
                F0 = Facts(sub={rngp: NONE})
                g0 = F0.ev(t)
                if own and public(f) and nonedefault(f, 'rng') and rngp in list(alternatives(t)) and is_const(g0, None) and possible(F0, e.path):
                    bad('given', f, e.site, '%s draws from rng, which is None when the caller gives none' % name)
                    continue
            drawn = True
            rep.discharged('draw', q, '%s of %s' % (name, show(t, 3)))
        # a generator handed over is used (or handed on)
        if rngp is not None and f.node.body and not stub(f):
            used = any(rngp in (e.target, e.value) or (isinstance(e.value, N) and rngp.uid in {x.uid for x in walk(e.value)}) or
                       isinstance(e.target, N) and rngp.uid in {x.uid for x in walk(e.target)} or
                       isinstance(e.extra, dict) and any(v is rngp for v in e.extra.values())
                       for e in run.events)
            if used:
                rep.discharged('given', q, 'rng is drawn from')
            else:
                rep.violation('given', q, 'the rng the caller gives is never used', '%s:%d' % (f.mod.rel, f.node.lineno))
        sp = run.env0.get('seed')
        if sp is not None and f.name != '__init__' and not stub(f) and '.keras' not in f.mod.name:
            used = False
            for x in nodes.values():
                if dotted(x) in NEWRNG and newseed(x) is not None and sp in set(walk(newseed(x))):
                    used = True
            used = used or any(isinstance(e.extra, dict) and any(isinstance(v, N) and sp in set(walk(v)) for v in e.extra.values()) or
                               isinstance(e.value, N) and e.kind == 'call' and sp in set(walk(e.value)) or
                               e.kind == 'rng' and e.value is not None and (sp in set(walk(e.value)) or any(v is sp for v in e.extra[1].values()))
                               for e in run.events)
            if used:
                rep.discharged('seed', q, 'the seed given is used')
            else:
                rep.violation('seed', q, 'the seed the caller gives is never used', '%s:%d' % (f.mod.rel, f.node.lineno))
        # stale seeds: the epoch a generator is seeded with is the epoch it is used for
        ns += epochs(I, run, f, q, rep)
        # order of sets and listings, clocks, object identities
        for x in list(nodes.values()):
            d = dotted(x)
            if (isset(x) and not smallset(x)) or d in LISTING:
                for y in par.get(x.uid, ()):
                    if isset(y) or dotted(y) in ORDERFREE or y.op in ('cmp', 'not', 'and', 'or', 'is'):
                        continue
                    if y.op == 'alloc' or y.op == 'phi' or y.op == 'tuple':
                        continue
                    if y.op in ('call', 'icall') and y.args[0].op == 'attr' and y.args[0].args[0] is x:
                        continue
                    if y.op == 'attr':
                        if y.args[1] in SETMETHODS or y.args[1] != 'pop':
                            continue
                    if y.op in ('iterates', 'lmap', 'list', 'sub', 'attr', 'elem', 'item') or dotted(y) in (
                            'builtins.list', 'builtins.tuple', 'builtins.enumerate', 'builtins.zip', 'builtins.iter', 'builtins.next', 'numpy.array',
                            'numpy.asarray', 'builtins.map', 'numpy.fromiter', 'numpy.concatenate', 'numpy.hstack', 'numpy.vstack') or \
                            y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'join':
                        if sortedlater(y, par):
                            continue
                        what = 'a set' if d not in LISTING else d
                        rep.violation('order', q, '%s depends on the order of %s, which changes from run to run' % (
                            show(y, 3), what), '%s:%d' % (f.mod.rel, f.node.lineno))
            if d in CLOCK and not f.mod.name.startswith('hyperion.bin.') and f.name != '__hash__':
                if f.mod.name.startswith(('hyperion.bin',)):
                    continue
                leak = leaks(x, par, run)
                if leak:
                    rep.violation('clock', q, '%s depends on %s' % (leak, d), '%s:%d' % (f.mod.rel, f.node.lineno))
            if d in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
                r = uninit(I, run, x, nodes)
                if r is True:
                    ne += 1
                    rep.discharged('uninitialised', q, show(x, 3))
                elif r and not users(f):
                    rep.violation('uninitialised', q, '%s: %s' % (show(x, 3), r), '%s:%d' % (f.mod.rel, f.node.lineno))
            if d is not None and d.split('.')[0] == 'sklearn' and d.split('.')[-1] in RANDOMISED:
                k = dict(x.args[2]).get('random_state')
                why = 'no random_state' if k is None or is_const(k, None) else None
                if why is None:
                    why = seedok(f, run, k)
                if why:
                    rep.violation('seed', q, '%s is built with %s' % (d, why), '%s:%d' % (f.mod.rel, f.node.lineno))
                else:
                    rep.discharged('seed', q, show(x, 2))
    for rule, f, msg, site in found.values():
        rep.violation(rule, qual(f), msg, str(site))
    rep.require('functions analysed', nf, 500)
    rep.require('draws', nd, 5)
    rep.require('generators made', nn, 3)
    rep.require('epoch seeds', ns, 1)


def stub(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in b)


def possible(F, path):
    return F.path(path) is not False


def sortedlater(y, par):
    """every use of the value puts it in order first"""
    ps = par.get(y.uid, ())
    if not ps:
        return False
    return all(dotted(z) in ORDERFREE or z.op in ('alloc', 'phi') and sortedlater(z, par) or z.op == 'cmp' for z in ps)


def leaks(x, par, run):
    """where the value of x ends up, other than in messages"""
    seen, todo = set(), [x]
    ok = set()
    while todo:
        n = todo.pop()
        if n.uid in seen:
            continue
        seen.add(n.uid)
        for y in par.get(n.uid, ()):
            d = dotted(y)
            if d and d.startswith(SINKFREE):
                continue
            todo.append(y)
    if run.ret.uid in seen:
        return 'the returned value'
    for e in run.events:
        if e.kind in ('setattr', 'mutate') and isinstance(e.value, N) and e.value.uid in seen:
            return 'the state %s' % show(e.target, 2)
    return None


def epochs(I, run, f, q, rep):
    """fields the seed is computed from hold their new value when the generator is made"""
    n = 0
    evs = run.events
    for e in evs:
        if e.kind != 'setattr' or not isinstance(e.value, N) or dotted(e.value) not in NEWRNG:
            continue
        s = newseed(e.value)
        if s is None:
            continue
        fields = {x for x in walk(s) if x.op == 'attr' and x.args[0] is run.selfnode and x is not s}
        if not fields and s.op == 'bin':
            fields = {x for x in walk(s) if x.op == 'attr'}
        if s.op != 'bin':
            continue
        n += 1
        names = {x.args[1] for x in fields}
        # the epoch part may already be an updated value: the field it was stored in
        late = [g for g in evs if g.kind == 'setattr' and g.seq > e.seq and g.target is e.target and g.extra in names]
        ok = True
        for g in late:
            if compatible(e.path, g.path):
                ok = False
                rep.violation('epoch', q, 'the generator is seeded with %s before %s is updated: a run restarted there draws '
                              'differently' % (show(s, 4), g.extra), str(e.site))
        if ok:
            rep.discharged('epoch', q, show(s, 3))
    return n


def compatible(a, b):
    pa, pb = path_atoms(a), path_atoms(b)
    return not any(k in pb and pb[k] != v for k, v in pa.items())


def uninit(I, run, x, nodes):
    """numpy.empty: every element is stored before use.  True, a complaint, or None when unknown"""
    al = [y for y in nodes.values() if y.op == 'alloc' and y.args[1] is x]
    holders = {x.uid} | {y.uid for y in al}
    st = [e for e in run.events if e.kind == 'mutate' and isinstance(e.target, N) and e.target.uid in holders and
          isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'store']
    st += [e for e in run.events if e.kind == 'mutate' and isinstance(e.target, N) and e.target not in st and
           isinstance(e.extra, tuple) and e.extra and e.extra[0] == 'store' and any(y.uid in holders for y in lroots(I, e.target))]
    reads = [e for e in run.events if e.kind == 'return' and False]
    if not st:
        aug = [e for e in run.events if e.kind == 'mutate' and isinstance(e.target, N) and (
            e.target.uid in holders or any(y.uid in holders for y in lroots(I, e.target)))]
        if any(str(e.extra[0]).startswith('aug') for e in aug):
            return 'memory that was never set is added to'
        # never stored: handed to something that fills it, or returned as it is
        if run.ret.uid in holders:
            return 'returned without being filled'
        return None
    base = path_of(nodes, run, x)
    maybe = False
    for e in st:
        part = partial(e, x)
        if part is None or part is True and e.loops and part != 'row':
            maybe = True
        elif part:
            continue
        elif not [c for c in e.path if c not in base]:
            return True
    if maybe:
        return None
    for e in st:
        if not partial(e, x) and not e.loops:
            return 'filled only where %s' % show([c for c in e.path if c not in base][0], 3)
    if any(not partial(e, x) for e in st):
        return None
    ix = {e.extra[1] for e in st}
    if any(y.op == 'not' and y.args[0] in ix or neg(y) in ix for y in ix):
        return None
    return 'only the part [%s] is filled' % show(st[0].extra[1], 3)


def shape_of(x):
    a = x.args[1][0] if x.args[1] else dict(x.args[2]).get('shape')
    if a is None:
        return None
    if dotted(x) == 'numpy.empty_like':
        return None
    return list(a.args) if a.op in ('tuple', 'list') else [a]


def partial(e, x):
    """True: the store leaves elements out; False: the positions of this round are all filled; None: unknown"""
    ix = e.extra[1]
    dims = shape_of(x)
    parts = list(ix.args) if ix.op == 'tuple' else [ix]
    if dotted(parts[0]) == 'numpy.ix_' or len(parts) == 1 and (ix.op in ('cmp', 'and', 'or', 'not') or dotted(ix) in (
            'numpy.where', 'numpy.nonzero', 'numpy.logical_and', 'numpy.logical_not', 'numpy.isfinite', 'numpy.isnan')):
        return True
    for j, y in enumerate(parts):
        if y.op == 'slice':
            lo, hi = y.args[0], y.args[1]
            loopy = any(z.op in ('idx', 'lphi', 'elem') for w in (lo, hi) if isinstance(w, N) for z in walk(w))
            if j == 0 and (loopy or e.loops):
                continue
            if is_const(hi, None) and (is_const(lo, None) or is_const(lo, 0)):
                continue
            if dims and j < len(dims) and hi is dims[j] and (is_const(lo, None) or is_const(lo, 0)):
                continue
            if is_const(hi, None) or dims and j < len(dims):
                if loopy and not is_const(lo, None) and not is_const(lo, 0):
                    return None
                return 'row' if e.loops and parts[0].op != 'slice' else True
    return False


def lroots(I, n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == 'lphi':
            L = I.loops.get(x.args[0])
            if L is not None and x in L.entry:
                todo.append(L.entry[x])
        elif x.op in ('llast', 'stored', 'phi', 'alloc'):
            todo += list(children(x))[:3]


def path_of(nodes, run, x):
    """conditions under which the memory is asked for"""
    ps = [e.path for e in run.events if e.kind == 'empty' and (e.value is x or e.value.op == 'alloc' and e.value.args[1] is x)]
    return set(c for q in ps for c in q)
