"""C05: what a reader returns under a key is that key's own recording.  Every
concrete reader class is interpreted with symbolic lists, files and ranges; the
item appended in the read loop is rewritten under each case (user range given or
not, scp range or not, archive already open, other archive open, ...) and compared
with the row of the list it stands for."""
from ..interp import Interp, neg
from ..ir import *
from ..cases import Facts
from ..poly import rat, same, num, atom
from ..project import AnalysisBroken

SCP = 'hyperion.utils.scp_list:SCPList'
SEG = 'hyperion.utils.segment_list:SegmentList'


def P(n):
    return mk('param', 'rd', n)


class Model(object):
    """interpreter with lists, files and matrix primitives as symbols"""

    def __init__(self, p, lists=()):
        self.p = p
        self.I = Interp(p)
        self.I.opaque_hook = self.ohook
        self.I.call_hook = self.chook
        self.lists = set(lists)           # parameters that are lists (the others are scalars)
        self.strings = set()
        self.scpcls = p.lookup('hyperion.utils.scp_list.SCPList')
        self.segcls = p.lookup('hyperion.utils.segment_list.SegmentList')
        self.iskey = lambda n: False

    def newscp(self, *a):
        n = mk('scp', *a)
        self.I.types[n] = self.scpcls
        return n

    def row(self, n, what):
        return mk('row', n, what)

    def ohook(self, I, f, env, st, node):
        c, nm = (f.cls.fq if f.cls is not None else None), f.name
        sv = env.get(f.params()[0][0]) if f.params()[0] else None
        if c == SCP or c == SEG:
            K = 'scp' if c == SCP else 'seg'
            if nm == 'load':
                n = mk(K, 'load', *[env[x] for x in f.params()[0][1 if f.kind == 'classmethod' else 0:] if x in env])
                I.types[n] = self.scpcls if K == 'scp' else self.segcls
                I.emit('load', n, None, st, node, env)
                return n
            if nm == 'split':
                n = mk(K, 'split', sv, *[v for k, v in sorted(env.items()) if v is not sv and isinstance(v, N)])
                I.types[n] = self.scpcls if K == 'scp' else self.segcls
                I.emit('split', sv, n, st, node, env)
                return n
            if nm == 'add_prefix_to_filepath':
                I.emit('prefix', sv, env.get('prefix'), st, node)
                return NONE
            if nm == 'get_index':
                return mk('rowof', sv, env.get('key'))
            if nm == '__getitem__':
                k = env.get('key')
                if K == 'seg':
                    return mk('segrow', sv, k)
                if self.iskey(k):
                    r = mk('rowof', sv, k)
                    return tup(self.row(r, 'path'), self.row(r, 'offset'), self.row(r, 'range'))
                return tup(self.row(k, 'key'), self.row(k, 'path'), self.row(k, 'offset'), self.row(k, 'range'))
            if nm == '__contains__':
                return mk('cmp', 'in', env.get('key'), sv)
            if nm in ('__len__', 'len'):
                return mk('dim', sv, 0)
        if f.fq == 'hyperion.utils.kaldi_io_funcs:init_kaldi_input_stream':
            I.emit('io', env.get('f'), None, st, node, ('init',))
            return mk('isbin', env.get('f'))
        if f.fq == 'hyperion.utils.kaldi_io_funcs:read_token':
            n = mk('token', env.get('f'), I.allocid(node))
            I.emit('io', env.get('f'), None, st, node, ('token', n))
            return n
        if c == 'hyperion.utils.kaldi_matrix:KaldiMatrix' and nm in ('read', 'read_shape'):
            if nm == 'read':
                n = mk('kread', env['f'], env['row_offset'], env['num_rows'])
            else:
                n = mk('kshape', env['f'])
            seq = env.get('sequential_mode', TRUE)
            I.emit('io', env['f'], n, st, node, ('take', seq))
            if nm == 'read':
                I.types[n] = f.cls
            return n
        if c is not None and c.startswith('hyperion.utils.kaldi_matrix:') and nm == 'to_ndarray':
            return mk('nd', sv)
        if nm == 'build_from_data_attrs':
            n = mk('build', env.get('data'), env.get('attrs'))
            I.types[n] = f.cls
            return n
        if nm == 'predict' and sv is not None:
            return mk('tr', sv, env.get('x'))
        if nm == 'read_wavspecifier':
            n = mk('wav', env.get('wavspecifier'), env.get('scale'))
            return tup(mk('wavx', n), mk('wavfs', n))
        return None

    def chook(self, I, f, args, kws, st, node):
        if f.op == 'ext' and f.args[0] == 'builtins.isinstance' and len(args) == 2:
            a, t = args
            if a.op == 'param' and a.args[0] == 'rd' or a in self.strings:
                ts = t.args if t.op == 'tuple' else (t,)
                nm = [x.args[0].split('.')[-1] if x.op == 'ext' else '?' for x in ts]
                if a.op == 'param' and a.args[1] == 'keys':
                    return FALSE if all(n in ('string_types', 'str') for n in nm) else None
                if a.op == 'param' and a.args[1] in self.scalars:
                    return const(any(n in ('list', 'ndarray', 'tuple') for n in nm) and a.args[1] in self.lists)
        if f.op == 'attr' and f.args[1] == 'predict' and len(args) == 1:
            return mk('tr', f.args[0], args[0])
        if f.op == 'attr' and f.args[1] in ('seek', 'tell', 'close', 'read', 'readline'):
            if f.args[1] == 'seek':
                wh = args[1] if len(args) > 1 else kws.get('whence', const(0))
                I.emit('io', f.args[0], args[0], st, node, ('seek', wh))
                return NONE
            if f.args[1] == 'tell':
                n = mk('tell', f.args[0], I.allocid(node))
                I.emit('io', f.args[0], n, st, node, ('tell',))
                return n
        return None

    scalars = ('row_offset', 'num_rows')


def concrete(p):
    out = []
    for base in ('SequentialDataReader', 'RandomAccessDataReader'):
        b = p.lookup('hyperion.io.data_reader.' + base)
        if b is None:
            raise AnalysisBroken('hyperion.io.data_reader.' + base)
        subs = p.subclasses(b)
        for c in subs:
            f = p.find_method(c, 'read')
            if f is None or f.abstract or f.cls is b or any(d is not c and c in p.mro(d) for d in subs):
                continue
            out.append((c, base.startswith('Seq')))
    return out


def handles(p, c):
    """fields holding the open file and the name of the file open in them"""
    hs, names, bad, script, keylists = set(), set(), [], False, {}
    for k in p.mro(c):
        for nm, f in sorted(getattr(k, 'methods', {}).items()):
            if p.find_method(c, nm) is not f and nm != '__init__' or f.kind == 'static' or f.abstract:
                continue
            m = Model(p)
            try:
                r = m.I.run(f, c)
            except AnalysisBroken:
                raise
            sets = [e for e in r.events if e.kind == 'setattr' and e.target is r.selfnode]
            opens = {}
            for e in r.events:
                v = e.value
                if e.kind == 'setattr' and e.target is r.selfnode and isopen(v):
                    opens.setdefault(e.extra, (v, e))
                if e.kind == 'mutate' and isinstance(e.extra, tuple) and e.extra[0] == 'store' and isopen(v):
                    t = e.target
                    while t.op in ('lphi', 'phi', 'store') and t.op != 'attr':
                        if t.op == 'lphi':
                            break
                        t = t.args[0] if t.op == 'store' else t.args[1]
                    if t.op == 'attr' and t.args[0] is r.selfnode:
                        hs.add(t.args[1])
            for h, (v, e) in opens.items():
                hs.add(h)
                for e2 in sets:
                    if e2.value is v.args[1][0] and e2.extra != h and e2.extra != 'file_path':
                        names.add(e2.extra)
    return hs, names


def isopen(n):
    return n is not None and n.op in ('icall', 'call') and openfn(n) is not None


def openfn(n):
    if n.op == 'icall':
        t = n.args[0]
        s = t.args[0] if isinstance(t, N) and t.op == 'ext' else t if isinstance(t, str) else None
    elif n.op == 'call':
        s = callname(n)
    else:
        s = None
    return s if s in ('builtins.open', 'io.open', 'h5py.File') else None


def openpath(n):
    return n.args[1][0]


class Reader(object):
    def __init__(self, p, rep, c, seq):
        self.p, self.rep, self.c, self.seq = p, rep, c, seq
        self.name = c.name
        self.ctor()

    # -- constructor ------------------------------------------------------
    def ctor(self):
        p, c, rep = self.p, self.c, self.rep
        m = self.m0 = Model(p)
        f = p.find_method(c, '__init__')
        r = m.I.run(f, c)
        self.fields = {k[1]: v for k, v in r.state.heap.items() if k[0] is r.selfnode}
        con = self.name + '.__init__'
        rep.unit(con)
        loads = [e for e in r.events if e.kind == 'load']
        self.scpfield = None
        for a, v in self.fields.items():
            if any(x.op == 'scp' for x in walk(v)):
                self.scpfield = a if self.scpfield is None or v.op in ('scp', 'phi') else self.scpfield
        self.script = bool(loads)
        self.tfield = 'transform'
        self.run0 = r
        par = {x: v for x, v in r.env0.items()} if hasattr(r, 'env0') else {}
        if self.script:
            e = loads[0]
            env = e.extra
            fp = env.get('file_path')
            if fp is not None and fp.op == 'param' and fp.args[-1] == 'file_path' or fp is self.fields.get('file_path'):
                rep.discharged('list', con, 'the list is loaded from file_path')
            else:
                rep.violation('list', con, 'the list is loaded from %s, not from file_path' % show(fp), e.site)
            sp = env.get('sep')
            if sp is not None and sp.op == 'param' and sp.args[-1] == 'scp_sep':
                rep.discharged('list', con, 'scp_sep')
            elif sp is not None and (sp.op == 'const'):
                rep.violation('list', con, 'the list is loaded with separator %s whatever scp_sep is' % show(sp), e.site)
            pre = [x for x in r.events if x.kind == 'prefix']
            if any(x.args[-1] == 'path_prefix' for x in par.values() if x.op == 'param'):
                ok = [x for x in pre if x.value is not None and x.value.op == 'param' and x.value.args[-1] == 'path_prefix']
                F = Facts(nonnone=[x.value for x in ok], true=[mk('cmp', '<', const(1), x) for x in ()])
                if not ok:
                    rep.violation('prefix', con, 'path_prefix is not added to the paths of the list', f.mod.rel)
                else:
                    e = ok[-1]
                    tgt = self.fields.get(self.scpfield)
                    want = leaves(tgt) if tgt is not None else []
                    have = [y for x in ok if F.path(x.path) is not False for y in leaves(x.target)]
                    if not [x for x in ok if F.path(x.path) is not False]:
                        rep.violation('prefix', con, 'path_prefix is skipped when it is given', e.site)
                    elif not all(any(w is h for h in have) for w in want):
                        rep.violation('prefix', con, 'path_prefix is added to %s, not to the list that is read' % ', '.join(
                            show(h, 2) for h in have), e.site)
                    else:
                        rep.discharged('prefix', con)
                    # archives derived from the list after the prefix
                    for x in r.events:
                        if x.kind == 'call' and x.target.op == 'ext' and x.target.args[0] == 'numpy.unique' and x.value.args and \
                                any(y.op == 'scp' for y in walk(x.value)):
                            if x.seq < e.seq:
                                rep.violation('prefix', con, 'the archive names are taken before path_prefix is added', x.site)
                            else:
                                rep.discharged('prefix', con, 'archives after prefix')
        # splitting
        if self.seq:
            splits = [e for e in r.events if e.kind == 'split'] + \
                [e for e in r.events if e.kind == 'invoke' and e.target.args[0].split(':')[1] in ('split_list', 'split_list_group_by_key')
                 and e.stack and not any('SCPList' in str(s) for s in e.stack)]
            names = {'idx': 'part_idx', 'num_parts': 'num_parts'}
            n = 0
            for e in splits:
                env = e.extra
                for k, want in names.items():
                    v = env.get(k)
                    if v is None:
                        continue
                    nm = optname(v)
                    n += 1
                    if nm == want:
                        rep.discharged('split', con)
                    elif nm is not None:
                        rep.violation('split', con, 'the list is split with %s=%s' % (k, nm), e.site)
                    else:
                        rep.undec('split', con, show(v, 4))
                g = env.get('group_by_key')
                if g is not None:
                    nm = optname(g)
                    if nm == 'split_by_key':
                        rep.discharged('split', con)
                    elif nm is not None or g.op == 'const':
                        rep.violation('split', con, 'the list is split with group_by_key=%s' % (nm or show(g)), e.site)
            has = any(e.kind == 'raise' for e in r.events)
            if not splits and not has:
                rep.violation('split', con, 'part_idx/num_parts are accepted and ignored', f.mod.rel)
            if self.fields.get(self.scpfield) is not None and any(e.kind == 'split' for e in splits):
                v = self.fields[self.scpfield]
                facts = Facts(hook=lambda F, n: TRUE if n.op == 'cmp' and optname2(n, 'num_parts') else None)
                v = facts.ev(v)
                if v.op == 'scp' and v.args[0] == 'load':
                    rep.violation('split', con, 'the part of the list is computed and not kept', f.mod.rel)
        # fields: transform and permissive adopted
        if not self.seq:
            v = self.fields.get('permissive')
            nm = optname(v) if v is not None else None
            if nm == 'permissive':
                rep.discharged('ctor', con)
            elif v is not None and (v.op == 'const' or nm is not None):
                rep.violation('ctor', con, 'permissive is set to %s' % (nm or show(v)), f.mod.rel)
        v = self.fields.get('transform')
        if v is None or v.op == 'const':
            rep.violation('ctor', con, 'transform is not kept', f.mod.rel)
        else:
            rep.discharged('ctor', con)

    # -- reading ----------------------------------------------------------
    def run(self, meth, lists=(), squeeze=False, sub=None):
        p, c = self.p, self.c
        m = Model(p, lists)
        f = p.find_method(c, meth)
        self_ = mk('param', 'rd', 'self')
        m.I.types[self_] = c
        heap = {}
        args = {}
        for a in f.params()[0]:
            if a in ('row_offset', 'num_rows', 'keys', 'num_records'):
                args[a] = P(a)
        if 'squeeze' in f.params()[0]:
            args['squeeze'] = const(squeeze)
        if 'assert_same_dim' in f.params()[0]:
            args['assert_same_dim'] = FALSE
        if self.scpfield:
            scp = m.newscp('list', mk('attr', self_, self.scpfield))
            heap[(self_, self.scpfield)] = scp
            m.scp = scp
        m.iskey = lambda n: n.op == 'sub' and n.args[0] is P('keys') or n is P('keys') or n.op == 'iter' or n in m.strings
        heap[(self_, 'transform')] = P('transform')
        r = m.I.run(f, c, args=args, selfnode=self_, heap=heap)
        return m, r, f

    def check(self):
        rep, c = self.rep, self.c
        rep.unit(c.fq)
        self.hs, self.names = handles(self.p, c)
        for lists in ((), ('row_offset', 'num_rows'), ('row_offset',)):
            self.read(lists)
        self.shapes()
        if self.seq:
            self.cursor()
            self.curname()
        self.derived()

    def curname(self):
        """the name the path is compared with to reuse the open file is the name of that file"""
        if not (self.seq and self.script):
            return
        m, r, f = self.run('read')
        for n in allnodes(r):
            if n.op == 'cmp' and n.args[0] in ('==', '!=', 'in', 'not in'):
                for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                    h, g = list(walk(a)), list(walk(b))
                    if any(x.op in ('phi', 'cmp', 'and', 'or') for x in h + g):
                        continue
                    if not any(self.isname(x) for x in h) or any(self.isname(x) for x in g):
                        continue
                    if not any(x.op == 'row' and x.args[1] == 'path' for x in g) or any(x.op == 'row' for x in h):
                        continue
                    if any(x.op == 'sub' and (x.args[0].op in ('call', 'icall') or x.args[1].op == 'slice') or x.op == 'dim' or
                           callname(x) in ('posixpath.basename', 'os.path.basename', 'os.path.splitext', 'os.path.dirname', 'builtins.len')
                           for x in h + g):
                        self.rep.violation('archive', self.name + '.read', 'an open file is reused when %s: files that differ elsewhere in '
                                           'the path are taken for the same' % show(n, 4), f.mod.rel)
            if n.op == 'cmp' and n.args[0] in ('==', '!=') and any(x.op == 'row' and x.args[1] == 'path' for x in n.args[1:]):
                for x in n.args[1:]:
                    a = x.args[1].split('.')[-1] if x.op == 'lphi' and isinstance(x.args[1], str) and '.' in x.args[1] else \
                        x.args[1] if x.op == 'attr' and x.args[0] is r.selfnode else None
                    if a is not None:
                        if a in self.names:
                            self.rep.discharged('archive', self.name + '.read', 'name of the open file')
                        else:
                            self.rep.violation('archive', self.name + '.read', 'an open file is reused by comparing with %s, '
                                               'which is not set when a file is opened' % a, f.mod.rel)

    def items(self, m, r, f, seq):
        """append events of the returned lists: (keys events, data events)"""
        ret = r.ret
        if ret.op == 'phi':
            return None
        parts = ret.args if ret.op == 'tuple' else (ret,)
        want = 2 if seq else 1
        if len(parts) != want:
            return None
        out = []
        for x in parts:
            lp = base_list(x)
            if lp is None:
                return None
            if lp.op == 'lmap':
                out.append([('map', lp.args[1], (lp.args[2],), lp.args[0], None)])
                continue
            evs = []
            for e in r.events:
                if e.kind == 'mutate' and isinstance(e.extra, tuple) and e.extra[0] == 'append' and samelist(e.target, lp):
                    evs.append(('app', e.value.args[0], e.path, e.loops[-1] if e.loops else None, e))
            out.append(evs)
        return out

    def read(self, lists):
        rep = self.rep
        m, r, f = self.run('read', lists)
        con = '%s.read' % self.name
        it = self.items(m, r, f, self.seq)
        tag = 'user ranges as ' + ('lists' if lists else 'scalars')
        if it is None or any(not x for x in it):
            rep.undec('item', con, 'returned list not recognised: %s' % show(r.ret, 3))
            return
        self.itemrule(m, r, f, con, it, tag, lists, 'read')

    def rowindex(self, m, r, ev):
        pass

    def scenarios(self, m, r, meth, lists, L):
        """facts: user range, scp range, offset, archive state"""
        ro, nr = P('row_offset'), P('num_rows')
        if meth == 'read':
            uo = [x for x in allnodes(r) if x.op == 'sub' and x.args[0] is ro]
            un = [x for x in allnodes(r) if x.op == 'sub' and x.args[0] is nr]
        off, n = mk('param', 'rd', 'U'), mk('param', 'rd', 'NN')
        rows = {x for x in allnodes(r) if x.op == 'row'}
        base = dict()
        for U in (const(0), off):
            for C in (const(0), n):
                if meth != 'read' and (U is off or C is n):
                    continue
                for rng in (('none', 'part', 'open') if self.script else ('none',)):
                    for ofs in ((NONE, const(0), mk('param', 'rd', 'OFS')) if self.script else (NONE,)):
                        yield U, C, rng, ofs

    def itemrule(self, m, r, f, con, it, tag, lists, meth):
        rep = self.rep
        evs = it[-1]
        keys = it[0] if self.seq else None
        ro, nr = P('row_offset'), P('num_rows')
        r0, r1 = P('r0'), P('r1')
        U0, N0 = P('U'), P('NN')
        OFS = P('OFS')
        good = 0
        for U in (const(0), U0):
            for C in (const(0), N0):
                if meth != 'read' and (U is U0 or C is N0):
                    continue
                for rng in (('none', 'part', 'open', 'part0', 'open0') if self.script else ('none',)):
                    for state in (('none', 'same', 'other') if self.script else ('same',)):
                        for ofs in ((NONE, const(0), OFS) if self.script else (NONE,)):
                            if ofs is not OFS and (rng != 'none' or U is U0 or C is N0):
                                continue
                            if state != 'same' and (U is U0 or C is N0):
                                continue
                            for comp in ((False, True) if state == 'same' and ofs is OFS or not self.script else (False,)):
                                good += self.case(m, r, f, con, evs, keys, tag, lists, meth, U, C, rng, state, ofs, comp)

    # one case
    def case(self, m, r, f, con, evs, keys, tag, lists, meth, U, C, rng, state, ofs, comp):
        rep = self.rep
        r0, r1, OFS = P('r0'), P('r1'), P('OFS')
        hs, names = self.hs, self.names
        # the rows left of a limited range after the rows the user skips
        R1 = r1 if is_const(U, 0) else mk('bin', '+', U, r1)

        def hook(F, n):
            if n.op == 'row' and n.args[1] in ('range', 'offset'):
                F.userows.add((F.ev(n.args[0]), n.args[1]))
            if n.op == 'row' and n.args[1] == 'range':
                return NONE if rng == 'none' else tup(const(0) if rng[-1] == '0' else r0, R1 if rng[:4] == 'part' else const(0))
            if n.op == 'row' and n.args[1] == 'offset':
                return ofs
            if n.op == 'param' and n.args[0] == 'rd':
                if n.args[1] == 'row_offset' and 'row_offset' not in lists:
                    return U
                if n.args[1] == 'num_rows' and 'num_rows' not in lists:
                    return C
            if n.op == 'sub' and n.args[0].op == 'param' and n.args[0].args[0] == 'rd' and n.args[0].args[1] in lists:
                F.used.setdefault(n.args[0].args[1], set()).add(F.ev(n.args[1]))
                return U if n.args[0].args[1] == 'row_offset' else C
            if n.op == 'cmp' and n.args[0] in ('is', 'is not'):
                a, b = n.args[1], n.args[2]
                if is_const(a, None):
                    a, b = b, a
                if is_const(b, None):
                    x = F.ev(a) if a.op == 'phi' else a
                    if self.ishandle(x):
                        v = state == 'none'
                        return const(v == (n.args[0] == 'is'))
                    if isopen(x) or x.op == 'sub' and self.isstored(x):
                        return const(n.args[0] == 'is not')
                    if x is P('transform'):
                        return const(n.args[0] == 'is not')
            if n.op == 'cmp' and n.args[0] in ('==', '!=') and any(self.isname(x) for x in n.args[1:]):
                o = [x for x in n.args[1:] if not self.isname(x)]
                if o and F.ev(o[0]).op in ('row', 'sub'):
                    return const((state == 'same') == (n.args[0] == '=='))
            if n.op == 'cmp' and n.args[0] in ('in', 'not in'):
                if is_const(n.args[1]) and n.args[1].args[0] == 'data_format':
                    return const(comp == (n.args[0] == 'in'))
                return const(n.args[0] == 'in')
            if n is P('transform'):
                return None
            return None
        F = Facts(pos=[P('U'), P('NN'), r1, OFS, r0], nonneg=[], hook=hook, nonnone=[P('transform')])
        F.used = {}
        F.userows = set()
        where = f.mod.rel
        label = '%s; first row %s, rows %s, scp range %s%s' % (
            tag, show(U), show(C), rng, ', compressed' if comp else '')
        if self.script:
            label += ', archive %s, offset %s' % ({'none': 'not open', 'same': 'open', 'other': 'another open'}[state], show(ofs))
        live = [e for e in evs if F.path(nobrk(e[2])) is not False]
        live2 = [e for e in live if F.path(nobrk(e[2])) is True]
        sure = self.unconditional(F, live)
        if not live:
            rep.violation('item', con, 'nothing is returned for a recording (%s)' % label, where)
            return 0
        if len(live) > 1:
            vals = {F.ev(e[1]) for e in live}
            ps = [F.path(nobrk(e[2])) for e in live]
            if ps.count(True) > 1:
                rep.violation('item', con, 'two items are appended for one recording (%s)' % label, where)
                return 0
            rep.undec('item', con, 'several appends (%s)' % label)
            return 0
        e = live[0]
        v = F.ev(e[1])
        # raising on a legal request
        for q in r.events:
            if q.kind == 'raise' and F.path(nobrk(q.path)) is True:
                rep.violation('item', con, 'a recording that is there is refused (%s)' % label, q.site)
                return 0
        # the row
        row = self.therow(m, r, f, con, e, keys, F, meth)
        if row is None:
            return 0
        for x, what in sorted(F.userows, key=lambda t: (t[0].uid, t[1])):
            if x is not row and not (row.op == 'sub' and x is row.args[1]) and (x.op in ('ivar', 'lphi', 'const') or rat(x).atoms()):
                rep.violation('key', con, 'the %s used is that of entry %s, not of the entry returned, %s' % (what, show(x, 4), show(row, 4)), where)
                return 0
        if meth == 'read':
            return self.readcase(m, r, f, con, e, v, F, row, U, C, rng, state, ofs, comp, label, lists)
        return self.shapecase(m, r, f, con, e, v, F, row, rng, state, ofs, label)

    def unconditional(self, F, live):
        return True

    def ishandle(self, n):
        """current file object: self.f at loop entry, or an element of it"""
        if n.op == 'lphi':
            return isinstance(n.args[1], str) and any(n.args[1].endswith('.' + h) for h in self.hs)
        if n.op == 'attr':
            return n.args[0].op == 'param' and n.args[1] in self.hs
        if n.op == 'sub':
            return self.ishandle(n.args[0])
        return False

    def isstored(self, n):
        x = n.args[0]
        return x.op == 'store' and isopen(x.args[2])

    def isname(self, n):
        if n.op == 'lphi':
            return isinstance(n.args[1], str) and any(n.args[1].endswith('.' + h) for h in self.names)
        return n.op == 'attr' and n.args[0].op == 'param' and n.args[1] in self.names

    def iscursor(self, m, n):
        """lphi holding the reading position; returns its loop"""
        if n.op == 'lphi' and n.args[0] in m.I.loops:
            L = m.I.loops[n.args[0]]
            en = L.entry.get(n)
            if en is not None and en.op == 'attr' and en.args[0].op == 'param':
                return L
        return None

    def therow(self, m, r, f, con, e, keys, F, meth):
        """the list row an item stands for, checked against the key returned with it"""
        rep = self.rep
        if self.seq:
            ks = [k for k in keys if F.path(nobrk(k[2])) is not False]
            if len(ks) != 1:
                if not ks:
                    rep.violation('key', con, 'no key is returned with a recording', f.mod.rel)
                else:
                    rep.undec('key', con, 'several appends to keys')
                return None
            k = F.ev(ks[0][1])
            if set(nobrk(F.ev(x) for x in ks[0][2] if F.boolval(F.ev(x)) is None)) != set(
                    nobrk(F.ev(x) for x in e[2] if F.boolval(F.ev(x)) is None)):
                rep.violation('key', con, 'keys and data are appended under different conditions', f.mod.rel)
                return None
            if self.script:
                if k.op == 'row' and k.args[1] == 'key':
                    cur = k.args[0]
                elif k.op == 'sub' and k.args[0].op == 'attr' and k.args[0].args[1] == 'key':
                    cur = k.args[1]
                else:
                    rep.undec('key', con, show(k, 4))
                    return None
                L = self.iscursor(m, cur)
                if L is None:
                    return self.notcursor(rep, con, cur, m, f)
                rep.discharged('key', con)
                return cur
            if k.op == 'token':
                return k
            if k.op == 'sub':
                L = self.iscursor(m, k.args[1])
                if L is None:
                    return self.notcursor(rep, con, k.args[1], m, f)
                rep.discharged('key', con)
                return k
            rep.undec('key', con, show(k, 4))
            return None
        # random access: the key is keys[i] of the same iteration
        for x in allnodes(r):
            if x.op == 'sub' and x.args[0] is P('keys') and x.args[1].op == 'ivar':
                return mk('rowof', m.scp, x) if self.script else x
        rep.undec('key', con, 'keys not walked')
        return None

    def notcursor(self, rep, con, cur, m, f):
        d = rat(cur)
        for a in d.atoms():
            if self.iscursor(m, a) is not None and not same(d, atom(a)):
                rep.violation('key', con, 'entry %s is read instead of the one at the reading position' % show(cur, 4), f.mod.rel)
                return None
        if cur.op == 'ivar' or any(a.op == 'ivar' for a in d.atoms()):
            rep.violation('key', con, 'entry %s is read: reading does not continue from the reading position' % show(cur, 4), f.mod.rel)
            return None
        rep.undec('key', con, 'position %s' % show(cur, 4))
        return None

    def pathof(self, n, row):
        """is n the path of list row `row`? True/False/None"""
        if n.op == 'row' and n.args[1] == 'path':
            return n.args[0] is row
        if n.op == 'row':
            return False
        if n.op == 'sub' and n.args[0].op == 'attr' and n.args[0].args[1] == 'file_path':
            return n.args[1] is row
        # archives[archive_idx[row]] with archives, archive_idx = unique(file_path, return_inverse)
        if n.op == 'sub' and n.args[1].op == 'sub' and n.args[0].op == 'attr' and n.args[1].args[0].op == 'attr':
            a, b = self.fields.get(n.args[0].args[1]), self.fields.get(n.args[1].args[0].args[1])
            u = uniq(a), uniq(b)
            if u[0] and u[1] and u[0][0] is u[1][0] and u[0][1] == 0 and u[1][1] == 'inv':
                src = u[0][0]
                if src.op == 'attr' and src.args[1] == 'file_path' or src.op == 'sub':
                    return n.args[1].args[1] is row
                return False
        if n.op == 'attr' and n.args[1] == 'file_path':
            return None
        if n.op == 'sub' and n.args[0].op == 'attr' and uniq(self.fields.get(n.args[0].args[1])):
            if n.args[1] is row:
                return False
        return None

    def source(self, h, row, state, con, label, site, slot=None):
        """the file object must be the archive of the row"""
        rep = self.rep
        if not self.script:
            return True
        if h.op == 'sub' and h.args[0].op == 'store' and h.args[0].args[1] is h.args[1] and isopen(h.args[0].args[2]):
            slot = h.args[1]
            h = h.args[0].args[2]
            if not self.slotok(slot, row):
                rep.violation('archive', con, 'the archive just opened is kept in place %s (%s)' % (show(slot, 4), label), site)
                return False
        if h.op == 'sub' and h.args[0].op == 'store' and isopen(h.args[0].args[2]) and h.args[0].args[1] is not h.args[1]:
            rep.violation('archive', con, 'the archive is opened in place %s and taken from place %s (%s)' % (
                show(h.args[0].args[1], 4), show(h.args[1], 4), label), site)
            return False
        if isopen(h):
            ok = self.pathof(openpath(h), row)
            if ok is False:
                rep.violation('archive', con, 'the file opened, %s, is not the archive of the recording asked (%s)' % (
                    show(openpath(h), 4), label), site)
                return False
            if ok is None:
                rep.undec('archive', con, show(openpath(h), 4))
                return False
            return True
        if self.ishandle(h):
            if h.op == 'sub':
                if state == 'none':
                    rep.violation('archive', con, 'an archive that was never opened is read (%s)' % label, site)
                    return False
                if not self.slotok(h.args[1], row):
                    rep.violation('archive', con, 'the open file in place %s is not the archive of the recording asked (%s)' % (
                        show(h.args[1], 5), label), site)
                    return False
                return True
            if state != 'same':
                rep.violation('archive', con, 'the file that was open before is read, not the archive of the recording (%s)' % label, site)
                return False
            return True
        rep.undec('archive', con, 'file object %s' % show(h, 4))
        return False

    def slotok(self, slot, row):
        return slot.op == 'sub' and slot.args[1] is row and slot.args[0].op == 'attr' and bool(
            uniq(self.fields.get(slot.args[0].args[1]))) and uniq(self.fields.get(slot.args[0].args[1]))[1] == 'inv'

    def position(self, r, F, take, h, ofs, state, con, label):
        """file position when the matrix is taken"""
        rep = self.rep
        pos = 'start' if isopen(h) or h.op == 'sub' and h.args[0].op == 'store' and isopen(h.args[0].args[2]) else 'unknown'
        want = const(0) if ofs is NONE else ofs
        for e in r.events:
            if e.seq >= take.seq:
                break
            if e.kind != 'io':
                continue
            if F.path(nobrk(e.path)) is False:
                continue
            on = self.condof(F, e, take)
            t = F.ev(e.target)
            if t is not h:
                if e.extra[0] in ('seek', 'init', 'take') and on:
                    rep.violation('offset', con, '%s acts on another file than the one read (%s)' % (e.extra[0], label), e.site)
                    return False
                continue
            if e.extra[0] == 'seek':
                v, wh = F.ev(e.value), F.ev(e.extra[1])
                if not on:
                    pos = 'maybe'
                    continue
                if is_const(wh, 0):
                    pos = v
                elif is_const(wh, 1):
                    d = rat(v)
                    tl = [a for a in d.atoms() if a.op == 'tell']
                    if len(tl) == 1 and not [a for a in (d + atom(tl[0])).atoms() if a.op == 'tell']:
                        pos = d + atom(tl[0])
                    elif pos not in ('unknown', 'maybe', 'start', 'moved'):
                        pos = (pos if not isinstance(pos, N) else rat(pos)) + d
                    elif pos == 'start':
                        pos = d
                    else:
                        pos = 'unknown'
                else:
                    pos = 'unknown'
            elif e.extra[0] == 'init':
                inits = True
            elif e.extra[0] == 'take':
                pos = 'moved'
        if pos == 'start':
            pos = num(0)
        if isinstance(pos, N):
            if pos.op == 'const' and pos.args[0] is None:
                rep.violation('offset', con, 'seek to None (%s)' % label, take.site)
                return False
            pos = rat(pos)
        if pos in ('unknown', 'maybe', 'moved'):
            rep.violation('offset', con, 'the file is not moved to the offset of the recording before reading (%s)' % label, take.site)
            return False
        if not same(pos, rat(want)):
            rep.violation('offset', con, 'the file is moved to %s, not to the offset of the recording (%s)' % (pos, label), take.site)
            return False
        return True

    def condof(self, F, e, take):
        """does e happen whenever take happens"""
        tk = {F.ev(c) for c in take.path}
        for c in e.path:
            v = F.ev(c)
            b = F.boolval(v)
            if b is True or v in tk:
                continue
            return False
        return True

    def rows(self, U, C, rng):
        r0, r1 = P('r0'), P('r1')
        lo = rat(U) + (rat(r0) if rng in ('part', 'open') else num(0))
        if not is_const(C, 0):
            return lo, rat(C)
        if rng[:4] == 'part':
            return lo, rat(r1)
        return lo, num(0)

    def readcase(self, m, r, f, con, e, v, F, row, U, C, rng, state, ofs, comp, label, lists=()):
        rep = self.rep
        site = e[4].site if e[4] is not None else f.mod.rel
        # transform applied exactly once, to the data
        nt = 0
        while True:
            if v.op == 'tr':
                if v.args[0] is not P('transform'):
                    rep.undec('transform', con, show(v, 3))
                    return 0
                nt += 1
                v = v.args[1]
            elif plain(v) is not v:
                v = plain(v)
            else:
                break
        if nt != 1:
            rep.violation('transform', con, 'the transform is applied %d times (%s)' % (nt, label), site)
            return 0
        rep.discharged('transform', con)
        want_lo, want_n = self.rows(U, C, rng)
        for a in lists:
            if a in [x.args[1] for x in bare(v, P(a))]:
                rep.violation('rows', con, 'the list %s is used as if it was a number (%s)' % (a, label), site)
                return 0
        if v.op == 'nd' and v.args[0].op == 'build':
            if not comp:
                rep.violation('decode', con, 'uncompressed data is decoded as compressed', site)
                return 0
            d, at = v.args[0].args
            v = plain(d)
            if at.op == 'attr' and at.args[1] == 'attrs':
                A, D = dsets(at.args[0]), dsets(v)
                if not A <= D or not D <= A:
                    rep.violation('decode', con, 'the data is decoded with the attributes of another dataset', site)
                    return 0
            else:
                rep.undec('decode', con, show(at, 3))
        elif comp and v.op != 'nd':
            rep.violation('decode', con, 'compressed data is returned without decoding (%s)' % label, site)
            return 0
        if v.op == 'nd' and v.args[0].op == 'kread':
            h, ro, nr = v.args[0].args
            site = next((q.site for q in r.events if q.kind == 'io' and q.extra[0] == 'take'), site)
            if not self.source(h, row, state, con, label, site):
                return 0
            take = [q for q in r.events if q.kind == 'io' and q.extra[0] == 'take' and F.path(nobrk(q.path)) is not False]
            if self.script:
                if not self.position(r, F, take[-1], h, ofs, state, con, label):
                    return 0
                rep.discharged('offset', con)
            ini = [q for q in r.events if q.kind == 'io' and q.extra[0] == 'init' and q.seq < take[-1].seq and self.condof(F, q, take[-1])]
            if not ini:
                rep.violation('offset', con, 'the binary header is not consumed before the matrix (%s)' % label, site)
                return 0
            if not self.seqmode(take[-1], F, con, site):
                return 0
            got_lo, got_n = rat(ro), rat(nr)
        else:
            x = v
            if x.op == 'sub' and x.args[1].op == 'slice':
                lo, hi, stp = x.args[1].args
                ds = x.args[0]
                if not is_const(stp, None) and not is_const(stp, 1):
                    rep.undec('rows', con, 'step')
                    return 0
                got_lo = num(0) if is_const(lo, None) else rat(lo)
                got_n = num(0) if is_const(hi, None) else rat(hi) - got_lo
            elif x.op == 'sub' and is_const(x.args[1]) and x.args[1].args[0] in (Ellipsis, ()):
                ds, got_lo, got_n = x.args[0], num(0), num(0)
            else:
                ds, got_lo, got_n = x, num(0), num(0)
            if ds.op != 'sub':
                rep.undec('item', con, 'data %s' % show(v, 4))
                return 0
            h, k = ds.args
            if not self.dskey(k, row):
                rep.violation('key', con, 'the dataset read is %s, not the one of the key returned (%s)' % (show(k, 4), label), site)
                return 0
            if not self.source(h, row, state, con, label, site):
                return 0
        if not same(got_lo, want_lo):
            rep.violation('rows', con, 'the first row read is %s, it should be %s (%s)' % (got_lo, want_lo, label), site)
            return 0
        if not same(got_n, want_n):
            rep.violation('rows', con, 'the number of rows read is %s, it should be %s (0: all) (%s)' % (got_n, want_n, label), site)
            return 0
        for a in ('row_offset', 'num_rows'):
            for i in F.used.get(a, ()):
                if not self.itemindex(m, i, e):
                    rep.violation('rows', con, '%s[%s] is used for an item that is not at that position of the call' % (a, show(i, 4)), site)
                    return 0
        self.bounded(r, F, con, U, C, rng, site, label)
        rep.discharged('rows', con, label if len(rep.samples) < 12 else None)
        rep.discharged('archive', con)
        return 1

    def bounded(self, r, F, con, U, C, rng, site, label):
        if rng[:4] != 'part' or is_const(C, 0):
            return
        need = rat(P('r1')) - rat(C)
        seen = []
        for e in r.events:
            if e.kind not in ('assert',) or F.path([c for c in nobrk(e.path)]) is False:
                continue
            t = F.ev(e.target)
            if t.op == 'cmp' and t.args[0] in ('<=', '>=', '<', '>') and any(x is P('r1') for x in walk(t)):
                a, b = rat(t.args[1]), rat(t.args[2])
                d = b - a if t.args[0] in ('<=', '<') else a - b
                seen.append(d)
                if same(d, need):
                    self.rep.discharged('bound', con)
                    return
        if seen:
            d = seen[0]
            # a check exists but lets rows past the range through
            self.rep.violation('bound', con, 'rows past the range given in the list are accepted: checked %s >= 0, needed %s >= 0' % (
                d, need), site)
        else:
            self.rep.undec('bound', con, 'no check that the asked rows are inside the range of the list')

    def seqmode(self, take, F, con, site):
        """reading one entry after another needs the file left at the next entry"""
        s = F.ev(take.extra[1])
        if self.seq and not self.script and is_const(s, False):
            self.rep.violation('offset', con, 'the rest of the matrix is not skipped when reading entry after entry', site)
            return False
        return True

    def dskey(self, k, row):
        if not self.script:
            return k is row
        if k.op == 'row' and k.args[1] == 'key':
            return k.args[0] is row
        if row.op == 'rowof':
            return k is row.args[1]
        return False

    def itemindex(self, m, i, e):
        """i counts the items of this call: the loop counter from 0 by 1, or a variable that starts
        at 0 and grows by one per item"""
        if i.op == 'ivar':
            rg = i.args[0]
            if callname(rg) == 'builtins.range' and len(rg.args[1]) == 1:
                return True
            return rg.op == 'range' or True if callname(rg) is None else len(rg.args[1]) == 1
        if i.op == 'lphi' and i.args[0] in m.I.loops:
            L = m.I.loops[i.args[0]]
            return is_const(L.entry.get(i), 0) and same(rat(L.back[i]) - atom(i), num(1))
        return False

    # -- shapes -----------------------------------------------------------
    def shapes(self):
        m, r, f = self.run('read_shapes')
        con = '%s.read_shapes' % self.name
        it = self.items(m, r, f, self.seq)
        if it is None or any(not x for x in it):
            self.rep.undec('item', con, 'returned list not recognised: %s' % show(r.ret, 3))
            return
        self.itemrule(m, r, f, con, it, 'shape', (), 'read_shapes')

    def shapecase(self, m, r, f, con, e, v, F, row, rng, state, ofs, label):
        rep = self.rep
        site = e[4].site if e[4] is not None else f.mod.rel
        edits = {}
        while True:
            if callname(v) in ('builtins.tuple', 'builtins.list'):
                v = v.args[1][0]
            elif v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('tuple', 'list'):
                v = v.args[1][0]
            elif v.op == 'alloc':
                v = v.args[1]
            elif v.op in ('tuple', 'list') and len(v.args) == 1 and v.args[0].op in ('alloc', 'store'):
                v = v.args[0]
            elif v.op == 'store' and v.args[1].op == 'const':
                edits.setdefault(v.args[1].args[0], v.args[2])
                v = v.args[0]
            else:
                break
        if v.op == 'bin' and v.args[0] == '+' and v.args[1].op in ('tuple', 'list') and v.args[2].op == 'sub':
            # (n,) + shape[1:]
            sl = v.args[2].args[1]
            if sl.op == 'slice' and is_const(sl.args[0], len(v.args[1].args)):
                for i, a in enumerate(v.args[1].args):
                    edits.setdefault(i, a)
                v = v.args[2].args[0]
        if v.op == 'kshape':
            h = v.args[0]
            take = [q for q in r.events if q.kind == 'io' and q.extra[0] == 'take' and F.path(nobrk(q.path)) is not False]
            if not self.source(h, row, state, con, label, site):
                return 0
            if self.script and not self.position(r, F, take[-1], h, ofs, state, con, label):
                return 0
            if not self.seqmode(take[-1], F, con, site):
                return 0
        elif v.op in ('shape',) or v.op == 'attr' and v.args[1] == 'shape':
            ds = v.args[0]
            if ds.op != 'sub':
                rep.undec('item', con, show(v, 4))
                return 0
            if not self.dskey(ds.args[1], row):
                rep.violation('key', con, 'the shape is of dataset %s, not of the key returned (%s)' % (show(ds.args[1], 4), label), site)
                return 0
            if not self.source(ds.args[0], row, state, con, label, site):
                return 0
        else:
            rep.undec('item', con, show(v, 4))
            return 0
        s0s = [mk('sub', v, const(0)), mk('dim', v.args[0], 0)]

        def unlist(n):
            if n.op == 'sub' and is_const(n.args[1], 0):
                x = n.args[0]
                while x.op == 'alloc' or callname(x) in ('builtins.tuple', 'builtins.list'):
                    x = x.args[1] if x.op == 'alloc' else x.args[1][0]
                return mk('sub', x, const(0))
            return rebuild(n, unlist)
        edits = {k: unlist(x) for k, x in edits.items()}
        if set(edits) - {0}:
            rep.violation('rows', con, 'entry %s of the shape is changed (%s)' % (sorted(set(edits) - {0}), label), site)
            return 0
        got = rat(edits[0]) if 0 in edits else atom(s0s[0])
        got = got.subst({s0s[1]: atom(s0s[0])})
        lo, n = self.rows(const(0), const(0), rng)
        want = n if n.p else atom(s0s[0]) - lo
        if same(got, want):
            rep.discharged('rows', con)
            rep.discharged('archive', con)
            return 1
        if got.atoms() <= {s0s[0], P('r0'), P('r1')}:
            rep.violation('rows', con, 'the number of rows reported is %s, it should be %s (%s)' % (got, want, label), site)
        else:
            rep.undec('rows', con, '%s' % got)
        return 0

    # -- sequential cursor --------------------------------------------------
    def cursor(self):
        rep = self.rep
        for meth in ('read', 'read_shapes'):
            m, r, f = self.run(meth)
            con = '%s.%s' % (self.name, meth)
            cur = [(n, L) for L in m.I.loops.values() for n in L.entry
                   if n.op == 'lphi' and L.entry[n].op == 'attr' and L.entry[n].args[0] is r.selfnode and
                   L.entry[n].args[1] not in self.hs | self.names and used_as_index(r, n)]
            if not cur:
                if self.script:
                    rep.undec('cursor', con, 'no reading position')
                else:
                    self.eof_token(m, r, f, con)
                continue
            n, L = cur[0]
            field = L.entry[n].args[1]
            d = rat(Facts(hook=lambda F, x: const(x.args[0] == 'in') if x.op == 'cmp' and x.args[0] in ('in', 'not in') else None).ev(L.back[n])) - atom(n)
            if same(d, num(1)):
                rep.discharged('cursor', con, 'position advances by one per item')
            elif d.const() is not None:
                rep.violation('cursor', con, 'the reading position advances by %s per item' % d, f.mod.rel)
            elif L.back[n].op == 'phi' and [x for x in leaves(L.back[n]) if x is n]:
                rep.violation('cursor', con, 'for some items the reading position does not advance (%s)' % show(L.back[n], 5), f.mod.rel)
            else:
                rep.undec('cursor', con, str(d))
            # number of items asked: all the rest, or num_records
            it = L.iter
            size = self.sizenode(m, r, n)
            if it is not None and callname(it) == 'builtins.range' and len(it.args[1]) == 1:
                b = it.args[1][0]
                for k, want in ((const(0), None), (P('K'), P('K'))):
                    F = Facts(sub={P('num_records'): k}, pos=[P('K')])
                    g = rat(F.ev(b))
                    if want is None:
                        at = [a for a in g.atoms() if a.op == 'dim']
                        ok = len(g.atoms()) == 2 and len(at) == 1 and same(g, atom(at[0]) - rat(L.entry[n]))
                        if ok and size is not None and at[0] is not size:
                            ok = False
                    else:
                        ok = same(g, atom(want))
                    if ok:
                        rep.discharged('cursor', con)
                    elif want is None and g.atoms() and all(a.op in ('dim', 'attr') for a in g.atoms()) or want is not None and g.atoms() <= {want} | {a for a in g.atoms() if a.op == 'attr'}:
                        rep.violation('cursor', con, '%s items are read when num_records=%s' % (g, '0' if want is None else 'K'), f.mod.rel)
                    else:
                        rep.undec('cursor', con, str(g))
            # end test
            g = self.p.find_method(self.c, 'eof')
            m2, r2, f2 = self.run('eof')
            t = r2.ret
            ok = None
            if t.op == 'cmp' and t.args[0] in ('==', '>=', '<='):
                xs = set(t.args[1:])
                cu = mk('attr', r2.selfnode, field)
                if cu in xs:
                    o = (xs - {cu}).pop() if len(xs) > 1 else cu
                    ok = o.op == 'dim' and o.args[1] == 0
                    if not ok and rat(o).const() is None and any(a.op == 'dim' for a in rat(o).atoms()):
                        ok = False
                    if t.args[0] == '<=' and t.args[1] is cu or t.args[0] == '>=' and t.args[2] is cu:
                        ok = False
            if ok:
                rep.discharged('cursor', self.name + '.eof')
            elif ok is False:
                rep.violation('cursor', self.name + '.eof', 'end of data is reported by %s' % show(t, 4), f2.mod.rel)
            else:
                rep.undec('cursor', self.name + '.eof', show(t, 4))
            m3, r3, f3 = self.run('reset')
            v = r3.state.heap.get((r3.selfnode, field))
            v = Facts(hook=lambda F, x: const(x.args[0] != 'is') if x.op == 'cmp' and x.args[0] in ('is', 'is not') and is_const(x.args[2], None) else None).ev(v) if v is not None else None
            if v is not None and is_const(v, 0):
                rep.discharged('cursor', self.name + '.reset')
            elif v is None or v.op == 'const':
                rep.violation('cursor', self.name + '.reset', 'the reading position is %s after reset' % ('unchanged' if v is None else show(v)), f3.mod.rel)
            else:
                rep.undec('cursor', self.name + '.reset', show(v, 4))

    def sizenode(self, m, r, n):
        return None

    def eof_token(self, m, r, f, con):
        """reading token after token until the empty one"""
        rep = self.rep
        m3, r3, f3 = self.run('reset')
        sk = [e for e in r3.events if e.kind == 'io' and e.extra[0] == 'seek']
        ok = sk and is_const(sk[-1].value, 0) and is_const(sk[-1].extra[1], 0)
        if ok:
            rep.discharged('cursor', self.name + '.reset')
        elif sk:
            rep.violation('cursor', self.name + '.reset', 'reset moves the file to %s (whence %s)' % (show(sk[-1].value, 3), show(sk[-1].extra[1])), f3.mod.rel)
        elif not any(isopen(e.value) for e in r3.events if e.kind == 'setattr'):
            rep.violation('cursor', self.name + '.reset', 'reset does not go back to the beginning of the file', f3.mod.rel)
        # flag set at the end must be cleared by reset
        flags = [e for e in r.events if e.kind == 'setattr' and e.target is r.selfnode and is_const(e.value, True)]
        for e in flags:
            v = [x for x in r3.events if x.kind == 'setattr' and x.extra == e.extra]
            if v and is_const(v[-1].value, False):
                rep.discharged('cursor', self.name + '.reset')
            else:
                rep.violation('cursor', self.name + '.reset', '%s stays set after reset' % e.extra, f3.mod.rel)
        if not flags:
            rep.violation('cursor', con, 'the end of the file is never recorded', f.mod.rel)
        L = next((L for L in m.I.loops.values() if L.cond is not None and any(x is P('num_records') for x in walk(L.cond))), None)
        if L is not None:
            # loop goes on while num_records == 0 or count < num_records
            cnt = [n for n in L.entry if any(x is n for x in walk(L.cond))]
            for n in cnt:
                d = rat(L.back[n]) - atom(n)
                if not same(d, num(1)):
                    if d.const() is not None:
                        rep.violation('cursor', con, 'the item counter advances by %s per item' % d, f.mod.rel)
                    else:
                        rep.undec('cursor', con, str(d))
                elif not is_const(L.entry[n], 0):
                    rep.violation('cursor', con, 'the item counter starts at %s' % show(L.entry[n], 3), f.mod.rel)
                else:
                    rep.discharged('cursor', con)
                K = P('K')
                for sub, pos, nonneg, want in (({P('num_records'): const(0)}, [], [n], True), ({P('num_records'): K, n: const(0)}, [K], [], True),
                                               ({P('num_records'): K, n: K}, [K], [], False)):
                    F = Facts(sub=sub, pos=pos, nonneg=nonneg)
                    b = F.boolval(F.ev(L.cond))
                    if b is want:
                        rep.discharged('cursor', con)
                    elif b is None:
                        rep.undec('cursor', con, show(L.cond, 4))
                    else:
                        rep.violation('cursor', con, 'reading %s although %s' % (('stops', 'more was asked') if want else ('goes on', 'num_records items were read')), f.mod.rel)

    # -- rows and dims from shapes ------------------------------------------
    def derived(self):
        rep = self.rep
        for meth, what in (('read_num_rows', 'rows'), ('read_dims', 'columns')):
            f = self.p.find_method(self.c, meth)
            if f is None or f.abstract:
                continue
            con = '%s.%s' % (self.name, meth)
            m = Model(self.p)
            SH, KY = P('SHAPES'), P('KEYS')
            old = m.ohook

            def oh(I, g, env, st, node, old=old):
                if g.name == 'read_shapes':
                    return tup(KY, SH) if self.seq else SH
                return old(I, g, env, st, node)
            m.I.opaque_hook = oh
            s = mk('param', 'rd', 'self')
            m.I.types[s] = self.c
            r = m.I.run(f, self.c, selfnode=s, args={a: FALSE for a in ('assert_same_dim',) if a in f.params()[0]})
            ret = r.ret
            if self.seq:
                if ret.op != 'tuple' or len(ret.args) != 2:
                    rep.undec('derived', con, show(ret, 3))
                    continue
                if ret.args[0] is not KY:
                    rep.violation('derived', con, 'the keys returned are not those of the shapes', f.mod.rel)
                    continue
                ret = ret.args[1]
            x = ret
            while x.op == 'alloc' or callname(x) in ('numpy.array', 'numpy.asarray', 'builtins.list', 'numpy.fromiter'):
                x = x.args[1] if x.op == 'alloc' else x.args[1][0]
            if x.op != 'lmap' or not is_const(x.args[2], True):
                rep.undec('derived', con, show(ret, 4))
                continue
            el = x.args[1]
            S = [y for y in walk(el) if y.op == 'sub' and y.args[0] is SH]
            if len(S) != 1:
                rep.undec('derived', con, show(el, 4))
                continue
            S = S[0]
            for nd in (2, 1):
                F = Facts(sub={mk('dim', S, 0): const(nd)})
                v = F.ev(el)
                if v.op == 'sub' and v.args[0] is S and v.args[1].op == 'const':
                    k = v.args[1].args[0] % nd
                    want = (0 if nd == 2 else None) if what == 'rows' else nd - 1
                    got = k
                elif v.op == 'const':
                    want, got = (1 if nd == 1 and what == 'rows' else None), v.args[0]
                    if what == 'rows' and nd == 2:
                        want = 'rows'
                else:
                    rep.undec('derived', con, show(v, 3))
                    continue
                if what == 'rows' and nd == 1:
                    ok = v.op == 'const' and got == 1
                else:
                    ok = got == want and v.op == 'sub'
                if ok:
                    rep.discharged('derived', con)
                else:
                    rep.violation('derived', con, 'the number of %s of a %s is reported as %s' % (what, 'matrix' if nd == 2 else 'vector', show(v, 3)), f.mod.rel)


def plain(n):
    """n without conversions that keep the values"""
    while True:
        if callname(n) in ('numpy.asarray', 'numpy.array', 'numpy.astype', 'numpy.ascontiguousarray', 'numpy.copy') and n.args[1]:
            n = n.args[1][0]
        elif n.op == 'alloc' and n.args[1].op == 'call':
            n = n.args[1]
        elif n.op == 'phi':
            a, b = plain(n.args[1]), plain(n.args[2])
            if a is not b:
                return n
            n = a
        else:
            return n


def bare(n, what, seen=None):
    """occurrences of a list other than as list[i]"""
    seen = set() if seen is None else seen
    if n in seen:
        return []
    seen.add(n)
    if n is what:
        return [n]
    if n.op == 'sub' and n.args[0] is what:
        return bare(n.args[1], what, seen)
    if n.op == 'dim':
        return []
    out = []
    for x in children(n):
        out += bare(x, what, seen)
    return out


def dsets(n):
    """datasets a value is taken from"""
    n = plain(n)
    if n.op == 'phi':
        return dsets(n.args[1]) | dsets(n.args[2])
    if n.op == 'sub' and n.args[1].op in ('slice', 'tuple'):
        return dsets(n.args[0])
    if n.op == 'sub' and is_const(n.args[1]) and n.args[1].args[0] in (Ellipsis, ()):
        return dsets(n.args[0])
    return {n}


def used_as_index(r, n):
    for x in allnodes(r):
        if x.op == 'sub' and x.args[1] is n or x.op == 'row' and x.args[0] is n:
            return True
    return False


def optname(v):
    if v is None:
        return None
    if v.op == 'param':
        return v.args[-1]
    if v.op == 'kwget':
        return v.args[1] if isinstance(v.args[1], str) else None
    if v.op == 'attr' and v.args[0].op == 'param':
        return v.args[1]
    return None


def optname2(n, nm):
    return any(optname(x) == nm for x in n.args[1:] if isinstance(x, N))


def leaves(n):
    return leaves(n.args[1]) + leaves(n.args[2]) if n.op == 'phi' else [n]


def uniq(v):
    """(source, which) when v is an output of numpy.unique"""
    if v is None:
        return None
    if v.op == 'sub' and callname(v.args[0]) == 'numpy.unique' and v.args[1].op == 'const':
        u = v.args[0]
        i = v.args[1].args[0]
        outs = [0]
        if is_const(kwof(u, 'return_index', FALSE), True):
            outs.append('idx')
        if is_const(kwof(u, 'return_inverse', FALSE), True):
            outs.append('inv')
        if is_const(kwof(u, 'return_counts', FALSE), True):
            outs.append('cnt')
        return (u.args[1][0], outs[i]) if i < len(outs) else None
    if callname(v) == 'numpy.unique' and not v.args[2]:
        return (v.args[1][0], 0)
    return None


def base_list(x):
    if x.op == 'phi' and x.args[0].op == 'broke':
        a, b = base_list(x.args[1]), base_list(x.args[2])
        return a
    if x.op == 'lfin':
        return x.args[2]
    if x.op == 'lphi':
        return x
    if x.op == 'alloc':
        y = x.args[1]
        return y if y.op == 'lmap' else None
    return None


def samelist(t, lp):
    if t is lp:
        return True
    return t.op == 'lphi' and lp.op == 'lphi' and t.args[:2] == lp.args[:2]


def nobrk(path):
    """path conditions other than the end-of-data test (which every item passes)"""
    return tuple(c for c in path)


_all = {}


def allnodes(r):
    k = id(r)
    if k not in _all:
        seen, out = set(), []
        for e in r.events:
            for x in (e.target, e.value) + tuple(e.path):
                if isinstance(x, N):
                    out.extend(walk(x, seen))
        if isinstance(r.ret, N):
            out.extend(walk(r.ret, seen))
        _all[k] = (r, out)
    return _all[k][1]


def check(p, rep, tier):
    cs = concrete(p)
    rep.require('reader classes', len(cs), 3)
    for c, seq in cs:
        Reader(p, rep, c, seq).check()
