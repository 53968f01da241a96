"""C05 (second part): audio readers and the writers of archives, scp lists and audio."""
from ..interp import Interp
from ..ir import *
from ..cases import Facts
from ..poly import rat, same, num, atom
from ..project import AnalysisBroken
from .readers import Model, P, allnodes, plain, base_list, samelist, leaves


def fmtparts(n):
    """a formatted string as a list of strings and value nodes; None if not understood"""
    import re as _re
    if n.op == 'const' and isinstance(n.args[0], str):
        return [n.args[0]] if n.args[0] else []
    if n.op == 'bin' and n.args[0] == '%' and n.args[1].op == 'const' and isinstance(n.args[1].args[0], str):
        t = n.args[1].args[0]
        vals = list(n.args[2].args) if n.args[2].op == 'tuple' else [n.args[2]]
        out = []
        for x in _re.split(r'(%%|%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', t):
            if x == '%%':
                out.append('%')
            elif x.startswith('%') and len(x) > 1:
                if not vals:
                    return None
                q = fmtparts(vals.pop(0)) if x == '%s' else [vals.pop(0)]
                out.extend(q)
            elif x:
                out.append(x)
        return merge(out) if not vals else None
    if n.op == 'bin' and n.args[0] == '+':
        a, b = fmtparts(n.args[1]), fmtparts(n.args[2])
        return merge(a + b) if a is not None and b is not None else None
    if n.op == 'fstr':
        out = []
        for x in n.args:
            q = fmtparts(x) if isinstance(x, N) else [x]
            if q is None:
                return None
            out.extend(q)
        return merge(out)
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'format' and n.args[0].args[0].op == 'const':
        t = n.args[0].args[0].args[0]
        vals = list(n.args[1])
        out = []
        k = 0
        for x in _re.split(r'(\{\d*(?::[^}]*)?\})', t):
            if x.startswith('{'):
                i = _re.match(r'\{(\d*)', x).group(1)
                i = int(i) if i else k
                k += 1
                if i >= len(vals):
                    return None
                out.extend(fmtparts(vals[i]) or [])
            elif x:
                out.append(x)
        return merge(out)
    if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] == 'builtins.str' and len(n.args[1]) == 1:
        return fmtparts(n.args[1][0])
    return [n]


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def showp(ps):
    return ''.join(x if isinstance(x, str) else '<%s>' % show(x, 3) for x in ps).replace('\n', '\\n')


# ---------------------------------------------------------------------------
def runaudio(p, c):
    m = Model(p)
    I = m.I
    s = mk('param', 'rd', 'self')
    I.types[s] = c
    m.scp = m.newscp('list', P('scp'))
    m.seg = mk('seg', 'list', P('seg'))
    I.types[m.seg] = m.segcls
    f = p.find_method(c, 'read')
    m.iskey = lambda n: n.op == 'sub' and n.args[0] is P('keys') or n.op == 'sub' and n.args[0].op == 'segrow' or \
        n.op == 'attr' and n.args[0].op == 'segrow'
    args = {a: P(a) for a in f.params()[0][1:]}
    r = I.run(f, c, selfnode=s, args=args, heap={(s, 'scp'): m.scp, (s, 'segments'): m.seg})
    return m, r, f, s


def col(n):
    """(segment row, column) of a segment field access"""
    if n.op == 'sub' and n.args[0].op == 'segrow' and n.args[1].op == 'const':
        return n.args[0], n.args[1].args[0]
    if n.op == 'attr' and n.args[0].op == 'segrow':
        return n.args[0], n.args[1]
    return None


def audio(p, rep, c, seq):
    m, r, f, s = runaudio(p, c)
    con = '%s.read' % c.name
    rep.unit(con)
    where = f.mod.rel
    ret = r.ret
    if ret.op != 'tuple' or len(ret.args) != (3 if seq else 2):
        rep.undec('audio', con, show(ret, 3))
        return
    names = ('keys', 'data', 'fs') if seq else ('data', 'fs')
    vals = {}
    for nm, x in zip(names, ret.args):
        lp = base_list(x)
        if lp is None:
            rep.undec('audio', con, show(x, 3))
            return
        if lp.op == 'lmap':
            vals[nm] = (lp.args[1], None)
        else:
            ev = [e for e in r.events if e.kind == 'mutate' and isinstance(e.extra, tuple) and e.extra[0] == 'append' and samelist(e.target, lp)]
            if len(ev) != 1:
                rep.undec('audio', con, '%d appends to %s' % (len(ev), nm))
                return
            vals[nm] = (ev[0].value.args[0], ev[0])
    ws = mk('attr', s, 'with_segments')

    def fact(seg, **kw):
        def hook(F, n):
            if n is ws:
                return const(seg)
            if n.op == 'cmp' and n.args[0] in ('is', 'is not', '==', '!='):
                a, b = n.args[1], n.args[2]
                if is_const(b, None) and (a is m.seg):
                    return const((n.args[0] in ('is not', '!=')) == seg)
            if n is m.seg and kw.get('none'):
                return NONE
        return Facts(hook=hook, true=kw.get('true', ()), false=kw.get('false', ()), pos=kw.get('pos', ()))
    for seg in (False, True):
        F = fact(seg)
        lab = 'with segments' if seg else 'without segments'
        fsv = F.ev(vals['fs'][0])
        if fsv.op != 'wavfs':
            rep.undec('audio', con, show(fsv, 4))
            continue
        w = fsv.args[0]
        path, scale = w.args
        if scale.op == 'attr' and scale.args[0] is s or scale.op == 'param':
            rep.discharged('audio', con)
        else:
            rep.violation('audio', con, 'the waveform is scaled by %s, not by the scale of the reader' % show(scale, 4), where)
        path = stripped(path)
        if not (path.op == 'row' and path.args[1] == 'path'):
            rep.undec('audio', con, show(path, 4))
            continue
        row = path.args[0]
        x = plain(F.ev(vals['data'][0]))
        idx = None
        if not seg:
            if x.op == 'wavx':
                if x.args[0] is not w:
                    rep.violation('audio', con, 'waveform and sampling frequency come from different recordings', where)
                    continue
                rep.discharged('audio', con, 'wave and fs of one file')
            else:
                rep.violation('audio', con, 'a recording is returned as %s (%s)' % (show(x, 3), lab), where) if x.op == 'sub' else \
                    rep.undec('audio', con, show(x, 3))
                continue
            if seq:
                k = F.ev(vals['keys'][0])
                if k.op == 'row' and k.args[1] == 'key' and k.args[0] is row:
                    rep.discharged('audio', con)
                    idx = row
                elif k.op == 'row':
                    rep.violation('audio', con, 'the key returned, %s, is not the key of the recording read, %s' % (show(k, 4), show(row, 4)), where)
                    continue
                else:
                    rep.undec('audio', con, show(k, 4))
                    continue
            else:
                idx = row.args[1].args[1] if row.op == 'rowof' and row.args[1].op == 'sub' else None
        else:
            if not (row.op == 'rowof' and col(row.args[1])):
                rep.undec('audio', con, show(row, 4))
                continue
            sr, cn = col(row.args[1])
            if cn != 'file_id':
                rep.violation('audio', con, 'the file of a segment is looked up by %s' % cn, where)
                continue
            while x.op == 'phi' and False:
                pass
            # below: cases of the end of the segment
            dimw = mk('dim', mk('wavx', w), 0)
            bad = False
            for case in ('inside', 'open', 'long'):
                tend = [n for n in allnodes(r) if col(n) == (sr, 'tend')]
                tn = tend[0] if tend else None

                def hook2(G, n, case=case):
                    if n is ws:
                        return const(True)
                    if n.op == 'cmp' and n.args[0] in ('<', '<=') and tn is not None:
                        a, b = n.args[1], n.args[2]
                        if a is tn and is_const(b, 0):
                            return const(case == 'open')
                        if is_const(a, 0) and b is tn:
                            return const(case != 'open')
                        if a is dimw and any(q is tn for q in walk(b)):
                            return const(case == 'long')
                        if b is dimw and any(q is tn for q in walk(a)):
                            return const(case != 'long')
                        if a is dimw or b is dimw:
                            return const(b is dimw)
                    return None
                G = Facts(hook=hook2)
                y = plain(G.ev(vals['data'][0]))
                for q in r.events:
                    if q.kind == 'raise' and q.path and G.path(q.path) is True:
                        rep.violation('audio', con, 'a segment inside its file is refused', q.site)
                        bad = True
                if y.op != 'sub' or y.args[1].op != 'slice' or y.args[0].op != 'wavx':
                    if y.op == 'wavx':
                        rep.violation('audio', con, 'the whole file is returned for a segment (%s)' % case, where)
                    else:
                        rep.undec('audio', con, show(y, 4))
                    bad = True
                    break
                if y.args[0].args[0] is not w:
                    rep.violation('audio', con, 'waveform and sampling frequency come from different recordings', where)
                    bad = True
                    break
                lo, hi, stp = y.args[1].args
                wl = timesamples(lo)
                if wl is None or wl[0] != (sr, 'tbeg') or wl[1] is not fsv:
                    if wl is not None or is_const(lo):
                        rep.violation('audio', con, 'a segment starts at sample %s, not at int(tbeg*fs)' % show(lo, 5), where)
                    else:
                        rep.undec('audio', con, show(lo, 5))
                    bad = True
                    break
                if case == 'inside':
                    wh = timesamples(hi)
                    if wh is None or wh[0] != (sr, 'tend') or wh[1] is not fsv:
                        if wh is not None or hi is dimw or is_const(hi, None) or wrongsum(hi, (sr, 'tend')):
                            rep.violation('audio', con, 'a segment ends at sample %s, not at int(tend*fs)' % show(hi, 5), where)
                        else:
                            rep.undec('audio', con, show(hi, 5))
                        bad = True
                        break
                elif not (hi is dimw or is_const(hi, None)) and (case == 'open' or timesamples(hi) is None):
                    rep.violation('audio', con, 'a segment %s ends at sample %s' % (
                        'with no end' if case == 'open' else 'longer than the file', show(hi, 5)), where)
                    bad = True
                    break
                rep.discharged('audio', con, 'segment bounds (%s)' % case)
            if bad:
                continue
            if seq:
                k = col(F.ev(vals['keys'][0]))
                if k == (sr, 'segment_id'):
                    rep.discharged('audio', con)
                elif k is not None:
                    rep.violation('audio', con, 'the key returned with a segment is its %s' % k[1] if k[0] is sr else
                                  'the key returned is that of another segment', where)
                    continue
                else:
                    rep.undec('audio', con, 'key')
                    continue
            idx = sr.args[1] if seq else (sr.args[1].args[1] if sr.args[1].op == 'sub' else None)
        # which item
        if seq:
            L = m.I.loops.get(idx.args[0]) if idx is not None and idx.op == 'lphi' else None
            if L is None or idx not in L.entry:
                if idx is not None and (idx.op == 'ivar' or rat(idx).atoms() - {idx} or not same(rat(idx), atom(idx))):
                    rep.violation('audio', con, 'entry %s is read, not the one at the reading position' % show(idx, 4), where)
                else:
                    rep.undec('audio', con, 'position %s' % show(idx, 4))
                continue
            d = rat(F.ev(L.back[idx])) - atom(idx)
            if same(d, num(1)):
                rep.discharged('audio', con)
            elif d.const() is not None:
                rep.violation('audio', con, 'the reading position advances by %s per item (%s)' % (d, lab), where)
            size = mk('dim', m.seg if seg else m.scp, 0)
            if L.iter is not None and callname(L.iter) == 'builtins.range' and len(L.iter.args[1]) == 1:
                for k, want in ((const(0), atom(size) - rat(L.entry[idx])), (P('K'), atom(P('K')))):
                    G = fact(seg, pos=[P('K')])
                    G.sub[P('num_records')] = k
                    g = rat(G.ev(L.iter.args[1][0]))
                    if same(g, want):
                        rep.discharged('audio', con)
                    elif all(a.op in ('dim', 'attr', 'param') for a in g.atoms()):
                        rep.violation('audio', con, '%s items are read when num_records is %s (%s); %s are left' % (g, show(k), lab, want), where)
                    else:
                        rep.undec('audio', con, str(g))
        else:
            if idx is not None and idx.op == 'ivar':
                rep.discharged('audio', con)
            else:
                rep.undec('audio', con, 'item %s' % show(idx, 3) if idx is not None else 'item')


def stripped(n):
    while n.op in ('call', 'icall') and isinstance(n.args[0], N) and n.args[0].op == 'attr' and n.args[0].args[1] in ('strip', 'rstrip', 'lstrip'):
        n = n.args[0].args[0]
    return n


def wrongsum(n, tend):
    """n is a sum of other things beside int(tend*fs)"""
    at = rat(n).atoms()
    return any(col(a) == tend for a in at) and len(rat(n).p) > 1


def timesamples(n):
    """int(time * fs): ((segment row, column), fs)"""
    if callname(n) in ('builtins.int', 'numpy.int') and n.args[1]:
        n = n.args[1][0]
    else:
        return None
    if callname(n) in ('numpy.floor', 'math.floor'):
        n = n.args[1][0]
    if n.op == 'bin' and n.args[0] == '*':
        for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
            if col(a) and b.op == 'wavfs':
                return col(a), b
    return (None, None)


def audioctor(p, rep, c, seq):
    m = Model(p)
    f = p.find_method(c, '__init__')
    r = m.I.run(f, c)
    con = '%s.__init__' % c.name
    rep.unit(con)
    fields = {k[1]: v for k, v in r.state.heap.items() if k[0] is r.selfnode}
    par = r.env0
    for e in r.events:
        if e.kind == 'load':
            want = 'file_path' if e.target.op == 'scp' else 'segments_path'
            v = e.extra.get('file_path')
            nm = v.args[-1] if v is not None and v.op == 'param' else None
            if nm == want:
                rep.discharged('audio', con)
            elif nm is not None:
                rep.violation('audio', con, '%s is loaded as the %s list' % (nm, 'recordings' if want == 'file_path' else 'segments'), e.site)
            if e.target.op == 'seg' and is_const(e.extra.get('index_by_file', TRUE), True):
                rep.violation('audio', con, 'segments are indexed by file, keys are segment names', e.site)
        if e.kind == 'split':
            for k, want in (('idx', 'part_idx'), ('num_parts', 'num_parts')):
                v = e.extra.get(k)
                if v is None:
                    continue
                nm = v.args[-1] if v.op in ('param', 'attr') else None
                if nm == want:
                    rep.discharged('audio', con)
                elif isinstance(nm, str):
                    rep.violation('audio', con, 'the list is split with %s=%s' % (k, nm), e.site)
    v = fields.get('scale')
    if v is not None and v.op == 'param' and v.args[-1] == 'wav_scale':
        rep.discharged('audio', con)
    elif v is not None and (v.op == 'const' or v.op == 'param'):
        rep.violation('audio', con, 'wav_scale is not kept', f.mod.rel)
    # objects given as they are
    for a, cls in (('scp', m.scpcls), ('segments', m.segcls)):
        v = fields.get(a)
        if v is None:
            continue
        pn = 'file_path' if a == 'scp' else 'segments_path'
        pv = [x for x in par.values() if isinstance(x, N) and x.op == 'param' and x.args[-1] == pn]
        if not pv:
            continue

        def hook(F, n):
            if n.op == 'cmp' and n.args[0] == 'isinstance':
                return const(n.args[1] is pv[0])
            if n.op == 'cmp' and n.args[0] in ('is', 'is not') and is_const(n.args[2], None) and n.args[1] is pv[0]:
                return const(n.args[0] == 'is not')
            if n.op == 'cmp' and n.args[0] in ('<', '<=') and any(isinstance(q, N) and q.op == 'param' and q.args[-1] == 'num_parts' for q in n.args[1:]):
                return const(n.args[0] == '<=')
            return None
        F = Facts(hook=hook)
        x = F.ev(v)
        if x is pv[0]:
            rep.discharged('audio', con)
        elif any(q is pv[0] for q in walk(x)) and any(q.op in ('scp', 'seg') for q in walk(x)):
            rep.violation('audio', con, 'a %s given as %s is opened as a file' % ('list' if a == 'scp' else 'segment list', pn), f.mod.rel)
        else:
            rep.undec('audio', con, '%s: %s' % (a, show(x, 4)))


# ---------------------------------------------------------------------------
class WModel(Model):
    def ohook(self, I, f, env, st, node):
        c, nm = (f.cls.fq if f.cls is not None else ''), f.name
        sv = env.get(f.params()[0][0]) if f.params()[0] else None
        if f.fq.startswith('hyperion.utils.kaldi_io_funcs:'):
            if nm == 'is_token':
                return TRUE
            if nm in ('write_token', 'init_kaldi_output_stream'):
                I.emit('w', env.get('f'), env.get('token'), st, node, nm)
                return NONE
        if c.startswith('hyperion.utils.kaldi_matrix:'):
            if nm == 'write':
                I.emit('w', env.get('f'), sv, st, node, 'data')
                return NONE
            if nm == 'compress':
                n = mk('comp', env.get('mat'), env.get('method'))
                I.types[n] = f.cls
                return n
            if nm == '__init__' and c.endswith(':KaldiMatrix'):
                st.heap[(sv, 'data')] = env.get('data')
                return NONE
            if nm == 'get_data_attrs':
                return tup(mk('cdata', sv), mk('cattrs', sv))
            if nm == 'to_matrix':
                return mk('tomat', sv)
        if nm == 'float_save':
            return mk('fs')
        return Model.ohook(self, I, f, env, st, node)


def index_of(n, base):
    """i when n is base[i] (possibly converted)"""
    n = plain(n)
    if n.op == 'sub' and n.args[0] is base:
        return n.args[1]
    return None


def writer(p, rep, c):
    m = WModel(p)
    I = m.I
    s = mk('param', 'rd', 'self')
    I.types[s] = c
    f = p.find_method(c, 'write')
    con = '%s.write' % c.name
    rep.unit(con)
    args = {a: P(a) for a in f.params()[0][1:]}
    keys, data = P('keys'), P('data')
    oldc = m.chook

    def chook(I_, fn, a, k, st, node):
        if fn.op == 'ext' and fn.args[0] == 'builtins.isinstance' and len(a) == 2:
            if a[0] is keys:
                return FALSE
            if a[0].op == 'sub' and a[0].args[0] is data and a[1].op == 'ext' and a[1].args[0] == 'numpy.ndarray':
                return TRUE
        return oldc(I_, fn, a, k, st, node)
    I.call_hook = chook
    r = I.run(f, c, selfnode=s, args=args)
    where = f.mod.rel
    fh, fsn = mk('attr', s, 'f'), mk('attr', s, 'f_script')
    wr = [e for e in r.events if e.kind == 'w']
    calls = [e for e in r.events if e.kind == 'call']
    script = [e for e in calls if e.target.op == 'attr' and e.target.args[1] == 'write' and e.target.args[0] is fsn]
    isark = any(e.extra == 'data' for e in wr)
    h5 = [e for e in calls if e.target.op == 'attr' and e.target.args[1] == 'create_dataset']
    sfw = [e for e in calls if e.target.op == 'ext' and e.target.args[0] == 'soundfile.write']
    key = None
    path = mk('attr', s, 'archive_path')
    sep = mk('attr', s, 'scp_sep')
    want = None

    def same_item(ki, di, what):
        a, b = index_of(ki, keys), index_of(di, data)
        if a is None or b is None:
            rep.undec('writer', con, '%s / %s' % (show(ki, 4), show(di, 4)))
            return False
        if a is not b:
            rep.violation('writer', con, '%s of item %s is written under key %s' % (what, show(b, 4), show(a, 4)), where)
            return False
        rep.discharged('writer', con, 'key and data of the same item')
        return True
    cm = mk('attr', s, 'compression_method')
    comp = mk('attr', s, 'compress')
    if isark:
        for v in (True, False):
            F = Facts(true=[comp] if v else [], false=[] if v else [comp])
            main = [e for e in wr if e.target is fh and F.path(e.path) is not False]
            seqn = [e.extra for e in main]
            if seqn != ['write_token', 'init_kaldi_output_stream', 'data']:
                rep.violation('writer', con, 'an entry is written as %s, not as key, binary mark, matrix' % ', '.join(seqn), where)
                return
            rep.discharged('writer', con)
            key = main[0].value
            d = F.ev(main[2].value)
            if d.op == 'comp':
                if not v:
                    rep.violation('writer', con, 'data is compressed although compress is off', where)
                    return
                if d.args[1] is not cm:
                    rep.violation('writer', con, 'data is compressed with method %s' % show(d.args[1], 3), where)
                    return
                d = d.args[0]
            elif v:
                rep.violation('writer', con, 'data is not compressed although compress is on', where) if d.op == 'new' else rep.undec('writer', con, show(d, 3))
                return
            elif d.op == 'new':
                d = r.state.heap.get((d, 'data'))
                if d is not None and d.op == 'llast':
                    d = d.args[2]
                if d is None:
                    rep.undec('writer', con, 'matrix')
                    return
            else:
                rep.undec('writer', con, show(d, 3))
                return
            same_item(key, F.ev(d), 'the matrix')
        tells = [e for e in r.events if e.kind == 'io' and e.extra[0] == 'tell' and e.target is fh]
        good = [e.value for e in tells if main[0].seq < e.seq < main[1].seq]
        want = ([key, sep, path, ':'], good)
    elif h5:
        e = h5[0]
        a = list(e.value.args) if e.value is not None else []
        kw = e.extra if isinstance(e.extra, dict) else {}
        key = a[0] if a else kw.get('name')
        dv = kw.get('data', a[3] if len(a) > 3 else None)
        for v in (True, False):
            F = Facts(true=[comp] if v else [], false=[] if v else [comp])
            d = plain(F.ev(dv)) if dv is not None else None
            if d is None:
                rep.violation('writer', con, 'the dataset is created without its data', e.site)
                return
            if d.op == 'cdata':
                if not v:
                    rep.violation('writer', con, 'data is compressed although compress is off', where)
                    return
                cmpn = d.args[0]
                if cmpn.op != 'comp':
                    rep.undec('writer', con, show(d, 4))
                    return
                if cmpn.args[1] is not cm:
                    rep.violation('writer', con, 'data is compressed with method %s' % show(cmpn.args[1], 3), where)
                    return
                d = cmpn.args[0]
                # attributes kept with the data
                def orig(n):
                    while n.op == 'lphi' and n in m.I.loops[n.args[0]].entry:
                        n = m.I.loops[n.args[0]].entry[n]
                    return n
                sts = [q for q in r.events if q.kind == 'mutate' and isinstance(q.extra, tuple) and q.extra[0] == 'store' and
                       orig(q.target).op == 'attr' and orig(q.target).args[1] == 'attrs' or q.kind == 'call' and q.target.op == 'attr' and
                       q.target.args[1] in ('update', 'create', 'modify') and q.target.args[0].op == 'attr' and q.target.args[0].args[1] == 'attrs']
                sts = [q for q in sts if F.path(q.path) is not False]
                if not sts:
                    rep.violation('writer', con, 'compressed data is written without the attributes that decode it', where)
                    return
                for q in sts:
                    src = [x for x in walk(F.ev(q.value) if isinstance(q.value, N) else NONE) if x.op in ('cattrs', 'comp')]
                    own = orig(q.target).args[0] if q.kind == 'mutate' else q.target.args[0].args[0]
                    if own.op == 'icall' and any(x is own or (x.op == 'icall' and x.args[-1] == own.args[-1]) for x in walk(own)) and \
                            isinstance(own.args[0], N) and own.args[0].op == 'attr' and own.args[0].args[1] == 'create_dataset':
                        rep.discharged('writer', con, 'attributes on the dataset')
                    elif own.op == 'sub' and own.args[0] is fh and own.args[1] is key:
                        rep.discharged('writer', con, 'attributes on the dataset')
                    elif own is fh:
                        rep.violation('writer', con, 'the attributes of a recording are stored on the file, shared by all recordings', q.site)
                        return
                    else:
                        rep.undec('writer', con, 'attributes stored on %s' % show(own, 4))
                    if q.kind == 'mutate':
                        k_, v_ = F.ev(q.extra[1]) if isinstance(q.extra[1], N) else None, F.ev(q.value)
                        if k_ is not None and k_.op == 'dkey' and v_.op == 'dval' and k_.args[1:] != v_.args[1:]:
                            rep.violation('writer', con, 'attribute values are mixed up', q.site)
            elif v:
                if index_of(d, data) is not None:
                    rep.violation('writer', con, 'data is not compressed although compress is on', where)
                else:
                    rep.undec('writer', con, show(d, 4))
                return
            same_item(key, d, 'the matrix')
        want = ([key, sep, path], None)
    elif sfw:
        e = sfw[0]
        a = list(e.value.args)
        if len(a) < 3:
            rep.undec('writer', con, 'sf.write')
            return
        pp = fmtparts(a[0]) or []
        ks = [x for x in walk(a[0]) if x.op == 'sub' and x.args[0] is keys]
        if not ks:
            rep.violation('writer', con, 'the file name does not depend on the key', e.site)
            return
        key = ks[0]
        same_item(key, a[1], 'the waveform')
        for lst in (True, False):
            def hook(F, n, lst=lst):
                if n.op == 'cmp' and n.args[0] == 'isinstance' and n.args[1] is P('fs'):
                    return const(lst)
            x = Facts(hook=hook).ev(a[2])
            if x is P('fs') and not lst or lst and x.op == 'sub' and x.args[0] is P('fs') and x.args[1] is index_of(key, keys):
                rep.discharged('writer', con)
            elif any(q is P('fs') for q in walk(x)):
                rep.violation('writer', con, 'sampling frequency %s is written with item %s' % (show(x, 4), show(index_of(key, keys), 3)), e.site)
            else:
                rep.undec('writer', con, show(x, 3))
        want = ([key, sep] + merge(fmtparts(a[0])), None)
    else:
        rep.undec('writer', con, 'writer not recognised')
        return
    if not script:
        rep.violation('writer', con, 'the scp list is not written', where)
        return
    if len(script) > 1:
        rep.undec('writer', con, 'several writes to the list')
        return
    e = script[0]
    F = Facts(nonnone=[fsn])
    if F.path(e.path) is False:
        rep.violation('writer', con, 'the scp list is not written when it was asked', e.site)
        return
    ps = fmtparts(F.ev(e.value.args[0]))
    exp, good = want
    if ps is None:
        rep.undec('writer', con, show(e.value, 5))
        return
    if good is None:
        ok = merge(exp + ['\n']) == ps
    else:
        ok = any(merge(exp + [g, '\n']) == ps for g in good)
    if ok:
        rep.discharged('writer', con, 'list line %s' % showp(ps))
    elif all(isinstance(x, str) or x.op in ('attr', 'sub', 'tell', 'param', 'bin', 'ivar') for x in ps):
        rep.violation('writer', con, 'the line of the list is "%s", it should be "%s%s\\n"' % (
            showp(ps), showp(exp), '' if good is None else '<position after the key>'), e.site)
    else:
        rep.undec('writer', con, showp(ps))


def check(p, rep, tier):
    n = 0
    for nm, seq in (('SequentialAudioReader', True), ('RandomAccessAudioReader', False)):
        c = p.lookup('hyperion.io.audio_reader.' + nm)
        if c is None:
            raise AnalysisBroken(nm)
        audio(p, rep, c, seq)
        audioctor(p, rep, c, seq)
    for nm in ('ark_data_writer.ArkDataWriter', 'h5_data_writer.H5DataWriter', 'audio_writer.AudioWriter'):
        c = p.lookup('hyperion.io.' + nm)
        if c is None:
            raise AnalysisBroken(nm)
        writer(p, rep, c)
        n += 1
    rep.require('writers', n, 1)
