"""Compares what a method computes with a reference formula, in index notation."""
import os
import re
from fractions import Fraction
from .ir import *
from .interp import Interp, neg
from .cases import Facts
from .tensor import Tr, Spec, Ten, Cat, Pack, Tri, Undec, Shape, Heads, heads


class Sym(object):
    """a symbolic array argument or attribute: a name and its dimensions"""

    def __init__(self, name, *dims, **kw):
        self.name, self.dims = name, dims
        self.kw = kw


class Dim(object):
    """the length of an axis"""

    def __init__(self, d):
        self.d = d


class Joined(object):
    """arrays joined along their last axis; a Sym with packed=True is the triangle of a symmetric matrix"""

    def __init__(self, *parts):
        self.parts = parts


class Obj(object):
    """an attribute (or argument) that is an object of a project class, with its own symbolic attributes"""

    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs


def cls_of(p, fq):
    if not isinstance(fq, str):
        return fq
    mod, name = fq.split(':')
    for c in p.all_classes([mod]):
        if c.name == name:
            return c
    return None


class Bench(object):
    """one method of one class run on symbolic inputs"""

    def __init__(self, p, I, cls, meth, args=None, attrs=None, **kw):
        self.p, self.I, self.cls = p, I, cls
        self.heads = Heads()
        self.shapes = {}
        self.atoms = {}
        self.facts = Facts()
        self.labels = set()
        f = p.find_method(cls, meth) if cls is not None else meth
        self.func = f
        self.construct = '%s.%s' % (cls.name, meth) if cls is not None else f.fq
        self.where = '%s:%d' % (f.mod.rel, f.node.lineno)
        tag = '#b'
        first = [a.arg for a in f.node.args.args][:1]
        self.selfnode = mk('param', f.fq + tag, first[0]) if cls is not None and f.kind != 'static' else None
        heap = {}
        if self.selfnode is not None:
            I.reset()
            I.types[self.selfnode] = cls
            self.put(self.selfnode, attrs or {}, heap)
        env = {}
        for nm, v in (args or {}).items():
            env[nm] = self.value(v, mk('param', f.fq + tag, nm), heap)
        for name, v in kw.get('setup', ()):
            g = p.find_method(cls, name)
            if g is None:
                continue
            keep, old = dict(I.types), I.reset

            def rs(old=old, keep=keep):
                old()
                I.types.update(keep)
            I.reset = rs
            try:
                r = I.run(g, cls, args={k: self.value(x, mk('param', g.fq + tag, k), heap) for k, x in v.items()}, selfnode=self.selfnode, heap=dict(heap), tag=tag,
                          assume=tuple(neg(mk('cmp', 'is', n, NONE)) for n in self.facts.nonnone))
            finally:
                I.reset = old
            heap = dict(r.state.heap)
        self.types = dict(I.types)
        self.heap = heap
        self.env = env
        self.tag = tag
        for h in kw.get('sym', ()):
            self.heads.sym.add(h)
        for h in kw.get('pos', ()):
            self.heads.pos.add(h)
        for h in kw.get('bools', ()):
            self.heads.bool.add(h)
        self.assume = tuple(kw.get('assume', ()))
        self.models = dict(kw.get('models', {}))
        self.several = {('dim', d) for d in kw.get('several', ())}
        self.rankof = kw.get('rankof')
        self.sample = None
        self.run_()
        self.sample = kw.get('sample')
        if self.sample:
            self.settle(self.sample)
        dec = kw.get('decide')
        if dec:
            # conditions decided by the bench: calls of the named functions
            seen = {}
            for e in self.run.events:
                for c in e.path:
                    self.harvest(c, dec, seen)
            for L in I.loops.values():
                for c in list(L.entry.values()) + list(L.back.values()) + [L.ivar, L.iter]:
                    if c is not None:
                        self.harvest(c, dec, seen)
            if self.run.ret is not None:
                self.harvest(self.run.ret, dec, seen)
            for v in self.run.state.heap.values():
                if v is not None and hasattr(v, 'op'):
                    self.harvest(v, dec, seen)
            if seen:
                self.assume += tuple(seen.values())
                self.run_()

    def settle(self, sample):
        """comparisons of lengths and options decided for one choice of their values"""
        for _ in range(6):
            seen = {}
            todo = [c for e in self.run.events for c in e.path]
            for L in self.I.loops.values():
                todo += [c for c in list(L.entry.values()) + list(L.back.values()) + [L.ivar, L.iter] if c is not None]
            todo += [v for v in [self.run.ret] + list(self.run.state.heap.values()) if v is not None and hasattr(v, 'op')]
            done = set()
            for c in todo:
                for x in walk(c):
                    if x in done or x.op != 'cmp' or x.args[0] not in ('<', '<=', '==', '!='):
                        continue
                    done.add(x)
                    if neg(x) in self.assume or x in self.assume:
                        continue
                    v = [self.number(y, sample) for y in x.args[1:]]
                    if None in v:
                        continue
                    r = {'<': v[0] < v[1], '<=': v[0] <= v[1], '==': v[0] == v[1], '!=': v[0] != v[1]}[x.args[0]]
                    seen[x] = x if r else neg(x)
            if not seen:
                return
            self.assume += tuple(seen.values())
            self.run_()

    def number(self, n, sample):
        n = self.facts.ev(n)
        if n.op == 'const':
            return n.args[0] if isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool) else None
        try:
            e = self.tr.scalar(n)
        except (Undec, Shape, AttributeError, TypeError, KeyError, IndexError, ValueError):
            return None
        return self.evalnum(e, sample)

    def evalnum(self, e, sample):
        out = Fraction(0)
        for (b, fs), c in e.items():
            if b:
                return None
            for h, ii, p in fs:
                if ii:
                    return None
                if isinstance(h, tuple) and h[0] == 'dim':
                    v = sample.get(h[1])
                elif isinstance(h, str):
                    v = sample.get(h)
                elif isinstance(h, tuple) and h[0] == 'fn' and h[1] in ('floor', 'ceil', 'round'):
                    v = self.evalnum(dict(h[2]), sample)
                    if v is not None:
                        v = {'floor': v.__floor__, 'ceil': v.__ceil__, 'round': v.__round__}[h[1]]()
                elif isinstance(h, tuple) and h[0] == 'P':
                    v = self.evalnum(dict(h[1]), sample)
                elif isinstance(h, tuple) and h[0] == 'boolfn' and h[1] in ('lt0', 'eq0'):
                    v = self.evalnum(dict(h[2]), sample)
                    if v is not None:
                        v = int(v < 0) if h[1] == 'lt0' else int(v == 0)
                else:
                    return None
                if v is None or p.denominator != 1 or v == 0 and p < 0:
                    return None
                c = c * Fraction(v) ** int(p)
            out += c
        return out

    def harvest(self, c, dec, seen):
        for x in walk(c):
            if x.op in ('call', 'icall') and callname(x) in dec:
                seen[x] = x if dec[callname(x)] else neg(x)

    def put(self, o, attrs, heap):
        for nm, v in attrs.items():
            heap[(o, nm)] = self.value(v, mk('attr', o, nm), heap)

    def value(self, v, n, heap):
        if isinstance(v, Sym):
            self.shapes[n] = (v.name, v.dims)
            if v.kw.get('tri'):
                # one triangle of the matrix
                self.shapes[n] = ('', lambda tr: Tri(tr.atom(v.name, v.dims), v.kw['tri']))
            self.atoms[v.name] = v.dims
            self.facts.nonnone.add(n)
            nd = mk('cmp', 'isinstance', n, mk('ext', 'numpy.ndarray'))
            self.assume_types = getattr(self, 'assume_types', ()) + (nd if v.dims else neg(nd),)
            if v.kw.get('pos'):
                self.heads.pos.add(v.name)
                self.facts.pos.add(n)
            if v.kw.get('sym'):
                self.heads.sym.add(v.name)
            if v.kw.get('bool'):
                self.heads.bool.add(v.name)
            if v.kw.get('label'):
                self.labels.add(v.name)
            return n
        if isinstance(v, Dim):
            self.shapes[n] = ('', lambda tr: Ten([], tr.dimexpr(v.d)))
            self.facts.nonnone.add(n)
            return n
        if isinstance(v, Joined):
            for x in v.parts:
                self.value(x, mk('part', n, const(x.name)), {})
            self.facts.nonnone.add(n)

            def make(tr):
                ps = []
                for x in v.parts:
                    t = tr.atom(x.name, x.dims)
                    if x.kw.get('packed'):
                        t = Pack(t, Fraction(x.kw['packed']))
                    ps.append(t)
                return Cat(ps, len(v.parts[0].dims) - 1)
            self.shapes[n] = ('', make)
            return n
        if isinstance(v, Obj):
            c = cls_of(self.p, v.cls)
            if c is not None:
                self.I.types[n] = c
                self.newtypes = True
            self.facts.nonnone.add(n)
            self.assume_types = getattr(self, 'assume_types', ()) + tuple(neg(mk('cmp', 'isinstance', n, mk('ext', t))) for t in ('six.string_types', 'builtins.str'))
            self.put(n, v.attrs, heap)
            return n
        if isinstance(v, N):
            return v
        if isinstance(v, (tuple, list)):
            return mk('tuple' if isinstance(v, tuple) else 'list', *[self.value(x, mk('sub', n, const(k)), heap) for k, x in enumerate(v)])
        return const(v)

    def run_(self):
        I = self.I
        old = I.reset
        keep = self.types

        def reset():
            old()
            I.types.update(keep)
        I.reset = reset
        try:
            assume = tuple(mk('not', mk('cmp', 'is', n, NONE)) if False else neg(mk('cmp', 'is', n, NONE)) for n in self.facts.nonnone)
            self.run = I.run(self.func, self.cls, args=self.env, selfnode=self.selfnode, heap=dict(self.heap), tag=self.tag,
                             assume=assume + tuple(self.assume) + getattr(self, 'assume_types', ()))
        finally:
            I.reset = old
        self.tr = Tr(I, self.facts, self.shapes, self.heads)
        self.tr.labels = self.labels
        if self.sample:
            self.tr.num = lambda e: self.evalnum(e, self.sample)
        self.tr.models = self.models
        self.tr.several = self.several
        self.tr.rankof = self.rankof
        for k in self.shapes.values():
            pass

    def node(self, path=None):
        """the returned value, or one part of it, or an attribute afterwards"""
        if path is None:
            return self.run.ret
        if isinstance(path, int):
            r = self.facts.ev(self.run.ret)
            if r.op == 'tuple' and path < len(r.args):
                return r.args[path]
            xs = self.tr.listitems(r)
            if xs is not None and -len(xs) <= path < len(xs):
                return xs[path]
            return mk('sub', r, const(path))
        o = self.selfnode
        parts = path.split('.')
        if parts[0] == 'ret':
            o = self.facts.ev(self.run.ret)
            parts = parts[1:]
        for a in parts:
            o = self.run.state.heap.get((o, a), mk('attr', o, a))
        return o

    def tensor(self, n):
        return self.tr.T(self.facts.ev(n))

    def spec(self, formula, letters, ten, defs=None, dims=None, iterms=None, funcs=None):
        s = Spec(self.tr, dict(self.atoms))
        s.funcs = funcs or {}
        s.iterms = iterms or {}
        s.defs = defs or {}
        s.letters = {}
        for k, v in (dims or {}).items():
            s.letters[k] = v(s) if callable(v) else self.tr.asdim(s.parse(v[1:], {})) if isinstance(v, str) and v[:1] == '=' else v
        ax = ten.axes
        if len(letters) != len(ax):
            raise Shape('the result has %d dimensions, expected %d' % (len(ax), len(letters)))
        idx = {}
        letters = [(l, self.tr.asdim(s.parse(d[1:], {})) if isinstance(d, str) and d[:1] == '=' else d(s) if callable(d) else d) for l, d in letters]
        for (l, d), a in zip(letters, ax):
            if a is None:
                if d != 1:
                    raise Shape('axis %s of the result is a single element' % l)
                continue
            if d == 1:
                raise Shape('axis %s of the result has several elements' % l)
            have = self.tr.A.dims[a]
            if have != d:
                raise Shape('axis %s of the result runs over %s, expected %s' % (l, have, d))
            idx[l] = a
        return s.parse(formula, idx)


def compare(rep, rule, b, path, letters, formula, text=None, defs=None, dims=None, iterms=None, funcs=None, alts=()):
    """rep: report; letters: [(letter, dim)], formula in Spec notation"""
    part = None
    c = b.construct + ('' if path is None else '[%s]' % (path,))
    if isinstance(path, tuple):
        path, part = path
    rep.unit(c)
    try:
        n = b.node(path)
        if b.facts.ev(n) is NONE:
            raise Shape('the value is None')
        t = b.tensor(n)
        if part is not None:
            if not isinstance(t, Cat) or part >= len(t.parts):
                raise Undec('no parts')
            t = t.parts[part]
        if isinstance(t, Pack):
            fac = t.f
            t = t.t
            if fac != 1:
                i, j = t.axes[-2:]
                A = b.tr.A
                t = Ten(t.axes, A.add(t.e, A.scale(A.normall(A.mul(A.normall({((), (('δ', (i, j), Fraction(1)),)): Fraction(1)}), A.rename(t.e, {j: i}))), fac - 1)))
        if isinstance(t, (int,)):
            raise Undec('int')
        if not isinstance(t, Ten):
            raise Undec('the value is %s' % type(t).__name__)
        want = b.spec(formula, letters, t, defs, dims, iterms, funcs)
        d = b.tr.A.add(t.e, want, -1)
        if len(t.axes) == 2 and None not in t.axes and any(isinstance(f[0], tuple) and f[0][0] in ('triu', 'tril') for k in d for f in k[1]):
            d = next((x for x in b.tr.tricases(d, *t.axes) if not b.tr.A.zero(x)), {})
        if b.tr.A.zero(d):
            rep.discharged(rule, c, text or formula)
            return True
        for alt in alts:
            # another form that means the same, by an identity the algebra does not know
            try:
                same = b.tr.A.zero(b.tr.A.add(t.e, b.spec(alt, letters, t, defs, dims, iterms, funcs), -1))
            except (Undec, Shape):
                continue
            if same:
                rep.discharged(rule, c, alt)
                return True
        if b.tr.A.opaque(t.e):
            rep.undec(rule, c, 'not understood: %s' % sorted({repr(x)[:80] for x in b.tr.A.opaque(t.e)})[:3])
            return None
        rep.violation(rule, c, 'computes %s, which differs from %s by %s' % (
            b.tr.A.show(t.e, 5)[:300], text or formula, b.tr.A.show(d, 4)[:300]), b.where)
        return False
    except Undec as e:
        rep.undec(rule, c, str(e)[:200])
        return None
    except Shape as e:
        rep.violation(rule, c, str(e), b.where)
        return False
    except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        if os.environ.get('SA_DEBUG'):
            raise
        rep.undec(rule, c, 'not translated: %s %s' % (type(e).__name__, str(e)[:100]))
        return None
