"""Which caller-owned memory a value node may share (views, in-place updates)."""
from .ir import *
from .interp import *

VIEWFN = {'asarray', 'asanyarray', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'view', 'swapaxes', 'transpose', 'diagonal',
          'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'rollaxis', 'moveaxis', 'ascontiguousarray',
          'asfortranarray', 'require', 'split', 'array_split', 'hsplit', 'vsplit', 'real', 'imag', 'flip', 'fliplr', 'flipud'}


def path_atoms(path):
    out = {}
    for c in path:
        for a in (c.args[0] if c.op == 'and' else (c,)):
            if a.op == 'not':
                out[a.args[0]] = False
            else:
                out[a] = True
            if a.op == 'cmp' and a.args[0] in NEG:
                out[mk('cmp', NEG[a.args[0]], a.args[1], a.args[2])] = False
    return out


def is_view_index(ix, idxtype=None):
    """True: basic indexing (a view), False: advanced (a copy), None: unknown"""
    if ix.op == 'slice':
        return True
    if ix.op == 'const':
        v = ix.args[0]
        return True if v is None or v is Ellipsis or isinstance(v, (int, str)) and not isinstance(v, bool) else None
    if ix.op in ('ivar', 'dim', 'size', 'ndim'):
        return True
    if ix.op == 'tuple':
        rs = [is_view_index(x) for x in ix.args]
        if any(r is False for r in rs):
            return False
        return True if all(rs) else None
    if ix.op in ('cmp', 'alloc', 'list', 'shuffled', 'store', 'lmap'):
        return False
    if ix.op == 'un' and ix.args[0] == '~':
        return False
    cn = callname(ix)
    if cn and cn.startswith('numpy.') and cn[6:] in ('argsort', 'argmax', 'argmin', 'nonzero', 'where', 'ix_', 'flatnonzero', 'arange',
                                                   'logical_and', 'logical_or', 'isin', 'in1d', 'isfinite', 'isnan'):
        return False
    if ix.op == 'sub' and callname(ix.args[0]) in ('numpy.nonzero', 'numpy.where'):
        return False
    if ix.op == 'bin':
        rs = [is_view_index(ix.args[1]), is_view_index(ix.args[2])]
        if any(r is False for r in rs):
            return False
        if all(rs):
            return True
    return None


class Alias(object):
    def __init__(self, I):
        self.I = I

    def roots(self, n, atoms=None, unsure=None, depth=60):
        """set of base nodes (param / attr) whose memory n shares on paths consistent with atoms"""
        acc = set()
        self._r(n, atoms or {}, acc, set(), unsure if unsure is not None else set(), depth)
        return acc

    def _r(self, n, atoms, acc, seen, unsure, depth):
        if depth == 0 or n in seen:
            return
        seen.add(n)
        r = lambda x: self._r(x, atoms, acc, seen, unsure, depth - 1)
        op = n.op
        if op in ('param', 'attr'):
            acc.add(n)
        elif op in ('T',):
            r(n.args[0])
        elif op in ('store', 'append', 'extend', 'shuffled'):
            r(n.args[0])
        elif op == 'iop':
            r(n.args[1])
        elif op == 'inplace':
            r(n.args[1])
        elif op == 'lfill':
            r(n.args[0])
        elif op == 'phi':
            c = n.args[0]
            v = atoms.get(c)
            if v is None and c.op == 'not':
                v = atoms.get(c.args[0])
                v = None if v is None else not v
            if v is None and c.op == 'and' and any(atoms.get(x) is False for x in c.args[0]):
                v = False
            if v is None and c.op == 'or' and any(atoms.get(x) is True for x in c.args[0]):
                v = True
            if v is None or v is True:
                r(n.args[1])
            if v is None or v is False:
                r(n.args[2])
        elif op == 'sub':
            k = is_view_index(n.args[1])
            if k is True:
                r(n.args[0])
            elif k is None:
                un = set()
                self._r(n.args[0], atoms, un, set(seen), unsure, depth - 1)
                unsure |= un
        elif op in ('lphi', 'lfin'):
            L = self.I.loops.get(n.args[0])
            x = n if op == 'lphi' else n.args[2]
            if L is not None and x in L.entry:
                r(L.entry[x])
                r(L.back[x])
        elif op == 'alloc':
            pass
        elif op == 'call':
            cn = callname(n)
            if cn and cn.startswith('numpy.') and cn[6:] in VIEWFN and n.args[1]:
                dt = kwof(n, 'dtype')
                r(n.args[1][0])
            elif cn == 'numpy.array' and n.args[1] and is_const(kwof(n, 'copy', TRUE), False):
                r(n.args[1][0])
            elif cn == 'numpy.astype' and n.args[1] and is_const(kwof(n, 'copy', TRUE), False):
                r(n.args[1][0])
            elif cn == 'numpy.nan_to_num' and n.args[1] and is_const(kwof(n, 'copy', TRUE), False):
                r(n.args[1][0])


def base(n):
    """outermost owner of an attribute chain"""
    while n.op == 'attr':
        n = n.args[0]
    return n


def arrayish(run, I):
    """params (or attrs of params) used as arrays somewhere in the run: subscripted, shaped, matrix-multiplied"""
    out = set()
    for n in list(I.origin):
        for x in walk_shallow(n):
            if x.op in ('T', 'shape', 'dim', 'ndim'):
                out.add(x.args[0])
            elif x.op in ('sub', 'store', 'lfill'):
                out.add(x.args[0])
            elif x.op == 'bin' and x.args[0] == '@':
                out.add(x.args[1])
                out.add(x.args[2])
            else:
                cn = callname(x)
                if cn and cn.startswith('numpy.') and x.args[1] and cn[6:] not in (
                        'linspace', 'arange', 'zeros', 'ones', 'empty', 'full', 'eye', 'asarray', 'floor', 'ceil', 'minimum', 'maximum'):
                    out.add(x.args[1][0])
    return out


def walk_shallow(n):
    yield n
    for c in children(n):
        yield c
