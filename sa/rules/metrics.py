"""C08: the detection metrics are the quantities they are named after."""
from .mathfn import *

ME = 'hyperion.metrics'


LS = 'hyperion.utils.math:'


def sigm(f):
    def g(tr, args):
        t = tr.array(args[0])
        A = tr.A
        e = A.add(E1(), A.fn('exp', A.scale(t.e, -1)))
        return Ten(t.axes, A.power(e, -1) if f == 'sigmoid' else A.scale(A.fn('log', e), -1 if f == 'logsigmoid' else 1))
    return g


# functions decided by C20
SIG = {LS + x: sigm(x) for x in ('sigmoid', 'logsigmoid', 'neglogsigmoid')}


def falling(tr, p):
    """priors are given in ascending order, the thresholds are in descending order"""
    A = tr.A
    f = tr.single(p.e)
    if p.axes[0] is None or f and f[0] in ('a', 'b'):
        return None
    return A.add(A.add(tr.dimexpr(A.dims[p.axes[0]]), Eatom('ι', (p.axes[0],)), -1), E1(), -1)


def keyof(tr, e, axes):
    A = tr.A
    return A.keyin(e, tuple(a for a in axes if a is not None))


def opaque(name, tr, ts, *out):
    """an array (or number) given by a function that is not read, of these arrays"""
    h = (name,) + tuple(keyof(tr, t.e, t.axes) for t in ts)
    tr.A.H.pos.add(h)
    ax = [tr.A.ix(d) for d in out]
    return Ten(ax, Eatom(h, tuple(ax)))


def hull(tr, args):
    ts = [tr.array(x) for x in args]
    return opaque('hullmiss', tr, ts, 'hull'), opaque('hullfa', tr, ts, 'hull')


def breakeven(tr, args):
    return opaque('breakeven', tr, [tr.array(x) for x in args])


def optimal(tr, args):
    if len(args) < 3 or not is_const(args[2], 'raw'):
        raise Undec('opt_loglr')
    ts = [tr.array(x) for x in args[:2]]
    di, dj = [tr.A.dims[t.axes[0]] for t in ts]
    return opaque('opttar', tr, ts, di), opaque('optnon', tr, ts, dj)


TH = '(log(1-{q})-log({q}))'
MISS = 'sum(i;lt(a[i],%s))/dim_i' % TH
FA = '(1-sum(j;lt(b[j],%s))/dim_j)' % TH


def act(q, norm):
    return ('({q}*%s+(1-{q})*%s)%s' % (MISS, FA, '/minimum({q},1-{q})' if norm else '')).replace('{q}', q)


def spec_opt():
    def g(k):
        def f(s, ids):
            ts = [s.tr.atom('a', ('i',)), s.tr.atom('b', ('j',))]
            h = (k,) + tuple(keyof(s.tr, t.e, t.axes) for t in ts)
            s.tr.A.H.pos.add(h)
            return Eatom(h, tuple(ids))
        return f
    return dict(opt=g('opttar'), optn=g('optnon'))


OPT = {ME + '.utils:opt_loglr': optimal}
RO = ME + '.roc:'
HULL = {RO + 'compute_rocch': hull, RO + 'rocch2eer': breakeven}


def spec_hull(swap=False):
    def g(k):
        def f(s, ids):
            ts = [s.tr.atom('a', ('i',)), s.tr.atom('b', ('j',))]
            h = (k,) + tuple(keyof(s.tr, t.e, t.axes) for t in ts)
            s.tr.A.H.pos.add(h)
            return Eatom(h, tuple(ids))
        return f
    return dict(pm=g('hullmiss'), pf=g('hullfa'))


def spec_even(m='', f=''):
    """break-even point of the hull with its sides scaled"""
    def g(s, ids):
        A = s.tr.A
        h = A.ix('hull')
        ks = []
        for nm, dim in (('pm', 'i' if m else ''), ('pf', 'j' if m else '')):
            e = s.funcs[nm](s, [h])
            if dim:
                e = A.mul(e, s.tr.dimexpr(dim))
            ks.append(keyof(s.tr, e, (h,)))
        return Eatom(('breakeven',) + tuple(ks), ())
    return g


def best(text):
    """the point of the hull where the cost is smallest"""
    def f(s, *ids):
        A = s.tr.A
        h = A.ix('hull')
        e = s.parse(text, dict(h=h, **(dict(k=ids[0]) if ids else {})))
        return ('at', ('argmin', A.keyin(e, (h,) + tuple(ids)), 'hull'), tuple(ids))
    return f


class DTable(MTable):
    def fn(self, mod, name, args, tag='', **kw):
        m = self.p.mods.get(ME + '.' + mod)
        f = m.funcs.get(name) if m else None
        if f is None:
            return None
        b = Bench(self.p, self.I, None, f, args, {}, **kw)
        b.construct = '%s%s' % (name, '(%s)' % tag if tag else '')
        return b


def check(p, rep, tier):
    T = DTable(p, rep)
    T.I.noinline |= set(SIG) | set(OPT)
    pm, pf = Sym('pm', 'm', pos=True), Sym('pf', 'm', pos=True)
    for tag, pr, lt, q in (('number', Sym('q', pos=True), 'm', 'q'), ('several priors', Sym('q', 'k', pos=True), 'km', 'q[k]')):
        c = '(%s*pm[m]+(1-%s)*pf[m])' % (q, q)
        nm = c + '/minimum(%s,1-%s)' % (q, q)
        for norm in (True, False):
            b = T.fn('dcf', 'compute_dcf', dict(p_miss=pm, p_fa=pf, prior=pr, normalize=norm), tag + (', normalised' if norm else ''))
            T.check(b, None, lt, nm if norm else c)
    b = T.fn('utils', 'effective_prior', dict(p_tar=Sym('p'), c_miss=Sym('m'), c_fa=Sym('f')))
    T.check(b, None, '', 'p*m/(p*m+(1-p)*f)')
    tar, non = Sym('a', 'i'), Sym('b', 'j')
    b = T.fn('cllr', 'compute_cllr', dict(tar=tar, non=non), models=SIG)
    T.check(b, None, '', '0.5*(sum(i;log(1+exp(-a[i])))/dim_i+sum(j;log(1+exp(b[j])))/dim_j)/log(2)')
    for tag, pr, k in (('number', Sym('q', pos=True), ''), ('several priors', Sym('q', 'k', pos=True), 'k')):
        b = T.fn('dcf', 'compute_act_dcf', dict(tar=tar, non=non, prior=pr, normalize=True), tag, several='k', rankof=falling)
        t = 'q[k]' if k else 'q'
        for n, x in ((1, MISS), (2, FA)):
            T.check(b, n, k or [('u', 1)], x.replace('{q}', t))
        T.check(b, 0, k, act(t, True))
    b = T.fn('cllr', 'compute_min_cllr', dict(tar=tar, non=non), models=dict(SIG, **OPT))
    T.check(b, None, '', '0.5*(sum(i;log(1+exp(-opt[i])))/dim_i+sum(j;log(1+exp(optn[j])))/dim_j)/log(2)', 'the cost of the optimally calibrated scores', funcs=spec_opt(), dims=dict(i='i', j='j'))
    T.I.noinline |= set(HULL)
    H = spec_hull()
    DH = dict(dims=dict(h='hull'))
    ev = dict(H, even=spec_even(), evenp=spec_even('n'))
    for f, w in (('compute_eer', 'even'), ('compute_prbep', 'evenp')):
        b = T.fn('eer', f, dict(tar=tar, non=non), models=HULL)
        T.check(b, None, '', w + '[()]', funcs=ev, **DH)
    for tag, pr, k in (('number', Sym('q', pos=True), ''), ('several priors', Sym('q', 'k', pos=True), 'k')):
        q = 'q[k]' if k else 'q'
        for norm in (True, False):
            w = tag + (', normalised' if norm else '')
            c = '(%s*pm[h]+(1-%s)*pf[h])' % (q, q)
            if norm:
                c += '/minimum(%s,1-%s)' % (q, q)
            mn = 'min(h;%s)' % c
            b = T.fn('dcf', 'compute_min_dcf', dict(tar=tar, non=non, prior=pr, normalize=norm), w, models=HULL, several='k')
            at = 'best(k)' if k else 'best()'
            it = dict(iterms=dict(best=best(c)), funcs=ev, **DH)
            T.check(b, 0, k, mn, alts=[c.replace('[h]', '[%s]' % at)], **it)
            T.check(b, 1, k, 'pm[%s]' % at, 'the miss rate where the cost is smallest', **it)
            T.check(b, 2, k, 'pf[%s]' % at, 'the false alarm rate where the cost is smallest', **it)
            b = T.fn('dcf', 'fast_eval_dcf_eer', dict(tar=tar, non=non, prior=pr, normalize_dcf=norm), w, models=HULL, several='k', rankof=falling)
            T.check(b, 0, k, mn, funcs=ev, **DH)
            T.check(b, 2, '', 'even[()]', funcs=ev, **DH)
            T.check(b, 1, k, act(q, norm), 'the actual cost of the same scores, priors and normalisation')
            T.check(b, 3, '', 'evenp[()]', funcs=ev, **DH)
    rep.require('metric formulas', T.n, 3)
