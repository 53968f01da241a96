"""C19: feature transforms apply and estimate the projection they stand for."""
from .models import *

TK = 'hyperion.transforms'


def rev(d):
    return lambda s, i: ('at', ('rev', d), (i,))


def head(s, i):
    return ('at', 'head', (i,))


IT = dict(rev=rev('d'), head=head)
DM = {k: 'd' for k in 'defgh'}
DM.update(n='n', m='n', l='n', o='n', k='k')


def simple(T):
    x, mu = Sym('x', 'n', 'd'), Sym('mu', 'd')
    W, w = Sym('W', 'd', 'k'), Sym('w', 'd')
    for tag, m, t, f, l in (('', mu, W, 'sum(d;(x[n,d]-mu[d])*W[d,k])', 'nk'), ('no centring', None, W, 'sum(d;x[n,d]*W[d,k])', 'nk'),
                            ('diagonal', mu, w, '(x[n,d]-mu[d])*w[d]', 'nd'), ('centring only', mu, None, 'x[n,d]-mu[d]', 'nd'),
                            ('nothing', None, None, 'x[n,d]', 'nd')):
        b = T.bench(TK, 'CentWhiten', 'predict', dict(x=x), dict(mu=m, T=t), tag)
        T.check(b, None, l, f)
        b = T.bench(TK, 'LNorm', 'predict', dict(x=x), dict(mu=m, T=t), tag)
        g = f.replace('d;', 'e;').replace('d]', 'e]').replace('d,', 'e,') if l == 'nk' else f
        q = '(%s)' % g
        r = q.replace('k]', 'l]') if l == 'nk' else q.replace('d]', 'e]')
        T.check(b, None, l, 'sqrt(dim_%s)*%s/(sqrt(sum(%s;%s**2))+1e-10)' % (l[1], q, 'l' if l == 'nk' else 'e', r), dims=dict(DM, l='k', k='k'))
        if t is W:
            for c in ('PCA', 'LDA', 'NDA'):
                b = T.bench(TK, c, 'predict', dict(x=x), dict(mu=m, T=t), tag)
                T.check(b, None, l, f)
    s = Sym('s', 'd', pos=True)
    for tag, m, t, f in (('', mu, s, '(x[n,d]-mu[d])/s[d]'), ('mean', mu, None, 'x[n,d]-mu[d]'), ('scale', None, s, 'x[n,d]/s[d]')):
        b = T.bench(TK, 'MVN', 'predict', dict(x=x), dict(mu=m, s=t), tag)
        T.check(b, None, 'nd', f)
    b = T.bench(TK, 'MVN', 'fit', dict(x=x), {})
    T.check(b, 'mu', 'd', 'sum(n;x[n,d])/dim_n')
    T.check(b, 's', 'd', 'sqrt(sum(n;(x[n,d]-sum(m;x[m,d])/dim_n)**2)/dim_n)', dims=DM)
    b = T.bench(TK, 'NAP', 'predict', dict(x=x), dict(U=Sym('U', 'r', 'd')))
    T.check(b, None, 'nd', 'x[n,d]-sum(e,r;x[n,e]*U[r,e]*U[r,d])', dims=dict(DM, r='r'))
    # with uncertainty
    xs = Joined(Sym('x', 'n', 'd'), Sym('v', 'n', 'd'))
    Q = Sym('Q', 'd', 'd')
    at = dict(mu=mu, T=Q)
    b = T.bench(TK, 'CentWhitenUP', 'predict', dict(x=xs), at)
    T.check(b, (None, 0), 'nd', 'sum(e;(x[n,e]-mu[e])*Q[e,d])', dims=DM)
    T.check(b, (None, 1), 'nd', 'sum(e;v[n,e]*Q[e,d]**2)', dims=DM)
    b = T.bench(TK, 'LNormUP', 'predict', dict(x=xs), at)
    T.check(b, (None, 0), 'nd', 'sum(e;(x[n,e]-mu[e])*Q[e,d])/sqrt(sum(f;sum(e;(x[n,e]-mu[e])*Q[e,f])**2)+1e-10)', dims=DM)
    T.check(b, (None, 1), 'nd', 'sum(e;v[n,e]*Q[e,d]**2)/(sum(f;sum(e;(x[n,e]-mu[e])*Q[e,f])**2)+1e-10)', dims=DM)


def fits(T):
    x = Sym('x', 'n', 'd')
    mu, C, Sb, Sw = Sym('m0', 'd'), Sym('C', 'd', 'd', sym=True), Sym('Sb', 'd', 'd', sym=True), Sym('Sw', 'd', 'd', sym=True)
    K = Dim('k')
    full = '(1-2*lt(%s,0))*%s'
    V = lambda m, f='eigvec', j='rev(%s)': f + '(e,f;%s)[%%s,%s]' % (m, j)
    cov = 'sum(n;(x[n,e]-sum(m;x[m,e])/dim_n)*(x[n,f]-sum(m;x[m,f])/dim_n))/dim_n'
    kw = dict(dims=DM, iterms=IT)

    def vec(m, j):
        v = 'eigvec(e,f;%s)[%%s,%s]' % (m, j)
        return '(1-2*lt(%s,0))*%s' % (v % '0', v % 'd')
    for tag, a, m in (('data', dict(x=x, sample_weight=None, mu=None, C=None), cov), ('covariance', dict(x=None, sample_weight=None, mu=mu, C=C), 'C[e,f]')):
        for dim in (None, K):
            b = T.bench(TK, 'PCA', 'fit', a, dict(update_mu=True, update_T=True, pca_dim=dim), tag + (', cut' if dim else ''))
            T.check(b, 'mu', 'd', 'sum(n;x[n,d])/dim_n' if tag == 'data' else 'm0[d]', **kw)
            T.check(b, 'T', 'dk' if dim else [('d', 'd'), ('g', 'd')], vec(m, 'rev(head(k))' if dim else 'rev(g)'), **kw)
    for upd in (True, False):
        b = T.bench(TK, 'PCA', 'fit', dict(x=None, sample_weight=None, mu=mu, C=C), dict(update_mu=upd, update_T=not upd, pca_dim=None, mu=Sym('oldm', 'd'), T=Sym('oldT', 'd', 'k')),
                    'only the mean' if upd else 'only the projection')
        T.check(b, 'mu', 'd', 'm0[d]' if upd else 'oldm[d]', **kw)
        if upd:
            T.check(b, 'T', 'dk', 'oldT[d,k]', **kw)
        b = T.bench(TK, 'CentWhiten', 'fit', dict(x=None, sample_weight=None, mu=mu, C=C), dict(update_mu=upd, update_T=not upd, mu=Sym('oldm', 'd'), T=Sym('oldT', 'd', 'k')),
                    'only the mean' if upd else 'only the projection', decide={'numpy.all': True})
        T.check(b, 'mu', 'd', 'm0[d]' if upd else 'oldm[d]', **kw)
        if upd:
            T.check(b, 'T', 'dk', 'oldT[d,k]', **kw)
        b = T.bench(TK, 'LDA', 'fit', dict(x=None, y=None, mu=mu, Sb=Sb, Sw=Sw), dict(update_mu=upd, update_T=not upd, lda_dim=None, mu=Sym('oldm', 'd'), T=Sym('oldT', 'd', 'k')),
                    'only the mean' if upd else 'only the projection')
        T.check(b, 'mu', 'd', 'm0[d]' if upd else 'oldm[d]', **kw)
        if upd:
            T.check(b, 'T', 'dk', 'oldT[d,k]', **kw)
    b = T.bench(TK, 'CentWhiten', 'fit', dict(x=None, sample_weight=None, mu=mu, C=C), dict(update_mu=True, update_T=True), decide={'numpy.all': True})
    T.check(b, 'mu', 'd', 'm0[d]', **kw)
    T.check(b, 'T', [('d', 'd'), ('g', 'd')], vec('C[e,f]', 'rev(g)') + '/sqrt(eigval(e,f;C[e,f])[rev(g)])', **kw)
    e2 = lambda j: '(1-2*lt(gv[0,%s],0))*gv[d,%s]' % (j, j)

    def gv(s, ids):
        a, b_ = s.tr.atom('Sb', ('d', 'd')), s.tr.atom('Sw', ('d', 'd'))
        t = s.tr.eig([a, b_], 1)
        return s.tr.subix(s.tr.subix(t.e, t.axes[0], ids[0]), t.axes[1], ids[1])
    for c, nm in (('LDA', 'lda_dim'), ('NDA', 'nda_dim')):
        for dim in (None, K):
            a = dict(mu=mu, Sb=Sb, Sw=Sw)
            a.update(dict(x=None, y=None) if c == 'LDA' else {nm: dim})
            b = T.bench(TK, c, 'fit', a, dict(update_mu=True, update_T=True, lda_dim=dim), 'cut' if dim else '')
            T.check(b, 'mu', 'd', 'm0[d]', **kw)
            T.check(b, 'T', 'dk' if dim else [('d', 'd'), ('g', 'd')], e2('rev(head(k))' if dim else 'rev(g)'), funcs=dict(gv=gv), **kw)


def scatter(T):
    x, y = Sym('x', 'n', 'd'), Sym('y', 'n')
    kw = dict(dims=dict(DM, c=('rep', 'n')), iterms=IT)
    cnt = lambda n, l='l': 'sum(%s;eq(y[%s],y[%s]))' % (l, l, n)
    mean = lambda d, n, m='m', l='l': '(sum(%s;eq(y[%s],y[%s])*x[%s,%s])/%s)' % (m, m, n, m, d, cnt(n, l))
    for norm in (True, False):
        b = T.bench(TK, 'SbSw', 'fit', dict(x=x, class_ids=y, sample_weight=None, class_weights=None, normalize=norm), dict(), 'normalised' if norm else 'sums')
        z = '/dim_c' if norm else ''
        mu = lambda d: 'sum(n;%s/%s)%s' % (mean(d, 'n'), cnt('n', 'o'), z)
        dd = [('d', 'd'), ('e', 'd')]
        T.check(b, 'mu', 'd', mu('d'), **kw)
        sb = 'sum(n;%s*%s/%s)%s' % (mean('d', 'n'), mean('e', 'n'), cnt('n', 'o'), z)
        T.check(b, 'Sb', dd, sb + ('-%s*%s' % (mu('d'), mu('e')) if norm else ''), **kw)
        T.check(b, 'Sw', dd, 'sum(n;(x[n,d]-%s)*(x[n,e]-%s)/%s)%s' % (mean('d', 'n'), mean('e', 'n'), cnt('n', 'o'), z), **kw)
        T.check(b, 'num_classes', '', 'dim_c', **kw)


def trained(T):
    fq = lambda c: T.cls(TK, c)
    x, y = Sym('x', 'n', 'd'), Sym('y', 'n')
    kw = dict(dims=dict(DM, c=('rep', 'n'), r='r'), iterms=IT)
    cnt = lambda n, l='l': 'sum(%s;eq(y[%s],y[%s]))' % (l, l, n)
    mean = lambda d, n, m='m', l='l': '(sum(%s;eq(y[%s],y[%s])*x[%s,%s])/%s)' % (m, m, n, m, d, cnt(n, l))
    mu = lambda d: '(sum(n;%s/%s)/dim_c)' % (mean(d, 'n'), cnt('n', 'o'))
    sb = '(sum(n;%s*%s/%s)/dim_c-%s*%s)' % (mean('e', 'n'), mean('f', 'n'), cnt('n', 'o'), mu('e'), mu('f'))
    sw = '(sum(n;(x[n,e]-%s)*(x[n,f]-%s)/%s)/dim_c)' % (mean('e', 'n'), mean('f', 'n'), cnt('n', 'o'))
    b = T.bench(TK, 'LDA', 'fit', dict(x=x, y=y, mu=None, Sb=None, Sw=None), dict(update_mu=True, update_T=True, lda_dim=None), 'data')
    T.check(b, 'mu', 'd', mu('d'), **kw)
    v = 'eigvec(e,f;pair(%s,%s))[%%s,rev(g)]' % (sb, sw)
    T.check(b, 'T', [('d', 'd'), ('g', 'd')], '(1-2*lt(%s,0))*%s' % (v % '0', v % 'd'), **kw)
    for c in ('CentWhitenUP', 'LNormUP'):
        b = T.bench(TK, c, 'fit', dict(x=Joined(Sym('x', 'n', 'd'), Sym('v', 'n', 'd')), sample_weight=None), dict(update_mu=True, update_T=False), decide={})
        T.check(b, 'mu', 'd', 'sum(n;x[n,d])/dim_n', **kw)
    b = T.bench(TK, 'NAP', 'fit', dict(x=x, y=y, U_dim=Dim('r'), class_ids=y), {})
    w = '((x[n,d]-%s)/sqrt(%s)/sqrt(dim_c))' % (mean('d', 'n'), cnt('n', 'o'))
    s = {k: 'n' for k in 'lmo'}
    T.check(b, 'U', 'rd', 'svdV(n,e;%s)[head(r),d]' % w.replace('d]', 'e]'), **kw)
    o = [Obj(fq('SbSw'), mu=Sym('m%d' % k, 'd'), Sb=Sym('b%d' % k, 'd', 'd'), Sw=Sym('w%d' % k, 'd', 'd'), num_classes=Sym('c%d' % k)) for k in range(2)]
    b = T.bench(TK, 'SbSw', 'accum_stats', dict(stats=o), {})
    for at, l, f in (('mu', 'd', 'm0[d]+m1[d]'), ('Sb', 'de', 'b0[d,e]+b1[d,e]'), ('Sw', 'de', 'w0[d,e]+w1[d,e]'), ('num_classes', '', 'c0+c1')):
        T.check(b, 'ret.' + at, [(z, 'd') for z in l], f, **kw)
    b = T.bench(TK, 'TransformList', 'predict', dict(x=Sym('x', 'n', 'd')), dict(transforms=[Obj(fq('CentWhiten'), mu=Sym('m0', 'd'), T=Sym('T0', 'd', 'k')), Obj(fq('CentWhiten'), mu=Sym('m1', 'k'), T=Sym('T1', 'k', 'q'))]))
    T.check(b, None, 'nq', 'sum(k;(sum(d;(x[n,d]-m0[d])*T0[d,k])-m1[k])*T1[k,q])', dims=dict(DM, q='q'))


def check(p, rep, tier):
    T = Table(p, rep)
    for f in (simple, fits, scatter, trained):
        f(T)
    rep.require('transform formulas', T.n, 10)
