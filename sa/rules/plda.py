"""C18: class posteriors, likelihood ratios, bounds and updates of the PLDA models."""
import re

from .models import *

PK = 'hyperion.pdfs.plda'


def args_D(k, c, d='d'):
    return (Sym('N' + k, c, pos=True), Sym('F' + k, c, d), Sym('S' + k, d, d, sym=True))


def quad(inv, l, r):
    """l' inv r  with inv, l and r given as functions of index letters"""
    return 'sum(p,q;%s*%s*%s)' % (inv('p', 'q'), l('p'), r('q'))


def binv(blocks, p, q):
    """block (p, q) of the inverse of a matrix of named blocks; a name followed by ' is transposed"""
    def f(s, ids):
        rows = []
        for r in blocks:
            row = []
            for nm in r:
                tr = nm.endswith("'")
                nm = nm.rstrip("'")
                t = s.tr.atom(nm.split(':')[0], s.atoms[nm.split(':')[0]])
                ax = t.axes
                if len(ax) == 0:
                    ax = [None, None]
                elif len(ax) == 1:
                    ax = ax + [None]
                t = Ten(ax[::-1] if tr else ax, t.e)
                row.append(t)
            rows.append(row)
        t = s.tr.blockinv(Block(rows)).rows[p][q]
        ax = [a for a in t.axes if a is not None]
        return s.A.rename(t.e, dict(zip(ax, ids)))
    return f


class Two(object):
    """posterior precision, linear term and prior terms of a two-covariance style model"""

    def __init__(self, prior, obs, lin, logprior, y='y', setup=()):
        self.prior, self.obs, self.lin, self.logprior = prior, obs, lin, logprior
        self.y, self.setup = y, setup

    def L(self, n):
        return lambda a, b: '(%s+(%s)*(%s))' % (self.prior(a, b), n, self.obs(a, b))

    def inv(self, n):
        return lambda a, b: 'inv(g,h;%s)[%s,%s]' % (self.L(n)('g', 'h'), a, b)

    def logdet(self, n):
        return 'logdet(g,h;%s)' % self.L(n)('g', 'h')

    def q(self, n, *lins):
        l = lambda p: '(%s)' % '+'.join(x(p) for x in lins)
        return quad(self.inv(n), l, l)


def common(T, c, at, m, mterm, ld):
    """m: Two; mterm(p): the part of the linear term that comes from the prior"""
    Y = m.y
    yd = [('a', Y), ('b', Y)]
    lin = lambda k, i, N: (lambda p: m.lin(k, i, p, N))
    # class posteriors
    gam = lambda p: '(%s%s)' % (m.lin('F', 'c', p, 'N[c]'), mterm(p))
    inv = m.inv('N[c]')
    y = lambda a: 'sum(b;%s*%s)' % (inv(a, 'b'), gam('b'))
    lpy = '-0.5*dim_'+Y+'*log(2*pi)+0.5*%s-0.5*%s' % (m.logdet('N[c]'), quad(inv, gam, gam))
    for how in (True, False):
        b = T.bench(PK, c, 'compute_py_g_x', dict(D=args_D('', 'c'), return_cov=True, return_logpy_0=True, return_acc=True), at,
                    'integer counts' if how else 'real counts', decide={'numpy.all': how})
        T.check(b, 0, [('c', 'c'), ('a', Y)], y('a'), **ld)
        T.check(b, 1, [('c', 'c')] + yd, inv('a', 'b'), **ld)
        T.check(b, 2, 'c', lpy, **ld)
        T.check(b, 3, yd, 'sum(c;N[c]*%s)' % inv('a', 'b'), **ld)
        T.check(b, 4, yd, 'sum(c;%s)' % inv('a', 'b'), **ld)
    b = T.bench(PK, c, 'compute_py_g_x', dict(D=args_D('', 'c'), return_cov=False, return_logpy_0=False, return_acc=False), at, 'mean',
                decide={'numpy.all': True})
    T.check(b, None, [('c', 'c'), ('a', Y)], y('a'), **ld)
    # likelihood ratios
    x1, x2 = Sym('x1', 'n', 'd'), Sym('x2', 'm', 'd')
    l1, l2 = lin('x1', 'n', '1'), lin('x2', 'm', '1')
    mt = (lambda p: '(0%s)' % mterm(p))
    b = T.bench(PK, c, 'llr_1vs1', dict(x1=x1, x2=x2), at)
    T.check(b, None, [('n', 'n'), ('m', 'm')], '0.5*(2*%s-%s%s+%s-%s-%s)' % (
        m.logdet('1'), m.logdet('2'), m.logprior, m.q('2', l1, l2, mt), m.q('1', l1, mt), m.q('1', l2, mt)), **ld)
    l1, l2 = lin('F1', 'n', 'N1[n]'), lin('F2', 'm', 'N2[m]')
    b = T.bench(PK, c, 'llr_NvsM_book', dict(D1=args_D('1', 'n'), D2=args_D('2', 'm')), at)
    T.check(b, None, [('n', 'n'), ('m', 'm')], '0.5*(%s+%s-%s%s+%s-%s-%s)' % (
        m.logdet('N1[n]'), m.logdet('N2[m]'), m.logdet('N1[n]+N2[m]'), m.logprior,
        m.q('N1[n]+N2[m]', l1, l2, mt), m.q('N1[n]', l1, mt), m.q('N2[m]', l2, mt)), **ld)
    # averaging the vectors of a class before scoring, and the choice of the method
    mean = lambda k, i: (lambda p: re.sub(r'A\[%s,(\w)\]' % i, r'F%s[%s,\1]/N%s[%s]' % (k, i, k, i), m.lin('A', i, p, '1')))
    l1, l2 = mean('1', 'n'), mean('2', 'm')
    f = '0.5*(2*%s-%s%s+%s-%s-%s)' % (m.logdet('1'), m.logdet('2'), m.logprior, m.q('2', l1, l2, mt), m.q('1', l1, mt), m.q('1', l2, mt))
    d1, d2 = args_D('1', 'n'), args_D('2', 'm')
    b = T.bench(PK, c, 'llr_NvsM_vavg', dict(D1=d1, D2=d2, do_lnorm=False), at)
    T.check(b, None, [('n', 'n'), ('m', 'm')], f, **ld)
    b = T.bench(PK, c, 'llr_NvsM', dict(x1=d1, x2=d2, ids1=None, ids2=None, method='vavg'), at, 'vavg')
    T.check(b, None, [('n', 'n'), ('m', 'm')], f, **ld)
    b = T.bench(PK, c, 'llr_Nvs1', dict(x1=d1, x2=Sym('x2', 'm', 'd'), ids1=None, method='vavg'), at, 'vavg')
    l2 = lin('x2', 'm', '1')
    f = '0.5*(2*%s-%s%s+%s-%s-%s)' % (m.logdet('1'), m.logdet('2'), m.logprior, m.q('2', l1, l2, mt), m.q('1', l1, mt), m.q('1', l2, mt))
    T.check(b, None, [('n', 'n'), ('m', 'm')], f, **ld)
    return y, inv, lpy


DIMS = dict(a='y', b='y', g='y', h='y', p='y', q='y', d='d', e='d', f='d', y='y', x='d', c='c')


def splda(T):
    c = 'SPLDA'
    ld = dict(dims=DIMS)
    at = dict(_is_init=True, y_dim=Dim('y'), x_dim=Dim('d'), mu=Sym('mu', 'd'), V=Sym('V', 'y', 'd'), W=Sym('W', 'd', 'd', sym=True))
    VV = lambda a, b: 'sum(d,e;V[%s,d]*W[d,e]*V[%s,e])' % (a, b)
    m = Two(lambda a, b: 'delta[%s,%s]' % (a, b), VV,
            lambda k, i, p, N: 'sum(d,e;(%s[%s,d]-%s*mu[d])*W[d,e]*V[%s,e])' % (k, i, N, p), '')
    y, inv, lpy = common(T, c, at, m, lambda p: '', ld)
    b = T.bench(PK, c, 'Estep', dict(D=args_D('', 'c')), at, decide={'numpy.all': True})
    T.check(b, 0, '', 'sum(c;N[c])', **ld)
    T.check(b, 1, '', 'dim_c', **ld)
    T.check(b, 2, 'd', 'sum(c;F[c,d])', **ld)
    T.check(b, 3, [('d', 'd'), ('e', 'd')], 'S[d,e]', **ld)
    T.check(b, 4, '', 'sum(c;%s)' % lpy, **ld)
    T.check(b, 5, [('a', 'y')], 'sum(c;%s)' % y('a'), **ld)
    T.check(b, 6, [('a', 'y')], 'sum(c;N[c]*%s)' % y('a'), **ld)
    yd = [('a', 'y'), ('b', 'y')]
    z = y('a'), y('b').replace('sum(b;', 'sum(f;').replace('inv(g,h', 'inv(g,h')
    b2 = lambda x: 'sum(q;%s*%s)' % (inv(x, 'q'), m.lin('F', 'c', 'q', 'N[c]'))
    T.check(b, 7, yd, 'sum(c;N[c]*(%s+%s*%s))' % (inv('a', 'b'), b2('a'), b2('b')), **ld)
    T.check(b, 8, [('x', 'd'), ('a', 'y')], 'sum(c;F[c,x]*%s)' % b2('a'), **ld)
    T.check(b, 9, yd, 'sum(c;%s+%s*%s)' % (inv('a', 'b'), b2('a'), b2('b')), **ld)
    st = (Sym('N', pos=True), Sym('M', pos=True), Sym('F', 'd'), Sym('S', 'd', 'd', sym=True), Sym('lp'), Sym('ya', 'y'), Sym('R1', 'y'),
          Sym('R', 'y', 'y', sym=True), Sym('C', 'd', 'y'), Sym('P', 'y', 'y', sym=True))
    b = T.bench(PK, c, 'elbo', dict(stats=st), at)
    T.check(b, None, '', '0.5*(-N*dim_d*log(2*pi)+N*logdet(d,e;W[d,e])-sum(d,e;W[d,e]*(S[d,e]-F[d]*mu[e]-mu[d]*F[e]+N*mu[d]*mu[e])))-0.5*M*dim_y*log(2*pi)-lp', **ld)
    up = dict(at, update_mu=True, update_V=False, update_W=True, fullcov_W=True)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_W=False), 'mean')
    T.check(b, 'mu', 'd', '(F[d]-sum(a;R1[a]*V[a,d]))/N', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=False, update_V=True, update_W=False), 'factors')
    T.check(b, 'V', [('a', 'y'), ('d', 'd')], 'sum(b;inv(g,h;R[g,h])[a,b]*(C[d,b]-R1[b]*mu[d]))', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=False, update_V=False, update_W=True), 'noise')
    cov = '(S[d,e]-sum(a;C[d,a]*V[a,e])-F[d]*mu[e]-sum(a;C[e,a]*V[a,d])-F[e]*mu[d]+sum(a,b;V[a,d]*R[a,b]*V[b,e])+sum(a;V[a,d]*R1[a]*mu[e])+sum(a;V[a,e]*R1[a]*mu[d])+N*mu[d]*mu[e])/N'
    T.check(b, 'W', [('d', 'd'), ('e', 'd')], 'inv(d,e;%s)[d,e]' % cov, **ld)
    bl = [['R', 'R1'], ["R1'", 'N']]
    fn = dict(funcs={'i00': binv(bl, 0, 0), 'i01': binv(bl, 0, 1), 'i11': binv(bl, 1, 1)}, **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_V=True), 'all')
    T.check(b, 'V', [('a', 'y'), ('d', 'd')], 'sum(b;i00[a,b]*C[d,b])+i01[a]*F[d]', **fn)
    T.check(b, 'mu', 'd', 'sum(b;i01[b]*C[d,b])+i11*F[d]', **fn)
    # the normal equations of the joint update reduce the noise to this
    short = 'inv(d,e;(S[d,e]-sum(a;C[d,a]*V[a,e])-F[d]*mu[e])/N)[d,e]'
    for um in (True, False):
        for uv in (True, False):
            if um or uv:
                # with the mean and factors just updated
                b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=um, update_V=uv), 'noise with' + (' mean' if um else '') + (' factors' if uv else ''))
                T.check(b, 'W', [('d', 'd'), ('e', 'd')], 'inv(d,e;%s)[d,e]' % cov, **dict(ld, funcs=dict(V=after(b, 'V'), mu=after(b, 'mu')), alts=[short] if um and uv else ()))
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=False, update_V=False, fullcov_W=False), 'diagonal noise')
    T.check(b, 'W', [('d', 'd'), ('e', 'd')], 'delta[d,e]/(%s)' % cov.replace('e]', 'd]'), **ld)
    b = T.bench(PK, c, 'MstepMD', dict(stats=st), up, 'mean')
    T.check(b, 'mu', 'd', 'mu[d]+sum(a;ya[a]*V[a,d])/M', **ld)
    b = T.bench(PK, c, 'MstepMD', dict(stats=st), dict(up, update_V=True), 'factors')
    T.check(b, 'V', [('a', 'y'), ('d', 'd')], 'sum(b;cholL(g,h;P[g,h]/M-ya[g]*ya[h]/M**2)[b,a]*V[b,d])', **ld)
    x, yy = Sym('x', 'n', 'd'), Sym('t', 'n', 'y')
    b = T.bench(PK, c, 'log_probx_g_y', dict(x=x, y=yy), at)
    r = '(x[n,%s]-mu[%s]-sum(a;t[n,a]*V[a,%s]))'
    T.check(b, None, 'n', '-0.5*dim_d*log(2*pi)+0.5*logdet(d,e;W[d,e])-0.5*sum(d,e;%s*W[d,e]*%s)' % (r.replace('%s', 'd'), r.replace('%s', 'e')), **ld)


def after(b, at):
    """the value of an attribute once the method has run"""
    def f(s, ids):
        t = b.tensor(b.node(at))
        if len(t.axes) != len(ids):
            raise Shape('%s of rank %d' % (at, len(t.axes)))
        return s.tr.A.rename(t.e, dict(zip(t.axes, ids)))
    return f


def frplda(T):
    c = 'FRPLDA'
    dims = {k: 'd' for k in DIMS}
    dims['c'] = 'c'
    dims['n'] = 'n'
    dims['m'] = 'm'
    ld = dict(dims=dims)
    at = dict(_is_init=True, y_dim=Dim('d'), x_dim=Dim('d'), mu=Sym('mu', 'd'), B=Sym('B', 'd', 'd', sym=True), W=Sym('W', 'd', 'd', sym=True))
    mt = lambda p: '+sum(d;mu[d]*B[d,%s])' % p
    m = Two(lambda a, b: 'B[%s,%s]' % (a, b), lambda a, b: 'W[%s,%s]' % (a, b), lambda k, i, p, N: 'sum(d;%s[%s,d]*W[d,%s])' % (k, i, p),
            '-logdet(d,e;B[d,e])+sum(d,e;mu[d]*B[d,e]*mu[e])', y='d')
    y, inv, lpy = common(T, c, at, m, mt, ld)
    dd = [('a', 'd'), ('b', 'd')]
    b = T.bench(PK, c, 'Estep', dict(D=args_D('', 'c')), at, decide={'numpy.all': True})
    g = lambda x, q='q': 'sum(%s;%s*(%s%s))' % (q, inv(x, q), m.lin('F', 'c', q, 'N[c]'), mt(q))
    T.check(b, 0, '', 'sum(c;N[c])', **ld)
    T.check(b, 1, '', 'dim_c', **ld)
    T.check(b, 2, dd, 'S[a,b]', **ld)
    T.check(b, 3, '', 'sum(c;%s)' % lpy, **ld)
    T.check(b, 4, [('a', 'd')], 'sum(c;%s)' % g('a'), **ld)
    T.check(b, 5, dd, 'sum(c;N[c]*(%s+%s*%s))' % (inv('a', 'b'), g('a'), g('b', 'p')), **ld)
    T.check(b, 6, dd, 'sum(c;F[c,a]*%s)' % g('b'), **ld)
    T.check(b, 7, dd, 'sum(c;%s+%s*%s)' % (inv('a', 'b'), g('a'), g('b', 'p')), **ld)
    st = (Sym('N', pos=True), Sym('M', pos=True), Sym('S', 'd', 'd', sym=True), Sym('lp'), Sym('ya', 'd'), Sym('R', 'd', 'd', sym=True),
          Sym('C', 'd', 'd'), Sym('P', 'd', 'd', sym=True))
    b = T.bench(PK, c, 'elbo', dict(stats=st), at)
    T.check(b, None, '', '0.5*(-N*dim_d*log(2*pi)+N*logdet(d,e;W[d,e])-sum(d,e;W[d,e]*S[d,e]))+0.5*M*(-dim_d*log(2*pi)+logdet(d,e;B[d,e])-sum(d,e;mu[d]*B[d,e]*mu[e]))-lp', **ld)
    up = dict(at, update_mu=True, update_B=True, update_W=True, fullcov_W=True)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), up)
    T.check(b, 'mu', 'd', 'ya[d]/M', **ld)
    T.check(b, 'B', dd, 'inv(d,e;P[d,e]/M-ya[d]*ya[e]/M**2)[a,b]', **ld)
    T.check(b, 'W', dd, 'inv(d,e;(S[d,e]-C[d,e]-C[e,d]+R[d,e])/N)[a,b]', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=False), 'fixed mean')
    T.check(b, 'mu', 'd', 'mu[d]', **ld)
    T.check(b, 'B', dd, 'inv(d,e;P[d,e]/M-ya[d]*mu[e]/M-mu[d]*ya[e]/M+mu[d]*mu[e])[a,b]', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, fullcov_W=False), 'diagonal noise')
    T.check(b, 'W', dd, 'delta[a,b]*N/(S[a,a]-2*C[a,a]+R[a,a])', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=False, update_B=False, update_W=False), 'nothing updated')
    for a in ('B', 'W'):
        T.check(b, a, dd, '%s[a,b]' % a, **ld)


def plda(T):
    c = 'PLDA'
    ld = dict(dims=dict(DIMS, z='z', r='z', s='z', t='z', u='z', v='z', w='z', k='d'))
    V, U, D = Sym('V', 'y', 'd'), Sym('U', 'z', 'd'), Sym('D', 'd', pos=True)
    at = dict(_is_init=False, y_dim=Dim('y'), z_dim=Dim('z'), x_dim=Dim('d'), mu=Sym('mu', 'd'), V=V, U=U, D=D, floor_iD=Sym('fl', pos=True))
    for a in ('_DU', '_Jt', '_Lz', '_mult_iLz', '_log_Lz', '_W', '_VW', '_VWV'):
        at[a] = None
    # precision of the residual once the channel is integrated out: W = D - D U' Lz^-1 U D
    Lz = 'delta[r,s]+sum(f;U[r,f]*D[f]*U[s,f])'
    W = lambda a, b: '(delta[%s,%s]*D[%s]-sum(t,u;D[%s]*U[t,%s]*inv(r,s;%s)[t,u]*U[u,%s]*D[%s]))' % (a, b, a, a, a, Lz, b, b)
    VV = lambda a, b: 'sum(d,e;V[%s,d]*%s*V[%s,e])' % (a, W('d', 'e'), b)
    m = Two(lambda a, b: 'delta[%s,%s]' % (a, b), VV,
            lambda k, i, p, N: 'sum(d,e;(%s[%s,d]-%s*mu[d])*%s*V[%s,e])' % (k, i, N, W('d', 'e'), p), '')
    y, inv, lpy = common(T, c, at, m, lambda p: '', ld)
    yd, zd = [('a', 'y'), ('b', 'y')], [('r', 'z'), ('s', 'z')]
    b = T.bench(PK, c, 'Estep', dict(D=args_D('', 'c')), at, decide={'numpy.all': True})
    aux = dict(setup=[('compute_aux', {})])
    iL = lambda x, y: 'inv(r,s;%s)[%s,%s]' % (Lz, x, y)
    g = lambda x, q='q': 'sum(%s;%s*%s)' % (q, inv(x, q), m.lin('F', 'c', q, 'N[c]'))
    Cy = lambda d, a: 'sum(c;F[c,%s]*%s)' % (d, g(a))
    Ry = lambda a, b: 'sum(c;N[c]*(%s+%s*%s))' % (inv(a, b), g(a), g(b, 'p'))
    Fc = lambda d: '(F[c,%s]-N[c]*mu[%s])' % (d, d)
    Sc = lambda d, e: '(S[%s,%s]-sum(c;F[c,%s])*mu[%s]-sum(c;F[c,%s])*mu[%s]+sum(c;N[c])*mu[%s]*mu[%s])' % (d, e, d, e, e, d, d, e)
    T.check(b, 0, '', 'sum(c;N[c])', **ld)
    T.check(b, 1, '', 'dim_c', **ld)
    T.check(b, 2, 'd', 'sum(c;F[c,d])', **ld)
    T.check(b, 3, [('d', 'd'), ('e', 'd')], 'S[d,e]', **ld)
    T.check(b, 4, '', 'sum(c;%s)' % lpy, **ld)
    T.check(b, 5, [('a', 'y')], 'sum(c;%s)' % g('a'), **ld)
    T.check(b, 6, [('a', 'y')], 'sum(c;N[c]*%s)' % g('a'), **ld)
    T.check(b, 7, yd, Ry('a', 'b'), **ld)
    T.check(b, 8, [('x', 'd'), ('a', 'y')], Cy('x', 'a'), **ld)
    T.check(b, 9, yd, 'sum(c;%s+%s*%s)' % (inv('a', 'b'), g('a'), g('b', 'p')), **ld)
    # the channel: z = Lz^-1 U D (x - mu - V'y)
    G = lambda r, d: 'sum(z;%s*U[z,%s]*D[%s])' % (iL(r, 'z'), d, d)
    Cb = lambda d, a: 'sum(c;%s*%s)' % (Fc(d), g(a))
    T.check(b, 10, [('v', 'z')], 'sum(x;%s*(sum(c;%s)-sum(a;sum(c;N[c]*%s)*V[a,x])))' % (G('v', 'x'), Fc('x'), g('a')), **ld)
    T.check(b, 11, [('v', 'z'), ('w', 'z')], 'sum(x,k;%s*(%s-sum(a;%s*V[a,k])-sum(a;%s*V[a,x])+sum(a,b;V[a,x]*%s*V[b,k]))*%s)+sum(c;N[c])*%s' % (
        G('v', 'x'), Sc('x', 'k'), Cb('x', 'a'), Cb('k', 'a'), Ry('a', 'b'), G('w', 'k'), iL('v', 'w')), **ld)
    T.check(b, 12, [('a', 'y'), ('v', 'z')], 'sum(x;(%s-sum(b;%s*V[b,x]))*%s)' % (Cb('x', 'a'), Ry('a', 'b'), G('v', 'x')), **ld)
    T.check(b, 13, [('k', 'd'), ('v', 'z')], 'sum(x;(S[k,x]-sum(c;F[c,k])*mu[x]-sum(a;%s*V[a,x]))*%s)' % (Cy('k', 'a'), G('v', 'x')), **ld)
    st = (Sym('N', pos=True), Sym('M', pos=True), Sym('F', 'd'), Sym('S', 'd', 'd', sym=True), Sym('lp'), Sym('ya', 'y'), Sym('R1', 'y'),
          Sym('R', 'y', 'y', sym=True), Sym('C', 'd', 'y'), Sym('P', 'y', 'y', sym=True), Sym('Z1', 'z'), Sym('Z', 'z', 'z', sym=True), Sym('YZ', 'y', 'z'),
          Sym('CZ', 'd', 'z'))
    b = T.bench(PK, c, 'elbo', dict(stats=st), at, **aux)
    T.check(b, None, '', '0.5*(-N*dim_d*log(2*pi)+N*(sum(d;log(D[d]))-logdet(r,s;%s))-sum(d,e;%s*(S[d,e]-F[d]*mu[e]-mu[d]*F[e]+N*mu[d]*mu[e])))-0.5*M*dim_y*log(2*pi)-lp' % (Lz, W('d', 'e')), **ld)
    up = dict(at, update_mu=False, update_V=False, update_U=False, update_D=False)
    aux = {}
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_mu=True), 'mean', **aux)
    T.check(b, 'mu', 'd', '(F[d]-sum(a;R1[a]*V[a,d])-sum(r;Z1[r]*U[r,d]))/N', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_V=True), 'factors', **aux)
    T.check(b, 'V', [('a', 'y'), ('d', 'd')], 'sum(b;inv(g,h;R[g,h])[a,b]*(C[d,b]-R1[b]*mu[d]-sum(r;YZ[b,r]*U[r,d])))', **ld)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_U=True), 'channel', **aux)
    T.check(b, 'U', [('r', 'z'), ('d', 'd')], 'sum(s;inv(t,u;Z[t,u])[r,s]*(CZ[d,s]-Z1[s]*mu[d]-sum(a;YZ[a,s]*V[a,d])))', **ld)

    def joint(tag, names, rhs, **kw):
        """rows of the jointly estimated parameters: inv(block matrix) times the right-hand sides"""
        full = {('V', 'V'): 'R', ('V', 'U'): 'YZ', ('U', 'V'): "YZ'", ('U', 'U'): 'Z', ('V', 'mu'): 'R1', ('mu', 'V'): "R1'", ('U', 'mu'): 'Z1', ('mu', 'U'): "Z1'", ('mu', 'mu'): 'N'}
        bl = [[full[(x, y)] for y in names] for x in names]
        fs = {'i%d%d' % (i, j): binv(bl, i, j) for i in range(len(names)) for j in range(len(names))}
        b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, **kw), tag, **aux)
        ix = {'V': ('a', 'b'), 'U': ('r', 's'), 'mu': ('', '')}
        for i, x in enumerate(names):
            terms = []
            for j, y in enumerate(names):
                l, q = ix[x][0], ix[y][1]
                ids = ','.join(k for k in (l, q) if k)
                t = 'i%d%d' % (i, j) + ('[%s]' % ids if ids else '') + '*(%s)' % rhs[y]
                terms.append('sum(%s;%s)' % (q, t) if q else t)
            lt = {'V': [('a', 'y')], 'U': [('r', 'z')], 'mu': []}[x] + [('d', 'd')]
            T.check(b, x, lt, '+'.join(terms), funcs=fs, **ld)
    joint('factors and channel', ['V', 'U'], dict(V='C[d,b]-R1[b]*mu[d]', U='CZ[d,s]-Z1[s]*mu[d]'), update_V=True, update_U=True)
    joint('mean and channel', ['U', 'mu'], dict(U='CZ[d,s]-sum(a;YZ[a,s]*V[a,d])', mu='F[d]-sum(a;R1[a]*V[a,d])'), update_mu=True, update_U=True)
    joint('mean and factors', ['V', 'mu'], dict(V='C[d,b]-sum(r;YZ[b,r]*U[r,d])', mu='F[d]-sum(r;Z1[r]*U[r,d])'), update_mu=True, update_V=True)
    joint('all', ['V', 'U', 'mu'], dict(V='C[d,b]', U='CZ[d,s]', mu='F[d]'), update_mu=True, update_V=True, update_U=True)
    b = T.bench(PK, c, 'MstepML', dict(stats=st), dict(up, update_D=True), 'noise', **aux)
    cv = '(S[d,d]-2*(sum(a;C[d,a]*V[a,d])+sum(r;CZ[d,r]*U[r,d])+F[d]*mu[d])+sum(a,b;V[a,d]*R[a,b]*V[b,d])+sum(r,s;U[r,d]*Z[r,s]*U[s,d])+N*mu[d]**2' \
        '+2*sum(a,r;V[a,d]*YZ[a,r]*U[r,d])+2*sum(a;V[a,d]*R1[a])*mu[d]+2*sum(r;U[r,d]*Z1[r])*mu[d])/N'
    T.check(b, 'D', 'd', '1/maximum(%s,fl)' % cv, **ld)
    b = T.bench(PK, c, 'MstepMD', dict(stats=st), dict(up, update_mu=True, update_V=True, update_U=True))
    H = lambda r, a: 'sum(b;(YZ[b,%s]-Z1[%s]*R1[b]/N)*inv(g,h;R[g,h]-R1[g]*R1[h]/N)[b,%s])' % (r, r, a)
    mz = lambda r: '((Z1[%s]-sum(p;%s*R1[p]))/N)' % (r, H(r, 'p'))
    T.check(b, 'mu', 'd', 'mu[d]+sum(a;ya[a]*(V[a,d]+sum(r;%s*U[r,d])))/M+sum(r;%s*U[r,d])' % (H('r', 'a'), mz('r')), **ld)
    T.check(b, 'V', [('a', 'y'), ('d', 'd')], 'sum(q;cholL(g,h;P[g,h]/M-ya[g]*ya[h]/M**2)[q,a]*(V[q,d]+sum(r;%s*U[r,d])))' % H('r', 'q'), **ld)
    cz = '(Z[r,s]-sum(p;YZ[p,r]*%s)-sum(p;YZ[p,s]*%s)+sum(p,q;%s*R[p,q]*%s))/N-%s*%s' % (H('s', 'p'), H('r', 'p'), H('r', 'p'), H('s', 'q'), mz('r'), mz('s'))
    T.check(b, 'U', [('v', 'z'), ('d', 'd')], 'sum(w;cholL(r,s;%s)[w,v]*U[w,d])' % cz, **ld)
    x, yy, zz = Sym('x', 'n', 'd'), Sym('t', 'n', 'y'), Sym('o', 'n', 'z')
    b = T.bench(PK, c, 'log_probx_g_yz', dict(x=x, y=yy, z=zz), at)
    T.check(b, None, 'n', '-0.5*dim_d*log(2*pi)+0.5*sum(d;log(D[d]))-0.5*sum(d;D[d]*(x[n,d]-mu[d]-sum(a;t[n,a]*V[a,d])-sum(r;o[n,r]*U[r,d]))**2)', **ld)
    b = T.bench(PK, c, 'log_probx_g_y', dict(x=x, y=yy), at)
    r = '(x[n,%s]-mu[%s]-sum(a;t[n,a]*V[a,%s]))'
    iW = 'delta[d,e]/D[d]+sum(r;U[r,d]*U[r,e])'
    T.check(b, None, 'n', '-0.5*dim_d*log(2*pi)-0.5*logdet(d,e;%s)-0.5*sum(x,k;%s*inv(d,e;%s)[x,k]*%s)' % (iW, r.replace('%s', 'x'), iW, r.replace('%s', 'k')), **ld)


def average(T):
    """the weighted average of two models"""
    ld = dict(dims=dict(d='d', e='d', f='d', a='d', b='d'))
    mu, B, W = Sym('mu', 'd'), Sym('B', 'd', 'd', sym=True), Sym('W', 'd', 'd', sym=True)
    a = dict(mu=Sym('mu2', 'd'), B=Sym('B2', 'd', 'd', sym=True), W=Sym('W2', 'd', 'd', sym=True), w_mu=Sym('k', pos=True), w_B=Sym('u', pos=True), w_W=Sym('w', pos=True))
    b = T.bench(PK, 'FRPLDA', 'weighted_avg_params', a, dict(_is_init=True, mu=mu, B=B, W=W, x_dim=Dim('d'), y_dim=Dim('d')))
    avg = lambda k, n: 'inv(d,e;%s*inv(d,e;%s2[d,e])[d,e]+(1-%s)*inv(d,e;%s[d,e])[d,e])[a,b]' % (k, n, k, n)
    dd = [('a', 'd'), ('b', 'd')]
    T.check(b, 'mu', 'd', 'k*mu2[d]+(1-k)*mu[d]', **ld)
    T.check(b, 'B', dd, avg('u', 'B'), **ld)
    T.check(b, 'W', dd, avg('w', 'W'), **ld)
    a = dict(a, V=Sym('V2', 'y', 'd'))
    del a['B']
    b = T.bench(PK, 'SPLDA', 'weighted_avg_params', a, dict(_is_init=True, mu=mu, V=Sym('V', 'y', 'd'), W=W, x_dim=Dim('d'), y_dim=Dim('y')))
    T.check(b, 'mu', 'd', 'k*mu2[d]+(1-k)*mu[d]', **ld)
    T.check(b, 'W', dd, avg('w', 'W'), **ld)


def base(T):
    """class statistics and their use in scoring"""
    c = 'PLDABase'
    x, th, mu = Sym('x', 'n', 'd'), Sym('th', 'n', 'c'), Sym('mu', 'd')
    ld = dict(dims=dict(n='n', c='c', d='d', e='d'))
    for tag, w, k, f in (('', None, None, 'th[n,c]'), ('weighted', Sym('w', 'n'), None, 'w[n]*th[n,c]'), ('scaled', None, Sym('k'), 'k*th[n,c]'),
                         ('weighted and scaled', Sym('w', 'n'), Sym('k'), 'k*w[n]*th[n,c]')):
        b = T.bench(PK, c, 'compute_stats_soft', dict(x=x, p_theta=th, sample_weight=w, scal_factor=k), {}, tag)
        T.check(b, 0, 'c', 'sum(n;%s)' % f, **ld)
        T.check(b, 1, 'cd', 'sum(n;%s*x[n,d])' % f, **ld)
        T.check(b, 2, [('d', 'd'), ('e', 'd')], 'sum(n,c;%s*x[n,d]*x[n,e])' % f, **ld)
    b = T.bench(PK, c, 'center_stats', dict(D=args_D('', 'c'), mu=mu), {})
    T.check(b, 0, 'c', 'N[c]', **ld)
    T.check(b, 1, 'cd', 'F[c,d]-N[c]*mu[d]', **ld)
    T.check(b, 2, [('d', 'd'), ('e', 'd')], 'S[d,e]-sum(c;F[c,d])*mu[e]-mu[d]*sum(c;F[c,e])+sum(c;N[c])*mu[d]*mu[e]', **ld)


def check(p, rep, tier):
    T = Table(p, rep)
    for f in (splda, frplda, plda, average, base):
        f(T)
    rep.require('PLDA formulas', T.n, 5)
