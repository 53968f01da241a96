"""C17: densities, statistics and parameter updates of the models follow their formulas."""
from ..ir import *
from ..interp import Interp
from ..formula import *
from ..tensor import *

MATH = 'hyperion.utils.math:'
NOINLINE = tuple(MATH + x for x in ('symmat2vec', 'vec2symmat', 'softmax', 'logsumexp', 'fullcov_varfloor'))
INIT = dict(_is_init=True)


class Table(object):
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.I = Interp(p)
        self.I.noinline |= set(NOINLINE)
        self.n = 0
        self.only = None

    def cls(self, pk, name):
        for c in self.p.all_classes([pk]):
            if c.name == name:
                return c
        return None

    def bench(self, pk, cls, meth, args, attrs, tag='', **kw):
        c = self.cls(pk, cls)
        if c is None or self.p.find_method(c, meth) is None:
            return None
        b = Bench(self.p, self.I, c, meth, args, attrs, **kw)
        if tag:
            b.construct += '(%s)' % tag
        return b

    def check(self, b, path, letters, formula, text=None, **kw):
        if b is None:
            return None
        self.n += 1
        if isinstance(letters, str):
            letters = [(x, x) for x in letters]
        return compare(self.rep, 'formula', b, path, letters, formula, text, **kw)


def normal_diag(T):
    pk, c = 'hyperion.pdfs.core', 'NormalDiagCov'
    at = dict(INIT, x_dim=Dim('d'), mu=Sym('mu', 'd'), Lambda=Sym('L', 'd', pos=True), _cholLambda=None, _logLambda=None, _Sigma=None)
    x = Sym('x', 'n', 'd')
    eta = Joined(Sym('E', 'd'), Sym('G', 'd'))
    b = T.bench(pk, c, 'log_prob_std', dict(x=x), at)
    T.check(b, None, 'n', '0.5*sum(d;log(L[d]))-0.5*dim_d*log(2*pi)-0.5*sum(d;(x[n,d]-mu[d])**2*L[d])')
    b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, method='std'), at, 'std')
    T.check(b, None, 'n', '0.5*sum(d;log(L[d]))-0.5*dim_d*log(2*pi)-0.5*sum(d;(x[n,d]-mu[d])**2*L[d])')
    b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, method='nat'), dict(at, eta=eta, A=Sym('A')), 'nat')
    T.check(b, None, 'n', 'sum(d;x[n,d]*E[d])+sum(d;x[n,d]**2*G[d])-A')
    b = T.bench(pk, c, 'compute_suff_stats', dict(x=x), at)
    T.check(b, (None, 0), 'nd', 'x[n,d]')
    T.check(b, (None, 1), 'nd', 'x[n,d]**2')
    for w in (None, Sym('w', 'n')):
        for bs in (None, Sym('bs', pos=True)):
            b = T.bench(pk, c, 'Estep', dict(x=x, u_x=None, sample_weight=w, batch_size=bs), at, ('weighted' if w else '') + (' batches' if bs else ''))
            T.check(b, 0, '', 'sum(n;w[n])' if w else 'dim_n')
            T.check(b, (1, 0), 'd', 'sum(n;w[n]*x[n,d])' if w else 'sum(n;x[n,d])')
            T.check(b, (1, 1), 'd', 'sum(n;w[n]*x[n,d]**2)' if w else 'sum(n;x[n,d]**2)')
    ml = dict(mu=at['mu'], Lambda=at['Lambda'])
    b = T.bench(pk, c, 'compute_eta', ml, {})
    T.check(b, (None, 0), 'd', 'L[d]*mu[d]')
    T.check(b, (None, 1), 'd', '-0.5*L[d]')
    b = T.bench(pk, c, 'compute_std', dict(eta=eta), {})
    T.check(b, 0, 'd', '-0.5*E[d]/G[d]')
    T.check(b, 1, 'd', '-2*G[d]')
    b = T.bench(pk, c, 'compute_A_nat', dict(eta=eta), {})
    T.check(b, None, '', '0.5*dim_d*log(2*pi)-sum(d;E[d]**2/G[d])/4-0.5*sum(d;log(-2*G[d]))')
    b = T.bench(pk, c, 'compute_A_std', ml, {})
    T.check(b, None, '', '0.5*dim_d*log(2*pi)+0.5*sum(d;mu[d]**2*L[d])-0.5*sum(d;log(L[d]))')
    for a, f, l in (('logLambda', 'sum(d;log(L[d]))', ''), ('cholLambda', 'sqrt(L[d])', 'd'), ('Sigma', '1/L[d]', 'd')):
        b = T.bench(pk, c, a, {}, at)
        T.check(b, None, l, f)
    st = Joined(Sym('F', 'd'), Sym('S', 'd'))
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=Sym('N', pos=True), u_x=st, return_order2=True), at)
    T.check(b, 0, '', 'N')
    T.check(b, (1, 0), 'd', 'sqrt(L[d])*(F[d]-N*mu[d])')
    T.check(b, (1, 1), 'd', 'L[d]*(S[d]-2*mu[d]*F[d]+N*mu[d]**2)')
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=Sym('N', pos=True), u_x=st, return_order2=False), at, 'first order')
    T.check(b, 1, 'd', 'sqrt(L[d])*(F[d]-N*mu[d])')
    up = dict(at, update_mu=True, update_Lambda=True, var_floor=Sym('vf', pos=True), _cholLambda=Sym('oldC', 'd'), _logLambda=Sym('oldl'), _Sigma=Sym('oldS', 'd'))
    b = T.bench(pk, c, 'Mstep', dict(N=Sym('N', pos=True), u_x=st), up)
    T.check(b, 'mu', 'd', 'F[d]/N')
    T.check(b, 'Lambda', 'd', '1/maximum(S[d]/N-(F[d]/N)**2,vf)')
    T.check(b, ('eta', 0), 'd', 'F[d]/N/maximum(S[d]/N-(F[d]/N)**2,vf)')
    T.check(b, ('eta', 1), 'd', '-0.5/maximum(S[d]/N-(F[d]/N)**2,vf)')
    var = '1/maximum(S[d]/N-(F[d]/N)**2,vf)'
    for a, f, l in (('cholLambda', 'sqrt(%s)' % var, 'd'), ('logLambda', 'sum(d;log(%s))' % var, ''), ('Sigma', 'maximum(S[d]/N-(F[d]/N)**2,vf)', 'd')):
        b = T.bench(pk, c, a, {}, up, 'after Mstep', setup=[('Mstep', dict(N=Sym('N', pos=True), u_x=st))])
        T.check(b, None, l, f)
    b = T.bench(pk, c, 'Mstep', dict(N=Sym('N', pos=True), u_x=st), dict(up, update_mu=False), 'mean kept')
    T.check(b, 'mu', 'd', 'mu[d]')
    T.check(b, 'Lambda', 'd', '1/maximum(S[d]/N-2*mu[d]*F[d]/N+mu[d]**2,vf)')
    b = T.bench(pk, c, 'Mstep', dict(N=Sym('N', pos=True), u_x=st), dict(up, update_Lambda=False), 'variance kept')
    T.check(b, 'Lambda', 'd', 'L[d]')
    T.check(b, ('eta', 0), 'd', 'L[d]*F[d]/N')
    b = T.bench(pk, c, 'is_init', {}, dict(at, _is_init=False, eta=None, A=None), 'from mean and precision')
    T.check(b, ('eta', 0), 'd', 'L[d]*mu[d]')
    T.check(b, ('eta', 1), 'd', '-0.5*L[d]')
    T.check(b, 'A', '', '0.5*dim_d*log(2*pi)+0.5*sum(d;mu[d]**2*L[d])-0.5*sum(d;log(L[d]))')
    b = T.bench(pk, c, 'is_init', {}, dict(at, _is_init=False, mu=None, Lambda=None, eta=eta, A=None), 'from natural parameters')
    T.check(b, 'mu', 'd', '-0.5*E[d]/G[d]')
    T.check(b, 'Lambda', 'd', '-2*G[d]')
    b = T.bench(pk, c, 'sample', dict(num_samples=Dim('n')), at)
    T.check(b, None, 'nd', 'mu[d]+gauss_n_d[n,d]/sqrt(L[d])')
    b = T.bench(pk, c, 'log_cdf', dict(x=x), at)
    T.check(b, None, 'n', 'sum(d;log(0.5*(1+erf((x[n,d]-mu[d])*sqrt(L[d])/sqrt(2)))+1e-10))')


def normal(T):
    pk, c = 'hyperion.pdfs.core', 'Normal'
    at = dict(INIT, x_dim=Dim('d'), mu=Sym('mu', 'd'), Lambda=Sym('L', 'd', 'd', sym=True), _cholLambda=None, _logLambda=None, _Sigma=None)
    x = Sym('x', 'n', 'd')
    eta = Joined(Sym('E', 'd'), Sym('G', 'd', 'd', sym=True, packed=1))
    ld = dict(dims=dict(d='d', e='d', f='d'))
    dd = [('d', 'd'), ('e', 'd')]
    std = '0.5*logdet(d,e;L[d,e])-0.5*dim_d*log(2*pi)-0.5*sum(d,e;(x[n,d]-mu[d])*L[d,e]*(x[n,e]-mu[e]))'
    b = T.bench(pk, c, 'log_prob_std', dict(x=x), at)
    T.check(b, None, 'n', std, **ld)
    b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, method='std'), at, 'std')
    T.check(b, None, 'n', std, **ld)
    ml = dict(mu=at['mu'], Lambda=at['Lambda'])
    b = T.bench(pk, c, 'compute_eta', ml, {})
    T.check(b, (None, 0), 'd', 'sum(e;L[d,e]*mu[e])', **ld)
    T.check(b, (None, 1), dd, '-L[d,e]+0.5*delta[d,e]*L[d,d]', **ld)
    b = T.bench(pk, c, 'compute_std', dict(eta=eta), {})
    ld2 = dict(ld, defs=None)
    m = '(-G[d,e]-delta[d,e]*G[d,d])'
    T.check(b, 0, 'd', 'sum(e;inv(d,e;-G[d,e]-delta[d,e]*G[d,e])[d,e]*E[e])', **ld)
    T.check(b, 1, dd, m, **ld)
    b = T.bench(pk, c, 'compute_A_std', ml, {})
    T.check(b, None, '', '0.5*dim_d*log(2*pi)+0.5*sum(d,e;mu[d]*L[d,e]*mu[e])-0.5*logdet(d,e;L[d,e])', **ld)
    b = T.bench(pk, c, 'compute_A_nat', dict(eta=eta), {})
    T.check(b, None, '', '0.5*dim_d*log(2*pi)+0.5*sum(d,e;E[d]*inv(d,e;-G[d,e]-delta[d,e]*G[d,e])[d,e]*E[e])'
            '-0.5*logdet(d,e;-G[d,e]-delta[d,e]*G[d,e])', **ld)
    for a, f, l in (('logLambda', 'logdet(d,e;L[d,e])', ''), ('Sigma', 'inv(d,e;L[d,e])[d,e]', dd)):
        b = T.bench(pk, c, a, {}, at)
        T.check(b, None, l, f, **ld)
    st = Joined(Sym('F', 'd'), Sym('S', 'd', 'd', sym=True, packed=1))
    for w in (None, Sym('w', 'n')):
        b = T.bench(pk, c, 'accum_suff_stats', dict(x=x, u_x=None, sample_weight=w, batch_size=None), at, 'weighted' if w else '')
        T.check(b, 0, '', 'sum(n;w[n])' if w else 'dim_n')
        T.check(b, (1, 0), 'd', 'sum(n;w[n]*x[n,d])' if w else 'sum(n;x[n,d])')
        T.check(b, (1, 1), dd, 'sum(n;w[n]*x[n,d]*x[n,e])' if w else 'sum(n;x[n,d]*x[n,e])')
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=Sym('N', pos=True), u_x=st, return_order2=True), at)
    T.check(b, (1, 0), 'd', 'sum(e;cholL(d,e;L[d,e])[e,d]*(F[e]-N*mu[e]))', **ld)
    up = dict(at, update_mu=True, update_Lambda=True, var_floor=Sym('vf', pos=True), _cholLambda=Sym('oldC', 'd', 'd'), _logLambda=Sym('oldl'), _Sigma=Sym('oldS', 'd', 'd'))
    b = T.bench(pk, c, 'Mstep', dict(N=Sym('N', pos=True), u_x=st), up)
    T.check(b, 'mu', 'd', 'F[d]/N')
    T.check(b, 'Lambda', dd, 'inv(d,e;S[d,e]/N-F[d]*F[e]/N**2)[d,e]', **ld)
    T.check(b, ('eta', 0), 'd', 'sum(e;inv(d,e;S[d,e]/N-F[d]*F[e]/N**2)[d,e]*F[e]/N)', **ld)
    cov = 'S[d,e]/N-F[d]*F[e]/N**2'
    for a, f, l in (('cholLambda', 'cholL(d,e;inv(d,e;%s)[d,e])[d,e]' % cov, dd), ('logLambda', '-logdet(d,e;%s)' % cov, ''), ('Sigma', cov, dd)):
        b = T.bench(pk, c, a, {}, up, 'after Mstep', setup=[('Mstep', dict(N=Sym('N', pos=True), u_x=st))])
        T.check(b, None, l, f, **ld)
    b = T.bench(pk, c, 'cholLambda', {}, at)
    T.check(b, None, dd, 'cholL(d,e;L[d,e])[d,e]', **ld)
    b = T.bench(pk, c, 'Mstep', dict(N=Sym('N', pos=True), u_x=st), dict(up, update_mu=False), 'mean kept')
    T.check(b, 'mu', 'd', 'mu[d]')
    T.check(b, 'Lambda', dd, 'inv(d,e;S[d,e]/N-mu[d]*F[e]/N-F[d]*mu[e]/N+mu[d]*mu[e])[d,e]', **ld)
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=Sym('N', pos=True), u_x=st, return_order2=False), at, 'first order')
    T.check(b, 1, 'd', 'sum(e;cholL(d,e;L[d,e])[e,d]*(F[e]-N*mu[e]))', **ld)
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=Sym('N', pos=True), u_x=st, return_order2=True), at)
    cl = 'cholL(d,e;L[d,e])[%s,%s]'
    T.check(b, (1, 1), [('g', 'd'), ('h', 'd')], 'sum(d,e;%s*(S[d,e]-mu[d]*F[e]-F[d]*mu[e]+N*mu[d]*mu[e])*%s)' % (cl.replace('d,e;', 'p,q;').replace('[d,e]', '[p,q]') % ('d', 'g'), cl.replace('d,e;', 'p,q;').replace('[d,e]', '[p,q]') % ('e', 'h')),
            dims=dict(d='d', e='d', p='d', q='d'))
    b = T.bench(pk, c, 'is_init', {}, dict(at, _is_init=False, eta=None, A=None), 'from mean and precision')
    T.check(b, ('eta', 0), 'd', 'sum(e;L[d,e]*mu[e])', **ld)
    T.check(b, 'A', '', '0.5*dim_d*log(2*pi)+0.5*sum(d,e;mu[d]*L[d,e]*mu[e])-0.5*logdet(d,e;L[d,e])', **ld)
    b = T.bench(pk, c, 'is_init', {}, dict(at, _is_init=False, mu=None, Lambda=None, eta=eta, A=None), 'from natural parameters')
    T.check(b, 'Lambda', dd, m, **ld)
    T.check(b, 'mu', 'd', 'sum(e;inv(d,e;-G[d,e]-delta[d,e]*G[d,d])[d,e]*E[e])', **ld)
    b = T.bench(pk, c, 'sample', dict(num_samples=Dim('n')), at)


def gmm_diag(T):
    pk = 'hyperion.pdfs.mixtures'
    for c, tied in (('GMMDiagCov', False), ('GMMTiedDiagCov', True)):
        Lk = '[d]' if tied else '[k,d]'
        L = Sym('L', 'd', pos=True) if tied else Sym('L', 'k', 'd', pos=True)

        def z(s):
            return s.replace('L[k,d]', 'L' + Lk)
        eta = Joined(Sym('E', 'k', 'd'), Sym('G', 'k', 'd'))
        at = dict(INIT, x_dim=Dim('d'), num_comp=Dim('k'), pi=Sym('p', 'k', pos=True), mu=Sym('mu', 'k', 'd'), Lambda=L, eta=eta, A=Sym('A', 'k'),
                  _log_pi=None, _cholLambda=None, _logLambda=None, _Sigma=None)
        x = Sym('x', 'n', 'd')
        lp = 'log(p[k]+1e-15)'
        std = z('lse(k;%s+0.5*sum(d;log(L[k,d]))-0.5*dim_d*log(2*pi)-0.5*sum(d;(x[n,d]-mu[k,d])**2*L[k,d]))' % lp)
        b = T.bench(pk, c, 'log_prob_std', dict(x=x), at)
        T.check(b, None, 'n', std)
        r = 'sum(d;x[n,d]*E[k,d])+sum(d;x[n,d]**2*G[k,d])-A[k]+' + lp
        b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, mode='nat'), at, 'nat')
        T.check(b, None, 'n', 'lse(k;%s)' % r)
        b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, mode='std'), at, 'std')
        T.check(b, None, 'n', std)
        rj = r.replace('[k', '[j').replace('(d;', '(e;').replace('d]', 'e]')
        z_ = 'exp(%s-lse(j;%s))' % (r, rj)
        b = T.bench(pk, c, 'compute_pz', dict(x=x, u_x=None, mode='nat'), at, 'nat')
        T.check(b, None, 'nk', z_)
        for w in (None, Sym('w', 'n')):
            b = T.bench(pk, c, 'accum_suff_stats', dict(x=x, u_x=None, sample_weight=w, batch_size=None), at, 'weighted' if w else '')
            ww = 'w[n]*' if w else ''
            T.check(b, 0, 'k', 'sum(n;%s%s)' % (ww, z_))
            T.check(b, (1, 0), 'kd', 'sum(n;%s%s*x[n,d])' % (ww, z_.replace('(d;', '(f;').replace('d]', 'f]')))
            T.check(b, (1, 1), 'kd', 'sum(n;%s%s*x[n,d]**2)' % (ww, z_.replace('(d;', '(f;').replace('d]', 'f]')))
        ml = dict(mu=at['mu'], Lambda=at['Lambda'])
        b = T.bench(pk, c, 'compute_eta', ml, {})
        T.check(b, (None, 0), 'kd', z('L[k,d]*mu[k,d]'))
        T.check(b, (None, 1), 'kd', z('-0.5*L[k,d]'))
        if not tied:
            b = T.bench(pk, c, 'compute_std', dict(eta=eta), {})
            T.check(b, 0, 'kd', '-0.5*E[k,d]/G[k,d]')
            T.check(b, 1, 'kd', '-2*G[k,d]')
        b = T.bench(pk, c, 'compute_A_nat', dict(eta=eta), {})
        T.check(b, None, 'k', '0.5*dim_d*log(2*pi)-sum(d;E[k,d]**2/G[k,d])/4-0.5*sum(d;log(-2*G[k,d]))')
        b = T.bench(pk, c, 'compute_A_std', ml, {})
        T.check(b, None, 'k', z('0.5*dim_d*log(2*pi)+0.5*sum(d;mu[k,d]**2*L[k,d])-0.5*sum(d;log(L[k,d]))'))
        for a, f, l in (('logLambda', 'sum(d;log(L[k,d]))', 'k'), ('cholLambda', 'sqrt(L[k,d])', 'kd'), ('Sigma', '1/L[k,d]', 'kd')):
            b = T.bench(pk, c, a, {}, at)
            T.check(b, None, l.replace('k', '') if tied else l, z(f))
        st = Joined(Sym('F', 'k', 'd'), Sym('S', 'k', 'd'))
        N_ = Sym('N', 'k', pos=True)
        for o in (True, False):
            b = T.bench(pk, c, 'norm_suff_stats', dict(N=N_, u_x=st, return_order2=o), at, 'second order' if o else 'first order')
            T.check(b, (1, 0) if o else 1, 'kd', z('sqrt(L[k,d])*(F[k,d]-N[k]*mu[k,d])'))
            if o:
                T.check(b, (1, 1), 'kd', z('L[k,d]*(S[k,d]-2*mu[k,d]*F[k,d]+N[k]*mu[k,d]**2)'))
        up = dict(at, update_mu=True, update_Lambda=False, update_pi=True, min_N=0, var_floor=Sym('vf', pos=True))
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), up)
        T.check(b, 'mu', 'kd', 'F[k,d]/N[k]')
        T.check(b, 'pi', 'k', 'N[k]/sum(k;N[k])')
        up = dict(up, update_Lambda=True)
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), up, 'variances')
        v = 'maximum(S[k,d]/N[k]-(F[k,d]/N[k])**2,vf*sum(j;S[j,d]/N[j]-(F[j,d]/N[j])**2)/dim_k)'
        kw = dict(dims=dict(k='k'))
        if not tied:
            T.check(b, 'Lambda', 'kd', '1/' + v, **kw)
            T.check(b, ('eta', 0), 'kd', 'F[k,d]/N[k]/' + v, **kw)
            T.check(b, ('eta', 1), 'kd', '-0.5/' + v, **kw)
        else:
            T.check(b, 'Lambda', 'd', 'sum(k;N[k])/sum(k;N[k]*%s)' % v.replace('dim_k', 'dim_g'), dims=dict(g='k'))
        # few frames
        mn = dict(up, min_N=Sym('mn', pos=True))
        vr = lambda k: '(S[%s,d]/N[%s]-(F[%s,d]/N[%s])**2)' % (k, k, k, k)
        v3 = 'maximum(%s,vf*sum(j;lt(mn,N[j])*%s)/sum(j;lt(mn,N[j])))' % (vr('k'), vr('j'))
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), dict(mn, update_pi=False), 'few frames')
        if not tied:
            T.check(b, 'Lambda', 'kd', '1/' + v3, **kw)
        else:
            T.check(b, 'Lambda', 'd', 'sum(k;N[k])/sum(k;N[k]*%s)' % v3, dims=dict(k='k', j='k'))
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), dict(mn, update_Lambda=False), 'few frames', decide={'numpy.any': True})
        T.check(b, 'pi', 'k', '(1-lt(N[k],mn))*N[k]/sum(j;(1-lt(N[j],mn))*N[j])', dims=dict(j='k'))
        T.check(b, 'mu', 'kd', '(1-lt(N[k],mn))*F[k,d]/N[k]')
        if not tied:
            for a, f, l in (('cholLambda', 'sqrt(1/%s)' % v, 'kd'), ('logLambda', 'sum(d;log(1/%s))' % v, 'k'), ('Sigma', v, 'kd')):
                b = T.bench(pk, c, a, {}, dict(up, _cholLambda=Sym('oldC', 'k', 'd'), _logLambda=Sym('oldl', 'k'), _Sigma=Sym('oldS', 'k', 'd')), 'after Mstep',
                            setup=[('Mstep', dict(N=N_, u_x=st))])
                T.check(b, None, l, f, **kw)
        b = T.bench(pk, c, 'log_pi', {}, dict(up, _log_pi=Sym('oldp', 'k')), 'after Mstep', setup=[('Mstep', dict(N=N_, u_x=st))])
        T.check(b, None, 'k', 'log(N[k]/sum(k;N[k])+1e-15)')
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), dict(up, update_mu=False), 'means kept')
        v2 = 'maximum(S[k,d]/N[k]-2*mu[k,d]*F[k,d]/N[k]+mu[k,d]**2,vf*sum(j;S[j,d]/N[j]-2*mu[j,d]*F[j,d]/N[j]+mu[j,d]**2)/dim_k)'
        if not tied:
            T.check(b, 'Lambda', 'kd', '1/' + v2, **kw)
        else:
            T.check(b, 'Lambda', 'd', 'sum(k;N[k])/sum(k;N[k]*%s)' % v2.replace('dim_k', 'dim_g'), dims=dict(g='k'))
        b = T.bench(pk, c, '__init__', dict(num_comp=1, pi=at['pi'], eta=None, mu=at['mu'], Lambda=L), {}, 'from means and precisions')
        T.check(b, ('eta', 0), 'kd', z('L[k,d]*mu[k,d]'))
        T.check(b, ('eta', 1), 'kd', z('-0.5*L[k,d]'))
        T.check(b, 'A', 'k', z('0.5*dim_d*log(2*pi)+0.5*sum(d;mu[k,d]**2*L[k,d])-0.5*sum(d;log(L[k,d]))'))
        b = T.bench(pk, c, 'log_cdf', dict(x=x), at)
        T.check(b, None, 'n', z('lse(k;%s+sum(d;log(0.5*(1+erf((x[n,d]-mu[k,d])*sqrt(L[k,d])/sqrt(2)))+1e-20)))' % lp))
        for w in (None, Sym('w', 'n')):
            b = T.bench(pk, c, 'Estep', dict(x=x, u_x=None, sample_weight=w, batch_size=Sym('bs', pos=True)), at, 'batches' + (' weighted' if w else ''))
            ww = 'w[n]*' if w else ''
            T.check(b, 0, 'k', 'sum(n;%s%s)' % (ww, z_))
            T.check(b, (1, 0), 'kd', 'sum(n;%s%s*x[n,d])' % (ww, z_.replace('(d;', '(f;').replace('d]', 'f]')))
            T.check(b, (1, 1), 'kd', 'sum(n;%s%s*x[n,d]**2)' % (ww, z_.replace('(d;', '(f;').replace('d]', 'f]')))
        b = T.bench(pk, c, 'elbo', dict(x=None, u_x=st, N=N_, log_h=0), at)
        T.check(b, None, '', 'sum(k,d;F[k,d]*E[k,d])+sum(k,d;S[k,d]*G[k,d])+sum(k;N[k]*(%s-A[k]))' % lp)


def gmm_full(T):
    pk, c = 'hyperion.pdfs.mixtures', 'GMM'
    L = Sym('L', 'k', 'd', 'd', sym=True)
    dm = dict(d='d', e='d', f='d', g='d', h='d', k='k', j='k')
    ld = dict(dims=dm)
    eta = Joined(Sym('E', 'k', 'd'), Sym('G', 'k', 'd', 'd', packed=1))
    at = dict(INIT, x_dim=Dim('d'), num_comp=Dim('k'), pi=Sym('p', 'k', pos=True), mu=Sym('mu', 'k', 'd'), Lambda=L, eta=eta, A=Sym('A', 'k'),
              _log_pi=None, _cholLambda=None, _logLambda=None, _Sigma=None)
    x = Sym('x', 'n', 'd')
    lp = 'log(p[k]+1e-15)'
    std = 'lse(k;%s+0.5*lnL[k]-0.5*dim_d*log(2*pi)-0.5*sum(e;sum(d;(x[n,d]-mu[k,d])*C[k,d,e])**2))' % lp
    at2 = dict(at, _cholLambda=Sym('C', 'k', 'd', 'd'), _logLambda=Sym('lnL', 'k'))
    b = T.bench(pk, c, 'log_prob_std', dict(x=x), at2)
    T.check(b, None, 'n', std, **ld)
    b = T.bench(pk, c, 'log_prob', dict(x=x, u_x=None, mode='std'), at2, 'std')
    T.check(b, None, 'n', std, **ld)
    b = T.bench(pk, c, 'logLambda', {}, at)
    T.check(b, None, 'k', 'logdet(d,e;L[k,d,e])', **ld)
    b = T.bench(pk, c, 'cholLambda', {}, at)
    T.check(b, None, [('k', 'k'), ('d', 'd'), ('e', 'd')], 'cholL(d,e;L[k,d,e])[d,e]', **ld)
    b = T.bench(pk, c, 'Sigma', {}, at)
    T.check(b, None, [('k', 'k'), ('d', 'd'), ('e', 'd')], 'inv(d,e;L[k,d,e])[d,e]', **ld)
    b = T.bench(pk, c, 'compute_suff_stats', dict(x=x), at)
    T.check(b, (None, 0), 'nd', 'x[n,d]')
    T.check(b, (None, 1), [('n', 'n'), ('d', 'd'), ('e', 'd')], 'x[n,d]*x[n,e]')
    ml = dict(mu=at['mu'], Lambda=at['Lambda'])
    b = T.bench(pk, c, 'compute_eta', ml, {})
    T.check(b, (None, 0), 'kd', 'sum(e;L[k,d,e]*mu[k,e])', **ld)
    T.check(b, (None, 1), [('k', 'k'), ('d', 'd'), ('e', 'd')], '-L[k,d,e]+0.5*delta[d,e]*L[k,d,d]', **ld)
    b = T.bench(pk, c, 'compute_A_std', ml, {})
    T.check(b, None, 'k', '0.5*dim_d*log(2*pi)+0.5*sum(d,e;mu[k,d]*L[k,d,e]*mu[k,e])-0.5*logdet(d,e;L[k,d,e])', **ld)
    N_ = Sym('N', 'k', pos=True)
    st = Joined(Sym('F', 'k', 'd'), Sym('S', 'k', 'd', 'd', packed=1, sym=True))
    up = dict(at, update_mu=True, update_Lambda=False, update_pi=True, min_N=0, var_floor=Sym('vf', pos=True))
    b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), up)
    T.check(b, 'mu', 'kd', 'F[k,d]/N[k]')
    T.check(b, 'pi', 'k', 'N[k]/sum(k;N[k])')
    for tag, um in (('', True), ('means kept', False)):
        b = T.bench(pk, c, 'Mstep', dict(N=N_, u_x=st), dict(up, update_mu=um, update_Lambda=True, update_pi=False), 'covariances' if um else 'covariances, means kept')
        m_ = '(F[%s,%s]/N[%s])' if um else 'mu[%s,%s]'
        mm = lambda k, d: m_ % ((k, d, k) if um else (k, d))
        cv = lambda k: '(S[%s,d,e]/N[%s]-%s*F[%s,e]/N[%s]-F[%s,d]/N[%s]*%s+%s*%s)' % (k, k, mm(k, 'd'), k, k, k, k, mm(k, 'e'), mm(k, 'd'), mm(k, 'e'))
        T.check(b, 'Lambda', [('k', 'k'), ('g', 'd'), ('h', 'd')], 'inv(p,q;varfloor(d,e;pair(%s,vf*sum(j;%s)/dim_l))[p,q])[g,h]' % (cv('k'), cv('j')),
                dims=dict(dm, p='d', q='d', l='k'))
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=N_, u_x=st, return_order2=True), at2, 'second order')
    T.check(b, (1, 0), 'kd', 'sum(e;C[k,e,d]*(F[k,e]-N[k]*mu[k,e]))', **ld)
    T.check(b, (1, 1), [('k', 'k'), ('g', 'd'), ('h', 'd')],
            'sum(d,e;C[k,d,g]*(S[k,d,e]-mu[k,d]*F[k,e]-F[k,d]*mu[k,e]+N[k]*mu[k,d]*mu[k,e])*C[k,e,h])', **ld)
    b = T.bench(pk, c, 'norm_suff_stats', dict(N=N_, u_x=st, return_order2=False), at2)
    T.check(b, 1, 'kd', 'sum(e;C[k,e,d]*(F[k,e]-N[k]*mu[k,e]))', **ld)


def check(p, rep, tier):
    T = Table(p, rep)
    for f in (normal_diag, normal, gmm_diag, gmm_full):
        f(T)
    rep.require('model formulas', T.n, 20)
