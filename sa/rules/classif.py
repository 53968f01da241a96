"""C21: back-end classifiers and calibration score and learn their models."""
from .mathfn import *
from .metrics import SIG

CK = 'hyperion.classifiers'

def onehot(tr, args):
    """rows with a one at the class of each element (C20)"""
    t = tr.array(args[0])
    f = tr.single(t.e)
    if f is None or f[0] not in tr.labels or len(t.axes) != 1:
        raise Undec('one-hot codes of unknown labels')
    d = tr.asdim(tr.scalar(args[1]))
    k = tr.A.ix(d)
    h = ('ind', f[0])
    tr.A.H.bool.add(h)
    return Ten([t.axes[0], k], Eatom(h, (t.axes[0], k)))


ONE = {'hyperion.utils.math:int2onehot': onehot}
MODELS = dict(SIG, **ONE)


class CTable(Table):
    def __init__(self, p, rep):
        Table.__init__(self, p, rep)
        self.I.noinline |= set(MODELS)

    def b(self, cls, meth, args, attrs, tag='', **kw):
        return self.bench(CK, cls, meth, args, attrs, tag, models=MODELS, **kw)


DM = {k: 'd' for k in 'defgh'}


def gbe(T):
    c = 'LinearGBE'
    x = Sym('x', 'n', 'd')
    mu, W = Sym('mu', 'c', 'd'), Sym('W', 'd', 'd', sym=True)
    beta, nu = Sym('beta', 'c', pos=True), Sym('nu', pos=True)
    base = dict(update_mu=True, update_W=True, x_dim=Dim('d'), num_classes=Dim('c'), balance_class_weight=False, prior=None, prior_beta=None, prior_nu=None,
                post_beta=None, post_nu=None)
    A, B = Sym('A', 'd', 'c'), Sym('b', 'c')
    at = dict(base, mu=mu, W=W, A=A, b=B, beta=beta, nu=nu)
    ld = dict(dims=DM)
    b = T.b(c, '_compute_Ab', {}, at)
    T.check(b, 'A', 'dc', 'sum(e;W[d,e]*mu[c,e])', **ld)
    T.check(b, 'b', 'c', '-0.5*sum(d,e;mu[c,d]*W[d,e]*mu[c,e])', **ld)
    lin = 'sum(d;x[n,d]*A[d,c])+b[c]'
    llk = lin + '+0.5*logdet(d,e;W[d,e])-0.5*dim_d*log(2*pi)-0.5*sum(d,e;x[n,d]*W[d,e]*x[n,e])'
    b = T.b(c, 'eval_linear', dict(x=x), at)
    T.check(b, None, 'nc', lin, **ld)
    b = T.b(c, 'eval_llk', dict(x=x), at)
    T.check(b, None, 'nc', llk, **ld)
    r = '(beta[c]/(beta[c]+1))'
    cc = '(nu+1-dim_d)'
    q = '(sum(d,e;x[n,d]*W[d,e]*x[n,e])-2*(%s))' % lin
    pred = ('gammaln((%s+dim_d)/2)-gammaln(%s/2)-0.5*dim_d*log(%s*pi)+0.5*logdet(d,e;W[d,e]/nu)+0.5*dim_d*log(%s*%s)'
            '-0.5*(%s+dim_d)*log(1+%s*%s/nu)' % (cc, cc, cc, cc, r, cc, r, q))
    b = T.b(c, 'eval_predictive', dict(x=x), at)
    T.check(b, None, 'nc', pred, 'the Student t density of the posterior predictive', **ld)
    for m, f in (('linear', lin), ('llk', llk), ('predictive', pred)):
        b = T.b(c, 'predict', dict(x=x, eval_method=m, normalize=False), at, m)
        T.check(b, None, 'nc', f, **ld)
    b = T.b(c, 'predict', dict(x=x, eval_method='linear', normalize=True), at, 'normalised')
    T.check(b, None, 'nc', '%s-lse(k;%s)' % (lin, lin.replace('c]', 'k]')), dims=dict(DM, k='c', c='c'))


def gbefit(T):
    c = 'LinearGBE'
    x = Sym('x', 'n', 'd')
    y = Sym('y', 'n', label=True)
    base = dict(update_mu=True, update_W=True, x_dim=1, num_classes=Dim('c'), balance_class_weight=False, prior=None, prior_beta=None, prior_nu=None,
                post_beta=None, post_nu=None, A=None, b=None, mu=None, W=None, beta=None, nu=None)
    ld = dict(dims=DM)
    prior = Obj(T.cls(CK, c), mu=Sym('mu0', 'c', 'd'), W=Sym('W0', 'd', 'd', sym=True), beta=Sym('b0', 'c', pos=True), nu=Sym('n0', pos=True))
    for tag, args, r in (('responsibilities', dict(class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=None), 'p[n,c]'),
                         ('labels', dict(class_ids=y, p_theta=None, sample_weight=None), 'member[n,c]'),
                         ('weighted', dict(class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=Sym('w', 'n')), 'w[n]*p[n,c]')):
        for map_ in (False, True):
            for um in (True, False):
                for bal in (False, True):
                    w = ', '.join([tag] + ['MAP'] * map_ + ['means kept'] * (not um) + ['balanced'] * bal)
                    at = dict(base, balance_class_weight=bal, update_mu=um, prior=prior if map_ else None, mu=None if um else Sym('mu', 'c', 'd'), beta=None if um else Sym('bt', 'c'))
                    b = T.b(c, 'fit', dict(args, x=x), at, w, several='cnd')
                    N = 'sum(n;%s)' % r
                    xb = '(sum(n;%s*x[n,d])/%s)' % (r, N) if um else 'mu[c,d]'
                    N2 = N.replace('n;', 'm;').replace('[n', '[m')
                    fn = dict(funcs=dict(member=lambda s, i: Eatom(('ind', 'y'), i)), dims=dict(DM, n='n', m='n', c='c', k='c', l='n'))
                    al = '(%s/(%s+b0[c]))' % (N2, N2)
                    if um:
                        T.check(b, 'mu', 'cd', '(1-%s)*mu0[c,d]+%s*%s' % (al, al, xb) if map_ else xb, **fn)
                        T.check(b, 'beta', 'c', N2 + ('+b0[c]' if map_ else ''), **fn)
                    xe = xb.replace('d]', 'e]').replace('n;', 'l;').replace('[n', '[l')
                    xd = xb.replace('n;', 'l;').replace('[n', '[l')
                    S = 'sum(n;%s*(x[n,d]-%s)*(x[n,e]-%s))' % (r, xd, xe)
                    if map_ and um:
                        S = '(%s+%s*(1-%s)*(%s-mu0[c,d])*(%s-mu0[c,e]))' % (S, N2, al, xd, xe)
                    n0 = 'n0' if map_ else '0'
                    S0 = 'inv(f,g;W0[f,g])[d,e]'
                    if bal:
                        den = '(%s+n0/dim_c)' % N2 if map_ else N2
                        tot = 'sum(c;%s/%s)' % (S, den)
                        if map_:
                            tot = '((dim_c-sum(c;%s/%s))*%s+%s)' % (N2, den, S0, tot)
                        tot += '/dim_c'
                    else:
                        tot = 'sum(c;%s)' % S
                        if map_:
                            tot = '(n0*%s+%s)' % (S0, tot)
                        tot += '/sum(c;%s)' % N2 if not map_ else '/(n0+sum(c;%s))' % N2
                    T.check(b, 'W', [('d', 'd'), ('e', 'd')], 'inv(d,e;%s)[d,e]' % tot, **fn)
                    T.check(b, 'nu', '', 'sum(c;%s)' % N2 + ('+n0' if map_ else ''), **fn)


def gbepost(T):
    """the relevance factors given by the user replace those of the prior and of the posterior"""
    c = 'LinearGBE'
    base = dict(update_mu=True, update_W=False, x_dim=1, num_classes=Dim('c'), balance_class_weight=False, prior_beta=Sym('pb', pos=True), prior_nu=Sym('pn', pos=True),
                post_beta=Sym('qb', pos=True), post_nu=Sym('qn', pos=True), A=None, b=None, mu=None, W=Sym('W', 'd', 'd', sym=True), beta=None, nu=Sym('nu', pos=True))
    prior = Obj(T.cls(CK, c), mu=Sym('mu0', 'c', 'd'), W=Sym('W0', 'd', 'd', sym=True), beta=Sym('b0', 'c', pos=True), nu=Sym('n0', pos=True))
    for cn in ('LinearGBE', 'LinearGBEUP'):
        x = Sym('x', 'n', 'd')
        if cn == 'LinearGBEUP':
            x = Joined(x, Sym('v', 'n', 'd', pos=True))
        b = T.b(cn, 'fit', dict(x=x, class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=None), dict(base, prior=prior), 'relevance factors', several='cnd')
        ld = dict(dims=dict(DM, n='n', m='n', c='c'))
        al = '(sum(m;p[m,c])/(sum(m;p[m,c])+pb))'
        T.check(b, 'mu', 'cd', '(1-%s)*mu0[c,d]+%s*sum(n;p[n,c]*x[n,d])/sum(m;p[m,c])' % (al, al), **ld)
        T.check(b, 'beta', [('c', 'c')], 'qb', **ld)
        T.check(b, 'nu', '', 'dim_c*qn', **ld)
        b = T.b(cn, 'fit', dict(x=x, class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=None), dict(base, prior=None, post_beta=None, post_nu=None), 'maximum likelihood', several='cnd')
        T.check(b, 'mu', 'cd', 'sum(n;p[n,c]*x[n,d])/sum(m;p[m,c])', **ld)
        T.check(b, 'beta', 'c', 'sum(m;p[m,c])', **ld)


def gbeprior(T):
    """the degrees of freedom given by the user replace those of the prior"""
    c = 'LinearGBE'
    at = dict(update_mu=False, update_W=True, x_dim=1, num_classes=Dim('c'), balance_class_weight=False, prior_beta=None, prior_nu=Sym('pn', pos=True),
              post_beta=None, post_nu=None, A=None, b=None, mu=Sym('mu', 'c', 'd'), W=None, beta=None, nu=None,
              prior=Obj(T.cls(CK, c), mu=Sym('mu0', 'c', 'd'), W=Sym('W0', 'd', 'd', sym=True), beta=Sym('b0', 'c', pos=True), nu=Sym('n0', pos=True)))
    b = T.b(c, 'fit', dict(x=Sym('x', 'n', 'd'), class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=None), at, 'prior degrees of freedom', several='cnd')
    ld = dict(dims=dict(DM, n='n', c='c'))
    T.check(b, 'nu', '', 'sum(n,c;p[n,c])+dim_c*pn', **ld)
    T.check(b, 'W', [('d', 'd'), ('e', 'd')], 'inv(d,e;(dim_c*pn*inv(f,g;W0[f,g])[d,e]+sum(n,c;p[n,c]*(x[n,d]-mu[c,d])*(x[n,e]-mu[c,e])))/(dim_c*pn+sum(n,c;p[n,c])))[d,e]', **ld)


def gbeup(T):
    c = 'LinearGBEUP'
    at = dict(update_mu=True, update_W=True, x_dim=Dim('d'), num_classes=Dim('c'), balance_class_weight=False, prior=None, prior_beta=None, prior_nu=None,
              post_beta=None, post_nu=None, mu=Sym('mu', 'c', 'd'), W=Sym('W', 'd', 'd', sym=True), A=Sym('A', 'd', 'c'), b=Sym('b', 'c'), beta=None, nu=None)
    x = Joined(Sym('x', 'n', 'd'), Sym('v', 'n', 'd', pos=True))
    V = 'inv(f,g;inv(h,i;W[h,i])[f,g]+delta[f,g]*v[n,f])'
    form = 'sum(d,e;x[n,d]*%s[d,e]*mu[c,e])-0.5*sum(d,e;mu[c,d]*%s[d,e]*mu[c,e])' % (V, V)
    b = T.b(c, 'eval_linear', dict(x=x), at)
    T.check(b, None, 'nc', form, 'linear score with the class covariance plus the covariance of the embedding', dims=dict(DM, i='d'))
    b = T.b(c, 'predict', dict(x=x, eval_method='linear', normalize=False), at)
    T.check(b, None, 'nc', form, dims=dict(DM, i='d'))


def qscoring(T):
    c = 'QScoringHomoGBE'
    x = Joined(Sym('x', 'n', 'd'), Sym('v', 'n', 'd', pos=True))
    mu, W = Sym('mu', 'c', 'd'), Sym('W', 'd', pos=True)
    base = dict(mu=None, W=None, N=None, balance_class_weight=True, prior=None, prior_N=None, post_N=None)
    ld = dict(dims=dict(n='n', m='n', c='c', d='d', k='c'))
    L = '(1/v[n,d]+W[d]-1)'
    et, ee = '(x[n,d]/v[n,d])', '(mu[c,d]*W[d])'
    f = ('0.5*(-sum(d;log({L}))+2*sum(d;{t}/{L}*{e})+sum(d;log(W[d]))+sum(d;{e}**2*(1/{L}-1/W[d]))'
         '+sum(d;log(1/v[n,d]))+sum(d;{t}**2*(1/{L}-v[n,d])))').format(L=L, t=et, e=ee)
    at = dict(base, mu=mu, W=W, N=Sym('N', 'c', pos=True))
    b = T.b(c, 'predict', dict(x=x, normalize=False), at)
    T.check(b, None, 'nc', f, 'the ratio of the joint evidence of the test embedding and the class to the product of their evidences', **ld)
    b = T.b(c, 'predict', dict(x=x, normalize=True), at, 'normalised')
    T.check(b, None, 'nc', '%s-lse(k;%s)' % (f, f.replace('[c,', '[k,')), **ld)
    y = Sym('y', 'n', label=True)
    prior = Obj(T.cls(CK, c), mu=Sym('mu0', 'c', 'd'), W=Sym('W0', 'd', pos=True), N=Sym('N0', 'c', pos=True))
    fn = dict(funcs=dict(member=lambda s, i: Eatom(('ind', 'y'), i)), **ld)
    for tag, args, r in (('responsibilities', dict(class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=None), 'p[n,c]'),
                         ('labels', dict(class_ids=y, p_theta=None, sample_weight=None), 'member[n,c]'),
                         ('weighted', dict(class_ids=None, p_theta=Sym('p', 'n', 'c'), sample_weight=Sym('w', 'n')), 'w[n]*p[n,c]')):
        for map_ in ('', 'MAP', 'MAP with a relevance factor'):
            for post in (False, True):
                # with an initialised model the number of classes is known
                w = ', '.join([tag] + [map_] * bool(map_) + ['new counts'] * post)
                at = dict(base, mu=Sym('mu', 'c', 'd'), prior=prior if map_ else None, prior_N=Sym('pN', pos=True) if 'with' in map_ else None, post_N=Sym('qN', pos=True) if post else None)
                b = T.b(c, 'fit', dict(args, x=x), at, w, several='cnd')
                W0 = '(W0[d]-1)'
                N0 = 'N0[c]'
                if 'with' in map_:
                    W0 = '(pN*dim_c/sum(k;N0[k])*(W0[d]-1))'
                    N0 = 'pN'
                eta = 'sum(n;%s*x[n,d]/v[n,d])' % r
                pm1 = 'sum(n;%s*(1/v[n,d]-1))' % r
                N = 'sum(n;%s)' % r
                if map_:
                    eta = '(%s+(1+%s)*mu0[c,d])' % (eta, W0)
                    pm1 = '(%s+%s)' % (pm1, W0)
                    N = '(%s+%s)' % (N, N0)
                T.check(b, 'mu', 'cd', '(%s)/(1+%s)' % (eta, pm1), **fn)
                Wm1 = 'sum(c;%s)/dim_c' % pm1
                if post:
                    T.check(b, 'N', [('c', 'c')], 'qN', **fn)
                    T.check(b, 'W', 'd', '1+qN*dim_c/sum(c;%s)*(%s)' % (N, Wm1), **fn)
                else:
                    T.check(b, 'N', 'c', N, **fn)
                    T.check(b, 'W', 'd', '1+%s' % Wm1, **fn)


def discriminative(T):
    x = Sym('x', 'n', 'd')
    lr = dict(use_bias=True, bias_scaling=1, priors=None, lambda_reg=1, multi_class='multinomial', lr=Obj(None, coef_=Sym('A', 'c', 'd'), intercept_=Sym('b', 'c')))
    ld = dict(dims=dict(n='n', d='d', c='c', k='c'))
    lin = '(sum(d;x[n,d]*A[c,d])+b[c])'
    link = lin.replace('c', 'k')
    c = 'LogisticRegression'
    b = T.b(c, 'predict', dict(x=x, eval_type='logit'), lr)
    T.check(b, None, 'nc', lin, **ld)
    b = T.b(c, 'predict', dict(x=x, eval_type='post'), lr, 'post')
    T.check(b, None, 'nc', 'exp(%s-lse(k;%s))' % (lin, link), **ld)
    b = T.b(c, 'predict', dict(x=x, eval_type='log-post'), lr, 'log-post')
    T.check(b, None, 'nc', 'log(exp(%s-lse(k;%s))+1e-10)' % (lin, link), **ld)
    c = 'LinearSVMC'
    sv = dict(use_bias=True, bias_scaling=Sym('s', pos=True), balance_class_weight=True, svm=Obj(None, coef_=Sym('A', 'c', 'd'), intercept_=Sym('b', 'c')))
    lin = '(sum(d;x[n,d]*A[c,d])+s*b[c])'
    link = lin.replace('c', 'k')
    for et, f in (('logit', lin), ('bin-logpost', '-log(1+exp(-%s))' % lin), ('bin-post', '1/(1+exp(-%s))' % lin), ('cat-post', 'exp(%s-lse(k;%s))' % (lin, link)),
                  ('cat-logpost', '%s-lse(k;%s)' % (lin, link))):
        b = T.b(c, 'predict', dict(x=x, eval_type=et), sv, et)
        T.check(b, None, 'nc', f, **ld)
    c = 'BinaryLogisticRegression'
    q = Sym('q', pos=True)
    at = dict(lr, priors=[Sym('q0', pos=True), q], lr=Obj(None, coef_=Sym('A', 1, 'd'), intercept_=Sym('b', 1)), multi_class='ovr')
    lin = '(sum(d;x[n,d]*A[d])+b)'
    for et, f in (('logit', lin), ('post', '1/(1+exp(-%s-log(q/(1-q))))' % lin), ('log-post', '-log(1+exp(-%s-log(q/(1-q))))' % lin)):
        b = T.b(c, 'predict', dict(x=x, eval_type=et), at, et)
        T.check(b, None, 'n', f, **ld)


def calibration(T):
    pk = 'hyperion.calibration'
    c = 'GaussCalibration'
    at = dict(mu1=Sym('m1'), mu2=Sym('m2'), sigma2=Sym('s2', pos=True), prior=Sym('pi', pos=True), a=Sym('A'), b=Sym('B'))
    b = T.bench(pk, c, 'predict', dict(x=Sym('x', 'n')), at)
    T.check(b, None, 'n', 'A*x[n]+B')
    b = T.bench(pk, c, '_compute_scale_bias', {}, at)
    T.check(b, 'a', '', '(m1-m2)/s2')
    T.check(b, 'b', '', '0.5*(m2**2-m1**2)/s2')
    # y: one for target trials, zero for the others
    t, o = 'eq(y[n],1)', 'eq(y[n],0)'
    for tag, w in (('', None), ('weighted', Sym('w', 'n', pos=True))):
        b = T.bench(pk, c, 'fit', dict(x=Sym('x', 'n'), y=Sym('y', 'n'), sample_weight=w), dict(at, mu1=None, mu2=None, sigma2=None, a=None, b=None), tag, several='n')
        W = 'w[n]*' if w else ''
        m1, m2 = ('(sum(n;%s%s*x[n])/sum(n;%s%s))' % (W, q, W, q) for q in (t, o))
        T.check(b, 'mu1', '', m1)
        T.check(b, 'mu2', '', m2)
        k1, k2 = (q.replace('[n]', '[k]').replace('(n;', '(k;') for q in (m1, m2))
        den = 'sum(n;w[n])' if w else 'dim_n'
        s2 = '(sum(n;%s%s*(x[n]-%s)**2)+sum(n;%s%s*(x[n]-%s)**2))/%s' % (W, t, k1, W, o, k2, den)
        dd = dict(dims=dict(n='n', k='n'))
        T.check(b, 'sigma2', '', s2, **dd)
        T.check(b, 'prior', '', 'sum(n;%s%s)/%s' % (W, t, den))
        if w is None:
            T.check(b, 'a', '', '(%s-%s)/(%s)' % (m1, m2, s2), **dd)


def check(p, rep, tier):
    T = CTable(p, rep)
    for f in (gbe, gbefit, gbepost, gbeprior, gbeup, qscoring, discriminative, calibration):
        f(T)
    rep.require('classifier formulas', T.n, 3)
