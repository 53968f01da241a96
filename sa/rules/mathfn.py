"""C20: the shared numeric helpers compute what their names say."""
from .models import *
from ..project import probe

MOD = 'hyperion.utils.math'
SRC = '''
from hyperion.utils.math import *
from hyperion.utils.math import invert_pdmat, invert_trimat, vec2symmat, symmat2vec, trimat2vec, vec2trimat

def %s
'''


class MTable(Table):
    def __init__(self, p, rep):
        Table.__init__(self, p, rep)
        self.I.noinline -= set(NOINLINE)

    def probe(self, of, text, args, tag='', **kw):
        """text: name(args): return ..."""
        f = self.p.mods[MOD].funcs.get(of) if MOD in self.p.mods else None
        if f is None:
            return None
        g = probe(self.p, SRC % text)
        b = Bench(self.p, self.I, None, [x for x in g.values()][0], args, {}, **kw)
        b.construct = '%s%s' % (of, '(%s)' % tag if tag else '')
        b.where = '%s:%d' % (f.mod.rel, f.node.lineno)
        return b


SH = dict(dims={k: 'd' for k in 'defghi'}, dim_x='d')


def floor(T):
    """S floored by F: the eigenvalues of S in the metric of F brought up to one"""
    DM = {k: 'd' for k in 'abcdefghijkl'}
    S, F = Sym('S', 'd', 'd', sym=True), Sym('F', 'd', 'd', sym=True)
    dd = [('d', 'd'), ('e', 'd')]
    ld = dict(dims=DM)
    # C: upper Cholesky factor of the floor
    DM = {k: 'd' for k in 'abcdefghijklmpq'}
    Fm, f = Sym('F', 'd', 'd'), Sym('f', pos=True)
    G = lambda i, j: 'F[%s,%s]' % (i, j)
    Gt = lambda i, j: 'F[%s,%s]' % (j, i)

    def want(c, ic, S):
        t = 'sum(i,j;%s*%s*%s)' % (ic('i', 'k'), S('i', 'j'), ic('j', 'l')) if ic is not None else S('k', 'l') + '*f**-1' if c is None else ''
        if c is None:
            t = '%s/f' % S('k', 'l')
        sv = 'svds(k,l;%s)[m]' % t
        u = lambda x: 'svdU(k,l;%s)[%s,m]' % (t, x)
        mx = '(%s+(1-%s)*lt(%s,1))' % (sv, sv, sv)
        if c is None:
            return 'f*sum(m;%s*%s*%s)' % (u('d'), u('e'), mx)
        return 'sum(p,q,m;%s*%s*%s*%s*%s)' % (c('p', 'd'), u('p'), u('q'), c('q', 'e'), mx)

    inv = lambda c: lambda i, j: 'inv(a,b;%s)[%s,%s]' % (c('a', 'b'), i, j)
    cF = lambda i, j: 'cholU(a,b;F[a,b])[%s,%s]' % (i, j)
    icF = lambda i, j: 'inv(a,b;cholU(g,h;F[g,h])[a,b])[%s,%s]' % (i, j)
    S0 = lambda i, j: 'S[%s,%s]' % (i, j)
    what = 'F^T U max(D,1) U^T F for the eigenvalues D of the whitened covariance'
    for tag, text, args, c, ic in (
            ('matrix', 'f(S, F): return fullcov_varfloor(S, F)', dict(S=S, F=F), cF, icF),
            ('factor', 'f(S, F): return fullcov_varfloor(S, F, F_is_chol=True)', dict(S=S, F=Fm), G, inv(G)),
            ('lower factor', 'f(S, F): return fullcov_varfloor(S, F, F_is_chol=True, lower=True)', dict(S=S, F=Fm), Gt, inv(Gt)),
            ('number', 'f(S, F): return fullcov_varfloor(S, F)', dict(S=S, F=f), None, None)):
        b = T.probe('fullcov_varfloor', text, args, tag)
        T.check(b, None, dd, want(c, ic, S0), what, dims=DM)
    C = Sym('S', 'd', 'd')
    for tag, lower, args, c, SS in (
            ('upper', False, dict(S=C, F=Fm), G, lambda i, j: 'sum(r;S[r,%s]*S[r,%s])' % (i, j)),
            ('lower', True, dict(S=C, F=Fm), Gt, lambda i, j: 'sum(r;S[%s,r]*S[%s,r])' % (i, j)),
            ('upper, number', False, dict(S=C, F=f), None, lambda i, j: 'sum(r;S[r,%s]*S[r,%s])/f' % (i, j)),
            ('lower, number', True, dict(S=C, F=f), None, lambda i, j: 'sum(r;S[%s,r]*S[%s,r])/f' % (i, j))):
        b = T.probe('fullcov_varfloor_from_cholS', 'f(S, F): return fullcov_varfloor_from_cholS(S, F, lower=%s)' % lower, args, tag)
        w = want(c, inv(c) if c is not None else None, SS)
        if c is None:
            w = 'f*' + w
        T.check(b, None, dd, 'chol%s(d,e;%s)[d,e]' % ('L' if lower else 'U', w), 'the Cholesky factor of ' + what, dims=dict(DM, r='d'))


def triangles(T):
    A, S = Sym('A', 'd', 'd'), Sym('S', 'd', 'd', sym=True)
    dd = [('d', 'd'), ('e', 'd')]
    ld = dict(dims={k: 'd' for k in 'de'})
    for lower in (False, True):
        w = 'lower' if lower else 'upper'
        kind = 'tril' if lower else 'triu'
        s, d = ('A[d,e]', 'A[e,d]')
        if lower:
            s, d = d, s
        up = dict(up=lambda s, i: Eatom(('triu', 'd'), i), lo=lambda s, i: Eatom(('tril', 'd'), i))
        T_ = dict(ld, funcs=up)
        v = Sym('A', 'd', 'd', tri=kind)
        b = T.probe('vec2symmat', 'f(v): return vec2symmat(v, lower=%s)' % lower, dict(v=v), w)
        T.check(b, None, dd, 'up[d,e]*%s+(1-up[d,e])*%s' % (s, d), 'the symmetric matrix with the %s triangle given' % w, **T_)
        b = T.probe('vec2symmat', 'f(v, c): return vec2symmat(v, lower=%s, diag_factor=c)' % lower, dict(v=v, c=Sym('c')), w + ', scaled diagonal')
        T.check(b, None, dd, '(up[d,e]*%s+(1-up[d,e])*%s)*(1+delta[d,e]*(c-1))' % (s, d), 'the symmetric matrix with the %s triangle given and its diagonal scaled' % w, **T_)
        b = T.probe('vec2trimat', 'f(v): return vec2trimat(v, lower=%s)' % lower, dict(v=v), w)
        T.check(b, None, dd, '%s[d,e]*A[d,e]' % ('lo' if lower else 'up'), 'the %s triangular matrix with the triangle given' % w, **T_)
        b = T.probe('symmat2vec', 'f(A): return vec2symmat(symmat2vec(A, lower=%s), lower=%s)' % (lower, lower), dict(A=S), w)
        T.check(b, None, dd, 'S[d,e]', 'the matrix that was put in the vector', **T_)
        b = T.probe('symmat2vec', 'f(A, c): return vec2symmat(symmat2vec(A, lower=%s, diag_factor=c), lower=%s)' % (lower, lower), dict(A=S, c=Sym('c')), w + ', scaled diagonal')
        T.check(b, None, dd, 'S[d,e]*(1+delta[d,e]*(c-1))', 'the matrix that was put in the vector, with the diagonal scaled', **T_)
        b = T.probe('trimat2vec', 'f(A): return vec2trimat(trimat2vec(A, lower=%s), lower=%s)' % (lower, lower), dict(A=A), w)
        T.check(b, None, dd, '%s[d,e]*A[d,e]' % ('lo' if lower else 'up'), 'the %s triangle of the matrix that was put in the vector' % w, **T_)


def check(p, rep, tier):
    T = MTable(p, rep)
    DM = {k: 'd' for k in 'defgh'}
    ld = dict(dims=DM)
    A = Sym('A', 'd', 'd', sym=True)
    dd = [('d', 'd'), ('e', 'd')]
    v, V = Sym('v', 'd'), Sym('V', 'd', 'k')
    b = T.probe('logdet_pdmat', 'f(A): return logdet_pdmat(A)', dict(A=A))
    T.check(b, None, '', 'logdet(d,e;A[d,e])', **ld)
    b = T.probe('invert_pdmat', 'f(A, v): return invert_pdmat(A)[0](v)', dict(A=A, v=v), 'left, vector')
    T.check(b, None, 'd', 'sum(e;inv(f,g;A[f,g])[d,e]*v[e])', **ld)
    b = T.probe('invert_pdmat', 'f(A, v): return invert_pdmat(A)[0](v)', dict(A=A, v=V), 'left, matrix')
    T.check(b, None, 'dk', 'sum(e;inv(f,g;A[f,g])[d,e]*V[e,k])', **ld)
    b = T.probe('invert_pdmat', 'f(A, v): return invert_pdmat(A, right_inv=True)[0](v)', dict(A=A, v=Sym('V', 'k', 'd')), 'right, matrix')
    T.check(b, None, 'kd', 'sum(e;inv(f,g;A[f,g])[d,e]*V[k,e])', **ld)
    b = T.probe('invert_pdmat', 'f(A, v): return invert_pdmat(A, right_inv=True)[0](v)', dict(A=A, v=v), 'right, vector')
    T.check(b, None, 'd', 'sum(e;inv(f,g;A[f,g])[d,e]*v[e])', **ld)
    for r in (False, True):
        w = 'right' if r else 'left'
        for k, text, i in ((2, 'return_logdet=True, return_inv=True', 0), (3, 'return_logdet=True, return_inv=True', 1), (2, 'return_inv=True', 1), (2, 'return_logdet=True', 0)):
            b = T.probe('invert_pdmat', 'f(A): return invert_pdmat(A, right_inv=%s, %s)[%d]' % (r, text, k), dict(A=A), w + ', ' + text)
            if i:
                T.check(b, None, dd, 'inv(d,e;A[d,e])[d,e]', **ld)
            else:
                T.check(b, None, '', 'logdet(d,e;A[d,e])', **ld)
    tri = Sym('A', 'd', 'd')
    for lower in (False, True):
        w = 'lower' if lower else 'upper'
        b = T.probe('invert_trimat', 'f(A, v): return invert_trimat(A, lower=%s)(v)' % lower, dict(A=tri, v=V), w + ', left')
        T.check(b, None, 'dk', 'sum(e;inv(f,g;A[f,g])[d,e]*V[e,k])', **ld)
        b = T.probe('invert_trimat', 'f(A, v): return invert_trimat(A, lower=%s, right_inv=True)(v)' % lower, dict(A=tri, v=Sym('V', 'k', 'd')), w + ', right')
        T.check(b, None, 'kd', 'sum(e;inv(f,g;A[f,g])[e,d]*V[k,e])', **ld)
        for r in (False, True):
            t = 'lower=%s, right_inv=%s' % (lower, r)
            for k, text, i in ((1, 'return_logdet=True, return_inv=True', 0), (2, 'return_logdet=True, return_inv=True', 1), (1, 'return_inv=True', 1), (1, 'return_logdet=True', 0)):
                b = T.probe('invert_trimat', 'f(A): return invert_trimat(A, %s, %s)[%d]' % (t, text, k), dict(A=tri), '%s, %s' % (t, text))
                if i:
                    T.check(b, None, dd, 'inv(d,e;A[d,e])[d,e]', **ld)
                else:
                    T.check(b, None, '', 'sum(d;log(A[d,d]))', **ld)
    for dims in ('n', 'nd', 'ndc'):
        x = Sym('x', *dims)
        for ax in [None] + list(range(-len(dims), len(dims))):
            q = dims[-1 if ax is None else ax]
            o = dims.replace(q, 'e')
            DE = dict(dims={c: c for c in dims})
            DE['dims']['e'] = q
            at = '' if ax is None else ', axis=%d' % ax
            tag = '%d dimensions%s' % (len(dims), at)
            b = T.probe('softmax', 'f(x): return softmax(x%s)' % at, dict(x=x), tag)
            T.check(b, None, dims, 'exp(x[%s])/sum(e;exp(x[%s]))' % (','.join(dims), ','.join(o)), **DE)
            b = T.probe('logsumexp', 'f(x): return logsumexp(x%s)' % at, dict(x=x), tag)
            mx = 'max(e;x[%s])' % ','.join(o)
            xs = 'x[%s]' % ','.join(dims)
            T.check(b, None, dims.replace(q, ''), 'log(sum(%s;exp(%s)))' % (q, xs), alts=['log(sum(%s;exp(%s-%s))+1e-20)+%s' % (q, xs, mx, mx)], **DE)
    x = Sym('x', 'n')
    for nm, lo, hi in (('logsigmoid', 'x[n]', '-log(1+exp(-x[n]))'), ('neglogsigmoid', '-x[n]', 'log(1+exp(-x[n]))'), ('sigmoid', '0', '1/(1+exp(-x[n]))')):
        b = T.probe(nm, 'f(x): return %s(x)' % nm, dict(x=x))
        T.check(b, None, 'n', 'lt(x[n],-100)*%s+(1-lt(x[n],-100))*(%s)' % (lo, hi), hi + ', and its limit for very negative numbers', alts=[hi])
    m = [Sym('m1', 'd'), Sym('m2', 'd')]
    args = dict(m1=m[0], S1=Sym('P', 'd', 'd', sym=True), m2=m[1], S2=Sym('Q', 'd', 'd', sym=True))
    b = T.probe('fisher_ratio', 'f(m1, S1, m2, S2): return fisher_ratio(m1, S1, m2, S2)', args)
    T.check(b, None, '', 'sum(d,e;(m1[d]-m2[d])*inv(d,e;P[d,e]+Q[d,e])[d,e]*(m1[e]-m2[e]))', **ld)
    b = T.probe('fisher_ratio_with_precs', 'f(m1, S1, m2, S2): return fisher_ratio_with_precs(m1, S1, m2, S2)', args)
    T.check(b, None, '', 'sum(d,e;(m1[d]-m2[d])*inv(d,e;inv(f,g;P[f,g])[d,e]+inv(f,g;Q[f,g])[d,e])[d,e]*(m1[e]-m2[e]))', **ld)
    y = Sym('y', 'n', label=True)
    b = T.probe('int2onehot', 'f(y, k): return int2onehot(y, k)', dict(y=y, k=Dim('C')))
    T.check(b, None, 'nC', 'member[n,C]', 'one at the class of each element and zero elsewhere', funcs=dict(member=lambda s, i: ('ind', 'y') and Eatom(('ind', 'y'), i)))
    floor(T)
    triangles(T)
    rep.require('numeric helper formulas', T.n, 5)
