"""C11: score normalisation computes the documented statistic, per model or per test segment."""
from ..ir import *
from ..interp import Interp
from ..formula import *
from ..tensor import *

PK = 'hyperion.score_norm'


def get(p, name):
    c = [c for c in p.all_classes([PK]) if c.name == name]
    return c[0] if c else None


# statistics over the cohort, as text; {X}: scores, {M}: mask
def zstat(x, m, o, c, floor='F'):
    """(mean, std) of x[o,c] over c"""
    if m is None:
        mu = '(sum({c};{x})/dim_{d})'
        sd = 'sqrt(sum({c};{x}**2)/dim_{d}-{mu}**2)'
    else:
        mu = '(sum({c};{m}*{x})/sum({c};{m}))'
        sd = 'sqrt(sum({c};{m}*{x}**2)/sum({c};{m})-{mu}**2)'
    mu = mu.format(c=c, x=x, m=m, d=c)
    sd = sd.format(c=c, x=x, m=m, d=c, mu=mu)
    return mu, 'maximum(%s,%s)' % (sd, floor) if floor else sd


def norm(s, x, m, c):
    mu, sd = zstat(x, m, None, c)
    return '((%s-%s)/%s)' % (s, mu, sd)


def check(p, rep, tier):
    I = Interp(p)
    n = 0
    S = Sym('S', 'e', 't')
    floor = dict(std_floor=Sym('F', pos=True))
    lt = [('e', 'e'), ('t', 't')]

    def arg(f, names):
        """the parameter at a position, whatever it is called"""
        return names

    def run(cls, args, attrs, formula, what, **kw):
        c = get(p, cls)
        if c is None:
            return 0
        rep.unit('%s.predict(%s)' % (cls, what))
        b = Bench(p, I, c, 'predict', args, attrs)
        b.construct += '(%s)' % what
        b.iterms = kw.get('iterms')
        r = compare(rep, 'formula', b, None, lt, formula, kw.get('text'), dims=kw.get('dims'), iterms=kw.get('iterms'))
        return 1

    for masked in ((False, True) if tier != "dbg" else (True,)):
        w = 'masked' if masked else 'plain'

        def M(nm, *d):
            return Sym(nm, *d, bool=True) if masked else None

        n += run('TNorm', dict(scores=S, scores_coh_test=Sym('X', 'c', 't'), mask=M('M', 'c', 't')), floor,
                 norm('S[e,t]', 'X[c,t]', 'M[c,t]' if masked else None, 'c'), w,
                 text='(score - mean of the test segment over the cohort models)/max(std, std_floor)')
        n += run('ZNorm', dict(scores=S, scores_enr_coh=Sym('X', 'e', 'c'), mask=M('M', 'e', 'c')), floor,
                 norm('S[e,t]', 'X[e,c]', 'M[e,c]' if masked else None, 'c'), w,
                 text='(score - mean of the enrolled model over the cohort segments)/max(std, std_floor)')
        sub = dict(t_norm=Obj(get(p, 'TNorm'), **floor), z_norm=Obj(get(p, 'ZNorm'), **floor))
        mm = dict(mask_coh_test=M('MT', 'c', 't'), mask_enr_coh=M('ME', 'e', 'k'))
        zz = norm('S[e,t]', 'E[e,k]', 'ME[e,k]' if masked else None, 'k')
        tt = norm('S[e,t]', 'T[c,t]', 'MT[c,t]' if masked else None, 'c')
        n += run('SNorm', dict(scores=S, scores_coh_test=Sym('T', 'c', 't'), scores_enr_coh=Sym('E', 'e', 'k'), **mm), sub,
                 '(%s+%s)/sqrt(2)' % (zz, tt), w, text='(z-norm + t-norm)/sqrt(2)')
        cc = dict(scores_coh_coh=Sym('C', 'c', 'k'), mask_coh_coh=M('MC', 'c', 'k'))
        zc = norm('T[c,t]', 'C[c,k]', 'MC[c,k]' if masked else None, 'k')
        n += run('ZTNorm', dict(scores=S, scores_coh_test=Sym('T', 'c', 't'), scores_enr_coh=Sym('E', 'e', 'k'), **dict(mm, **cc)),
                 sub, norm(zz, zc, 'MT[c,t]' if masked else None, 'c'), w,
                 text='t-norm of the z-normalised scores with the z-normalised cohort-test scores')
        te = norm('E[e,k]', 'C[c,k]', 'MC[c,k]' if masked else None, 'c')
        n += run('TZNorm', dict(scores=S, scores_coh_test=Sym('T', 'c', 't'), scores_enr_coh=Sym('E', 'e', 'k'), **dict(mm, **cc)),
                 sub, norm(tt, te, 'ME[e,k]' if masked else None, 'k'), w,
                 text='z-norm of the t-normalised scores with the t-normalised enroll-cohort scores')
        # adaptive s-norm: the nbest cohort elements of each model and segment
        n += run('AdaptSNorm', dict(scores=S, scores_coh_test=Sym('T', 'c', 't'), scores_enr_coh=Sym('E', 'e', 'c'),
                                    mask_coh_test=M('MT', 'c', 't'), mask_enr_coh=M('ME', 'e', 'c')),
                 dict(floor, nbest=Sym('K', pos=True), nbest_discard=Sym('D')), adapt(masked), w, dims=dict(b=topdim),
                 iterms=dict(topT=top('MT[c,t]*T[c,t]' if masked else 'T[c,t]', 'c', 't'),
                             topE=top('ME[e,c]*E[e,c]' if masked else 'E[e,c]', 'c', 'e')),
                 text='(z + t)/sqrt(2) over the nbest cohort elements after the nbest_discard first, ranked per test segment (z) and per model (t)')
    # the floor the caller asks for is the floor every normaliser uses
    k = 0
    for cls in ('TNorm', 'ZNorm', 'SNorm', 'ZTNorm', 'TZNorm', 'AdaptSNorm'):
        c = get(p, cls)
        f = p.find_method(c, '__init__') if c is not None else None
        if f is None:
            continue
        v = mk('param', f.fq, 'std_floor?')
        given = mk('alloc', I.allocid(f.node, 'kw'), mk('dict', ((const('std_floor'), v),)))
        pos, va, kwo, kw = f.params()
        args = {kw: given} if kw else {}
        if 'std_floor' in pos + kwo:
            args = {'std_floor': v}
            if kw:
                args[kw] = mk('alloc', I.allocid(f.node, 'kw'), mk('dict', ()))
        r = I.run(f, c, args=args)
        h = r.state.heap
        o = h.get((r.selfnode, 'std_floor'))
        k += 1
        w = '%s:%d' % (f.mod.rel, f.node.lineno)
        if o is None:
            rep.undec('floor', '%s.__init__' % cls, 'std_floor is not set')
        elif o is not v:
            rep.violation('floor', '%s.__init__' % cls, 'std_floor=x makes the floor of the normaliser %s, not x' % show(o, 3), w)
        else:
            rep.discharged('floor', '%s.__init__' % cls, 'std_floor=x gives self.std_floor = x')
        for part in ('t_norm', 'z_norm'):
            q = h.get((r.selfnode, part))
            if q is None:
                continue
            o = h.get((q, 'std_floor'))
            if o is None:
                rep.undec('floor', '%s.__init__.%s' % (cls, part), 'std_floor is not set')
            elif o is not v:
                rep.violation('floor', '%s.__init__.%s' % (cls, part), 'std_floor=x makes its floor %s, not x' % show(o, 3), w)
            else:
                rep.discharged('floor', '%s.__init__.%s' % (cls, part), 'std_floor=x gives its std_floor = x')
    rep.require('normaliser constructors', k, 2)
    rep.require('score normalisation formulas', n, 3)


def topdim(sp):
    e = sp.parse('minimum(K,dim_c-D)', {})
    return sp.tr.asdim(e)


def top(text, c, o):
    """index of the b-th best element of the cohort for o, after the discarded ones"""
    def f(sp, b, oi):
        A = sp.A
        i = A.ix('c')
        e = sp.parse(text, {c: i, o: oi})
        h, rest, rev = sp.tr.argsort_head(e, i)
        d = 'c'
        x = b
        x = sp.tr.iterm(A.add(Eatom('ι', (x,)), Eatom('D')))
        if not rev:
            x = ('at', ('rev', d), (x,))
        return ('at', h, (x,) + rest)
    return f


def adapt(masked):
    z = norm('S[e,t]', '(%sE[e,topT(b,t)])' % ('ME[e,topT(b,t)]*' if masked else ''), 'ME[e,topT(b,t)]' if masked else None, 'b')
    t = norm('S[e,t]', '(%sT[topE(b,e),t])' % ('MT[topE(b,e),t]*' if masked else ''), 'MT[topE(b,e),t]' if masked else None, 'b')
    return '(%s+%s)/sqrt(2)' % (z, t)
