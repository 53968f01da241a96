"""C22: framing, short-time transforms and frame selection take the samples they stand for."""
from .models import *
from ..project import probe

ST = 'hyperion.feats.stft'


class FTable(Table):
    def func(self, mod, name, args, tag='', **kw):
        m = self.p.mods.get(mod)
        f = m.funcs.get(name) if m is not None else None
        if f is None:
            return None
        b = Bench(self.p, self.I, None, f, args, {}, **kw)
        b.construct = '%s%s' % (name, '(%s)' % tag if tag else '')
        return b


    def field(self, b, nm, letters, formula, **kw):
        """an attribute the constructor has to set"""
        if b is not None and (b.selfnode, nm) not in b.run.state.heap and not any(e.kind in ('call', 'icall') and 'setattr' in str(e.target) for e in b.run.events):
            self.n += 1
            self.rep.violation('formula', '%s[%s]' % (b.construct, nm), 'the constructor does not set it', b.where)
            return False
        return self.check(b, nm, letters, formula, **kw)


NF = '=pos(floor((dim_n-dim_l)/dim_s)+1)'


def stft(T):
    x, w = Sym('x', 'n'), Sym('w', 'l')
    L, S, N = Dim('l'), Dim('s'), Dim('N')
    dd = dict(dims=dict(i=NF, l='l'))
    for tag, win, f in (('', w, '*w[l]'), ('no window', None, '')):
        a = dict(x=x, frame_length=L, frame_shift=S, fft_length=N, window=win)
        for fn, d in (('stft', 'N'), ('strft', '=floor(dim_N/2)+1')):
            h = dict(stft='fft', strft='rfft')[fn]

            def dft(s, ids, h=h):
                return Eatom((h, s.A.key(s.tr.dimexpr('N'))[0]), ids)
            b = T.func(ST, fn, a, tag)
            T.check(b, None, [('i', NF), ('k', d)], 'sum(l;x[i*dim_s+l]%s*W[l,k])' % f, 'the DFT of the samples i*shift...i*shift+length-1%s' % (' times the window' if win else ''),
                    funcs=dict(W=dft), **dd)
    b = T.func(ST, 'st_logE', dict(x=x, frame_length=L, frame_shift=S))
    T.check(b, None, [('i', NF)], 'log(sum(l;x[i*dim_s+l]**2)+1e-15)', **dd)
    X = Sym('X', 'f', 'k')
    for tag, win, f in (('', w, 'w[l]'), ('no window', None, '1')):
        for fn, h in (('istft', 'ifft'), ('istrft', 'irfft')):
            def dft(s, ids, h=h):
                K = s.tr.dimexpr('k')
                return Eatom((h, s.A.key(K if h == 'ifft' else s.A.scale(s.A.add(K, E1(), -1), 2))[0]), ids)
            b = T.func(ST, fn, dict(X=X, frame_length=L, frame_shift=S, window=win), tag)
            num = 'sum(f,l;delta[t,f*dim_s+l]*sum(k;X[f,k]*W[k,0+l]))'
            den = 'sum(f,l;delta[t,f*dim_s+l]*%s)' % f
            T.check(b, None, [('t', '=(dim_f-1)*dim_s+dim_l')], '%s/(%s*(1-eq(%s,0))+eq(%s,0))' % (num, den, den, den), 'the sum of the overlapping frames over the sum of the overlapping windows',
                    funcs=dict(W=dft), dims=dict(f='f', l='l', k='k'))


def framing(T):
    x1, x2 = Sym('x', 'n'), Sym('x', 'n', 'd')
    at = dict(frame_length=Dim('l'), frame_shift=Dim('s'), pad_mode=None, pad_width=None, pad_kwargs=None)
    b = T.bench('hyperion.utils', 'Framing', 'create_frames', dict(x=x1), at, '1D')
    T.check(b, None, [('i', NF), ('l', 'l')], 'x[i*dim_s+l]', 'samples i*shift...i*shift+length-1')
    b = T.bench('hyperion.utils', 'Framing', 'create_frames', dict(x=x2), at, '2D')
    T.check(b, None, [('i', NF), ('j', '=dim_l*dim_d')], 'x[i*dim_s+floor(j/dim_d),j-dim_d*floor(j/dim_d)]', 'rows i*shift...i*shift+length-1, one after the other')
    for pat in (None, True):
        at = dict(left_context=Dim('a'), right_context=Dim('b'), frame_shift=Dim('s'), splice_pattern=None, pad_mode=None, pad_width=None, pad_kwargs=None)
        ns = '=pos(floor((dim_n-dim_a-dim_b-1)/dim_s)+1)'
        if pat:
            at['splice_pattern'] = Sym('p', 'q')
            b = T.bench('hyperion.utils', 'Splicing', 'splice', dict(x=x2), at, 'pattern')
            T.check(b, None, [('i', ns), ('j', '=dim_q*dim_d')], 'x[i*dim_s+p[floor(j/dim_d)+0],j-dim_d*floor(j/dim_d)]')
        else:
            b = T.bench('hyperion.utils', 'Splicing', 'splice', dict(x=x2), at)
            T.check(b, None, [('i', ns), ('j', '=(dim_a+dim_b+1)*dim_d')], 'x[i*dim_s+floor(j/dim_d),j-dim_d*floor(j/dim_d)]')


FB = 'hyperion.feats'


def windows(T):
    for w, f in (('povey', '(0.5-0.5*cos(2*pi*pos(k+0)/dim_n))**0.85'), ('rectangular', '1'),
                 ('hamming', '0.54-0.46*cos(2*pi*pos(k+0)/%s)'), ('hanning', '0.5-0.5*cos(2*pi*pos(k+0)/%s)'),
                 ('blackman', '0.42-0.5*cos(2*pi*pos(k+0)/%s)+0.08*cos(4*pi*pos(k+0)/%s)')):
        for sym in (False, True):
            if sym and '%s' not in f:
                continue
            b = T.bench(FB, 'FeatureWindowFactory', 'create', dict(window_type=w, N=Dim('n'), sym=sym), {}, w + (' symmetric' if sym else ''))
            T.check(b, None, [('k', 'n')], f.replace('%s', '(dim_n-1)' if sym else 'dim_n'))
    b = T.bench(FB, 'MFCC', 'make_lifter', dict(N=Dim('c'), Q=Sym('q', pos=True)), {})
    T.check(b, None, [('c', 'c')], '1+0.5*q*sin(pi*pos(c+0)/q)')


def lf(num, den):
    """the linear filter with coefficients of the given names (None: [1])"""
    def k(s, d, n):
        a = s.A.ix(d)
        return (d,), s.A.keyin(Eatom(n, (a,)), (a,))

    def heads(s):
        return k(s, *num), k(s, *den) if den else ((1,), s.A.key(E1())[0])
    return (lambda s, ids: Eatom(('lfilter',) + heads(s), ids)), (lambda s, ids: Eatom(('lfilter0',) + heads(s), ids))


def padded(lo):
    """a position in the signal extended by reflection, lo samples at the start"""
    return lambda s, t: ('at', ('pad', 'reflect', 'n', s.A.key(s.parse(lo, {}))[0]), (t,))


LO = 'floor((dim_l-dim_s)/2)'
NR = '=round(dim_n/dim_s)'
LEN = '=(round(dim_n/dim_s)-1)*dim_s+dim_l'


def front(T):
    """the waveform as MFCC and EnergyVAD see it: padded, dithered, filtered; and the VAD decision"""
    base = dict(preemph_coeff=0, dither=0, snip_edges=True, remove_dc_offset=False, _length=Dim('l'), _shift=Dim('s'), fft_length=Dim('N'), _window=Sym('w', 'l'),
                _fb=Sym('fb', 'k', 'm'), cepstral_lifter=22, _lifter=Sym('lif', 'c'), num_ceps=Dim('c'), use_energy=False, energy_floor=Sym('ef', pos=True), raw_energy=True,
                use_fft2=False, _input_step=0, _output_step=2, _dc_a=Sym('da', 'q'), _dc_b=Sym('db', 'q'), _dc_zi=Sym('dz', 'z'), _preemph_b=Sym('pb', 'q'), _preemph_zi=Sym('pz', 'z'))
    NK = '=floor(dim_N/2)+1'

    def dft(s, ids):
        return Eatom(('rfft', s.A.key(s.tr.dimexpr('N'))[0]), ids)
    G, G0 = lf(('q', 'db'), ('q', 'da'))
    P, P0 = lf(('q', 'pb'), None)
    fn = dict(W=dft, G=G, G0=G0, P=P, P0=P0)
    no = dict(return_fft=False, return_fft_mag=False, return_logfb=False)
    dc = '(sum(u;%s*G[u,%s])+sum(z;dz[z]*G0[z,%s]))'
    for tag, at, sig in (('reflected edges', dict(snip_edges=False), 'x[P(i*dim_s+l)]'),
                         ('dithered', dict(dither=Sym('dt', pos=True)), '(x[i*dim_s+l]+dt*gauss_n[i*dim_s+l])'),
                         ('dc filter', dict(remove_dc_offset=True), dc % ('x[u]', 'i*dim_s+l', 'i*dim_s+l')),
                         ('preemphasis', dict(preemph_coeff=Sym('pc', pos=True)), '(sum(n;x[n]*P[n,i*dim_s+l])+sum(z;pz[z]*P0[z,i*dim_s+l]))'),
                         ('dither, dc filter and preemphasis', dict(preemph_coeff=Sym('pc', pos=True), dither=Sym('dt', pos=True), remove_dc_offset=True),
                          '(sum(t;%s*P[t,i*dim_s+l])+sum(z;pz[z]*P0[z,i*dim_s+l]))' % (dc % ('(x[u]+dt*gauss_n[u])', 't', 't')))):
        refl = 'snip_edges' in at
        ni = NR if refl else NF
        b = T.bench(FB, 'MFCC', 'compute', dict(no, x=Sym('x', 'n')), dict(base, **at), tag)
        T.check(b, None, [('i', ni), ('k', NK)], 'abs(sum(l;%s*w[l]*W[l,k]))' % sig, 'spectrum of the %s signal' % tag, funcs=fn, iterms=dict(P=padded(LO)) if refl else {},
                dims=dict(l='l', i=ni, u='n', n='n', t='n', z='z', k=NK))
    vad = dict(dither=0, snip_edges=True, _length=Dim('l'), _shift=Dim('s'), _dc_a=Sym('da', 'q'), _dc_b=Sym('db', 'q'), _dc_zi=Sym('dz', 'z'), vad_frames_context=0,
               vad_energy_threshold=Sym('th'), vad_energy_mean_scale=Sym('sc'), vad_proportion_threshold=Sym('pt'))
    for tag, at, sig in (('', {}, 'x[u]'), ('dithered', dict(dither=Sym('dt', pos=True)), '(x[u]+dt*gauss_n[u])'), ('reflected edges', dict(snip_edges=False), 'x[P(u)]')):
        refl = 'snip_edges' in at
        ni = NR if refl else NF
        dd = dict(dims=dict(l='l', i=ni, j=ni, u=LEN if refl else 'n', z='z'), funcs=fn, iterms=dict(P=padded(LO)) if refl else {})
        b = T.bench(FB, 'EnergyVAD', 'compute', dict(x=Sym('x', 'n'), return_loge=False), dict(vad, **at), tag)
        e = 'log(sum(l;%s**2)+1e-15)' % (dc % (sig, '%s*dim_s+l', '%s*dim_s+l'))
        T.check(b, None, [('i', ni)], 'lt(th+sc*sum(j;%s)/%s,%s)' % (e % ('j', 'j'), ni[1:], e % ('i', 'i')), 'frames whose log-energy exceeds threshold + scale * mean', **dd)
    b = T.bench(FB, 'EnergyVAD', 'compute', dict(x=Sym('x', 'n', 'd'), return_loge=False), vad, 'features')
    T.check(b, None, [('i', 'n')], 'lt(th+sc*sum(j;x[j,0])/dim_n,x[i,0])', 'frames whose first feature exceeds threshold + scale * mean', dims=dict(j='n', i='n'))


def sel(dim, term):
    """the selected elements of an axis"""
    def f(s):
        a = s.A.ix(dim)
        return ('sel', dim, s.A.keyin(Eatom('s', (term(a),)), (a,)), ())
    return f


def select(T):
    at = dict(tol_num_frames=Sym('tol'))
    same, cut = lambda a: a, lambda a: ('at', 'head', (a,))
    go = lambda m, tag, n, k: T.bench(FB, 'FrameSelector', 'select', dict(x=Sym('x', 'n', 'd'), sel=Sym('s', m, bool=True)), at, tag, sample=dict(n=n, m=k, tol=3))
    T.check(go('n', 'same length', 10, 10), None, [('i', sel('n', same)), ('d', 'd')], 'x[i,d]', 'the frames whose flag is set')
    for n, k in ((11, 10), (13, 10)):
        T.check(go('m', 'more frames', n, k), None, [('i', sel('m', same)), ('d', 'd')], 'x[0+i,d]', 'the frames whose flag is set, without the frames that have no flag')
    for n, k in ((10, 11), (10, 13)):
        T.check(go('m', 'more flags', n, k), None, [('i', sel('n', cut)), ('d', 'd')], 'x[i,d]', 'the frames whose flag is set, without the flags that have no frame')
    for n, k in ((14, 10), (10, 14)):
        b = go('m', 'too different', n, k)
        if b is None:
            continue
        T.n += 1
        T.rep.unit(b.construct)
        if (b.run.ret is None or b.run.ret.op == 'noreturn') and any(e.kind == 'raise' for e in b.run.events):
            T.rep.discharged('formula', b.construct, 'lengths that differ by more than the tolerance are an error')
        else:
            T.rep.violation('formula', b.construct, 'lengths that differ by more than the tolerance are accepted', b.where)


def mfcc(T):
    base = dict(preemph_coeff=0, dither=0, snip_edges=True, remove_dc_offset=False, _length=Dim('l'), _shift=Dim('s'), fft_length=Dim('N'), _window=Sym('w', 'l'),
                _fb=Sym('fb', 'k', 'm'), cepstral_lifter=22, _lifter=Sym('lif', 'c'), num_ceps=Dim('c'), use_energy=False, energy_floor=Sym('ef', pos=True), raw_energy=True)
    NK = '=floor(dim_N/2)+1'
    wave = 'sum(l;x[i*dim_s+l]*w[l]*W[l,%s])'

    def dft(s, ids):
        return Eatom(('rfft', s.A.key(s.tr.dimexpr('N'))[0]), ids)

    def dct(s, ids):
        return Eatom(('dct', '2', 'ortho', repr('m')), ids)
    steps = dict(wave=0, fft=1, fft_mag=2, log_spec=3, logfb=4, cepstrum=5)
    mag = dict(wave='abs(%s)' % (wave % '%s'), fft='abs(x[i,%s])', fft_mag='x[i,%s]', log_spec='exp(x[i,%s])')
    for frm in ('wave', 'fft', 'fft_mag', 'log_spec', 'logfb'):
        for to in ('fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum'):
            if steps[to] < steps[frm] or frm == to == 'fft':
                continue
            for sq in (True, False):
                if frm not in ('wave', 'fft') and not sq:
                    continue
                x = Sym('x', 'n') if frm == 'wave' else Sym('x', 'i', 'm' if frm == 'logfb' else 'k')
                at = dict(base, _input_step=steps[frm], _output_step=steps[to], use_fft2=sq)
                if frm == 'wave':
                    at['_fb'] = Sym('fb', NK, 'm')
                b = T.bench(FB, 'MFCC', 'compute', dict(x=x, return_fft=False, return_fft_mag=False, return_logfb=False), at, '%s to %s%s' % (frm, to, '' if sq else ', magnitude'))
                k = 'k'
                F = mag.get(frm)
                if F and frm in ('wave', 'fft') and sq and to != 'fft':
                    F = '(%s)**2' % F
                ni = NF if frm == 'wave' else 'i'
                nk = NK if frm == 'wave' else 'k'
                if to == 'fft':
                    f = wave % 'k'
                elif to == 'fft_mag':
                    f = F % 'k'
                elif to == 'log_spec':
                    f = 'log(%s+1e-10)' % (F % 'k')
                else:
                    f = 'x[i,m]' if frm == 'logfb' else 'log(sum(k;%s*fb[k,m])+1e-10)' % (F % 'k')
                    if to == 'cepstrum':
                        f = 'sum(m;%s*D[m,0+c])*lif[c]' % f
                ax = {'logfb': ('m', 'm'), 'cepstrum': ('c', 'c')}.get(to, ('k', nk))
                T.check(b, None, [('i', ni), ax], f, funcs=dict(W=dft, D=dct), dims=dict(l='l', i=ni, k=nk, m='m', c='c'))


def energy(T):
    """the log-energy replaces the first coefficient, or is put before the filter banks"""
    base = dict(preemph_coeff=0, dither=0, snip_edges=True, remove_dc_offset=False, _length=Dim('l'), _shift=Dim('s'), fft_length=Dim('N'), _window=Sym('w', 'l'),
                _fb=Sym('fb', 'k', 'm'), cepstral_lifter=22, _lifter=Sym('lif', 'c'), num_ceps=Dim('c'), use_energy=True, energy_floor=Sym('ef', pos=True), use_fft2=True)
    NK = '=floor(dim_N/2)+1'
    steps = dict(wave=0, fft=1, fft_mag=2, log_spec=3, logfb=4, cepstrum=5)

    def dft(s, ids):
        return Eatom(('rfft', s.A.key(s.tr.dimexpr('N'))[0]), ids)

    def dct(s, ids):
        return Eatom(('dct', '2', 'ortho', repr('m')), ids)
    W = 'sum(l;x[i*dim_s+l]*w[l]*W[l,k])'
    for frm, e in (('wave', 'log(sum(l;x[i*dim_s+l]**2)+1e-15)'), ('wave after', 'log(sum(k;abs(%s)**2)/(floor(dim_N/2)+1)+1e-10)' % W), ('fft', 'x[i,0]'), ('fft_mag', 'x[i,0]'), ('log_spec', 'x[i,0]'), ('logfb', 'x[i,0]')):
        f = frm.split()[0]
        for to in ('cepstrum', 'logfb'):
            x = Sym('x', 'n') if f == 'wave' else Sym('x', 'i', 'm' if f == 'logfb' else 'k')
            at = dict(base, _input_step=steps[f], _output_step=steps[to], raw_energy=frm == 'wave')
            ni = NF if f == 'wave' else 'i'
            if f == 'wave':
                at['_fb'] = Sym('fb', NK, 'm')
            if f == 'logfb' and to == 'logfb':
                continue
            b = T.bench(FB, 'MFCC', 'compute', dict(x=x, return_fft=False, return_fft_mag=False, return_logfb=False), at, '%s to %s with energy' % (frm, to))
            le = 'maximum(%s,log(ef+1e-15))' % e
            kw = dict(funcs=dict(W=dft, D=dct), dims=dict(l='l', i=ni, k=NK if f == 'wave' else 'k', m='m', c='c'))
            F = dict(wave='abs(%s)**2' % W, fft='abs(x[i,k])**2', fft_mag='x[i,k]', log_spec='exp(x[i,k])').get(f)
            lf = 'log(sum(k;%s*fb[k,m])+1e-10)' % F
            if to == 'logfb':
                T.check(b, (None, 0), [('i', ni), ('u', 1)], le, 'the log-energy, floored', **kw)
                T.check(b, (None, 1), [('i', ni), ('m', 'm')], lf, 'the log filter banks', **kw)
            elif f != 'logfb':
                q = 'eq(pos(c+0),0)'
                T.check(b, None, [('i', ni), ('c', 'c')], '%s*%s+(1-%s)*sum(m;%s*D[m,0+c])*lif[c]' % (q, le, q, lf), 'cepstra with the floored log-energy in place of the first', **kw)


def cum(s, ids):
    return Eatom(('cumsum', 'n'), ids)


def mvn(T):
    x = Sym('x', 'n', 'd')
    M = '(sum(m;x[m,d])/dim_n)'
    V = 'sqrt(sum(m;x[m,d]**2)/dim_n-%s**2)' % M
    for mean in (True, False):
        for var in (True, False):
            X = 'x[%s,d]' + ('-' + M if mean else '')
            X = '((%s)/%s)' % (X, V) if var else '(%s)' % X
            at = dict(norm_mean=mean, norm_var=var, left_context=None, right_context=None)
            tag = ('mean' if mean else '') + ('+variance' if var else '')
            for fn in ('normalize_global', 'normalize', 'normalize_cumsum', 'normalize_conv', 'normalize_slow'):
                b = T.bench(FB, 'MeanVarianceNorm', fn, dict(x=x), at, 'whole signal ' + tag)
                T.check(b, None, [('t', 'n'), ('d', 'd')], X % 't', 'the %s normalised features' % (tag or 'not'), dims=dict(m='n', d='d'))
            if not (mean or var):
                continue
            for L, R, n, where in ((3, 4, 20, 'inside'), (3, 4, 6, 'window longer than the signal'), (None, 4, 20, 'all the past'), (3, None, 20, 'all the future')):
                at = dict(norm_mean=mean, norm_var=var, left_context=L and Dim('a'), right_context=R and Dim('b'))
                cx = 'sum(u;%s*C[u,%%s])' % (X % 'u')
                cx2 = 'sum(u;%s**2*C[u,%%s])' % (X % 'u')
                a, bb = L or n, R or n
                A_, B_ = 'dim_a' if L else 'dim_n', 'dim_b' if R else 'dim_n'
                # frames whose window starts at the first frame, and ends at the last one
                p1, p2 = min(a + 1, n), max(n - bb, 0)
                edges = sorted({0, n, p1, p2})
                sizes = {0: '0', n: 'dim_n', p1: A_ + '+1', p2: 'dim_n-' + B_}
                sizes[n] = 'dim_n'
                for fn in ('normalize', 'normalize_cumsum'):
                    b = T.bench(FB, 'MeanVarianceNorm', fn, dict(x=x), at, '%s, %s' % (where, tag), sample=dict(n=n, a=a, b=bb))
                    for k, (lo, hi) in enumerate(zip(edges, edges[1:])):
                        t = 'pos(t+%s)' % sizes[lo]
                        first, last = lo < p1, lo >= p2
                        top = 'dim_n-1+0*pos(t+0)' if last else 't+%s+%s' % (sizes[lo], B_)
                        c1, c2 = (z % ('n1' if last else '%s+%s+t' % (sizes[lo], B_)) for z in (cx, cx2))
                        num = '(%s)' % ('dim_n' if last else 'pos(t+%s+%s+1)' % (sizes[lo], B_))
                        if last:
                            c1, c2 = 'sum(u;%s)' % (X % 'u'), 'sum(u;%s**2)' % (X % 'u')
                        if not first:
                            c1 += '-' + cx % ('t+%s-%s-1' % (sizes[lo], A_))
                            c2 += '-' + cx2 % ('t+%s-%s-1' % (sizes[lo], A_))
                            num = '(%s-pos(t+%s-%s))' % (num, sizes[lo], A_)
                        m, m2 = '(%s)/%s' % (c1, num), '(%s)/%s' % (c2, num)
                        f = X % ('t+%s' % sizes[lo])
                        if mean:
                            f = '(%s-%s)' % (f, m)
                        if var:
                            v = '(%s-(%s)**2)' % (m2, m)
                            f = '%s/sqrt(lt(%s,1e-5)*1e-5+(1-lt(%s,1e-5))*%s)' % (f, v, v, v)
                        T.check(b, (None, k), [('t', '=%s-(%s)' % (sizes[hi], sizes[lo])), ('d', 'd')], f, 'the sliding-window normalised features', dims=dict(m='n', u='n', d='d'), funcs=dict(C=cum))


def conv(T):
    x = Sym('x', 'n', 'd')
    mk_ = lambda w: lambda s, ids: Eatom(('box', s.A.key(s.parse(w, {}))[0], 'n'), ids)
    for mean in (True, False):
        for var in (True, False):
            if not (mean or var):
                continue
            M = '(sum(m;x[m,d])/dim_n)'
            V = 'sqrt(sum(m;x[m,d]**2)/dim_n-%s**2)' % M
            X = 'x[%s,d]' + ('-' + M if mean else '')
            X = '((%s)/%s)' % (X, V) if var else '(%s)' % X
            for L, R, n, where in ((3, 4, 20, 'inside'), (3, 4, 6, 'window longer than the signal'), (None, 4, 20, 'all the past'), (3, None, 20, 'all the future')):
                A_, B_ = 'dim_a' if L else 'dim_n', 'dim_b' if R else 'dim_n'
                at = dict(norm_mean=mean, norm_var=var, left_context=L and Dim('a'), right_context=R and Dim('b'))
                b = T.bench(FB, 'MeanVarianceNorm', 'normalize_conv', dict(x=x), at, '%s, %s' % (where, ('mean' if mean else '') + ('+variance' if var else '')), sample=dict(n=n, a=L or n, b=R or n))
                num = 'sum(u;B[u,t+%s])' % B_
                m, m2 = ('(sum(u;%s%s*B[u,t+%s])/%s)' % (X % 'u', q, B_, num) for q in ('', '**2'))
                f = X % 't'
                if mean:
                    f = '(%s-%s)' % (f, m)
                if var:
                    v = '(%s-%s**2)' % (m2, m)
                    f = '%s/sqrt(lt(%s,1e-5)*1e-5+(1-lt(%s,1e-5))*%s)' % (f, v, v, v)
                T.check(b, None, [('t', 'n'), ('d', 'd')], f, 'the sliding-window normalised features', dims=dict(m='n', u='n', d='d'), funcs=dict(B=mk_('%s+%s+1' % (A_, B_))))


def smooth(T):
    """VAD decisions smoothed over a context"""
    vad = dict(vad_energy_threshold=Sym('th'), vad_energy_mean_scale=Sym('sc'), vad_proportion_threshold=Sym('pt'))
    V = 'lt(th+sc*sum(j;x[j,0])/dim_n,x[%s,0])'

    def go(c, n):
        return T.bench(FB, 'EnergyVAD', 'compute', dict(x=Sym('x', 'n', 'd'), return_loge=False), dict(vad, vad_frames_context=c), 'context, %d frames' % n, sample=dict(n=n, c=4))
    box = lambda s, ids: Eatom(('box', s.A.key(s.parse('2*dim_c+1', {}))[0], 'n'), ids)
    kw = dict(dims=dict(j='n', u='n'), funcs=dict(B=box))
    b = go(Dim('c'), 30)
    for k, lo, d, den in ((0, '0', 'c', '(pos(i+dim_c+1))'), (1, 'dim_c', '=dim_n-2*dim_c', '(2*dim_c+1)'), (2, 'dim_n-dim_c', 'c', '(2*dim_c-pos(i+0))')):
        T.check(b, (None, k), [('i', d)], 'lt(pt,sum(u;%s*B[u,i+%s+dim_c])/%s)' % (V % 'u', lo, den), 'frames with more than the asked proportion of active frames around them', **kw)


def setup(T):
    """what the constructors derive from their options"""
    cls = T.cls(FB, 'MFCC')
    f = T.p.find_method(cls, '__init__') if cls is not None else None
    if f is None:
        return
    fac = [c for c in T.p.all_classes([FB]) if c.name == 'FilterBankFactory']
    for c in fac:
        if 'create' in c.methods:
            T.I.noinline.add(c.methods['create'].fq)
    two = dict(e0=lambda s, ids: Eatom(('at=', 0), ids), e1=lambda s, ids: Eatom(('at=', 1), ids))
    args = dict(fs=Dim('r'), frame_length=Sym('len', pos=True), frame_shift=Sym('sh', pos=True), fft_length=Dim('N'), remove_dc_offset=Sym('o1'), preemph_coeff=Sym('pc', pos=True), window_type='povey',
                use_fft2=Sym('o2'), dither=Sym('o3'), fb_type=Sym('ft'), low_freq=Sym('lo'), high_freq=Sym('hi'), num_filters=Dim('m'), norm_filters=Sym('nf'), num_ceps=Dim('c'), snip_edges=Sym('o4'),
                energy_floor=Sym('ef'), raw_energy=Sym('o5'), use_energy=Sym('o6'), cepstral_lifter=Sym('q', pos=True), input_step='wave', output_step='cepstrum')
    ln = 'floor(len*dim_r/1000)'
    for N, tag in ((512, ''), (256, ' longer than the FFT')):
        b = T.bench(FB, 'MFCC', '__init__', args, {}, 'frames' + tag, sample=dict(N=N, len=25, r=16000, sh=10))
        T.field(b, '_length', '', ln)
        T.field(b, '_shift', '', 'floor(sh*dim_r/1000)')
        if N == 512:
            T.field(b, 'fft_length', '', 'dim_N')
        T.field(b, '_window', [('k', '=' + ln)], '(0.5-0.5*cos(2*pi*pos(k+0)/%s))**0.85' % ln)
        T.field(b, '_lifter', [('c', 'c')], '1+0.5*q*sin(pi*pos(c+0)/q)')
    for nm, x, y in (('_dc_a', '1', '-0.999'), ('_dc_b', '1', '-1'), ('_preemph_b', '1', '-pc')):
        T.field(b, nm, [('q', 2)], '%s*e0[q]+(%s)*e1[q]' % (x, y), funcs=two)
    for nm in ('use_fft2', 'remove_dc_offset', 'dither', 'snip_edges', 'raw_energy', 'use_energy'):
        T.field(b, nm, '', args[nm].name)
    T.field(b, 'num_ceps', '', 'dim_c')
    for nm in ('_dc_zi', '_preemph_zi'):
        T.field(b, nm, [('q', 1)], '0')
    args = dict(fs=Dim('r'), frame_length=Sym('len', pos=True), frame_shift=Sym('sh', pos=True), dither=Sym('o3'), snip_edges=Sym('o4'), vad_energy_mean_scale=Sym('sc', pos=True), vad_energy_threshold=Sym('th'),
                vad_frames_context=Dim('c'), vad_proportion_threshold=Sym('pt', pos=True))
    b = T.bench(FB, 'EnergyVAD', '__init__', args, {}, 'frames')
    T.field(b, '_length', '', ln)
    T.field(b, '_shift', '', 'floor(sh*dim_r/1000)')
    for nm, x, y in (('_dc_a', '1', '-0.999'), ('_dc_b', '1', '-1')):
        T.field(b, nm, [('q', 2)], '%s*e0[q]+(%s)*e1[q]' % (x, y), funcs=two)
    for nm in ('dither', 'snip_edges', 'vad_energy_mean_scale', 'vad_energy_threshold', 'vad_proportion_threshold'):
        T.field(b, nm, '', args[nm].name)
    T.field(b, 'vad_frames_context', '', 'dim_c')
    T.field(b, '_dc_zi', [('q', 1)], '0')
    u = 'hyperion.utils'
    for side, lo, hi in (('symmetric', 'ceil((dim_l-dim_s)/2)', 'floor((dim_l-dim_s)/2)'), ('left', 'dim_l-dim_s', '0'), ('right', '0', 'dim_l-dim_s')):
        b = T.bench(u, 'Framing', 'create_pad_width', dict(pad_side=side, frame_length=Dim('l'), frame_shift=Dim('s')), {}, side)
        T.check(b, 0, '', lo)
        T.check(b, 1, '', hi)
    b = T.bench(u, 'Framing', '__init__', dict(frame_length=Dim('l'), frame_shift=Dim('s'), pad_mode=None, pad_side='symmetric'), {})
    T.field(b, 'frame_length', '', 'dim_l')
    T.field(b, 'frame_shift', '', 'dim_s')
    b = T.bench(u, 'Splicing', '__init__', dict(left_context=Dim('a'), right_context=Dim('b'), frame_shift=Dim('s'), splice_pattern=None, pad_mode=None), {})
    for nm, d in (('left_context', 'a'), ('right_context', 'b'), ('frame_shift', 's')):
        T.field(b, nm, '', 'dim_' + d)
    b = T.bench(u, 'Splicing', '__init__', dict(left_context=Dim('a'), right_context=Dim('b'), frame_shift=Dim('s'), splice_pattern=Sym('p', 'q'), pad_mode=None), {}, 'pattern')
    T.field(b, 'left_context', '', '-p[0]')
    T.field(b, 'right_context', '', 'p[q0(0)]', iterms=dict(q0=lambda s, x: ('c', -1)))
    T.field(b, 'splice_pattern', [('q', 'q')], 'p[q]-p[0]')


def steps(T):
    """pipeline steps are ordered by their place in the pipeline"""
    for nm, f in (('__lt__', 'lt(a,b)'), ('__gt__', 'lt(b,a)'), ('__le__', '1-lt(b,a)'), ('__ge__', '1-lt(a,b)'), ('__eq__', 'eq(a,b)'), ('__ne__', '1-eq(a,b)')):
        c = T.cls(FB, 'MFCCSteps')
        if c is None or nm not in c.methods:
            continue
        b = T.bench(FB, 'MFCCSteps', nm, dict(other=Obj('hyperion.feats.mfcc:MFCCSteps', value=Sym('b'), __class__='C')), dict(value=Sym('a'), __class__='C'))
        T.check(b, None, '', f)


def check(p, rep, tier):
    T = FTable(p, rep)
    for f in (stft, framing, windows, select, mfcc, energy, front, mvn, conv, smooth, setup, steps):
        f(T)
    rep.require('feature formulas', T.n, 3)
