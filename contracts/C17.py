"""Broadening: linear, unit-independent, each weight shared out exactly"""
from contracts.common import *
from contracts.spec import *
from contracts import gen as G
import numpy as np
from engine.check import Fail
from fractions import Fraction as Fr

assume('scipy.ndimage.gaussian_filter / correlate1d with mode="constant" are linear in the data, their kernel depending only on the '
       'given width or weights; scipy.signal.convolve(mode="same") is the centred convolution')
assume('find_coeffs (a least-squares fit) and _get_spacing (a fitted polynomial): any value; accuracy of the kernel interpolation checked on samples only')
BD = SPB + '_broaden_data'
VW = 'euphonic.broadening.variable_width_broadening'
WI = 'euphonic.broadening.width_interpolated_broadening'
WIU = 'euphonic.broadening._width_interpolated_broadening'
define_unit('uw', '0.37 meV')
define_unit('ul', '0.11 meV')
F2S = P(2.3548200450309493)


def axis_arr(nm, n, regular):
    if regular:
        x0, h = sym(nm + '0'), sym(nm + 'h', pos=True)
        return A.mk((n,), lambda i: x0 + h * i, 'f')
    return D(nm, (n,), mono=True)


def mean_width(c, n):
    return P(N.SYM['mean'](N.SYM['diff'](c)))


def all_close(c, atol=0):
    d = N.SYM['diff'](c)
    return T.asB(N.SYM['all'](N.SYM['isclose'](d, A.getitem(d, 0), atol=atol)))


def bd_case(ck, shape, dims, use, regular, method):
    it = ck.new_interp()
    m = it.load('euphonic.spectra')
    lens = (nx, ny)[:dims]
    S.CTX.push(bge(nx, 2))
    S.CTX.push(bge(ny, 2))
    cs = [axis_arr('c%d' % k, n, regular) for k, n in enumerate(lens)]
    ws = [sym('w%d' % k, pos=True) if u else None for k, u in enumerate(use)]
    y = D('y', lens)
    calls = []

    def gf(data, sigmas, **kw):
        calls.append(('g', data, sigmas, kw))
        return D('gf', lens)

    def cor(data, wts, **kw):
        calls.append(('c', data, wts, kw))
        return A.binop('+', A.binop('*', data, 1), D('cor%d' % kw['axis'], lens))
    N.HOOKS['scipy.ndimage.gaussian_filter'] = gf
    N.HOOKS['scipy.ndimage.correlate1d'] = cor

    def f():
        calls.clear()
        it.warnings.clear()
        return m.Spectrum._broaden_data(y, cs, ws, shape=shape, method=method), list(calls), list(it.warnings)
    i = [index_sym('i%d' % k, n) for k, n in enumerate(lens)]
    kinds = []
    for out in X.explore(f, 60):
        kinds.append(out.kind)
        ck.suffix = '@%d' % len(kinds)
        reg = band(*[all_close(c) for c, w in zip(cs, ws) if w is not None])
        if out.kind == 'raise':
            ck.true('ValueError', isinstance(out.value, ValueError), out.value)
            ck.true('raised without the explicit method', method is None)
            ck.holds('raised for unequal bins', bnot(reg))
            continue
        r, cl, warned = out.value
        if method is None or not warned:
            ck.holds('equal bins', reg)
        else:
            ck.holds('warned for unequal bins', bnot(reg))
        if shape == 'gauss':
            ck.true('one filter', len(cl) == 1 and cl[0][0] == 'g', cl)
            _, data, sg, kw = cl[0]
            ck.eq('data', data.at(*i), y.at(*i))
            ck.true('zero outside, no other option', kw == dict(mode='constant'), kw)
            ck.true('a width per axis', len(sg) == dims)
            for k in range(dims):
                if use[k]:
                    ck.eq('width of axis %d' % k, P(sg[k]), ws[k] / F2S / mean_width(cs[k], lens[k]))
                else:
                    ck.eq('axis %d kept' % k, P(sg[k]), 0)
            ck.eq('result', r.at(*i), sel('gf', *i))
        else:
            axes = [k for k in range(dims) if use[k]]
            ck.true('one filter per axis', [c[3].get('axis') for c in cl] == axes, cl)
            data = y
            for c in cl:
                k = c[3]['axis']
                ck.eq('data of axis %d' % k, c[1].at(*i), data.at(*i))
                ck.true('zero outside %d' % k, c[3] == dict(mode='constant', axis=k), c[3])
                data = A.binop('+', data, D('cor%d' % k, lens))
                wt = c[2]
                t = index_sym('t', wt.vshape[0])
                ck.eq('kernel normalised %d' % k, N.SYM['sum'](wt), 1)
                h = mean_width(cs[k], lens[k]) if regular else None
                if regular:
                    # the kernel is the Lorentzian at multiples of the bin width, centred
                    ln = wt.vshape[0]
                    # (known finding lorentz-kernel-spacing: spaced (n-1)/n of it; shown here to be that or the exact spacing)
                    t2 = index_sym('t2', ln)
                    lor = lambda x: 1 / (x * x + ws[k] * ws[k] / 4)

                    def same(h):
                        a, b = ((v - (ln - 1) / 2) * h for v in (t, t2))
                        return wt.at(t) * lor(b) - wt.at(t2) * lor(a)
                    n_ = lens[k]
                    if not S.prove_zero(same(h)):
                        ck.eq('lorentzian %d' % k, same(h * (n_ - 1) / n_), 0)
                    else:
                        ck.ok('lorentzian %d' % k)
            ck.eq('result', r.at(*i), data.at(*i))
    ck.suffix = ''
    ck.true('returns', 'return' in kinds, kinds)
    if regular:
        ck.true('never refused', 'raise' not in kinds, kinds)
    elif method is None:
        ck.true('refuses', 'raise' in kinds, kinds)


for sh in ('gauss', 'lorentz'):
    for use in ((1,), (1, 0), (0, 1), (1, 1)):
        for reg in (True, False):
            for me in (None, 'convolve'):
                if sh == 'lorentz' and not reg:
                    continue
                @obligation('broaden data %s %s %s %s' % (sh, use, 'regular' if reg else 'any', me), [BD, SPB + '_gfwhm_to_sigma'])
                def _(ck, a=(sh, len(use), use, reg, me)):
                    bd_case(ck, *a)


# ---------------------------------------------------------------- fixed width: the methods
def lin(calls):
    """stand-in of a linear operator, recording its arguments"""
    def f(data, centres, widths, shape='gauss', method=None):
        calls.append((data, centres, widths, shape, method))
        if data.ndim == 1:
            n = data.vshape[0]
            return A.mk(data.vshape, lambda j: mk_sum('bk', 0, n, sel('K', j, index_sym('bk', n)) * data.at(index_sym('bk', n))), 'f')
        n0, n1 = data.vshape
        return A.mk(data.vshape, lambda i, j: mk_sum('bk', 0, n0, mk_sum('bl', 0, n1, sel('K', i, j, index_sym('bk', n0), index_sym('bl', n1)) * data.at(
            index_sym('bk', n0), index_sym('bl', n1)))), 'f')
    return f


TICKS = [(0, 'A')]
META = {'a': 1}


def kept(ck, o, r, cls, ref):
    """axes, labels, metadata and units of the result are those of the original, which is unchanged"""
    ck.true('class', type(r) is type(o) or r.__class__.__name__ == cls)
    for nm in (('x_data', 'y_data') if '2D' in cls else ('x_data',)):
        a, b = getattr(r, nm), getattr(o, nm)
        ck.true(nm + ' unit', a.u == b.u, (a.u, b.u))
        ck.same_shape(nm + ' shape', a.m, b.m.vshape)
        i = index_sym('ia', a.m.vshape[0])
        ck.eq(nm, a.m.at(i), b.m.at(i))
    ck.true('tick labels', r.x_tick_labels == TICKS, r.x_tick_labels)
    ck.true('metadata', r.metadata == META, r.metadata)
    ck.true('data unit', data(r, cls).u == data(o, cls).u)
    idx = [index_sym('iz%d' % k, n) for k, n in enumerate(DATA[cls][1])]
    ck.eq('original unchanged', data(o, cls).m.at(*idx) * uscale(data(o, cls).u), ref.at(*idx) * UY)


def fixed(ck, cls, ex, disp, use=(1,)):
    it = ck.new_interp()
    calls = []
    it.hooks[BD] = lin(calls)
    it.load('euphonic.spectra')
    if not ex:
        S.CTX.push(bge(nx, 2))
    wq = [Q(sym('w%d' % k, pos=True), 'uw') if u else None for k, u in enumerate(use)]

    def f():
        calls.clear()
        o = make(it, cls, ex, ex, list(TICKS), dict(META))
        if disp:
            it.setattr(o, 'x_data_unit', 'ux2')
            if cls == 'Spectrum2D':
                it.setattr(o, 'z_data_unit', 'uy2')
                it.setattr(o, 'y_data_unit', 'uw')
            else:
                it.setattr(o, 'y_data_unit', 'uy2')
        r = o.broaden(*wq, shape='lorentz', method='convolve')
        return o, r, list(calls)
    for out in returns(ck, f):
        o, r, cl = out.value
        ck.true('broadened', len(cl) >= 1, cl)
        d, centres, widths, shape, method = cl[-1]
        ck.true('options', shape == 'lorentz' and method == 'convolve')
        axes = ('x', 'y')[:len(use)]
        ck.true('an entry per axis', len(widths) == len(centres) == len(axes))
        for k, ax in enumerate(axes):
            c = o.get_bin_centres(ax) if cls == 'Spectrum2D' else o.get_bin_centres()
            i = index_sym('i', c.m.vshape[0])
            if use[k]:
                # width and centres in one common unit: the ratio is that of the quantities
                ck.eq('%s width in the unit of the axis' % ax, P(widths[k]) * c.m.at(i) * uscale(c.u), centres[k].at(i) * sym('w%d' % k, pos=True) * us('uw'))
            else:
                ck.true('%s not broadened' % ax, widths[k] is None)
        kept(ck, o, r, cls, decl_arr('y', DATA[cls][1]))
        shp = DATA[cls][1]
        ck.same_shape('shape', data(r, cls).m, shp)
        res = data(r, cls)
        if cls == 'Spectrum1D':
            j = index_sym('j', nx)
            b = index_sym('sb', nx)
            ck.eq('linear in the values', res.m.at(j) * uscale(res.u), mk_sum('sb', 0, nx, sel('K', j, b) * sel('y', b)) * UY)
        elif cls == 'Spectrum1DCollection':
            l, j = index_sym('l', nz), index_sym('j', nx)
            b = index_sym('sb', nx)
            ck.eq('each line on its own', res.m.at(l, j) * uscale(res.u), mk_sum('sb', 0, nx, sel('K', j, b) * sel('y', l, b)) * UY)
        else:
            i, j = index_sym('i', nx), index_sym('j', ny)
            a, b = index_sym('sa', nx), index_sym('sb', ny)
            ck.eq('linear in the values', res.m.at(i, j) * uscale(res.u), mk_sum('sa', 0, nx, mk_sum('sb', 0, ny, sel('K', i, j, a, b) * sel('y', a, b))) * UY)


for cls in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D'):
    for ex in (True, False):
        for disp in (False, True):
            for use in (((1,),) if cls != 'Spectrum2D' else ((1, 0), (0, 1), (1, 1))):
                @obligation('fixed width %s %s%s %s' % (cls, 'edges' if ex else 'points', ' redisplayed' if disp else '', use), ['euphonic.spectra.%s.broaden' % cls])
                def _(ck, a=(cls, ex, disp, use)):
                    fixed(ck, *a)


# ---------------------------------------------------------------- variable width: the methods
def variable(ck, cls, axis_, ex, disp):
    it = ck.new_interp()
    calls = []

    def vw(bins, x, wf, weights, width_lower_limit=None, width_convention='fwhm', adaptive_error=1e-2, shape='gauss', fit='cheby-log'):
        calls.append((bins, x, wf, weights, width_lower_limit, width_convention, adaptive_error, shape, fit))
        n = weights.m.vshape[0]
        r = A.mk((n,), lambda j: mk_sum('bk', 0, n, sel('K', j, index_sym('bk', n)) * weights.m.at(index_sym('bk', n))), 'f')
        return Q(r, weights.u / bins.u)
    it.hooks[VW] = vw
    m = it.load('euphonic.spectra')
    wf = lambda q: q
    lim = Q(sym('lim', pos=True), 'ul')
    x0, h = sym('x0'), sym('h', pos=True)
    v0, hv = sym('v0'), sym('hv', pos=True)
    er = sym('er', pos=True)

    def f():
        calls.clear()
        e = 1 if ex else 0
        if not ex:
            x = Q(D('x', (nx,), mono=True), 'ux')
            v = Q(D('v', (ny,), mono=True), 'ux')
        else:
            x = Q(A.mk((nx + 1,), lambda i: x0 + h * i, 'f'), 'ux')
            v = Q(A.mk((ny + 1,), lambda i: v0 + hv * i, 'f'), 'ux')
        kw = dict(x_tick_labels=list(TICKS), metadata=dict(META))
        if cls == 'Spectrum1D':
            o = m.Spectrum1D(x, Q(D('y', (nx,)), 'uy'), **kw)
        else:
            o = m.Spectrum2D(x, v, Q(D('y', (nx, ny)), 'uy'), **kw)
        if disp:
            it.setattr(o, 'x_data_unit', 'ux2')
            if cls == 'Spectrum2D':
                it.setattr(o, 'z_data_unit', 'uy2')
                it.setattr(o, 'y_data_unit', 'uw')
            else:
                it.setattr(o, 'y_data_unit', 'uy2')
        kw = dict(shape='lorentz', width_convention='std', width_interpolation_error=er, width_fit='cubic')
        if cls == 'Spectrum1D':
            r = o.broaden(wf, width_lower_limit=lim, **kw)
        else:
            kw['%s_width' % axis_] = wf
            kw['%s_width_lower_limit' % axis_] = lim
            r = o.broaden(**kw)
        return o, r, list(calls)
    n = nx if axis_ == 'x' else ny
    step = (h if axis_ == 'x' else hv) * UX
    for out in X.explore(f, 60):
        if out.kind == 'raise':
            ck.fail('no exception', '%r %s' % (out.value, getattr(out.value, 'where', '')))
            continue
        o, r, cl = out.value
        ck.true('called', len(cl) >= 1)
        bins, x, w_, weights, ll, conv_, err, shape, fit = cl[-1]
        ck.true('width function', w_ is wf)
        ck.true('options', conv_ == 'std' and shape == 'lorentz' and fit == 'cubic' and P(err) == er)
        ck.eq('limit', ll.m * uscale(ll.u), sym('lim', pos=True) * us('ul'))
        i = index_sym('i', n)
        o0 = x0 if axis_ == 'x' else v0
        hh = h if axis_ == 'x' else hv
        ck.eq('positions at the bin centres', x.m.at(i) * uscale(x.u), (o0 + hh * (i + Fr(1, 2))) * UX)
        i1 = index_sym('i1', n + 1)
        ck.eq('bins', bins.m.at(i1) * uscale(bins.u), (o0 + hh * i1) * UX)
        kept(ck, o, r, cls, decl_arr('y', DATA[cls][1]))
        res = data(r, cls)
        ck.same_shape('shape', res.m, DATA[cls][1])
        if cls == 'Spectrum1D':
            b = index_sym('sb', nx)
            want = mk_sum('sb', 0, nx, sel('K', i, b) * sel('y', b)) * step * UY
            got = res.m.at(i) * uscale(res.u)
        elif axis_ == 'y':
            k = index_sym('k', nx)
            b = index_sym('sb', ny)
            want = mk_sum('sb', 0, ny, sel('K', i, b) * sel('y', k, b)) * step * UY
            got = res.m.at(k, i) * uscale(res.u)
        else:
            k = index_sym('k', ny)
            b = index_sym('sb', nx)
            want = mk_sum('sb', 0, nx, sel('K', i, b) * sel('y', b, k)) * step * UY
            got = res.m.at(i, k) * uscale(res.u)
        # K is the broadened density per unit weight in the unit of the bins
        ck.eq('weight of a bin is value times width; linear', got * uscale(bins.u), want)


for disp in (False, True):
    for cls, ax in (('Spectrum1D', 'x'), ('Spectrum2D', 'x'), ('Spectrum2D', 'y')):
        @obligation('variable width %s %s%s' % (cls, ax, ' redisplayed' if disp else ''), ['euphonic.spectra.%s.broaden' % cls] + (
            ['euphonic.spectra.Spectrum2D._broaden_spectrum2d_with_function'] if '2D' in cls else []))
        def _(ck, a=(cls, ax, True, disp)):
            variable(ck, *a)


@obligation('variable width needs equal bins', ['euphonic.spectra.Spectrum1D.broaden'])
def o_refuse(ck):
    it = ck.new_interp()
    it.hooks[VW] = lambda *a, **k: Q(D('vw', (nx,)), 'uy')
    it.load('euphonic.spectra')
    for ex in (True,):
        ck.prefix = 'edges: '
        S.CTX.push(bge(nx, 2))
        o = make(it, 'Spectrum1D', ex)
        w = o.get_bin_widths().m
        reg = T.asB(N.SYM['all'](N.SYM['isclose'](w, A.getitem(w, 0), atol=0)))
        kinds = []
        for out in X.explore(lambda: o.broaden(lambda q: q), 60):
            kinds.append(out.kind)
            if out.kind == 'raise':
                ck.true('AssertionError', isinstance(out.value, AssertionError), out.value)
                ck.holds('refused: unequal', bnot(reg))
            else:
                ck.holds('accepted: equal', reg)
        ck.true('both', set(kinds) == {'raise', 'return'}, kinds)
    ck.prefix = ''


# ---------------------------------------------------------------- the interpolation scheme
define_unit('uwt', '0.3 mbarn')


@obligation('widths', [VW])
def o_widths(ck):
    for conv_, shape, lim in (('fwhm', 'gauss', 1), ('std', 'gauss', 1), ('fwhm', 'lorentz', 1), ('fwhm', 'gauss', 0)):
        ck.prefix = '%s %s %s: ' % (conv_, shape, lim)
        it = ck.new_interp()
        calls = []

        def wi(bins, x, widths, weights, adaptive_error, shape='gauss', fit='cheby-log'):
            calls.append((bins, x, widths, weights, adaptive_error, shape, fit))
            return Q(D('wi', (nx,)), '1/ux')
        it.hooks[WI] = wi
        m = it.load('euphonic.broadening')
        bins, x = Q(D('e', (nx + 1,), mono=True), 'ux'), Q(D('p', (nx,)), 'ux2')
        wfn = lambda q: Q(A.mk(q.m.vshape, lambda i: T.fn('wf', q.m.at(i) * uscale(q.u)), 'f'), 'uw')
        limit = Q(sym('lim'), 'ul') if lim else None

        def f():
            calls.clear()
            return m.variable_width_broadening(bins, x, wfn, Q(D('y', (nx,)), 'uwt'), width_lower_limit=limit, width_convention=conv_, adaptive_error=sym('er'), shape=shape, fit='cubic')
        for out in returns(ck, f):
            b, p, w, wt, er, sh, fit = calls[-1]
            i, i1 = index_sym('i', nx), index_sym('i1', nx + 1)
            ck.eq('bins', b.m.at(i1) * uscale(b.u), sel('e', i1, mono=True) * UX)
            ck.eq('positions', p.m.at(i) * uscale(p.u), sel('p', i) * us('ux2'))
            raw = T.fn('wf', sel('p', i) * us('ux2')) * us('uw')
            if conv_ == 'fwhm' and shape == 'gauss':
                raw = raw / F2S
            lm = sym('lim') * us('ul') if lim else P(N.SYM['max'](N.SYM['diff'](bins.m))) * UX
            got = w.m.at(i) * uscale(w.u)
            with S.assuming(bge(raw, lm)):
                ck.eq('width function where above the limit', got, raw)
            with S.assuming(blt(raw, lm)):
                ck.eq('limit where below', got, lm)
            ck.eq('weights', P(wt.at(i)), sel('y', i))
            ck.true('options', P(er) == sym('er') and sh == shape and fit == 'cubic')
            ck.eq('result', out.value.m.at(i) * uscale(out.value.u), sel('wi', i) / UX * us('uwt'))
    ck.prefix = ''
    it = ck.new_interp()
    m = it.load('euphonic.broadening')
    for kw in (dict(width_convention='std', shape='lorentz'), dict(width_convention='hwhm')):
        for out in X.explore(lambda: m.variable_width_broadening(bins, x, wfn, Q(D('y', (nx,)), 'uwt'), **kw)):
            ck.true('refused %s' % kw, out.kind == 'raise' and isinstance(out.value, ValueError), out.value)


@obligation('units of the interpolation', [WI])
def o_wi(ck):
    it = ck.new_interp()
    calls = []

    def wi(bins, x, widths, weights, er, shape='gauss', fit='cheby-log'):
        calls.append((bins, x, widths, weights, er, shape, fit))
        return D('wi', (nx,))
    it.hooks[WIU] = wi
    m = it.load('euphonic.broadening')
    for out in returns(ck, lambda: m.width_interpolated_broadening(Q(D('e', (nx + 1,), mono=True), 'ux'), Q(D('p', (ny,)), 'ux2'), Q(D('s', (ny,)), 'uw'), D('y', (ny,)),
                                                                  sym('er'), shape='lorentz', fit='cubic')):
        b, p, w, wt, er, sh, fit = calls[-1]
        i, i1 = index_sym('i', ny), index_sym('i1', nx + 1)
        for nm, a, c, u in (('positions', p, 'p', 'ux2'), ('widths', w, 's', 'uw')):
            ck.eq(nm, a.at(i) * sel('e', i1, mono=True) * UX, sel(c, i) * us(u) * b.at(i1))
        ck.eq('weights', wt.at(i), sel('y', i))
        ck.true('options', P(er) == sym('er') and sh == 'lorentz' and fit == 'cubic')
        j = index_sym('j', nx)
        ck.eq('density per axis unit', out.value.m.at(j) * uscale(out.value.u) * sel('e', i1, mono=True) * UX, sel('wi', j) * b.at(i1))


class FakeNorm:
    @staticmethod
    def pdf(x, loc=0, scale=1):
        x, scale = A.lift(x), A.lift(scale)
        return A.mapn(lambda a, s: T.fn('shape', a, s), [x, scale], 'f') if isinstance(scale, A.Arr) else A.mapn(lambda a: T.fn('shape', a, P(scale)), [x], 'f')


def conv_same(a, k, mode='full', method='auto'):
    if mode != 'same':
        raise X.Unsupported('convolution mode')
    n, ln = a.vshape[0], k.vshape[0]
    c = S.idiv(ln - 1, const(2))
    return A.mk((n,), lambda b: mk_sum('cj', 0, n, band(bge(b - index_sym('cj', n) + c, 0), blt(b - index_sym('cj', n) + c, ln)).poly() *
                                       a.at(index_sym('cj', n)) * k.at(b - index_sym('cj', n) + c)), 'f')


def interp(ck, K, odd, shape):
    it = ck.new_interp()
    p = dim('p')
    ne = 2 * p + (1 if odd else 2)
    ns = dim('ns')
    seen = []
    sp = sym('sp', pos=True)
    N.HOOKS['scipy.stats.norm'] = FakeNorm
    N.HOOKS['scipy.signal.convolve'] = conv_same
    N.HOOKS['ceil'] = lambda v: seen.append(v) or P(K - 1)
    it.hooks['euphonic.broadening._get_spacing'] = lambda er, shape='gauss', fit='cheby-log': sp
    it.hooks['euphonic.broadening.find_coeffs'] = lambda s, shape='gauss': D('co', (4,))
    it.hooks['euphonic.broadening._lorentzian'] = lambda x, gamma: FakeNorm.pdf(x, scale=gamma)
    m = it.load('euphonic.broadening')
    e0, h = sym('e0'), sym('h', pos=True)
    bins = A.mk((ne,), lambda i: e0 + h * i, 'f')
    x, wd, wt = D('p', (ns,)), D('s', (ns,), pos=True), D('y', (ns,))
    mn, mx = P(N.SYM['min'](wd)), P(N.SYM['max'](wd))
    for out in returns(ck, lambda: m._width_interpolated_broadening(bins, x, wd, wt, sym('er'), shape=shape, fit='cheby-log')):
        r = out.value
        ck.same_shape('shape', r, (ne - 1,))
        ck.eq('kernels cover the range of widths', P(seen[-1]), (T.fn('log', mx / mn)) / T.fn('log', sp))
        b = index_sym('b', ne - 1)
        j, s = index_sym('sj', ne - 1), index_sym('ss', ns)
        ws = A.binop('*', A.binop('**', sp, N.SYM['arange'](P(K))) if K else None, mn)
        idx = P(N.SYM['digitize'](wd.at(s), ws, False))
        y, w = wt.at(s), wd.at(s)
        xs = x.at(s)
        last = beq(j, ne - 2)
        lo, hi = e0 + h * j, e0 + h * (j + 1)
        inb = band(ble(lo, xs), bor(blt(xs, hi), band(last, beq(xs, hi)))).poly()
        co = [sel('co', const(i)) for i in range(4)]

        def mix(i):       # share of kernel i (0-based) for a sample between kernels i and i+1
            if K == 1:
                return const(1)
            v = w / ws.at(P(i))
            return ((co[0] * v + co[1]) * v + co[2]) * v + co[3]
        tot = const(0)
        half = p if odd else p
        for i in range(K):
            share_ = beq(idx, i + 1).poly() * mix(i)
            if i:
                share_ = share_ + beq(idx, i).poly() * (1 - mix(i - 1))
            kern = T.fn('shape', (b - j) * h, P(ws.at(P(i))))
            tot = tot + mk_sum('sj', 0, ne - 1, band(ble(b - j, half), ble(j - b, half)).poly() * kern * mk_sum('ss', 0, ns, inb * share_ * y))
        ck.eq('each weight shared between its two neighbouring kernels', r.at(b), tot, limit=100)


for K in (1, 2, 3):
    for odd in (True, False):
        for sh in ('gauss', 'lorentz'):
            if sh == 'lorentz' and (K == 3 or odd):
                continue
            @obligation('kernels %d %s edges %s' % (K, 'odd' if odd else 'even', sh), [WIU], bounded='number of kernels 1, 2, 3; samples, bins and widths symbolic', limit=400)
            def _(ck, a=(K, odd, sh)):
                interp(ck, *a)


@obligation('lemma: shares add up to the weight', [])
def o_share(ck):
    for K in (2, 3, 4):
        f = [T.fn('mix', const(i)) for i in range(K)]
        idx = sym('idx', 'int')
        tot = const(0)
        for i in range(K):
            tot = tot + beq(idx, i + 1).poly() * f[i] + (beq(idx, i).poly() * (1 - f[i - 1]) if i else 0)
        for v in range(1, K):
            ck.eq('%d kernels, between %d and %d' % (K, v, v + 1), T.subst(tot, {'idx': P(v)}), 1)


# ---------------------------------------------------------------- differential
def gauss_ref(y, sig):
    """convolution with the normalised Gaussian on the points (cut at four standard deviations)"""
    r = int(4 * sig + .5)
    w = np.exp(-np.arange(-r, r + 1) ** 2 / 2 / sig ** 2)
    w /= w.sum()
    n = len(y)
    out = np.zeros(n)
    for i in range(n):
        for d in range(-r, r + 1):
            if 0 <= i - d < n:
                out[i] += w[d + r] * y[i - d]
    return out


def lor_ref(y, g, spacing=1.):
    n = len(y)
    d = np.arange(-n, n + 1) * spacing
    w = g / 2 / np.pi / (d ** 2 + g * g / 4)
    w /= w.sum()
    return np.array([sum(w[i - j + n] * y[j] for j in range(n)) for i in range(n)])


def along(f, z, ax):
    return np.apply_along_axis(f, ax, z)


ENERGY = ['meV', '1/cm', 'THz', 'eV', 'hartree', 'J']


@test('fixed width', n=150, n_thorough=1000)
def t_fixed(rng, k):
    eu = G.E()
    Qy = eu.ureg.Quantity
    cls = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D'][k % 3]
    o = G.spectrum(rng, cls, regular=True, nx=int(rng.integers(3, 30)))
    ref = o.copy()
    shape = ['gauss', 'lorentz'][int(rng.integers(2))]
    if rng.random() < .5 and cls != 'Spectrum2D':
        o.x_data_unit = G.pick(rng, ENERGY)
    elif rng.random() < .5 and cls == 'Spectrum2D':
        o.x_data_unit = G.pick(rng, ['1/angstrom', '1/bohr', '1/m'])
        o.y_data_unit = G.pick(rng, ENERGY)
    dn = 'z_data' if cls == 'Spectrum2D' else 'y_data'
    before = o.copy()
    want = G.spec_data(o).magnitude.copy()
    wid, kinds = {}, set()
    nax = want.ndim - (cls == 'Spectrum1DCollection')
    for d in range(nax):
        ax = 'xy'[d]
        c = getattr(ref, 'get_bin_centres')(*((ax,) if cls == 'Spectrum2D' else ()))
        h = c[1] - c[0]
        rel = rng.uniform(.2, 5)
        if nax == 2 and rng.random() < .3 and wid.get('x_width', 1) is not None:
            wid['%s_width' % ax] = None
            continue
        wid['%s_width' % ax] = (h * rel).to(G.pick(rng, ['1/nm', '1/bohr'] if ax == 'x' and cls == 'Spectrum2D' else ENERGY), 'spectroscopy')
        a = d + (cls == 'Spectrum1DCollection')
        n = want.shape[a]
        if shape == 'gauss':
            want = along(lambda y: gauss_ref(y, rel / 2 / np.sqrt(2 * np.log(2))), want, a)
            bad = want
        else:
            bad = along(lambda y: lor_ref(y, rel, (n - 1) / n), want if d == 0 or 'bad' not in locals() else bad, a)
            want = along(lambda y: lor_ref(y, rel), want, a)
    if not any(v is not None for v in wid.values()):
        return None
    r = o.broaden(**wid, shape=shape)
    G.same_spec(o, before, 'original')
    G.same_spec(r, before, 'result', data=False, lines=True)
    G.need(r.x_data.units == o.x_data.units and G.spec_data(r).units == G.spec_data(o).units, 'units')
    if dn == 'z_data':
        G.need(r.y_data.units == o.y_data.units, 'units')
    got = G.spec_data(r).magnitude
    if not G.close(got, want, 1e-8, 1e-9 * np.abs(want).max() + 1e-300):
        if shape == 'lorentz' and G.close(got, bad, 1e-8, 1e-9 * np.abs(want).max() + 1e-300):
            raise Fail('%s: Lorentzian kernel sampled at %d/%d of the bin width' % (cls, n - 1, n), key='lorentz-kernel-spacing')
        G.need_close(got, want, '%s %s' % (cls, shape), 1e-8)
    # linear
    p = o.copy()
    other = rng.normal(size=want.shape)
    setattr(p, dn, Qy(other, G.spec_data(o).units))
    s = o.copy()
    setattr(s, dn, Qy(2.5 * G.spec_data(o).magnitude - 3 * other, G.spec_data(o).units))
    G.need_close(G.spec_data(s.broaden(**wid, shape=shape)).magnitude, 2.5 * got - 3 * G.spec_data(p.broaden(**wid, shape=shape)).magnitude, 'linear', atol=1e-9 * (1 + np.abs(got).max()))
    return dict(cls=cls, shape=shape)


@test('unequal spacing', n=60)
def t_uneq(rng, k):
    import warnings
    eu = G.E()
    cls = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D'][k % 3]
    o = G.spectrum(rng, cls, regular=False, nx=int(rng.integers(4, 15)))
    if rng.random() < .7:
        o.x_data_unit = G.pick(rng, ENERGY if cls != 'Spectrum2D' else ['1/angstrom', '1/m'])
    c = o.get_bin_centres('x') if cls == 'Spectrum2D' else o.get_bin_centres()
    w = (c[-1] - c[0]) / len(c)
    kw = dict(x_width=w, shape=G.pick(rng, ['gauss', 'lorentz']))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        G.need(G.raises(lambda: o.broaden(**kw), ValueError), 'unequal spacing not refused: %s' % c)
    with warnings.catch_warnings(record=True) as l:
        warnings.simplefilter('always')
        o.broaden(**kw, method='convolve')
    G.need(any('bin' in str(x.message) for x in l), 'no warning')
    f = lambda x: np.full(len(x), 1.) * w
    with warnings.catch_warnings(record=True) as l:
        warnings.simplefilter('always')
        if cls == 'Spectrum2D':
            o.broaden(x_width=f)
            G.need(any('bin' in str(x.message) for x in l), 'no warning for a width function')
        else:
            G.need(G.raises(lambda: o.broaden(f), AssertionError), 'width function with unequal bins not refused')
    return dict(cls=cls)


def exact(y, wid, shape, nb):
    """each bin's weight spread with its own kernel, sampled at the bin centres (kernel as long as the axis)"""
    out = np.zeros(len(y))
    half = nb // 2 if nb % 2 else nb // 2 - 1
    for j in range(len(y)):
        d = np.arange(len(y)) - j
        s = wid[j]
        v = np.exp(-d ** 2 / 2 / s ** 2) / s / np.sqrt(2 * np.pi) if shape == 'gauss' else s / 2 / np.pi / (d ** 2 + s * s / 4)
        out += np.where(np.abs(d) <= half, v, 0) * y[j]
    return out


@test('variable width', n=120, n_thorough=800)
def t_var(rng, k):
    import warnings
    eu = G.E()
    Qy = eu.ureg.Quantity
    cls = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D'][k % 3]
    n = int(rng.integers(20, 80))
    o = G.spectrum(rng, cls, True, True, regular=True, nx=n, **(dict(ny=int(rng.integers(4, 9))) if cls == 'Spectrum2D' else {}))
    if cls == 'Spectrum1D' and str(o.x_data.units) != 'millielectron_volt':
        pass
    ax = 'x'
    shape = ['gauss', 'lorentz'][int(rng.integers(2))]
    conv_ = 'fwhm' if shape == 'lorentz' or rng.random() < .5 else 'std'
    args = ('x',) if cls == 'Spectrum2D' else ()
    c0 = o.get_bin_centres(*args)
    h = c0[1] - c0[0]
    cu = c0.units
    if rng.random() < .5:
        o.x_data_unit = '1/bohr' if cls == 'Spectrum2D' else G.pick(rng, ['meV', 'eV', 'hartree'])
    energy = ['eV', 'hartree', 'J']
    wu = G.pick(rng, ['1/angstrom', '1/nm']) if cls == 'Spectrum2D' else 'meV'
    lo, hi = sorted(rng.uniform(1.1, 6, 2))
    constw = k % 4 == 0
    if constw:
        hi = lo
    span = (c0[-1] - c0[0])
    f2 = 2.3548200450309493 if conv_ == 'fwhm' and shape == 'gauss' else 1.
    ctx = 'spectroscopy'
    hw = h.to(wu, ctx)
    seen = []

    def wf(x):
        seen.append(x.units)
        t = ((x.to(cu, ctx) - c0[0]) / span).to('').magnitude
        return f2 * (lo + (hi - lo) * t) * hw
    lim = rng.uniform(.5, 1.3) * lo
    kw = dict(width_convention=conv_, shape=shape)
    limk = 'x_width_lower_limit' if cls == 'Spectrum2D' else 'width_lower_limit'
    if rng.random() < .6:
        kw[limk] = lim * hw
    else:
        lim = 1.
    before = o.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = o.broaden(x_width=wf, **kw)
    G.same_spec(o, before, 'original')
    G.same_spec(r, before, 'result', data=False, lines=True)
    G.need(G.spec_data(r).units == G.spec_data(o).units, 'unit')
    y = G.spec_data(o).magnitude
    got = G.spec_data(r).magnitude
    a = 0 if cls != 'Spectrum1DCollection' else 1
    wid = np.maximum(lo + (hi - lo) * np.linspace(0, 1, n), lim)
    want = along(lambda v: exact(v, wid, shape, n + 1), y, a)
    single = wid.max() / wid.min() < 1 + 1e-12
    tol = 1e-8 if single else (.03 if shape == 'gauss' else .05)
    err = np.abs(got - want)
    # interpolation: within the target error (area of the difference) of the exact kernels
    if single:
        G.need(err.max() < 1e-8 * (np.abs(want).max() + np.abs(y).max()), 'constant width: got %s, expected %s' % (got, want))
    else:
        bound = along(lambda v: exact(np.abs(v), wid, shape, n + 1), y, a).max() * tol
        G.need(err.max() < bound, 'variable width: deviation %g, bound %g' % (err.max(), bound))
    # linear
    dn = 'z_data' if cls == 'Spectrum2D' else 'y_data'
    s = o.copy()
    setattr(s, dn, Qy(-2 * y, G.spec_data(o).units))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        G.need_close(G.spec_data(s.broaden(x_width=wf, **kw)).magnitude, -2 * got, 'linear', atol=1e-9 * (1 + np.abs(got).max()))
    return dict(cls=cls, shape=shape, single=bool(single))


@test('weights conserved by the interpolation', n=60, n_thorough=400)
def t_cons(rng, k):
    from euphonic.broadening import width_interpolated_broadening
    eu = G.E()
    Qy = eu.ureg.Quantity
    h = rng.uniform(.2, 2)
    nb = int(rng.integers(300, 500))
    e = h * np.arange(nb + 1) - h * nb / 2
    ns = int(rng.integers(1, 40))
    x = rng.uniform(-h * nb / 12, h * nb / 12, ns)
    sg = rng.uniform(1.2, 12, ns) * h if k % 3 else np.full(ns, rng.uniform(1.2, 12)) * h
    wt = rng.normal(size=ns)
    r = width_interpolated_broadening(Qy(e, 'meV'), Qy(x, 'meV').to(G.pick(rng, ['eV', 'meV'])), Qy(sg, 'meV').to(G.pick(rng, ['eV', 'meV', 'hartree'])), wt, 0.01)
    w = Qy(sg, 'meV')
    tot = (r * Qy(h, 'meV')).to('').magnitude
    G.need(abs(tot.sum() - wt.sum()) < 1e-4 * np.abs(wt).sum(), 'weights add to %g, broadened to %g' % (wt.sum(), tot.sum()))
    # exactly once each: centre of mass
    m = (tot * (e[1:] + e[:-1]) / 2).sum()
    G.need(abs(m - (wt * (np.floor((x - e[0]) / h) * h + e[0] + h / 2)).sum()) < 1e-4 * h * nb * np.abs(wt).sum(), 'first moment')
    return dict(ns=ns)
