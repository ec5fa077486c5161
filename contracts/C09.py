"""densities of states"""
from contracts.common import *
from contracts.C10 import SymTable
from contracts import gen as G
import numpy as np

assume('energy bins increase', 'scipy.stats.norm.pdf is the normal density',
       'cross-section tables (get_reference_data) are arbitrary data, one value per species',
       'the interpolated method (adaptive_method=fast) is decided by C17; here only that it is given the right data')
QF = 'euphonic.qpoint_frequencies.QpointFrequencies.'
PM = 'euphonic.qpoint_phonon_modes.QpointPhononModes.'
UNDER = [QF + 'calculate_dos', QF + '_calculate_dos']
n, nq = dim('n'), dim('nq')
nb = dim('nbr')
ne = sym('ne', 'int', pos=True) + 1
HOOK_AX = 'euphonic.qpoint_frequencies.QpointFrequencies._get_qpt_axis_and_labels'
define_unit('uw', '0.9 meV')
define_unit('uwmin', '0.4 meV')
define_unit('ucs', '1.1 barn')


def pdf(x, loc=0, scale=1):
    x, loc, scale = A.lift(x), P(loc), P(scale)
    z = A.binop('/', A.binop('-', x, loc), scale)
    g = A.mapn(lambda v: pexp(-v * v / 2), [z], 'f')
    return A.binop('/', g, scale * (2 * PI).power(T.Fr(1, 2)))


class Norm:
    pdf = staticmethod(pdf)


N.HOOKS['scipy.stats.norm'] = Norm


def freqs_obj(it):
    m = it.load('euphonic.qpoint_frequencies')
    c = crystal(it, n)
    return m.QpointFrequencies(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, nb)), 'ufreq'), decl_arr('w', (nq,), pos=True))


def modes_obj(it, na=n, types=None):
    m = it.load('euphonic.qpoint_phonon_modes')
    c = crystal(it, na)
    return m.QpointPhononModes(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * na)), 'ufreq'),
                               decl_arr('ev', (nq, 3 * na, na, 3), 'c'), decl_arr('w', (nq,), pos=True))


def w(q):
    return sel('w', q, pos=True)


def edge(k):
    return sel('e', k, mono=True) * us('ue')


def fph(q, m):
    return sel('f', q, m) * us('ufreq')


def hist(b, mw, nm, qs=None):
    """sum_qm w mw [e_b <= f < e_b+1] / width / sum w"""
    q, m = index_sym('sq', nq), index_sym('sm', nm)

    def inner(q):
        return mk_sum('sm', 0, nm, w(q) * mw(q, m) * band(ble(edge(b), fph(q, m)), blt(fph(q, m), edge(b + 1))).poly())
    if qs is None:
        return mk_sum('sq', 0, nq, inner(q)) / (edge(b + 1) - edge(b)) / mk_sum('sq', 0, nq, w(q))
    return inner(qs) / (edge(b + 1) - edge(b)) / w(qs)


def width(q, m):
    a = sel('sg', q, m, pos=True) * us('uw')
    b = sym('sgmin', pos=True) * us('uwmin')
    return ite(blt(a, b), b, a)


def adaptive(b, mw, nm, qs=None):
    q, m = index_sym('sq', nq), index_sym('sm', nm)
    x = (edge(b) + edge(b + 1)) / 2

    def inner(q):
        s = width(q, m)
        return mk_sum('sm', 0, nm, w(q) * mw(q, m) * pexp(-(x - fph(q, m)) ** 2 / (2 * s * s)) / (s * (2 * PI).power(T.Fr(1, 2))))
    if qs is None:
        return mk_sum('sq', 0, nq, inner(q)) / mk_sum('sq', 0, nq, w(q))
    return inner(qs) / w(qs)


def ebins():
    return Q(decl_arr('e', (ne,), mono=True), 'ue')


def widths(nm):
    return dict(mode_widths=Q(decl_arr('sg', (nq, nm), pos=True), 'uw'), mode_widths_min=Q(sym('sgmin', pos=True), 'uwmin'))


@obligation('total', UNDER)
def o1(ck):
    it = ck.new_interp()
    for o in returns(ck, lambda: freqs_obj(it).calculate_dos(ebins())):
        s = o.value
        b = index_sym('b', ne - 1)
        ck.true('unit', s.y_data.u == U.as_unit('1/ue'), s.y_data.u)
        ck.same_shape('shape', s.y_data.m, (ne - 1,))
        ck.eq('histogram', s.y_data.m.at(b) * uscale(s.y_data.u), hist(b, lambda q, m: const(3) / nb, nb), limit=60)
        ck.eq('bins kept', s.x_data.m.at(index_sym('b2', ne)) * uscale(s.x_data.u), edge(index_sym('b2', ne)))


@obligation('with mode weights, one q-point', UNDER)
def o2(ck):
    it = ck.new_interp()
    qi = index_sym('qi', nq)
    for o in returns(ck, lambda: freqs_obj(it)._calculate_dos(ebins(), mode_weights=decl_arr('mw', (nq, nb)))):
        b = index_sym('b', ne - 1)
        ck.eq('histogram', o.value.m.at(b) * uscale(o.value.u), hist(b, lambda q, m: sel('mw', q, m), nb), limit=60)
    for o in returns(ck, lambda: freqs_obj(it)._calculate_dos(ebins(), q_idx=qi)):
        b = index_sym('b', ne - 1)
        ck.eq('single', o.value.m.at(b) * uscale(o.value.u), hist(b, lambda q, m: const(3) / nb, nb, qi), limit=60)


@obligation('adaptive reference', UNDER)
def o3(ck):
    it = ck.new_interp()
    for o in returns(ck, lambda: freqs_obj(it).calculate_dos(ebins(), **widths(nb))):
        s = o.value
        b = index_sym('b', ne - 1)
        ck.true('unit', s.y_data.u == U.as_unit('1/ue'), s.y_data.u)
        ck.same_shape('shape', s.y_data.m, (ne - 1,))
        ck.eq('normal distributions', s.y_data.m.at(b) * uscale(s.y_data.u), adaptive(b, lambda q, m: const(3) / nb, nb), limit=60)
    for o in returns(ck, lambda: freqs_obj(it)._calculate_dos(ebins(), mode_weights=decl_arr('mw', (nq, nb)), **widths(nb))):
        b = index_sym('b', ne - 1)
        ck.eq('normal distributions, mode weights', o.value.m.at(b) * uscale(o.value.u), adaptive(b, lambda q, m: sel('mw', q, m), nb), limit=60)


@obligation('adaptive fast', UNDER)
def o4(ck):
    it = ck.new_interp()
    got = []

    def wib(bins, x, wd, wt, err, shape='gauss', fit='cubic'):
        got.append((bins, x, wd, wt, err, fit))
        return decl_arr('fast', (ne - 1,))
    it.hooks['euphonic.broadening._width_interpolated_broadening'] = wib
    m = it.load('euphonic.qpoint_frequencies')
    for o in returns(ck, lambda: freqs_obj(it).calculate_dos(ebins(), adaptive_method='fast', adaptive_error=sym('er'), adaptive_error_fit='cheby-log', **widths(nb))):
        bins, x, wd, wt, err, fit = got[-1]
        k, q, mm = index_sym('b2', ne), index_sym('q', nq), index_sym('m', nb)
        un = lambda v: v * us('hartree')
        ck.eq('bins', un(A.lift(bins).at(k)), edge(k))
        ck.eq('frequencies', un(x.at(q, mm)), fph(q, mm))
        ck.eq('widths bounded below', un(wd.at(q, mm)), width(q, mm))
        ck.eq('weights', wt.at(q, mm), w(q) * 3 / nb)
        ck.eq('error target', P(err), sym('er'))
        ck.true('fit', fit == 'cheby-log', fit)
        b = index_sym('b', ne - 1)
        y = o.value.y_data
        ck.eq('normalised', y.m.at(b) * uscale(y.u), sel('fast', b) / us('hartree') / mk_sum('sq', 0, nq, w(index_sym('sq', nq))))


@obligation('map', [QF + 'calculate_dos_map'])
def o5(ck):
    it = ck.new_interp()
    it.hooks[HOOK_AX] = lambda self: (Q(decl_arr('x', (nq,), pos=True), 'ulen'), [(0, 'a')])
    qi, b = index_sym('qi', nq), index_sym('b', ne - 1)
    for o in returns(ck, lambda: freqs_obj(it).calculate_dos_map(ebins())):
        z = o.value.z_data
        ck.same_shape('shape', z.m, (nq, ne - 1))
        ck.true('unit', z.u == U.as_unit('1/ue'), z.u)
        ck.eq('row is the single q-point result', z.m.at(qi, b) * uscale(z.u), hist(b, lambda q, m: const(3) / nb, nb, qi), limit=60)
    for o in returns(ck, lambda: freqs_obj(it).calculate_dos_map(ebins(), **widths(nb))):
        z = o.value.z_data
        ck.eq('adaptive row', z.m.at(qi, b) * uscale(z.u), adaptive(b, lambda q, m: const(3) / nb, nb, qi), limit=60)


def share(k, na):
    """atom k's share of the eigenvector norm over n"""
    def mw(q, m):
        a = index_sym('xa', 3)
        e = sel('ev', q, m, k, a, kind='c')
        return mk_sum('xa', 0, 3, e * conj(e)) / na
    return mw


def pdos(ck, na, weighting, cs, adaptive_=False):
    it = ck.new_interp()
    kw = dict(weighting=weighting)
    ref = []

    def grd(collection='x', physical_property='y'):
        ref.append((collection, physical_property))
        return SymTable(physical_property, 'ucs')
    it.hooks['euphonic.util.get_reference_data'] = grd
    if cs:
        kw['cross_sections'] = SymTable('cs', 'ucs')
    if adaptive_:
        kw.update(widths(3 * na))
    for o in returns(ck, lambda: modes_obj(it, na).calculate_pdos(ebins(), **kw)):
        s = o.value
        y = s.y_data
        b = index_sym('b', ne - 1)
        ck.same_shape('shape', y.m, (na, ne - 1))
        for k in ([index_sym('k', na)] if T.P(na).isconst() is False else range(int(P(na).cval()))):
            k = P(k)
            wt = const(1)
            if cs or weighting:
                ty = sel('types', k, kind='s')
                names = ['cs'] if cs else {'coherent': ['coherent_cross_section'], 'incoherent': ['incoherent_cross_section'],
                                           'coherent-plus-incoherent': ['coherent_cross_section', 'incoherent_cross_section']}[weighting]
                sig = sum(sel(nm, ty) * us('ucs') for nm in names)
                kk = index_sym('kk', na)
                mean = mk_sum('kk', 0, na, mass(kk)) / na
                wt = sig * mean / mass(k)
                ck.true('unit', y.u.dimensionality == (U.as_unit('mbarn') / U.as_unit('ue')).dimensionality, y.u)
            else:
                ck.true('unit', y.u == U.as_unit('1/ue'), y.u)
            f = adaptive if adaptive_ else hist
            ck.eq('atom %s' % k, y.m.at(k, b) * uscale(y.u), wt * f(b, share(k, na), 3 * na), limit=90)
            if P(na).isconst():
                md = s.metadata['line_data'][int(k.cval())] if int(P(na).cval()) > 1 else s.metadata['line_data'][0] if 'line_data' in s.metadata else s.metadata
                ck.true('label %s' % k, md['index'] == int(k.cval()), md)
                ck.eq('species %s' % k, P(md['species']), sel('types', k, kind='s'))


for na in (1, 2, 3):
    for wt, cs in ((None, False), ('coherent', False), ('coherent-plus-incoherent', False), ('incoherent', True)):
        @obligation('pdos n=%d %s%s' % (na, wt, '+table' if cs else ''), [PM + 'calculate_pdos'], bounded='number of atoms 1, 2, 3; all else symbolic')
        def _(ck, a=(na, wt, cs)):
            pdos(ck, *a)


@obligation('pdos adaptive', [PM + 'calculate_pdos'], bounded='number of atoms 2; all else symbolic')
def o6(ck):
    pdos(ck, 2, None, False, True)


@obligation('lemmas')
def o7(ck):
    # sum over atoms of the shares is 1/n when the eigenvector is normalised (sum |e|^2 = 1)
    k, a = index_sym('kk', n), index_sym('xa', 3)
    q, m = index_sym('q0', nq), index_sym('m0', 3 * n)
    e = sel('ev', q, m, k, a, kind='c')
    tot = mk_sum('kk', 0, n, mk_sum('xa', 0, 3, e * conj(e)))
    # (total norm is 1 for a normalised eigenvector)
    ck.eq('shares add up to norm times 3/branches', mk_sum('kk', 0, n, share(k, n)(q, m)), const(3) / (3 * n) * tot)
    # the specification is homogeneous of degree zero in the weights
    c = sym('c', pos=True)
    b = index_sym('b', ne - 1)
    global w
    w0 = w
    for nm, f in (('histogram', hist), ('adaptive', adaptive)):
        base = f(b, lambda q, m: const(3) / nb, nb)
        try:
            w = lambda q: c * w0(q)
            sc = f(b, lambda q, m: const(3) / nb, nb)
        finally:
            w = w0
        ck.eq('weights scale out: ' + nm, sc, base)


# -------------------------------------------------------------------- real code
def ref_hist(f, wq, mw, e):
    out = np.zeros(len(e) - 1)
    for q in range(f.shape[0]):
        for m in range(f.shape[1]):
            for b in range(len(e) - 1):
                if e[b] <= f[q, m] < e[b + 1]:
                    out[b] += wq[q] * mw[q, m] / (e[b + 1] - e[b])
    return out / wq.sum()


def ref_ad(f, wq, mw, e, sg):
    x = (e[1:] + e[:-1]) / 2
    out = np.zeros(len(x))
    for q in range(f.shape[0]):
        for m in range(f.shape[1]):
            s = sg[q, m]
            out += wq[q] * mw[q, m] * np.exp(-(x - f[q, m]) ** 2 / 2 / s / s) / s / np.sqrt(2 * np.pi)
    return out / wq.sum()


def rbins(rng, exact=None):
    eu = G.E()
    k = int(rng.integers(1, 40))
    lo = rng.uniform(-20, 30)
    e = lo + (np.cumsum(rng.uniform(0.05, 8, k + 1)) if rng.random() < .6 else np.linspace(0, rng.uniform(5, 100), k + 1))
    return eu.ureg.Quantity(e, 'meV').to(G.pick(rng, ['meV', 'hartree', '1/cm', 'THz', 'eV']), 'spectroscopy')


def tie(f, e):
    return np.min(np.abs(f[..., None] - e)) < 1e-13


@test('total', n=100)
def t1(rng, k):
    eu = G.E()
    m = G.modes(rng)
    f = m.frequencies.to('hartree').magnitude
    nbr = f.shape[1]
    if rng.random() < .3:       # any number of branches is accepted for frequencies
        nbr = int(rng.integers(1, 8))
        f = rng.uniform(-5, 80, (m.n_qpts, nbr)) / 27211.4
        obj = eu.QpointFrequencies(m.crystal, m.qpts, eu.ureg.Quantity(f, 'hartree'), m.weights)
    else:
        obj = m
    if rng.random() < .4:       # modes exactly on bin edges
        e = eu.ureg.Quantity(np.sort(rng.uniform(-0.001, 0.003, 7)), 'hartree')
        f = rng.choice(e.magnitude, size=f.shape)
        obj = eu.QpointFrequencies(m.crystal, m.qpts, eu.ureg.Quantity(f, 'hartree'), m.weights)
    else:
        e = rbins(rng)
        if tie(f, e.to('hartree', 'spectroscopy').magnitude):
            return
    eh = e.to('hartree', 'spectroscopy').magnitude
    conv = (1 * eu.ureg('hartree')).to(e.units, 'spectroscopy').magnitude
    mw = np.full(f.shape, 3 / nbr)
    d = obj.calculate_dos(e)
    G.need(d.y_data.units == 1 / e.units, 'units %s' % d.y_data.units)
    G.need_close(d.y_data.magnitude, ref_hist(f, m.weights, mw, eh) / conv, 'histogram', rtol=1e-7)
    # widths
    sg = rng.uniform(0.001, 5, f.shape)
    mn = float(rng.uniform(0, 2))
    wu = G.pick(rng, ['meV', 'hartree', '1/cm', 'THz'])
    sq = eu.ureg.Quantity(sg, 'meV').to(wu, 'spectroscopy')
    mq = eu.ureg.Quantity(mn, 'meV').to(G.pick(rng, ['meV', 'hartree', '1/cm']), 'spectroscopy')
    sgh = np.maximum(eu.ureg.Quantity(sg, 'meV').to('hartree').magnitude, eu.ureg.Quantity(mn, 'meV').to('hartree').magnitude)
    if sgh.min() > 0:
        d = obj.calculate_dos(e, mode_widths=sq, mode_widths_min=mq)
        G.need_close(d.y_data.magnitude, ref_ad(f, m.weights, mw, eh, sgh) / conv, 'adaptive', rtol=1e-6)
    return dict(nq=len(f), nbr=nbr, unit=str(e.units), nbins=len(eh) - 1)


@test('map', n=30)
def t2(rng, k):
    eu = G.E()
    m = G.modes(rng, nq=int(rng.integers(1, 5)))
    f = m.frequencies.to('hartree').magnitude
    e = rbins(rng)
    eh = e.to('hartree', 'spectroscopy').magnitude
    if tie(f, eh):
        return
    conv = (1 * eu.ureg('hartree')).to(e.units, 'spectroscopy').magnitude
    sg = rng.uniform(0.01, 5, f.shape)
    sgh = np.maximum(sg, 0.5) / eu.ureg('hartree').to('meV').magnitude
    mp = m.calculate_dos_map(e)
    ma = m.calculate_dos_map(e, mode_widths=eu.ureg.Quantity(sg, 'meV'), mode_widths_min=eu.ureg.Quantity(0.5, 'meV'))
    for i in range(len(f)):
        mw = np.full((1, f.shape[1]), 3 / f.shape[1])
        G.need_close(mp.z_data.magnitude[i], ref_hist(f[i:i + 1], m.weights[i:i + 1], mw, eh) / conv, 'row %d' % i)
        G.need_close(ma.z_data.magnitude[i], ref_ad(f[i:i + 1], m.weights[i:i + 1], mw, eh, sgh[i:i + 1]) / conv, 'adaptive row %d' % i, rtol=1e-6)
    G.need(mp.z_data.units == 1 / e.units, 'units')
    return dict(nq=len(f))


@test('pdos', n=50)
def t3(rng, k):
    eu = G.E()
    from euphonic.util import get_reference_data
    m = G.modes(rng)
    n_ = m.crystal.n_atoms
    f = m.frequencies.to('hartree').magnitude
    e = rbins(rng)
    eh = e.to('hartree', 'spectroscopy').magnitude
    if tie(f, eh):
        return
    conv = (1 * eu.ureg('hartree')).to(e.units, 'spectroscopy').magnitude
    ad = rng.random() < .4
    kw = {}
    if ad:
        sg = rng.uniform(0.01, 5, f.shape)
        sgh = np.maximum(sg, 0.5) / eu.ureg('hartree').to('meV').magnitude
        kw = dict(mode_widths=eu.ureg.Quantity(sg, 'meV'), mode_widths_min=eu.ureg.Quantity(0.5, 'meV'))
    R = (lambda mw: ref_ad(f, m.weights, mw, eh, sgh)) if ad else (lambda mw: ref_hist(f, m.weights, mw, eh))
    pd = m.calculate_pdos(e, **kw)
    share_ = (np.abs(m.eigenvectors) ** 2).sum(-1) / n_
    mass_ = m.crystal.atom_mass.to('amu').magnitude
    for a in range(n_):
        G.need_close(pd.y_data.magnitude[a], R(share_[:, :, a]) / conv, 'atom %d' % a, rtol=1e-6)
        md = pd[a].metadata
        G.need(md['species'] == m.crystal.atom_type[a] and md['index'] == a, 'labels %s' % md)
    tot = m.calculate_dos(e, **kw).y_data.magnitude
    G.need_close(pd.y_data.magnitude.sum(0), tot, 'sum of atoms', rtol=1e-6, atol=1e-9 * max(1e-300, np.abs(tot).max()))
    wt = G.pick(rng, ['coherent', 'incoherent', 'coherent-plus-incoherent'])
    if rng.random() < .5:
        tab = {t: eu.ureg.Quantity(float(rng.uniform(0.1, 20)), 'barn').to(G.pick(rng, ['barn', 'mbarn', 'bohr**2'])) for t in set(m.crystal.atom_type)}
        pw = m.calculate_pdos(e, weighting=wt, cross_sections=tab, **kw)
    else:
        tab = {}
        for t in set(m.crystal.atom_type):
            tab[t] = sum(get_reference_data(collection='BlueBook', physical_property=x + '_cross_section')[t].to('mbarn').magnitude
                         for x in wt.split('-plus-')) * eu.ureg('mbarn')
        pw = m.calculate_pdos(e, weighting=wt, **kw)
    G.need(pw.metadata.get('weighting') == wt, 'weighting not recorded')
    got = pw.y_data.to('mbarn/(%s)' % e.units).magnitude
    for a in range(n_):
        c = tab[m.crystal.atom_type[a]].to('mbarn').magnitude * mass_.mean() / mass_[a]
        G.need_close(got[a], R(share_[:, :, a]) / conv * c, 'weighted atom %d' % a, rtol=1e-6)
    return dict(n=n_, adaptive=bool(ad), weighting=wt)
