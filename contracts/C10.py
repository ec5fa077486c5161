"""one-phonon coherent structure factor"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('atomic units: hbar = 1 in the package\'s internal units (bohr, m_e, hartree)',
       'scattering-length tables (get_reference_data) are arbitrary data, one length per species')
QP = 'euphonic.qpoint_phonon_modes.QpointPhononModes.'
UNDER = [QP + 'calculate_structure_factor']
define_unit('ub', '1.9/nm')
define_unit('usl', '2.2 fm')


class SymTable(dict):
    """species -> quantity, any table"""

    def __init__(self, name, unit):
        super().__init__()
        self.name, self.unit = name, unit

    def __getitem__(self, k):
        return Q(sel(self.name, k), self.unit)

    def __contains__(self, k):
        return True


def modes_obj(it, n, nq, w=True):
    m = it.load('euphonic.qpoint_phonon_modes')
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = lambda self: Q(decl_arr('b', (3, 3)), 'ub')
    c = crystal(it, n)
    return m.QpointPhononModes(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * n)), 'ufreq'),
                               decl_arr('ev', (nq, 3 * n, n, 3), 'c'), decl_arr('w', (nq,)) if w else None)


def Qv(i, a):
    x = index_sym('qx', 3)
    return mk_sum('qx', 0, 3, sel('q', i, x) * sel('b', x, a)) * us('ub') * us('bohr')


def amplitude(i, m, n, dw, ph=None):
    k = index_sym('ka', n)
    a, x, y = index_sym('xa', 3), index_sym('xr', 3), index_sym('xy', 3)
    e = sel('ev', i, m, k, a, kind='c')
    if ph is not None:
        e = e * ph
    dot = mk_sum('xa', 0, 3, conj(e) * Qv(i, a))
    th = mk_sum('xr', 0, 3, sel('q', i, x) * sel('r', k, x))
    b = sel('sl', sel('types', k, kind='s')) * us('usl') / us('bohr')
    t = b / (mass(k) * us('umass') / us('m_e')).power(T.Fr(1, 2)) * phase(th) * dot
    if dw:
        W = mk_sum('xa', 0, 3, mk_sum('xy', 0, 3, sel('W', k, a, y) * us('uarea') / us('bohr') ** 2 * Qv(i, a) * Qv(i, y)))
        t = t * pexp(-W)
    return mk_sum('ka', 0, n, t)


def spec(i, m, n, dw, ph=None):
    A_ = amplitude(i, m, n, dw, ph)
    return A_ * conj(A_) / (2 * n * fabs(sel('f', i, m)) * us('ufreq') / us('hartree')) * us('bohr') ** 2


def run(ck, dw):
    it = ck.new_interp()
    n, nq = dim('n'), dim('nq')

    def f():
        p = modes_obj(it, n, nq)
        d = None
        if dw:
            d = it.load('euphonic.debye_waller').DebyeWaller(p.crystal, Q(decl_arr('W', (n, 3, 3)), 'uarea'), Q(sym('tdw', nonneg=True), 'utemp'))
        q0 = p.qpts
        return p, p.calculate_structure_factor(SymTable('sl', 'usl'), dw=d), q0
    for o in returns(ck, f):
        p, s, q0 = o.value
        i, m = index_sym('i', nq), index_sym('m', 3 * n)
        ck.same_shape('shape', s.structure_factors.m, (nq, 3 * n))
        ck.eq('formula', s.structure_factors.m.at(i, m) * uscale(s.structure_factors.u), spec(i, m, n, dw), limit=60)
        c = index_sym('c', 3)
        ck.eq('q-points carried', s.qpts.at(i, c), sel('q', i, c))
        ck.same_shape('q-points shape', s.qpts, (nq, 3))
        ck.eq('frequencies carried', s.frequencies.m.at(i, m) * uscale(s.frequencies.u), sel('f', i, m) * us('ufreq'))
        ck.eq('weights carried', s.weights.at(i), sel('w', i))
        ck.true('crystal carried', s.crystal is p.crystal)
        if dw:
            ck.eq('temperature carried', P(s.temperature.m) * uscale(s.temperature.u), sym('tdw', nonneg=True) * us('utemp'))
        else:
            ck.true('no temperature', s.temperature is None)
        # the modes object is not changed by the calculation
        k = index_sym('k', n)
        ck.eq('eigenvectors untouched', p.eigenvectors.at(i, m, k, c), sel('ev', i, m, k, c, kind='c'))
        ck.eq('frequencies untouched', p.frequencies.m.at(i, m) * uscale(p.frequencies.u), sel('f', i, m) * us('ufreq'))


@obligation('formula', UNDER)
def o1(ck):
    run(ck, False)


@obligation('formula with Debye-Waller', UNDER)
def o2(ck):
    run(ck, True)


@obligation('wrong Debye-Waller', UNDER)
def o2b(ck):
    it = ck.new_interp()
    n, nq, n2 = dim('n'), dim('nq'), dim('n2')

    def f():
        p = modes_obj(it, n, nq)
        d = it.load('euphonic.debye_waller').DebyeWaller(crystal(it, n2), Q(decl_arr('W', (n2, 3, 3)), 'uarea'), Q(sym('tdw', nonneg=True), 'utemp'))
        return p.calculate_structure_factor(SymTable('sl', 'usl'), dw=d)
    with S.assuming(bne(n, n2)):
        for o in X.explore(f):
            ck.true('other number of atoms refused', o.kind == 'raise' and isinstance(o.value, ValueError), o)


@obligation('lemmas', UNDER)
def o3(ck):
    n, nq = dim('n'), dim('nq')
    i, m = index_sym('i', nq), index_sym('m', 3 * n)
    th = sym('theta')
    for dw in (False, True):
        ck.eq('eigenvector phase irrelevant.%d' % dw, spec(i, m, n, dw), spec(i, m, n, dw, phase(th)))
    # |A|^2 / (2 n |f|): real and not negative
    A_ = sym('A', 'complex')
    ck.eq('|A|^2 real', A_ * conj(A_), conj(A_ * conj(A_)))
    a, b, f = sym('ReA'), sym('ImA'), sym('fr')
    with S.assuming(bne(f, 0)):
        ck.holds('not negative', bge((a * a + b * b) / (2 * n * fabs(f)), 0))


@test('formula', n=50)
def t1(rng, k):
    eu = G.E()
    m = G.modes(rng, neg=True)
    n = m.crystal.n_atoms
    sl = {t: eu.ureg.Quantity(float(rng.normal()) * 5, 'fm').to(G.pick(rng, ['fm', 'bohr', 'angstrom'])) for t in set(m.crystal.atom_type)}
    arg = sl
    if rng.random() < .3:
        arg = 'Sears1992'
        sl = {t: eu.util.get_reference_data(collection='Sears1992', physical_property='coherent_scattering_length')[t] for t in set(m.crystal.atom_type)}
    dw = None
    if rng.random() < .6:
        a = rng.normal(size=(n, 3, 3)) * 0.02
        dw = eu.DebyeWaller(m.crystal, eu.ureg.Quantity(a + a.transpose(0, 2, 1), 'angstrom**2').to(G.pick(rng, ['bohr**2', 'angstrom**2'])), eu.ureg.Quantity(float(rng.choice([0, 10, 300.])), 'K'))
    ev0, f0 = m.eigenvectors.copy(), m._frequencies.copy()
    s = m.calculate_structure_factor(arg, dw=dw)
    b = 2 * np.pi * np.linalg.inv(m.crystal.cell_vectors.to('bohr').magnitude).T
    want = np.zeros((m.n_qpts, 3 * n))
    mass = m.crystal.atom_mass.to('m_e').magnitude
    for i in range(m.n_qpts):
        Q_ = m.qpts[i] @ b
        for j in range(3 * n):
            t = 0
            for a in range(n):
                x = complex(sl[m.crystal.atom_type[a]].to('bohr').magnitude) / np.sqrt(mass[a]) * np.exp(2j * np.pi * m.qpts[i] @ m.crystal.atom_r[a])
                if dw is not None:
                    x *= np.exp(-Q_ @ dw.debye_waller.to('bohr**2').magnitude[a] @ Q_)
                t += x * (ev0[i, j, a].conj() @ Q_)
            want[i, j] = abs(t) ** 2 / (2 * n * abs(f0[i, j]))
    G.need_close(s.structure_factors.to('bohr**2').magnitude, want, 'structure factor', rtol=1e-7)
    G.need(np.all(s._structure_factors >= 0), 'negative')
    G.need(np.array_equal(s.qpts, m.qpts), 'qpts')
    G.need(np.array_equal(s.weights, m.weights), 'weights %s, calculated from %s' % (s.weights, m.weights))
    G.need((s.temperature is None) == (dw is None), 'temperature')
    if dw is not None:
        G.need_close(s.temperature.to('K').magnitude, dw.temperature.to('K').magnitude, 'temperature')
    G.need(np.array_equal(m.eigenvectors, ev0) and np.array_equal(m._frequencies, f0), 'input changed')
    # phases
    ph = np.exp(2j * np.pi * rng.random((m.n_qpts, 3 * n)))
    m2 = eu.QpointPhononModes(m.crystal, m.qpts, m.frequencies, ev0 * ph[:, :, None, None], m.weights)
    G.need_close(m2.calculate_structure_factor(arg, dw=dw).structure_factors.to('bohr**2').magnitude, want, 'phase', rtol=1e-7)
    return dict(n=n, dw=dw is not None, nq=m.n_qpts)
