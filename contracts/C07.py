"""unit attributes"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('conversions between energy, frequency and wavenumber are proportional (pint spectroscopy context); '
       'wavelength (reciprocal) conversions are covered by the replay cases only')
n, nq, nc = dim('n'), dim('nq'), dim('nc')
nx, ny, nz = dim('nx'), dim('ny'), dim('nz')
define_unit('uk1', '2.3/angstrom')
define_unit('uk2', '0.4/bohr')
define_unit('ul2', '0.21 nm')
define_unit('um2', '7 kg')
define_unit('uf2', '5.5/cm')
define_unit('uf3', '0.03 THz')
define_unit('ua2', '0.7 bohr**2')
define_unit('ut2', '2.5 kelvin')
define_unit('uphi1', '0.8 eV/angstrom**2')
define_unit('uphi2', '1.7 hartree/bohr**2')
define_unit('ue1', '1.7 e')
define_unit('ue2', '0.3 coulomb')
define_unit('ud1', '1.9 e**2/(bohr*hartree)')
define_unit('ud2', '0.2 e**2/(angstrom*eV)')
define_unit('uy1', '1.1/meV')
define_unit('uy2', '0.3/hartree')
define_unit('uz1', '3 mbarn/meV')
define_unit('uz2', '4 angstrom**2/eV')

D = decl_arr


def mkcrystal(it):
    return crystal(it, n)


def fc(it):
    m = it.load('euphonic.force_constants')
    # |det| of the supercell matrix, rounded, is the number of cells
    return m.ForceConstants(crystal(it, n), Q(D('phi', (1, 3 * n, 3 * n)), 'uphi1'), np.eye(3, dtype=int), np.zeros((1, 3), int),
                            born=Q(D('z', (n, 3, 3)), 'ue1'), dielectric=Q(D('eps', (3, 3)), 'ud1'))


def qf(it):
    return it.load('euphonic.qpoint_frequencies').QpointFrequencies(crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'), D('w', (nq,)))


def qpm(it):
    return it.load('euphonic.qpoint_phonon_modes').QpointPhononModes(crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'),
                                                                      D('ev', (nq, 3 * n, n, 3), 'c'), D('w', (nq,)))


def sf(it):
    return it.load('euphonic.structure_factor').StructureFactor(
        crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'), Q(D('sf', (nq, 3 * n)), 'uarea'), D('w', (nq,)), Q(sym('tt', nonneg=True), 'utemp'))


def dw(it):
    return it.load('euphonic.debye_waller').DebyeWaller(crystal(it, n), Q(D('W', (n, 3, 3)), 'uarea'), Q(sym('tt', nonneg=True), 'utemp'))


def s1(it):
    return it.load('euphonic.spectra').Spectrum1D(Q(D('x', (nx,)), 'ufreq'), Q(D('y', (nx,)), 'uy1'))


def s1e(it):
    return it.load('euphonic.spectra').Spectrum1D(Q(D('x', (nx + 1,)), 'uk1'), Q(D('y', (nx,)), 'uz1'))


def s1c(it):
    return it.load('euphonic.spectra').Spectrum1DCollection(Q(D('x', (nx,)), 'ufreq'), Q(D('y', (ny, nx)), 'uy1'))


def s2(it):
    return it.load('euphonic.spectra').Spectrum2D(Q(D('x', (nx + 1,)), 'uk1'), Q(D('y', (ny,)), 'ufreq'), Q(D('z', (nx, ny)), 'uz1'))


def s2c(it):
    return it.load('euphonic.spectra').Spectrum2DCollection(Q(D('x', (nx,)), 'uk1'), Q(D('y', (ny + 1,)), 'ufreq'), Q(D('z', (nz, nx, ny)), 'uz1'))


# attribute -> (array name, shape, unit at construction, other units, an inconsistent unit)
LENG = ('ulen', ('ul2', 'bohr'), 'meV/kelvin')
MASS = ('umass', ('um2', 'amu'), 'angstrom')
FREQ = ('ufreq', ('uf2', 'uf3', 'meV'), 'kelvin')
AREA = ('uarea', ('ua2', 'mbarn'), 'kelvin')
TEMP = ('utemp', ('ut2', 'kelvin'), 'meV')
TABLE = [
    ('Crystal', mkcrystal, dict(cell_vectors=('cell', (3, 3)) + LENG, atom_mass=('m', (n,)) + MASS)),
    ('ForceConstants', fc, dict(force_constants=('phi', (1, 3 * n, 3 * n), 'uphi1', ('uphi2', 'hartree/bohr**2'), 'meV'),
                                born=('z', (n, 3, 3), 'ue1', ('ue2',), 'meV'),
                                dielectric=('eps', (3, 3), 'ud1', ('ud2',), 'meV'))),
    ('QpointFrequencies', qf, dict(frequencies=('f', (nq, 3 * n)) + FREQ)),
    ('QpointPhononModes', qpm, dict(frequencies=('f', (nq, 3 * n)) + FREQ)),
    ('StructureFactor', sf, dict(frequencies=('f', (nq, 3 * n)) + FREQ, structure_factors=('sf', (nq, 3 * n)) + AREA, temperature=('tt', ()) + TEMP)),
    ('DebyeWaller', dw, dict(debye_waller=('W', (n, 3, 3)) + AREA, temperature=('tt', ()) + TEMP)),
    ('Spectrum1D', s1, dict(x_data=('x', (nx,)) + FREQ, y_data=('y', (nx,), 'uy1', ('uy2', '1/meV'), 'kelvin'))),
    ('Spectrum1D edges', s1e, dict(x_data=('x', (nx + 1,), 'uk1', ('uk2', '1/angstrom'), 'kelvin'), y_data=('y', (nx,), 'uz1', ('uz2',), 'kelvin'))),
    ('Spectrum1DCollection', s1c, dict(x_data=('x', (nx,)) + FREQ, y_data=('y', (ny, nx), 'uy1', ('uy2',), 'kelvin'))),
    ('Spectrum2D', s2, dict(x_data=('x', (nx + 1,), 'uk1', ('uk2',), 'kelvin'), y_data=('y', (ny,)) + FREQ, z_data=('z', (nx, ny), 'uz1', ('uz2',), 'kelvin'))),
    ('Spectrum2DCollection', s2c, dict(x_data=('x', (nx,), 'uk1', ('uk2',), 'kelvin'), y_data=('y', (ny + 1,)) + FREQ, z_data=('z', (nz, nx, ny), 'uz1', ('uz2',), 'kelvin'))),
]
KW = dict(m=dict(pos=True), tt=dict(nonneg=True))


def elem(nm, idx):
    if not idx:
        return sym(nm, **KW.get(nm, {}))
    return sel(nm, *idx, **KW.get(nm, {}))


def us(u):      # energies, frequencies and wavenumbers are compared as energies
    u = U.as_unit(u)
    return uscale(u) * U.gsym(u)


def idxs(shape):
    return [index_sym('i%d' % k, s) for k, s in enumerate(shape)]


def read(q, idx):
    return (q.m.at(*idx) if idx else P(q.m)) * us(q.u)


def snapshot(o):
    out = {}
    for k, v in vars(o).items():
        out[k] = v.copy() if isinstance(v, A.Arr) else v
    return out


def same_state(ck, nm, o, before):
    after = vars(o)
    ck.true(nm + ': same attributes', set(after) == set(before), '%s' % (set(after) ^ set(before)))
    for k, v in before.items():
        w = after.get(k)
        if isinstance(v, A.Arr):
            ck.eq('%s: %s' % (nm, k), w.at(*idxs(w.vshape)), v.at(*idxs(v.vshape)))
        elif isinstance(v, T.Poly):
            ck.eq('%s: %s' % (nm, k), P(w), v)
        elif isinstance(v, str):
            ck.true('%s: %s' % (nm, k), v == w, '%r became %r' % (v, w))


def physical_state(ck, nm, o, attrs, skip=()):
    for a, (arr, shape, *_) in attrs.items():
        if a in skip:
            continue
        q = getattr(o, a)
        i = idxs(shape)
        ck.eq('%s: %s' % (nm, a), read(q, i), elem(arr, i) * us(attrs[a][2]))


for cname, make, attrs in TABLE:
    @obligation(cname, ['%s units' % cname])
    def _(ck, cname=cname, make=make, attrs=attrs):
        it = ck.new_interp()
        for a, (arr, shape, u0, others, bad) in attrs.items():
            i = idxs(shape)
            ck.prefix = a + '/'
            # as constructed
            for o in returns(ck, lambda: make(it)):
                q = getattr(o.value, a)
                ck.true('constructed unit', q.u == U.as_unit(u0), q.u)
                ck.eq('constructed value', read(q, i), elem(arr, i) * us(u0))
                ck.true('unit attribute', U.as_unit(getattr(o.value, a + '_unit')) == U.as_unit(u0))
            for u in others:
                def f():
                    o = make(it)
                    it.setattr(o, a + '_unit', u)
                    return o
                for o in returns(ck, f):
                    q = getattr(o.value, a)
                    ck.true('display unit %s' % u, q.u == U.as_unit(u), q.u)
                    ck.eq('same quantity in %s' % u, read(q, i), elem(arr, i) * us(u0))
                    physical_state(ck, 'others unchanged by %s' % u, o.value, attrs, skip=(a,))
                # assignment in another unit
                def g():
                    o = make(it)
                    v = Q(decl_arr('new', shape) if shape else sym('new', nonneg=True), u)
                    it.setattr(o, a, v)
                    return o
                for o in returns(ck, g):
                    q = getattr(o.value, a)
                    ck.true('assigned unit %s' % u, q.u == U.as_unit(u), q.u)
                    want = sel('new', *i) if shape else sym('new', nonneg=True)
                    ck.eq('assigned value %s' % u, read(q, i), want * us(u))
                    physical_state(ck, 'others unchanged by assignment in %s' % u, o.value, attrs, skip=(a,))
                    # and back to the first unit
                    it.setattr(o.value, a + '_unit', u0)
                    q = getattr(o.value, a)
                    ck.true('back to %s' % u0, q.u == U.as_unit(u0), q.u)
                    ck.eq('assigned in %s, read in %s' % (u, u0), read(q, i), want * us(u))
            # inconsistent unit
            for what in ('unit', 'assignment'):
                keep = {}

                def h():
                    o = make(it)
                    keep['o'], keep['s'] = o, snapshot(o)
                    if what == 'unit':
                        it.setattr(o, a + '_unit', bad)
                    else:
                        it.setattr(o, a, Q(decl_arr('new', shape) if shape else sym('new', nonneg=True), bad))
                    return o
                for o in X.explore(h):
                    ck.true('inconsistent %s refused' % what, o.kind == 'raise' and isinstance(o.value, ValueError if what == 'unit' else Exception), o)
                    if o.kind == 'raise':
                        same_state(ck, 'inconsistent %s leaves the object alone' % what, keep['o'], keep['s'])
        ck.prefix = ''


# -------------------------------------------------------------------- real code
EN = ['meV', 'hartree', '1/cm', 'THz', 'eV', 'J', 'nm', 'angstrom']
OPTS = {'cell_vectors': ['angstrom', 'bohr', 'nm', 'm'], 'atom_mass': ['amu', 'kg', 'g', 'm_e'],
        'force_constants': ['hartree/bohr**2', 'eV/angstrom**2', 'meV/angstrom**2', 'N/m'],
        'born': ['e', 'coulomb'], 'dielectric': ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)'],
        'frequencies': EN, 'structure_factors': ['bohr**2', 'angstrom**2', 'mbarn', 'barn'], 'temperature': ['K', 'mK', 'kK'],
        'debye_waller': ['bohr**2', 'angstrom**2', 'nm**2']}


def rand_obj(rng):
    """(object, {attribute: units})"""
    eu = G.E()
    k = int(rng.integers(11))
    if k == 0:
        return G.crystal(rng), ['cell_vectors', 'atom_mass']
    if k == 1:
        b = bool(rng.random() < .5)
        return G.force_constants(rng, n=int(rng.integers(1, 3)), born=b), ['force_constants'] + (['born', 'dielectric'] if b else [])
    if k == 2:
        return G.freqs(rng, neg=False), ['frequencies']
    if k == 3:
        return G.modes(rng, neg=False), ['frequencies']
    if k in (4, 5):
        m = G.modes(rng, neg=False)
        if k == 4:
            return eu.DebyeWaller(m.crystal, eu.ureg.Quantity(rng.normal(size=(m.crystal.n_atoms, 3, 3)), 'angstrom**2'), eu.ureg.Quantity(rng.uniform(1, 400), 'K')), ['debye_waller', 'temperature']
        t = eu.ureg.Quantity(rng.uniform(1, 400), 'K') if rng.random() < .6 else None
        return eu.StructureFactor(m.crystal, m.qpts, m.frequencies, eu.ureg.Quantity(rng.uniform(0, 3, m._frequencies.shape), 'angstrom**2'), m.weights, t), \
            ['frequencies', 'structure_factors'] + (['temperature'] if t is not None else [])
    from euphonic.spectra import Spectrum2DCollection
    nx_, ny_, nz_ = (int(x) for x in rng.integers(1, 6, 3))
    e = lambda m, u: eu.ureg.Quantity(np.cumsum(rng.uniform(.5, 3, m + int(rng.random() < .5))), u)
    xu, yu = G.pick(rng, ['meV', '1/angstrom', '1/cm', 'angstrom']), G.pick(rng, ['1/meV', 'mbarn/meV', 'meV', 'angstrom**2', '1/hartree'])
    if k == 6:
        return eu.Spectrum1D(e(nx_, xu), eu.ureg.Quantity(rng.uniform(1, 2, nx_), yu)), ['x_data', 'y_data']
    if k == 7:
        return eu.Spectrum1DCollection(e(nx_, xu), eu.ureg.Quantity(rng.uniform(1, 2, (ny_, nx_)), yu)), ['x_data', 'y_data']
    if k in (8, 9):
        return eu.Spectrum2D(e(nx_, xu), e(ny_, 'meV'), eu.ureg.Quantity(rng.uniform(1, 2, (nx_, ny_)), yu)), ['x_data', 'y_data', 'z_data']
    return Spectrum2DCollection(e(nx_, xu), e(ny_, 'meV'), eu.ureg.Quantity(rng.uniform(1, 2, (nz_, nx_, ny_)), yu)), ['x_data', 'y_data', 'z_data']


def units_for(q, a):
    if a in OPTS:
        return OPTS[a]
    d = q.units
    eu = G.E()
    for grp in (['meV', 'hartree', '1/cm', 'THz', 'eV'], ['1/angstrom', '1/bohr', '1/nm'], ['angstrom', 'nm', 'bohr'], ['1/meV', '1/hartree', '1/eV', '1/THz'],
                ['mbarn/meV', 'angstrom**2/eV', 'bohr**2/hartree'], ['angstrom**2', 'barn']):
        if (1 * d).dimensionality == (1 * eu.ureg(grp[0])).dimensionality:
            return grp
    return [str(d)]


def to(q, u):
    return q.to(u, 'reciprocal_spectroscopy')


@test('units', n=200)
def t1(rng, k):
    import pickle
    eu = G.E()
    o, attrs = rand_obj(rng)
    before = {a: getattr(o, a) for a in attrs}
    seq = []
    for _ in range(4):
        a = G.pick(rng, attrs)
        u = G.pick(rng, units_for(before[a], a))
        if rng.random() < .5:
            setattr(o, a + '_unit', u)
            seq.append(('unit', a, u))
        else:
            new = getattr(o, a)
            new = to(new * rng.uniform(.5, 2), u)
            setattr(o, a, new)
            before[a] = new
            seq.append(('value', a, u))
        for b in attrs:
            q = getattr(o, b)
            G.need_close(q.to(before[b].units, 'reciprocal_spectroscopy').magnitude, before[b].magnitude, '%s after %s' % (b, seq), rtol=1e-9)
        q = getattr(o, a)
        G.need(q.units == eu.ureg.Unit(u) or eu.ureg.Quantity(1, q.units) == eu.ureg.Quantity(1, u), 'unit of %s is %s after %s' % (a, q.units, seq))
    for a in attrs:
        for bad, val in ((G.pick(rng, ['kg*K', 'mole', 'meV**3']), None), ('candela', 1), ('notaunit', None)):
            st = {x: np.copy(y) if isinstance(y, np.ndarray) else y for x, y in vars(o).items()}
            if val is None:
                G.need(G.raises(lambda: setattr(o, a + '_unit', bad)), '%s_unit = %s accepted' % (a, bad))
            else:
                G.need(G.raises(lambda: setattr(o, a, getattr(o, a).magnitude * eu.ureg(bad))), '%s in %s accepted' % (a, bad))
            for x, y in vars(o).items():
                same = np.array_equal(st[x], y) if isinstance(y, np.ndarray) else st[x] is y or st[x] == y
                G.need(same and set(st) == set(vars(o)), 'rejected %s of %s changed %s' % (bad, a, x))
    return dict(cls=type(o).__name__, steps=seq)


@test('assignment needing the reciprocal context', n=20)
def t1b(rng, k):
    # a unit accepted for display is accepted for assignment, or the object is left alone
    eu = G.E()
    o = eu.Spectrum1D(eu.ureg.Quantity(np.arange(4.) + 1, 'meV'), eu.ureg.Quantity(np.arange(3.) + 1, '1/meV'))
    u = G.pick(rng, ['1/THz', 'cm', '1/hartree', '1/K'])
    st = dict(vars(o))
    new = eu.ureg.Quantity(np.array([2., 3, 4]), u)
    try:
        o.y_data = new
    except Exception:
        for x, y in vars(o).items():
            G.need(st[x] is y or (isinstance(y, str) and st[x] == y), 'refused assignment in %s changed %s to %s' % (u, x, y))
        return dict(unit=u, refused=True)
    G.need_close(o.y_data.magnitude, new.magnitude, 'assigned in ' + u)
    G.need(o.y_data.units == new.units, 'unit')
    return dict(unit=u, refused=False)


def derived(o, rng_seed):
    """derived results as plain arrays in fixed units"""
    eu = G.E()
    rng = np.random.default_rng(rng_seed)
    out = {}
    Qy = eu.ureg.Quantity
    if isinstance(o, eu.Crystal):
        out['recip'] = o.reciprocal_cell().to('1/angstrom')
        out['volume'] = o.cell_volume().to('angstrom**3')
        out['grid'] = o.get_mp_grid_spec(Qy(0.3317, '1/angstrom'))
        r, t, e = o.get_symmetry_equivalent_atoms()
        out['eq'] = e
    elif isinstance(o, eu.StructureFactor):
        e = Qy(np.linspace(-80, 80, 23) + .0123, 'meV')
        out['sqw'] = o.calculate_sqw_map(e).z_data.to('angstrom**2/meV')
        out['avg'] = o.calculate_1d_average(e).y_data.to('angstrom**2/meV')
    elif isinstance(o, eu.QpointPhononModes):
        e = Qy(np.linspace(-10, 90, 23) + .0123, 'meV')
        out['dos'] = o.calculate_dos(e).y_data.to('1/meV')
        out['pdos'] = o.calculate_pdos(e, weighting='coherent').y_data.to('mbarn/meV')
        out['dw'] = o.calculate_debye_waller(Qy(50, 'K'), symmetrise=False).debye_waller.to('angstrom**2')
        s = o.calculate_structure_factor({x: Qy(3.3, 'fm') for x in set(o.crystal.atom_type)})
        out['sf'] = s.structure_factors.to('angstrom**2')
        out['disp'] = o.get_dispersion().y_data.to('meV')
        out['axis'] = o.get_dispersion().x_data.to('1/angstrom')
        out['map'] = o.calculate_dos_map(e).z_data.to('1/meV')
    elif isinstance(o, eu.ForceConstants):
        p, g = o.calculate_qpoint_phonon_modes(rng.uniform(-.5, .5, (3, 3)), return_mode_gradients=True, use_c=False, asr='reciprocal')
        out['freq'] = p.frequencies.to('meV')
        out['grad'] = (g ** 2).sum(-1).to('meV**2*angstrom**2')
    elif isinstance(o, eu.Spectrum1D) and len(o.x_data) > 3 and o.y_data.check('1/[energy]'):
        out['broad'] = o.broaden(2 * (o.x_data[-1] - o.x_data[0]) / len(o.x_data), method='convolve').y_data.to('1/meV')
    return {k: getattr(v, 'magnitude', v) for k, v in out.items()}


CHANGE = {'cell_vectors': ['angstrom', 'bohr', 'nm'], 'atom_mass': ['amu', 'kg'], 'frequencies': ['meV', 'hartree', '1/cm', 'THz'],
          'structure_factors': ['bohr**2', 'mbarn'], 'temperature': ['K', 'mK'], 'force_constants': ['hartree/bohr**2', 'eV/angstrom**2', 'N/m'],
          'born': ['e', 'coulomb'], 'dielectric': ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)']}


@test('derived results', n=40)
def t2(rng, k):
    eu = G.E()
    kind = k % 4
    if kind == 0:
        o = G.crystal(rng)
        if o.cell_vectors_unit in ('m', 'meter'):      # spglib itself gives up on cells of 1e-10 length units
            o.cell_vectors_unit = 'angstrom'
    elif kind == 1:
        o = G.modes(rng, neg=False)
    elif kind == 2:
        m = G.modes(rng)
        o = eu.StructureFactor(m.crystal, m.qpts, m.frequencies, eu.ureg.Quantity(rng.uniform(0, 3, m._frequencies.shape), 'angstrom**2'), m.weights, eu.ureg.Quantity(100, 'K'))
    else:
        o = G.force_constants(rng, n=int(rng.integers(1, 3)), born=bool(rng.random() < .5))
    a = derived(o, 5)
    seq = []
    for obj_ in (o, getattr(o, 'crystal', None)):
        for at, us_ in CHANGE.items():
            if obj_ is not None and hasattr(obj_, at + '_unit') and rng.random() < .8:
                if at == 'temperature' and obj_.temperature is None:
                    continue
                u = G.pick(rng, us_)
                setattr(obj_, at + '_unit', u)
                seq.append((at, u))
    b = derived(o, 5)
    for x in a:
        G.need_close(b[x], a[x], '%s of %s after %s' % (x, type(o).__name__, seq), rtol=1e-6, atol=1e-6 * (np.abs(a[x]).max() if np.size(a[x]) else 1))
    return dict(cls=type(o).__name__, n=len(seq))
