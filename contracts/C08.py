"""dictionary and JSON round trips"""
from contracts.common import *
from contracts import gen as G
import json
import os
import numpy as np

assume('JSON text reproduces every finite number, string, list and dictionary; tuples come back as lists (json module)')
assume('np.array(list) and np.ascontiguousarray give C-contiguous arrays; the memory layout of any other array is arbitrary')
assume('units with an offset (degree_Celsius) are covered by the replay cases only')
n, nq, nc = dim('n'), dim('nq'), dim('nc')
nx, ny, nz = dim('nx'), dim('ny'), dim('nz')
define_unit('uk1', '2.3/angstrom')
define_unit('ul2', '0.21 nm')
define_unit('um2', '7 kg')
define_unit('uf2', '5.5/cm')
define_unit('ua2', '0.7 bohr**2')
define_unit('ut2', '2.5 kelvin')
define_unit('uphi1', '0.8 eV/angstrom**2')
define_unit('uphi2', '1.7 hartree/bohr**2')
define_unit('ue1', '1.7 e')
define_unit('ue2', '0.3 coulomb')
define_unit('ud1', '1.9 e**2/(bohr*hartree)')
define_unit('ud2', '0.2 e**2/(angstrom*eV)')
define_unit('uy1', '1.1/meV')
define_unit('uy2', '0.3/hartree')
define_unit('uz1', '3 mbarn/meV')
define_unit('uz2', '4 angstrom**2/eV')
D = decl_arr
KW = dict(m=dict(pos=True))
TICKS = [(sym('t0', 'int', nonneg=True), 'G'), (sym('t1', 'int', nonneg=True), ''), (sym('t1', 'int', nonneg=True), 'X')]


def META1():
    return {'species': 'Si', 'n': 3, 'nested': {'a': [1, 'b'], 'c': {'d': 2.5}}, 'val': sym('mv')}


def META2():
    return {'desc': 'x', 'line_data': [{'i': 0, 'label': 'a'}, {'i': 1}], 'x_data': [1, 2, [3]]}


def fc(it, born=True):
    m = it.load('euphonic.force_constants')
    kw = dict(born=Q(D('z', (n, 3, 3)), 'ue1'), dielectric=Q(D('eps', (3, 3)), 'ud1')) if born else {}
    return m.ForceConstants(crystal(it, n), Q(D('phi', (nc, 3 * n, 3 * n)), 'uphi1'), D('S', (3, 3), 'i'), D('org', (nc, 3), 'i'), **kw)


def qf(it, w=True):
    return it.load('euphonic.qpoint_frequencies').QpointFrequencies(crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'), *([D('w', (nq,))] if w else []))


def qpm(it, w=True):
    return it.load('euphonic.qpoint_phonon_modes').QpointPhononModes(
        crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'), D('ev', (nq, 3 * n, n, 3), 'c'), *([D('w', (nq,))] if w else []))


def sf(it, temp=True, w=True):
    kw = dict(temperature=Q(sym('tt', nonneg=True), 'utemp')) if temp else {}
    if w:
        kw['weights'] = D('w', (nq,))
    return it.load('euphonic.structure_factor').StructureFactor(
        crystal(it, n), D('q', (nq, 3)), Q(D('f', (nq, 3 * n)), 'ufreq'), Q(D('sf', (nq, 3 * n)), 'uarea'), **kw)


def dw(it):
    return it.load('euphonic.debye_waller').DebyeWaller(crystal(it, n), Q(D('W', (n, 3, 3)), 'uarea'), Q(sym('tt', nonneg=True), 'utemp'))


def spec(cls, ex, ey, ticks, meta):
    def f(it):
        m = getattr(it.load('euphonic.spectra'), cls)
        kw = {}
        if ticks is not None:
            kw['x_tick_labels'] = list(ticks)
        if meta is not None:
            kw['metadata'] = meta()
        x = Q(D('x', (nx + ex,)), 'uk1' if ey else 'ufreq')
        y = Q(D('v', (ny + ey,)), 'ufreq')
        if cls == 'Spectrum1D':
            return m(x, Q(D('y', (nx,)), 'uy1'), **kw)
        if cls == 'Spectrum1DCollection':
            return m(x, Q(D('y', (nz, nx)), 'uy1'), **kw)
        if cls == 'Spectrum2D':
            return m(x, y, Q(D('z', (nx, ny)), 'uz1'), **kw)
        return m(x, y, Q(D('z', (nz, nx, ny)), 'uz1'), **kw)
    return f


CR = {'crystal.cell_vectors': 'ul2', 'crystal.atom_mass': 'um2'}
# name, builder, quantities and another display unit, arrays, optional attributes that are absent
CASES = [
    ('Crystal', lambda it: crystal(it, n), dict(cell_vectors='ul2', atom_mass='um2'), ['atom_r', 'atom_type'], []),
    ('ForceConstants', fc, dict(CR, force_constants='uphi2', born='ue2', dielectric='ud2'), ['sc_matrix', 'cell_origins', 'crystal.atom_r', 'crystal.atom_type'], []),
    ('ForceConstants without charges', lambda it: fc(it, False), dict(CR, force_constants='uphi2'), ['sc_matrix', 'cell_origins', 'crystal.atom_r', 'crystal.atom_type'], ['born', 'dielectric']),
    ('QpointFrequencies', qf, dict(CR, frequencies='uf2'), ['qpts', 'weights', 'crystal.atom_r', 'crystal.atom_type'], []),
    ('QpointFrequencies default weights', lambda it: qf(it, False), dict(CR, frequencies='uf2'), ['qpts', 'weights', 'crystal.atom_r', 'crystal.atom_type'], []),
    ('QpointPhononModes', qpm, dict(CR, frequencies='uf2'), ['qpts', 'weights', 'eigenvectors', 'crystal.atom_r', 'crystal.atom_type'], []),
    ('QpointPhononModes default weights', lambda it: qpm(it, False), dict(CR, frequencies='uf2'), ['qpts', 'weights', 'eigenvectors', 'crystal.atom_r'], []),
    ('StructureFactor', sf, dict(CR, frequencies='uf2', structure_factors='ua2', temperature='ut2'), ['qpts', 'weights', 'crystal.atom_r', 'crystal.atom_type'], []),
    ('StructureFactor no temperature', lambda it: sf(it, False), dict(CR, frequencies='uf2', structure_factors='ua2'), ['qpts', 'weights', 'crystal.atom_r'], ['temperature']),
    ('StructureFactor default weights', lambda it: sf(it, True, False), dict(CR, frequencies='uf2', structure_factors='ua2', temperature='ut2'), ['qpts', 'weights'], []),
    ('DebyeWaller', dw, dict(CR, debye_waller='ua2', temperature='ut2'), ['crystal.atom_r', 'crystal.atom_type'], []),
]
for cls in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection'):
    two = '2D' in cls
    col = 'Collection' in cls
    for tag, ex, ey, ticks, meta in [('bare', 0, 1, None, None), ('labels', 1, 0, TICKS, None), ('metadata', 1, 1, None, META2 if col else META1),
                                     ('labels and metadata', 0, 0, TICKS, META1), ('empty labels', 0, 0, [], META1)]:
        qs = dict(x_data='ux2' if two and ey else 'uf2', y_data='uf2' if two else 'uy2')
        if two:
            qs['z_data'] = 'uz2'
        if col and meta is META2:
            # two lines, so that there is metadata for each
            pass
        CASES.append(('%s %s' % (cls, tag), (cls, ex, ey, ticks, meta), qs, [], ['x_tick_labels'] if ticks is None else []))
define_unit('ux2', '0.7/bohr')


def attr(o, path):
    for p in path.split('.'):
        o = getattr(o, p)
    return o


def setunit(it, o, path, u):
    *pre, last = path.split('.')
    for p in pre:
        o = getattr(o, p)
    it.setattr(o, last + '_unit', u)


def idxs(shape):
    return [index_sym('i%d' % k, s) for k, s in enumerate(shape)]


def val(q):
    """contents of a quantity, array, list, ... at free indices, in fixed units"""
    if isinstance(q, Q):
        m = q.m
        s = uscale(U.as_unit(q.u)) * U.gsym(q.u)
        return (m.at(*idxs(m.vshape)) if isinstance(m, A.Arr) else P(m)) * s
    if isinstance(q, A.Arr):
        return q.at(*idxs(q.vshape))
    return P(q)


def same(ck, nm, a, b):
    """deep equality; lists and tuples are told apart"""
    if isinstance(a, A.NestedList):
        a = a.arr
    if isinstance(b, A.NestedList):
        b = b.arr
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = lift(a), lift(b)
    if isinstance(a, A.Arr) or isinstance(b, A.Arr):
        if not (isinstance(a, A.Arr) and isinstance(b, A.Arr)):
            return ck.fail(nm, 'array against %r' % (type(b) if isinstance(a, A.Arr) else type(a)))
        ck.same_shape(nm + ': shape', b, a.vshape)
        ck.true(nm + ': kind', a.kind == b.kind, '%s, %s' % (a.kind, b.kind))
        if len(a.vshape) == len(b.vshape):
            i = idxs(a.vshape)
            ck.eq(nm, b.at(*i), a.at(*i))
    elif isinstance(a, T.Poly) or isinstance(b, T.Poly):
        if isinstance(a, (str, type(None), dict, list)) or isinstance(b, (str, type(None), dict, list)):
            return ck.fail(nm, '%r, %r' % (a, b))
        ck.eq(nm, P(b), P(a))
    elif isinstance(a, dict) and isinstance(b, dict):
        ck.true(nm + ': keys', list(sorted(a)) == list(sorted(b)), '%s, %s' % (sorted(a), sorted(b)))
        for k in a:
            if k in b:
                same(ck, '%s[%s]' % (nm, k), a[k], b[k])
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ck.true(nm + ': type', type(a) is type(b) and len(a) == len(b), '%r, %r' % (a, b))
        for k, (x, y) in enumerate(zip(a, b)):
            same(ck, '%s[%d]' % (nm, k), x, y)
    else:
        ck.true(nm, type(a) is type(b) and a == b, '%r became %r' % (a, b))


def bufs(o, seen=None):
    seen = set() if seen is None else seen
    if isinstance(o, A.Arr):
        seen.add(o.buf)
    elif isinstance(o, np.ndarray):
        seen.add(o.base if o.base is not None else id(o))
    elif isinstance(o, Q):
        bufs(o.m, seen)
    elif isinstance(o, dict):
        for v in o.values():
            bufs(v, seen)
    elif isinstance(o, (list, tuple)) and not isinstance(o, A.NestedList):
        for v in o:
            bufs(v, seen)
    elif hasattr(o, '__dict__') and not callable(o) and not isinstance(o, (T.Poly, A.NestedList, type)):
        for v in vars(o).values():
            bufs(v, seen)
    return seen


def deep(o):
    if isinstance(o, A.Arr):
        return o.copy()
    if isinstance(o, dict):
        return {k: deep(v) for k, v in o.items()}
    if isinstance(o, A.NestedList):
        return A.NestedList(o.arr.copy())
    if isinstance(o, list):
        return [deep(v) for v in o]
    return o


def compare(ck, it, o, r, qs, arrs, absent, spectrum):
    ck.true('class', type(r) is type(o), type(r).__name__)
    for a in qs:
        x, y = attr(o, a), attr(r, a)
        ck.true('%s: unit' % a, attr(r, a + '_unit') == attr(o, a + '_unit'), '%s, %s' % (attr(o, a + '_unit'), attr(r, a + '_unit')))
        ck.true('%s: unit of value' % a, y.u == x.u, '%s, %s' % (x.u, y.u))
        if isinstance(x.m, A.Arr):
            ck.same_shape('%s: shape' % a, y.m, x.m.vshape)
        ck.eq(a, val(y), val(x))
    for a in arrs:
        same(ck, a, attr(o, a), attr(r, a))
    for a in absent:
        ck.true('%s stays absent' % a, attr(o, a) is None and attr(r, a) is None, '%r' % (attr(r, a),))
        if a + '_unit' in vars(o):
            ck.true('%s: unit kept' % a, attr(r, a + '_unit') == attr(o, a + '_unit'), attr(r, a + '_unit'))
    if spectrum:
        same(ck, 'labels', o.x_tick_labels, r.x_tick_labels)
        same(ck, 'metadata', o.metadata, r.metadata)
    if type(o).__name__ == 'ForceConstants':
        ck.eq('n_cells_in_sc', P(r.n_cells_in_sc), P(o.n_cells_in_sc))


for name, build, qs, arrs, absent in CASES:
    @obligation(name, ['%s.to_dict/from_dict/to_json_file/from_json_file' % name.split()[0], 'io._obj_to_dict', 'io._process_dict', 'io._to_json_dict', 'io._from_json_dict'])
    def _(ck, name=name, build=build, qs=qs, arrs=arrs, absent=absent):
        it = ck.new_interp()
        spectrum = isinstance(build, tuple)
        two_lines = False
        mkobj = spec(*build) if spectrum else build
        if name.startswith('ForceConstants'):
            # the number of cells is the determinant of the supercell matrix
            det = N.SYM['linalg.det'](D('S', (3, 3), 'i')) if 'linalg.det' in N.SYM else None
            N.HOOKS['linalg.det'] = lambda m: nc * ite(blt(sym('hand'), 0), const(-1), const(1))
        if spectrum and 'line_data' in ((build[4] or dict)() or {}):
            two_lines = True
        for display in (False, True):
            ck.prefix = 'redisplayed/' if display else ''
            keep = {}

            def mk_(it=it):
                o = mkobj(it)
                if display:
                    for a, u in qs.items():
                        setunit(it, o, a, u)
                return o

            def f():
                o = mk_()
                keep['before'] = {k: deep(v) for k, v in vars(o).items()}
                d = o.to_dict()
                keep['d'], keep['dcopy'] = d, deep(d)
                keep['o'] = o
                return type(o).from_dict(d)
            with S.assuming(beq(nz, 2)) if two_lines else S.assuming(T.TRUE):
                for out in returns(ck, f):
                    o, d = keep['o'], keep['d']
                    compare(ck, it, o, out.value, qs, arrs, absent, spectrum)
                    same(ck, 'the dictionary is not modified', keep['dcopy'], d)
                    same(ck, 'the object is not modified', {k: v for k, v in keep['before'].items() if k != 'crystal'}, {k: v for k, v in vars(o).items() if k != 'crystal'})
                    ck.true('no array shared with the dictionary', not (bufs(o) & bufs(d)), 'shared')
                    if spectrum:
                        ck.true('no list of labels shared with the dictionary', d.get('x_tick_labels') is None or d['x_tick_labels'] is not attr(o, 'x_tick_labels'), 'shared')
                    ck.true('no array of the result shared with the dictionary', not (bufs(out.value) & bufs(d)), 'shared')
                    for a in absent:
                        ck.true('%s not in the dictionary' % a, a not in d and a + '_unit' not in d, sorted(d))

            def g():
                o = mk_()
                keep['before'] = {k: deep(v) for k, v in vars(o).items()}
                keep['o'] = o
                o.to_json_file('out.json')
                return type(o).from_json_file('out.json')
            ck.prefix = 'json/' + ck.prefix
            with S.assuming(beq(nz, 2)) if two_lines else S.assuming(T.TRUE):
                for out in returns(ck, g):
                    o = keep['o']
                    compare(ck, it, o, out.value, qs, arrs, absent, spectrum)
                    same(ck, 'the object is not modified', {k: v for k, v in keep['before'].items() if k != 'crystal'}, {k: v for k, v in vars(o).items() if k != 'crystal'})
            ck.prefix = ''


# -------------------------------------------------------------------- real code
def layout(rng, a):
    """the same array in another memory layout"""
    a = np.asarray(a)
    k = int(rng.integers(4))
    if a.ndim == 0 or k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a[::-1].copy()[::-1]


LBL = ['', 'G', '$\\Gamma$', 'X U', '\u0393', '1 2 3', "a'\"b"]


def meta(rng, nlines=None):
    d = {}
    if rng.random() < .7:
        d['desc'] = G.pick(rng, LBL)
    if rng.random() < .5:
        d['n'] = int(rng.integers(5))
        d['x'] = float(rng.normal())
    if rng.random() < .5:
        d['nested'] = {'a': [1, 'b', [2.5]], 'c': {'d': None, 'y_data': [1, 2]}, 'flag': True}
    if nlines and rng.random() < .7:
        d['line_data'] = [{'index': i, 'label': G.pick(rng, LBL)} for i in range(nlines)]
    return d


def obj(rng):
    """(object, quantities, arrays)"""
    eu = G.E()
    Qy = eu.ureg.Quantity
    q = lambda a, u: Qy(layout(rng, a), u)
    c = G.crystal(rng)
    c = eu.Crystal(q(c.cell_vectors.magnitude, c.cell_vectors_unit), layout(rng, c.atom_r), c.atom_type, q(c.atom_mass.magnitude, c.atom_mass_unit))
    k = int(rng.integers(12))
    N_ = c.n_atoms
    if k == 0:
        if rng.random() < .3:
            return eu.Crystal.from_cell_vectors(c.cell_vectors), ['cell_vectors', 'atom_mass'], ['atom_r', 'atom_type'], []
        return c, ['cell_vectors', 'atom_mass'], ['atom_r', 'atom_type'], []
    if k in (1, 2):
        b = k == 1
        f = G.force_constants(rng, n=int(rng.integers(1, 3)), born=b)
        f = eu.ForceConstants(f.crystal, q(f.force_constants.magnitude, f.force_constants_unit), layout(rng, f.sc_matrix), layout(rng, f.cell_origins),
                              q(f.born.magnitude, f.born_unit) if b else None, q(f.dielectric.magnitude, f.dielectric_unit) if b else None)
        return f, ['force_constants'] + (['born', 'dielectric'] if b else []), ['sc_matrix', 'cell_origins'], [] if b else ['born', 'dielectric']
    m = G.modes(rng, crys=c)
    w = () if rng.random() < .4 else (layout(rng, m.weights),)
    fr = q(m.frequencies.magnitude, m.frequencies_unit)
    if k == 3:
        return eu.QpointFrequencies(c, layout(rng, m.qpts), fr, *w), ['frequencies'], ['qpts', 'weights'], []
    if k in (4, 5):
        return eu.QpointPhononModes(c, layout(rng, m.qpts), fr, layout(rng, m.eigenvectors), *w), ['frequencies'], ['qpts', 'weights', 'eigenvectors'], []
    tu = G.pick(rng, ['K', 'mK', 'degC', 'degF'])
    T_ = Qy(float(rng.uniform(1, 400)), tu)
    if k == 6:
        return eu.DebyeWaller(c, q(rng.normal(size=(N_, 3, 3)), 'angstrom**2'), T_), ['debye_waller', 'temperature'], [], []
    if k == 7:
        t = T_ if rng.random() < .6 else None
        s = rng.uniform(0, 3, m._frequencies.shape)
        if rng.random() < .3:
            s[0, 0] = np.nan
        return eu.StructureFactor(c, layout(rng, m.qpts), fr, q(s, 'mbarn'), *(w or (None,)), t), ['frequencies', 'structure_factors'] + (['temperature'] if t is not None else []), \
            ['qpts', 'weights'], [] if t is not None else ['temperature']
    from euphonic.spectra import Spectrum2DCollection
    nx_, ny_, nz_ = (int(x) for x in rng.integers(1, 6, 3))
    if nx_ < 2:
        nx_ = 2
    e = lambda m_, u: q(np.cumsum(rng.uniform(.5, 3, m_ + int(rng.random() < .5))), u)

    def y(shape, u):
        a = rng.normal(size=shape)
        if rng.random() < .3:
            a.flat[0] = G.pick(rng, [np.nan, np.inf, -np.inf, -0.])
        return q(a, u)
    xu, yu = G.pick(rng, ['meV', '1/angstrom', '1/cm', 'angstrom', 'THz']), G.pick(rng, ['1/meV', 'mbarn/meV', 'meV', 'angstrom**2', '1/hartree', 'dimensionless'])
    kw = {}
    if rng.random() < .6:
        kw['x_tick_labels'] = [(int(i), G.pick(rng, LBL)) for i in np.sort(rng.integers(0, nx_, int(rng.integers(0, 4))))]
    if rng.random() < .7:
        kw['metadata'] = meta(rng, {9: ny_, 11: nz_}.get(k))
    ab = [] if 'x_tick_labels' in kw else ['x_tick_labels']
    if k == 8:
        return eu.Spectrum1D(e(nx_, xu), y(nx_, yu), **kw), ['x_data', 'y_data'], [], ab
    if k == 9:
        return eu.Spectrum1DCollection(e(nx_, xu), y((ny_, nx_), yu), **kw), ['x_data', 'y_data'], [], ab
    if k == 10:
        return eu.Spectrum2D(e(nx_, xu), e(ny_, 'meV'), y((nx_, ny_), yu), **kw), ['x_data', 'y_data', 'z_data'], [], ab
    return Spectrum2DCollection(e(nx_, xu), e(ny_, 'meV'), y((nz_, nx_, ny_), yu), **kw), ['x_data', 'y_data', 'z_data'], [], ab


OTHER = {'cell_vectors': ['angstrom', 'bohr'], 'atom_mass': ['amu', 'kg'], 'frequencies': ['meV', 'hartree', '1/cm', 'THz'],
         'structure_factors': ['bohr**2', 'angstrom**2'], 'temperature': ['K', 'mK', 'degC'], 'debye_waller': ['bohr**2', 'nm**2'],
         'force_constants': ['hartree/bohr**2', 'eV/angstrom**2', 'N/m'], 'born': ['e', 'coulomb'], 'dielectric': ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)']}


def arrays(o, out=None):
    out = [] if out is None else out
    if isinstance(o, np.ndarray):
        out.append(o)
    elif isinstance(o, dict):
        for v in o.values():
            arrays(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            arrays(v, out)
    elif hasattr(o, '__dict__') and type(o).__module__.startswith('euphonic'):
        for v in vars(o).values():
            arrays(v, out)
    elif hasattr(o, 'magnitude'):
        arrays(o.magnitude, out)
    return out


def eqv(a, b):
    """exact equality of nested content"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and \
            a.dtype.kind == b.dtype.kind and (np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__') and type(a).__module__.startswith('euphonic'):
        return type(a) is type(b) and eqv(vars(a), vars(b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return a == b


def check_same(o, r, qs, arrs, absent, what):
    G.need(type(r) is type(o), '%s: class %s' % (what, type(r)))
    pairs = [(o, r, qs, arrs)]
    if hasattr(o, 'crystal'):
        pairs.append((o.crystal, r.crystal, ['cell_vectors', 'atom_mass'], ['atom_r', 'atom_type']))
    for a, b, qq, aa in pairs:
        for x in qq:
            G.need(G.E().ureg.Unit(getattr(a, x + '_unit')) == G.E().ureg.Unit(getattr(b, x + '_unit')), '%s: %s_unit %s became %s' % (what, x, getattr(a, x + '_unit'), getattr(b, x + '_unit')))
            p, q = getattr(a, x), getattr(b, x)
            G.need(p.units == q.units, '%s: unit of %s' % (what, x))
            p, q = np.asarray(p.magnitude), np.asarray(q.magnitude)
            G.need(p.shape == q.shape, '%s: shape of %s' % (what, x))
            G.need(np.allclose(q, p, rtol=1e-11, atol=1e-11 * np.max(np.abs(p[np.isfinite(p)]), initial=0), equal_nan=True), '%s: %s changed: %s, %s' % (what, x, p, q))
        for x in aa:
            G.need(eqv(np.asarray(getattr(a, x)), np.asarray(getattr(b, x))), '%s: %s %r became %r' % (what, x, getattr(a, x), getattr(b, x)))
    for x in absent:
        G.need(getattr(r, x) is None, '%s: %s was absent, now %r' % (what, x, getattr(r, x)))
    if hasattr(o, 'metadata'):
        G.need(eqv(o.x_tick_labels, r.x_tick_labels), '%s: labels %r became %r' % (what, o.x_tick_labels, r.x_tick_labels))
        G.need(eqv(o.metadata, r.metadata), '%s: metadata %r became %r' % (what, o.metadata, r.metadata))


@test('round trips', n=300, n_thorough=1500)
def t1(rng, k):
    import contextlib
    import copy
    import io
    import tempfile
    o, qs, arrs, absent = obj(rng)
    targets = [(o, x) for x in qs] + ([(o.crystal, x) for x in ('cell_vectors', 'atom_mass')] if hasattr(o, 'crystal') else [])
    seq = []
    for t, x in targets:
        if rng.random() < .5 and x in OTHER:
            setattr(t, x + '_unit', G.pick(rng, OTHER[x]))
            seq.append((x, getattr(t, x + '_unit')))
    before = copy.deepcopy(vars(o))
    d = o.to_dict()
    G.need(eqv(before, vars(o)), 'to_dict changed the object')
    for a in arrays(o):
        G.need(not any(np.shares_memory(a, b) for b in arrays(d)), 'the dictionary shares an array with the object')
    if d.get('x_tick_labels') is not None:
        G.need(d['x_tick_labels'] is not o.x_tick_labels, 'the dictionary shares the list of tick labels with the object')
    keep = copy.deepcopy(d)
    r = type(o).from_dict(d)
    G.need(eqv(keep, d), 'from_dict changed the dictionary')
    check_same(o, r, qs, arrs, absent, 'dictionary')
    for a in arrays(d):
        if a.size:
            a[...] = np.zeros((), a.dtype)
    G.need(eqv(before, vars(o)), 'changing the dictionary changed the object')
    check_same(o, r, qs, arrs, absent, 'after overwriting the dictionary')
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'o.json')
        with contextlib.redirect_stdout(io.StringIO()):
            o.to_json_file(f)
        G.need(eqv(before, vars(o)), 'to_json_file changed the object')
        r = type(o).from_json_file(f)
        check_same(o, r, qs, arrs, absent, 'JSON')
        g = os.path.join(tmp, 'p.json')
        with contextlib.redirect_stdout(io.StringIO()):
            r.to_json_file(g)
        check_same(o, type(o).from_json_file(g), qs, arrs, absent, 'second JSON')
    return dict(cls=type(o).__name__, units=seq)
