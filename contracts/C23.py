"""inconsistent data are rejected at construction"""
from contracts.common import *
from contracts import gen as G
import random
import numpy as np

assume('the element type of an ndarray is not looked at by the constructors (a precondition)',
       'at least one q-point, atom, spectrum and line (empty lists are a precondition)')
V = 'euphonic.validate.'
UNDER = [V + '_check_constructor_inputs', V + '_replace_dim']
D = decl_arr
define_unit('ux', '0.7 meV')
define_unit('uy', '1.7/meV')
define_unit('uz', '0.9 mbarn/meV')
define_unit('uphi', '0.8 eV/angstrom**2')
define_unit('uchg', '1.7 e')
define_unit('ueps', '1.9 e**2/(bohr*hartree)')
n, nq, nc, nx, ny, nz = (dim(x) for x in ('n', 'nq', 'nc', 'nx', 'ny', 'nz'))


def fresh(tag, rank):
    return tuple(dim('%s_%d' % (tag, k)) for k in range(rank))


# number of cells of the supercell: |det of the supercell matrix|
NSC = fabs(N.det3(lambda i, j: sel('sc_matrix', const(i), const(j), kind='i')))


# kind of argument: unit for a Quantity, 'arr' for an array; expected shape as a function of the class' sizes
#   the sizes are read off the arguments named in FROM, the others must agree with them
def crys(it):
    return crystal(it, n)


SPECS = {
    'Crystal': ('euphonic.crystal', [], [
        ('cell_vectors', 'ulen', lambda z: [(3, 3)]),
        ('atom_r', 'arr', lambda z: [(z['atom_r'][0], 3)]),
        ('atom_type', 'arr', lambda z: [(z['atom_r'][0],)]),
        ('atom_mass', 'umass', lambda z: [(z['atom_r'][0],)])], {}),
    'ForceConstants': ('euphonic.force_constants', ['crystal'], [
        ('force_constants', 'uphi', lambda z: [(NSC, 3 * n, 3 * n)]),
        ('sc_matrix', 'arr', lambda z: [(3, 3)]),
        ('cell_origins', 'arr', lambda z: [(NSC, 3)]),
        ('born', 'uchg', lambda z: [(n, 3, 3)]),
        ('dielectric', 'ueps', lambda z: [(3, 3)])], {}),
    'QpointFrequencies': ('euphonic.qpoint_frequencies', ['crystal'], [
        ('qpts', 'arr', lambda z: [(z['qpts'][0], 3)]),
        ('frequencies', 'ufreq', lambda z: [(z['qpts'][0], z['frequencies'][1] if len(z['frequencies']) > 1 else 0)]),
        ('weights', 'arr', lambda z: [(z['qpts'][0],)])], {}),
    'QpointPhononModes': ('euphonic.qpoint_phonon_modes', ['crystal'], [
        ('qpts', 'arr', lambda z: [(z['qpts'][0], 3)]),
        ('frequencies', 'ufreq', lambda z: [(z['qpts'][0], 3 * n)]),
        ('eigenvectors', 'arr', lambda z: [(z['qpts'][0], 3 * n, n, 3)]),
        ('weights', 'arr', lambda z: [(z['qpts'][0],)])], {}),
    'StructureFactor': ('euphonic.structure_factor', ['crystal'], [
        ('qpts', 'arr', lambda z: [(z['qpts'][0], 3)]),
        ('frequencies', 'ufreq', lambda z: [(z['qpts'][0], 3 * n)]),
        ('structure_factors', 'uarea', lambda z: [(z['qpts'][0], 3 * n)]),
        ('weights', 'arr', lambda z: [(z['qpts'][0],)]),
        ('temperature', 'utemp', lambda z: [()])], {}),
    'DebyeWaller': ('euphonic.debye_waller', ['crystal'], [
        ('debye_waller', 'uarea', lambda z: [(n, 3, 3)]),
        ('temperature', 'utemp', lambda z: [()])], {}),
    'Spectrum1D': ('euphonic.spectra', [], [
        ('x_data', 'ux', lambda z: [(z['y_data'][0],), (z['y_data'][0] + 1,)]),
        ('y_data', 'uy', lambda z: [(z['y_data'][0],)])], {}),
    'Spectrum1DCollection': ('euphonic.spectra', [], [
        ('x_data', 'ux', lambda z: [(z['y_data'][1],), (z['y_data'][1] + 1,)]),
        ('y_data', 'uy', lambda z: [(z['y_data'][0], z['y_data'][1])])], {}),
    'Spectrum2D': ('euphonic.spectra', [], [
        ('x_data', 'ux', lambda z: [(z['z_data'][0],), (z['z_data'][0] + 1,)]),
        ('y_data', 'ux', lambda z: [(z['z_data'][1],), (z['z_data'][1] + 1,)]),
        ('z_data', 'uz', lambda z: [(z['z_data'][0], z['z_data'][1])])], {}),
    'Spectrum2DCollection': ('euphonic.spectra', [], [
        ('x_data', 'ux', lambda z: [(z['z_data'][1],), (z['z_data'][1] + 1,)]),
        ('y_data', 'ux', lambda z: [(z['z_data'][2],), (z['z_data'][2] + 1,)]),
        ('z_data', 'uz', lambda z: [(z['z_data'][0], z['z_data'][1], z['z_data'][2])])], {}),
}
RANK = dict(cell_vectors=2, atom_r=2, atom_type=1, atom_mass=1, force_constants=3, sc_matrix=2, cell_origins=2, born=3, dielectric=2,
            qpts=2, frequencies=2, weights=1, eigenvectors=4, structure_factors=2, temperature=0, debye_waller=3)
SRANK = {'Spectrum1D': dict(x_data=1, y_data=1), 'Spectrum1DCollection': dict(x_data=1, y_data=2),
         'Spectrum2D': dict(x_data=1, y_data=1, z_data=2), 'Spectrum2DCollection': dict(x_data=1, y_data=1, z_data=3)}
OPTIONAL = dict(QpointFrequencies=['weights'], QpointPhononModes=['weights'], StructureFactor=['weights', 'temperature'], ForceConstants=['born', 'dielectric'])
MUST = {'ForceConstants': [('born', 'dielectric')]}      # given together


def rank(cls, a):
    return SRANK.get(cls, RANK)[a]


def value(kind, tag, shape):
    if not shape:
        v = sym(tag + '_scalar')
    else:
        v = D(tag, shape, 's' if tag == 'atom_type' else 'c' if tag == 'eigenvectors' else 'i' if tag in ('sc_matrix', 'cell_origins') else 'f', **(
            dict(mono=True) if tag in ('x_data',) else {}))
    return v if kind == 'arr' else Q(v, kind)


def shape_is(sh, want):
    """the shapes are equal: a condition on the sizes"""
    if len(sh) != len(want):
        return False
    c = True
    for a, b in zip(sh, want):
        c = band(c, beq(P(a), P(b)))
    return c


def consistent(cls, shapes):
    ok = True
    for a, kind, exp in SPECS[cls][2]:
        if a not in shapes:
            continue
        alt = False
        try:
            opts = exp(shapes)
        except IndexError:       # the sizes cannot even be read off
            return False
        for w in opts:
            alt = bor(alt, shape_is(shapes[a], w))
        ok = band(ok, alt)
    return ok


def build(it, cls, shapes, tag=''):
    mod, pre, args, _ = SPECS[cls]
    C = getattr(it.load(mod), cls)
    a = [crys(it)] if pre else []
    kw = {nm: value(kind, nm, shapes[nm]) for nm, kind, _ in args if nm in shapes}
    return C(*a, **kw)


def decide(ck, cls, shapes, label):
    it = ck.new_interp()
    ok = consistent(cls, shapes)
    k = acc = 0
    for o in X.explore(lambda: build(it, cls, shapes), 400):
        k += 1
        ck.suffix = '@%d' % k
        if o.kind == 'raise':
            ck.holds(label + 'only inconsistent data refused', bnot(ok))
        else:
            acc += 1
            ck.holds(label + 'accepted data are consistent', ok)
    ck.suffix = ''
    b = T.asB(ok)
    if b.op == 'const' and not b.a:
        ck.true(label + 'never accepted', acc == 0)
    else:
        ck.true(label + 'can be accepted', acc > 0)


for CLS in SPECS:
    @obligation(CLS, UNDER + ['%s.%s.__init__' % (SPECS[CLS][0], CLS)])
    def o1(ck, CLS=CLS):
        args = [a for a, _, _ in SPECS[CLS][2]]
        opt = OPTIONAL.get(CLS, [])
        base = {a: fresh(a, rank(CLS, a)) for a in args}
        decide(ck, CLS, base, 'sizes: ')
        drops = [[a] for a in opt]
        if len(opt) > 1:
            drops.append(opt)
        if CLS == 'ForceConstants':
            drops = [['born', 'dielectric'], ['born']]
        for d in drops:
            decide(ck, CLS, {a: s for a, s in base.items() if a not in d}, 'sizes without %s: ' % ', '.join(d))
        # the wrong number of dimensions, one argument at a time
        for a in args:
            for r in range(0, 6):
                if r != rank(CLS, a):
                    decide(ck, CLS, dict(base, **{a: fresh(a, r)}), '%s with %d dimensions: ' % (a, r))


def explore_(ck, label, fn, want):
    """want: True accepted on every path, False refused on every path, or a condition on the sizes"""
    k = 0
    for o in X.explore(fn, 400):
        k += 1
        ck.suffix = '@%d' % k
        if isinstance(want, bool):
            if want != (o.kind == 'return'):
                ck.fail(label, '%s: %r' % (o.kind, o.value))
            else:
                ck.ok(label)
        else:
            ck.holds(label, want if o.kind == 'return' else bnot(want))
    ck.suffix = ''


WRONG = [('list', [1.0]), ('number', 1.0), ('text', 'a'), ('none', None), ('array', None), ('quantity', None)]


def wrongs(cls, a, kind):
    """values of a type that is not accepted for the argument"""
    sh = {k: fresh(k, rank(cls, k)) for k, _, _ in SPECS[cls][2]}
    yield 'list', [[1.0]]
    yield 'tuple', (1.0,)
    yield 'number', 1.0
    yield 'text', 'a'
    yield 'dictionary', {}
    if a not in OPTIONAL.get(cls, []):
        yield 'none', None
    if kind == 'arr':
        yield 'quantity', Q(D('wq', sh[a]), 'ue')
    else:
        yield 'plain array', D('wq', sh[a] or (3,))


def good_shapes(cls):
    z = {a: fresh(a, rank(cls, a)) for a, _, _ in SPECS[cls][2]}
    if cls == 'Crystal':
        return dict(cell_vectors=(3, 3), atom_r=(n, 3), atom_type=(n,), atom_mass=(n,))
    if cls.startswith('Spectrum'):
        return {'Spectrum1D': dict(x_data=(nx,), y_data=(nx,)), 'Spectrum1DCollection': dict(x_data=(nx,), y_data=(nz, nx)),
                'Spectrum2D': dict(x_data=(nx,), y_data=(ny,), z_data=(nx, ny)), 'Spectrum2DCollection': dict(x_data=(nx,), y_data=(ny,), z_data=(nz, nx, ny))}[cls]
    all_ = dict(force_constants=(NSC, 3 * n, 3 * n), sc_matrix=(3, 3), cell_origins=(NSC, 3), born=(n, 3, 3), dielectric=(3, 3), qpts=(nq, 3),
                frequencies=(nq, 3 * n), weights=(nq,), eigenvectors=(nq, 3 * n, n, 3), structure_factors=(nq, 3 * n), temperature=(), debye_waller=(n, 3, 3))
    return {a: all_[a] for a in z}


for CLS in SPECS:
    @obligation(CLS + ' types', UNDER + ['%s.%s.__init__' % (SPECS[CLS][0], CLS)])
    def o2(ck, CLS=CLS):
        mod, pre, args, _ = SPECS[CLS]
        sh = good_shapes(CLS)

        def mkargs(it, **over):
            kw = {a: value(kind, a, sh[a]) for a, kind, _ in args}
            if pre:
                kw['crystal'] = crys(it)
            kw.update(over)
            return kw

        def C(it):
            return getattr(it.load(mod), CLS)
        it = ck.new_interp()
        explore_(ck, 'documented types accepted', lambda: C(it)(**mkargs(it)), True)
        for a, kind, _ in args:
            for w, v in wrongs(CLS, a, kind):
                it = ck.new_interp()
                explore_(ck, '%s given as %s is refused' % (a, w), lambda: C(it)(**mkargs(it, **{a: v})), False)
        if pre:
            for w, v in (('none', None), ('dictionary', {}), ('array', D('wq', (3, 3)))):
                it = ck.new_interp()
                explore_(ck, 'crystal given as %s is refused' % w, lambda: C(it)(**mkargs(it, crystal=v)), False)
        if CLS == 'ForceConstants':
            it = ck.new_interp()
            explore_(ck, 'charges without dielectric tensor are refused', lambda: C(it)(**mkargs(it, dielectric=None)), False)


class Reached(Exception):
    pass


@obligation('weights of a calculation', UNDER + ['euphonic.force_constants.ForceConstants.calculate_qpoint_phonon_modes',
            'euphonic.force_constants.ForceConstants.calculate_qpoint_frequencies', 'euphonic.force_constants.ForceConstants._calculate_phonons_at_qpts'])
def o3(ck):
    for meth in ('calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies'):
        for r in (0, 1, 2, 3):
            it = ck.new_interp()
            sh = fresh('wt', r)

            def f():
                fc = build(it, 'ForceConstants', good_shapes('ForceConstants'))
                # everything after the check of the arguments
                it.hooks['euphonic.force_constants.ForceConstants.born'] = reach
                it.hooks['euphonic.force_constants.is_gamma'] = reach
                it.hooks['euphonic.util.is_gamma'] = reach
                try:
                    getattr(fc, meth)(D('q', (nq, 3)), weights=D('wt', sh) if r else 1.0)
                except Reached:
                    return 1

            def reach(*a, **k):
                raise Reached()
            ok = shape_is(sh, (nq,))
            k = 0
            for o in X.explore(f):
                k += 1
                ck.suffix = '@%d' % k
                ck.holds('%s, weights with %d dimensions: %s' % (meth, r, 'calculated only with' if o.kind == 'return' else 'refused only without') +
                         ' one weight per q-point', ok if o.kind == 'return' else bnot(ok))
            ck.suffix = ''
        for w, v in (('list', [1.0]), ('number', 1.0)):
            it = ck.new_interp()
            fc = build(it, 'ForceConstants', good_shapes('ForceConstants'))
            explore_(ck, '%s, weights given as %s are refused' % (meth, w), lambda: getattr(fc, meth)(D('q', (nq, 3)), weights=v), False)


@obligation('metadata and tick labels', UNDER + ['euphonic.spectra.SpectrumCollectionMixin._check_metadata', 'euphonic.spectra.Spectrum.x_tick_labels'],
            bounded='0-3 metadata entries')
def o4(ck):
    for cls in SPECS:
        if not cls.startswith('Spectrum'):
            continue
        sh = good_shapes(cls)

        def C(it, **kw):
            return getattr(it.load('euphonic.spectra'), cls)(**{a: value(kind, a, sh[a]) for a, kind, _ in SPECS[cls][2]}, **kw)
        it = ck.new_interp()
        ck.prefix = cls + ': '
        for nm, v in (('a list', [1]), ('text', 'a'), ('a number', 1)):
            explore_(ck, 'metadata given as %s is refused' % nm, lambda: C(it, metadata=v), False)
        for nm, v in (('text', 'a'), ('a number', 1), ('a dictionary', {})):
            explore_(ck, 'tick labels given as %s are refused' % nm, lambda: C(it, x_tick_labels=v), False)
        for nm, v in (('a number as the label', [(0, 1)]), ('text as the index', [('a', 'b')]), ('no pairs', [1, 2]), ('three entries', [(1, 'a', 2)]),
                      ('a wrong later pair', [(0, 'a'), (1, 2)])):
            explore_(ck, 'tick labels with %s are refused' % nm, lambda: C(it, x_tick_labels=v), False)
        explore_(ck, 'tick labels and metadata accepted', lambda: C(it, x_tick_labels=[(0, 'a'), (sym('tk', 'int', nonneg=True), '')], metadata={'a': 1}), True)
        if cls.endswith('Collection'):
            for m in range(4):
                explore_(ck, '%d metadata entries: one per line' % m, lambda: C(it, metadata={'line_data': [{'i': j} for j in range(m)]}), beq(nz, m))
        ck.prefix = ''


# -------------------------------------------------------------------- real code
def good_args(rng, cls, g):
    eu = G.E()
    u = eu.ureg.Quantity
    na, q, m = rng.randint(1, 4), rng.randint(1, 5), None
    r = np.random.default_rng(rng.randint(0, 10 ** 6))
    c = G.crystal(g, n=na) if cls not in ('Crystal',) and not cls.startswith('Spectrum') else None
    A_ = lambda *s: r.random(s) + 0.1
    if cls == 'Crystal':
        return dict(cell_vectors=u(A_(3, 3) + 3 * np.eye(3), 'angstrom'), atom_r=A_(na, 3), atom_type=np.array(['Si'] * na), atom_mass=u(A_(na), 'amu'))
    if cls.startswith('Spectrum'):
        k, l, z = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)
        ax = lambda s: u(np.arange(s + rng.randint(0, 1)) * 1.0, 'meV')
        out = {'Spectrum1D': lambda: dict(x_data=ax(k), y_data=u(A_(k), '1/meV')), 'Spectrum1DCollection': lambda: dict(x_data=ax(k), y_data=u(A_(z, k), '1/meV')),
               'Spectrum2D': lambda: dict(x_data=ax(k), y_data=ax(l), z_data=u(A_(k, l), '1/meV')),
               'Spectrum2DCollection': lambda: dict(x_data=ax(k), y_data=ax(l), z_data=u(A_(z, k, l), '1/meV'))}[cls]()
        if cls.endswith('Collection') and rng.random() < 0.5:
            out['metadata'] = {'line_data': [{'i': j} for j in range(z)]}
        return out
    if cls == 'ForceConstants':
        S_ = G.sc_matrix(g)
        k = int(np.rint(abs(np.linalg.det(S_))))
        out = dict(crystal=c, force_constants=u(A_(k, 3 * na, 3 * na), 'meV/angstrom**2'), sc_matrix=S_, cell_origins=np.zeros((k, 3), dtype=int))
        if rng.random() < 0.5:
            out.update(born=u(A_(na, 3, 3), 'e'), dielectric=u(A_(3, 3), 'e**2/(bohr*hartree)'))
        return out
    if cls == 'DebyeWaller':
        return dict(crystal=c, debye_waller=u(A_(na, 3, 3), 'angstrom**2'), temperature=u(3.0 * A_()[()], 'K'))
    out = dict(crystal=c, qpts=A_(q, 3), frequencies=u(A_(q, 3 * na), 'meV'))
    if cls == 'QpointPhononModes':
        out['eigenvectors'] = A_(q, 3 * na, na, 3) + 0j
    if cls == 'StructureFactor':
        out['structure_factors'] = u(A_(q, 3 * na), 'mbarn')
        if rng.random() < 0.5:
            out['temperature'] = u(5.0, 'K')
    if rng.random() < 0.5:
        out['weights'] = A_(q)
    return out


def spoil(rng, cls, kw):
    """one argument made inconsistent (returns a description, or None when the change is allowed)"""
    eu = G.E()
    if 'metadata' in kw and rng.random() < .4:
        d = kw['metadata']['line_data']
        n = len(d)
        kw['metadata'] = {'line_data': d + [{'i': n}] if n < 2 or rng.random() < .5 else d[:-1]}
        return '%d metadata entries for %d lines' % (len(kw['metadata']['line_data']), n)
    a = rng.choice([k for k in kw if k not in ('metadata',)])
    v = kw[a]
    if a == 'crystal':
        kw[a] = rng.choice([None, {}, 'x'])
        return 'crystal ' + repr(kw[a])
    qn = hasattr(v, 'units')
    m = np.asarray(v.magnitude if qn else v)
    how = rng.randint(0, 4)
    if how == 0:       # a scalar
        if m.ndim == 0:
            return None
        w = m.flat[0]
        kw[a] = eu.ureg.Quantity(float(np.real(w)), v.units) if qn else w
        return a + ' scalar'
    if how == 1:       # one more along an axis
        if m.ndim == 0:
            kw[a] = eu.ureg.Quantity(np.array([1., 2.]), v.units)
            return a + ' array'
        ax = rng.randrange(m.ndim)
        free = {('QpointFrequencies', 'frequencies', 1), ('Spectrum1DCollection', 'y_data', 0), ('Spectrum2DCollection', 'z_data', 0)}
        if (cls, a, ax) in free and 'metadata' not in kw:
            return None
        k = 2 if cls.startswith('Spectrum') else 1
        w = np.concatenate([m] + [np.take(m, [0], axis=ax)] * k, axis=ax)
        kw[a] = eu.ureg.Quantity(w, v.units) if qn else w
        return '%s longer on axis %d' % (a, ax)
    if how == 2:       # one more dimension
        w = m[None]
        kw[a] = eu.ureg.Quantity(w, v.units) if qn else w
        return a + ' with one more dimension'
    if how == 3:       # wrong type
        kw[a] = m if qn else m.tolist()
        return a + ' of another type'
    # a transposed array
    w = np.ascontiguousarray(np.swapaxes(m, 0, m.ndim - 1)) if m.ndim > 1 else m
    if w.shape == m.shape or cls.startswith('Spectrum'):      # (a transposed spectrum can be consistent)
        return None
    kw[a] = eu.ureg.Quantity(w, v.units) if qn else w
    return a + ' transposed'


@test('constructors', n=240, n_thorough=4000)
def t1(rng, k):
    eu = G.E()
    cls = list(SPECS)[k % len(SPECS)]
    g, rng = rng, random.Random(k + 1000003 * SEED)
    kw = good_args(rng, cls, g)
    C = getattr(eu, cls) if hasattr(eu, cls) else getattr(__import__('euphonic.spectra', fromlist=[cls]), cls)
    C(**kw)        # consistent data are accepted
    what = spoil(rng, cls, kw)
    if what is None:
        return
    try:
        C(**kw)
    except Exception:
        return
    G.need(False, '%s accepted with %s' % (cls, what))


@test('weights of a calculation', n=20)
def t2(rng, k):
    fc = G.force_constants(rng)
    rng = random.Random(k + 1000003 * SEED)
    q = np.random.default_rng(k).random((rng.randint(1, 5), 3))
    m = len(q)
    bad = rng.choice([np.ones(m + 1), np.ones(m - 1) if m > 1 else np.ones(3), np.ones((m, 1)), [1.0] * m, 1.0])
    for f in (fc.calculate_qpoint_phonon_modes, fc.calculate_qpoint_frequencies):
        f(q, weights=np.ones(m))
        try:
            f(q, weights=bad)
        except (ValueError, TypeError):
            continue
        G.need(False, 'weights %r accepted for %d q-points' % (bad, m))
