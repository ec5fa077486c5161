"""the C kernels compute what the Python kernels are proved to compute"""
from contracts import ckern as K
from contracts.common import *
import itertools
import warnings
import numpy as np
from contracts import gen as G
from contracts import fcref as R


@obligation('dynamical matrix', ['c.calculate_dyn_mat_at_q'])
def o1(ck):
    K.dyn_mat_at_q(ck, ck)


@obligation('dipole term', ['c.calculate_dipole_correction', 'c.det_array', 'c.cell_volume', 'c.is_gamma', 'c.cmult_conj'])
def o2(ck):
    K.dipole_correction(ck, ck, False)


@obligation('dipole term at a lattice vector', ['c.calculate_dipole_correction'])
def o3(ck):
    K.dipole_correction(ck, ck, True)


@obligation('LO-TO term', ['c.calculate_gamma_correction'])
def o4(ck):
    K.gamma_correction(ck, ck)


@obligation('array helpers', ['c.multiply_array', 'c.add_arrays', 'c.mass_weight_dyn_mat'])
def o5(ck):
    K.helpers(ck, ck)
    K.mass_weighting(ck, ck)


@obligation('frequencies', ['c.evals_to_freqs'])
def o6(ck):
    K.frequencies(ck, ck)


@obligation('mode gradients', ['c.calculate_mode_gradients', 'c.cmult', 'c.cmult_conj'])
def o7(ck):
    K.mode_gradients(ck, ck)


@obligation('diagonalisation', ['c.diagonalise_dyn_mat_zheevd'])
def o8(ck):
    K.diagonalisation(ck, ck)


@obligation('driver', ['c.calculate_phonons'])
def o9(ck):
    for d, sp in ((False, False), (True, False), (True, True)):
        for evec, grad, asr in itertools.product((False, True), repeat=3):
            K.driver(ck, ck, d, sp, evec, grad, asr)


assume('LAPACK zheevd: eigenvalues ascending and orthonormal eigenvectors of the Hermitian matrix given by one triangle (the same contract as numpy.linalg.eigh); any value of info',
       'C machine arithmetic as mathematical (real numbers, unbounded integers); round() and numpy.rint agree (they differ only for exact halves, which are not lattice vectors)',
       'the preprocessor, struct layout, casts, reference counts and the CPython/numpy C API are outside the translation (engine/cexec.py): PyArg_ParseTuple, attribute readers, PyArray_DATA/DIMS are modelled',
       'arrays handed to the kernels do not overlap; they are C-contiguous float64/int32/complex128 (normalised by validate.py and the caller: exercised by the real-code cases)',
       'the G vectors of the Ewald sum are closed under negation, so the dipole term is real at a zone centre (the LO-TO term leaves imaginary parts alone)',
       'the sum-rule correction is Hermitian (the caller passes its conjugate transpose) and the q = 0 self term is real',
       'LO-TO terms are requested only with dipole terms, and every zone centre then has an entry in the list of directions',
       'the gradient of the dynamical matrix is Hermitian (the compiled path mirrors its upper triangle; the other uses all of it)',
       'image lists hold -1 beyond the number of images of the pair')


def layout(rng, a, dtypes=True):
    """the same numbers in another memory layout or type"""
    a = np.array(a)
    k = int(rng.integers(5))
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[...] = 77
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    elif k == 3:
        a = a[::-1].copy()[::-1]
    elif k == 4 and a.ndim > 1:
        a = np.ascontiguousarray(a.T).T
    if a.dtype.kind == 'i' and rng.random() < .5:
        a = a.astype(G.pick(rng, [np.int16, np.int32, np.int64])) if k != 2 else a
    return a


def relayout(rng, fc):
    """equal force constants made from arrays of other layouts"""
    from euphonic import ForceConstants, Crystal, ureg
    c = fc.crystal
    Q = lambda q: ureg.Quantity(layout(rng, q.magnitude), q.units)
    cr = Crystal(Q(c.cell_vectors), layout(rng, c.atom_r), c.atom_type, Q(c.atom_mass))
    kw = dict(born=Q(fc.born), dielectric=Q(fc.dielectric)) if fc.born is not None else {}
    return ForceConstants(cr, Q(fc.force_constants), layout(rng, fc.sc_matrix), layout(rng, fc.cell_origins), **kw)


def integral(rng):
    """force constants whose arrays hold integers (an accepted input)"""
    from euphonic import ForceConstants, Crystal, ureg
    n = 2
    cv = np.diag(rng.integers(4, 8, 3)) + np.array([[0, int(rng.integers(-1, 2)), 0], [0, 0, 0], [0, 0, int(rng.integers(-1, 2))]])
    it = G.pick(rng, [np.int32, np.int64])
    r = np.array([[0, 0, 0], [.5, .5, .5]])
    m = G.sc_matrix(rng)
    org = G.cell_origins(m)
    phi = np.rint(G.fc_tensor(rng, m, org, n, True) * 1000).astype(it)
    born = rng.random() < .6
    kw = {}
    if born:
        z = rng.integers(-2, 3, (3, 3)) + 3 * np.eye(3, dtype=int)
        kw = dict(born=ureg.Quantity(np.array([z, -z]).astype(G.pick(rng, [it, np.float32, np.float64])), 'e'),
                  dielectric=ureg.Quantity(np.diag(rng.integers(2, 6, 3)).astype(G.pick(rng, [it, np.float32, np.float64])), 'e**2/(bohr*hartree)'))
    cr = Crystal(ureg.Quantity(cv.astype(it), 'bohr'), r, np.array(['A', 'B']), ureg.Quantity(rng.integers(10, 50, n).astype(it) * 1800, 'm_e'))
    fc = ForceConstants(cr, ureg.Quantity(phi * 1., 'meV/bohr**2') if rng.random() < .5 else ureg.Quantity(phi, 'meV/bohr**2'), m, org, **kw)
    return fc


def same_space(ev1, ev2, f, msg, s):
    """eigenvectors equal up to rotations among equal frequencies"""
    n = len(f)
    lam = f * abs(f)
    order = np.argsort(lam)
    groups, cur = [], [order[0]]
    tol = max(1e-6 * s, 1e-300)
    for k in order[1:]:
        if lam[k] - lam[cur[-1]] < tol:
            cur.append(k)
        else:
            groups.append(cur)
            cur = [k]
    groups.append(cur)
    a, b = ev1.reshape(n, -1), ev2.reshape(n, -1)
    for g in groups:
        pa, pb = a[g].T @ a[g].conj(), b[g].T @ b[g].conj()
        G.need(np.max(np.abs(pa - pb)) < 1e-5, '%s: eigenvectors of modes %s span different spaces' % (msg, g))
    return groups


def compare(rng, fc, fc2, q, kw, grad, only):
    from euphonic import ureg
    kw = dict(kw, reduce_qpts=bool(rng.random() < .5))
    thr = G.pick(rng, [1, 2, 3, 7, None])
    if only:
        a = fc.calculate_qpoint_frequencies(q.copy(), use_c=False, return_mode_gradients=grad, **kw)
        b = fc2.calculate_qpoint_frequencies(layout(rng, q), use_c=True, n_threads=thr, return_mode_gradients=grad, **kw)
    else:
        a = fc.calculate_qpoint_phonon_modes(q.copy(), use_c=False, return_mode_gradients=grad, **kw)
        b = fc2.calculate_qpoint_phonon_modes(layout(rng, q), use_c=True, n_threads=thr, return_mode_gradients=grad, **kw)
    (a, ga), (b, gb) = (a, b) if grad else ((a, None), (b, None))
    herm = R.reduced(fc)          # otherwise the matrix is not Hermitian: one path uses its upper triangle only
    msg = 'n_threads=%s %s' % (thr, kw)
    G.need(np.array_equal(a.qpts, b.qpts) and np.array_equal(a.weights, b.weights), msg + ': q-points or weights differ')
    fa, fb = R.hartree(a.frequencies), R.hartree(b.frequencies)
    s = max(np.abs(fa).max(), np.sqrt(R.scale(fc))) ** 2 * fc.crystal.n_atoms
    G.need_close(fb * abs(fb), fa * abs(fa), msg + ': squared frequencies differ', 0, 1e-9 * s)
    for i in range(len(fa)):
        sep = None
        if not only:
            sep = same_space(a.eigenvectors[i], b.eigenvectors[i], fa[i], '%s q-point %d %s' % (msg, i, a.qpts[i]), s)
        if grad and herm:
            x, y = (g[i].to('hartree*bohr').magnitude for g in (ga, gb))
            lam = fa[i] * abs(fa[i])
            for m in range(len(lam)):
                gap = np.min(np.abs(np.delete(lam, m) - lam[m])) / max(s, 1e-300)
                if gap < 1e-5 or abs(lam[m]) <= 1e-5 * s:
                    continue
                G.need(np.max(np.abs(x[m] - y[m])) <= 1e-7 / gap * max(np.nanmax(np.abs(x)), 1e-300) + 1e-12, '%s q-point %d mode %d: gradients %s and %s' % (msg, i, m, y[m], x[m]))


@test('both paths', n=160, n_thorough=1500)
def t1(rng, k):
    fc = R.special_fc(rng) if k % 3 else G.force_constants(rng)
    fc2 = relayout(rng, fc)
    kw = dict(dipole=bool(rng.random() < .8), splitting=bool(rng.random() < .7), insert_gamma=bool(rng.random() < .3), asr=G.pick(rng, [None, 'reciprocal', 'realspace']))
    if fc.born is None:
        kw.update(dipole=G.pick(rng, [True, False]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compare(rng, fc, fc2, R.qpoints(rng, int(rng.integers(1, 6))), kw, bool(rng.random() < .5), bool(rng.random() < .3))


@test('integer arrays', n=60, n_thorough=500)
def t2(rng, k):
    fc = integral(rng)
    kw = dict(asr=G.pick(rng, [None, 'reciprocal']), splitting=bool(rng.random() < .7))
    q = rng.integers(-2, 3, (3, 3)).astype(int) if rng.random() < .3 else R.qpoints(rng, 3)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compare(rng, fc, fc, q, kw, bool(rng.random() < .5), bool(rng.random() < .3))


@test('threads', n=25, n_thorough=200)
def t3(rng, k):
    fc = R.special_fc(rng)
    q = R.qpoints(rng, int(rng.integers(8, 40)))
    kw = dict(use_c=True, reduce_qpts=bool(rng.random() < .5), splitting=bool(rng.random() < .5), asr=G.pick(rng, [None, 'reciprocal']), return_mode_gradients=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, ga = fc.calculate_qpoint_phonon_modes(q.copy(), n_threads=1, **kw)
        b, gb = fc.calculate_qpoint_phonon_modes(q.copy(), n_threads=int(rng.integers(2, 17)), **kw)
    G.need_close(b.frequencies.magnitude, a.frequencies.magnitude, 'frequencies depend on the number of threads', 1e-10)
    fa = R.hartree(a.frequencies)
    s = max(np.abs(fa).max(), np.sqrt(R.scale(fc))) ** 2 * fc.crystal.n_atoms
    for i in range(len(a.qpts)):
        same_space(a.eigenvectors[i], b.eigenvectors[i], fa[i], 'q-point %d' % i, s)
    G.need_close(gb.magnitude, ga.magnitude, 'gradients depend on the number of threads', 1e-6)


@test('argument normalisation', n=40, n_thorough=400)
def t4(rng, k):
    from euphonic.validate import _ensure_contiguous_args, _ensure_contiguous_attrs
    kinds = [('i', t, np.int32) for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16)] \
        + [('f', t, np.float64) for t in (np.float16, np.float32, np.float64, '>f8', '>f4')] + [('c', t, np.complex128) for t in (np.complex64, np.complex128, '>c16')]
    arrs, want = [], []
    for _ in range(int(rng.integers(1, 5))):
        kd, t, w = kinds[int(rng.integers(len(kinds)))]
        shape = tuple(int(x) for x in rng.integers(0 if rng.random() < .2 else 1, 4, int(rng.integers(1, 5))))
        a = (rng.integers(0, 100, shape) if kd == 'i' else rng.normal(size=shape) + (1j * rng.normal(size=shape) if kd == 'c' else 0)).astype(t)
        arrs.append(layout(rng, a) if kd != 'i' else np.asfortranarray(a))
        want.append((a, w))

    def ok(b, a, w, msg):
        G.need(b.dtype == w and b.dtype.isnative and b.flags.c_contiguous and b.shape == a.shape and np.array_equal(b, a), '%s: %s %s becomes %s %s' % (msg, a.dtype, a.flags, b.dtype, b.flags))
    got = _ensure_contiguous_args(*arrs)
    G.need(isinstance(got, tuple) and len(got) == len(arrs), 'one result per argument')
    for b, (a, w) in zip(got, want):
        ok(b, a, w, 'argument')

    class O:
        pass
    o = O()
    for i, a in enumerate(arrs):
        setattr(o, 'x%d' % i, a)
    names = ['x%d' % i for i in range(len(arrs))]
    h = len(names) // 2
    _ensure_contiguous_attrs(o, names[:h], names[h:] + ['absent'])
    for nm, (a, w) in zip(names, want):
        ok(getattr(o, nm), a, w, 'attribute')
