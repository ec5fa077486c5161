"""interpolated dynamical matrix, frequencies and eigenvectors"""
from contracts.fcs import *
from contracts import gen as G

assume('numpy.linalg.eigh returns ascending eigenvalues and orthonormal eigenvectors (columns) of the Hermitian matrix given by one triangle',
       'the nearest-image table is any table with entries -1 or a translation number; that it lists the nearest images is checked by replay cases only',
       'numpy.unique with return_inverse: unique[inverse[k]] == x[k]')

@obligation('phases', [FC + '_calculate_phases'])
def o1(ck):
    it = ck.new_interp()
    o = fc_obj(it)
    so, co = (lambda k, a: sel('so', k, a, kind='i')), (lambda k, a: sel('co', k, a, kind='i'))
    us_, ui = unique('s', so, ns)
    uc, ci = unique('c', co, nc)
    for r in returns(ck, lambda: o._calculate_phases(D('q', (3,)), us_, ui, uc, ci)):
        sp, cp = r.value
        for nm, x, org, m in (('supercell', sp, so, ns), ('cell', cp, co, nc)):
            ck.same_shape(nm + ' phases shape', x, (m,))
            k = index_sym('k', m)
            a = index_sym('xa', 3)
            ck.eq(nm + ' phase is exp(2 pi i q.R)', x.at(k), phase(sum(sel('q', const(a)) * org(k, const(a)) for a in range(3))))


@obligation('dynamical matrix', [FC + '_calculate_dyn_mat'])
def o2(ck):
    for grad in (False, True):
        dyn_mat(ck, grad)


@obligation('diagonalisation', [FC + '_calculate_phonons_at_q'])
def o3(ck):
    for grad in (False, True):
        at_q(ck, grad)


@obligation('driver', UNDER, limit=900)
def o4(ck):
    """what the driver hands to the kernels (both paths) and what it does with their results"""
    for use_c in (False, True):
        for evec in (True, False):
            for red in (False, True):
                it = ck.new_interp()
                drv = Driver(it)
                ck.prefix = '%s, %s, %s: ' % ('C' if use_c else 'Python', 'modes' if evec else 'frequencies', 'grouped' if red else 'not grouped')
                fn_ = 'calculate_qpoint_phonon_modes' if evec else 'calculate_qpoint_frequencies'
                for r in returns(ck, lambda: drv.reset() and getattr(full_obj(it), fn_)(D('q', (nq, 3)), reduce_qpts=red, use_c=use_c, n_threads=1)):
                    o = r.value
                    drv.check_inputs(ck)
                    i, m, x = index_sym('i', nq), index_sym('m', 3 * n), index_sym('x', 3)
                    at = index_sym('at', n)
                    ck.same_shape('frequencies shape', o.frequencies.m, (nq, 3 * n))
                    drv.is_row(ck, 'frequencies of the q-point', o.frequencies.m.at(i, m) * uscale(o.frequencies.u) / us('hartree'), 'F', (m,), i)
                    if evec:
                        ck.same_shape('eigenvectors shape', o.eigenvectors, (nq, 3 * n, n, 3))
                        drv.is_row(ck, 'eigenvectors of the q-point', o.eigenvectors.at(i, m, at, x), 'E', (m, at, x), i)
                    ck.same_shape('q-points shape', o.qpts, (nq, 3))
                    ck.eq('q-points as given', o.qpts.at(i, x), sel('q', i, x))
                    ck.true('meV', o.frequencies.u == U.as_unit('meV'))


@obligation('lemmas')
def o5(ck):
    """the phases, hence the matrix, are unchanged by a reciprocal lattice vector"""
    k = index_sym('k', ns)
    so = lambda k, a: sel('so', k, const(a), kind='i')
    g = lambda a: sel('g', const(a), kind='i')
    ck.eq('exp(2 pi i (q+G).R) = exp(2 pi i q.R)', phase(sum((sel('q', const(a)) + g(a)) * so(k, a) for a in range(3))),
          phase(sum(sel('q', const(a)) * so(k, a) for a in range(3))))


@obligation('periodic', [FC + '_calculate_phases'])
def o6(ck):
    """the code's phases at q+G and q agree, for every integer G"""
    it = ck.new_interp()
    o = fc_obj(it)
    so, co = (lambda k, a: sel('so', k, a, kind='i')), (lambda k, a: sel('co', k, a, kind='i'))
    us_, ui = unique('s', so, ns)
    uc, ci = unique('c', co, nc)
    q = D('q', (3,))
    qg = mk((3,), lambda a: sel('q', a) + sel('g', a, kind='i'), 'f')
    for r in returns(ck, lambda: (o._calculate_phases(q, us_, ui, uc, ci), o._calculate_phases(qg, us_, ui, uc, ci))):
        (s1, c1), (s2, c2) = r.value
        k = index_sym('k', ns)
        ck.eq('supercell phases', s2.at(k), s1.at(k))
        k = index_sym('k', nc)
        ck.eq('cell phases', c2.at(k), c1.at(k))


# ------------------------------------------------------------------------------------------------ real code
import numpy as np
from contracts import fcref as R


@test('formula', n=120, n_thorough=1000)
def t1(rng, k):
    fc = R.special_fc(rng, born=False, asr=rng.random() < .7)
    if not R.reduced(fc):
        return
    nq = int(rng.integers(1, 5))
    q = R.qpoints(rng, nq)
    use_c = bool(rng.random() < .5)
    red = bool(rng.random() < .5)
    if rng.random() < .7:
        m = fc.calculate_qpoint_phonon_modes(q.copy(), use_c=use_c, reduce_qpts=red)
        ev = m.eigenvectors
    else:
        m = fc.calculate_qpoint_frequencies(q.copy(), use_c=use_c, reduce_qpts=red)
        ev = None
    na = fc.crystal.n_atoms
    G.need(m.frequencies.shape == (nq, 3 * na) and (ev is None or ev.shape == (nq, 3 * na, na, 3)), 'shapes')
    f = R.hartree(m.frequencies)
    for i in range(nq):
        R.check_modes(fc, R.dynmat(fc, q[i]), f[i], None if ev is None else ev[i], 'q-point %d %s (use_c=%s)' % (i, q[i], use_c))


@test('sign of the lowest mode', n=60, n_thorough=400)
def t5(rng, k):
    """the on-site terms are shifted so that one mode is slightly stable or unstable"""
    eu = G.E()
    fc = R.special_fc(rng, born=False, asr=rng.random() < .7)
    if not R.reduced(fc):
        return
    q = rng.uniform(-.5, .5, (1, 3))
    D = R.dynmat(fc, q[0])
    lam = np.linalg.eigvalsh((D + D.conj().T) / 2)
    s = R.scale(fc)
    want = float(rng.choice([-1, 1])) * 10. ** rng.uniform(-9, -2) * s
    mode = int(rng.integers(len(lam)))
    phi = fc.force_constants.to('hartree/bohr**2').magnitude.copy()
    mass = fc.crystal.atom_mass.to('electron_mass').magnitude
    home = int(np.where((fc.cell_origins == 0).all(1))[0][0])
    phi[home] -= np.diag(np.repeat(mass, 3)) * (lam[mode] - want)
    g = eu.ForceConstants(fc.crystal, eu.ureg.Quantity(phi, 'hartree/bohr**2'), fc.sc_matrix, fc.cell_origins)
    use_c = bool(rng.random() < .3)
    f = R.hartree(g.calculate_qpoint_frequencies(q, use_c=use_c).frequencies)[0]
    G.need_close(f * abs(f), lam - lam[mode] + want, 'signed squares of the frequencies (use_c=%s)' % use_c, rtol=0, atol=1e-12 * max(s, np.abs(lam).max()) * len(lam))


@test('periodicity', n=60, n_thorough=400)
def t2(rng, k):
    fc = R.special_fc(rng, born=False)
    q = R.qpoints(rng, 3)
    g = rng.integers(-3, 4, (3, 3))
    use_c = bool(rng.random() < .5)
    a = R.hartree(fc.calculate_qpoint_frequencies(q, use_c=use_c, reduce_qpts=False).frequencies)
    b = R.hartree(fc.calculate_qpoint_frequencies(q + g, use_c=use_c, reduce_qpts=False).frequencies)
    G.need_close(a * abs(a), b * abs(b), 'frequencies at q and q+G differ', rtol=0, atol=1e-9 * R.scale(fc))


@test('nearest images', n=150, n_thorough=1500)
def t3(rng, k):
    fc = R.special_fc(rng, born=False)
    if not R.reduced(fc):
        return
    inside, _, dist = R.images(fc)
    fc.calculate_qpoint_frequencies(np.zeros((1, 3)), use_c=False)
    cnt = inside.sum(-1)
    G.need(np.array_equal(fc._n_sc_images, cnt), 'numbers of nearest images: %s, expected %s' % (fc._n_sc_images, cnt))
    im = fc._sc_image_i
    G.need(im.shape[3] == cnt.max(), 'image list too short or too long')
    for idx in np.ndindex(*cnt.shape):
        w = sorted(np.where(inside[idx])[0])
        G.need(sorted(im[idx][:len(w)]) == w and all(x == -1 for x in im[idx][len(w):]), 'images of pair %s: %s, expected %s' % (idx, im[idx], w))
