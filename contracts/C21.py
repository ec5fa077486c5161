"""mode gradients and mode widths"""
from contracts.fcs import *
from contracts import gen as G

assume('numpy.linalg.eigh returns ascending eigenvalues and orthonormal eigenvectors (columns) of the Hermitian matrix given by one triangle',
       'the derivative of exp(i k.r) with respect to k is i r exp(i k.r)',
       'frequencies are not zero (the gradient is divided by twice the frequency)')


@obligation('matrix gradient', [FC + '_calculate_dyn_mat'])
def o1(ck):
    dyn_mat(ck, True)


@obligation('expectation', [FC + '_calculate_phonons_at_q'])
def o2(ck):
    at_q(ck, True)


@obligation('driver', UNDER, limit=900)
def o3(ck):
    for use_c in (False, True):
        for evec in (True, False):
            for red in (False, True):
                it = ck.new_interp()
                drv = Driver(it)
                ck.prefix = '%s, %s, %s: ' % ('C' if use_c else 'Python', 'modes' if evec else 'frequencies', 'grouped' if red else 'not grouped')
                fn_ = 'calculate_qpoint_phonon_modes' if evec else 'calculate_qpoint_frequencies'
                for r in returns(ck, lambda: drv.reset() and getattr(full_obj(it), fn_)(D('q', (nq, 3)), reduce_qpts=red, use_c=use_c, n_threads=1,
                                                                                      return_mode_gradients=True)):
                    o, g = r.value
                    i, m, x = index_sym('i', nq), index_sym('m', 3 * n), index_sym('x', 3)
                    ck.same_shape('gradients shape', g.m, (nq, 3 * n, 3))
                    drv.is_row(ck, 'gradients of the q-point', g.m.at(i, m, x) * uscale(g.u) / us('hartree') / us('bohr'), 'Grad', (m, x), i, conj_='real')
                    drv.is_row(ck, 'frequencies of the q-point', o.frequencies.m.at(i, m) * uscale(o.frequencies.u) / us('hartree'), 'F', (m,), i)
                    ck.true('display units', g.u == U.as_unit('meV') * U.as_unit('ulen'))
                    # the vectors the kernel differentiates with
                    d = (drv.q[-1:] or drv.c[-1:])[0]
                    c, a, b, l = index_sym('c', NSC), index_sym('a', n), index_sym('b', n), index_sym('xl', ni)
                    im = T.ArrDecl('img', 4, 'int')(c, a, b, l)
                    ck.same_shape('vectors', d['orig'], (NSC, n, n, ni, 3))
                    v = lift(d['orig'])
                    scale = us('ulen') / us('bohr')
                    for k in (0, 31, 124):
                        tr = list(itertools.product(range(-2, 3), repeat=3))[k]
                        y = index_sym('y', 3)
                        vec = lambda z: sel('org', c, z, kind='i') + sum(tr[s] * sel('S', const(s), z, kind='i') for s in range(3))
                        with S.assuming(beq(im, const(k))):
                            ck.eq('vector of image %d is R + L in bohr' % k, v.at(c, a, b, l, x), scale * sum(vec(const(z)) * sel('cell', const(z), x) for z in range(3)))


def refused(ck, label, fn):
    for o in X.explore(fn, 10):
        ck.true(label, o.kind == 'raise' and isinstance(o.value, ValueError))


@obligation('widths', ['euphonic.util.mode_gradients_to_widths', 'euphonic.crystal._cell_vectors_to_volume'])
def o4(ck):
    nm = dim('nm')
    define_unit('ugrad', '0.37 meV*angstrom')
    for rank in (2, 3):
        it = ck.new_interp()
        f = it.load('euphonic.util').mode_gradients_to_widths
        g = Q(D('g', (nq, nm) + ((3,) if rank == 3 else ()), pos=rank == 2), 'ugrad')
        cell = Q(D('cell', (3, 3)), 'ulen')
        ck.prefix = '%s: ' % ('vectors' if rank == 3 else 'magnitudes')
        for r in returns(ck, lambda: f(g, cell)):
            w = r.value
            ck.same_shape('shape', w.m, (nq, nm))
            i, m = index_sym('i', nq), index_sym('m', nm)
            mag = sum(sel('g', i, m, const(x)).power(2) for x in range(3)).power(T.Fr(1, 2)) if rank == 3 else sel('g', i, m, pos=True)
            vol = fabs(N.det3(lambda i, j: sel('cell', i, j))) * us('ulen') ** 3
            ck.eq('width', w.m.at(i, m) * uscale(w.u), us('ugrad') * mag * 2 / (nq * vol).power(T.Fr(1, 3)))
            ck.true('an energy', w.u.dimensionality == U.as_unit('meV').dimensionality if hasattr(w.u, 'dimensionality') else True)
    ck.prefix = ''
    for rank in (1, 4):
        it = ck.new_interp()
        f = it.load('euphonic.util').mode_gradients_to_widths
        refused(ck, 'other layouts refused (%d)' % rank, lambda: f(Q(D('g', (nq, nm, 3, 3)[:rank]), 'ugrad'), Q(D('cell', (3, 3)), 'ulen')))


# ------------------------------------------------------------------------------------------------ real code
import warnings
import numpy as np
from contracts import fcref as R


def calc(fc, q, **kw):
    fn_ = fc.calculate_qpoint_phonon_modes if kw.pop('modes', True) else fc.calculate_qpoint_frequencies
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn_(np.array(q, float), return_mode_gradients=True, **kw)


def derivative(fc, q, h, **kw):
    """central differences of the frequencies (hartree) along the three Cartesian directions (bohr)"""
    cv = R.bohr(fc)
    pts = [np.asarray(q) + s * h * cv[:, x] / (2 * np.pi) for x in range(3) for s in (1, -1)]
    f = R.hartree(calc(fc, pts, reduce_qpts=False, **kw)[0].frequencies)
    return np.array([(f[2 * x] - f[2 * x + 1]) / (2 * h) for x in range(3)]).T, f


def isolated(f, q):
    """modes that are far from zero and from each other"""
    w = np.sign(f) * f ** 2
    s = np.abs(w).max()
    d = np.abs(w[:, None] - w) + s * np.eye(len(w))
    return (d.min(1) > .02 * s) & (np.abs(w) > .02 * s)


@test('gradients', n=60, n_thorough=500)
def t1(rng, k):
    fc = G.force_constants(rng, born=False)
    if not R.reduced(fc):
        return
    nq = int(rng.integers(1, 4))
    q = rng.uniform(-1, 1, (nq, 3))
    if nq > 1 and rng.random() < .4:
        q[1] = q[0] + rng.integers(-1, 2, 3)
    asr = G.pick(rng, [None, 'realspace', 'reciprocal'])
    kw = dict(use_c=bool(rng.random() < .5), reduce_qpts=bool(rng.random() < .5), modes=bool(rng.random() < .5), asr=asr)
    if kw['use_c'] and rng.random() < .3:
        kw['n_threads'] = 2
    if rng.random() < .3:
        fc.frequencies_unit = 'THz' if hasattr(fc, 'frequencies_unit') else None
    o, g = calc(fc, q, **kw)
    cu = fc.crystal.cell_vectors.units
    n3 = 3 * fc.crystal.n_atoms
    G.need(g.shape == (nq, n3, 3), 'shape %s' % (g.shape,))
    G.need(g.units == G.E().ureg('meV').units * cu, 'units %s' % g.units)
    got = np.asarray(g.to('hartree*bohr').magnitude)
    f = R.hartree(o.frequencies)
    if asr is None or asr == 'reciprocal':
        # expectation values of the derivative of the documented sum
        if kw['modes']:
            for i in range(nq):
                _, dD = R.dynmat(fc, q[i], grad=True)
                e = o.eigenvectors[i].reshape(n3, n3)
                dD = np.triu(np.moveaxis(dD, 2, 0))
                dD = dD + np.triu(dD, 1).conj().transpose(0, 2, 1)
                want = np.einsum('mi,xij,mj->mx', e.conj(), dD, e).real / (2 * f[i])[:, None]
                ok = isolated(f[i], q[i])
                # the stated sum is Hermitian only up to the acoustic correction / input symmetry
                G.need_close(got[i][ok], want[ok], 'gradient is not the expectation value (%s)' % kw, 1e-6, 1e-7 * np.abs(want).max() + 1e-12)
    # and the derivative of the frequencies themselves
    i = int(rng.integers(nq))
    h = 1e-4
    kw.pop('reduce_qpts')
    d1, f1 = derivative(fc, q[i], h, **kw)
    d2, f2 = derivative(fc, q[i], h / 2, **kw)
    ok = isolated(f[i], q[i]) & (f[i] > 0)          # (of an unstable mode the reported frequency is minus the modulus)
    want = (4 * d2 - d1) / 3
    err = np.abs(d2 - d1).max() + 1e-7 * np.abs(want).max() + 1e-9 * np.abs(f).max() / h
    G.need(np.all(np.abs(got[i][ok] - want[ok]) <= 3 * err + 1e-5 * np.abs(want).max()),
           'gradient is not the derivative of the frequency (%s): got %s, finite differences %s' % (kw, got[i][ok], want[ok]))


@test('gradients with dipoles', n=24, n_thorough=150)
def t2(rng, k):
    fc = G.force_constants(rng, n=2, born=True, plain=True)
    if not R.reduced(fc):
        return
    q = rng.uniform(-.5, .5, 3)
    use_c = bool(rng.random() < .5)
    o, g = calc(fc, [q], use_c=use_c, dipole=True)
    got = g.to('hartree*bohr').magnitude[0]
    f = R.hartree(o.frequencies)[0]
    ok = isolated(f, q) & (f > 0)
    if not ok.any():
        return
    h = 1e-4
    d1, _ = derivative(fc, q, h, use_c=use_c, dipole=True)
    d2, _ = derivative(fc, q, h / 2, use_c=use_c, dipole=True)
    want = (4 * d2 - d1) / 3
    err = 3 * np.abs(d2 - d1).max() + 1e-5 * np.abs(want).max()
    if np.all(np.abs(got[ok] - want[ok]) <= err):
        return
    _, dD = R.dynmat(fc, q, grad=True, phi=fc._force_constants)
    e = o.eigenvectors[0].reshape(6, 6)
    dD = np.triu(np.moveaxis(dD, 2, 0))
    dD = dD + np.triu(dD, 1).conj().transpose(0, 2, 1)
    short = np.einsum('mi,xij,mj->mx', e.conj(), dD, e).real / (2 * f)[:, None]
    G.need_close(got[ok], short[ok], 'gradient is neither the derivative nor that of the short-range part (use_c=%s)' % use_c, 1e-6, 1e-7 * np.abs(short).max())
    raise Fail('the gradient leaves out the derivative of the dipole term', key='gradient-without-dipole')


@test('widths', n=80, n_thorough=500)
def t3(rng, k):
    e = G.E()
    cr = G.crystal(rng)
    nq, nm = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    g = rng.normal(size=(nq, nm, 3))
    u = G.pick(rng, ['meV*angstrom', 'hartree*bohr', 'THz*bohr*h' if False else 'eV*nm', 'meV*bohr'])
    cell = cr.cell_vectors
    if rng.random() < .3:
        cell = cell[[1, 0, 2]]
    f = e.util.mode_gradients_to_widths
    want = np.linalg.norm((g * e.ureg.Quantity(1, u)).to('meV*angstrom').magnitude, axis=-1) * 2 / np.cbrt(
        nq * abs(np.linalg.det(cell.to('angstrom').magnitude)))
    for x in (g, np.linalg.norm(g, axis=-1)):
        w = f(e.ureg.Quantity(x.copy(), u), cell)
        G.need_close(w.to('meV').magnitude, want, 'widths of %d-dimensional gradients in %s' % (x.ndim, u), 1e-9)
    for bad in (g[0, 0], g[..., None]):
        G.need(G.raises(lambda: f(e.ureg.Quantity(bad, u), cell), ValueError), 'gradients with %d dimensions accepted' % bad.ndim)
