"""dipole and LO-TO corrections"""
from contracts.fcs import *
from contracts import gen as G

assume('the lattice sums are over the vectors listed by the initialisation; their convergence and the Ewald formula itself are checked by the replay cases (independence of the splitting parameter, an independent evaluation)')
ng, nr = dim('ng'), dim('nr')
LAM = sym('lam', pos=True)
VOL = sym('vol', pos=True)
PI = Poly.atom(T.PI)


def polar(it, k, unit='ulen'):
    """force constants class and a crystal of k atoms; reciprocal cell and volume through their contracts (C13)"""
    m = it.load('euphonic.force_constants')
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = lambda self: Q(D('rec', (3, 3)), '1/bohr')
    it.hooks['euphonic.crystal.Crystal.cell_volume'] = lambda self: Q(VOL, 'bohr**3')
    return m.ForceConstants, crystal(it, k, unit)


def qpoint(gam):
    """q = x + m with m the nearest integers: every q-point"""
    q = mk((3,), lambda a: (const(0) if gam else sel('x', a)) + sel('m', a, kind='i'), 'f')
    N.HOOKS['rint'] = lambda p: D('m', (3,), 'i') if isinstance(p, A.Arr) and p.ndim == 1 and all((P(p.at(const(a))) - q.at(const(a))).iszero() for a in range(3)) else N.SYM['rint'](p)
    return q


def symtensor(name, shape, *lead):
    """every tensor symmetric in its last two indices"""
    return mk(shape, lambda *a: sel(name, *a) + sel(name, *a[:-2], a[-1], a[-2]), 'f')


def ewald(i, j, c, d, gam, tri_):
    x = [const(0) if gam else sel('x', const(a)) for a in range(3)]
    qc = lambda b: sum(x[a] * sel('rec', const(a), b) for a in range(3))
    g = index_sym('g', ng + 1)
    row = g + 1 if gam else g
    K = lambda b: sel('gv', row, b) + qc(b)
    kl = sum(K(const(a)) * K(const(b)) * sel('eps', const(a), const(b)) for a in range(3) for b in range(3)) / (4 * LAM * LAM)
    ph = lambda a: sel('gp', row, a, kind='c') * phase(sum(x[b] * sel('r', a, const(b)) for b in range(3)))
    rec = PI / (VOL * LAM * LAM) * mk_sum('g', 0, ng if gam else ng + 1, K(c) * K(d) * T.pexp(-kl) / kl * ph(i) / ph(j))
    r = index_sym('rr', nr)
    real = LAM ** 3 / N.det3(lambda a, b: sel('eps', P(a), P(b))).power(T.Fr(1, 2)) * mk_sum('rr', 0, nr, phase(sum(
        x[b] * sel('cells', r, const(b)) for b in range(3))) * (sel('H', r, tri_, c, d) + sel('H', r, tri_, d, c)))
    return rec - real


@obligation('Ewald sum', [FC + '_calculate_dipole_correction'])
def o1(ck):
    for gam in (False, True):
        it = ck.new_interp()
        cls, cr = polar(it, n)
        nel = n * (n + 1) / 2
        data = dict(dipole_parameter=1.0, H_ab=symtensor('H', (nr, nel, 3, 3)), cells=D('cells', (nr, 3)), gvecs_cart=D('gv', (ng + 1, 3)),
                    gvec_phases=D('gp', (ng + 1, n), 'c'), dipole_q0=D('q0', (n, 3, 3), 'c'))
        data['lambda'] = LAM
        born, eps = D('z', (n, 3, 3)), D('eps', (3, 3))
        ck.prefix = '%s: ' % ('at a lattice vector' if gam else 'anywhere else')
        q = qpoint(gam)
        g = gamma([sel('x', const(x)) for x in range(3)])
        a, b = index_sym('a', 3), index_sym('b', 3)
        with S.assuming(*[] if gam else [bnot(g)]):
            for r in returns(ck, lambda: cls._calculate_dipole_correction(q, cr, born, eps, data)):
                res = r.value
                ck.same_shape('shape', res, (3 * n, 3 * n))
                i, j = index_sym('i', n), index_sym('j', n)
                for lab, f in (('i < j', blt(i, j)), ('i = j', None)):
                    jj = i if f is None else j
                    with S.assuming(*([f] if f is not None else [])):
                        t = i * n - i * (i - 1) / 2 + jj - i
                        want = sum(sel('z', i, a, const(c)) * sel('z', jj, b, const(d)) * ewald(i, jj, const(c), const(d), gam, t)
                                   for c in range(3) for d in range(3)) - (sel('q0', i, a, b, kind='c') if f is None else 0)
                        got = res.at(3 * i + a, 3 * jj + b)
                        ck.eq(lab, got, want)
                        if f is not None:
                            ck.eq('Hermitian', res.at(3 * jj + b, 3 * i + a), conj(got))


@obligation('LO-TO term', [FC + '_calculate_gamma_correction'])
def o2(ck):
    it = ck.new_interp()
    cls, cr = polar(it, n)
    o = cls.__new__(cls)
    o.__dict__.update(crystal=cr, _born=D('z', (n, 3, 3)), _dielectric=D('eps', (3, 3)))
    i, j, a, b = index_sym('i', n), index_sym('j', n), index_sym('a', 3), index_sym('b', 3)
    Qc = lambda c: sum(sel('d', const(e)) * sel('rec', const(e), c) for e in range(3))
    den = sum(Qc(const(c)) * Qc(const(d)) * sel('eps', const(c), const(d)) for c in range(3) for d in range(3))
    zq = lambda i, a: sum(sel('z', i, a, const(c)) * Qc(const(c)) for c in range(3))
    g = gamma([sel('d', const(x)) for x in range(3)])
    for r in returns(ck, lambda: o._calculate_gamma_correction(D('d', (3,)))):
        res = lift(r.value)
        ck.same_shape('shape', res, (3 * n, 3 * n))
        v = res.at(3 * i + a, 3 * j + b)
        ck.prefix = 'no direction: '
        with S.assuming(g):
            if not S.infeasible(3000):
                ck.zero('no term', v)
        ck.prefix = 'direction: '
        with S.assuming(bnot(g)):
            if not S.infeasible(3000):
                ck.eq('4 pi (Z_i q)(Z_j q) / (V q.eps.q)', v, 4 * PI / (VOL * den) * zq(i, a) * zq(j, b))
    ck.prefix = ''


@obligation('lemma')
def o3(ck):
    """the LO-TO term does not depend on the length or sign of the direction"""
    Qc = lambda c, s: sum(s * sel('d', const(e)) * sel('rec', const(e), c) for e in range(3))
    den = lambda s: sum(Qc(const(c), s) * Qc(const(d), s) * sel('eps', const(c), const(d)) for c in range(3) for d in range(3))
    zq = lambda i, s: sum(sel('z', const(i), const(0), const(c)) * Qc(const(c), s) for c in range(3))
    s = sym('s', pos=True)
    for sg in (1, -1):
        ck.eq('scaled by %d s' % sg, zq(0, s * sg) * zq(1, s * sg) * den(const(1)), zq(0, const(1)) * zq(1, const(1)) * den(s * sg))


def dirs(ck, K, use_c, gams, **kw):
    it = ck.new_interp()
    drv = Driver(it, dirs=True)
    it.hooks['euphonic.util.get_all_origins'] = lambda *a, **k: mk((dim('nt'), 3), lambda k, x: sel('tr', k, x, kind='i'), 'i')
    base = full_obj(it, True)

    def fresh():
        o = base.__class__.__new__(base.__class__)
        o.__dict__.update(base.__dict__)
        return o
    m = index_sym('m', 3 * n)
    for gam in gams:
        # zone centres are any lattice vectors; other q-points are anything else
        rows = [[sel('Z' if g else 'q', const(i), const(x), kind='i' if g else 'f') for x in range(3)] for i, g in enumerate(gam)]
        for ins in (False, True):
            src = [i for i in range(K) for _ in range(2 if ins and gam[i] and 0 < i < K - 1 else 1)]
            ck.prefix = 'zone centres %s%s: ' % (''.join('.G'[g] for g in gam), ', repeated' if ins else '')
            with S.assuming(*[bnot(gamma(r)) for r, g in zip(rows, gam) if not g]):
                for r in returns(ck, lambda: (drv.reset(), fresh().calculate_qpoint_phonon_modes(
                        A.from_nested(rows), None, use_c=use_c, reduce_qpts=False, insert_gamma=ins, n_threads=1, **kw))[1]):
                    f = r.value.frequencies.m
                    ck.same_shape('rows', f, (len(src), 3 * n))
                    for p, i in enumerate(src):
                        a = drv.is_row(ck, 'frequencies of row %d' % p, f.at(const(p), m) * uscale(r.value.frequencies.u) / us('hartree'), 'F', (m,), None, what=rows[i])
                        if a is None:
                            continue
                        ck.eq('row %d: corrected exactly at zone centres' % p, a[3], int(gam[i]))
                        step = lambda u, v: [rows[src[u]][x] - rows[src[v]][x] for x in range(3)]
                        fwd = [const(0)] * 3
                        bwd = None
                        if len(src) > 1:
                            fwd = step(p + 1, p) if p + 1 < len(src) else step(p, p - 1)
                            bwd = step(p, p - 1) if 0 < p < len(src) - 1 else None
                        for x in range(3):
                            if not gam[i]:
                                continue
                            if bwd is None:
                                ck.eq('row %d: direction.%d' % (p, x), a[4 + x], fwd[x])
                                continue
                            with S.assuming(gamma(fwd)):
                                if not S.infeasible(2000):
                                    ck.eq('row %d: next is the same point, direction from the previous.%d' % (p, x), a[4 + x], bwd[x])
                            with S.assuming(bnot(gamma(fwd))):
                                if not S.infeasible(2000):
                                    ck.eq('row %d: direction to the next.%d' % (p, x), a[4 + x], fwd[x])
    ck.prefix = ''


FEW = [(False, True, True, False), (True, False, True, True)]
for K in (1, 2, 3, 4):
    for USE_C in (False, True):
        @obligation('direction of approach, %d q-points, %s' % (K, 'C' if USE_C else 'Python'), UNDER, bounded='lists of up to 4 q-points, every pattern of zone centres',
                    limit=880)
        def o4(ck, K=K, USE_C=USE_C):
            dirs(ck, K, USE_C, [g for g in itertools.product((False, True), repeat=K) if any(g) and (K < 4 or THOROUGH or g in FEW)])


# ------------------------------------------------------------------------------------------------ real code
import numpy as np
from contracts import fcref as R


def polar_fc(rng, nmax=3, **kw):
    while True:
        fc = G.force_constants(rng, n=int(rng.integers(2, nmax + 1)), born=True, **kw)
        r = fc.crystal.atom_r @ R.bohr(fc)
        d = r[:, None] - r[None] - (R.SHELL @ R.bohr(fc))[:, None, None]
        d = np.sqrt((d ** 2).sum(-1))
        d = d[d > 1e-9]
        # atoms apart, cells not too long (the sums are over at most 50 shells of cells)
        if d.min() > 1.5 and np.linalg.cond(R.bohr(fc)) < 5:
            return fc


def qpoint_(rng):
    q = rng.uniform(-1.5, 1.5, 3)
    k = rng.integers(4)
    if k == 0:
        q = rng.integers(-2, 3, 3) + 0.
    elif k == 1:
        q = rng.integers(-4, 5, 3) / 4
    return q


@test('Ewald sum', n=24, n_thorough=200)
def t1(rng, k):
    """against the same sum done independently, with another splitting between real and reciprocal space"""
    fc = polar_fc(rng)
    cls = type(fc)
    par = G.pick(rng, [.6, 1., 1.5])
    init = cls._dipole_correction_init(fc.crystal, fc._born, fc._dielectric, par)
    for _ in range(2):
        q = qpoint_(rng)
        got = cls._calculate_dipole_correction(q, fc.crystal, fc._born, fc._dielectric, init)
        want = R.ewald(fc, q, G.pick(rng, [.9, 1.3]))
        s = np.abs(want).max()
        G.need(np.abs(got - want).max() < 1e-8 * s, 'Ewald sum at %s (parameter %s): %s, expected %s' % (q, par, got, want))
        G.need(np.abs(got - got.conj().T).max() < 1e-10 * s, 'not Hermitian')


@test('frequencies', n=60, n_thorough=500)
def t2(rng, k):
    """dynamical matrix with all corrections, both kernels; the corrections do not depend on the splitting parameter"""
    fc = polar_fc(rng, 2)
    if not R.reduced(fc):
        fc = type(fc)(fc.crystal, fc.force_constants[~fc.cell_origins.any(1)], np.eye(3, dtype=int), np.zeros((1, 3), int), fc.born, fc.dielectric)
        if not R.reduced(fc):
            return
    nq_ = int(rng.integers(1, 6))
    q = np.array([qpoint_(rng) for _ in range(nq_)])
    if rng.random() < .5:
        q[int(rng.integers(nq_))] = rng.integers(-1, 2, 3)
    kw = dict(use_c=bool(rng.random() < .5), splitting=bool(rng.random() < .8), insert_gamma=bool(rng.random() < .4), dipole_parameter=G.pick(rng, [.7, 1., 1.4]))
    m = fc.calculate_qpoint_phonon_modes(q, n_threads=G.pick(rng, [1, 3]), **kw)
    src = [i for i in range(nq_) for _ in range(2 if kw['splitting'] and kw['insert_gamma'] and 0 < i < nq_ - 1 and np.array_equal(q[i], np.rint(q[i])) else 1)]
    d = R.directions(q[src])
    mm = np.sqrt(np.repeat(R.mass_me(fc), 3))
    for p, i in enumerate(src):
        dm = R.dynmat(fc, q[i], weighted=False) + R.ewald(fc, q[i])
        if kw['splitting'] and np.array_equal(q[i], np.rint(q[i])):
            dm = dm + R.loto(fc, d[p])
        dm = dm / np.outer(mm, mm)
        f = R.hartree(m.frequencies)[p]
        s = np.abs(dm).max() * len(mm)
        w = np.linalg.eigvalsh(dm)
        G.need(np.abs(f * abs(f) - w).max() < 1e-7 * s, '%s, q %s, direction %s: eigenvalues %s, expected %s' % (kw, q[i], d[p], f * abs(f), w))
        e = m.eigenvectors[p].reshape(len(mm), -1)
        lam = f * abs(f)
        G.need(np.abs(dm @ e.T - e.T * lam).max() < 1e-6 * s, '%s, q %s: eigenvectors' % (kw, q[i]))


@test('LO-TO term', n=60)
def t3(rng, k):
    fc = polar_fc(rng)
    d = rng.normal(size=3) * 10. ** rng.integers(-6, 3)
    if rng.random() < .3:
        d[rng.integers(3)] = 0
    if rng.random() < .1:
        d *= 0
    got = np.asarray(fc._calculate_gamma_correction(d))
    want = R.loto(fc, d)
    G.need(np.abs(got - want).max() <= 1e-9 * max(np.abs(want).max(), 1e-300), 'LO-TO term for %s: %s, expected %s' % (d, got, want))


@test('total force constants', n=40, n_thorough=300)
def t4(rng, k):
    """what is left of the total without the dipoles: together with the dipole part it is the total at every commensurate q-point"""
    fc = polar_fc(rng, int(rng.integers(2, 4)))
    cls = type(fc)
    m, org = fc.sc_matrix, fc.cell_origins
    if fc.crystal.n_atoms * len(org) < 2:
        return
    if rng.random() < .5:
        p = rng.permutation(len(org))
        org = org[p] + rng.integers(-1, 2, (len(org), 3)) @ m
        tot = fc.force_constants[p]
    else:
        tot = fc.force_constants
    keep = tot.magnitude.copy()
    sr = cls.from_total_fc_with_dipole(fc.crystal, tot, m, org, fc.born, fc.dielectric)
    G.need(np.array_equal(keep, tot.magnitude) and np.array_equal(sr.cell_origins, org) and np.array_equal(sr.sc_matrix, m), 'arguments changed or not kept')
    inv = np.linalg.inv(m)
    for z in fc.cell_origins:
        q = inv @ z
        e = np.exp(2j * np.pi * org @ q)
        a = np.einsum('cij,c->ij', R.phi_au(sr), e)
        b = np.einsum('cij,c->ij', tot.to('hartree/bohr**2').magnitude, e)
        w = R.ewald(fc, q)
        G.need(np.abs(a + w - b).max() < 1e-7 * np.abs(w).max(), 'at %s, supercell %s, cells %s: %s, expected %s' % (q, m.tolist(), org.tolist(), a, b - w))
