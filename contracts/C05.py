"""acoustic sum rule corrections"""
from contracts.fcs import *
from contracts import gen as G

assume('numpy.linalg.eigh returns ascending eigenvalues and orthonormal eigenvectors (columns), real ones for a real symmetric matrix; the zone-centre matrix is real',
       'numpy.argsort returns the permutation that puts its argument in ascending order',
       'force constants are symmetric under exchange of the two atoms')
# Hermitian, like every correction the contract of the function allows
corr = lambda i, j: sel('corr', i, j, kind='c') + conj(sel('corr', j, i, kind='c'))
TINY = [T.Fr(5, 10 ** 15) * k for k in range(3)]


class Acoustic:
    """eigh with real eigenvectors, argsort as an opaque permutation; what they were given is recorded"""

    def __init__(self, size):
        self.size = size
        N.HOOKS['linalg.eigh'] = self.eigh
        N.HOOKS['argsort'] = self.argsort

    def reset(self):
        self.mats, self.keys = [], []
        return True

    def eigh(self, a, UPLO='L'):
        self.mats.append((lift(a).copy(), UPLO))
        ev, vec = T.ArrDecl('ev', 1, mono=True), T.ArrDecl('vec', 2)
        # a complex array comes back, as numpy returns for a complex argument
        kind = 'c' if lift(a).kind == 'c' else 'f'
        return mk((self.size,), lambda i: ev(i), 'f'), mk((self.size, self.size), lambda i, j: vec(i, j), kind)

    def argsort(self, x, axis=-1, **k):
        self.keys.append(lift(x))
        return D('sorted', (lift(x).vshape[0],), 'i', rng=(const(0), self.size))

    def given(self, ck, size, matrix):
        """the matrix was diagonalised"""
        i, j = index_sym('i', size), index_sym('j', size)
        ck.true('diagonalised once', len(self.mats) == 1)
        a, tri_ = self.mats[0]
        with S.assuming(T.ble(i, j) if tri_ == 'U' else bge(i, j)):
            ck.eq('the matrix is diagonalised', a.at(i, j), matrix(i, j))


def weight(m, size):
    at = lambda k: mk_sum(k, 0, size / 3, sel('vec', 3 * index_sym(k, size / 3) + index_sym('xx', 3), m))
    return mk_sum('xx', 0, 3, at('at') * at('bt'))


def three(size):
    """at least three modes have more than half of the weight of a translation"""
    m = index_sym('m', size)
    return bge(mk_sum('m', 0, size, ite(blt(size / 6, weight(m, size)), const(1), const(0))), 3)


@obligation('reciprocal', [FC + '_enforce_reciprocal_asr', FC + '_find_acoustic_modes'])
def o1(ck):
    it = ck.new_interp()
    o = fc_obj(it)
    ac = Acoustic(3 * n)
    i, j, m = index_sym('i', 3 * n), index_sym('j', 3 * n), index_sym('m', 3 * n)
    ways = set()
    for r in returns(ck, lambda: (it.warnings.clear(), ac.reset(), o._enforce_reciprocal_asr(D('dm', (3 * n, 3 * n), 'c')))[2]):
        c = lift(r.value)
        found = A.conc(c.vshape[0]) != 0
        ways.add(found)
        ac.given(ck, 3 * n, lambda i, j: sel('dm', i, j, kind='c'))
        if not found:
            ck.true('a warning says so', len(it.warnings) == 1)
            ck.holds('uncorrected only without three acoustic modes', bnot(three(3 * n)))
            continue
        ck.true('no warning', not it.warnings)
        ck.holds('corrected only with three acoustic modes', three(3 * n))
        ck.true('modes ordered once', len(ac.keys) == 1)
        ck.eq('ordered by the squared size of the summed displacements', ac.keys[0].at(m), weight(m, 3 * n))
        ck.same_shape('shape', c, (3 * n, 3 * n))
        a = [sel('sorted', 3 * n - 3 + k, kind='i') for k in range(3)]
        ck.eq('minus the projection on the three, with the documented offsets', c.at(i, j),
              -sum((sel('ev', a[k]) + TINY[k]) * sel('vec', i, a[k]) * sel('vec', j, a[k]) for k in range(3)))
    ck.true('both outcomes', ways == {True, False})


@obligation('added', [FC + '_calculate_phonons_at_q'])
def o2(ck):
    """the correction is added before the mass weighting, to every other part"""
    for dip in (False, True):
        for d in (False, True):
            it = ck.new_interp()
            o = fc_obj(it)
            o.__dict__.update(_born=D('z', (n, 3, 3)), _dielectric=D('eps', (3, 3)), _dipole_init_data={})
            i, j = index_sym('i', 3 * n), index_sym('j', 3 * n)
            X_ = lambda nm: D(nm, (3 * n, 3 * n), 'c')
            it.hooks[FC + '_calculate_dyn_mat'] = lambda self, *a: (X_('dm'), None)
            it.hooks[FC + '_calculate_dipole_correction'] = lambda *a: X_('dip')
            it.hooks[FC + '_calculate_gamma_correction'] = lambda self, *a: X_('loto')
            asr = X_('asr')
            for r in returns(ck, lambda: (eigh(3 * n), o._calculate_phonons_at_q(D('q', (3,)), None, None, None, None, None, None, D('w', (3 * n, 3 * n)), asr, dip,
                                                                                D('d', (3,)) if d else None))[0]):
                a, tri_ = r.value.calls[0]
                with S.assuming(T.ble(i, j) if tri_ == 'U' else bge(i, j)):
                    ck.eq('dipole %s, direction %s: matrix' % (dip, d), a.at(i, j), sel('w', i, j) * sum(
                        sel(x, i, j, kind='c') for x in ['dm', 'asr'] + ['dip'] * dip + ['loto'] * d))
                ck.eq('the correction itself is not changed', asr.at(i, j), sel('asr', i, j, kind='c'))


@obligation('driver', UNDER, limit=900)
def o3(ck):
    """the same correction reaches every q-point; it is made from the zone-centre matrix; real-space correction replaces the force constants"""
    for use_c in (False, True):
        for mode in ('reciprocal', 'realspace'):
            for born in (False, True):
                it = ck.new_interp()
                drv = Driver(it)
                ck.prefix = '%s, %s%s: ' % ('C' if use_c else 'Python', mode, ', polar' if born else '')
                seen = []
                i, j, c = index_sym('i', 3 * n), index_sym('j', 3 * n), index_sym('c', NSC)
                it.hooks[FC + '_calculate_dyn_mat'] = lambda self, q, *a: (seen.append(('q', q, a[0])), (D('dm', (3 * n, 3 * n), 'c'), None))[1]
                it.hooks[FC + '_calculate_dipole_correction'] = lambda q, *a: (seen.append(('dq', q, a)), D('dip', (3 * n, 3 * n), 'c'))[1]
                it.hooks[FC + '_enforce_reciprocal_asr'] = lambda self, m: (seen.append(('m', lift(m).copy())), mk((3 * n, 3 * n), corr, 'c'))[1]
                it.hooks[FC + '_enforce_realspace_asr'] = lambda self: (seen.append(('real',)), D('phi2', (NSC, 3 * n, 3 * n)))[1]
                for r in returns(ck, lambda: (seen.clear(), drv.reset(), full_obj(it, born).calculate_qpoint_phonon_modes(
                        D('q', (nq, 3)), reduce_qpts=False, use_c=use_c, n_threads=1, splitting=False, asr=mode))[1]):
                    s = {x[0]: x for x in seen}
                    for d in drv.q + drv.c:
                        if mode == 'reciprocal':
                            ck.eq('the correction is used at the q-point', lift(d['asr']).at(i, j), corr(i, j))
                            continue
                        ck.true('no reciprocal correction', A.conc(lift(d['asr']).vshape[0]) == 0)
                        a, b = index_sym('a', n), index_sym('b', n)
                        x, y = index_sym('x', 3), index_sym('y', 3)
                        nim = sel('nim', c, a, b, kind='i')
                        ck.eq('the corrected force constants are used', lift(d['fcw']).at(c, 3 * a + x, 3 * b + y),
                              ite(beq(nim, 0), const(0), sel('phi2', c, 3 * a + x, 3 * b + y) / nim))
                    if mode == 'reciprocal':
                        ck.true('made once', [x[0] for x in seen].count('m') == 1 and ('dq' in s) == born)
                        for x in range(3):
                            ck.zero('from the zone centre.%d' % x, lift(s['q'][1]).at(const(x)))
                            if born:
                                ck.zero('from the zone centre (dipole).%d' % x, lift(s['dq'][1]).at(const(x)))
                        ck.eq('from the whole matrix', s['m'][1].at(i, j), sel('dm', i, j, kind='c') + (sel('dip', i, j, kind='c') if born else 0))
                        kernel = (drv.q + drv.c)[0]
                        ck.eq('of the same force constants', lift(s['q'][2]).at(c, i, j), lift(kernel['fcw']).at(c, i, j))
                    else:
                        ck.true('made once from the object', [x[0] for x in seen] == ['real'])
    ck.prefix = ''


@obligation('real space', [FC + '_enforce_realspace_asr', FC + '_find_acoustic_modes'])
def o4(ck):
    it = ck.new_interp()
    o = fc_obj(it)
    big = 3 * n * nc
    o.__dict__.update(_force_constants=D('phi', (nc, 3 * n, 3 * n)), n_cells_in_sc=nc, cell_origins=D('org', (nc, 3), 'i'), sc_matrix=D('S', (3, 3), 'i'))
    it.hooks['euphonic.util._get_supercell_relative_idx'] = lambda co, sc: D('rel', (nc, nc), 'i', rng=(const(0), nc))
    N.HOOKS['amin'] = N.HOOKS['min'] = lambda a, *k, **kw: sym('least')
    ac = Acoustic(big)
    c, d, a, b = index_sym('c', nc), index_sym('d', nc), index_sym('a', 3 * n), index_sym('b', 3 * n)
    for r in returns(ck, lambda: (it.warnings.clear(), ac.reset(), o._enforce_realspace_asr())[2]):
        v = lift(r.value)
        ck.same_shape('shape', v, (nc, 3 * n, 3 * n))
        m = ac.mats[0][0]
        ck.eq('supercell matrix: lattice translations of the stored ones', m.at(3 * n * c + a, 3 * n * d + b), sel('phi', sel('rel', c, d, kind='i'), b, a))
        if it.warnings:
            ck.holds('uncorrected only without three acoustic modes', bnot(three(big)))
            ck.eq('uncorrected', v.at(c, a, b), sel('phi', c, a, b))
            continue
        ck.holds('corrected only with three acoustic modes', three(big))
        mm = index_sym('mm', big)
        ck.eq('ordered by the squared size of the summed displacements', ac.keys[0].at(mm), weight(mm, big))
        k = [sel('sorted', big - 3 + x, kind='i') for x in range(3)]
        c0 = sel('rel', const(0), const(0), kind='i')             # the cell that is no step away from another: the one at the origin
        ck.eq('cut back to the stored layout', v.at(c, a, b), sel('phi', sel('rel', c, c0, kind='i'), b, a) - sum(
            (sel('ev', x) + T.Fr(1, 10 ** 8) * sym('least')) * sel('vec', 3 * n * c + a, x) * sel('vec', 3 * n * c0 + b, x) for x in k))


# ------------------------------------------------------------------------------------------------ real code
import numpy as np
import warnings
from contracts import fcref as R


def acoustic(m, cells):
    """three most translational modes of a real symmetric matrix; None where they cannot be told clearly"""
    w, v = np.linalg.eigh((m + m.T) / 2)
    t = (v.reshape(cells, 3, -1).sum(0) ** 2).sum(0)
    o = np.argsort(t)
    ac, rest = o[-3:], o[:-3]
    n_big = int((t > .5 * cells).sum())
    s = np.abs(m).max()
    gap = min((abs(w[a] - w[b]) for a in ac for b in rest), default=1e9)
    clear = np.abs(t - .5 * cells).min() > 1e-4 * cells and (not len(rest) or t[ac].min() - t[rest].max() > 1e-4) and gap > 1e-5 * s
    return w, v, ac, n_big, clear


def broken(rng, fc):
    """the same force constants with the sum rule broken: a little, or so much that there are no acoustic modes"""
    phi = R.phi_au(fc).copy()
    big = G.pick(rng, [0., .002, .02, 1.5])
    n = fc.crystal.n_atoms
    o = int(np.where(~fc.cell_origins.any(1))[0][0])
    k = rng.normal(size=(n, 3, 3)) * big
    for i in range(n):
        phi[o, 3 * i:3 * i + 3, 3 * i:3 * i + 3] += k[i] + k[i].T
    kw = dict(born=fc.born, dielectric=fc.dielectric) if fc.born is not None else {}
    u = E_().ureg.Quantity(phi, 'hartree/bohr**2').to(fc.force_constants.units)
    return type(fc)(fc.crystal, u, fc.sc_matrix, fc.cell_origins, **kw)


def E_():
    return G.E()


def sample(rng, born):
    while True:
        n = int(rng.integers(1 if not born else 2, 4))
        fc = G.force_constants(rng, n=n, born=born)
        r = fc.crystal.atom_r @ R.bohr(fc)
        d = r[:, None] - r[None] - (R.SHELL @ R.bohr(fc))[:, None, None]
        d = np.sqrt((d ** 2).sum(-1))
        if born and (d[d > 1e-9].min() < 1.5 or np.linalg.cond(R.bohr(fc)) > 5):
            continue
        fc = broken(rng, fc)
        if R.reduced(fc):
            return fc


@test('reciprocal correction', n=80, n_thorough=600)
def t1(rng, k):
    """frequencies at every q-point from the dynamical matrix plus the projection of the zone-centre matrix"""
    born = bool(rng.random() < .3)
    fc = sample(rng, born)
    n = fc.crystal.n_atoms
    D0 = R.dynmat(fc, np.zeros(3), weighted=False)
    if born:
        D0 = D0 + R.ewald(fc, np.zeros(3))
    if np.abs(R.phi_au(fc)).max() < 1e-9:
        return              # no forces at all
    G.need(np.abs(D0.imag).max() < 1e-9, 'zone-centre matrix not real')
    w, v, ac, nbig, clear = acoustic(D0.real, n)
    if not clear:
        return
    corr = -sum(w[a] * np.outer(v[:, a], v[:, a]) for a in ac) if nbig >= 3 else 0
    q = R.qpoints(rng, int(rng.integers(1, 4)))
    kw = dict(use_c=bool(rng.random() < .5), splitting=False, n_threads=G.pick(rng, [1, 2]))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        m = fc.calculate_qpoint_phonon_modes(q, asr='reciprocal', **kw)
    said = any('acoustic sum rule' in str(x.message) for x in rec)
    G.need(said == (nbig < 3), 'warning about acoustic modes: %s, %d found' % (said, nbig))
    mm = np.sqrt(np.repeat(R.mass_me(fc), 3))
    for i in range(len(q)):
        D = R.dynmat(fc, q[i], weighted=False) + corr
        if born:
            D = D + R.ewald(fc, q[i])
        R.check_modes(fc, D / np.outer(mm, mm), R.hartree(m.frequencies)[i], m.eigenvectors[i], 'q-point %s, %s, %d acoustic modes' % (q[i], kw, nbig), tol=1e-7)
    if nbig >= 3:
        z = R.hartree(fc.calculate_qpoint_frequencies(np.zeros((2, 3)), asr='reciprocal', **kw).frequencies)
        lam = np.sort(np.abs(z * abs(z)), axis=1)
        G.need(lam[:, 2].max() < 1e-8 * R.scale(fc) * 3 * n, 'three zero frequencies at the zone centre: %s' % z)


@test('real-space correction', n=60, n_thorough=500)
def t2(rng, k):
    fc = sample(rng, False)
    n, nc_ = fc.crystal.n_atoms, fc.n_cells_in_sc
    inv = np.linalg.inv(fc.sc_matrix)
    if rng.random() < .5:                       # the cells in another order, moved by supercells
        p = rng.permutation(nc_)
        fc = type(fc)(fc.crystal, fc.force_constants[p], fc.sc_matrix, fc.cell_origins[p] + (rng.integers(0, 2, (nc_, 3)) @ fc.sc_matrix if rng.random() < .3 else 0))
        if not R.reduced(fc):
            return
    org = fc.cell_origins

    def cell_no(v):
        x = (org - v) @ inv
        return int(np.where(np.abs(x - np.rint(x)).sum(1) < 1e-6)[0][0])
    phi = R.phi_au(fc)
    if np.abs(phi).max() < 1e-9:
        return              # no forces at all
    M = np.zeros((nc_, 3 * n, nc_, 3 * n))
    for c in range(nc_):
        for d in range(nc_):
            M[c, :, d] = phi[cell_no(org[d] - org[c])]
    M = M.reshape(3 * n * nc_, -1)
    G.need(np.abs(M - M.T).max() < 1e-9 * np.abs(M).max(), 'test force constants are not symmetric')
    w, v, ac, nbig, clear = acoustic(M, n * nc_)
    if not clear:
        return
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = fc._enforce_realspace_asr()
    said = any('acoustic sum rule' in str(x.message) for x in rec)
    G.need(said == (nbig < 3), 'warning about acoustic modes: %s, %d found' % (said, nbig))
    M2 = M - sum(w[a] * np.outer(v[:, a], v[:, a]) for a in ac) if nbig >= 3 else M
    want = M2.reshape(nc_, 3 * n, nc_, 3 * n)[cell_no(np.zeros(3))].transpose(1, 0, 2)
    got = got * (E_().ureg('hartree/bohr**2').magnitude)
    G.need(np.abs(got - want).max() < 1e-6 * np.abs(M).max(), 'corrected force constants: %s, expected %s' % (got, want))
    q = R.qpoints(rng, 2)
    kw = dict(use_c=bool(rng.random() < .5))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = fc.calculate_qpoint_phonon_modes(q, asr='realspace', **kw)
        again = fc.calculate_qpoint_phonon_modes(q, **kw)
    for i in range(2):
        R.check_modes(fc, R.dynmat(fc, q[i], phi=want), R.hartree(m.frequencies)[i], m.eigenvectors[i], 'corrected, %s' % kw, tol=1e-6)
        R.check_modes(fc, R.dynmat(fc, q[i]), R.hartree(again.frequencies)[i], again.eigenvectors[i], 'without correction afterwards, %s' % kw)


@test('cells by their differences', n=40, n_thorough=300)
def t3(rng, k):
    """the table of cell differences used to rebuild the supercell, also for many cells"""
    from euphonic.util import _get_supercell_relative_idx
    m = G.sc_matrix(rng) if rng.random() < .7 else np.diag(rng.integers(1, 7, 3))
    org = G.cell_origins(m)
    org = org[rng.permutation(len(org))] + (rng.integers(-1, 2, (len(org), 3)) @ m if rng.random() < .5 else 0)
    got = _get_supercell_relative_idx(org, m)
    x = (org[None, :, None] - org[:, None, None] - org[None, None]) @ np.linalg.inv(m)
    ok = np.abs(x - np.rint(x)).sum(-1) < 1e-6
    G.need((ok.sum(-1) == 1).all(), 'test cells')
    G.need(np.array_equal(got, ok.argmax(-1)), 'cell of each difference: %s, expected %s (%s)' % (got, ok.argmax(-1), m))
