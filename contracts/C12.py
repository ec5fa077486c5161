"""Debye-Waller exponents"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('crystal symmetry operations come from spglib: assumed to form a group acting on the crystal',
       'atomic units: hbar = 1 in internal units')
PM = 'euphonic.qpoint_phonon_modes.QpointPhononModes.'
UNDER = [PM + 'calculate_debye_waller']
n, nq = dim('n'), dim('nq')
define_unit('uw', '0.9 meV')


def modes_obj(it):
    m = it.load('euphonic.qpoint_phonon_modes')
    c = crystal(it, n)
    return m.QpointPhononModes(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * n)), 'ufreq'),
                               decl_arr('ev', (nq, 3 * n, n, 3), 'c'), decl_arr('w', (nq,), pos=True))


def spec(k, a, b, temp):
    """in bohr**2"""
    q, m = index_sym('sq', nq), index_sym('sm', 3 * n)
    f = sel('f', q, m) * us('ufreq') / us('hartree')
    fmin = sym('fmin', pos=True) * us('uw') / us('hartree')
    t = 1 / f
    if temp is not None:
        kT = us('k') * us('kelvin') / us('hartree') * temp
        t = t / fn('tanh', f / (2 * kT))
    e1, e2 = sel('ev', q, m, k, a, kind='c'), sel('ev', q, m, k, b, kind='c')
    body = sel('w', q, pos=True) * t * bnot(blt(f, fmin)).poly() * preal(e1 * conj(e2))
    wq = index_sym('sq', nq)
    mk = mass(k) * us('umass') / us('m_e')
    return mk_sum('sq', 0, nq, mk_sum('sm', 0, 3 * n, body)) / (4 * mk) / mk_sum('sq', 0, nq, sel('w', wq, pos=True))


@obligation('unsymmetrised', UNDER)
def o1(ck):
    it = ck.new_interp()
    k, a, b = index_sym('k', n), index_sym('a', 3), index_sym('b', 3)
    for T_ in (sym('tdw', pos=True), None):
        ck.prefix = 'T>0 ' if T_ is not None else 'T=0 '
        t = Q(T_ if T_ is not None else const(0), 'utemp')
        for o in returns(ck, lambda: modes_obj(it).calculate_debye_waller(t, frequency_min=Q(sym('fmin', pos=True), 'uw'), symmetrise=False)):
            d = o.value
            want = spec(k, a, b, None if T_ is None else T_ * us('utemp') / us('kelvin'))
            ck.same_shape('shape', d.debye_waller.m, (n, 3, 3))
            ck.eq('formula', d.debye_waller.m.at(k, a, b) * uscale(d.debye_waller.u), want * us('bohr') ** 2, limit=90)
            ck.eq('symmetric matrix', d.debye_waller.m.at(k, a, b), d.debye_waller.m.at(k, b, a), limit=60)


ns = dim('ns')
define_unit('ub', '1.9/nm')


def rotc(s, i, l, mm):
    """Cartesian form of a fractional rotation: cell^T W (reciprocal cell)/2pi"""
    j, k = index_sym('yj', 3), index_sym('yk', 3)
    return mk_sum('yj', 0, 3, mk_sum('yk', 0, 3, sel('rot', s, j, k, kind='i') * sel('cell', j, l) * sel('b', k, mm))) \
        * us('ulen') * us('ub') / (2 * PI)


@obligation('symmetrised', UNDER)
def o2(ck):
    it = ck.new_interp()
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = lambda self: Q(decl_arr('b', (3, 3)), 'ub')
    eqp, inv = T.permutation('eqat', 2, n)
    eq_atoms = mk((ns, n), lambda s, k: eqp(s, k), 'i')
    it.hooks['euphonic.crystal.Crystal.get_symmetry_equivalent_atoms'] = lambda self, *a: (
        decl_arr('rot', (ns, 3, 3), 'i'), decl_arr('tr', (ns, 3)), eq_atoms)
    k, a, b = index_sym('k', n), index_sym('a', 3), index_sym('b', 3)
    t = Q(sym('tdw', pos=True), 'utemp')
    fm = Q(sym('fmin', pos=True), 'uw')

    def f():
        o = modes_obj(it)
        return o.calculate_debye_waller(t, frequency_min=fm, symmetrise=False), o.calculate_debye_waller(t, frequency_min=fm)
    for o in returns(ck, f):
        d0, d1 = o.value
        s, j, l = index_sym('ss', ns), index_sym('xj', 3), index_sym('xl', 3)
        m0 = lambda k, a, b: d0.debye_waller.m.at(k, a, b) * uscale(d0.debye_waller.u)
        # the operation s carries atom inv(s, k) onto atom k
        src = T.mksel(inv, (s, k))
        want = mk_sum('ss', 0, ns, mk_sum('xj', 0, 3, mk_sum('xl', 0, 3, rotc(s, 0, a, j) * m0(src, j, l) * rotc(s, 0, b, l)))) / ns
        ck.same_shape('shape', d1.debye_waller.m, (n, 3, 3))
        ck.eq('average over operations', d1.debye_waller.m.at(k, a, b) * uscale(d1.debye_waller.u), want, limit=120)
        ck.eq('symmetric matrix', d1.debye_waller.m.at(k, a, b), d1.debye_waller.m.at(k, b, a), limit=120)
        ck.true('crystal and temperature carried', d1.crystal.n_atoms is not None and d1.temperature.u == U.as_unit('utemp'))
        ck.eq('temperature', P(d1.temperature.m), sym('tdw', pos=True))


@obligation('lemmas')
def o3(ck):
    # the trace over all atoms is unchanged when R^T R = 1:  sum_k tr(R_s W_inv(s,k) R_s^T) = sum_k tr(W_k R_s^T R_s)
    eqp, inv = T.permutation('eqat', 2, n)
    k, s = index_sym('k', n), index_sym('ss', ns)
    a, i, j = (index_sym(x, 3) for x in ('xa', 'xi', 'xj'))
    R = lambda s, x, y: sel('R', s, x, y)
    W = lambda k, x, y: sel('W', k, x, y)
    lhs = mk_sum('k', 0, n, mk_sum('ss', 0, ns, mk_sum('xa', 0, 3, mk_sum('xi', 0, 3, mk_sum('xj', 0, 3,
                 R(s, a, i) * W(T.mksel(inv, (s, k)), i, j) * R(s, a, j))))))
    # reindex by k -> eqat(s, k): a permutation of the atoms for each s (rule used: sum over k of F(k) = sum over k of F(p(k)))
    lhs2 = mk_sum('k', 0, n, mk_sum('ss', 0, ns, mk_sum('xa', 0, 3, mk_sum('xi', 0, 3, mk_sum('xj', 0, 3,
                  R(s, a, i) * W(T.mksel(inv, (s, T.mksel(eqp, (s, k)))), i, j) * R(s, a, j))))))
    G_ = lambda s, i, j: mk_sum('xa', 0, 3, R(s, a, i) * R(s, a, j))
    rhs = mk_sum('k', 0, n, mk_sum('ss', 0, ns, mk_sum('xi', 0, 3, mk_sum('xj', 0, 3, W(k, i, j) * G_(s, i, j)))))
    ck.eq('trace kept by isometries', lhs2, rhs)
    # scaling the weights, and the order/batching of q-points, drop out of the specification
    c = sym('c', pos=True)
    q = index_sym('sq', nq)
    wq = sel('w', q, pos=True)
    ck.eq('weights scale out', mk_sum('sq', 0, nq, c * wq * sel('X', q)) / mk_sum('sq', 0, nq, c * wq),
          mk_sum('sq', 0, nq, wq * sel('X', q)) / mk_sum('sq', 0, nq, wq))


# -------------------------------------------------------------------- real code
def ref(m, Tk, fmin):
    eu = G.E()
    kB = (1 * eu.ureg('k')).to('hartree/K').magnitude
    f = m.frequencies.to('hartree').magnitude
    mass_ = m.crystal.atom_mass.to('m_e').magnitude
    keep = f >= fmin
    with np.errstate(all='ignore'):
        t = np.where(keep, 1 / np.where(keep, f, 1), 0)
        if Tk > 0:
            t = np.where(keep, t / np.tanh(np.where(keep, f, 1) / (2 * kB * Tk)), 0)
    e = m.eigenvectors
    out = np.zeros((m.crystal.n_atoms, 3, 3))
    for k in range(m.crystal.n_atoms):
        for a in range(3):
            for b in range(3):
                out[k, a, b] = np.sum(m.weights[:, None] * t * np.real(e[:, :, k, a] * e[:, :, k, b].conj())) / (4 * mass_[k])
    return out / m.weights.sum()


def rand_T(rng):
    return float(G.pick(rng, [0, 0, 1.5, 20, 300, 1000]))


@test('unsymmetrised', n=40)
def t1(rng, k):
    eu = G.E()
    big = k % 8 == 7
    nq_ = G.pick(rng, [999, 1000, 1001, 1500, 2000, 2001, 2304]) if big else None
    m = G.modes(rng, nq=nq_, n=1 if big else None)
    if rng.random() < .3:
        f = m.frequencies
        f.magnitude[rng.integers(m.n_qpts), rng.integers(f.shape[1])] = 0.
        m.frequencies = f
    Tk = rand_T(rng)
    fm = float(G.pick(rng, [0.01, 1., 20.]))
    t = eu.ureg.Quantity(Tk, 'K')
    fmin = eu.ureg.Quantity(fm, 'meV')
    if rng.random() < .5:
        fmin = fmin.to(G.pick(rng, ['1/cm', 'THz', 'hartree']), 'spectroscopy')
    d = m.calculate_debye_waller(t, frequency_min=fmin, symmetrise=False)
    want = ref(m, Tk, eu.ureg.Quantity(fm, 'meV').to('hartree').magnitude)
    G.need_close(d.debye_waller.to('bohr**2').magnitude, want, 'exponent', rtol=1e-8)
    G.need_close(d.debye_waller.magnitude, d.debye_waller.magnitude.transpose(0, 2, 1), 'symmetric', rtol=1e-9)
    G.need(d.temperature.to('K').magnitude == Tk, 'temperature')
    G.need(str(d.debye_waller.units) == str((1 * eu.ureg(m.crystal.cell_vectors_unit) ** 2).units), 'unit %s' % d.debye_waller.units)
    m2 = eu.QpointPhononModes(m.crystal, m.qpts, m.frequencies, m.eigenvectors, m.weights * 3.7)
    G.need_close(m2.calculate_debye_waller(t, frequency_min=fmin, symmetrise=False).debye_waller.to('bohr**2').magnitude, want, 'scaled weights', rtol=1e-8)
    p = rng.permutation(m.n_qpts)
    m3 = eu.QpointPhononModes(m.crystal, m.qpts[p], m.frequencies[p], m.eigenvectors[p], m.weights[p])
    G.need_close(m3.calculate_debye_waller(t, frequency_min=fmin, symmetrise=False).debye_waller.to('bohr**2').magnitude, want, 'order of q-points', rtol=1e-8)
    return dict(nq=m.n_qpts, T=Tk, n=m.crystal.n_atoms)


def sym_crystal(rng):
    """a crystal with symmetry: (cell in angstrom, fractional positions, types, masses)"""
    eu = G.E()
    kind = int(rng.integers(6))
    a = rng.uniform(3, 6)
    c = rng.uniform(3, 8)
    b = rng.uniform(6.5, 9)
    if kind == 0:      # diamond
        cv, r, ty = a / 2 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]]), [[0, 0, 0], [.25, .25, .25]], ['Si', 'Si']
    elif kind == 1:    # rutile: oxygen atoms exchanged by symmetry
        u = rng.uniform(.28, .33)
        cv = np.diag([a, a, c])
        r = [[0, 0, 0], [.5, .5, .5], [u, u, 0], [1 - u, 1 - u, 0], [.5 + u, .5 - u, .5], [.5 - u, .5 + u, .5]]
        ty = ['Zr', 'Zr', 'O', 'O', 'O', 'O']
    elif kind == 2:    # hexagonal close packed
        cv = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
        r, ty = [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], ['Zr', 'Zr']
    elif kind == 3:    # three-fold, general positions
        cv = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
        x, y, z = rng.uniform(.1, .2), rng.uniform(.25, .4), rng.uniform(.1, .4)
        r = [[x, y, z], [-y, x - y, z], [y - x, -x, z], [0, 0, 0.02]]
        ty = ['O', 'O', 'O', 'Nb']
    elif kind == 4:    # orthorhombic pair
        x, y, z = rng.uniform(.05, .2, 3)
        cv = np.diag([a, b, c + 10])
        r = [[x, y, z], [-x, -y, z], [x, -y, -z], [-x, y, -z]]
        ty = ['C', 'C', 'C', 'C']
    else:              # no symmetry
        cr = G.crystal(rng)
        return cr
    r = (np.array(r) + rng.integers(-1, 2, (len(r), 1)) * (rng.random() < .5)) % (1 if rng.random() < .5 else 1000)
    p = rng.permutation(len(r))
    mass_ = {t: rng.uniform(10, 90) for t in ty}
    ty = np.array(ty)[p]
    return eu.Crystal(eu.ureg.Quantity(cv, 'angstrom').to(G.pick(rng, ['angstrom', 'bohr'])), r[p], ty,
                      eu.ureg.Quantity(np.array([mass_[t] for t in ty]), 'amu'))


@test('symmetrised', n=40)
def t2(rng, k):
    import spglib
    eu = G.E()
    cr = sym_crystal(rng)
    m = G.modes(rng, crys=cr, nq=int(rng.integers(1, 4)))
    Tk = rand_T(rng)
    t = eu.ureg.Quantity(Tk, 'K')
    d = m.calculate_debye_waller(t)
    W = ref(m, Tk, eu.ureg.Quantity(0.01, 'meV').to('hartree').magnitude)
    cv = cr.cell_vectors.to('bohr').magnitude
    s = spglib.get_symmetry(cr.to_spglib_cell(), symprec=eu.ureg.Quantity(1e-5, 'angstrom').to(cr.cell_vectors_unit).magnitude)
    A_ = cv.T
    out = np.zeros_like(W)
    for R, tr in zip(s['rotations'], s['translations']):
        Rc = A_ @ R @ np.linalg.inv(A_)
        for i in range(cr.n_atoms):
            x = R @ cr.atom_r[i] + tr
            dist = []
            for j in range(cr.n_atoms):
                df = x - cr.atom_r[j]
                df -= np.round(df)
                dist.append(np.linalg.norm(df @ cv) + (1e3 if cr.atom_type[j] != cr.atom_type[i] else 0))
            out[int(np.argmin(dist))] += Rc @ W[i] @ Rc.T
    out /= len(s['rotations'])
    got = d.debye_waller.to('bohr**2').magnitude
    G.need_close(got, out, 'symmetrised exponent', rtol=1e-6)
    G.need_close(np.trace(got.sum(0)), np.trace(W.sum(0)), 'trace', rtol=1e-7)
    return dict(n=cr.n_atoms, ops=len(s['rotations']), T=Tk)
