"""import of Phonopy data"""
from contracts.common import *
from contracts.spec import *
from contracts import gen as G
import itertools
import numpy as np

assume('positions of the supercell atoms are those of the cell atoms plus lattice vectors within the adjacent supercells',
       'PyYAML and h5py return what the files contain')
PH = 'euphonic.readers.phonopy.'
D = decl_arr
n, nq = dim('n'), dim('nq')


@obligation('eigenvectors', [PH + 'convert_eigenvector_phases'])
def o1(ck):
    """each mode keeps its amplitude on every atom; relative to each other they get exp(2 pi i q.(r_k - r_l))"""
    it = ck.new_interp()
    m = it.load('euphonic.readers.phonopy')
    for shape in ((nq, 3 * n, n, 3), (nq, 3 * n, 3 * n)):
        full = len(shape) == 4
        ev = D('e', (nq, 3 * n, n, 3), 'c') if full else mk(shape, lambda q, m, y: sel('e', q, m, S.idiv(y, const(3)), S.imod(y, const(3)), kind='c'), 'c')
        q, mo, k, l, x, y = (index_sym(*z) for z in (('q', nq), ('mo', 3 * n), ('k', n), ('l', n), ('x', 3), ('y', 3)))
        ck.prefix = 'by atom: ' if full else 'flat: '
        for r in returns(ck, lambda: m.convert_eigenvector_phases(dict(atom_r=D('r', (n, 3)), qpts=D('qp', (nq, 3)), eigenvectors=ev))):
            o = r.value
            ck.same_shape('shape', o, (nq, 3 * n, n, 3))
            e = lambda k, x: sel('e', q, mo, k, x, kind='c')
            ck.eq('relative phases', o.at(q, mo, k, x) * conj(o.at(q, mo, l, y)), e(k, x) * conj(e(l, y)) * phase(
                sum(sel('qp', q, const(d)) * (sel('r', k, const(d)) - sel('r', l, const(d))) for d in range(3))))
    ck.prefix = ''


@obligation('weights', [PH + '_convert_weights'])
def o2(ck):
    it = ck.new_interp()
    m = it.load('euphonic.readers.phonopy')
    w = D('w', (nq,), pos=True)
    i, j = index_sym('i', nq), index_sym('j', nq)
    for r in returns(ck, lambda: m._convert_weights(w)):
        o = r.value
        ck.same_shape('shape', o, (nq,))
        tot = mk_sum('i', 0, nq, sel('w', index_sym('i', nq), pos=True))
        ck.eq('in proportion', o.at(j) * tot, sel('w', j, pos=True))
        ck.eq('sum to one', mk_sum('k', 0, nq, o.at(index_sym('k', nq))), 1)


@obligation('reader', [PH + 'read_interpolation_data'])
def o3(ck):
    """the positions the cells are worked out from are those of the crystal; values keep their units"""
    it = ck.new_interp()
    m = it.load('euphonic.readers.phonopy')
    ns, ncell = dim('ns'), dim('nc')
    seen = []
    summ = lambda: dict(ulength='angstrom', umass='amu', ufc='eV/angstrom**2', n_atoms=n, cell_vectors=D('cell', (3, 3)), atom_r=D('r', (n, 3)),
                        atom_type='types', atom_mass=D('m', (n,)), sc_matrix=D('S', (3, 3), 'i'), sc_atom_r=D('sr', (ns, 3)),
                        pc_to_sc_atom_idx=D('p2s', (n,), 'i'), sc_to_pc_atom_idx=D('s2p', (ns,), 'i'), force_constants=D('fc', (n, ns, 3, 3)))
    it.hooks[PH + '_extract_summary'] = lambda *a, **k: summ()
    it.hooks['euphonic.util.convert_fc_phases'] = lambda *a, **k: (seen.append((a, k)), (D('out', (ncell, 3 * n, 3 * n)), D('org', (ncell, 3), 'i')))[1]
    i, x, y, c, a, b = (index_sym(*z) for z in (('i', n), ('x', 3), ('y', 3), ('c', ncell), ('a', 3 * n), ('b', 3 * n)))
    s = index_sym('s', ns)
    for r in returns(ck, lambda: (seen.clear(), m.read_interpolation_data(force_constants_unit='hartree/bohr**2', cell_vectors_unit='bohr', atom_mass_unit='kg'))[1]):
        o = r.value
        ck.true('rearranged once', len(seen) == 1)
        names = ['force_constants', 'atom_r', 'sc_atom_r', 'uc_to_sc_atom_idx', 'sc_to_uc_atom_idx', 'sc_matrix']
        arg = dict(zip(names, seen[0][0]), **seen[0][1])
        d = lift(o['crystal']['atom_r']).at(i, x) - sel('r', i, x)
        ck.true('positions of the crystal differ from those read by lattice vectors', P(d).isint())
        ck.eq('the cells are relative to the positions of the crystal', lift(arg['atom_r']).at(i, x), lift(o['crystal']['atom_r']).at(i, x))
        ck.eq('force constants as read', lift(arg['force_constants']).at(i, s, x, y), sel('fc', i, s, x, y))
        ck.eq('supercell positions as read', lift(arg['sc_atom_r']).at(s, x), sel('sr', s, x))
        ck.eq('indices as read', lift(arg['uc_to_sc_atom_idx']).at(i), sel('p2s', i, kind='i'))
        ck.eq('indices as read (supercell)', lift(arg['sc_to_uc_atom_idx']).at(s), sel('s2p', s, kind='i'))
        ck.eq('supercell matrix as read', lift(arg['sc_matrix']).at(x, y), sel('S', x, y, kind='i'))
        ck.eq('force constants in the unit asked for', lift(o['force_constants']).at(c, a, b) * uscale_('hartree/bohr**2'), sel('out', c, a, b) * uscale_('eV/angstrom**2'))
        ck.eq('cell vectors', lift(o['crystal']['cell_vectors']).at(x, y) * us('bohr'), sel('cell', x, y) * us('angstrom'))
        ck.eq('masses', lift(o['crystal']['atom_mass']).at(i) * us('kg'), sel('m', i) * us('amu'))
        ck.eq('supercell matrix', lift(o['sc_matrix']).at(x, y), sel('S', x, y, kind='i'))
        ck.eq('cell origins', lift(o['cell_origins']).at(c, x), sel('org', c, x, kind='i'))


def uscale_(u):
    return uscale(U.as_unit(u))


# ------------------------------------------------------------------------------------------------ rearranging the force constants
SHAPES = [np.eye(3, dtype=int), np.diag([2, 1, 1]), np.diag([1, 2, 2]), np.diag([3, 1, 1]), np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
          np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]), np.diag([-1, 2, 1])]


class Layout:
    """a supercell in a given order: positions, which atoms stand for the cell, where each atom is"""

    def __init__(self, rng, m, k):
        self.m, self.k = m, k
        org = G.cell_origins(m)
        self.r = np.round(rng.uniform(-1.2, 1.8, (k, 3)), 3)
        nc = len(org)
        # (cell, atom) of each supercell atom, in any order and moved by any adjacent supercell
        self.where = [(c, j) for c in range(nc) for j in range(k)]
        rng.shuffle(self.where)
        self.R = np.array([org[c] + rng.integers(-1, 1, 3) @ m * (rng.random() < .4) for c, j in self.where])
        self.s2u = np.array([j for c, j in self.where])
        self.u2s = np.array([int(rng.choice(np.where(self.s2u == j)[0])) for j in range(k)])
        # all the origins are used relative to that of the first atom: they stay within the adjacent supercells
        inv = np.linalg.inv(m)
        base = self.R[self.u2s[0]]
        for a in range(len(self.R)):
            x = (self.R[a] - base) @ inv
            self.R[a] -= (np.floor(x + 1e-9) @ m).astype(int)
            if rng.random() < .3:
                self.R[a] += (rng.integers(-1, 1, 3) @ m) * (self.s2u[a] != 0)
        if k > 0:
            self.R[self.u2s[0]] = base
        self.sr = self.r[self.s2u] + self.R
        self.inv = inv
        self.ns, self.nc = len(self.where), nc

    def same(self, a, b):
        x = (np.asarray(a) - b) @ self.inv
        return np.abs(x - np.rint(x)).sum() < 1e-6

    def find(self, j, R):
        """supercell atom number of atom j in the cell R"""
        return [a for a in range(self.ns) if self.s2u[a] == j and self.same(self.R[a], R)][0]


def layouts(rng, count, natoms):
    for z in range(count):
        yield Layout(rng, SHAPES[z % len(SHAPES)], natoms)


@obligation('force constants', ['euphonic.util.convert_fc_phases', 'euphonic.util._get_supercell_relative_idx'], limit=600,
            bounded='1-3 atoms, 8 shapes of supercell, 8 (thorough: 60) orders of the atoms each, every value of the force constants')
def o4(ck):
    rng = np.random.default_rng(5)
    for k in (1, 2, 3):
        for z, L in enumerate(layouts(rng, 64 if not THOROUGH else 480, k)):
            for full in (False, True):
                it = ck.new_interp()
                m = it.load('euphonic.util')
                nm = 'fc' if not full else 'ffc'
                fc = D(nm, (const(L.ns if full else k), const(L.ns), 3, 3))
                ck.prefix = '%d atoms, layout %d, %s: ' % (k, z, 'full' if full else 'compact')
                for r in returns(ck, lambda: m.convert_fc_phases(fc, L.r.copy(), L.sr.copy(), L.u2s.copy(), L.s2u.copy(), L.m.copy())):
                    out, org = r.value
                    out, org = lift(out), np.asarray([[int(A.conc(lift(org).at(const(c), const(x)))) for x in range(3)] for c in range(L.nc)])
                    ck.same_shape('shape', out, (L.nc, 3 * k, 3 * k))
                    ck.true('one cell of each kind', sum(L.same(a, b) for a in org for b in org) == L.nc)
                    x, y = index_sym('x', 3), index_sym('y', 3)
                    for i in range(k):
                        row = L.u2s[i] if full or L.ns == k else i
                        for c in range(L.nc):
                            for j in range(k):
                                a = L.find(j, L.R[L.u2s[i]] + org[c])
                                ck.eq('atoms %d, %d at %s' % (i, j, org[c]), out.at(const(c), 3 * i + x, 3 * j + y), sel(nm, const(int(row)), const(a), x, y))
    ck.prefix = ''


# ------------------------------------------------------------------------------------------------ the real code
def table(L, phi, org, rows):
    """force constants between the given supercell atoms and all of them"""
    n = L.k
    out = np.zeros((len(rows), L.ns, 3, 3))
    for a, s in enumerate(rows):
        i = L.s2u[s]
        for t in range(L.ns):
            j = L.s2u[t]
            c = [c for c in range(L.nc) if L.same(L.R[t] - L.R[s], org[c])][0]
            out[a, t] = phi[c, 3 * i:3 * i + 3, 3 * j:3 * j + 3]
    return out


@test('rearranging', n=60, n_thorough=600)
def t1(rng, k):
    """the matrix between each pair of atoms is found again at the offset between their cells"""
    from euphonic.util import convert_fc_phases
    n = int(rng.integers(1, 5))
    m = G.sc_matrix(rng) if rng.random() < .8 else np.diag(rng.integers(1, 5, 3))
    L = Layout(rng, m, n)
    full = bool(rng.random() < .5)
    fc = rng.normal(size=(L.ns if full else n, L.ns, 3, 3))
    if full and L.ns == n:
        fc = fc[:n]
    arr = lambda a: np.ascontiguousarray(a) if rng.random() < .5 else np.asfortranarray(a)
    args = [arr(fc), arr(L.r), arr(L.sr + rng.uniform(-1e-7, 1e-7, L.sr.shape)), L.u2s.copy(), L.s2u.copy(), arr(m)]
    keep = [a.copy() for a in args]
    out, org = convert_fc_phases(*args)
    G.need(all(np.array_equal(a, b) for a, b in zip(args, keep)), 'arguments changed')
    what = '%s, cells %s, representatives %s, atoms %s, full=%s' % (m.tolist(), L.R.tolist(), L.u2s.tolist(), L.s2u.tolist(), full)
    G.need(out.shape == (L.nc, 3 * n, 3 * n) and org.shape == (L.nc, 3), 'shapes %s %s' % (out.shape, org.shape))
    G.need(sum(L.same(a, b) for a in org for b in org) == L.nc, 'cells %s repeat (%s)' % (org.tolist(), what))
    for i in range(n):
        row = L.u2s[i] if fc.shape[0] == L.ns else i
        for c in range(L.nc):
            for j in range(n):
                a = L.find(j, L.R[L.u2s[i]] + org[c])
                G.need(np.array_equal(out[c, 3 * i:3 * i + 3, 3 * j:3 * j + 3], fc[row, a]), 'atoms %d, %d at %s: %s, expected %s (%s)' % (
                    i, j, org[c], out[c, 3 * i:3 * i + 3, 3 * j:3 * j + 3].tolist(), fc[row, a].tolist(), what))


CELLS = [np.eye(3, dtype=int), np.eye(3, dtype=int), np.array([[1, -1, 0], [1, 1, 0], [0, 0, 1]]), np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
         np.array([[1, 0, 0], [1, 2, 0], [0, 0, 1]])]
UFC = {'eV/Angstrom^2': ('Angstrom', 'eV/angstrom**2', 'angstrom'), 'Ry/au^2': ('au', 'rydberg/bohr**2', 'bohr'),
       'hartree/au^2': ('au', 'hartree/bohr**2', 'bohr'), 'eV/Angstrom.au': ('Angstrom', 'eV/(angstrom*bohr)', 'angstrom'),
       'mRy/au^2': ('au', 'millirydberg/bohr**2', 'bohr'), None: ('Angstrom', 'eV/angstrom**2', 'angstrom')}


class Files:
    """the files Phonopy would write for a set of force constants"""

    def __init__(self, rng, path):
        import os, yaml, h5py
        eu = G.E()
        while True:
            u = G.pick(rng, CELLS)                                   # Phonopy's unit cell in terms of the primitive cell (rows)
            mt = rng.integers(-1, 3, (3, 3)) if rng.random() < .5 else np.diag(rng.integers(1, 3, 3))
            m = mt @ u
            d = np.linalg.det(m)
            if .5 < abs(d) < 8.5 and np.abs(np.linalg.inv(m)).max() <= 1.01 and np.abs(m).max() <= 3:
                break
        cr = G.crystal(rng, int(rng.integers(1, 4)))
        n = cr.n_atoms
        org = G.cell_origins(m)
        phi = G.fc_tensor(rng, m, org, n)
        self.born = self.eps = None
        if rng.random() < .5:
            self.born = rng.normal(size=(n, 3, 3))
            self.eps = rng.normal(size=(3, 3)) + 6 * np.eye(3)
        self.cr, self.phi, self.org, self.m, self.n = cr, phi, org, m, n
        L = Layout(rng, m, n)
        L.r = cr.atom_r
        # each atom in the first supercell, atoms standing for the cell in the order of the cell
        sfrac = (L.r[L.s2u] + L.R) @ L.inv
        sfrac -= np.floor(sfrac)
        L.R = np.rint(sfrac @ m - L.r[L.s2u]).astype(int)
        order = np.arange(L.ns)
        for z in range(60):
            rng.shuffle(order)
            reps = [int(rng.choice(np.where(L.s2u[order] == j)[0])) for j in range(n)]
            if reps == sorted(reps):
                break
        else:
            order = np.argsort(L.s2u, kind='stable')
            reps = [int(rng.choice(np.where(L.s2u[order] == j)[0])) for j in range(n)]
        L.R, L.s2u, sfrac = L.R[order], L.s2u[order], sfrac[order]
        L.u2s = np.array(reps)
        self.L = L
        pu = G.pick(rng, list(UFC))
        lu, fu, lname = UFC[pu]
        q = eu.ureg.Quantity
        cv = cr.cell_vectors.to(lname).magnitude
        mass = cr.atom_mass.to('amu').magnitude
        points = lambda r, s=None: [dict(symbol=str(cr.atom_type[j]), coordinates=[float(x) for x in p], mass=float(mass[j]), **({} if s is None else dict(reduced_to=s[j] + 1)))
                                    for p, j in r]
        self.full = bool(rng.random() < .5)
        fc = table(L, phi, org, range(L.ns) if self.full else L.u2s) * q(1., 'hartree/bohr**2').to(fu).magnitude
        d = {'supercell_matrix': mt.T.tolist()}
        if u is not CELLS[0] or rng.random() < .5:
            d['primitive_matrix'] = np.linalg.inv(u).T.tolist()
        if pu:
            d['physical_unit'] = dict(atomic_mass='AMU', length=lu, force_constants=pu)
        d['primitive_cell'] = dict(lattice=cv.tolist(), points=points([(cr.atom_r[j], j) for j in range(n)]))
        d['supercell'] = dict(lattice=(m @ cv).tolist(), points=points(zip(sfrac, L.s2u), L.u2s.tolist()))
        d['phonopy'] = dict(version='2.5.0')
        self.args = dict(path=path)
        where = G.pick(rng, ['yaml', 'FORCE_CONSTANTS', 'fc.hdf5'])
        self.where = where
        if where == 'yaml':
            d['force_constants'] = dict(format='full', shape=list(fc.shape[:2]), elements=fc.reshape(-1, 3).tolist())
        elif where == 'fc.hdf5':
            with h5py.File(os.path.join(path, where), 'w') as f:
                f['force_constants'] = fc
            self.args['fc_name'] = where
        else:
            with open(os.path.join(path, where), 'w') as f:
                rows = list(range(L.ns)) if self.full else L.u2s
                f.write(('%4d %4d\n' % fc.shape[:2]) if not self.full or rng.random() < .5 else '%4d\n' % L.ns)
                for a in range(fc.shape[0]):
                    for b in range(fc.shape[1]):
                        f.write('%d %d\n' % (rows[a] + 1, b + 1) + ''.join('%22.15f%22.15f%22.15f\n' % tuple(x) for x in fc[a, b]))
        if self.born is not None:
            self.nac = float(rng.uniform(5, 20))
            style = G.pick(rng, ['new', 'old', 'BORN'])
            if style == 'new':
                d['nac'] = dict(unit_conversion_factor=self.nac, born_effective_charge=self.born.tolist(), dielectric_constant=self.eps.tolist())
            elif style == 'old':
                d['phonopy']['nac_unit_conversion_factor'] = self.nac
                d.update(born_effective_charge=self.born.tolist(), dielectric_constant=self.eps.tolist())
            else:
                own = rng.random() < .5
                if not own:
                    d['phonopy']['nac_unit_conversion_factor'] = self.nac
                with open(os.path.join(path, 'BORN'), 'w') as f:
                    f.write('# atoms\n' + ('%.15f\n' % self.nac if own else ''))
                    for t in [self.eps] + list(self.born):
                        f.write(' '.join('%.15f' % x for x in t.ravel()) + '\n')
                self.args['born_name'] = 'BORN'
            # phonopy: factor x charge^2 / (volume x eps) is in its own units of force constants
            self.want_eps = self.eps / self.nac * float((q(1., 'hartree*bohr') / (q(1., fu) * q(1., lname) ** 3)).to('').magnitude)
        with open(os.path.join(path, 'phonopy.yaml'), 'w') as f:
            yaml.safe_dump(d, f)


def scratch(f):
    """run with a scratch directory"""
    import tempfile, io, contextlib
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        return f(d)


@test('files of force constants', n=60, n_thorough=500)
def t2(rng, k):
    scratch(lambda d: reader(rng, d))


def reader(rng, d):
    """the crystal read back has the dynamical matrix of the one written at every commensurate q-point"""
    eu = G.E()
    F = Files(rng, d)
    fc = eu.ForceConstants.from_phonopy(**F.args)
    n = F.n
    what = 'supercell %s, %d atoms, %s, full=%s' % (F.m.tolist(), n, F.where, F.full)
    q = lambda a, u: a.to(u).magnitude
    shift = fc.crystal.atom_r - F.cr.atom_r
    whole = np.rint(shift).astype(int)
    G.need(fc.crystal.n_atoms == n and np.abs(shift - whole).max() < 1e-9, 'positions %s, written %s' % (fc.crystal.atom_r, F.cr.atom_r))
    G.need(list(fc.crystal.atom_type) == list(F.cr.atom_type), 'types %s, written %s' % (fc.crystal.atom_type, F.cr.atom_type))
    G.need_close(q(fc.crystal.atom_mass, 'amu'), q(F.cr.atom_mass, 'amu'), 'masses')
    G.need_close(q(fc.crystal.cell_vectors, 'bohr'), q(F.cr.cell_vectors, 'bohr'), 'cell vectors')
    G.need(np.array_equal(fc.sc_matrix, F.m), 'supercell matrix %s, expected %s' % (fc.sc_matrix.tolist(), F.m.tolist()))
    G.need(fc.n_cells_in_sc == len(F.org), 'number of cells')
    if F.born is None:
        got = q(fc.force_constants, 'hartree/bohr**2')
    else:                                                             # the object holds what is left without the dipoles (C04)
        from euphonic.readers.phonopy import read_interpolation_data
        got = read_interpolation_data(**F.args)['force_constants']
    inv = np.linalg.inv(F.m)
    for z in F.org:
        p = inv @ z                                                   # commensurate q-points
        a = np.einsum('cij,c->ij', got, np.exp(2j * np.pi * fc.cell_origins @ p))
        b = np.einsum('cij,c->ij', F.phi, np.exp(2j * np.pi * F.org @ p))
        e = np.exp(-2j * np.pi * np.repeat(whole, 3, axis=0) @ p)
        b = e.conj()[:, None] * b * e
        G.need(np.abs(a - b).max() <= 1e-7 * np.abs(F.phi).max(), 'dynamical matrix at %s: %s, expected %s (%s)' % (p, a, b, what))
    G.need((fc.born is None) == (F.born is None), 'charges present: %s' % what)
    if F.born is not None:
        G.need_close(q(fc.born, 'e'), F.born, 'charges (%s)' % F.args)
        G.need_close(q(fc.dielectric, 'e**2/(bohr*hartree)'), F.want_eps, 'dielectric tensor (%s)' % F.args)


@test('eigenvectors', n=40, n_thorough=300)
def t3(rng, k):
    """converted eigenvectors are those of the matrix with the phases of the cells, have the same norms and belong to the same modes"""
    from euphonic.readers.phonopy import convert_eigenvector_phases, _convert_weights
    fc = G.force_constants(rng)
    n, nq = fc.crystal.n_atoms, int(rng.integers(1, 4))
    q = rng.uniform(-1, 1, (nq, 3))
    r = fc.crystal.atom_r
    ev = np.zeros((nq, 3 * n, 3 * n), complex)
    mats = []
    for a in range(nq):
        h = rng.normal(size=(3 * n, 3 * n)) + 1j * rng.normal(size=(3 * n, 3 * n))
        h = h + h.conj().T
        e = np.exp(-2j * np.pi * np.repeat(r, 3, axis=0) @ q[a])
        w, v = np.linalg.eigh(h)                                     # phases of the atoms
        ev[a] = v.T
        mats.append((w, e.conj()[:, None] * h * e))                    # phases of the cells
    d = dict(atom_r=r.copy(), qpts=q.copy(), eigenvectors=ev.reshape(nq, 3 * n, n, 3) if rng.random() < .5 else ev.copy())
    keep = {x: y.copy() for x, y in d.items()}
    out = convert_eigenvector_phases(d)
    G.need(all(np.array_equal(d[x], keep[x]) for x in d), 'arguments changed')
    G.need(out.shape == (nq, 3 * n, n, 3), 'shape %s' % (out.shape,))
    G.need_close(np.abs(out).reshape(ev.shape), np.abs(ev), 'amplitudes')
    for a in range(nq):
        w, h = mats[a]
        x = out[a].reshape(3 * n, 3 * n)
        G.need(np.abs(x @ h.T - w[:, None] * x).max() < 1e-9 * np.abs(h).max(), 'not eigenvectors at %s' % q[a])
    w = rng.integers(1, 9, int(rng.integers(1, 9)))
    g = _convert_weights(w)
    G.need(abs(g.sum() - 1) < 1e-12 and np.allclose(g * w.sum(), w), 'weights %s of %s' % (g, w))
