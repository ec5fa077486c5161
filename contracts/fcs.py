"""the interpolation of force constants: symbolic objects and contracts shared by several contract files"""
from contracts.common import *
import itertools
import types
import numpy as np

FC = 'euphonic.force_constants.ForceConstants.'
D = decl_arr
n, nc, ns, ni = dim('n'), dim('nc'), dim('ns'), dim('ni')      # atoms, cells, supercell translations, images per pair


def fc_obj(it):
    """a force constants object without running its constructor: fields by name"""
    m = it.load('euphonic.force_constants')
    o = m.ForceConstants.__new__(m.ForceConstants)
    d = o.__dict__
    d['crystal'] = crystal(it, n)
    d['_sc_image_i'] = mk((nc, n, n, ni), lambda *i: T.ArrDecl('img', 4, 'int', rng=(const(-1), ns))(*i), 'i')
    return o


def unique(name, origins, rows):
    """the result of np.unique(origins[:, i], return_inverse=True) for the three columns"""
    inv = T.ArrDecl(name + '_inv', 2, 'int', nonneg=True, rng=(const(0), dim(name + '_u')))

    def col(a):
        def rule(args):
            k = T.inverse_of(args[0], inv.name)
            return origins(k[0], const(a)) if k is not None and k[1] == const(a) else None
        u = T.ArrDecl('%s_uniq%d' % (name, a), 1, 'int', rule=rule)
        return mk((dim('%s_u%d' % (name, a)),), lambda k: u(k), 'i')
    return [col(a) for a in range(3)], mk((rows, 3), lambda k, a: inv(k, a), 'i')


def phases_contract(it):
    """callers of _calculate_phases see its contract"""
    it.hooks[FC + '_calculate_phases'] = lambda self, q, *a: (
        mk((ns,), lambda k: T.ArrDecl('sph', 1, 'complex')(k), 'c'), mk((nc,), lambda k: T.ArrDecl('cph', 1, 'complex')(k), 'c'))


def dyn_spec(c_, i, j, a, b, fc=None):
    """sum over cells and images of Phi_w[c,(i,a),(j,b)] exp(2 pi i q.(R_c + L))"""
    return mk_sum('sc', 0, nc, sel('fcw', index_sym('sc', nc), 3 * i + a, 3 * j + b) * sel('cph', index_sym('sc', nc), kind='c')
                  * image_sum(index_sym('sc', nc), i, j))


def image_sum(c, i, j):
    """sum over the listed images of the supercell phase; index -1 marks no image"""
    l = index_sym('xl', ni)
    im = T.ArrDecl('img', 4, 'int', rng=(const(-1), ns))(c, i, j, l)
    return mk_sum('xl', 0, ni, ite(bge(im, 0), T.ArrDecl('sph', 1, 'complex')(im), const(0)))


class Eigh:
    """contract of numpy.linalg.eigh: eigenvalues (ascending) and orthonormal eigenvectors (columns) of the Hermitian
    matrix given by one triangle"""

    def __init__(self, size):
        self.calls = []
        self.size = size

    def __call__(self, a, UPLO='L'):
        k = len(self.calls)
        self.calls.append((a.copy(), UPLO))
        ev = T.ArrDecl('eval%d' % k, 1, mono=True)
        vec = T.ArrDecl('evec%d' % k, 2, 'complex')
        return mk((self.size,), lambda i: ev(i), 'f'), mk((self.size, self.size), lambda i, j: vec(i, j), 'c')


CUR = {}
N.HOOKS['linalg.eigh'] = lambda *a, **k: CUR['eigh'](*a, **k)


def eigh(size):
    CUR['eigh'] = Eigh(size)
    return CUR['eigh']


# ------------------------------------------------------------------------------------------------ the driver
UNDER = [FC + x for x in ('_calculate_phonons_at_qpts', 'calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies')]
nq = dim('nq')
define_unit('uphi', '0.8 eV/angstrom**2')
define_unit('uz', '1.3 e')
define_unit('ueps', '0.6 e**2/(angstrom*eV)')
NSC = fabs(N.det3(lambda i, j: sel('S', const(i), const(j), kind='i')))


def full_obj(it, born=False):
    m = it.load('euphonic.force_constants')
    kw = dict(born=Q(D('z', (n, 3, 3)), 'uz'), dielectric=Q(D('eps', (3, 3)), 'ueps')) if born else {}
    return m.ForceConstants(crystal(it, n), Q(D('phi', (NSC, 3 * n, 3 * n)), 'uphi'), D('S', (3, 3), 'i'), D('org', (NSC, 3), 'i'), **kw)


def gamma(q):
    """q (three terms) is a reciprocal lattice vector, within the tolerance of the code"""
    return blt(sum(fabs(x - S.rint(x)) for x in q), const(T.Fr(1, 10 ** 15)))


def dec(nm, k):
    return T.ArrDecl(nm, k, 'complex' if nm in ('E', 'Grad') else 'real')


class Driver:
    """the kernels seen by the driver through their contracts: row i of the results is a function of q-point i
    (and of the direction of approach where the zone centre is split); the inputs they got are recorded"""

    def __init__(self, it, dirs=False):
        self.it = it
        self.dirs = dirs
        self.nd = 4 if dirs else 0
        it.hooks[FC + '_calculate_supercell_images'] = self.images
        it.hooks[FC + '_calculate_phonons_at_q'] = self.at_q
        it.hooks[FC + '_dipole_correction_init'] = self.dipole_init
        it.hooks['euphonic._euphonic'] = types.SimpleNamespace(calculate_phonons=self.c_kernel)
        N.HOOKS['cpu_count'] = lambda: 1

    def reset(self):
        self.q = []
        self.c = []
        self.init = []
        return True

    def dipole_init(self, crystal, born, dielectric, par=1.0):
        self.init.append((crystal, born, dielectric, par))
        return {'dipole_parameter': par, 'contract': len(self.init)}

    def images(self, o, *a):
        o._sc_image_i = D('img', (NSC, n, n, ni), 'i')
        o._n_sc_images = D('nim', (NSC, n, n), 'i')

    def key(self, q, d=None):
        """arguments of the row function: the q-point, whether it is split and the direction"""
        k = [q.at(const(x)) for x in range(3)]
        if self.dirs:
            k += [const(0 if d is None else 1)] + [const(0) if d is None else lift(d).at(const(x)) for x in range(3)]
        return k

    def at_q(self, o, qpt, fcw, uso, usi, uco, uci, orig, weight, asr, dipole, q_dir=None):
        self.q.append(dict(q=qpt, fcw=fcw, uso=uso, usi=usi, uco=uco, uci=uci, orig=orig, w=weight, asr=asr, dipole=dipole, q_dir=q_dir, o=o))
        k = self.key(qpt, q_dir)
        f = lambda nm, *i: dec(nm, len(k) + len(i))(*k, *i)
        g = mk((3 * n, 3), lambda *i: f('Grad', *i), 'c') if not (isinstance(orig, rnp.ndarray) or A.conc(lift(orig).vshape[0]) == 0) else None
        return mk((3 * n,), lambda m: f('F', m), 'f'), mk((3 * n, n, 3), lambda *i: f('E', *i), 'c'), g

    def c_kernel(self, o, cell, recip, q, split, dirs, fcw, sc, asr, w, dipole, splitting, rf, rev, rg, orig, threads):
        self.c.append(dict(cell=cell, recip=recip, q=q, split=split, dirs=dirs, fcw=fcw, sc=sc, asr=asr, w=w, dipole=dipole, splitting=splitting,
                           orig=orig, threads=threads, o=o))
        row = lambda i: A.getitem(q, (i, slice(None)))
        if self.dirs:
            return self.c_rows(q, split, dirs, splitting, rf, rev, rg)
        nr = q.vshape[0]
        A.setitem(rf, slice(None), mk((nr, 3 * n), lambda i, m: dec('F', 4)(*self.key(row(i)), m), 'f'))
        if A.conc(rev.vshape[0]) != 0:
            A.setitem(rev, slice(None, nr), mk((nr, 3 * n, n, 3), lambda i, *m: dec("E", 6)(*self.key(row(i)), *m), 'c'))
        if A.conc(rg.vshape[0]) != 0:
            A.setitem(rg, slice(None), mk((nr, 3 * n, 3), lambda i, *m: dec('Grad', 5)(*self.key(row(i)), *m), 'c'))

    def c_rows(self, q, split, dirs, splitting, rf, rev, rg):
        """rows of a list of known length: row i is split if it is a zone centre and splitting is asked for; its direction is
        the one listed for it"""
        at = [A.conc(lift(split).at(const(k))) for k in range(A.conc(lift(split).vshape[0]))] if splitting else []
        for i in range(A.conc(q.vshape[0])):
            r = A.getitem(q, (i, slice(None)))
            g = bool(splitting) and A.fork_hook[0](gamma([r.at(const(x)) for x in range(3)]))
            k = self.key(r, A.getitem(lift(dirs), (at.index(i), slice(None))) if g else None)
            A.setitem(rf, i, mk((3 * n,), lambda m: dec('F', 8)(*k, m), 'f'))
            if A.conc(rev.vshape[0]) != 0:
                A.setitem(rev, i, mk((3 * n, n, 3), lambda *m: dec("E", 10)(*k, *m), 'c'))
            if A.conc(rg.vshape[0]) != 0:
                A.setitem(rg, i, mk((3 * n, 3), lambda *m: dec('Grad', 9)(*k, *m), 'c'))

    # ---- obligations
    def check_inputs(self, ck, born=False):
        ck.true('one kernel used', bool(self.q) != bool(self.c))
        i, j, a, b, c = index_sym('i', n), index_sym('j', n), index_sym('a', 3), index_sym('b', 3), index_sym('c', NSC)
        for d in (self.q[-1:] or self.c[-1:]):
            nim = sel('nim', c, i, j, kind='i')
            u = us('uphi') / (us('hartree') / us('bohr') ** 2)
            ck.eq('force constants are divided over their images', lift(d['fcw']).at(c, 3 * i + a, 3 * j + b),
                  ite(beq(nim, 0), const(0), u * sel('phi', c, 3 * i + a, 3 * j + b) / nim))
            mm = mass(i) * mass(j) * (us('umass') / us('m_e')) ** 2
            ck.eq('mass weighting', lift(d['w']).at(3 * i + a, 3 * j + b), mm.power(T.Fr(-1, 2)))
            ck.true('no sum rule correction unless asked for', A.conc(lift(d['asr']).vshape[0]) == 0)
            rows = list(itertools.product(range(-2, 3), repeat=3))
            Sm = lambda r, x: sum(r[k] * sel('S', const(k), const(x), kind='i') for k in range(3))
            if 'uso' in d:
                ck.same_shape('supercell translations', d['usi'], (125, 3))
                ck.same_shape('cells', d['uci'], (NSC, 3))
                for x in range(3):
                    ck.eq('cell origins.%d' % x, A.getitem(d['uco'][x], d['uci'].at(c, const(x))), sel('org', c, const(x), kind='i'))
                    for k in range(0, 125, 1 if THOROUGH else 7):
                        ck.eq('translation %d is the supercell image of that number.%d' % (k, x), A.getitem(d['uso'][x], d['usi'].at(const(k), const(x))), Sm(rows[k], x))
            else:
                o = d['o']
                ck.same_shape('supercell translations', d['sc'], (125, 3))
                for x in range(3):
                    for k in range(0, 125, 1 if THOROUGH else 7):
                        ck.eq('translation %d is the supercell image of that number.%d' % (k, x), d['sc'].at(const(k), const(x)), Sm(rows[k], x))
                x, y = index_sym('x', 3), index_sym('y', 3)
                ck.eq('cell vectors', d['cell'].at(x, y), sel('cell', x, y) * us('ulen') / us('bohr'))
                ck.eq('cell origins kept', lift(o.cell_origins).at(c, x), sel('org', c, x, kind='i'))
                ck.eq('image list kept', lift(o._sc_image_i).at(c, i, j, index_sym('xl', ni)), sel('img', c, i, j, index_sym('xl', ni), kind='i'))
            if not born:
                ck.true('no long-range correction without charges', d['dipole'] is False and not d.get('splitting') and d.get('q_dir') is None)

    def is_row(self, ck, name, val, fn_, idx, i, conj_=False, what='q'):
        """val is the row of the i-th requested q-point: the row function at q_i up to a reciprocal lattice vector"""
        v = P(val)
        at = [x for m, _ in v.t.items() for x, _e in m if x.kind in ('sel', 'conj')]
        at = [x.a if x.kind == 'conj' else x for x in at]
        if len({x for x in at}) != 1 or at[0].name != fn_:
            return ck.fail(name, 'not a row of the kernel: %s' % str(v)[:300])
        args = at[0].args
        want = dec(fn_, len(args))(*args[:len(args) - len(idx)], *idx)
        ck.eq(name + ': value', v, (want + conj(want)) / 2 if conj_ == 'real' else conj(want) if conj_ else want)
        qi = [sel(what, i, const(x)) for x in range(3)] if isinstance(what, str) else what
        g = gamma(qi)
        for x in range(3):
            d = args[x] - qi[x]
            with S.assuming(bnot(g)):
                ck.eq('%s: q-point up to a lattice vector.%d' % (name, x), d - S.rint(d), 0)
            with S.assuming(g):      # the zone centre itself or the point as given
                ck.eq('%s: zone centre.%d' % (name, x), args[x] * d, 0)
        return args


# ------------------------------------------------------------------------------------------------ one q-point
def dyn_mat(ck, grad):
    """_calculate_dyn_mat against the formula"""
    it = ck.new_interp()
    o = fc_obj(it)
    phases_contract(it)
    us_, ui = unique('s', lambda k, a: sel('so', k, a, kind='i'), ns)
    uc, ci = unique('c', lambda k, a: sel('co', k, a, kind='i'), nc)
    ck.prefix = 'with gradient ' if grad else ''
    rv = D('rv', (nc, n, n, ni, 3)) if grad else mk((0, 3), lambda *a: const(0), 'f')
    for r in returns(ck, lambda: o._calculate_dyn_mat(D('q', (3,)), D('fcw', (nc, 3 * n, 3 * n)), us_, ui, uc, ci, rv)):
        d, g = r.value
        ck.same_shape('shape', d, (3 * n, 3 * n))
        i, j, a, b = index_sym('i', n), index_sym('j', n), index_sym('a', 3), index_sym('b', 3)
        ck.eq('matrix', d.at(3 * i + a, 3 * j + b), dyn_spec(None, i, j, a, b))
        if not grad:
            ck.true('no gradient unless asked for', g is None)
            continue
        m = index_sym('m', 3)
        ck.same_shape('gradient shape', g, (3 * n, 3 * n, 3))
        c, l = index_sym('sc', nc), index_sym('xl', ni)
        im = T.ArrDecl('img', 4, 'int', rng=(const(-1), ns))(c, i, j, l)
        body = mk_sum('xl', 0, ni, ite(bge(im, 0), T.ArrDecl('sph', 1, 'complex')(im), const(0)) * sel('rv', c, i, j, l, m))
        ck.eq('gradient: every term times i (R + L)', g.at(3 * i + a, 3 * j + b, m),
              I * mk_sum('sc', 0, nc, sel('fcw', c, 3 * i + a, 3 * j + b) * sel('cph', c, kind='c') * body))
    ck.prefix = ''


def at_q(ck, grad):
    """_calculate_phonons_at_q: weighting, diagonalisation, signed roots, eigenvectors and gradients"""
    it = ck.new_interp()
    o = fc_obj(it)
    i, j, m, x = index_sym('i', 3 * n), index_sym('j', 3 * n), index_sym('m', 3 * n), index_sym('x', 3)
    dm, dg = D('dm', (3 * n, 3 * n), 'c'), D('dg', (3 * n, 3 * n, 3), 'c')
    w = D('w', (3 * n, 3 * n), pos=True)
    it.hooks[FC + '_calculate_dyn_mat'] = lambda self, *a: (dm.copy(), dg.copy() if grad else None)
    none = mk((0,), lambda *a: const(0), 'c')
    for r in returns(ck, lambda: (eigh(3 * n), o._calculate_phonons_at_q(D('q', (3,)), None, None, None, None, None, None, w, none, False, None))):
        eig, (f, ev, g) = r.value
        ck.prefix = 'with gradients ' if grad else ''
        ck.true('diagonalised once', len(eig.calls) == 1)
        a, tri = eig.calls[0]
        with S.assuming(T.ble(i, j) if tri == 'U' else bge(i, j)):
            ck.eq('mass-weighted dynamical matrix is diagonalised', a.at(i, j), sel('dm', i, j, kind='c') * sel('w', i, j, pos=True))
        e = T.ArrDecl('eval0', 1, mono=True)(m)
        ck.same_shape('frequencies shape', f, (3 * n,))
        ck.eq('frequency is the signed square root of the eigenvalue', f.at(m), ite(blt(e, 0), -1, 1) * fabs(e).power(T.Fr(1, 2)))
        at = index_sym('at', n)
        vec = T.ArrDecl('evec0', 2, 'complex')
        ck.same_shape('eigenvectors shape', ev, (3 * n, n, 3))
        ck.eq('eigenvector m is column m, by atom and direction', ev.at(m, at, x), vec(3 * at + x, m))
        if not grad:
            ck.true('no gradients unless asked for', g is None)
            continue
        ck.same_shape('gradients shape', g, (3 * n, 3))
        xi, xj = index_sym('xi', 3 * n), index_sym('xj', 3 * n)
        with S.assuming(bnot(beq(e, 0))):
            want = mk_sum('xi', 0, 3 * n, mk_sum('xj', 0, 3 * n, conj(vec(xi, m)) * vec(xj, m) * sel('dg', xi, xj, x, kind='c') * sel('w', xi, xj, pos=True)))
            ck.eq('expectation of the weighted gradient over twice the frequency', g.at(m, x) * 2 * f.at(m), want)
    ck.prefix = ''
