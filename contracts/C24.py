"""reading phonon files"""
from contracts.common import *
from contracts.spec import *
from contracts import gen as G
import itertools
import numpy as np

assume('text: decimal numerals stand for the values they denote; PyYAML and h5py return what the files contain')
CA = 'euphonic.readers.castep.'
PH = 'euphonic.readers.phonopy.'
D = decl_arr


# ------------------------------------------------------------------------------------------------ CASTEP, symbolic values
class Text:
    """the lines of a .phonon file in which every numeral stands for a symbol"""

    def __init__(self):
        self.tok = {}

    def num(self, name):
        v = sym(name)
        for k, x in self.tok.items():
            if x == v:
                return k
        s = '%d.%06d' % (len(self.tok) // 900000 + 1, len(self.tok) % 900000 + 100001)
        if len(self.tok) % 3 == 1:
            s = '-' + s
        self.tok[s] = v
        return s


SPECIES = ['Si', 'O', 'La']


def phonon_text(n, blocks):
    """blocks: (q-point number, has a direction)"""
    t = Text()
    L = [' BEGIN header', ' Number of ions         %d' % n, ' Number of branches     %d' % (3 * n),
         ' Number of wavevectors  %d' % len({i for i, d in blocks}), ' Frequencies in         cm-1', ' IR intensities in      (D/A)**2/amu',
         ' Raman activities in    A**4 amu**(-1)', ' Unit cell vectors (A)']
    L += ['    ' + '    '.join(t.num('c%d%d' % (x, y)) for y in range(3)) for x in range(3)]
    L += [' Fractional Co-ordinates']
    L += ['     %d     %s   %s        %s' % (i + 1, '    '.join(t.num('r%d%d' % (i, x)) for x in range(3)), SPECIES[i % 3], t.num('m%d' % i)) for i in range(n)]
    L += [' END header']
    for b, (i, d) in enumerate(blocks):
        w = t.num('w%d' % i)
        # a repeated point carries its coordinates and weight in every block
        L += ['     q-pt=%5d    %s      %s%s' % (i, '  '.join(t.num('q%d%d' % (i, x)) for x in range(3)), w,
                                               '    ' + '  '.join(t.num('d%d%d' % (b, x)) for x in range(3)) if d else '')]
        L += ['     %3d      %s              %s' % (m + 1, t.num('f%d_%d' % (b, m)), t.num('ir%d_%d' % (b, m))) for m in range(3 * n)]
        L += ['                        Phonon Eigenvectors', 'Mode Ion                X                                   Y                                   Z']
        for m in range(3 * n):
            for a in range(n):
                L += ['%4d%4d ' % (m + 1, a + 1) + '      '.join(t.num('e%d_%d_%d_%d%s' % (b, m, a, x, p)) + ' ' + t.num('e%d_%d_%d_%d%s' % (b, m, a, x, 'i'))
                                                              for x in range(3) for p in 'r')]
    return '\n'.join(L) + '\n', t.tok


def patterns(nb):
    """numbers of the q-point of each block (repeats follow one another) and which blocks have a direction"""
    for cut in itertools.product((0, 1), repeat=nb - 1):
        ids, k = [1], 1
        for c in cut:
            k += c
            ids.append(k)
        for d in itertools.product((False, True), repeat=nb):
            yield list(zip(ids, d))


def groups(blocks):
    g = {}
    for b, (i, d) in enumerate(blocks):
        g.setdefault(i, []).append((b, d))
    return g


def weights_spec(blocks, average, prefer):
    """share of its q-point's weight for each block; None if it cannot be decided"""
    out = [T.Fr(1)] * len(blocks)
    for i, g in groups(blocks).items():
        plain = [b for b, d in g if not d]
        if len(g) == 1:
            continue
        if prefer and 0 < len(plain) < len(g):
            if len(plain) > 1:
                return None
            for b, d in g:
                out[b] = T.Fr(1 if b in plain else 0)
        elif average:
            for b, d in g:
                out[b] = T.Fr(1, len(g))
    return out


SIZES = [(1, nb) for nb in (1, 2, 3)] + [(2, 2)] + ([(1, 4), (2, 3)] if THOROUGH else [])


def castep(average, prefer):
    @obligation('CASTEP average=%s prefer=%s' % (average, prefer), [CA + 'read_phonon_data', CA + '_read_crystal_info', CA + '_read_frequency_block', CA + '_read_frequency_blocks'],
                limit=800, bounded='1-2 atoms, up to 3 blocks (thorough: 4) with every pattern of repeats and directions, every value in the file')
    def o1(ck):
        for n, nb in SIZES:
            for blocks in patterns(nb):
                for ev in (True, False):
                    if ev or (n, nb) == (1, 2):
                        castep_case(ck, n, blocks, average, prefer, ev)
        ck.prefix = ''


for _a, _p in itertools.product((True, False), (True, False)):
    castep(_a, _p)


def castep_case(ck, n, blocks, average, prefer, ev):
    nb = len(blocks)
    ck.prefix = '%d atoms, %s, average=%s, prefer=%s%s: ' % (n, ' '.join('%d%s' % (i, 'd' if d else '') for i, d in blocks), average, prefer, '' if ev else ', frequencies only')
    text, tok = phonon_text(n, blocks)
    it = ck.new_interp()
    it.lazy.add(CA + '_read_frequency_blocks')
    m = it.load('euphonic.readers.castep')
    X.FS['a.phonon'] = text
    N.TOKENS = tok
    try:
        want = weights_spec(blocks, average, prefer)
        units = ('bohr', 'kg', 'hartree')
        for r in returns(ck, lambda: m.read_phonon_data('a.phonon', *units, read_eigenvectors=ev, average_repeat_points=average, prefer_non_loto=prefer),
                         may_raise=() if want else (ValueError,)):
            if want is None:
                ck.fail('undecidable choice refused', 'no error')
                continue
            o = r.value
            x, y = index_sym('x', 3), index_sym('y', 3)
            at = lambda v, *i: lift(v).at(*[const(k) for k in i])
            ck.same_shape('q-points', o['qpts'], (nb, 3))
            ck.same_shape('weights', o['weights'], (nb,))
            ck.same_shape('frequencies', o['frequencies'], (nb, 3 * n))
            if ev:
                ck.same_shape('eigenvectors', o['eigenvectors'], (nb, 3 * n, n, 3))
            else:
                ck.true('no eigenvectors', 'eigenvectors' not in o)
            c = o['crystal']
            for a in range(3):
                for b in range(3):
                    ck.eq('cell vectors', at(c['cell_vectors'], a, b) * us('bohr'), sym('c%d%d' % (a, b)) * us('angstrom'))
            ck.true('units', (c['cell_vectors_unit'], c['atom_mass_unit'], o['frequencies_unit']) == units)
            ck.true('number of atoms and species', c['n_atoms'] == n and [str(z) for z in c['atom_type']] == SPECIES[:n])
            for a in range(n):
                ck.eq('masses', at(c['atom_mass'], a) * us('kg'), sym('m%d' % a) * us('amu'))
                for b in range(3):
                    ck.eq('positions', at(c['atom_r'], a, b), sym('r%d%d' % (a, b)))
            wave = T.Poly.atom(T.Sym('HC', 'real', pos=True)) / (us('cm') * us('hartree'))
            for b, (i, d) in enumerate(blocks):
                ck.eq('weight', at(o['weights'], b), sym('w%d' % i) * const(want[b]))
                for a in range(3):
                    ck.eq('q-point', at(o['qpts'], b, a), sym('q%d%d' % (i, a)))
                for k in range(3 * n):
                    ck.eq('frequency', at(o['frequencies'], b, k), sym('f%d_%d' % (b, k)) * wave)
                    for a in range(n if ev else 0):
                        for z in range(3):
                            nm = 'e%d_%d_%d_%d' % (b, k, a, z)
                            ck.eq('eigenvector', at(o['eigenvectors'], b, k, a, z), sym(nm + 'r') + P(1j) * sym(nm + 'i'))
    finally:
        N.TOKENS = None
        X.FS.pop('a.phonon', None)


# ------------------------------------------------------------------------------------------------ Phonopy
nq, n, ns, npt = dim('nq'), dim('n'), dim('nseg'), dim('npt')
TYPES = 'types'


class H5:
    """an open HDF5 file"""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        v = self.d[k]

        class DS:
            def __getitem__(self, i):
                return v if i == () else v[i]
        return DS()


def mesh(ev=True, w=True):
    d = dict(qpoint=D('q', (nq, 3)), frequency=D('f', (nq, 3 * n)))
    if ev:
        d['eigenvector'] = D('e', (nq, 3 * n, 3 * n), 'c')
    if w:
        d['weight'] = D('w', (nq,), 'i', pos=True)
    return d


@obligation('HDF5', [PH + '_extract_phonon_data_hdf5'])
def o2(ck):
    """q-points, frequencies, weights in order; path files segment by segment (the mode axis of the eigenvectors is the
    second in qpoints and mesh files: known finding, see the tests)"""
    for kind, ev, w in (('mesh', True, True), ('mesh', False, True), ('qpoints', True, False), ('qpoints', False, False), ('band', True, False), ('band', False, False)):
        for read in (True, False):
            it = ck.new_interp()
            m = it.load('euphonic.readers.phonopy')
            if kind == 'band':
                d = dict(path=D('q', (ns, npt, 3)), frequency=D('f', (ns, npt, 3 * n)))
                if ev:
                    d['eigenvector'] = D('e', (ns, npt, 3 * n, 3 * n), 'c')
            else:
                d = mesh(ev, w)
            ck.prefix = '%s%s, eigenvectors %s: ' % (kind, ' with eigenvectors' if ev else '', 'read' if read else 'not wanted')
            it.extern['h5py'] = type('h5py', (), dict(File=staticmethod(lambda name, mode='r': H5(d))))
            for r in returns(ck, lambda: m._extract_phonon_data_hdf5('x.hdf5', read_eigenvectors=read)):
                o = r.value
                x, k, y = index_sym('x', 3), index_sym('k', 3 * n), index_sym('y', 3 * n)
                if kind == 'band':
                    s, t = index_sym('s', ns), index_sym('t', npt)
                    i, tot, at = npt * s + t, ns * npt, (s, t)
                else:
                    i, tot = index_sym('i', nq), nq
                    at = (i,)
                ck.same_shape('q-points', o['qpts'], (tot, 3))
                ck.eq('q-point', o['qpts'].at(i, x), sel('q', *at, x))
                ck.same_shape('frequencies', o['frequencies'], (tot, 3 * n))
                ck.eq('frequency', o['frequencies'].at(i, k), sel('f', *at, k))
                ck.true('weights if there are any', ('weights' in o) == w)
                if w:
                    ck.eq('weight', o['weights'].at(i), sel('w', i, kind='i', pos=True))
                if read or 'eigenvectors' in o:
                    ck.true('eigenvectors if there are any', ('eigenvectors' in o) == ev)
                if 'eigenvectors' in o and kind == 'band':
                    ck.eq('eigenvector of a mode is a column', o['eigenvectors'].at(i, k, y), sel('e', *at, y, k, kind='c'))
    ck.prefix = ''


@obligation('Phonopy data', [PH + 'read_phonon_data'])
def o3(ck):
    """each q-point keeps its values; units; crystal from the phonon file or else the summary; weights normalised"""
    for src, ev, w, fmt in itertools.product(('phonon', 'summary', 'partial'), (True, False), (True, False), ('mesh.yaml', 'band.hdf5', 'other.h5', 'x.yml', ('odd', 'yaml'), ('a.b', 'hdf5'))):
        it = ck.new_interp()
        m = it.load('euphonic.readers.phonopy')
        cry = lambda t: dict(cell_vectors=D(t + 'cell', (3, 3)), atom_r=D(t + 'r', (n, 3)), atom_mass=D(t + 'm', (n,)), atom_type=t + 'types')
        asked = []

        def extract(kind):
            def f(name, read_eigenvectors=True):
                asked.append((kind, name, read_eigenvectors))
                d = dict(qpts=D('q', (nq, 3)), frequencies=D('f', (nq, 3 * n)))
                if ev and read_eigenvectors:
                    d['eigenvectors'] = D('e', (nq, 3 * n, 3 * n), 'c')
                if w:
                    d['weights'] = D('w', (nq,), 'i', pos=True)
                if src != 'summary':
                    d.update(cry('p'))
                if src == 'partial':
                    del d['atom_mass']
                return d
            return f
        it.hooks[PH + '_extract_phonon_data_yaml'] = extract('yaml')
        it.hooks[PH + '_extract_phonon_data_hdf5'] = extract('hdf5')
        it.hooks[PH + '_extract_summary'] = lambda name, **k: (asked.append(('summary', name)), dict(ulength='bohr', umass='g', n_atoms=n, **cry('s')))[1]
        it.hooks[PH + 'convert_eigenvector_phases'] = lambda d: (ck.true('phases converted with the positions and q-points of the file', d['eigenvectors'].at(I0, K0, Y0) == sel('e', I0, K0, Y0, kind='c')
                                                                         and d['qpts'].at(I0, X0) == sel('q', I0, X0) and d['atom_r'].at(J0, X0) == sel(('p' if src == 'phonon' else 's') + 'r', J0, X0)),
                                                                 D('ce', (nq, 3 * n, n, 3), 'c'))[1]
        I0, K0, Y0, X0, J0 = index_sym('i', nq), index_sym('k', 3 * n), index_sym('y', 3 * n), index_sym('x', 3), index_sym('j', n)
        name, kw = (fmt, {}) if isinstance(fmt, str) else (fmt[0], dict(phonon_format=fmt[1]))
        for read in (True, False):
            ck.prefix = '%s, crystal in %s, eigenvectors %s, weights %s, %s: ' % (name, src, ev, w, 'read' if read else 'not wanted')
            for r in returns(ck, lambda: (asked.clear(), m.read_phonon_data(path='dir', phonon_name=name, summary_name='sum.yaml', cell_vectors_unit='nm', atom_mass_unit='kg',
                                                                            frequencies_unit='1/cm', read_eigenvectors=read, **kw))[1], may_raise=(RuntimeError,) if read and not ev else ()):
                o = r.value
                if read and not ev:
                    ck.fail('missing eigenvectors refused', 'no error')
                    continue
                kind = 'yaml' if (kw.get('phonon_format') or name).endswith(('yaml', 'yml')) else 'hdf5'
                ck.true('files read', asked == [(kind, 'dir/' + name, read)] + ([('summary', 'dir/sum.yaml')] if src != 'phonon' else []))
                t, lu, mu = ('p', 'angstrom', 'amu') if src == 'phonon' else ('s', 'bohr', 'g')
                c = o['crystal']
                z = index_sym('z', 3)
                ck.eq('cell vectors', c['cell_vectors'].at(X0, z) * us('nm'), sel(t + 'cell', X0, z) * us(lu))
                ck.eq('masses', c['atom_mass'].at(J0) * us('kg'), sel(t + 'm', J0) * us(mu))
                ck.eq('positions', c['atom_r'].at(J0, X0), sel(t + 'r', J0, X0))
                ck.true('species and units', c['atom_type'] == t + 'types' and (c['cell_vectors_unit'], c['atom_mass_unit'], o['frequencies_unit']) == ('nm', 'kg', '1/cm'))
                ck.eq('number of atoms', P(c['n_atoms']), n)
                ck.eq('number of q-points', P(o['n_qpts']), nq)
                ck.same_shape('frequencies', o['frequencies'], (nq, 3 * n))
                ck.eq('frequencies', o['frequencies'].at(I0, K0), sel('f', I0, K0) * U.UREG('THz').to('1/cm').magnitude)
                ck.eq('q-points', o['qpts'].at(I0, X0), sel('q', I0, X0))
                ck.true('weights if there are any', ('weights' in o) == w)
                if w:
                    ck.eq('weights in proportion', o['weights'].at(I0) * mk_sum('l', 0, nq, sel('w', index_sym('l', nq), kind='i', pos=True)), sel('w', I0, kind='i', pos=True))
                ck.true('eigenvectors if wanted', ('eigenvectors' in o) == read)
                if read:
                    a = index_sym('a', n)
                    ck.eq('converted eigenvectors', o['eigenvectors'].at(I0, K0, a, X0), sel('ce', I0, K0, a, X0, kind='c'))
    ck.prefix = ''


@obligation('YAML', [PH + '_extract_phonon_data_yaml'])
def o4(ck):
    """one entry per q-point, one per mode, in order; eigenvectors from pairs of real and imaginary parts"""
    for ev, w, cry in itertools.product((True, False), (True, False), (True, False)):
        for read in (True, False):
            it = ck.new_interp()
            m = it.load('euphonic.readers.phonopy')
            J0, I0 = index_sym('j', n), index_sym('i', nq)
            x, k, a = index_sym('x', 3), index_sym('k', 3 * n), index_sym('a', n)

            def band(i, k):
                d = dict(frequency=sel('f', i, k))
                if ev:
                    d['eigenvector'] = contiguous(mk((n, 3, 2), lambda a, x, p: sel('e', i, k, a, x, p), 'f'))
                return d

            def qp(i):
                d = {'q-position': mk((3,), lambda x: sel('q', i, x), 'f'), 'band': X.SymIter(3 * n, lambda k: band(i, k))}
                if w:
                    d['weight'] = sel('w', i, kind='i', pos=True)
                return d
            data = dict(phonon=X.SymIter(nq, qp))
            if cry:
                data.update(lattice=D('cell', (3, 3)), points=X.SymIter(n, lambda j: dict(coordinates=mk((3,), lambda x: sel('r', j, x), 'f'), mass=sel('m', j), symbol=sel('t', j, kind='i'))))
            X.FS['m.yaml'] = 'text'
            it.extern['yaml'] = type('yaml', (), dict(load=staticmethod(lambda f, Loader: data), CSafeLoader=1, SafeLoader=2))
            ck.prefix = 'eigenvectors %s, %s; weights %s, crystal %s: ' % (ev, 'read' if read else 'not wanted', w, cry)
            for r in returns(ck, lambda: m._extract_phonon_data_yaml('m.yaml', read_eigenvectors=read)):
                o = r.value
                ck.same_shape('q-points', o['qpts'], (nq, 3))
                ck.eq('q-point', o['qpts'].at(I0, x), sel('q', I0, x))
                ck.same_shape('frequencies', o['frequencies'], (nq, 3 * n))
                ck.eq('frequency', o['frequencies'].at(I0, k), sel('f', I0, k))
                ck.true('weights if there are any', ('weights' in o) == w)
                if w:
                    ck.eq('weight', o['weights'].at(I0), sel('w', I0, kind='i', pos=True))
                ck.true('eigenvectors if there are any', ('eigenvectors' in o) == (ev and read))
                if ev and read:
                    e = lift(o['eigenvectors'])
                    ck.eq('eigenvector', A.reshape(e, (nq, 3 * n, n, 3)).at(I0, k, a, x), sel('e', I0, k, a, x, const(0)) + P(1j) * sel('e', I0, k, a, x, const(1)))
                ck.true('crystal if there is one', all((z in o) == cry for z in ('cell_vectors', 'atom_r', 'atom_mass', 'atom_type')))
                if cry:
                    ck.eq('cell vectors', lift(o['cell_vectors']).at(x, index_sym('y', 3)), sel('cell', x, index_sym('y', 3)))
                    ck.eq('positions', o['atom_r'].at(J0, x), sel('r', J0, x))
                    ck.eq('masses', o['atom_mass'].at(J0), sel('m', J0))
                    ck.eq('species', o['atom_type'].at(J0), sel('t', J0, kind='i'))
    ck.prefix = ''
    X.FS.pop('m.yaml', None)


def contiguous(a):
    a.contig = True
    return a


# ------------------------------------------------------------------------------------------------ real code
def scratch(f):
    import tempfile, io, contextlib
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        return f(d)


def modes(rng, nb, n):
    f = rng.uniform(-50, 900, (nb, 3 * n)).round(6)
    e = rng.normal(size=(nb, 3 * n, 3 * n)) + 1j * rng.normal(size=(nb, 3 * n, 3 * n))
    return f, (np.linalg.qr(e)[0]).reshape(nb, 3 * n, n, 3)


def read(cls, f, where):
    """the object made by the class, or the error"""
    try:
        return f(cls)
    except ValueError as e:
        return e


@test('CASTEP files', n=60, n_thorough=600)
def t1(rng, k):
    """every block in order; total weights of repeated points"""
    scratch(lambda d: castep_file(rng, d))


def castep_file(rng, d):
    import os
    eu = G.E()
    c = G.crystal(rng, int(rng.integers(1, 5)))
    n = c.n_atoms
    nqp = int(rng.integers(1, 6))
    rep = [1 if rng.random() < .6 else int(rng.integers(2, 5)) for _ in range(nqp)]
    blocks = []
    for i, k in enumerate(rep):
        ds = [bool(rng.random() < .7) for _ in range(k)] if k > 1 else [bool(rng.random() < .2)]
        if k > 1 and rng.random() < .6:
            ds = [True] * k
            if rng.random() < .7:
                ds[int(rng.integers(k))] = False
        blocks += [(i, x) for x in ds]
    nb = len(blocks)
    q = rng.uniform(-.5, .5, (nqp, 3)).round(8)
    w = rng.uniform(.01, 1, nqp).round(10)
    f, e = modes(rng, nb, n)
    e = e.round(12)
    cv, m = c.cell_vectors.to('angstrom').magnitude, c.atom_mass.to('amu').magnitude
    T_ = [' BEGIN header', ' Number of ions         %d' % n, ' Number of branches     %d' % (3 * n), ' Number of wavevectors  %d' % nqp,
          ' Frequencies in         cm-1', ' IR intensities in      (D/A)**2/amu', ' Raman activities in    A**4 amu**(-1)', ' Unit cell vectors (A)']
    T_ += ['    %.12f    %.12f    %.12f' % tuple(x) for x in cv] + [' Fractional Co-ordinates']
    T_ += ['%6d %16.12f%16.12f%16.12f   %-5s %14.8f' % (a + 1, *c.atom_r[a], c.atom_type[a], m[a]) for a in range(n)] + [' END header']
    dirs = {}
    for b, (i, s) in enumerate(blocks):
        T_ += ['     q-pt=%5d  %12.8f %12.8f %12.8f    %.10f' % (i + 1, *q[i], w[i]) + ('  %9.6f %9.6f %9.6f' % tuple(rng.normal(size=3)) if s else '')]
        extra = rng.random() < .5
        T_ += ['    %4d %18.6f' % (j + 1, f[b, j]) + ('   %12.7f' % rng.uniform(0, 10) if extra else ' ' * 20) + ('     %10.7f' % rng.uniform(0, 10) if extra and i else '') for j in range(3 * n)]
        T_ += ['                        Phonon Eigenvectors', 'Mode Ion                X                                   Y                                   Z']
        T_ += ['%4d%4d ' % (j + 1, a + 1) + '   '.join(' %15.12f %15.12f' % (z.real, z.imag) for z in e[b, j, a]) for j in range(3 * n) for a in range(n)]
    path = os.path.join(d, 'x.phonon')
    with open(path, 'w') as h:
        h.write('\n'.join(T_) + '\n')
    ave, pre = bool(rng.random() < .5), bool(rng.random() < .5)
    kw = dict(average_repeat_points=ave, prefer_non_loto=pre)
    if ave and not pre and rng.random() < .5:
        kw = {}
    share = weights_spec(blocks, ave, pre)
    what = 'blocks %s, average=%s, prefer=%s, %d atoms' % (blocks, ave, pre, n)
    for cls in (eu.QpointPhononModes, eu.QpointFrequencies):
        try:
            r = cls.from_castep(path, **kw)
        except ValueError as x:
            G.need(share is None, 'refused: %s (%s)' % (x, what))
            continue
        G.need(share is not None, 'accepted although the choice cannot be made (%s)' % what)
        ids = [i for i, s in blocks]
        G.need(r.qpts.shape == (nb, 3) and np.abs(r.qpts - q[ids]).max() < 1e-12, 'q-points %s, written %s (%s)' % (r.qpts.tolist(), q[ids].tolist(), what))
        want = np.array([w[i] * float(s) for i, s in zip(ids, share)])
        G.need_close(r.weights, want, 'weights (%s)' % what, rtol=1e-9)
        if ave or pre:
            for i in range(nqp):
                if len(groups(blocks)[i]) == 1 or ave or any(not s for j, s in blocks if j == i) and any(s for j, s in blocks if j == i):
                    G.need(abs(sum(r.weights[b] for b in range(nb) if ids[b] == i) - w[i]) < 1e-9, 'total weight of q-point %d (%s)' % (i, what))
        G.need_close(r.frequencies.to('1/cm', 'spectroscopy').magnitude, f, 'frequencies (%s)' % what, rtol=1e-9, atol=1e-6)
        if cls is eu.QpointPhononModes:
            G.need(r.eigenvectors.shape == e.shape and np.abs(r.eigenvectors - e).max() < 1e-11, 'eigenvectors (%s)' % what)
        G.need_close(r.crystal.cell_vectors.to('angstrom').magnitude, cv, 'cell vectors', rtol=1e-9, atol=1e-9)
        if hasattr(r.crystal, 'atom_mass'):
            G.need_close(r.crystal.atom_mass.to('amu').magnitude, m, 'masses', rtol=1e-6, atol=1e-7)
            G.need_close(r.crystal.atom_r, c.atom_r, 'positions', rtol=0, atol=1e-11)
            G.need(list(r.crystal.atom_type) == list(c.atom_type), 'types')


@test('Phonopy files', n=60, n_thorough=600)
def t2(rng, k):
    scratch(lambda d: phonopy_file(rng, d))


def phonopy_file(rng, d):
    import os, yaml, h5py
    eu = G.E()
    c = G.crystal(rng, int(rng.integers(1, 4)))
    n = c.n_atoms
    kind = G.pick(rng, ['mesh', 'qpoints', 'band'])
    h5 = bool(rng.random() < .5)
    ev = bool(rng.random() < .8)
    nseg, npt = (int(rng.integers(1, 4)), int(rng.integers(1, 4))) if kind == 'band' else (1, int(rng.integers(1, 6)))
    nqp = nseg * npt
    q = rng.uniform(-.5, .5, (nqp, 3)).round(7)
    f, e = modes(rng, nqp, n)
    f = (f / 30).round(8)
    w = rng.integers(1, 20, nqp)
    lu, mu = G.pick(rng, [('angstrom', 'amu'), ('au', 'amu'), (None, None)])
    cry = bool(rng.random() < .7) and not h5 and kind != 'qpoints'
    cv = lambda u: c.cell_vectors.to({'au': 'bohr', None: 'angstrom'}.get(u, u)).magnitude.tolist()
    pts = [dict(symbol=str(c.atom_type[a]), coordinates=[float(x) for x in c.atom_r[a]], mass=float(c.atom_mass.to('amu').magnitude[a])) for a in range(n)]
    summary = dict(phonopy=dict(version='2.1'), primitive_cell=dict(lattice=cv(lu), points=pts), unit_cell=dict(lattice=cv(lu), points=pts), supercell=dict(lattice=cv(lu), points=pts))
    if lu:
        summary['physical_unit'] = dict(length=lu, atomic_mass='AMU', force_constants='eV/angstrom^2')
    with open(os.path.join(d, 'phonopy.yaml'), 'w') as g:
        yaml.safe_dump(summary, g)
    ext = G.pick(rng, ['hdf5', 'hd5', 'h5'] if h5 else ['yaml', 'yml'])
    name = kind + '.' + ext
    kw = {}
    if rng.random() < .2:
        kw, name = dict(phonon_format=ext), 'thing'
    path = os.path.join(d, name)
    flat = e.reshape(nqp, 3 * n, 3 * n)
    if h5:
        with h5py.File(path, 'w') as g:
            cols = flat.transpose(0, 2, 1)              # a mode is a column
            if kind == 'band':
                g['path'], g['frequency'] = q.reshape(nseg, npt, 3), f.reshape(nseg, npt, -1)
                if ev:
                    g['eigenvector'] = cols.reshape(nseg, npt, 3 * n, 3 * n)
            else:
                g['qpoint'], g['frequency'] = q, f
                if ev:
                    g['eigenvector'] = cols
                if kind == 'mesh':
                    g['weight'] = w
    else:
        y = dict(nqpoint=nqp, natom=n, phonon=[])
        if cry:
            y.update(lattice=cv('angstrom'), points=pts)
        for i in range(nqp):
            b = [dict(frequency=float(f[i, j])) for j in range(3 * n)]
            if ev:
                for j in range(3 * n):
                    b[j]['eigenvector'] = [[[float(z.real), float(z.imag)] for z in e[i, j, a]] for a in range(n)]
            p = {'q-position': q[i].tolist(), 'band': b}
            if kind == 'mesh':
                p['weight'] = int(w[i])
            y['phonon'].append(p)
        with open(path, 'w') as g:
            yaml.dump(y, g, Dumper=getattr(yaml, 'CSafeDumper', yaml.SafeDumper))
    what = '%s, %s, eigenvectors %s, crystal in file %s, units %s' % (name, kind, ev, cry, lu)
    swapped = False
    for cls in (eu.QpointFrequencies, eu.QpointPhononModes):
        try:
            r = cls.from_phonopy(path=d, phonon_name=name, **kw)
        except RuntimeError as x:
            G.need(cls is eu.QpointPhononModes and not ev, 'refused: %s (%s)' % (x, what))
            continue
        G.need(cls is eu.QpointFrequencies or ev, 'no error for missing eigenvectors')
        G.need(r.qpts.shape == (nqp, 3) and np.array_equal(r.qpts, q), 'q-points (%s)' % what)
        G.need_close(r.frequencies.to('THz', 'spectroscopy').magnitude, f, 'frequencies (%s)' % what, rtol=1e-9, atol=1e-9)
        G.need_close(r.weights, w / w.sum() if kind == 'mesh' else np.full(nqp, 1 / nqp), 'weights (%s)' % what, rtol=1e-9)
        G.need_close(r.crystal.cell_vectors.to('angstrom').magnitude, c.cell_vectors.to('angstrom').magnitude, 'cell vectors (%s)' % what, rtol=1e-7)
        if hasattr(r.crystal, 'atom_mass'):
            G.need_close(r.crystal.atom_mass.to('amu').magnitude, c.atom_mass.to('amu').magnitude, 'masses (%s)' % what, rtol=1e-7)
            G.need_close(r.crystal.atom_r, c.atom_r, 'positions (%s)' % what, rtol=0, atol=1e-12)
            G.need(list(r.crystal.atom_type) == list(c.atom_type), 'types (%s)' % what)
        if cls is eu.QpointPhononModes:
            ph = np.exp(2j * np.pi * np.einsum('qx,ax->qa', q, c.atom_r))

            def agrees(src):
                """equal up to a phase factor for each mode"""
                want = src * ph[:, None, :, None]
                o = np.einsum('qmax,qmax->qm', want.conj(), r.eigenvectors)
                return np.abs(np.abs(o) - 1).max() < 1e-8 and np.abs(r.eigenvectors - want * o[:, :, None, None]).max() < 1e-8
            if not agrees(e):
                G.need(h5 and kind != 'band' and agrees(e.reshape(nqp, 3 * n, 3 * n).transpose(0, 2, 1).reshape(e.shape)), 'eigenvectors (%s)' % what)
                swapped = True
    if swapped:
        raise Fail('%s: eigenvectors are the rows of the array, where the file has them in the columns' % name, key='hdf5-eigenvectors-transposed')
