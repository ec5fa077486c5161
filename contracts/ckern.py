"""contracts of the C kernels, shared by the check of what they compute and the check of the memory they touch.
Complex numbers are pairs (real, imaginary) in the last dimension.  The kernels fill the upper triangle (atom i <= atom j) with
the complex conjugate of the matrices of the Python kernels, as the lower triangle of a column-major matrix"""
from contracts.common import *
from contracts.spec import *
from contracts.fcs import *
from engine import cexec as CX
import itertools

CD = 'c.'
PI = Poly.atom(T.PI)
nd, ng = dim('nd'), dim('ng')


def conc_(x):
    c = A.conc(P(x))
    if c is None:
        raise T.Unsupported('size %s' % x)
    return c


class Quiet:
    """the same contract with only the memory obligations recorded"""

    def __getattr__(self, nm):
        return lambda *a, **k: None


def start(ck, *files, sizes=()):
    it = ck.new_interp()
    r = CX.CRun(it, ck, sizes)
    return r, r.load(*files)


def given(name, shape, kind='f', decl=None):
    """memory to be read, of this logical shape (row-major)"""
    d = decl or (lambda *i: sel(name, *i, kind=kind))
    c = CX.CArr(name, mk(shape, d, kind))
    c.readonly = True
    return c


def pair(name, shape):
    """complex numbers to be read"""
    z = lambda *i: sel(name, *i, kind='c')
    return given(name, shape + (2,), decl=lambda *i: ite(beq(i[-1], 0), re(z(*i[:-1])), im(z(*i[:-1]))))


def out(name, shape):
    """memory to be written, with arbitrary content"""
    return CX.make(name, shape, T.ArrDecl(name, len(shape), 'real'))


def re(z):
    return (z + conj(z)) / 2


def im(z):
    return (z - conj(z)) / (2 * I)


def images():
    """the lists of supercell images: for each cell and pair, nim of them; entries beyond are no images (-1)"""
    nim = T.ArrDecl('nim', 3, 'int', nonneg=True, rng=(const(0), ni + 1))
    img = T.ArrDecl('img', 4, 'int', rng=(lambda c, i, j, l: const(0 if S.decide(band(bge(l, 0), blt(l, nim(c, i, j)))) is True else -1), ns))
    return nim, img


def phases(c, i, j, body=lambda l: const(1)):
    """sum over images of exp(2 pi i q.(R + L)) and a factor"""
    nim, img = images()
    l = index_sym('l', nim(c, i, j))
    x = sum(sel('q', const(k)) * (sel('sco', img(c, i, j, l), const(k), kind='i') + sel('co', c, const(k), kind='i')) for k in range(3))
    return mk_sum('l', 0, nim(c, i, j), phase(x) * body(l))


def ij(upper=True):
    i, j = index_sym('i', n), index_sym('j', n)
    return i, j


def dyn_mat_at_q(ck, val):
    nim, img = images()
    for grad in (False, True):
        ck.prefix = 'with gradients: ' if grad else ''
        r, m = start(ck, 'util', 'dyn_mat')
        d, g = out('d', (n, 3, n, 3, 2)), out('g', (n, 3, n, 3, 3, 2)) if grad else None
        args = (given('q', (3,)), n, nc, ni, given('nim', (nc, n, n), 'i', nim), given('img', (nc, n, n, ni), 'i', img), given('co', (nc, 3), 'i'),
                given('sco', (ns, 3), 'i'), given('fc', (nc, n, 3, n, 3)), given('og', (nc, n, n, ni, 3)) if grad else given('og', (0, 3)), grad, d, g)
        for _ in returns(ck, lambda: m.calculate_dyn_mat_at_q(*args)):
            i, j = ij()
            c = index_sym('c', nc)
            for a, b in itertools.product(range(3), repeat=2):
                for lab, jj, f in (('i = j', i, []), ('i < j', j, [blt(i, j)])):
                    with S.assuming(*f):
                        want = mk_sum('c', 0, nc, sel('fc', c, i, const(a), jj, const(b)) * phases(c, i, jj))
                        e = lambda *x: d.arr.at(i, const(a), jj, const(b), *[P(y) for y in x])
                        val.eq('%s: matrix %d%d is the conjugate of the sum over cells and images' % (lab, a, b), e(0) + I * e(1), conj(want))
                if not grad:
                    continue
                for k in range(3):
                    G = lambda i, j, a, b: I * mk_sum('c', 0, nc, sel('fc', c, i, const(a), j, const(b)) * phases(c, i, j, lambda l: sel('og', c, i, j, l, const(k))))
                    e = lambda i, j: g.arr.at(i, const(a), j, const(b), const(k), const(0)) + I * g.arr.at(i, const(a), j, const(b), const(k), const(1))
                    val.eq('i = j: gradient %d%d.%d is the sum with i (R + L)' % (a, b, k), e(i, i), G(i, i, a, b))
                    with S.assuming(blt(i, j)):
                        val.eq('i < j: gradient %d%d.%d' % (a, b, k), e(i, j), G(i, j, a, b))
                        val.eq('j < i: gradient %d%d.%d is the conjugate' % (a, b, k), e(j, i), conj(G(i, j, b, a)))
    ck.prefix = ''


def flat(r):
    """callers see the array helpers through their contracts (element by element), whatever the shape"""
    ck = r.ck

    def size(p, n_, what):
        """the whole memory, or the block of that many elements, the pointer points to"""
        b, o = r.C_arg(p)
        if not isinstance(b, CX.CArr):
            ck.fail('%s: %s is an array' % (r.line(), what), repr(p))
            raise T.Unsupported('no array')
        tot = const(1)
        for k in range(len(b.dims), -1, -1):
            if k < len(b.dims):
                tot = tot * b.dims[k]
            if tot == P(n_) or S.prove_zero(tot - n_):
                return r.block(p, b.dims[k:], what)[0]
        ck.fail('%s: %s has as many elements as used' % (r.line(), what), '%s of %s' % (n_, [str(d) for d in b.dims]))
        raise T.Unsupported('size')

    def same(f, *arrs):
        if len(arrs) > 1 and not all(len(a.vshape) == len(arrs[0].vshape) and all(P(x) == P(y) for x, y in zip(a.vshape, arrs[0].vshape)) for a in arrs):
            raise T.Unsupported('arrays of different logical shape')
        return f

    def multiply(n_, s, p):
        b, o = r.C_arg(p)
        if isinstance(b, CX.CLocal):
            for k in range(conc_(n_)):
                r.C_st(b, o + const(k), s * r.C_ld(b, o + const(k)))
            return
        a = size(p, n_, 'multiply_array')
        old = a.copy()
        a.store(lambda *i: s * old.at(*i))

    def add(n_, p, q):
        x, y = size(p, n_, 'add_arrays'), size(q, n_, 'add_arrays')
        same(None, x, y)
        u, v = x.copy(), y.copy()
        y.store(lambda *i: u.at(*i) + v.at(*i))
    r.it.hooks['c.multiply_array'] = multiply
    r.it.hooks['c.add_arrays'] = add
    return r


LAM = sym('lam', pos=True)
det = lambda nm: N.det3(lambda a, b: sel(nm, P(a), P(b)))


def dipole_correction(ck, val, gam):
    """gam: at a lattice vector or not"""
    r, m = start(ck, 'util', 'dyn_mat')
    flat(r)
    corr = out('corr', (n, 3, n, 3, 2))
    nel = n * (n + 1) / 2
    # every q-point: x + m, m the nearest integers
    rounded(r, {sel('x', const(a)) + sel('m', const(a), kind='i'): sel('m', const(a), kind='i') for a in range(3)})
    args = (given('q', (3,), decl=lambda a: sel('x', a) + sel('m', a, kind='i')), n, given('cell', (3, 3)), given('rec', (3, 3)), given('r', (n, 3)), given('z', (n, 3, 3)), given('eps', (3, 3)),
            given('H', (nd, nel, 3, 3)), given('cells', (nd, 3)), nd, pair('gp', (ng + 1, n)), given('gv', (ng + 1, 3)), ng + 1, pair('q0', (n, 3, 3)), LAM, corr)
    r.naming = True
    g = gamma([sel('x', const(a)) for a in range(3)])
    ck.prefix = 'at a lattice vector: ' if gam else 'anywhere else: '
    S.CTX.push(g if gam else bnot(g))
    for _ in returns(ck, lambda: m.calculate_dipole_correction(*args)):
        i, j = ij()
        for lab, f in (('i = j', None), ('i < j', blt(i, j))):
            jj = i if f is None else j
            with S.assuming(*([f] if f is not None else [])):
                E = {(c, d): conj(ewald(i, jj, c, d, gam)) for c, d in itertools.product(range(3), repeat=2)} if val is ck else {}
                for a, b in itertools.product(range(3), repeat=2):
                    if val is ck:
                        want = sum(sel('z', i, const(a), const(c)) * sel('z', jj, const(b), const(d)) * E[c, d] for c in range(3) for d in range(3))
                        q0 = sel('q0', i, const(a), const(b), kind='c') if f is None else 0
                        e = lambda k: corr.arr.at(i, const(a), jj, const(b), const(k))
                        got = r.unname(e(0) + I * e(1))
                        val.eq('%s: %d%d is the conjugate of the Ewald sum' % (lab, a, b), got, want - q0)
    ck.prefix = ''


def ewald(i, j, c, d, gam):
    """the sums over the listed G vectors (the first is G = 0) and cells for components c, d of atoms i <= j"""
    x = [sel('x', const(a)) for a in range(3)]
    qc = lambda b: sum(x[a] * sel('rec', const(a), const(b)) for a in range(3))
    g = index_sym('g', ng + 1)
    row = g + 1 if gam else g
    K = lambda b: sel('gv', row, const(b)) + qc(b)
    kl = sum(K(a) * K(b) * sel('eps', const(a), const(b)) for a in range(3) for b in range(3)) / (4 * LAM * LAM)
    ph = lambda a: sel('gp', row, a, kind='c') * phase(sum(x[b] * sel('r', a, const(b)) for b in range(3)))
    rec = PI / (fabs(det('cell')) * LAM * LAM) * mk_sum('g', 0, ng if gam else ng + 1, K(c) * K(d) * T.pexp(-kl) / kl * ph(i) * conj(ph(j)))
    rr = index_sym('rr', nd)
    t = i * n - i * (i - 1) / 2 + j - i
    real = LAM ** 3 / det('eps').power(T.Fr(1, 2)) * mk_sum('rr', 0, nd, phase(sum(
        x[b] * sel('cells', rr, const(b)) for b in range(3))) * sel('H', rr, t, const(c), const(d)))
    return rec - real


def rounded(r, table):
    old = r.mod.__dict__['C_m_round']
    r.mod.__dict__['C_m_round'] = lambda x: table.get(P(x), None) if P(x) in table else old(x)


def gamma_correction(ck, val):
    r, m = start(ck, 'util', 'dyn_mat')
    flat(r)
    corr = out('corr', (n, 3, n, 3, 2))
    old = lambda *i: T.ArrDecl('corr', 5, 'real')(*i)
    args = (given('d', (3,)), n, given('cell', (3, 3)), given('rec', (3, 3)), given('z', (n, 3, 3)), given('eps', (3, 3)), corr)
    g = gamma([sel('d', const(a)) for a in range(3)])
    Qc = lambda c: sum(sel('d', const(e)) * sel('rec', const(e), const(c)) for e in range(3))
    den = sum(Qc(c) * Qc(d) * sel('eps', const(c), const(d)) for c in range(3) for d in range(3))
    zq = lambda i, a: sum(sel('z', i, const(a), const(c)) * Qc(c) for c in range(3))
    r.naming = True
    for _ in returns(ck, lambda: m.calculate_gamma_correction(*args)):
        i, j = ij()
        gam = S.decide(g)
        val.true('direction or none', gam is not None)
        ck.prefix = 'no direction: ' if gam else 'direction: '
        for a, b in itertools.product(range(3), repeat=2):
            for lab, jj, f in (('i = j', i, []), ('i < j', j, [blt(i, j)])):
                with S.assuming(*f):
                    e = lambda k: r.unname(corr.arr.at(i, const(a), jj, const(b), const(k)))
                    want = 0 if gam else 4 * PI / (fabs(det('cell')) * den) * zq(i, a) * zq(jj, b)
                    val.eq('%s: %d%d' % (lab, a, b), e(0), want)
                    v = e(1)
                    val.true('%s: %d%d no imaginary part added' % (lab, a, b), not v.t or v == old(i, const(a), jj, const(b), const(1)))
        ck.prefix = ''


def mass_weighting(ck, val):
    r, m = start(ck, 'util', 'dyn_mat')
    rep = dim('rep')
    d = CX.make('d', (9 * n * n, rep), T.ArrDecl('d', 2, 'real'))
    for _ in returns(ck, lambda: m.mass_weight_dyn_mat(given('w', (9 * n * n,)), n, rep, d)):
        i, k = index_sym('i', 9 * n * n), index_sym('k', rep)
        val.eq('every component times the weight of its element', d.arr.at(i, k), sel('d', i, k) * sel('w', i))


def helpers(ck, val):
    """the array helpers, for any size"""
    r, m = start(ck, 'util')
    L = dim('len')
    s = sym('s')
    i = index_sym('i', L)
    mk_ = lambda nm: CX.make(nm, (L,), T.ArrDecl(nm, 1, 'real'))
    x = mk_('x')
    for _ in returns(ck, lambda: m.multiply_array(L, s, x)):
        val.eq('multiply_array', x.arr.at(i), s * sel('x', i))
    x = mk_('x')
    for _ in returns(ck, lambda: m.add_arrays(L, given('y', (L,)), x)):
        val.eq('add_arrays', x.arr.at(i), sel('x', i) + sel('y', i))


def frequencies(ck, val):
    r, m = start(ck, 'util', 'dyn_mat')
    e = CX.make('e', (3 * n,), T.ArrDecl('e', 1, 'real'))
    for _ in returns(ck, lambda: m.evals_to_freqs(n, e)):
        i = index_sym('i', 3 * n)
        x = sel('e', i)
        val.eq('signed square root', e.arr.at(i), ite(blt(x, 0), -1, 1) * fabs(x).power(T.Fr(1, 2)))


def mode_gradients(ck, val):
    r, m = start(ck, 'util', 'dyn_mat')
    g = out('mg', (3 * n, 3, 2))
    args = (n, given('f', (3 * n,)), pair('ev', (3 * n, n, 3)), pair('dg', (n, 3, n, 3, 3)), g)
    mode = index_sym('m', 3 * n)
    # frequencies of zero have no gradient
    with S.assuming(bnot(beq(sel('f', mode), 0))):
        for _ in returns(ck, lambda: m.calculate_mode_gradients(*args)):
            for k in range(3):
                got = g.arr.at(mode, const(k), const(0)) + I * g.arr.at(mode, const(k), const(1))
                old = T.ArrDecl('mg', 3, 'real')
                val.eq('component %d: what was there and the expectation of the gradient over twice the frequency' % k, got,
                       old(mode, const(k), const(0)) + I * old(mode, const(k), const(1)) + expectation(mode, k))


def expectation(mode, k, ev=lambda *i: sel('ev', *i, kind='c'), dg=lambda *i: sel('dg', *i, kind='c'), f=lambda m: sel('f', m)):
    i, j = index_sym('gi', n), index_sym('gj', n)
    t = sum(conj(ev(mode, i, const(a))) * ev(mode, j, const(b)) * dg(i, const(a), j, const(b), const(k)) for a in range(3) for b in range(3))
    return mk_sum('gi', 0, n, mk_sum('gj', 0, n, t)) / (2 * f(mode))


class Lapack:
    """contract of zheevd: a query (a size of -1) sets the sizes; a call with at least these sizes replaces the matrix by the
    eigenvectors (row m of the memory: eigenvector m) and sets the eigenvalues"""

    def __init__(self, r, val):
        self.r, self.val = r, val
        self.calls = self.queries = 0
        self.lw, self.lrw, self.liw = dim('lwork'), dim('lrwork'), dim('liwork')
        self.info = Poly.atom(T.Sym('info', 'int'))

    def __call__(self, jobz, uplo, order, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info):
        r, ck, val = self.r, self.r.ck, self.val
        get = lambda c: None if c.v is None else c.v
        val.true('eigenvectors asked for', get(jobz) == 'V')
        val.true('lower triangle of the column-major matrix', get(uplo) == 'L')
        val.eq('order', get(order), 3 * n)
        val.eq('leading dimension', get(lda), 3 * n)
        m, _ = r.block(a, (n, 3, n, 3, 2), 'matrix for zheevd')
        e, _ = r.block(w, (3 * n,), 'eigenvalues for zheevd')
        sizes = [get(x) for x in (lwork, lrwork, liwork)]
        if any(s is not None and A.conc(P(s)) == -1 for s in sizes):
            self.queries += 1
            for c, s in ((work, self.lw), (rwork, self.lrw), (iwork, self.liw)):
                ck.true('the query sets scalars', isinstance(c, CX.Cell))
                c.v = s
            info.v = self.info
            return
        ck.true('sizes of the workspace set', all(s is not None for s in sizes))
        for nm, p, s, least, t in (('work', work, sizes[0], self.lw, 2), ('rwork', rwork, sizes[1], self.lrw, 1), ('iwork', iwork, sizes[2], self.liw, 1)):
            ck.holds('%s is as long as the query said' % nm, bge(s, least))
            b, o = r.C_arg(p)
            ck.true('%s: memory' % nm, isinstance(b, CX.CArr) and o == 0 and not b.freed)
            ck.true('%s: kind of memory' % nm, b.arr.kind == ('i' if nm == 'iwork' else 'f'))
            ck.holds('%s: the memory is as long as stated' % nm, bge(b.total(), t * P(s)))
        self.calls += 1
        self.matrix = m.copy()
        m.store(lambda i, a, j, b, c: sel('V', i, a, j, b, c))
        e.store(lambda i: sel('lam', i))
        info.v = self.info


def diagonalisation(ck, val):
    r, m = start(ck, 'util', 'dyn_mat')
    d, e = out('d', (n, 3, n, 3, 2)), out('e', (3 * n,))
    for _ in returns(ck, lambda: (setattr(r, 'z', Lapack(r, val)), r.allocs.clear(), m.diagonalise_dyn_mat_zheevd(n, given('q', (3,)), d, e, r.z))):
        i, j = ij()
        z = r.z
        ok = S.decide(beq(z.info, 0))
        val.true('one query', z.queries == 1)
        ck.true('all memory freed', all(x.freed for x in r.allocs))
        val.true('diagonalised once, unless the query failed', z.calls == (1 if ok or z.calls else 0))
        if not ok:
            val.true('failure only if LAPACK reports one', ok is False)
            continue
        for a, b, c in itertools.product(range(3), range(3), range(2)):
            x = (i, const(a), j, const(b), const(c))
            val.eq('the matrix given is diagonalised %d%d%d' % (a, b, c), z.matrix.at(*x), T.ArrDecl('d', 5, 'real')(*x))
            val.eq('the eigenvectors are left in its memory %d%d%d' % (a, b, c), d.arr.at(*x), sel('V', *x))
        k = index_sym('k', 3 * n)
        val.eq('eigenvalues', e.arr.at(k), sel('lam', k))


# ------------------------------------------------------------------------------------------------ the driver
nq, nsp, NT = dim('nq'), dim('nsp'), dim('nt')


class PyArr:
    """a NumPy array handed over: its memory and its dimensions"""

    def __init__(self, mem, dims=None):
        self.mem = mem
        self.dims = [P(d) for d in (mem.dims if dims is None else dims)]


def driver(ck, val, dipole, splitting, evec, grad, asr):
    """one iteration of the loop over q-points, for any number of them: what is in row q afterwards, and that nothing else is
    written but memory of the thread itself"""
    sizes = [(18 * n * n, (n, 3, n, 3, 2)), (54 * n * n, (n, 3, n, 3, 3, 2))]
    r = CX.CRun(ck.new_interp(), ck, sizes)
    flat(r)
    it = r.it
    nim, img = images()
    par = Poly.atom(T.Sym('threads', 'int', nonneg=True))
    vals = dict(lam=sym('lam', pos=True))
    nel = n * (n + 1) / 2
    P_ = PyArr
    init = dict(H_ab=P_(given('H', (nd, nel, 3, 3))), cells=P_(given('cells', (nd, 3))), gvec_phases=P_(pair('gp', (ng + 1, n)), (ng + 1, n)),
                gvecs_cart=P_(given('gv', (ng + 1, 3))), dipole_q0=P_(pair('q0', (n, 3, 3)), (n, 3, 3)))
    init['lambda'] = LAM
    crystal_ = dict(n_atoms=n, atom_r=P_(given('r', (n, 3))))
    obj = dict(crystal=crystal_, _n_sc_images=P_(given('nim', (nc, n, n), 'i', nim)), _sc_image_i=P_(given('img', (nc, n, n, ni), 'i', img)),
               cell_origins=P_(given('co', (nc, 3), 'i')))
    if dipole:
        obj.update(_born=P_(given('z', (n, 3, 3))), _dielectric=P_(given('eps', (3, 3))), _dipole_init_data=init)
    q = given('q', (nq, 3))
    F = CX.make('frequencies', (nq, 3 * n), lambda *i: T.ArrDecl('F0', 2, 'real')(*i))
    E = CX.make('eigenvectors', ((nq + 1) if evec else 0, n, 3, n, 3, 2), T.ArrDecl('E0', 6, 'real'))
    G = CX.make('mode gradients', (nq if grad else 0, 3 * n, 3, 2), lambda *i: const(0))
    sp = given('split', (nsp,), 'i')
    dirs = given('dirs', (nsp, 3))
    asrc = pair('asr', (n if asr else 0, 3, n, 3))
    args = [obj, P_(given('cell', (3, 3))), P_(given('rec', (3, 3))), P_(q), P_(sp), P_(dirs), P_(given('fc', (nc, n, 3, n, 3)), (nc, 3 * n, 3 * n)), P_(given('sco', (NT, 3), 'i')),
            P_(asrc, (3 * n if asr else 0, 3 * n)), P_(given('w', (n, 3, n, 3)), (3 * n, 3 * n)), const(int(dipole)), const(int(splitting)), P_(F), P_(E, ((nq + 1) if evec else 0, 3 * n, n, 3)),
            P_(G, (nq if grad else 0, 3 * n, 3)), P_(given('og', (nc, n, n, ni, 3)) if grad else given('og', (0, 3))), par]
    py_model(r, args)
    calls = []

    def row():
        return r.iteration[0]

    def block(p, shape, what, write=False):
        a, idx = r.block(p, shape, what)
        b = r.C_arg(p)[0]
        if b in (F, E, G):
            if len(idx):
                ck.holds('%s: own row of the %s' % (what, b.name), beq(idx[0], row()))
            else:
                ck.fail('%s: own row of the %s' % (what, b.name), 'all of it')
        elif write:
            ck.true('%s: memory of the thread itself' % what, getattr(b, 'private', False))
        elif b.what == 'allocated':
            ck.true('%s: memory of the thread itself' % what, b.private)
        return a

    def scalar(nm, what, v, want):
        if not (P(v) - P(want)).t:
            return val.ok('%s: %s' % (what, nm)) or True
        val.eq('%s: %s' % (what, nm), P(v), P(want))

    def mem(nm, what, p, carr):
        """the argument is this whole array"""
        b, o = r.C_arg(p)
        val.true('%s: %s' % (what, nm), b is carr and not P(o).t, repr(b))

    def qpt(p, what):
        b, o = r.C_arg(p)
        a, idx = r.block(p, (3,), what)
        val.true('%s: a q-point' % what, b is q)
        val.eq('%s: the q-point' % what, idx[0], row())

    def dyn(qp, n_, nc_, ni_, nim_, img_, co, sco, fc, og, grad_, d, dg):
        what = 'dynamical matrix'
        calls.append(what)
        qpt(qp, what)
        for nm, v, w in (('atoms', n_, n), ('cells', nc_, nc), ('images', ni_, ni)):
            scalar(nm, what, v, w)
        for nm, p, c in (('numbers of images', nim_, obj['_n_sc_images']), ('images', img_, obj['_sc_image_i']), ('cells', co, obj['cell_origins']), ('translations', sco, args[7]),
                         ('force constants', fc, args[6])):
            mem(nm, what, p, c.mem)
        gr = conc_(grad_.poly() if isinstance(grad_, T.B) else P(grad_))
        val.true('%s: gradients if asked for' % what, bool(gr) == grad)
        block(d, (n, 3, n, 3, 2), what, True).store(lambda *i: sel('D', row(), *i))
        if gr:
            mem('origins', what, og, args[15].mem)
            block(dg, (n, 3, n, 3, 3, 2), what + ' (gradients)', True).store(lambda *i: sel('DG', row(), *i))

    def dip(qp, n_, cell, rec, r_, z, eps, H, cells, nd_, gp, gv, ng_, q0, lam, corr):
        what = 'dipole term'
        calls.append(what)
        qpt(qp, what)
        for nm, v, w in (('atoms', n_, n), ('cells', nd_, nd), ('G vectors', ng_, ng + 1), ('parameter', lam, LAM)):
            scalar(nm, what, v, w)
        for nm, p, c in (('cell', cell, args[1]), ('reciprocal cell', rec, args[2]), ('positions', r_, crystal_['atom_r']), ('charges', z, obj['_born']), ('dielectric', eps, obj['_dielectric']),
                         ('H', H, init['H_ab']), ('cells', cells, init['cells']), ('phases', gp, init['gvec_phases']), ('G', gv, init['gvecs_cart']), ('q0', q0, init['dipole_q0'])):
            mem(nm, what, p, c.mem)
        block(corr, (n, 3, n, 3, 2), what, True).store(lambda *i: sel('C', row(), *i))

    def lo_to(qd, n_, cell, rec, z, eps, corr):
        what = 'LO-TO term'
        calls.append(what)
        b, o = r.C_arg(qd)
        a, idx = r.block(qd, (3,), what)
        val.true('%s: a direction' % what, b is dirs)
        val.eq('%s: the direction listed for the q-point' % what, sel('split', idx[0], kind='i'), row())
        scalar('atoms', what, n_, n)
        for nm, p, c in (('cell', cell, args[1]), ('reciprocal cell', rec, args[2]), ('charges', z, obj['_born']), ('dielectric', eps, obj['_dielectric'])):
            mem(nm, what, p, c.mem)
        w = block(corr, (n, 3, n, 3, 2), what, True)
        old = w.copy()
        seen['dir'] = idx[0]
        # the imaginary parts are left as they are
        w.store(lambda *i: ite(beq(i[-1], 0), sel('L', idx[0], *i[:-1]), old.at(*i)))

    def weigh(w, n_, rep, d):
        what = 'mass weighting'
        scalar('atoms', what, n_, n)
        k = conc_(rep)
        mem('weights', what, w, args[9].mem)
        a = block(d, (n, 3, n, 3) + ((2,) if k == 2 else (3, 2)), what, True)
        val.true('%s: every component' % what, k in (2, 6))
        calls.append('%s %d' % (what, k))
        old = a.copy()
        a.store(lambda i, x, j, y, *c: old.at(i, x, j, y, *c) * sel('w', i, x, j, y))

    def diag(n_, qp, d, e, z):
        what = 'diagonalisation'
        calls.append(what)
        scalar('atoms', what, n_, n)
        val.true('%s: by LAPACK' % what, z == 'zheevd')
        r.block(qp, (3,), what)
        a = block(d, (n, 3, n, 3, 2), what, True)
        seen['matrix'] = a.copy()
        a.store(lambda *i: sel('V', row(), *i))
        block(e, (3 * n,), what + ' (eigenvalues)', True).store(lambda m: sel('e', row(), m))
        return Poly.atom(T.Sym('info', 'int'))

    def freqs(n_, e):
        what = 'frequencies'
        calls.append(what)
        scalar('atoms', what, n_, n)
        a = block(e, (3 * n,), what, True)
        old = a.copy()
        a.store(lambda m: signed(old.at(m)))

    def modeg(n_, f, v, dg, mg):
        what = 'mode gradients'
        calls.append(what)
        scalar('atoms', what, n_, n)
        seen['f'] = block(f, (3 * n,), what).copy()
        seen['v'] = block(v, (n, 3, n, 3, 2), what).copy()
        seen['dg'] = block(dg, (n, 3, n, 3, 3, 2), what).copy()
        a = block(mg, (3 * n, 3, 2), what, True)
        old = a.copy()
        a.store(lambda *i: old.at(*i) + sel('MG', row(), *i))
    seen = {}
    for nm, f in (('calculate_dyn_mat_at_q', dyn), ('calculate_dipole_correction', dip), ('calculate_gamma_correction', lo_to), ('mass_weight_dyn_mat', weigh),
                  ('diagonalise_dyn_mat_zheevd', diag), ('evals_to_freqs', freqs), ('calculate_mode_gradients', modeg)):
        it.hooks['c.' + nm] = f
    m = r.load('util', 'dyn_mat', '_euphonic')
    ret = object()
    old_add = it.hooks['c.add_arrays']

    def add(n_, p, q_):
        b = r.C_arg(q_)[0]
        block(q_, (n, 3, n, 3, 2), 'add_arrays', True)
        return old_add(n_, p, q_)
    it.hooks['c.add_arrays'] = add

    # the zone centres are listed (precondition of splitting: see the driver of the Python side)
    def listed():
        if splitting:
            y = T.index_sym('pos', nsp)
            r.search_terms[:] = [y]
            S.CTX.push(B_implies(gamma_row(row()), beq(sel('split', y, kind='i'), row())))
    r.on_iteration = listed

    def reset():
        F.arr.store(lambda *i: T.ArrDecl('F0', 2, 'real')(*i))
        E.arr.store(lambda *i: T.ArrDecl('E0', 6, 'real')(*i))
        G.arr.store(lambda *i: const(0))
    for o in returns(ck, lambda: (reset(), calls.clear(), seen.clear(), r.allocs.clear(), setattr(r, 'parallel', False), m.calculate_phonons(None, args))):
        y = row()
        ck.true('all memory freed', all(x.freed for x in r.allocs))
        gam = S.decide(gamma_row(y)) if splitting else False
        val.true('zone centre or not', gam is not None)
        ck.prefix = '%s%s: ' % (LABEL(dipole, splitting, evec, grad, asr), ', zone centre' if gam else '')
        want_calls = (['dynamical matrix'] + (['dipole term'] if dipole else []) + (['LO-TO term'] if gam else []) + ['mass weighting 2', 'diagonalisation', 'frequencies']
                      + (['mass weighting 6', 'mode gradients'] if grad else []))
        val.true('steps', calls == want_calls, repr(calls))
        if calls != want_calls:
            continue
        i, j = ij()
        for a, b, c in itertools.product(range(3), range(3), range(2)):
            x = (i, const(a), j, const(b), const(c))
            z = sel('asr', *x[:-1], kind='c')
            corr = sel('C', y, *x)
            want = sel('D', y, *x) + (corr if dipole else 0) + ((im(z) if c else re(z)) if asr else 0)
            if gam:
                want = want + (sel('L', seen['dir'], *x[:-1]) if not c else corr)
            val.eq('matrix %d%d.%d: the sum of the terms, mass weighted' % (a, b, c), seen['matrix'].at(*x), want * sel('w', *x[:-1]))
            if grad:
                for k in range(3):
                    x6 = (i, const(a), j, const(b), const(k), const(c))
                    val.eq('gradient %d%d.%d.%d: mass weighted' % (a, b, k, c), seen['dg'].at(*x6), sel('DG', y, *x6) * sel('w', *x[:-1]))
                val.eq('eigenvectors for the gradients %d%d.%d' % (a, b, c), seen['v'].at(*x), sel('V', y, *x))
            if evec:
                val.eq('row of the eigenvectors %d%d.%d' % (a, b, c), E.arr.at(y, *x), sel('V', y, *x))
        mode = index_sym('m', 3 * n)
        val.eq('row of the frequencies', F.arr.at(y, mode), signed(sel('e', y, mode)))
        if grad:
            val.eq('frequencies for the gradients', seen['f'].at(mode), signed(sel('e', y, mode)))
            for k, c in itertools.product(range(3), range(2)):
                val.eq('row of the gradients %d.%d' % (k, c), G.arr.at(y, mode, const(k), const(c)), sel('MG', y, mode, const(k), const(c)))
        # frame
        y2 = index_sym('other', nq)
        with S.assuming(bnot(beq(y, y2))):
            ck.eq('other rows of the frequencies', F.arr.at(y2, mode), T.ArrDecl('F0', 2, 'real')(y2, mode))
            for a, b, c in itertools.product(range(3), range(3), range(2)):
                x = (i, const(a), j, const(b), const(c))
                if evec:
                    ck.eq('other rows of the eigenvectors %d%d.%d' % (a, b, c), E.arr.at(y2, *x), T.ArrDecl('E0', 6, 'real')(y2, *x))
            if grad:
                for k, c in itertools.product(range(3), range(2)):
                    ck.eq('other rows of the gradients %d.%d' % (k, c), G.arr.at(y2, mode, const(k), const(c)), 0)
    ck.prefix = ''


def LABEL(dipole, splitting, evec, grad, asr):
    return ', '.join(l for l, f in (('dipole', dipole), ('splitting', splitting), ('eigenvectors', evec), ('gradients', grad), ('sum rule', asr)) if f) or 'plain'


def signed(e):
    return ite(blt(e, 0), -1, 1) * fabs(e).power(T.Fr(1, 2))


def gamma_row(y):
    return gamma([sel('q', y, const(a)) for a in range(3)])


def B_implies(a, b):
    return T.bor(bnot(a), b)


def py_model(r, args):
    """the Python objects handed over"""
    ck = r.ck

    def parse(a, fmt, *targets):
        ck.true('arguments', a is args)
        t = list(targets)
        kinds = []
        k = 0
        while k < len(fmt):
            if fmt[k:k + 2] == 'O!':
                kinds.append('array')
                k += 2
            else:
                kinds.append({'O': 'object', 'i': 'int'}[fmt[k]])
                k += 1
        ck.true('arguments: as many as expected', len(kinds) == len(args))
        for kd, v in zip(kinds, args):
            if kd == 'array':
                ck.true('arguments: type checked', t.pop(0) == 'ndarray')
                ck.true('arguments: an array', isinstance(v, PyArr))
            elif kd == 'int':
                ck.true('arguments: a number', isinstance(v, Poly))
            else:
                ck.true('arguments: an object', isinstance(v, dict))
            c = t.pop(0)
            c.v = v
        ck.true('arguments: all read', not t)
        return 1

    def get(d, key, c):
        if not isinstance(d, dict) or key not in d:
            return 1
        c.v = d[key]
        return 0
    r.extern.update(PyArg_ParseTuple=parse, PyArray_Type='ndarray', get_zheevd=lambda: 'zheevd', attr_from_pyobj=get, val_from_pydict=get, double_from_pydict=get, int_from_pyobj=get,
                    PyArray_DATA=lambda a: a.mem, PyArray_DIMS=lambda a: a.dims, omp_set_num_threads=lambda k: None, Py_DECREF=lambda *a: None, Py_None=None, py_none=lambda: None, PyErr_Format=lambda *a: None,
                    PyExc_RuntimeError='RuntimeError')
