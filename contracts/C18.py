"""sampling schemes"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('the random generator returns values in [0, 1); one symbolic draw stands for the draw of any iteration')
assume('np.histogram: if the bin edges do not decrease and every value lies between the first and the last edge, the counts add up to '
       'the number of values; a bin of width w holds the samples j h with a <= j h < b (last bin: <=)')
assume('sin x >= x - x**3/6 and sin x <= x on [0, pi/4]; |sin| <= 1')
np_, nr_, ncol = dim('npts'), dim('nrow'), dim('ncol')
CNT = [0]


def rnd(it=None):
    def random(size=None):
        CNT[0] += 1
        if size is None:
            raise Unsupported('scalar draw')
        shape = size if isinstance(size, tuple) else (size,)
        raw = decl_arr('rnd%d' % CNT[0], shape)
        # the fractional part of an arbitrary number: any value in [0, 1)
        return A.mk(shape, lambda *i: P(A.scalar_op('%', raw.at(*i), const(1))), 'f')
    N.HOOKS['random.random'] = random


def sq(ck, nm, x, y, facts=()):
    for c, v in (('x', x), ('y', y)):
        v = P(v)
        ck.holds('%s: 0 <= %s' % (nm, c), ble(const(0), v))
        ck.holds('%s: %s <= 1' % (nm, c), ble(v, 1))


def arccos_ok(ck, lo, hi=None):
    """arccos with its domain as an obligation"""
    def f(x):
        x = P(x)
        ck.holds('arccos argument >= -1', ble(const(-1), x))
        ck.holds('arccos argument <= 1', ble(x, 1))
        return T.fn('arccos', x)
    N.HOOKS['arccos'] = f


def norm2(v):
    return sum((P(x) * P(x) for x in v), const(0))


def items(v):
    """(count, generic item) of what a generator yields"""
    if isinstance(v, X.YNested):
        g = v
        while isinstance(g, X.YGroup):
            last = g
            g = g.value
        return v.total(), g
    if isinstance(v, X.SymSeq):
        return v.n, v.value
    raise Unsupported('generator result %r' % type(v))


def generic(v):
    """push the ranges of the position symbols of a yielded template"""
    out = []
    while isinstance(v, X.YGroup):
        out.append((v.name, v.n))
        v = v.value
    if isinstance(v, X.SymSeq):
        out.append((v.name, v.n))
    for nm, n in out:
        s = P(sym(nm, 'int', nonneg=True))
        S.CTX.push(blt(s, n))
    return out


for offset in (True, False):
    for jitter in (False, True):
        tag = '%soffset %sjitter' % ('' if offset else 'no ', '' if jitter else 'no ')

        @obligation('golden_square ' + tag, ['sampling.golden_square'])
        def _(ck, offset=offset, jitter=jitter):
            it = ck.new_interp()
            m = it.load('euphonic.sampling')
            rnd()
            for o in returns(ck, lambda: m.golden_square(np_, offset=offset, jitter=jitter)):
                cnt, v = items(o.value)
                ck.eq('number of points', cnt, np_)
                generic(o.value)
                ck.true('pairs', len(v) == 2)
                sq(ck, 'unit square', *v)

        @obligation('regular_square ' + tag, ['sampling.regular_square'])
        def _(ck, offset=offset, jitter=jitter):
            it = ck.new_interp()
            m = it.load('euphonic.sampling')
            rnd()
            for o in returns(ck, lambda: m.regular_square(nr_, ncol, offset=offset, jitter=jitter)):
                cnt, v = items(o.value)
                ck.eq('number of points', cnt, nr_ * ncol)
                generic(o.value)
                ck.true('pairs', len(v) == 2)
                sq(ck, 'unit square', *v)


def square_point(ck, it):
    """contract of the square schemes: points of the unit square"""
    calls = []

    def hook(total):
        def f(*a, **k):
            calls.append((a, k))
            nm, y = T.fresh_index(total)
            u, v = sel('sqx', y, nonneg=True), sel('sqy', y, nonneg=True)
            S.CTX.push(ble(u, 1))
            S.CTX.push(ble(v, 1))
            return X.SymSeq(total, nm, (u, v))
        return f
    return calls, hook


SCHEMES = {
    'golden_sphere': (lambda m, **k: m.golden_sphere(np_, **k), 'euphonic.sampling.golden_square', np_, (np_,)),
    'sphere_from_square_grid': (lambda m, **k: m.sphere_from_square_grid(nr_, ncol, **k), 'euphonic.sampling.regular_square', nr_ * ncol, (nr_, ncol)),
}
for sname, (call, sub, total, args) in SCHEMES.items():
    for jitter in (False, True):
        @obligation('%s %sjitter' % (sname, '' if jitter else 'no '), ['sampling.' + sname, 'sampling._square_to_spherical_polar', 'sampling._spherical_polar_to_cartesian'])
        def _(ck, sname=sname, call=call, sub=sub, total=total, args=args, jitter=jitter):
            it = ck.new_interp()
            m = it.load('euphonic.sampling')
            res = {}
            for cart in (True, False):
                ck.prefix = ('Cartesian/' if cart else 'spherical/')
                calls, hook = square_point(ck, it)
                it.hooks[sub] = hook(total)
                # inside the loop the argument of arccos is a point of the square
                seen = []
                N.HOOKS['arccos'] = lambda x: (seen.append(P(x)), T.fn('arccos', P(x)))[1]
                for o in returns(ck, lambda: call(m, cartesian=cart, jitter=jitter)):
                    ck.true('square scheme called once', len(calls) == 1)
                    a, k = calls[0]
                    ck.true('arguments of the square scheme', len(a) == len(args) and all(not (P(x) - y).t for x, y in zip(a, args))
                            and k.get('jitter') is jitter and k.get('offset', True) is True, '%r %r' % (a, k))
                    cnt, v = items(o.value)
                    ck.eq('number of points', cnt, total)
                    i = index_sym('i0', total)
                    v = X.vsubst(v, {o.value.name: i})
                    u, w = sel('sqx', i, nonneg=True), sel('sqy', i, nonneg=True)
                    S.CTX.push(ble(u, 1))
                    S.CTX.push(ble(w, 1))
                    for x in seen:
                        x = T.subst(x, {nm: i for nm in x.free if nm.startswith(o.value.name[:1]) and nm not in ('npts', 'nrow', 'ncol')})
                        ck.holds('arccos argument in [-1, 1]', band(ble(const(-1), x), ble(x, 1)))
                    ck.true('three numbers', len(v) == 3)
                    res[cart] = v
                    if cart:
                        ck.eq('unit length', norm2(v), const(1))
                    else:
                        ck.eq('radius', P(v[0]), const(1))
            ck.prefix = ''
            same_points(ck, res)


def same_points(ck, res):
    if len(res) == 2:
        (x, y, z), (r, phi, th) = res[True], res[False]
        r, phi, th = P(r), P(phi), P(th)
        ck.eq('same point: x', P(x), r * pcos(phi) * psin(th))
        ck.eq('same point: y', P(y), r * psin(phi) * psin(th))
        ck.eq('same point: z', P(z), r * pcos(th))


@obligation('random_sphere', ['sampling.random_sphere'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.sampling')
    rnd()
    res = {}
    for cart in (True, False):
        CNT[0] = 0
        ck.prefix = ('Cartesian/' if cart else 'spherical/')
        for o in returns(ck, lambda: m.random_sphere(np_, cartesian=cart)):
            cnt, v = items(o.value)
            ck.eq('number of points', cnt, np_)
            v = X.vsubst(v, {o.value.name: index_sym('i0', np_)})
            res[cart] = v
            if cart:
                ck.eq('unit length', norm2(v), const(1))
            else:
                ck.eq('radius', P(v[0]), const(1))
    ck.prefix = ''
    same_points(ck, res)


@obligation('spherical polar coordinates', ['sampling._square_to_spherical_polar', 'sampling._spherical_polar_to_cartesian'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.sampling')
    u, v = sym('u', nonneg=True), sym('v', nonneg=True)
    with S.assuming(ble(u, 1), ble(v, 1)):
        seen = []
        N.HOOKS['arccos'] = lambda x: (seen.append(P(x)), T.fn('arccos', P(x)))[1]
        for o in returns(ck, lambda: m._square_to_spherical_polar(u, v)):
            phi, th = o.value
            ck.true('one arccos', len(seen) == 1)
            for x in seen:
                ck.holds('arccos defined', band(ble(const(-1), x), ble(x, 1)))
            ck.holds('0 <= phi', ble(const(0), P(phi)))
            ck.holds('phi <= 2 pi', ble(P(phi) / PI, 2))
            ck.eq('height is uniform', P(th), T.fn('arccos', 2 * u - 1))
    t, p = sym('t'), sym('p')
    for o in returns(ck, lambda: m._spherical_polar_to_cartesian(p, t)):
        x, y, z = o.value
        ck.eq('x', P(x), pcos(p) * psin(t))
        ck.eq('y', P(y), psin(p) * psin(t))
        ck.eq('z', P(z), pcos(t))


for jitter in (False, True):
    @obligation('spherical_polar_grid %sjitter' % ('' if jitter else 'no '), ['sampling.spherical_polar_grid'])
    def _(ck, jitter=jitter):
        it = ck.new_interp()
        m = it.load('euphonic.sampling')
        rnd()
        res = {}
        for cart in (True, False):
            CNT[0] = 0
            ck.prefix = ('Cartesian/' if cart else 'spherical/')
            for o in returns(ck, lambda: m.spherical_polar_grid(nr_, ncol, cartesian=cart, jitter=jitter)):
                cnt, v = items(o.value)
                ck.eq('number of points', cnt, nr_ * ncol)
                names = generic(o.value)
                i, j = index_sym('i0', nr_), index_sym('i1', ncol)
                w = X.vsubst(v, dict(zip([a for a, _ in names], (i, j))))
                res[cart] = w
                if cart:
                    ck.eq('unit length', norm2(w), const(1))
                else:
                    ck.eq('radius', P(w[0]), const(1))
                    ck.holds('theta >= 0', ble(const(0), P(w[2]) / PI))
                    ck.holds('theta <= pi', ble(P(w[2]) / PI, 1))
        ck.prefix = ''
        same_points(ck, res)


# rings of spherical_polar_improved
@obligation('rings hold at least two points', ['lemma for spherical_polar_improved'])
def _(ck):
    # x = pi/(2 m), s = sin x; m = floor(sqrt(pi npts/4)) so npts >= pi/x**2
    import z3
    x, s, N_, pi = z3.Reals('x s N pi')
    base = [pi > 3.14159, pi < 3.1416, x > 0, 4 * x <= pi, s >= x - x * x * x / 6, s <= x, N_ * x * x >= pi]

    def prove(nm, extra, goal):
        sol = z3.Solver()
        sol.set('timeout', 60000)
        sol.add(base + extra + [z3.Not(goal)])
        r = sol.check()
        (ck.ok if r == z3.unsat else ck.fail)(nm, str(r))
    # total circumference is 2 pi/s, h = 2 pi/(s (N-1)); first and last ring have width 2 pi s
    prove('first and last ring: a second sample lies inside', [], (N_ - 1) * s * s > 1)
    # other rings exist for m >= 3; sin(theta) >= sin(3x) = s (3 - 4 s**2)
    prove('inner rings are at least two sample spacings wide', [6 * x <= pi, (N_ - 1) * s * s > 1], s * (3 - 4 * s * s) * s * (N_ - 1) >= 2)
    # closed form of the total: telescoping
    k, y = sym('k', 'int', nonneg=True), sym('y')
    ck.eq('sum of the circumferences telescopes', 2 * psin(y) * psin((2 * k + 1) * y), pcos(2 * k * y) - pcos(2 * (k + 1) * y))


for jitter in (False, True):
    @obligation('spherical_polar_improved %sjitter' % ('' if jitter else 'no '), ['sampling.spherical_polar_improved'])
    def _(ck, jitter=jitter):
        it = ck.new_interp()
        m = it.load('euphonic.sampling')
        S.CTX.push(bge(np_, 6))
        rnd()
        res = {}

        def hist(x, bins=10, density=None, **k):
            ck.true('counts, not densities', not density)
            j = index_sym('hj', x.vshape[0])
            ck.eq('as many samples as points', P(x.vshape[0]), np_)
            nb = P(bins.vshape[0]) - 1
            ck.eq('first sample at the first edge', x.at(const(0)), bins.at(const(0)))
            ck.eq('last sample at the last edge', x.at(np_ - 1), bins.at(nb))
            ck.eq('evenly spaced samples', x.at(j), bins.at(const(0)) + (bins.at(nb) - bins.at(const(0))) * j / (np_ - 1))
            ck.eq('first edge', bins.at(const(0)), const(0))
            c = decl_arr('count', (nb,), 'i', nonneg=True)
            # ring widths proportional to the circumference, so the edges do not decrease
            k1 = index_sym('hk1', nb - 1) + 1
            for nm, q in (('first ring', const(0)), ('later rings', k1)):
                ck.eq('ring width: ' + nm, T.peel_sums(bins.at(q + 1), q + 1) - bins.at(q), 2 * PI * fabs(psin(PI * (q + fr(1, 2)) / nb)))
            res['rings'] = nb
            return c, bins
        N.HOOKS['histogram'] = hist
        pts = {}
        for cart in (True, False):
            CNT[0] = 0
            ck.prefix = ('Cartesian/' if cart else 'spherical/')

            def f():
                return m.spherical_polar_improved(np_, cartesian=cart, jitter=jitter)
            for o in returns(ck, f):
                g = o.value
                ck.true('rings of points', isinstance(g, X.YNested) and isinstance(g.value, X.YGroup) and not isinstance(g.value.value, X.YGroup))
                nb = res['rings']
                ck.eq('one group per ring', g.n, nb)
                i = index_sym('i0', nb)
                inner = X.vsubst(g.value, {g.name: i})
                ck.eq('points of a ring', inner.n, sel('count', i, kind='i', nonneg=True))
                j = index_sym('i1', inner.n)
                w = X.vsubst(inner.value, {inner.name: j})
                pts[cart] = w
                if cart:
                    ck.eq('unit length', norm2(w), const(1))
                else:
                    ck.eq('radius', P(w[0]), const(1))
        ck.prefix = ''
        same_points(ck, pts)


def fr(a, b):
    return const(a) / const(b)


# ---------------------------------------------------------------- powder
define_unit('uq', '1.3/angstrom')


@obligation('grid point rounding', ['powder._check_gridpts'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.powder')
    for o in returns(ck, lambda: m._check_gridpts(np_)):
        c = P(o.value)
        ck.true('integer', c.isint(), c)
        ck.holds('at least one column', bge(c, 1))
        s = (np_ / 2).power(fr(1, 2).cval())
        if ck.holds('c >= sqrt(npts/2)', bge(c, s)):
            S.CTX.push(bge(c * c, s * s))           # squares of non-negative numbers are ordered like the numbers
        if ck.holds('c - 1 < sqrt(npts/2)', blt(c - 1, s)):
            S.CTX.push(blt((c - 1) * (c - 1), s * s))
        ck.holds('2 c**2 >= npts', bge(2 * c * c, np_))
        ck.holds('no smaller c will do', blt(2 * (c - 1) * (c - 1), np_))


DIRECT = {'golden': ('golden_sphere', lambda c: (np_,), lambda c: np_), 'random-sphere': ('random_sphere', lambda c: (np_,), lambda c: np_),
          'spherical-polar-improved': ('spherical_polar_improved', lambda c: (np_,), lambda c: np_),
          'sphere-projected-grid': ('sphere_from_square_grid', lambda c: (2 * c, c), lambda c: 2 * c * c),
          'spherical-polar-grid': ('spherical_polar_grid', lambda c: (2 * c, c), lambda c: 2 * c * c)}


def sphere_hooks(it, calls):
    def hook(nm, total):
        def f(*a, **k):
            calls.append((nm, a, k))
            n = total(*a)
            name, y = T.fresh_index(n, base='pt')
            return X.SymSeq(n, name, tuple(sel('dir', y, const(c)) for c in range(3)))
        return f
    for nm in ('golden_sphere', 'random_sphere', 'spherical_polar_improved'):
        it.hooks['euphonic.sampling.' + nm] = hook(nm, lambda n, **k: P(n))
    for nm in ('sphere_from_square_grid', 'spherical_polar_grid'):
        it.hooks['euphonic.sampling.' + nm] = hook(nm, lambda a, b, **k: P(a) * P(b))


for scheme, (fname, fargs, ftotal) in DIRECT.items():
    for jitter in (False, True):
        @obligation('_get_qpts_sphere %s %sjitter' % (scheme, '' if jitter else 'no '), ['powder._get_qpts_sphere'])
        def _(ck, scheme=scheme, fname=fname, fargs=fargs, ftotal=ftotal, jitter=jitter):
            it = ck.new_interp()
            m = it.load('euphonic.powder')
            c = dim('cols')
            it.hooks['euphonic.powder._check_gridpts'] = lambda n: (ck.eq('points asked for', P(n), np_), c)[1]
            calls = []
            sphere_hooks(it, calls)
            for o in returns(ck, lambda: m._get_qpts_sphere(np_, sampling=scheme, jitter=jitter)):
                ck.true('scheme', [x[0] for x in calls] == [fname], calls)
                nm, a, k = calls[0]
                ck.true('arguments', len(a) == len(fargs(c)) and all(not (P(x) - P(y)).t for x, y in zip(a, fargs(c))), a)
                ck.true('Cartesian output', k.get('cartesian', True) is True)
                ck.true('jitter passed on', fname == 'random_sphere' or k.get('jitter', False) is jitter, k)
                ck.arr('points', o.value, (ftotal(c), 3), lambda i, j: sel('dir', i, j))
                calls.clear()


@obligation('unknown scheme', ['powder._get_qpts_sphere'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.powder')
    for o in X.explore(lambda: m._get_qpts_sphere(np_, sampling='nonsense')):
        ck.true('refused', o.kind == 'raise' and isinstance(o.value, ValueError), o)


@obligation('wavevectors', ['powder._qpts_cart_to_frac'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.powder')
    n = dim('n')
    cr = crystal(it, n)
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = lambda self: Q(decl_arr('rc', (3, 3)), 'uq')

    def solve(a, b):
        ck.true('matrix of lattice vectors', isinstance(a, Q) and isinstance(b, Q))
        i, j = index_sym('i', 3), index_sym('j', 3)
        ck.eq('columns are the reciprocal vectors', a.m.at(i, j) * us(a.u), sel('rc', j, i) * us('uq'))
        w = index_sym('w', b.m.vshape[1])
        ck.eq('one right-hand side per point', b.m.at(i, w) * us(b.u), sel('cart', w, i) * us('ux2'))
        return Q(decl_arr('sol', (3, b.m.vshape[1])), None)
    N.HOOKS['linalg.solve'] = solve
    define_unit('ux2', '0.6/bohr')
    nq = dim('nq')
    for o in returns(ck, lambda: m._qpts_cart_to_frac(Q(decl_arr('cart', (nq, 3)), 'ux2'), cr)):
        ck.arr('fractional coordinates solve q . recip = cart', o.value, (nq, 3), lambda i, j: sel('sol', j, i))


class Rec:
    """stand-in for the objects a powder function calls; records every call"""

    def __init__(self, log, name, **attrs):
        self.__dict__.update(attrs)
        self._log, self._name = log, name

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)

        def f(*a, **k):
            r = Rec(self._log, n)
            if n.startswith('calculate_qpoint'):
                r.frequencies = Q(decl_arr('f', (dim('nq'), dim('nm'))), 'ufreq')
            self._log.append((self._name, n, a, k, r))
            return r
        return f


POWDER = [('sample_sphere_dos', 'calculate_qpoint_frequencies', 'calculate_dos', {}, {}),
          ('sample_sphere_pdos', 'calculate_qpoint_phonon_modes', 'calculate_pdos', dict(weighting='coherent', cross_sections='BlueBook'),
           dict(weighting='coherent', cross_sections='BlueBook')),
          ('sample_sphere_structure_factor', 'calculate_qpoint_phonon_modes', 'calculate_1d_average', dict(temperature=None, scattering_lengths={}), {})]
for fname, calc, final, extra, passed in POWDER:
    for bins in (True, False):
        @obligation('%s %s' % (fname, 'given bins' if bins else 'default bins'), ['powder.%s' % fname, 'powder._get_default_bins'])
        def _(ck, fname=fname, calc=calc, final=final, extra=extra, passed=passed, bins=bins):
            it = ck.new_interp()
            m = it.load('euphonic.powder')
            nd = dim('nd')
            log, dirs, cart = [], [], []
            fcn = Rec(log, 'fc', crystal='the crystal')
            it.hooks['euphonic.powder._get_qpts_sphere'] = lambda *a, **k: (dirs.append((a, k)), decl_arr('dir', (nd, 3)))[1]
            it.hooks['euphonic.powder._qpts_cart_to_frac'] = lambda *a, **k: (cart.append((a, k)), 'frac')[1]
            q = Q(sym('modq', pos=True), 'uq')
            e = Q(decl_arr('e', (dim('ne'),)), 'ufreq')
            N.HOOKS['max'] = lambda x, **k: Q(sym('fmax'), x.u) if isinstance(x, Q) else sym('fmax')
            kw = dict(extra, asr='reciprocal', use_c=False)
            if bins:
                kw['energy_bins'] = e
            jit = sym('jitter', 'int')
            for o in returns(ck, lambda: getattr(m, fname)(fcn, q, sampling='golden', npts=np_, jitter=jit, **kw)):
                a, k = dirs[0]
                k = dict(zip(('npts', 'sampling', 'jitter'), a), **k)
                ck.true('one set of directions', len(dirs) == 1 and len(cart) == 1)
                ck.true('directions', k['npts'] is np_ and k.get('sampling') == 'golden' and k.get('jitter') is jit, k)
                a, k = cart[0]
                ck.true('crystal', (list(a) + list(k.values()))[1] == 'the crystal')
                v = a[0]
                ck.qarr('|q| times direction', v, None, (nd, 3), lambda i, j: sym('modq', pos=True) * us('uq') * sel('dir', i, j))
                run = [x for x in log if x[0] == 'fc']
                ck.true('one calculation', len(run) == 1 and run[0][1] == calc, log)
                ck.true('at these wavevectors', run[0][2] == ('frac',) or run[0][3].get('qpts') == 'frac', run)
                ck.true('options passed on', {x: y for x, y in run[0][3].items() if x != 'qpts'} == dict(asr='reciprocal', use_c=False), run[0][3])
                fin = [x for x in log if x[1] == final]
                ck.true('result', len(fin) == 1 and o.value is fin[0][4], log)
                allk = dict(zip(('energy_bins',), fin[0][2]), **fin[0][3])
                b = allk.pop('energy_bins', None) if 'energy_bins' in allk else allk.pop('e_bins', None)
                ck.true('options of the result', {x: y for x, y in allk.items()} == passed, allk)
                if bins:
                    ck.true('bins passed on', b is e)
                else:
                    ck.qarr('default bins', b, None, (1001,), lambda i: sym('fmax') * us('ufreq') * fr(105, 100) * i / 1000)
                del log[:], dirs[:], cart[:]


# -------------------------------------------------------------------- real code
def pts_of(g):
    return np.array([tuple(float(x) for x in p) for p in g])


def sphere_to_cart(p):
    r, phi, th = p.T
    return np.column_stack([r * np.cos(phi) * np.sin(th), r * np.sin(phi) * np.sin(th), r * np.cos(th)])


@test('square schemes', n=60, n_thorough=400)
def t1(rng, k):
    from euphonic import sampling as s
    np.random.seed(int(rng.integers(2 ** 31)))
    n = int(G.pick(rng, [1, 2, 3, 5, int(rng.integers(1, 500)), int(rng.integers(1, 3000))]))
    kw = dict(offset=bool(rng.random() < .5), jitter=bool(rng.random() < .5))
    p = pts_of(s.golden_square(n, **kw))
    G.need(p.shape == (n, 2), 'golden_square(%d): %s' % (n, p.shape))
    G.need(np.all((p >= 0) & (p <= 1)), 'golden_square(%d, %s) leaves the unit square' % (n, kw))
    a, b = (int(x) for x in rng.integers(1, 40, 2))
    p = pts_of(s.regular_square(a, b, **kw))
    G.need(p.shape == (a * b, 2), 'regular_square(%d, %d): %s' % (a, b, p.shape))
    G.need(np.all((p >= 0) & (p <= 1)), 'regular_square(%d, %d, %s) leaves the unit square: %s, %s' % (a, b, kw, p.min(0), p.max(0)))
    if not kw['jitter']:
        o = .5 if kw['offset'] else 0
        want = np.array([((i + o) / b, (j + o) / a) for i in range(b) for j in range(a)])
        G.need_close(np.array(sorted(map(tuple, np.round(p, 9)))), np.array(sorted(map(tuple, np.round(want, 9)))), 'regular grid', atol=1e-8)
    else:                       # each point stays in its own cell
        d = (p - np.array([0 if kw['offset'] else .5 / b, 0 if kw['offset'] else .5 / a])) if False else p
        if kw['offset']:
            cells = np.floor(np.column_stack([d[:, 0] * b, d[:, 1] * a]) - 1e-12)
            G.need(len({tuple(c) for c in cells}) == a * b, 'a jittered point left its cell')
    o = int(rng.integers(1, 5))
    p = pts_of(s.recurrence_sequence(n, order=o))
    G.need(p.shape == (n, o) and np.all((p >= 0) & (p < 1)), 'recurrence_sequence(%d, %d): %s' % (n, o, p.shape))
    return dict(n=n, **kw)


@test('sphere schemes', n=120, n_thorough=1200)
def t2(rng, k):
    from euphonic import sampling as s
    n = int(G.pick(rng, [1, 2, 6, 7, 216, 225, int(rng.integers(6, 400)), int(rng.integers(6, 8000))]))
    a, b = (int(x) for x in rng.integers(1, 40, 2))
    seed = int(rng.integers(2 ** 31))
    for nm, f, num, jit in [('golden_sphere', lambda **w: s.golden_sphere(n, **w), n, True),
                            ('sphere_from_square_grid', lambda **w: s.sphere_from_square_grid(a, b, **w), a * b, True),
                            ('spherical_polar_grid', lambda **w: s.spherical_polar_grid(a, b, **w), a * b, True),
                            ('spherical_polar_improved', lambda **w: s.spherical_polar_improved(n, **w), n, True),
                            ('random_sphere', lambda **w: s.random_sphere(n, **w), n, False)]:
        if nm == 'spherical_polar_improved' and n < 6:
            G.need(G.raises(lambda: list(f())), 'spherical_polar_improved(%d) accepted' % n)
            continue
        for j in ((False, True) if jit else (None,)):
            kw = {} if j is None else dict(jitter=j)
            what = '%s %s %s' % (nm, (n, a, b), kw)
            np.random.seed(seed)
            c = pts_of(f(**kw))
            np.random.seed(seed)
            p = pts_of(f(cartesian=False, **kw))
            G.need(c.shape == (num, 3), '%s: %d points, expected %d' % (what, len(c), num))
            G.need(p.shape == (num, 3), '%s: %d spherical points, expected %d' % (what, len(p), num))
            G.need(np.all(np.isfinite(c)), what + ': not finite')
            G.need_close(np.linalg.norm(c, axis=1), np.ones(num), what + ': distance', rtol=1e-12)
            G.need_close(sphere_to_cart(p), c, what + ': spherical against Cartesian', atol=1e-12)
            G.need(np.all((p[:, 2] >= -1e-12) & (p[:, 2] <= np.pi + 1e-12)), what + ': theta')
            if not j and num > 1:
                d = np.unique(np.round(c, 9), axis=0)
                G.need(len(d) == num, '%s: only %d different points' % (what, len(d)))
            if num > 50:        # the points cover the sphere
                G.need(np.linalg.norm(c.mean(0)) < (.5 if nm == 'random_sphere' else .25), what + ': one-sided %s' % c.mean(0))
    return dict(n=n, a=a, b=b)


@test('powder wavevectors', n=60)
def t3(rng, k):
    import contextlib
    import io
    from euphonic import powder
    eu = G.E()
    c = G.crystal(rng)
    sc = G.pick(rng, ['golden', 'sphere-projected-grid', 'spherical-polar-grid', 'spherical-polar-improved', 'random-sphere'])
    n = int(rng.integers(6 if 'improved' in sc else 1, 120))
    jit = bool(rng.random() < .5)
    mod = eu.ureg.Quantity(rng.uniform(.1, 5), G.pick(rng, ['1/angstrom', '1/bohr', '1/nm']))
    seen = []

    class Stop(Exception):
        pass

    class FC:
        crystal = c

        def calculate_qpoint_frequencies(self, q, **k):
            seen.append(q)
            raise Stop
        calculate_qpoint_phonon_modes = calculate_qpoint_frequencies
    with contextlib.redirect_stdout(io.StringIO()):
        for f, kw in [(powder.sample_sphere_dos, {}), (powder.sample_sphere_pdos, {}), (powder.sample_sphere_structure_factor, dict(temperature=None))]:
            try:
                f(FC(), mod, sampling=sc, npts=n, jitter=jit, **kw)
            except Stop:
                pass
    m = n if 'grid' not in sc else 2 * int(np.ceil(np.sqrt(n / 2) - 1e-12)) ** 2
    for q in seen:
        G.need(q.shape == (m, 3), '%s of %d points gave %s' % (sc, n, q.shape))
        cart = q @ c.reciprocal_cell().to('1/angstrom').magnitude
        G.need_close(np.linalg.norm(cart, axis=1), np.full(m, mod.to('1/angstrom').magnitude), '%s: |q|' % sc, rtol=1e-9)
    G.need(len(seen) == 3, 'calculations')
    return dict(scheme=sc, n=n, jitter=jit)
