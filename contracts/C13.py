"""Crystal geometry: reciprocal cell, volume, Monkhorst-Pack grid, Cartesian to fractional"""
from engine.api import *
from contracts import gen as G
import numpy as np

assume('spacing components: the coarsest grid obligation is over exact reals; a spacing within one rounding error of an '
       'exact divisor is not distinguished')

define_unit('ulen', '1.37 angstrom')
define_unit('umass', '3.1 amu')
define_unit('ulen2', '0.77 angstrom')


def crystal(it, n=None):
    """a crystal with symbolic cell, any unit, either handedness"""
    cr = it.load('euphonic.crystal')
    n = dim('n') if n is None else n
    cv = decl_arr('cell', (3, 3))
    return cr.Crystal(Q(cv, 'ulen'), decl_arr('r', (n, 3)), decl_arr('types', (n,), 's'), Q(decl_arr('m', (n,)), 'umass')), cv


def with_volume(cv):
    det = N.det3(lambda i, j: cv.at(i, j))
    return det


@obligation('reciprocal_cell', ['euphonic.crystal.Crystal.reciprocal_cell', 'euphonic.crystal.Crystal.cell_volume'])
def o1(ck):
    it = ck.new_interp()
    for o in returns(ck, lambda: rc_all(it)):
        rc, vol, cv, unit, vu = o.value
        with S.assuming(bne(with_volume(cv), 0)):
            i, j = index_sym('i', 3), index_sym('j', 3)
            ck.true('unit', rc.u == U.as_unit('1/ulen'), '%s' % rc.u)
            ck.same_shape('shape', rc.m, (3, 3))
            k = index_sym('k', 3)
            # a_i . b_j = 2 pi delta_ij in the reported units
            dot = mk_sum('k', 0, 3, cv.at(i, k) * uscale(U.as_unit('ulen')) * rc.m.at(j, k) * uscale(rc.u))
            ck.eq('a_i.b_j = 2 pi delta_ij', dot, 2 * PI * beq(i, j).poly())
            ck.eq('volume = magnitude of the triple product', P(vol.m) * uscale(vol.u), fabs(with_volume(cv)) * uscale(U.as_unit('ulen')) ** 3)
            ck.true('volume unit', vol.u == vu ** 3, vol.u)


def rc_all(it):
    c, cv = crystal(it)
    return c.reciprocal_cell(), c.cell_volume(), cv, c.cell_vectors.u, U.as_unit('ulen')


@obligation('display unit', ['euphonic.crystal.Crystal.reciprocal_cell', 'euphonic.crystal.Crystal.cell_volume'])
def o1b(ck):
    it = ck.new_interp()

    def f():
        c, cv = crystal(it)
        a, v = c.reciprocal_cell(), c.cell_volume()
        c.cell_vectors_unit = 'ulen2'
        return a, v, c.reciprocal_cell(), c.cell_volume(), cv
    for o in returns(ck, f):
        a, v, a2, v2, cv = o.value
        with S.assuming(bne(with_volume(cv), 0)):
            i, j = index_sym('i', 3), index_sym('j', 3)
            ck.eq('volume unchanged', P(v.m) * uscale(v.u), P(v2.m) * uscale(v2.u))
            ck.eq('reciprocal cell unchanged', a.m.at(i, j) * uscale(a.u), a2.m.at(i, j) * uscale(a2.u))
            ck.true('unit follows', a2.u == U.as_unit('1/ulen2') and v2.u == U.as_unit('ulen2**3'), (a2.u, v2.u))


def by_contract():
    """the reciprocal cell as its callers see it: any three independent vectors in inverse length units"""
    b = decl_arr('b', (3, 3))
    return b, lambda self: Q(b.copy(), 'ub')


define_unit('ub', '1.9/nm')
define_unit('uq', '1.2/angstrom')


@obligation('grid spec', ['euphonic.crystal.Crystal.get_mp_grid_spec'])
def o2(ck):
    it = ck.new_interp()
    b, h = by_contract()
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = h

    def f():
        c, cv = crystal(it)
        s = sym('spacing', pos=True)
        return c.get_mp_grid_spec(Q(s, 'uq')), s
    for o in returns(ck, f):
        spec, s = o.value
        ck.true('three numbers', isinstance(spec, tuple) and len(spec) == 3, type(spec))
        for i in range(3):
            nb = sum((b.at(i, k) * uscale(U.as_unit('ub'))) ** 2 for k in range(3)).power(T.Fr(1, 2))
            # n is the smallest integer with |b_i| / n <= spacing
            ck.eq('coarsest grid not above the spacing.%d' % i, P(spec[i]), S.ceil(nb / (s * uscale(U.as_unit('uq')))))


@obligation('mp grid', ['euphonic.util.mp_grid'])
def o3(ck):
    it = ck.new_interp()
    ut = it.load('euphonic.util')
    n = [dim('n%d' % i) for i in range(3)]
    for o in returns(ck, lambda: ut.mp_grid(tuple(n))):
        g = o.value
        ck.same_shape('exactly n0*n1*n2 points', g, (n[0] * n[1] * n[2], 3))
        i = [index_sym('i%d' % a, n[a]) for a in range(3)]
        row = (i[0] * n[1] + i[1]) * n[2] + i[2]
        for a in range(3):
            ck.eq('coordinate %d of point (i,j,k) is (2i+1-n)/2n' % a, g.at(row, a), (2 * i[a] + 1 - n[a]) / (2 * n[a]))
        # consequences used by the statement: lemmas over the closed form
    for a in range(3):
        x = lambda i: (2 * i + 1 - n[a]) / (2 * n[a])
        i, j = index_sym('i', n[a]), index_sym('j', n[a])
        ck.eq('lemma: symmetric about zero.%d' % a, x(n[a] - 1 - i), -x(i))
        ck.holds('lemma: symmetric partner exists.%d' % a, band(bge(n[a] - 1 - i, 0), blt(n[a] - 1 - i, n[a])))
        ck.eq('lemma: equally spaced.%d' % a, x(i + 1) - x(i), 1 / n[a])
        # distinct within one cell: 0 < i - j < n  =>  0 < x(i) - x(j) < 1
        with S.assuming(bgt(i - j, 0)):
            d = (i - j) / n[a]
            ck.eq('lemma: difference.%d' % a, x(i) - x(j), d)
            ck.holds('lemma: distinct modulo the lattice.%d' % a, band(bgt(i - j, 0), blt(i - j, n[a])))


@obligation('cart to frac', ['euphonic.powder._qpts_cart_to_frac'])
def o4(ck):
    it = ck.new_interp()
    pw = it.load('euphonic.powder')
    nq = dim('nq')
    b, h = by_contract()
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = h

    def f():
        c, cv = crystal(it)
        qc = decl_arr('qc', (nq, 3))
        return pw._qpts_cart_to_frac(Q(qc, 'uq'), c), qc
    for o in returns(ck, f):
        qf, qc = o.value
        ck.true('plain array', not isinstance(qf, Q))
        ck.same_shape('shape', qf, (nq, 3))
        with S.assuming(bne(with_volume(b), 0)):
            i, c = index_sym('i', nq), index_sym('c', 3)
            back = mk_sum('k', 0, 3, qf.at(i, index_sym('k', 3)) * b.at(index_sym('k', 3), c)) * uscale(U.as_unit('ub'))
            ck.eq('frac to cart gives q back', back, qc.at(i, c) * uscale(U.as_unit('uq')))


# ---------------------------------------------------------------- replay on the real code
@test('geometry', n=60)
def t1(rng, k):
    eu = G.E()
    c = G.crystal(rng)
    cv = c.cell_vectors.to('angstrom').magnitude
    rc = c.reciprocal_cell()
    G.need_close(cv @ rc.to('1/angstrom').magnitude.T, 2 * np.pi * np.eye(3), 'a.b', atol=1e-8)
    G.need(rc.units == (1 / c.cell_vectors.units), 'units of the reciprocal cell %s' % rc.units)
    G.need_close(c.cell_volume().to('angstrom**3').magnitude, abs(np.dot(cv[0], np.cross(cv[1], cv[2]))), 'volume')
    c.cell_vectors_unit = G.pick(rng, G.LEN_UNITS)
    G.need_close(c.reciprocal_cell().to('1/angstrom').magnitude, rc.to('1/angstrom').magnitude, 'after unit change')
    G.need_close(c.cell_volume().to('angstrom**3').magnitude, abs(np.dot(cv[0], np.cross(cv[1], cv[2]))), 'volume after unit change')
    # spacing; kept away from rounding ties
    for t in range(4):
        u = G.pick(rng, ['1/angstrom', '1/bohr', '1/nm'])
        s = float(np.exp(rng.uniform(np.log(0.02), np.log(4))))
        sp = eu.ureg.Quantity(s, '1/angstrom').to(u)
        ratio = np.linalg.norm(rc.to('1/angstrom').magnitude, axis=1) / s
        if np.any(np.abs(ratio - np.round(ratio)) < 1e-6):
            continue
        got = c.get_mp_grid_spec(sp)
        G.need(tuple(got) == tuple(int(x) for x in np.ceil(ratio)), 'grid spec %s for %s' % (got, ratio))
    # exact divisors: the requested spacing is met exactly; either neighbour would be wrong beyond rounding
    return dict(n=c.n_atoms, unit=str(rc.units))


@test('mp grid', n=60)
def t2(rng, k):
    from euphonic.util import mp_grid
    n = tuple(int(x) for x in rng.integers(1, 9, 3))
    if k < 8:
        n = ((k & 1) + 1, (k >> 1 & 1) + 1, (k >> 2 & 1) + 1)
    g = mp_grid(n)
    G.need(g.shape == (n[0] * n[1] * n[2], 3), 'shape %s' % (g.shape,))
    want = sorted(tuple(np.round([(2 * a + 1 - n[0]) / (2 * n[0]), (2 * b + 1 - n[1]) / (2 * n[1]), (2 * c + 1 - n[2]) / (2 * n[2])], 9))
                  for a in range(n[0]) for b in range(n[1]) for c in range(n[2]))
    G.need_close(np.array(sorted(tuple(np.round(x, 9)) for x in g)), np.array(want), 'points', atol=1e-7)
    return dict(grid=n)


@test('cart frac', n=40)
def t3(rng, k):
    from euphonic.powder import _qpts_cart_to_frac
    eu = G.E()
    c = G.crystal(rng)
    q = rng.normal(size=(int(rng.integers(1, 6)), 3)) * 3
    qf = _qpts_cart_to_frac(eu.ureg.Quantity(q, '1/angstrom').to(G.pick(rng, ['1/bohr', '1/angstrom', '1/nm'])), c)
    b = 2 * np.pi * np.linalg.inv(c.cell_vectors.to('angstrom').magnitude).T
    G.need_close(np.asarray(qf) @ b, q, 'frac to cart', atol=1e-7)
    return dict(nq=len(q))
