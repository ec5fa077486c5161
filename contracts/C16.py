"""Kinematic constraints"""
from contracts.common import *
from contracts import gen as G
from contracts.spec import *
import numpy as np

assume('exact real arithmetic: rounding of |Q| limits at bin edges is not covered')
assume('cosine: only -1 <= cos <= 1; that cosine is continuous, monotone between multiples of pi and +-1 at them is the (trusted) mathematics behind the range contract')
FN = 'euphonic.spectra.apply_kinematic_constraints'
CR = 'euphonic.spectra._get_cos_range'
define_unit('uk', '1.3/angstrom')
define_unit('ew', '0.7 meV')
define_unit('ee', '1.9 meV')


def build(it, ex, ey):
    m = it.load('euphonic.spectra')
    x = Q(D('x', (nx + (1 if ex else 0),), mono=True), 'uk')
    y = Q(D('w', (ny + (1 if ey else 0),), mono=True), 'ew')
    return m.Spectrum2D(x, y, Q(D('z', (nx, ny)), 'uz'), x_tick_labels=[(0, 'A')], metadata={'a': 1})


@obligation('lemma: momentum transfer between the limits of the angle', [])
def o_lemma(ck):
    """Q^2 at the limits of the angle is not negative, and every |Q| between the limits is reached"""
    ki, kf, c = sym('ki', nonneg=True), sym('kf', nonneg=True), sym('c')
    with S.assuming(ble(-1, c), ble(c, 1)):
        ck.eq('Q^2 = (ki-kf)^2 + 2(1-c) ki kf', ki * ki + kf * kf - 2 * c * ki * kf, (ki - kf) * (ki - kf) + 2 * (1 - c) * ki * kf)
        ck.holds('product not negative', bge((1 - c) * ki * kf, 0))
    # intermediate values: q2lo <= q2 <= q2hi reached by a cosine within the limits
    lo, hi, q2 = sym('clo'), sym('chi'), sym('q2')
    q = lambda c: ki * ki + kf * kf - 2 * c * ki * kf
    with S.assuming(bgt(ki * kf, 0), ble(q(hi), q2), ble(q2, q(lo))):
        c = (ki * ki + kf * kf - q2) / (2 * ki * kf)
        ck.eq('cosine of |Q|', q(c), q2)
        p = sym('kk', pos=True)      # ki kf
        with S.assuming(beq(p, ki * kf)):
            ck.holds('within the limits', band(ble(2 * p * lo, ki * ki + kf * kf - q2 + 0), ble(ki * ki + kf * kf - q2, 2 * p * hi)))


def case(ck, ex, ey, which, facts, disp=False):
    it = ck.new_interp()
    seen = []
    cm, cM = sym('cosmin'), sym('cosmax')

    def cosr(a):
        seen.append(a)
        return cM, cm
    it.hooks[CR] = cosr
    m = it.load('euphonic.spectra')
    e = Q(sym('e', pos=True), 'ee')
    rng = (sym('a1'), sym('a2'))

    def f():
        o = build(it, ex, ey)
        if disp:
            it.setattr(o, 'x_data_unit', '1/bohr')
            it.setattr(o, 'y_data_unit', '1/cm')
        seen.clear()
        r = m.apply_kinematic_constraints(o, angle_range=rng, **{which: e})
        return o, r, list(seen)
    UXX, UW, UE = us('uk'), us('ew'), us('ee')
    for out in returns(ck, f):
        o, r, a = out.value
        ck.true('one angle range', len(a) == 1, len(a))
        for k in (0, 1):
            ck.eq('angle %d in radians' % k, P(A.getitem(A.lift(a[0]), k)), rng[k] * Poly.atom(T.PI) / 180)
        i, j = index_sym('i', nx), index_sym('j', ny)
        xs = lambda i: sel('x', i, mono=True) * UXX
        ws = lambda j: sel('w', j, mono=True) * UW
        wc = (ws(j) + ws(j + 1)) / 2 if ey else ws(j)
        E = sym('e', pos=True) * UE
        Ei, Ef = (E, E - wc) if which == 'e_i' else (wc + E, E)
        k2 = us('neutron_mass') * 2 / us('hbar') ** 2
        ck.same_shape('shape', r._z_data, (nx, ny))
        ck.true('unit', r.z_data.u == o.z_data.u and r._internal_z_data_unit == o._internal_z_data_unit)
        z = sel('z', i, j)
        nan = Poly.atom(T.Sym('NAN', 'real'))
        cases = [('energy impossible', bor(blt(Ei, 0), blt(Ef, 0)))]
        got = r._z_data.at(i, j) * uscale(r.z_data.u)
        ck.eq('input unchanged', o._z_data.at(i, j), z)
        for nm, fact in (('impossible energy', blt(Ef if which == 'e_i' else Ei, 0)),):
            with S.assuming(fact):
                ck.eq(nm, got, nan * uscale(r.z_data.u))
        other = Ef if which == 'e_i' else Ei
        with S.assuming(bge(other, 0)):
            ki, kf = (k2 * Ei).power(Fr(1, 2)), (k2 * Ef).power(Fr(1, 2))
            q2 = lambda c: k2 * Ei + k2 * Ef - 2 * c * ki * kf
            for nm, c in (('cosmax', cM), ('cosmin', cm)):
                S.CTX.push(bge(q2(c), 0))        # lemma above
            if ex:
                e0, e1 = xs(i), xs(i + 1)
                cs = [('', [])]
            else:
                cs = None
            q = lambda c: q2(c).power(Fr(1, 2))
            edges = o.get_bin_edges(bin_ax='x')
            su = uscale(edges.u)
            e0, e1 = edges.m.at(i) * su, edges.m.at(i + 1) * su
            blank = bor(blt(e1, q(cM)), blt(q(cm), e0)).poly()
            want = blank * nan + (1 - blank) * z
            ck.eq('blanked exactly where no angle reaches the bin', got, want * uscale(r.z_data.u))
        ck.true('tick labels', r.x_tick_labels == [(0, 'A')])
        ck.true('metadata', r.metadata == {'a': 1})
        for nm, q_, src in (('x', r.x_data, o.x_data), ('y', r.y_data, o.y_data)):
            ck.true(nm + ' unit', q_.u == src.u)
            ck.same_shape(nm + ' shape', q_.m, src.m.vshape)
            t = index_sym('t', src.m.vshape[0])
            ck.eq(nm + ' axis', q_.m.at(t), src.m.at(t))


from fractions import Fraction as Fr
for ex in (True, False):
    for ey in (True, False):
        for which in ('e_i', 'e_f'):
            for disp in (False, True):
                @obligation('mask %s %s %s%s' % (which, 'ex' if ex else 'cx', 'ey' if ey else 'cy', ' redisplayed' if disp else ''), [FN])
                def _(ck, a=(ex, ey, which, None, disp)):
                    case(ck, *a)


# ---------------------------------------------------------------- range of the cosine
@obligation('cosine range', [CR])
def o_cos(ck):
    """angles 2 pi ta, 2 pi tb in any order; exact statement: the result are the largest and smallest of cos at the two
    angles, of +1 if a multiple of 2 pi lies strictly between them and of -1 if an odd multiple of pi does"""
    it = ck.new_interp()
    m = it.load('euphonic.spectra')
    pi2 = Poly.atom(T.PI) * 2
    t0, d = sym('t'), sym('d', pos=True)
    u, v = sym('u'), sym('v', pos=True)
    now = {}

    def cosv(x):
        for a, c in now['cos']:
            if P(x) == a:
                return c
        raise X.Unsupported('cosine of %s' % x)
    N.HOOKS['cos'] = lambda a: A.lift([cosv(P(A.getitem(a, i))) for i in range(A.conc(a.vshape[0]))]) if isinstance(a, A.Arr) else cosv(P(a))
    cases = [('first smaller', t0, t0 + d), ('first larger', t0 + d, t0), ('same angle', t0, t0)]
    coss = [('rising', u, u + v), ('falling', u + v, u), ('level', u, u)]
    for oname, ta, tb, cname, c0, c1 in [x + y for x in cases for y in coss if x[0] != 'same angle' or y[0] == 'level']:
        A0, A1 = pi2 * ta, pi2 * tb
        now['cos'] = [(A0, c0), (A1, c1)]
        ck.prefix = '%s, cosine %s: ' % (oname, cname)
        lo, hi = (tb, ta) if oname == 'first larger' else (ta, tb)
        facts = []
        n = S.CTX.mark()
        for x in facts:
            S.CTX.push(x)
        for x in (c0, c1):
            S.CTX.push(ble(-1, x))
            S.CTX.push(ble(x, 1))

        def f():
            return m._get_cos_range(A.lift([A0, A1]))
        for out in returns(ck, f, max_paths=200):
            mx, mn = (P(x) for x in out.value)
            f0 = S.floor(lo)
            # floor facts: f0 <= lo < f0 + 1
            j = sym('j', 'int')
            facts_ = [ble(f0, lo), blt(lo, f0 + 1)]
            with S.assuming(*facts_):
                # no multiple strictly inside: ends decide
                for inside_p, nmp in ((True, 'crest inside'), (False, 'no crest inside')):
                    for inside_m, nmm in ((True, 'trough inside'), (False, 'no trough inside')):
                        # 2 pi (f0+1) is the first crest above lo; the first trough above lo is pi(2 f0+1) or pi (2 f0+3)
                        crest = blt(f0 + 1, hi)
                        half = Poly.const(1) / 2 if hasattr(Poly, 'const') else const(1) / 2
                        trough = bor(band(blt(lo, f0 + half), blt(f0 + half, hi)), band(ble(f0 + half, lo), blt(f0 + half + 1, hi)))
                        # (a trough exactly at lo contributes through cos(lo))
                        with S.assuming(crest if inside_p else T.bnot(crest), trough if inside_m else T.bnot(trough)):
                            nm = nmp + ', ' + nmm
                            # order-free statement of maximum / minimum
                            if inside_p:
                                ck.holds(nm + ': largest', beq(mx, 1))
                            else:
                                ck.holds(nm + ': largest bounds', band(bge(mx, c0), bge(mx, c1)))
                                ck.holds(nm + ': largest attained', bor(beq(mx, c0), beq(mx, c1)))
                            if inside_m:
                                ck.holds(nm + ': smallest', beq(mn, -1))
                            else:
                                ck.holds(nm + ': smallest bounds', band(ble(mn, c0), ble(mn, c1)))
                                ck.holds(nm + ': smallest attained', bor(beq(mn, c0), beq(mn, c1)))
        S.CTX.reset(n)
    ck.prefix = ''


@obligation('lemma: crests and troughs', [])
def o_crest(ck):
    """the first crest (integer) above lo is floor(lo)+1, the first trough (half-integer) is floor(lo)+1/2 or +3/2"""
    lo, hi = sym('tlo'), sym('thi')
    k = sym('k', 'int')
    f0 = S.floor(lo)
    half = const(1) / 2
    with S.assuming(ble(f0, lo), blt(lo, f0 + 1), ble(lo, hi)):
        with S.assuming(blt(lo, k), blt(k, hi)):
            ck.holds('beyond the floor', bgt(k, f0))
            with S.assuming(bge(k, f0 + 1)):
                ck.holds('a crest inside means the first one is', blt(f0 + 1, hi))
        with S.assuming(blt(lo, k + half), blt(k + half, hi)):
            ck.holds('at or beyond the floor', bgt(k + 1, f0))
            with S.assuming(bge(k, f0)):
                with S.assuming(blt(lo, f0 + half)):
                    ck.holds('first half: the first trough is inside', blt(f0 + half, hi))
                with S.assuming(ble(f0 + half, lo)):
                    ck.holds('second half: not that one', bgt(k, f0))
                    with S.assuming(bge(k, f0 + 1)):
                        ck.holds('second half: the next trough is inside', blt(f0 + half + 1, hi))


# ---------------------------------------------------------------- differential: scan of the scattering angles
def scan(angles):
    """cosines of all angles of the range, turning points included"""
    lo, hi = min(angles), max(angles)
    a = np.concatenate([[lo, hi], np.linspace(lo, hi, 41), [180 * n for n in range(int(lo // 180), int(hi // 180) + 2) if lo <= 180 * n <= hi]])
    return np.cos(np.deg2rad(a))


@test('blanked bins', n=220, n_thorough=1500)
def t_mask(rng, k):
    from euphonic import Spectrum2D
    from euphonic.spectra import apply_kinematic_constraints
    eu = G.E()
    Qy = eu.ureg.Quantity
    ex, ey = rng.random() < .5, rng.random() < .5
    n, m = int(rng.integers(2, 25)), int(rng.integers(2, 20))
    q0 = rng.uniform(.5, 8)
    xe = np.cumsum(rng.uniform(.02, 1, n + 1)) / n * q0 if rng.random() < .5 else np.linspace(0, q0, n + 1) + rng.choice([0, .03])
    E0 = rng.uniform(2, 120)
    ye = np.linspace(*np.sort(rng.uniform(-1.3, 1.3, 2)) * E0 + [0, 1.], m + 1) if rng.random() < .7 else np.sort(rng.uniform(-1.2 * E0, 1.2 * E0, m + 1))
    if k % 5 == 0:      # an elastic column, exactly
        ye = ye - (ye[m // 2] if not ey else (ye[m // 2] + ye[m // 2 + 1]) / 2)
    x = Qy(xe if ex else (xe[1:] + xe[:-1]) / 2, '1/angstrom').to(G.pick(rng, ['1/angstrom', '1/bohr', '1/nm']))
    y = Qy(ye if ey else (ye[1:] + ye[:-1]) / 2, 'meV').to(G.pick(rng, ['meV', '1/cm', 'THz', 'hartree']), 'spectroscopy')
    z = rng.normal(size=(n, m))
    if rng.random() < .3:
        z[rng.random(z.shape) < .1] = np.nan
    o = Spectrum2D(x, y, Qy(z, 'mbarn'), x_tick_labels=[(0, 'G')], metadata={'a': 'b'})
    if rng.random() < .5:
        o.x_data_unit = G.pick(rng, ['1/angstrom', '1/bohr'])
    if rng.random() < .5:
        o.y_data_unit = G.pick(rng, ['meV', '1/cm'])
    ref = o.copy()
    mode = k % 6
    if mode == 0:
        ang = (0., 180.)
    elif mode == 1:
        ang = tuple(np.sort(rng.uniform(0, 180, 2)))
    elif mode == 2:
        ang = tuple(rng.uniform(-360, 360, 2))
    elif mode == 3:
        ang = tuple(rng.uniform(0, 720, 2))
    elif mode == 4:
        c = 180 * int(rng.integers(-4, 5))
        ang = tuple(sorted([c - rng.uniform(.1, 60), c + rng.uniform(.1, 60)], reverse=bool(rng.integers(2))))
    else:
        a = rng.uniform(0, 180)
        ang = (a, a)
    which = 'e_i' if rng.random() < .5 else 'e_f'
    kw = {} if mode == 0 and rng.random() < .5 else dict(angle_range=ang)
    r = apply_kinematic_constraints(o, **{which: Qy(E0, 'meV').to(G.pick(rng, ['meV', 'eV', '1/cm']), 'spectroscopy')}, **kw)
    G.need(r is not o, 'same object')
    G.same_spec(o, ref, 'input')
    G.need((np.isnan(o.z_data.magnitude) == np.isnan(z)).all(), 'input')
    G.same_spec(r, ref, 'result', data=False)
    G.need(r.z_data.units == o.z_data.units, 'unit')
    # independent bins
    xm = o.x_data.to('1/angstrom').magnitude
    if not ex:
        xm = np.concatenate([xm[:1], (xm[1:] + xm[:-1]) / 2, xm[-1:]])
    ym = o.y_data.to('meV', 'spectroscopy').magnitude
    if ey:
        ym = (ym[1:] + ym[:-1]) / 2
    h2m = (eu.ureg('hbar**2') / eu.ureg('neutron_mass') / 2).to('meV*angstrom**2').magnitude
    cos = scan(ang)
    nb = 0
    for j in range(m):
        ei, ef = (E0, E0 - ym[j]) if which == 'e_i' else (E0 + ym[j], E0)
        oth = ef if which == 'e_i' else ei
        if abs(oth) < 1e-9 * E0:
            continue
        if oth > 0:
            q = np.sqrt(np.maximum((ei + ef - 2 * cos * np.sqrt(ei * ef)) / h2m, 0))
            lo, hi = q.min(), q.max()
        for i in range(n):
            if oth < 0:
                want = True
            else:
                tol = 1e-7 * max(1, q0) + (1e-6 if min(lo, hi) < 1e-4 else 0)
                if abs(xm[i + 1] - lo) < tol or abs(xm[i] - hi) < tol:
                    continue
                want = bool(xm[i + 1] < lo or xm[i] > hi)
            got = np.isnan(r.z_data.magnitude[i, j])
            nb += want
            if want:
                G.need(got, 'bin %d %d (|Q| %g..%g, energy %g) should be blank: %s=%g angles %s' % (i, j, xm[i], xm[i + 1], ym[j], which, E0, ang))
            else:
                G.need(got == np.isnan(z[i, j]), 'bin %d %d (|Q| %g..%g, energy %g) blanked: %s=%g angles %s' % (i, j, xm[i], xm[i + 1], ym[j], which, E0, ang))
                if not got:
                    G.need(abs(r.z_data.magnitude[i, j] - z[i, j]) < 1e-12, 'value changed')
    return dict(blank=int(nb), of=n * m, mode=mode)


@test('range of the cosine', n=200, n_thorough=2000)
def t_cos(rng, k):
    from euphonic.spectra import _get_cos_range
    a = rng.uniform(-12, 12, 2) if k % 2 else np.pi * int(rng.integers(-4, 5)) + rng.uniform(-1, 1, 2) * rng.choice([.01, 1, 7])
    mx, mn = _get_cos_range(a)
    c = scan(np.rad2deg(a))
    G.need(abs(mx - c.max()) < 1e-9 and abs(mn - c.min()) < 1e-9, 'angles %s: cosine %s..%s, expected %s..%s' % (a, mn, mx, c.min(), c.max()))
    return dict(a=list(a))
