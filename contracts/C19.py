"""band-path axes, labels and break points"""
from contracts.common import *
from contracts import gen as G
from engine import arr as A
import numpy as np
from fractions import Fraction as Fr

nq = dim('nq')
define_unit('urec', '0.83 / angstrom')


def qarr_(n):
    return decl_arr('q', (n, 3))


def q(i, a):
    return sel('q', i, a)


@obligation('path coordinate', ['util._calc_abscissa'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.util')
    rec = Q(decl_arr('b', (3, 3)), 'urec')
    for nm, n in (('one point/', const(1)), ('several points/', nq + 1)):
        ck.prefix = nm
        for o in returns(ck, lambda: m._calc_abscissa(rec, qarr_(n))):
            x = o.value
            ck.same_shape('one value per q-point', x.m, (n,))
            ck.true('units', str(x.u) == 'urec', str(x.u))
            ck.eq('starts at zero', x.m.at(const(0)), const(0))
            if nm[0] == 'o':
                continue
            k = index_sym('k', nq)
            xa, xc = index_sym('xa', 3), index_sym('xc', 3)

            def d(a):
                return q(k + 1, a) - q(k, a)
            cart = mk_sum('xa', 0, 3, d(xa) * sel('b', xa, xc))
            length = mk_sum('xc', 0, 3, cart * cart).power(Fr(1, 2))
            tol = const('0.001')
            rem = mk_sum('xa', 0, 3, fabs(d(xa) - S.rint(d(xa))))
            tot = mk_sum('xa', 0, 3, fabs(d(xa)))
            step = T.peel_sums(x.m.at(k + 1), k + 2) - x.m.at(k)
            jump = band(blt(tol, tot), blt(rem, tol))
            ck.eq('step: Cartesian length, none across a jump by a lattice vector', step, bnot(jump).poly() * length)
            ck.holds('never decreases', ble(const(0), step))


@obligation('direction changes', ['util.direction_changed'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.util')
    k = index_sym('k', nq)
    n = nq + 2
    xa = index_sym('xa', 3)

    def vec(i):
        return q(i + 1, xa) - q(i, xa)
    for o in returns(ck, lambda: m.direction_changed(qarr_(n))):
        ck.same_shape('one value per interior q-point', o.value, (nq,))
        ch = asB_(o.value.at(k))
        dot = mk_sum('xa', 0, 3, vec(k) * vec(k + 1))
        prod = mk_sum('xa', 0, 3, vec(k) * vec(k)).power(Fr(1, 2)) * mk_sum('xa', 0, 3, vec(k + 1) * vec(k + 1)).power(Fr(1, 2))
        with S.assuming(blt(const(0), prod), ble(fabs(dot), prod * const('0.989'))):
            ck.holds('a corner of more than 9 degrees is found', ch)
    # straight: the next step is t times this one
    t = sym('t')
    d = [sym('d%d' % a) for a in range(3)]
    o_ = [sym('o%d' % a) for a in range(3)]
    for nm, tt in (('forwards', sym('tp', nonneg=True)), ('backwards', -sym('tp', nonneg=True))):
        rows = [o_, [o_[a] + d[a] for a in range(3)], [o_[a] + d[a] + tt * d[a] for a in range(3)]]
        for o in returns(ck, lambda: m.direction_changed(A_(rows))):
            ck.same_shape('one value', o.value, (const(1),))
            ck.holds('a straight path has no corner, ' + nm, bnot(asB_(o.value.at(const(0)))))


def asB_(p):
    return X.asB(p)


def A_(rows):
    return lift([[P(x) for x in r] for r in rows])


def lab(x, y, z):
    return T.ArrDecl('lab', 3, 'int')(x, y, z)


@obligation('labelled q-points', ['util._recip_space_labels', 'util.get_qpoint_labels', 'util.is_gamma'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.util')
    dch = decl_arr('dch', (nq,), 'b')
    it.hooks['euphonic.util.direction_changed'] = lambda qpts, *a: dch
    it.hooks['euphonic.util._get_qpt_label'] = lambda qpt, pl: lab(*[qpt.at(const(a)) for a in range(3)])
    A.OPTS['enum_where'] = True
    N.HOOKS['around'] = lambda x, decimals=0: x
    n = nq + 2
    for o in returns(ck, lambda: m.get_qpoint_labels(qarr_(n))):
        v = o.value
        ck.true('list of pairs', isinstance(v, X.SymSeq), repr(type(v)))
        ck.true('one enumeration', len(A.ENUMS) >= 1)
        e = A.ENUMS[-1]
        idx, pos, mask = e
        ck.eq('as many labels as labelled q-points', v.n, idx.vshape[0])
        i = index_sym('i', idx.vshape[0])
        ix, l = v.item(i)
        ck.eq('label i belongs to q-point', P(ix), idx.at(i))
        # completeness
        for nm, kk in (('first', const(0)), ('last', n - 1)):
            ck.holds(nm + ' q-point labelled', X.asB(mask.at(kk)))
        k = index_sym('k', nq)
        xa = index_sym('xa', 3)
        with S.assuming(X.asB(dch.at(k))):
            ck.holds('corner labelled', X.asB(mask.at(k + 1)))
        g = mk_sum('xa', 0, 3, fabs(q(k + 1, xa) - S.rint(q(k + 1, xa))))
        with S.assuming(beq(g, 0)):
            ck.holds('zone centre labelled', X.asB(mask.at(k + 1)))
    ck.prefix = 'short path/'
    for n in (1, 2):
        for o in returns(ck, lambda: m.get_qpoint_labels(qarr_(n))):
            ck.true('every q-point labelled, in order (%d)' % n, [P(i).cval() for i, _ in o.value] == list(range(n)), repr(o.value))


NAMES = ['', 'A', 'GAMMA', 'B']


@obligation('break points', ['cli.utils._get_break_points'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.cli.utils')
    A.OPTS['enum_where'] = True
    n = nq + 1
    labels = decl_arr('lb', (n,), 's')
    for o in returns(ck, lambda: m._get_break_points({'explicit_kpoints_labels': X.SymSeq(n, 'li', sel('lb', index_sym('li', n), kind='s')) if 0 else labels.tolist()})):
        v = o.value
        e = A.ENUMS[-1]
        idx, pos, mask = e
        v = lift(v)
        ck.same_shape('one per break', v, (idx.vshape[0],))
        i = index_sym('i', idx.vshape[0])
        ck.eq('break between points i-1 and i', v.at(i), idx.at(i) + 1)
        k = index_sym('k', nq)
        a, b = labels.at(k), labels.at(k + 1)
        want = band(bnot(beq(a, 0)), bnot(beq(b, 0)), bnot(beq(a, b)))
        ck.eq('breaks exactly where two different labelled points adjoin', mask.at(k), want.poly())
        ck.same_shape('every pair of neighbours', mask, (nq,))


@obligation('tick labels', ['cli.utils._get_tick_labels'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.cli.utils')
    A.OPTS['enum_where'] = True
    labels = decl_arr('lb', (nq,), 's')
    for o in returns(ck, lambda: m._get_tick_labels({'explicit_kpoints_labels': labels.tolist()})):
        v = o.value
        e = A.ENUMS[-1]
        idx, pos, mask = e
        ck.true('list of pairs', isinstance(v, X.SymSeq), repr(type(v)))
        ck.eq('one per labelled point', v.n, idx.vshape[0])
        i = index_sym('i', idx.vshape[0])
        ix, l = v.item(i)
        ck.eq('position', P(ix), idx.at(i))
        raw = labels.at(idx.at(i))
        ck.eq('label', P(A.strcode(l) if isinstance(l, str) else l), T.ite(beq(raw, A.strcode('GAMMA')), A.strcode('$\\Gamma$'), raw))
        k = index_sym('k', nq)
        ck.eq('exactly the labelled points', mask.at(k), bnot(beq(labels.at(k), 0)).poly())


@obligation('axis and labels of the data', ['qpoint_frequencies.QpointFrequencies.get_dispersion', 'qpoint_frequencies.QpointFrequencies._get_qpt_axis_and_labels'])
def _(ck):
    it = ck.new_interp()
    m = it.load('euphonic.qpoint_frequencies')
    nb = dim('nb')
    seen = {}
    rec = Q(decl_arr('b', (3, 3)), 'urec')
    it.hooks['euphonic.crystal.Crystal.reciprocal_cell'] = lambda self: rec
    it.hooks['euphonic.crystal.Crystal.to_spglib_cell'] = lambda self: 'CELL'
    ab = Q(decl_arr('abs', (nq,)), 'urec')
    labels = [(0, 'A'), (1, 'B')]

    def calc(r, qp):
        seen['calc'] = (r, qp)
        return ab

    def lbl(qp, cell=None):
        seen['lab'] = (qp, cell)
        return list(labels)
    it.hooks['euphonic.util._calc_abscissa'] = calc
    it.hooks['euphonic.util.get_qpoint_labels'] = lbl
    for nm in ('get_dispersion', '_get_qpt_axis_and_labels'):
        ck.prefix = nm + '/'
        seen.clear()

        def run():
            o = m.QpointFrequencies(crystal(it, dim('n')), decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * dim('n'))), 'ufreq'))
            return getattr(o, nm)()
        for o in returns(ck, run):
            ck.true('own reciprocal cell', seen['calc'][0] is rec)
            ck.arr('own q-points (coordinate)', seen['calc'][1], (nq, 3), lambda i, a: q(i, a))
            ck.arr('own q-points (labels)', seen['lab'][0], (nq, 3), lambda i, a: q(i, a))
            ck.true('cell given to the labels', seen['lab'][1] == 'CELL')
            if nm == 'get_dispersion':
                i, b = index_sym('i', nq), index_sym('b', 3 * dim('n'))
                s = o.value
                ck.eq('coordinate kept', s.x_data.m.at(i) * uscale(s.x_data.u), ab.m.at(i) * us('urec'))
                ck.true('labels kept', list(s.x_tick_labels) == labels, repr(s.x_tick_labels))
                ck.eq('frequency of mode b at q-point i', s.y_data.m.at(b, i) * uscale(s.y_data.u), sel('f', i, b) * us('ufreq'))
            else:
                ck.eq('coordinate kept', o.value[0].m.at(i), ab.m.at(i))
                ck.true('labels kept', list(o.value[1]) == labels)


LENGTHS = (2, 3, 4, 5, 6)


@obligation('duplicated zone centres', ['cli.utils._insert_gamma'], bounded='paths of at most 6 points, every pattern of zone-centre labels')
def _(ck):
    import itertools
    it = ck.new_interp()
    m = it.load('euphonic.cli.utils')
    for n in LENGTHS:
        for pat in itertools.product((0, 1), repeat=n):
            ck.prefix = 'path %s/' % ''.join('xG'[p] for p in pat)
            lb = ['GAMMA' if p else ('L%d' % i if i % 2 else '') for i, p in enumerate(pat)]
            bp = {'explicit_kpoints_labels': list(lb),
                  'explicit_kpoints_rel': mk((n, 3), lambda i, a: T.ite(T.bor(*[beq(i, k) for k in range(n) if pat[k]]), const(0), q(i, a)) if any(pat) else q(i, a), 'f')}
            for o in returns(ck, lambda: m._insert_gamma(bp)):
                want = []
                for i, p in enumerate(pat):
                    want += [i] * (2 if p and 0 < i < n - 1 else 1)
                ck.true('labels', bp['explicit_kpoints_labels'] == [lb[i] for i in want], repr(bp['explicit_kpoints_labels']))
                k = lift(bp['explicit_kpoints_rel'])
                ck.same_shape('as many q-points as labels', k, (len(want), 3))
                a = index_sym('a', 3)
                for j, i in enumerate(want):
                    ck.eq('q-point %d' % j, k.at(const(j), a), const(0) if pat[i] else q(const(i), a))


# ------------------------------------------------------------ tests against the real code
def poly_path(rng, dense=None):
    """polyline through random corners; zone centres, lattice jumps, repeated points"""
    pts = []
    corners = [rng.integers(-2, 3, 3) / G.pick(rng, [1, 2, 3, 4]) for _ in range(int(rng.integers(2, 6)))]
    step = int(G.pick(rng, [2, 3, 7, 40, 400] if dense is None else [dense]))
    for a, b in zip(corners[:-1], corners[1:]):
        if np.allclose(a, b):
            continue
        t = np.arange(step)[:, None] / step
        pts.append(a + t * (b - a))
        u = rng.random()
        if u < .25:
            pts.append([b, b])
        elif u < .4:
            pts.append([b])
    pts.append([corners[-1] + (1e-3 if len(pts) == 0 else 0)])
    q = np.vstack(pts)
    if rng.random() < .3:
        k = int(rng.integers(1, len(q) + 1))
        q[k:] += rng.integers(-2, 3, 3)
    return q


@test('path coordinate', n=60)
def t1(rng, k):
    from euphonic.util import _calc_abscissa
    eu = G.E()
    c = G.crystal(rng)
    q = poly_path(rng)
    if k % 7 == 0:
        q = q[:1]
    elif len(q) > 2 and rng.random() < .6:             # a jump by a reciprocal lattice vector, up to rounding
        i = int(rng.integers(1, len(q)))
        g = rng.integers(-2, 3, 3)
        q = q.copy()
        q[i:] += q[i - 1] + g + rng.uniform(-1, 1, 3) * 10. ** -int(rng.integers(5, 16)) - q[i]
    rec = c.reciprocal_cell().to(G.pick(rng, ['1/angstrom', '1/bohr', '1/nm']))
    x = _calc_abscissa(rec, q)
    want = [0.]
    for i in range(1, len(q)):
        d = q[i] - q[i - 1]
        # tolerance of 0.001 as in the contract; the paths keep away from it
        jump = np.abs(d).sum() > 1e-3 and np.abs(d - np.rint(d)).sum() < 1e-3
        want.append(want[-1] + (0 if jump else np.linalg.norm(d @ rec.magnitude)))
    G.need(x.units == rec.units, 'units %s' % x.units)
    G.need(x.shape == (len(q),), 'shape %s' % (x.shape,))
    G.need_close(x.magnitude, want, 'coordinate', atol=1e-9 * (1 + want[-1]))
    return dict(nq=len(q))


def must_label(q):
    out = {0, len(q) - 1}
    for i in range(1, len(q) - 1):
        a, b = q[i] - q[i - 1], q[i + 1] - q[i]
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if na > 1e-9 and nb > 1e-9 and abs(a @ b) < .97 * na * nb:
            out.add(i)
        if np.all(q[i] == np.rint(q[i])):
            out.add(i)
    return out


@test('labels', n=60)
def t2(rng, k):
    from euphonic.util import get_qpoint_labels
    q = poly_path(rng)
    cell = None
    if k % 3 == 0:
        cell = G.crystal(rng, plain=True).to_spglib_cell()
    if k % 11 == 0:
        q = q[:1 + k % 2]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        lb = get_qpoint_labels(q, cell=cell)
    idx = [i for i, _ in lb]
    G.need(all(type(i) is int for i in idx), 'types')
    G.need(all(0 <= i < len(q) for i in idx), 'labels of q-points that do not exist: %s' % idx)
    G.need(all(a < b for a, b in zip(idx, idx[1:])), 'order %s' % idx)
    miss = must_label(q) - set(idx)
    G.need(not miss, 'q-points without label: %s of %s' % (sorted(miss)[:5], len(q)))
    G.need(all(isinstance(s, str) for _, s in lb), 'label types')
    if len(q) > 2 and any(s for _, s in lb) and not any('[' in s for _, s in lb) and cell is None:
        for i, s in lb:
            if np.all(q[i] == np.rint(q[i])):
                G.need(s in ('0 0 0', '$\\Gamma$'), 'label %r of %s' % (s, q[i]))
    return dict(nq=len(q), labels=[str(s) for _, s in lb][:6])


@test('band path helpers', n=80)
def t3(rng, k):
    from euphonic.cli.utils import _insert_gamma, _get_break_points, _get_tick_labels
    n = int(rng.integers(2, 14))
    lb = [G.pick(rng, ['', '', 'GAMMA', 'X', 'L']) for _ in range(n)]
    q = rng.normal(size=(n, 3))
    for i in range(n):
        if lb[i] == 'GAMMA':
            q[i] = 0
    bp = dict(explicit_kpoints_labels=list(lb), explicit_kpoints_rel=q.copy())
    if k % 2:
        _insert_gamma(bp)
        w = [i for i in range(n) for _ in range(2 if lb[i] == 'GAMMA' and 0 < i < n - 1 else 1)]
        G.need(bp['explicit_kpoints_labels'] == [lb[i] for i in w], 'labels %s -> %s' % (lb, bp['explicit_kpoints_labels']))
        G.need(np.array_equal(bp['explicit_kpoints_rel'], q[w]), 'q-points')
    l2 = bp['explicit_kpoints_labels']
    want = [i for i in range(1, len(l2)) if l2[i] and l2[i - 1] and l2[i] != l2[i - 1]]
    got = _get_break_points(bp)
    G.need(list(got) == want, 'break points of %s: %s' % (l2, got))
    t = _get_tick_labels(bp)
    G.need([(int(i), s) for i, s in t] == [(i, '$\\Gamma$' if s == 'GAMMA' else s) for i, s in enumerate(l2) if s], 'ticks of %s: %s' % (l2, t))
    return dict(labels=l2)


@test('bands', n=6)
def t4(rng, k):
    import contextlib
    import io
    import warnings
    import seekpath
    from euphonic.cli.utils import _bands_from_force_constants
    eu = G.E()
    fc = G.force_constants(rng, n=int(rng.integers(2, 4)))
    qd = eu.ureg.Quantity(float(rng.uniform(.2, .6)), '1/angstrom').to(G.pick(rng, ['1/angstrom', '1/bohr']))
    ins = bool(k % 2)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        bp = seekpath.get_explicit_k_path(fc.crystal.to_spglib_cell(), reference_distance=qd.to('1/angstrom').magnitude)
        modes, ticks, split = _bands_from_force_constants(fc, qd, insert_gamma=ins, frequencies_only=bool(k // 2 % 2), use_c=False)
        disp = modes.get_dispersion()
    lb, q = bp['explicit_kpoints_labels'], bp['explicit_kpoints_rel']
    n = len(lb)
    w = [i for i in range(n) for _ in range(2 if ins and lb[i] == 'GAMMA' and 0 < i < n - 1 else 1)]
    G.need_close(modes.qpts, q[w], 'q-points of the path', atol=1e-9)
    l2 = [lb[i] for i in w]
    G.need([(int(i), s) for i, s in ticks] == [(i, '$\\Gamma$' if s == 'GAMMA' else s) for i, s in enumerate(l2) if s], 'ticks')
    G.need(list(split['indices']) == [i for i in range(1, len(l2)) if l2[i] and l2[i - 1] and l2[i] != l2[i - 1]], 'break points')
    x = disp.x_data.magnitude
    G.need(len(x) == len(w) and x[0] == 0 and np.all(np.diff(x) >= 0), 'coordinate')
    d = np.diff(q[w], axis=0)
    jump = (np.abs(d).sum(1) > 1e-3) & (np.abs(d - np.rint(d)).sum(1) < 1e-3)
    G.need_close(np.diff(x), np.where(jump, 0, np.linalg.norm(d @ fc.crystal.reciprocal_cell().to(disp.x_data.units).magnitude, axis=1)), 'steps', atol=1e-7)
    for i, s in disp.x_tick_labels:
        G.need(0 <= i < len(w), 'dispersion label %s' % i)
    G.need(must_label(q[w]) <= {i for i, _ in disp.x_tick_labels}, 'missing labels')
    return dict(nq=len(w))
