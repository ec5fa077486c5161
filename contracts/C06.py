"""one row per requested q-point, weights conserved"""
from contracts.fcs import *
from contracts import gen as G

assume('numpy.unique lists each distinct row once, in some order, with the inverse map')


def patterns(k):
    return list(itertools.product((False, True), repeat=k))


def groupings(gam):
    """every way the other q-points can be equivalent to each other, and every order numpy.unique may list them in: class numbers"""
    free = [i for i, g in enumerate(gam) if not g]
    k = len(free) + any(gam)
    out = set()
    for c in itertools.product(range(k), repeat=len(free)):
        for z in (range(k) if any(gam) else [None]):
            cl = [None] * len(gam)
            for i, x in zip(free, c):
                cl[i] = x
            if z is not None and z in c:
                continue
            for i, g in enumerate(gam):
                if g:
                    cl[i] = z
            used = sorted(set(cl))
            if used == list(range(len(used))):
                out.add(tuple(cl))
    return sorted(out)


def qlist(gam, cl):
    """symbolic q-points: zone centres are integers (up to the tolerance of the
    code for short lists); q-points of one class differ by integers"""
    rows = []
    rep = {}
    for i, g in enumerate(gam):
        if g and len(gam) > 2:
            r = [sel('Z', const(i), const(x), kind='i') for x in range(3)]
        elif not g and cl[i] in rep:
            r = [rep[cl[i]][x] + sel('G', const(i), const(x), kind='i') for x in range(3)]
        else:
            r = rep[cl[i]] = [sel('q', const(i), const(x)) for x in range(3)]
        rows.append(r)
    return rows


class Unique:
    """np.unique of rows of known number: rows of one class are equal; the classes are listed in the chosen order"""

    def __init__(self, rows, cl, gam):
        self.rows, self.cl, self.gam = rows, cl, gam

    def __call__(self, x, return_inverse=False, axis=None, **kw):
        if axis != 0 or not isinstance(x, A.Arr) or x.ndim != 2 or kw:
            # the distinct cell origins are not looked at here
            v = lift(x)
            return mk((dim('du'),), lambda k: sel('du', k, kind='i'), 'i'), mk((v.vshape[0],), lambda k: sel('dui', k, kind='i'), 'i')
        m = A.conc(x.vshape[0])
        got = [[x.at(const(k), const(a)) for a in range(3)] for k in range(m)]
        # the class of each row: that of the q-point it equals up to a lattice vector (a zone centre is 0)
        inv = []
        for r in got:
            c = [cl for q, cl, g in zip(self.rows, self.cl, self.gam) if (all((P(u) - v).isint() for u, v in zip(r, q)) if not g else
                                                                          all(P(u) == const(0) for u in r))]
            inv.append(c[0] if c else None)
        if None in inv:
            raise T.Unsupported('np.unique of rows that are not the q-points: %s, %s' % (got, self.rows))
        rep = {}
        for r, c in zip(got, inv):
            rep.setdefault(c, r)
        used = sorted(set(inv))
        u = A.from_nested([rep[c] for c in used])
        return (u, A.lift(rnp.array([used.index(c) for c in inv]))) if return_inverse else u


def one(ck, it, drv, gam, cl, label, **kw):
    rows = qlist(gam, cl)
    k = len(gam)
    use_c, weights = kw['use_c'], kw.pop('weights', True)
    splits = kw.get('splitting', True) and kw.get('dipole', True)
    ins = [i for i, g in enumerate(gam) if g and 0 < i < k - 1] if splits and kw.get('insert_gamma') else []
    src = [i for i in range(k) for _ in range(2 if i in ins else 1)]
    q0, w0 = A.from_nested(rows), D('w', (k,), pos=True) if weights else None
    CUR['unique'] = Unique(rows, cl, gam)
    cur = {}

    def call():
        drv.reset()
        cur['q'], cur['w'] = q0.copy(), w0.copy() if weights else None
        return drv.fresh().calculate_qpoint_phonon_modes(cur['q'], cur['w'], n_threads=1, **kw)
    with S.assuming(*[gamma(r) if g else bnot(gamma(r)) for r, g in zip(rows, gam) if not g or len(gam) < 3]):
        ck.prefix = label
        for r in returns(ck, call):
            o = r.value
            m, x, at = index_sym('m', 3 * n), index_sym('x', 3), index_sym('at', n)
            ck.same_shape('one row per q-point', o.frequencies.m, (len(src), 3 * n))
            ck.same_shape('one row per q-point (eigenvectors)', o.eigenvectors, (len(src), 3 * n, n, 3))
            ck.same_shape('one row per q-point (q-points)', o.qpts, (len(src), 3))
            for p, i in enumerate(src):
                a = drv.is_row(ck, 'frequencies of row %d' % p, o.frequencies.m.at(const(p), m) * uscale(o.frequencies.u) / us('hartree'), 'F', (m,), None, what=rows[i])
                b = drv.is_row(ck, 'eigenvectors of row %d' % p, o.eigenvectors.at(const(p), m, at, x), 'E', (m, at, x), None, what=rows[i])
                if a is not None and b is not None:
                    ck.eq('row %d split exactly at zone centres' % p, a[3], 1 if splits and gam[i] else 0)
                    ck.true('same calculation for both', all(u == v for u, v in zip(a[:7], b[:7])))
                for d in range(3):
                    ck.eq('q-point of row %d.%d' % (p, d), o.qpts.at(const(p), const(d)), rows[i][d])
                if weights:
                    ck.eq('weight of row %d' % p, lift(o.weights).at(const(p)), w0.at(const(i)) / (2 if i in ins else 1))
            if weights:
                ck.same_shape('weights', o.weights, (len(src),))
                ck.eq('total weight', sum(lift(o.weights).at(const(p)) for p in range(len(src))), sum(w0.at(const(i)) for i in range(k)))
            for i in range(k):
                for d in range(3):
                    ck.eq("caller's q-points untouched.%d.%d" % (i, d), cur['q'].at(const(i), const(d)), rows[i][d])
                if weights:
                    ck.eq("caller's weights untouched.%d" % i, cur['w'].at(const(i)), w0.at(const(i)))
    ck.prefix = ''


def hook_unique():
    CUR.setdefault('np.unique', N.SYM['unique'])
    N.HOOKS['unique'] = lambda *a, **k: CUR['unique'](*a, **k)


def family(ck, K, use_c, gams, grouped=True, **kw):
    it = ck.new_interp()
    drv = Driver(it, dirs=True)
    it.hooks['euphonic.util.get_all_origins'] = lambda *a, **k: mk((dim('nt'), 3), lambda k, x: sel('tr', k, x, kind='i'), 'i')
    base = full_obj(it, True)

    def fresh():
        o = base.__class__.__new__(base.__class__)
        o.__dict__.update(base.__dict__)
        return o
    drv.fresh = fresh
    hook_unique()
    for gam in gams:
        for ins in (False, True):
            for red in (False, True):
                gr = groupings(gam) if red else [tuple(range(K))]
                for cl in gr if grouped else gr[-1:]:
                    one(ck, it, drv, gam, cl, 'zone centres %s, insert %s, %s: ' % (''.join('.G'[g] for g in gam), ins, cl if red else 'not grouped'),
                        use_c=use_c, insert_gamma=ins, reduce_qpts=red, **kw)


BOUND = 'lists of up to 4 q-points, every pattern of zone centres and of equivalent q-points'
for K in (1, 2, 3, 4):
    for USE_C in (False, True):
        for HALF in ((False, True) if K > 2 else (None,)):
            @obligation('%d q-points, %s%s' % (K, 'C' if USE_C else 'Python', '' if HALF is None else ', first a zone centre' if HALF else ', first not a zone centre'),
                        UNDER, bounded=BOUND, limit=880, tier='quick' if K < 4 else 'thorough')
            def o1(ck, K=K, USE_C=USE_C, HALF=HALF):
                family(ck, K, USE_C, [g for g in patterns(K) if HALF is None or g[0] == HALF])


for USE_C in (False, True):
    @obligation('4 q-points, one grouping, %s' % ('C' if USE_C else 'Python'), UNDER, bounded=BOUND, limit=880)
    def o2(ck, USE_C=USE_C):
        family(ck, 4, USE_C, patterns(4) if THOROUGH else [(False, True, True, False), (True, True, False, True)], grouped=False)


@obligation('options', UNDER, bounded=BOUND)
def o3(ck):
    """no splitting without dipole terms or when switched off; no weights given"""
    for kw in (dict(splitting=False), dict(dipole=False), dict(weights=False)):
        for use_c in (False, True):
            family(ck, 3, use_c, [(True, True, True), (False, True, False)], grouped=False, **kw)


@obligation('any number of q-points', UNDER, limit=900)
def o4(ck):
    """without splitting: rows, weights and the caller's arrays, for lists of any length"""
    for use_c in (False, True):
        for red in (False, True):
            for kw in (dict(splitting=False), dict(dipole=False, insert_gamma=True)):
                it = ck.new_interp()
                drv = Driver(it)
                CUR['unique'] = CUR.get('np.unique') or N.SYM['unique']
                ck.prefix = '%s, %s, %s: ' % ('C' if use_c else 'Python', 'grouped' if red else 'not grouped', kw)
                cur = {}

                def call():
                    drv.reset()
                    cur['q'], cur['w'] = D('q', (nq, 3)), D('w', (nq,))
                    return full_obj(it, True).calculate_qpoint_phonon_modes(cur['q'], cur['w'], reduce_qpts=red, use_c=use_c, n_threads=1, **kw)
                for r in returns(ck, call):
                    o = r.value
                    i, m, x = index_sym('i', nq), index_sym('m', 3 * n), index_sym('x', 3)
                    at = index_sym('at', n)
                    ck.same_shape('frequencies shape', o.frequencies.m, (nq, 3 * n))
                    drv.is_row(ck, 'frequencies of the q-point', o.frequencies.m.at(i, m) * uscale(o.frequencies.u) / us('hartree'), 'F', (m,), i)
                    drv.is_row(ck, 'eigenvectors of the q-point', o.eigenvectors.at(i, m, at, x), 'E', (m, at, x), i)
                    ck.eq('q-points', o.qpts.at(i, x), sel('q', i, x))
                    ck.eq('weights', lift(o.weights).at(i), sel('w', i))
                    ck.eq("caller's q-points untouched", cur['q'].at(i, x), sel('q', i, x))
                    ck.eq("caller's weights untouched", cur['w'].at(i), sel('w', i))
                    for d in drv.q + drv.c:
                        ck.true('no splitting', d.get('q_dir') is None and not d.get('splitting'))


# ------------------------------------------------------------------------------------------------ real code
import numpy as np
from contracts import fcref as R


def zone_centre(q):
    return np.abs(q - np.rint(q)).sum() < 1e-15


@test('rows', n=120, n_thorough=1000)
def t1(rng, k):
    """each row against the calculation of that q-point alone (with its neighbours where it is a split zone centre)"""
    import copy
    fc = R.special_fc(rng, born=rng.random() < .7, n=int(rng.integers(2, 4)))
    if fc.crystal.n_atoms < 2:
        return
    m = int(rng.integers(1, 8))
    q = R.qpoints(rng, m)
    if m > 1 and rng.random() < .3:                  # two points close together are two points
        i, j = rng.permutation(m)[:2]
        if np.abs(q[j] - np.rint(q[j])).max() > .05:
            q[i] = q[j] + rng.uniform(.5, 1, 3) * 10. ** -int(rng.integers(2, 7))
    w = rng.uniform(.1, 2, m) if rng.random() < .7 else None
    if w is not None and rng.random() < .3:
        w = np.arange(1, m + 1)                      # integer weights
    kw = dict(dipole=bool(rng.random() < .8), splitting=bool(rng.random() < .7), insert_gamma=bool(rng.random() < .5), use_c=bool(rng.random() < .5),
              asr=G.pick(rng, [None, 'reciprocal']))
    q0, w0 = q.copy(), copy.copy(w)
    red = bool(rng.random() < .7)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        full = fc.calculate_qpoint_phonon_modes(q, w, reduce_qpts=red, **kw)
        split = kw['dipole'] and kw['splitting'] and fc.born is not None
        G.need(np.array_equal(q, q0) and (w is None or np.array_equal(w, w0) and w.dtype == w0.dtype), "the caller's arrays were changed")
        src = []
        for i in range(m):
            src += [i] * (2 if split and kw['insert_gamma'] and 0 < i < m - 1 and zone_centre(q[i]) else 1)
        ql = q[src]
        G.need(full.qpts.shape == ql.shape and np.array_equal(full.qpts, ql), 'q-points: %s, expected %s' % (full.qpts, ql))
        if w is not None:
            G.need_close(full.weights, [w[i] / src.count(i) for i in src], 'weights')
        f = R.hartree(full.frequencies)
        alone = dict(kw, insert_gamma=False)
        for p, i in enumerate(src):
            if split and zone_centre(q[i]):
                sel_ = [p, p + 1] if p == 0 else [p - 1, p] if p == len(src) - 1 else [p - 1, p, p + 1]
                sel_ = [x for x in sel_ if x < len(src)]
                row = sel_.index(p)
                one_ = fc.calculate_qpoint_phonon_modes(ql[sel_], reduce_qpts=False, **alone)
            else:
                one_ = fc.calculate_qpoint_phonon_modes(ql[[p]], reduce_qpts=False, **dict(alone, splitting=False))
                row = 0
            g = R.hartree(one_.frequencies)[row]
            # eigenvalues: at a zone centre the frequencies are roots of small numbers
            G.need(np.max(np.abs(f[p] * abs(f[p]) - g * abs(g))) < 1e-9 * max(R.scale(fc), np.abs(g).max() ** 2),
                   'row %d (q-point %s): frequencies %s, expected %s; %s' % (p, ql[p], f[p], g, kw))
            e = full.eigenvectors[p].reshape(len(g), -1)
            o = one_.eigenvectors[row].reshape(len(g), -1)
            lam = g * abs(g)
            G.need(np.abs((e.T * (f[p] * abs(f[p]))) @ e.conj() - (o.T * lam) @ o.conj()).max() < 1e-8 * max(R.scale(fc), np.abs(g).max() ** 2),
                   'row %d: eigenvectors of another q-point' % p)


@test('weights of inserted pairs', n=80)
def t2(rng, k):
    fc = G.force_constants(rng, n=2, born=True)
    m = int(rng.integers(3, 9))
    q = rng.uniform(-.4, .4, (m, 3))
    g = rng.random(m) < .5
    q[g] = rng.integers(-1, 2, (int(g.sum()), 3))
    w = rng.uniform(.1, 1, m)
    a = fc.calculate_qpoint_frequencies(q, w, insert_gamma=True, use_c=True, reduce_qpts=bool(rng.random() < .5))
    G.need_close(a.weights.sum(), w.sum(), 'total weight')
    for i in range(m):
        same = np.all(a.qpts == q[i], axis=1)
        G.need_close(a.weights[same].sum(), w[np.all(q == q[i], axis=1)].sum(), 'weight of q-point %d' % i)
    G.need(len(a.qpts) == m + int(g[1:-1].sum()), 'number of q-points')
