"""Spectra: edges and centres, scaling, copying, adding, splitting"""
from contracts.common import *
from contracts import gen as G
import numpy as np

assume('tick labels: bounded number of labels (positions symbolic); split indices: bounded number (0..3, positions symbolic)')
from contracts.spec import *


# ---------------------------------------------------------------- edges and centres
def axis_spec(nm, n, edges):
    """(edges, centres) of axis nm with n points as functions of the position"""
    a = lambda i: sel(nm, i, mono=True) * UX
    if edges:
        return (lambda i: a(i)), (lambda i: (a(i) + a(i + 1)) / 2)
    def e(i):
        # only used with i at 0, n or strictly inside
        return a(i)
    return e, a


def check_bins(ck, o, ax, nm, n, edges):
    arg = () if ax is None else (ax,)
    a = lambda i: sel(nm, i, mono=True) * UX
    for what in ('edges', 'centres', 'widths'):
        def f():
            return getattr(o, 'get_bin_' + what)(*arg)
        for out in returns(ck, f):
            q = out.value
            ln = n if what != 'edges' else n + 1
            ck.true('%s %s unit' % (ax, what), q.u == U.as_unit('ux'), q.u)
            ck.same_shape('%s %s shape' % (ax, what), q.m, (ln,))
            s = uscale(q.u)
            i = index_sym('i', ln)
            j = index_sym('j', ln - 1)
            if edges:
                spec = dict(edges=lambda i: a(i), centres=lambda i: (a(i) + a(i + 1)) / 2, widths=lambda i: a(i + 1) - a(i))[what]
                ck.eq('%s %s' % (ax, what), q.m.at(i) * s, spec(i))
            elif what == 'centres':
                ck.eq('%s %s' % (ax, what), q.m.at(i) * s, a(i))
            elif what == 'edges':
                ck.eq('%s first edge' % ax, q.m.at(const(0)) * s, a(const(0)))
                ck.eq('%s last edge' % ax, q.m.at(P(n)) * s, a(n - 1))
                with S.assuming(bge(n, 2)):
                    k = index_sym('k', n - 1)
                    ck.eq('%s inner edges' % ax, q.m.at(k + 1) * s, (a(k) + a(k + 1)) / 2)
            else:
                e = o.get_bin_edges(*arg)
                ck.eq('%s widths' % ax, q.m.at(i) * s, (e.m.at(i + 1) - e.m.at(i)) * uscale(e.u))
            # ordered: edges never decrease, each centre lies within its bin
            if what == 'edges':
                c = o.get_bin_centres(*arg)
                xx = lambda i: sel(nm, i, mono=True)

                def within(tag, k):
                    ck.holds('%s lower edge <= centre%s' % (ax, tag), ble(q.m.at(k), c.m.at(k)))
                    ck.holds('%s centre <= upper edge%s' % (ax, tag), ble(c.m.at(k), q.m.at(k + 1)))
                k = index_sym('k', n)
                cases = [('', [bge(k, 0)], k)]
                if not edges:
                    cases = [(' (only bin)', [beq(n, 1), beq(xx(n - 1), xx(const(0)))], const(0)),  # the second fact follows from the first
                             (' (first bin)', [bge(n, 2)], const(0)), (' (last bin)', [bge(n, 2)], n - 1),
                             (' (inner bins)', [bge(n, 3), bge(k, 1), blt(k, n - 1)], k)]
                for tag, facts, kk in cases:
                    with S.assuming(*facts):
                        with S.assuming(ble(xx(kk), xx(kk + 1)), ble(xx(kk - 1), xx(kk))):
                            within(tag, kk)


for cls in CLS:
    for ex in (False, True):
        for ey in ((False, True) if '2D' in cls else (False,)):
            own = 'euphonic.spectra.Spectrum2D.' if '2D' in cls else SPB

            @obligation('%s bins %s%s' % (cls, 'ex' if ex else 'cx', ('ey' if ey else 'cy') if '2D' in cls else ''),
                        [own + 'get_bin_edges', own + 'get_bin_centres', own + 'get_bin_widths', SPB + '_bin_edges_to_centres', SPB + '_bin_centres_to_edges',
                         SPB + '_is_bin_edge'])
            def _(ck, cls=cls, ex=ex, ey=ey):
                it = ck.new_interp()
                box = []
                if cls == 'Spectrum1DCollection':
                    S.CTX.push(bne(nz, nx))
                o = make(it, cls, ex, ey)
                if '2D' in cls:
                    check_bins(ck, o, 'x', 'x', nx, ex)
                    check_bins(ck, o, 'y', 'v', ny, ey)
                else:
                    check_bins(ck, o, None, 'x', nx, ex)


# ---------------------------------------------------------------- scaling and copying
def same_rest(ck, o, cls, nm, metas, ticks):
    ck.qarr(nm + ' x axis', o.x_data, 'ux', (nx,), lambda i: sel('x', i, mono=True) * UX)
    if '2D' in cls:
        ck.qarr(nm + ' y axis', o.y_data, 'ux', (ny,), lambda i: sel('v', i, mono=True) * UX)
    ck.true(nm + ' metadata', o.metadata == metas, o.metadata)
    ck.true(nm + ' tick labels', o.x_tick_labels == ticks, o.x_tick_labels)


for cls in CLS:
    own = 'euphonic.spectra.%s.' % cls

    @obligation('%s scaling' % cls, [SPB + '__mul__', ('euphonic.spectra.Spectrum2D.' if cls == 'Spectrum2D' else SPB if cls[-1] == 'D' or 'Sp' not in cls else SPB) + '__imul__'])
    def _(ck, cls=cls):
        it = ck.new_interp()
        meta = lambda: {'label': 'a', 'k': 1}
        tk = [(0, 'A'), (0, 'B')]
        nm, shp = DATA[cls]
        s = sym('scale')
        val = lambda *i: sel('y', *i) * UY

        for disp in (None, 'uy2'):
            ck.prefix = 'display %s: ' % disp

            def build():
                o = make(it, cls, ticks=list(tk), meta=meta())
                if disp:
                    it.setattr(o, nm + '_data_unit', disp)
                return o

            def f():
                o = build()
                return o, o * s
            for out in returns(ck, f):
                o, r = out.value
                ck.true('new object', r is not o)
                ck.qarr('values scaled', data(r, cls), disp or 'uy', shp, lambda *i: val(*i) * s)
                ck.qarr('original values', data(o, cls), disp or 'uy', shp, val)
                same_rest(ck, r, cls, 'scaled', meta(), tk)
                same_rest(ck, o, cls, 'original', meta(), tk)

            def g():
                o = build()
                r = o
                r *= s
                return o, r
            for out in returns(ck, g):
                o, r = out.value
                ck.true('in place: same object', r is o)
                ck.qarr('in place: values scaled', data(r, cls), disp or 'uy', shp, lambda *i: val(*i) * s)
                same_rest(ck, r, cls, 'in place', meta(), tk)

            def h():
                o = build()
                r = o.copy()
                # overwrite everything mutable of the copy
                for a in ('_x_data', '_y_data') + (('_z_data',) if '2D' in cls else ()):
                    A.setitem(getattr(r, a), Ellipsis, const(7))
                r.metadata['label'] = 'changed'
                r.metadata['new'] = 1
                r.x_tick_labels.append((1, 'C'))
                return o, r
            for out in returns(ck, h):
                o, r = out.value
                ck.true('copy: new object', r is not o)
                ck.qarr('copy: original untouched', data(o, cls), disp or 'uy', shp, val)
                same_rest(ck, o, cls, 'copy: original', meta(), tk)
        ck.prefix = ''


@obligation('adding spectra', ['euphonic.spectra.Spectrum1D.__add__', 'euphonic.spectra.Spectrum1DCollection.from_spectra', 'euphonic.spectra.SpectrumCollectionMixin.sum'])
def o_add(ck):
    it = ck.new_interp()
    m = it.load('euphonic.spectra')

    for edge in (0, 1):
        ck.prefix = 'edges: ' if edge else ''

        def f():
            x = D('x', (nx + edge,), mono=True)
            a = m.Spectrum1D(Q(x, 'ux'), Q(D('y', (nx,)), 'uy'), metadata={'a': 1, 'b': 2})
            b = m.Spectrum1D(Q(x, 'ux'), Q(D('y2', (nx,)), 'uy'), metadata={'a': 1, 'b': 3})
            return a, b, a + b
        for out in returns(ck, f):
            a, b, r = out.value
            ck.qarr('sum', r.y_data, 'uy', (nx,), lambda i: (sel('y', i) + sel('y2', i)) * UY)
            ck.qarr('axis', r.x_data, 'ux', (nx + edge,), lambda i: sel('x', i, mono=True) * UX)
            ck.true('class', type(r).__name__ == 'Spectrum1D' or r.cls.name == 'Spectrum1D' if hasattr(r, 'cls') else True)
            ck.true('common metadata', r.metadata == {'a': 1}, r.metadata)
            ck.qarr('first untouched', a.y_data, 'uy', (nx,), lambda i: sel('y', i) * UY)


# ---------------------------------------------------------------- splitting
def split_case(ck, cls, k, ex):
    """k split positions 0 < i1 < ... < ik < nx"""
    it = ck.new_interp()
    cuts = [sym('i%d' % j, 'int', pos=True) for j in range(1, k + 1)]
    b = [const(0)] + cuts + [nx]
    for p, q in zip(b, b[1:]):
        S.CTX.push(blt(p, q))
    t0, t1 = sym('t0', 'int', nonneg=True), sym('t1', 'int', nonneg=True)
    S.CTX.push(blt(t0, nx))
    S.CTX.push(blt(t1, nx))
    S.CTX.push(blt(t0, t1))
    meta = {'label': 'a'}

    def f():
        o = make(it, cls, ex, ticks=[(t0, 'A'), (t1, 'B')], meta=dict(meta))
        return o, o.split(indices=list(cuts))
    nm, shp = DATA[cls]
    for out in returns(ck, f, max_paths=3000):
        o, r = out.value
        if not ck.true('number of pieces', len(r) == k + 1, len(r)):
            continue
        owner = {'A': [], 'B': []}
        for p, piece in enumerate(r):
            lo, ln = b[p], b[p + 1] - b[p]
            d = data(piece, cls)
            shape = tuple(ln if s is nx else s for s in shp)
            ax = 0 if shp[0] is nx else 1
            ck.qarr('values of piece %d' % p, d, 'uy', shape, lambda *i: sel('y', *[x + lo if q == ax else x for q, x in enumerate(i)]) * UY)
            xl = ln + 1 if ex and p == k else ln
            ck.qarr('x axis of piece %d' % p, piece.x_data, 'ux', (xl,), lambda i: sel('x', i + lo, mono=True) * UX)
            if '2D' in cls:
                ck.qarr('y axis of piece %d' % p, piece.y_data, 'ux', (ny,), lambda i: sel('v', i, mono=True) * UX)
            ck.true('metadata of piece %d' % p, piece.metadata == meta, piece.metadata)
            for pos, lab in piece.x_tick_labels:
                owner[lab].append((p, pos))
        for lab, t in (('A', t0), ('B', t1)):
            if ck.true('label %s exactly once' % lab, len(owner[lab]) == 1, owner[lab]):
                p, pos = owner[lab][0]
                ck.eq('label %s at its data point' % lab, P(pos) + b[p], t)
                ck.holds('label %s within its piece' % lab, band(bge(P(pos), 0), blt(P(pos) + b[p], b[p + 1])))


for cls in CLS:
    for k in (0, 1, 2, 3):
        for ex in ((False, True) if k < 2 else (False,)):
            @obligation('split %s at %d%s' % (cls, k, ' edges' if ex else ''), ['euphonic.spectra.%s._split_by_indices' % cls, SPB + '_ranges_from_indices', SPB + '_cut_x_ticks', SPB + 'split'],
                        bounded='%d split positions and 2 labels; positions, sizes and data unbounded' % k)
            def _(ck, a=(cls, k, ex)):
                split_case(ck, *a)


@obligation('ranges for any number of split positions', [SPB + '_ranges_from_indices'])
def o_ranges(ck):
    it = ck.new_interp()
    m = it.load('euphonic.spectra')
    k = dim('k')
    S.CTX.push(bge(k, 2))

    def f():
        return m.Spectrum._ranges_from_indices(D('cut', (k,), 'i', pos=True))
    for out in returns(ck, f):
        r = out.value
        n = r.n if isinstance(r, X.SymIter) else len(r)
        ck.eq('k+1 ranges', P(n), k + 1)
        c = lambda j: sel('cut', j, kind='i', pos=True)
        get = lambda j: it.getitem(r, j)
        ck.eq('starts at 0', P(get(const(0))[0]), 0)
        ck.eq('first ends at the first position', P(get(const(0))[1]), c(const(0)))
        j = index_sym('j', k - 1)
        ck.eq('starts where the previous ends', P(get(j + 1)[0]), c(j))
        ck.eq('ends at the next position', P(get(j + 1)[1]), c(j + 1))
        ck.eq('last starts at the last position', P(get(k)[0]), c(k - 1))
        ck.true('last is open', get(k)[1] is None, get(k))


@obligation('split by tolerance', [SPB + '_split_by_tol', SPB + 'split'])
def o_tol(ck):
    """the positions handed to _split_by_indices are exactly those whose step exceeds btol times the median step"""
    it = ck.new_interp()
    got = []
    it.hooks['euphonic.spectra.Spectrum1D._split_by_indices'] = lambda self, i: got.append(i) or 'res'
    N.HOOKS['median'] = lambda a: Q(sym('med', pos=True), a.u) if isinstance(a, Q) else sym('med', pos=True)
    for given in (None, 'btol'):
        ck.prefix = '%s: ' % given
        bt = sym('btol', pos=True) if given else const(10)

        def f():
            got.clear()
            o = make(it, 'Spectrum1D')
            r = o.split(btol=sym('btol', pos=True)) if given else o.split()
            return r, list(got)
        for out in returns(ck, f):
            r, g = out.value
            ck.true('delegates', r == 'res' and len(g) == 1, (r, g))
            w = g[0]
            ck.true('breakpoints are the selected positions plus one', isinstance(w, Comp_) , type(w))
            comp_check(ck, w, bt)
        ck.prefix = ''


Comp_ = A.Comp


def comp_check(ck, w, bt):
    i = index_sym('i', nx - 1)
    d = sel('x', i + 1, mono=True) - sel('x', i, mono=True)
    want = bgt(d / sym('med', pos=True), bt)
    ck.same_shape('one candidate per step', w.mask, (nx - 1,))
    ck.eq('selected exactly where the step exceeds btol*median', w.mask.at(i), want.poly())
    ck.eq('breakpoint is the right end of the step', w.vals.at(i), i + 1)


# ---------------------------------------------------------------- the real code
def redisplay(rng, o):
    if rng.random() < .5:
        try:
            if '2D' in type(o).__name__:
                o.x_data_unit = G.pick(rng, ['1/angstrom', '1/bohr', '1/nm'])
                o.y_data_unit = G.pick(rng, ['meV', '1/cm', 'eV'])
            else:
                o.x_data_unit = G.pick(rng, ['meV', 'eV', 'hartree'] if str(o.x_data.units) == 'millielectron_volt' else [str(o.x_data.units)])
        except Exception:
            raise


@test('bins', n=120)
def t_bins(rng, k):
    cls = G.SPEC[k % 4]
    o = G.spectrum(rng, cls, ex=bool(k // 4 % 2), ey=bool(k // 8 % 2), nx=1 if k % 11 == 10 else None)
    redisplay(rng, o)
    for ax in (('x', 'y') if '2D' in cls else (None,)):
        arg = () if ax is None else (ax,)
        d = (o.y_data if ax == 'y' else o.x_data)
        n = G.spec_data(o).shape[-1 if ax in ('y', None) else -2]
        v = d.magnitude
        if len(v) == n + 1:
            e, c = v, (v[1:] + v[:-1]) / 2
        else:
            c, e = v, np.concatenate([v[:1], (v[1:] + v[:-1]) / 2, v[-1:]])
        for what, want in (('edges', e), ('centres', c), ('widths', np.diff(e))):
            got = getattr(o, 'get_bin_' + what)(*arg)
            G.need_close(got.to(d.units).magnitude, want, '%s %s %s' % (cls, ax, what), atol=1e-11)
    return dict(cls=cls, nx=len(o.x_data))


@test('scale and copy', n=80)
def t_scale(rng, k):
    cls = G.SPEC[k % 4]
    o = G.spectrum(rng, cls)
    redisplay(rng, o)
    ref = o.copy()
    G.same_spec(ref, o, 'copy')
    s = G.pick(rng, [0., 2, -1.5, .3])
    r = o * s
    G.same_spec(r, ref, 'scaled', data=False)
    G.need_close(G.spec_data(r).to(G.spec_data(ref).units).magnitude, s * G.spec_data(ref).magnitude, 'scaled values')
    G.same_spec(o, ref, 'after scaling')
    p = o.copy()
    p *= s
    G.same_spec(p, r, 'in place')
    G.same_spec(o, ref, 'after in-place scaling of a copy')
    # change everything of a copy
    c = o.copy()
    for a in ('_x_data', '_y_data', '_z_data'):
        if hasattr(c, a):
            getattr(c, a)[...] = 7
    c.metadata['label'] = 'new'
    if 'line_data' in c.metadata:
        c.metadata['line_data'][0]['species'] = 'new'
    if c.x_tick_labels:
        c.x_tick_labels.append((0, 'new'))
    G.same_spec(o, ref, 'after changing a copy')
    return dict(cls=cls)


@test('add', n=60)
def t_add(rng, k):
    eu = G.E()
    a = G.spectrum(rng, 'Spectrum1D', unit='1/meV')
    if k % 2:
        a = a.copy()
        b = eu.Spectrum1D(a.x_data, eu.ureg.Quantity(rng.normal(size=a.y_data.shape), '1/meV'), x_tick_labels=a.x_tick_labels, metadata={'k': 1, 'other': 2})
        if rng.random() < .5:
            a.y_data_unit = b.y_data_unit = '1/eV'
        ref = a.copy()
        r = a + b
        G.need_close(r.y_data.to('1/meV').magnitude, a.y_data.to('1/meV').magnitude + b.y_data.to('1/meV').magnitude, 'sum')
        G.need_close(r.x_data.to(a.x_data.units).magnitude, a.x_data.magnitude, 'axis')
        G.need(r.x_tick_labels == a.x_tick_labels, 'tick labels')
        G.need(r.metadata == {'k': 1}, 'metadata %s' % r.metadata)
        G.same_spec(a, ref, 'first spectrum')
    else:
        b = eu.Spectrum1D(a.x_data * 1.01, a.y_data)
        G.need(G.raises(lambda: a + b), 'different axes are added without complaint')
    return {}


def split_check(o, ref, pieces, cuts):
    cls = type(o).__name__
    n = G.spec_data(o).shape[-1 if '1D' in cls else -2]
    G.need(len(pieces) == len(cuts) + 1, '%d pieces for %s' % (len(pieces), cuts))
    b = [0] + list(cuts) + [n]
    labels = []
    ax = -1 if '1D' in cls else -2
    for p, (lo, hi) in zip(pieces, zip(b, b[1:])):
        d = G.spec_data(p).to(G.spec_data(o).units).magnitude
        G.need_close(d, np.take(G.spec_data(o).magnitude, np.arange(lo, hi), axis=ax), 'piece %d:%d data' % (lo, hi))
        x = p.x_data.to(o.x_data.units).magnitude
        hx = len(o.x_data) if hi == n else hi
        G.need_close(x, o.x_data.magnitude[lo:hx], 'piece %d:%d axis' % (lo, hi))
        if '2D' in cls:
            G.need_close(p.y_data.to(o.y_data.units).magnitude, o.y_data.magnitude, 'y axis')
        G.need(p.metadata == o.metadata, 'metadata of a piece %s %s' % (p.metadata, o.metadata))
        labels += [(i + lo, l) for i, l in (p.x_tick_labels or [])]
        for i, l in (p.x_tick_labels or []):
            G.need(0 <= i < hi - lo, 'label %s at %d outside its piece of %d points' % (l, i, hi - lo))
    if o.x_tick_labels is not None:
        G.need(labels == o.x_tick_labels, 'labels of the pieces %s, of the whole %s' % (labels, o.x_tick_labels))
    else:
        G.need(all(p.x_tick_labels is None for p in pieces), 'labels appeared')
    G.same_spec(o, ref, 'after splitting')


@test('split at indices', n=120)
def t_split(rng, k):
    cls = G.SPEC[k % 4]
    o = G.spectrum(rng, cls, nx=int(rng.integers(3, 25)), meta={'label': 'a'} if 'Coll' not in cls else None)
    redisplay(rng, o)
    n = G.spec_data(o).shape[-1 if '1D' in cls else -2]
    nc = int(rng.integers(0, min(n, 6)))
    cuts = sorted(int(i) for i in rng.choice(np.arange(1, n), nc, replace=False))
    # some labels right at the cuts
    if cuts:
        pos = sorted(set([cuts[0] - 1, cuts[0], cuts[-1], n - 1, 0]))
        o.x_tick_labels = [(int(i), 'P%d' % i) for i in pos]
    ref = o.copy()
    arg = cuts if rng.random() < .5 else np.array(cuts, int)
    split_check(o, ref, o.split(indices=arg), cuts)
    return dict(cls=cls, cuts=cuts)


@test('split by step', n=80)
def t_tol(rng, k):
    eu = G.E()
    cls = G.SPEC[k % 4]
    ex = k // 4 % 2
    n = int(rng.integers(8, 30))
    bt = G.pick(rng, [None, 3., 10., 20.])
    steps = rng.uniform(.9, 1.1, n + ex - 1)
    jump = np.zeros(n + ex - 1, bool)
    jump[rng.choice(n - 1, 3, replace=False)] = True
    if ex:
        jump[-1] = False
    eff = 10. if bt is None else bt
    steps[jump] *= eff * rng.uniform(.5, 2.5, jump.sum())
    base = G.spectrum(rng, cls, ex=bool(ex), nx=n)
    x = np.concatenate([[rng.uniform(-2, 2)], steps]).cumsum()
    xq = eu.ureg.Quantity(x, base.x_data.units)
    kw = dict(x_tick_labels=[(0, 'a'), (n // 2, 'b'), (n - 1, 'c')], metadata=base.metadata)
    o = type(base)(xq, base.y_data, base.z_data, **kw) if '2D' in cls else type(base)(xq, base.y_data, **kw)
    d = np.diff(x)
    r = d / np.median(d)
    if np.any(np.abs(r / eff - 1) < 1e-6):
        return None
    cuts = [int(i) + 1 for i in np.nonzero(r > eff)[0]]
    pieces = o.split() if bt is None else o.split(btol=bt)
    split_check(o, o.copy(), pieces, cuts)
    return dict(cls=cls, cuts=cuts, btol=bt)
