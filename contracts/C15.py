"""Spectrum collections: every line keeps its own data, unit and metadata"""
from contracts.common import *
from contracts import gen as G
from contracts.spec import *
import itertools
import numpy as np

assume('lines: bounded number (1-4) where metadata is involved, axis lengths and data symbolic; metadata values from a small vocabulary')
MIX = 'euphonic.spectra.SpectrumCollectionMixin.'
COLS = {'Spectrum1DCollection': 'Spectrum1D', 'Spectrum2DCollection': 'Spectrum2D'}


def one(it, cls, k, meta, edges=0, ticks=None, disp=None):
    """k-th single spectrum"""
    m = it.load('euphonic.spectra')
    kw = dict(x_tick_labels=ticks, metadata=meta)
    x = Q(D('x', (nx + edges,), mono=True), 'ux')
    if cls == 'Spectrum1D':
        o = m.Spectrum1D(x, Q(row(k, (nx,)), 'uy'), **kw)
    else:
        o = m.Spectrum2D(x, Q(D('v', (ny + edges,), mono=True), 'ux'), Q(row(k, (nx, ny)), 'uy'), **kw)
    if disp:
        it.setattr(o, ('y' if cls == 'Spectrum1D' else 'z') + '_data_unit', disp)
        it.setattr(o, 'x_data_unit', 'ux2')
    return o


def row(k, shape):
    return A.mk(shape, lambda *i: sel('y', const(k) if isinstance(k, int) else k, *i), 'f')


def val(*i):
    return sel('y', *i) * UY


def dat(o):
    return o.y_data if '1D' in type(o).__name__ else o.z_data


METAS = [
    [{}],
    [{'a': 1, 'b': 'x'}],
    [{'a': 1}, {'a': 1}],
    [{'a': 1, 'c': 3}, {'a': 2, 'c': 3}],
    [{'a': 1}, {'b': 1}],
    [{}, {'a': 2}],
    [{'a': 1, 's': 'Si'}, {'a': 1, 's': 'O'}, {'a': 2, 's': 'Si'}],
    [{'s': 'Si', 'com': 1, 'i': 0}, {'s': 'Si', 'com': 1, 'i': 1}, {'s': 'Si', 'com': 1}],
    [{'i': 0, 's': 'Si'}, {'i': 1, 's': 'O'}, {'i': 2, 's': 'Si'}, {'i': 0, 's': 'Al'}],
]


def shp(cls):
    return (nx,) if '1D' in cls else (nx, ny)


def check_line(ck, nm, o, cls, k, meta, unit, edges, ticks, xu='ux'):
    """o is the single spectrum number k"""
    ck.true(nm + ' class', type(o).__name__ == cls, type(o))
    ck.qarr(nm + ' data', dat(o), unit, shp(cls), lambda *i: val(const(k), *i))
    ck.qarr(nm + ' x axis', o.x_data, xu, (nx + edges,), lambda i: sel('x', i, mono=True) * UX)
    if '2D' in cls:
        ck.qarr(nm + ' y axis', o.y_data, 'ux', (ny + edges,), lambda i: sel('v', i, mono=True) * UX)
    ck.true(nm + ' metadata', o.metadata == meta, (o.metadata, meta))
    ck.true(nm + ' tick labels', o.x_tick_labels == ticks, o.x_tick_labels)


for col, cls in COLS.items():
    own = 'euphonic.spectra.%s.' % col

    for mi, metas in enumerate(METAS):
        @obligation('%s built and indexed, metadata %d' % (col, mi),
                    [own + 'from_spectra', own + '__init__', MIX + '__getitem__', MIX + '_get_item_metadata', MIX + '_combine_metadata', MIX + 'iter_metadata', MIX + '_validate_item'],
                    bounded='%d lines; axis lengths and data unbounded' % len(metas))
        def _(ck, col=col, cls=cls, metas=metas):
            it = ck.new_interp()
            m = it.load('euphonic.spectra')
            n = len(metas)
            tk = [(0, 'A')]
            for edges, disp in itertools.product((0, 1), (None, 'uy2')):
                ck.prefix = 'edges %d display %s: ' % (edges, disp)
                unit, xu = disp or 'uy', 'ux2' if disp else 'ux'

                def f():
                    items = [one(it, cls, k, dict(d), edges, list(tk), disp) for k, d in enumerate(metas)]
                    return items, getattr(m, col).from_spectra(items)
                for out in returns(ck, f):
                    items, c = out.value
                    ck.true('class', type(c).__name__ == col, type(c))
                    ck.qarr('data', dat(c), unit, (const(n),) + shp(cls), val)
                    for k in range(n):
                        check_line(ck, 'line %d' % k, c[k], cls, k, metas[k], unit, edges, tk, xu)
                        check_line(ck, 'line -%d' % (n - k), c[k - n], cls, k, metas[k], unit, edges, tk, xu)
                        check_line(ck, 'input %d' % k, items[k], cls, k, metas[k], unit, edges, tk, xu)
                    common = {a: b for a, b in metas[0].items() if all(a in d and d[a] == b for d in metas)}
                    ck.true('common metadata', {a: b for a, b in c.metadata.items() if a != 'line_data'} == common, c.metadata)
                    # sub-collections
                    for sub in (slice(None), slice(0, n - 1) if n > 1 else None, slice(1, None) if n > 1 else None, slice(None, None, 2), [n - 1, 0], [0], list(range(n))):
                        if sub is None:
                            continue
                        lines = list(range(n))[sub] if isinstance(sub, slice) else sub
                        p = c[sub]
                        ck.true('sub class', type(p).__name__ == col)
                        for a, k in enumerate(lines):
                            check_line(ck, '%s line %d' % (sub, a), p[a], cls, k, metas[k], unit, edges, tk, xu)
                        ck.true('sub length', len(p) == len(lines))
            ck.prefix = ''

        if any(metas):
            @obligation('%s selecting and grouping, metadata %d' % (col, mi), [MIX + 'select', MIX + '_select_indices', MIX + 'group_by', MIX + 'sum', MIX + '_tidy_metadata'],
                        bounded='%d lines; axis lengths and data unbounded' % len(metas))
            def _(ck, col=col, cls=cls, metas=metas):
                it = ck.new_interp()
                m = it.load('euphonic.spectra')
                n = len(metas)
                keys = sorted({k for d in metas for k in d})
                for disp in (None, 'uy2'):
                    ck.prefix = 'display %s: ' % disp
                    unit = disp or 'uy'

                    def build():
                        c = getattr(m, col).from_spectra([one(it, cls, k, dict(d)) for k, d in enumerate(metas)])
                        if disp:
                            it.setattr(c, ('y' if cls == 'Spectrum1D' else 'z') + '_data_unit', disp)
                        return c
                    for key in keys:
                        vals = []
                        for d in metas:
                            if key in d and d[key] not in vals:
                                vals.append(d[key])
                        for v in vals + [vals[:2][::-1]]:
                            vs = v if isinstance(v, list) else [v]
                            lines = [k for w in vs for k in range(n) if key in metas[k] and metas[k][key] == w]
                            for out in returns(ck, lambda: build().select(**{key: v})):
                                p = out.value
                                if ck.true('select %s=%s count' % (key, v), len(p) == len(lines), len(p)):
                                    for a, k in enumerate(lines):
                                        check_line(ck, 'select %s=%s line %d' % (key, v, a), p[a], cls, k, metas[k], unit, 0, None)
                        ck.true('select %s nothing' % key, raises_(lambda: build().select(**{key: 'none such'})))
                    for g in [(k,) for k in keys] + [(a, b) for a in keys for b in keys if a < b]:
                        groups = {}
                        for k, d in enumerate(metas):
                            groups.setdefault(tuple(d.get(a) for a in g), []).append(k)
                        for out in returns(ck, lambda: build().group_by(*g)):
                            p = out.value
                            if not ck.true('group %s count' % (g,), len(p) == len(groups), len(p)):
                                continue
                            for a, (kk, lines) in enumerate(groups.items()):
                                s = p[a]
                                ck.qarr('group %s total %d' % (g, a), dat(s), unit, shp(cls), lambda *i: sum((val(const(k), *i) for k in lines), const(0)))
                                com = {x: y for x, y in metas[lines[0]].items() if all(x in metas[k] and metas[k][x] == y for k in lines)}
                                ck.true('group %s metadata %d' % (g, a), s.metadata == com, (s.metadata, com))
                ck.prefix = ''

    @obligation('%s total of any number of lines' % col, [MIX + 'sum'])
    def _(ck, col=col, cls=cls):
        it = ck.new_interp()
        it.hooks[MIX + '_combine_metadata'] = lambda *a: {}             # under its own contract
        for disp in (None, 'uy2'):
            ck.prefix = 'display %s: ' % disp

            def f():
                o = make(it, col, ticks=[(0, 'A')], meta={'a': 1, 'b': 2})
                if disp:
                    it.setattr(o, ('y' if cls == 'Spectrum1D' else 'z') + '_data_unit', disp)
                return o.sum()
            for out in returns(ck, f):
                r = out.value
                ck.true('class', type(r).__name__ == cls, type(r))
                ck.qarr('total', dat(r), disp or 'uy', shp(cls), lambda *i: mk_sum('line', 0, nz, val(index_sym('line', nz), *i)))
                ck.qarr('x axis', r.x_data, 'ux', (nx,), lambda i: sel('x', i, mono=True) * UX)
                ck.true('metadata', r.metadata == {'a': 1, 'b': 2}, r.metadata)
                ck.true('tick labels', r.x_tick_labels == [(0, 'A')], r.x_tick_labels)
        ck.prefix = ''

    @obligation('%s from any number of spectra' % col, [own + 'from_spectra'])
    def _(ck, col=col, cls=cls):
        it = ck.new_interp()
        m = it.load('euphonic.spectra')
        n = dim('nlines')
        kn, ky = T.fresh_index(n)
        it.hooks[MIX + '_combine_metadata'] = lambda *a: {'com': 1}     # under its own contract

        def f():
            return getattr(m, col).from_spectra(X.SymSeq(n, kn, one(it, cls, ky, {'com': 1})))
        for out in returns(ck, f):
            c = out.value
            ck.qarr('data', dat(c), 'uy', (n,) + shp(cls), val)
            ck.qarr('x axis', c.x_data, 'ux', (nx,), lambda i: sel('x', i, mono=True) * UX)
            ck.true('metadata', c.metadata == {'com': 1}, c.metadata)

    @obligation('%s indexing any line' % col, [MIX + '__getitem__'])
    def _(ck, col=col, cls=cls):
        it = ck.new_interp()
        k = sym('k', 'int', nonneg=True)
        S.CTX.push(blt(k, nz))
        it.hooks[MIX + '_get_item_metadata'] = lambda self, item: {'com': 1}

        def f():
            return make(it, col, ticks=[(0, 'A')])[k]
        for out in returns(ck, f):
            r = out.value
            ck.true('class', type(r).__name__ == cls, type(r))
            ck.qarr('data', dat(r), 'uy', shp(cls), lambda *i: val(k, *i))
            ck.qarr('x axis', r.x_data, 'ux', (nx,), lambda i: sel('x', i, mono=True) * UX)


def raises_(f):
    try:
        f()
    except (ValueError,):
        return True
    return False


# ---------------------------------------------------------------- the real code
def singles(rng, cls, n, base=None):
    eu = G.E()
    base = base or G.spectrum(rng, cls)
    metas = []
    for i in range(n):
        d = {}
        for key, vs in (('s', ['Si', 'O', 'Al']), ('i', [0, 1, 2]), ('com', ['x']), ('opt', ['u', None])):
            v = G.pick(rng, vs)
            if v is not None and rng.random() < .85:
                d[key] = v
        metas.append(d)
    out = []
    for d in metas:
        v = eu.ureg.Quantity(rng.normal(size=G.spec_data(base).shape), G.spec_data(base).units)
        args = (base.x_data, base.y_data, v) if '2D' in cls else (base.x_data, v)
        out.append(type(base)(*args, x_tick_labels=base.x_tick_labels, metadata=dict(d)))
    if rng.random() < .5:
        for o in out:
            if '2D' in cls:
                o.z_data_unit = str((1 * o.z_data.units * 1000).units) if False else str(o.z_data.units)
                o.y_data_unit = '1/cm'
            else:
                o.x_data_unit = 'eV'
            if str(G.spec_data(base).units) == '1 / millielectron_volt':
                setattr(o, ('z' if '2D' in cls else 'y') + '_data_unit', '1/eV')
    return out, metas


def col_cls(cls):
    import euphonic.spectra as m
    return getattr(m, cls + 'Collection')


def line_is(o, ref, meta, msg):
    G.same_spec(o, ref, msg, data=True)
    G.need(o.metadata == meta, '%s metadata %s, expected %s' % (msg, o.metadata, meta))
    G.need(G.spec_data(o).units == G.spec_data(ref).units, '%s unit %s' % (msg, G.spec_data(o).units))


@test('collections', n=120)
def t_col(rng, k):
    cls = ['Spectrum1D', 'Spectrum2D'][k % 2]
    n = int(rng.integers(1, 7))
    items, metas = singles(rng, cls, n)
    refs = [o.copy() for o in items]
    c = col_cls(cls).from_spectra(items)
    G.need(len(c) == n, 'length')
    for i, o in enumerate(items):
        line_is(c[i], o, metas[i], 'line %d' % i)
        line_is(c[i - n], o, metas[i], 'line %d' % (i - n))
        G.same_spec(o, refs[i], 'input %d' % i)
    for i, (o, d) in enumerate(zip(c, c.iter_metadata())):
        line_is(o, items[i], metas[i], 'iterated line %d' % i)
        G.need(d == metas[i], 'iterated metadata %s' % d)
    common = {a: b for a, b in metas[0].items() if all(d.get(a) == b for d in metas)}
    G.need({a: b for a, b in c.metadata.items() if a != 'line_data'} == common, 'common metadata %s expected %s' % (c.metadata, common))
    # sub-collections
    idx = [int(i) for i in rng.integers(0, n, int(rng.integers(1, 6)))]
    for item, lines in [(idx, idx), (np.array(idx), idx), (slice(None), range(n)), (slice(1, None), range(1, n)), (slice(None, None, -1), range(n)[::-1]),
                        (slice(0, n - 1), range(n - 1))]:
        if len(lines) == 0:
            continue
        p = c[item]
        G.need(len(p) == len(lines), 'length of %s' % (item,))
        for a, i in enumerate(lines):
            line_is(p[a], items[i], metas[i], '%s line %d' % (item, a))
    # sum
    tot = sum(G.spec_data(o).magnitude for o in items)
    s = c.sum()
    G.need_close(G.spec_data(s).magnitude, tot, 'sum', atol=1e-10)
    G.need(G.spec_data(s).units == G.spec_data(c).units, 'unit of the sum')
    G.need(s.metadata == common, 'metadata of the sum %s, expected %s' % (s.metadata, common))
    G.need(s.x_tick_labels == c.x_tick_labels, 'labels of the sum')
    # display unit different from the stored one
    if str(G.spec_data(c).units) in ('1 / millielectron_volt', '1 / electron_volt'):
        e = c.copy()
        u = G.pick(rng, ['1/hartree', 'cm', '1/eV'])
        setattr(e, ('z' if '2D' in cls else 'y') + '_data_unit', u)
        G.need_close(G.spec_data(e.sum()).magnitude, G.spec_data(e).magnitude.sum(0), 'sum in %s' % u, atol=0, rtol=1e-9)
        G.need(G.spec_data(e.sum()).units == G.spec_data(e).units, 'unit of the sum')
        c = e
    # select
    def nosame(p, lines, msg):
        G.need(len(p) == len(lines), '%s: %d lines, expected %s' % (msg, len(p), lines))
        for a, i in enumerate(lines):
            q = p[a]
            G.need_close(G.spec_data(q).magnitude, G.spec_data(c[i]).magnitude, '%s line %d' % (msg, a))
            G.need(q.metadata == metas[i], '%s metadata %s %s' % (msg, q.metadata, metas[i]))
    for sel_ in ({'s': 'Si'}, {'s': ['O', 'Si']}, {'s': 'O', 'i': 1}, {'s': ('Si', 'O'), 'i': [2, 0]}, {'opt': 'u'}, {'com': 'x'}):
        vals = {a: (b if isinstance(b, (list, tuple)) else [b]) for a, b in sel_.items()}
        lines = [i for i in range(n) if all(a in metas[i] and metas[i][a] in b for a, b in vals.items())]
        if not lines:
            G.need(G.raises(lambda: c.select(**sel_), ValueError), 'empty selection does not raise')
        else:
            p = c.select(**sel_)
            order = sorted(range(len(p)), key=lambda a: 0)
            got = []
            for a in range(len(p)):
                m = [i for i in lines if np.allclose(G.spec_data(p[a]).magnitude, G.spec_data(c[i]).magnitude) and p[a].metadata == metas[i]]
                G.need(len(m) >= 1, 'select %s: line %d is none of the matching lines' % (sel_, a))
                got.append(m[0])
            G.need(sorted(got) == lines, 'select %s: lines %s, expected %s' % (sel_, got, lines))
    # group
    for keys in (('s',), ('i',), ('s', 'i'), ('opt',), ('com', 's')):
        g = c.group_by(*keys)
        groups = {}
        for i, d in enumerate(metas):
            groups.setdefault(tuple(d.get(a) for a in keys), []).append(i)
        G.need(len(g) == len(groups), 'number of groups by %s' % (keys,))
        G.need_close(G.spec_data(g.sum()).magnitude, G.spec_data(c.sum()).magnitude, 'total over groups by %s' % (keys,), atol=1e-9)
        for a, (kk, lines) in enumerate(groups.items()):
            com = {x: y for x, y in metas[lines[0]].items() if all(metas[i].get(x) == y for i in lines)}
            G.need_close(G.spec_data(g[a]).magnitude, sum(G.spec_data(c[i]).magnitude for i in lines), 'group %s' % (kk,), atol=1e-10)
            G.need(g[a].metadata == com, 'metadata of group %s: %s expected %s' % (kk, g[a].metadata, com))
    # adding collections
    more, mm = singles(rng, cls, 2, items[0])
    if all(a.x_data.units == items[0].x_data.units and a.y_data.units == items[0].y_data.units and G.spec_data(a).units == G.spec_data(c).units for a in more):
        d = c + col_cls(cls).from_spectra(more)
        for i, meta in enumerate(metas + mm):
            G.need(d[i].metadata == meta, 'metadata after adding')
            G.need_close(G.spec_data(d[i]).magnitude, G.spec_data(c[i] if i < n else more[i - n]).magnitude, 'data after adding')
    return dict(cls=cls, n=n)


@test('common metadata given at construction', n=40)
def t_common(rng, k):
    cls = G.SPEC[1] if k % 2 else G.SPEC[3]
    o = G.spectrum(rng, cls)
    want = [dict(com='x', **d) for d in o.metadata['line_data']]
    G.need([dict(d) for d in o.iter_metadata()] == want, 'lines %s' % list(o.iter_metadata()))
    for i in range(len(o)):
        G.need(o[i].metadata == want[i], 'line %d %s' % (i, o[i].metadata))
    return dict(n=len(o))
