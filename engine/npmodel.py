"""numpy as seen by the interpreted modules: the real numpy on concrete data, contracts of the
numpy functions on symbolic data."""
import types
from fractions import Fraction as Fr

import numpy as np

from . import term as T
from . import arr as A
from . import solver as S
from .term import (Poly, P, B, TRUE, FALSE, const, ZERO, Unsupported, ArrDecl, subst, fresh_index, mk_sum,
                   ite, band, bor, bnot, blt, ble, beq, asB)
from .arr import Arr, mk, lift, conc, Comp, kind_of, promote
from .units import Q, is_unit, registry, as_unit

SYM = {}
TRACE = []      # contract calls (eigh, inv, ...) made during execution


def reg(*names):
    def d(f):
        for n in names:
            SYM[n] = f
        return f
    return d


def anysym(x):
    if TOKENS is not None and isinstance(x, str):
        return str(x) in TOKENS
    if isinstance(x, A.NestedList):
        return True
    if isinstance(x, (Arr, Poly, B, Comp, CompCat, Q, A.WhereIdx, A.MaskAxis, A.RowComp)):
        return True
    if isinstance(x, (list, tuple)):
        return any(anysym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(anysym(y) for y in x.flat)
    return False


def unq(x):
    return x.m if isinstance(x, Q) else x


def simple(op):
    """elementwise function keeping units"""
    def f(x, **k):
        if isinstance(x, Q):
            return Q(f(x.m), x.u)
        return A.unop(x, op)
    return f


for _n, _o in (('abs', 'abs'), ('absolute', 'abs'), ('fabs', 'abs'), ('conj', 'conj'), ('conjugate', 'conj'), ('rint', 'rint'),
               ('floor', 'floor'), ('ceil', 'ceil'), ('real', 'real'), ('imag', 'imag'),
               ('negative', 'neg')):
    SYM[_n] = simple(_o)


def dimless(op):
    def f(x, **k):
        if isinstance(x, Q):
            x = x.to('radian').m if op in ('sin', 'cos') else x.to('dimensionless').m
        return A.unop(x, op)
    return f


for _n, _o in (('exp', 'exp'), ('log', 'log'), ('tanh', 'tanh'), ('sin', 'sin'), ('cos', 'cos'),
               ('arccos', 'arccos'), ('logical_not', 'not'), ('isnan', 'isnan'), ('sign', 'sign'), ('isfinite', 'isfinite')):
    SYM[_n] = dimless(_o)


@reg('sqrt')
def np_sqrt(x, dtype=None):
    if isinstance(x, Q):
        return Q(np_sqrt(x.m, dtype), x.u ** 0.5)
    if dtype is not None and np.dtype(dtype).kind == 'c' or getattr(x, 'kind', '') == 'c':
        return A.unop(x, 'csqrt')
    return A.unop(x, 'sqrt')


@reg('cbrt')
def np_cbrt(x):
    if isinstance(x, Q):
        return Q(np_cbrt(x.m), x.u ** (1 / 3))
    return A.unop(x, 'cbrt')


@reg('square')
def np_square(x):
    if isinstance(x, Q):
        return Q(np_square(x.m), x.u ** 2)
    return A.unop(x, 'square')


@reg('power', 'float_power')
def np_power(x, e):
    if isinstance(x, Q):
        return x ** e
    return A.binop('**', x, e)


def _bin(op):
    def f(a, b, out=None, where=None, **k):
        if where is not None:
            r = _bin(op)(a, b)
            w = lift(where) if not isinstance(where, bool) else where
            if out is None:
                out_ = uninit(r)
                return A.where3(w, r, out_)
            A.setitem(out, Ellipsis, A.where3(w, r, out))
            return out
        if isinstance(a, Q) or isinstance(b, Q) or is_unit(a) or is_unit(b):
            import operator as o
            return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv}[op](a, b)
        r = A.binop(op, a, b)
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return f


_un = [0]


def uninit(like):
    """uninitialised memory: fresh unconstrained contents"""
    _un[0] += 1
    d = ArrDecl('uninit%d' % _un[0], like.ndim, 'real' if like.kind != 'c' else 'complex')
    return mk(like.vshape, lambda *i: d(*i), like.kind)


for _n, _o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'), ('mod', '%'), ('remainder', '%'),
               ('floor_divide', '//'), ('logical_and', '&'), ('logical_or', '|')):
    SYM[_n] = _bin(_o)
for _n, _o in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
    SYM[_n] = _bin(_o)


def _mm(name):
    def two(x, y):
        b = S.quick(blt(x, y)) if (x.isreal() and y.isreal()) else None
        if b is True:
            return y if name == 'max' else x
        if b is False:
            return x if name == 'max' else y
        c = blt(x, y)
        return ite(c, y, x) if name == 'max' else ite(c, x, y)

    def f(x, y):
        if isinstance(x, Q) or isinstance(y, Q):
            q = x if isinstance(x, Q) else y
            return Q(f(q._same(x), q._same(y)), q.u)
        return A.mapn(two, [x, y])
    return f


SYM['maximum'] = _mm('max')
SYM['minimum'] = _mm('min')
SYM['fmax'] = SYM['maximum']
SYM['fmin'] = SYM['minimum']


@reg('clip')
def np_clip(x, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **k):
    lo = lo if lo is not None else a_min if a_min is not None else min
    hi = hi if hi is not None else a_max if a_max is not None else max
    x = lift(x) if not isinstance(x, Q) else x
    for b, f in ((lo, 'maximum'), (hi, 'minimum')):
        inf = isinstance(b, float) and b in (float('inf'), float('-inf'))
        if b is not None and not inf:
            x = SYM[f](x, b)
    return x


@reg('round', 'around', 'round_')
def np_round(x, decimals=0, **k):
    if 'around' in HOOKS:
        return HOOKS['around'](x, decimals)
    if decimals != 0:
        raise Unsupported('rounding to digits of symbolic data')
    return SYM['rint'](x)


def _dl(x):
    return x.to('dimensionless').m if isinstance(x, Q) else x


@reg('expm1')
def np_expm1(x, **k):
    return A.binop('-', A.unop(_dl(x), 'exp'), 1)


@reg('log1p')
def np_log1p(x, **k):
    return A.unop(A.binop('+', _dl(x), 1), 'log')


@reg('reciprocal')
def np_reciprocal(x, **k):
    return 1 / x if isinstance(x, Q) else A.binop('/', 1, lift(x))


@reg('tan')
def np_tan(x, **k):
    return A.binop('/', SYM['sin'](x), SYM['cos'](x))


@reg('sinh')
def np_sinh(x, **k):
    x = _dl(x)
    return A.binop('/', A.binop('-', A.unop(x, 'exp'), A.unop(A.unop(x, 'neg'), 'exp')), 2)


@reg('cosh')
def np_cosh(x, **k):
    x = _dl(x)
    return A.binop('/', A.binop('+', A.unop(x, 'exp'), A.unop(A.unop(x, 'neg'), 'exp')), 2)


@reg('deg2rad', 'radians')
def np_deg2rad(x, **k):
    return A.binop('*', x, A.binop('/', Poly.atom(T.PI), 180))


@reg('rad2deg', 'degrees')
def np_rad2deg(x, **k):
    return A.binop('/', A.binop('*', x, 180), Poly.atom(T.PI))


@reg('hypot')
def np_hypot(x, y, **k):
    return np_sqrt(SYM['add'](np_square(x), np_square(y)))


@reg('positive')
def np_positive(x, **k):
    return x.copy() if hasattr(x, 'copy') else x


@reg('count_nonzero')
def np_count_nonzero(x, axis=None, keepdims=False):
    x = lift(unq(x))
    return np_sum(x if x.kind == 'b' else A.binop('!=', x, 0), axis, keepdims)


@reg('nonzero')
def np_nonzero(x):
    return np_where(x)


@reg('logical_xor')
def np_xor(x, y, **k):
    return A.binop('!=', x, y)


@reg('ediff1d')
def np_ediff1d(x, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported('ediff1d with ends')
    return SYM['diff'](x)


@reg('ptp')
def np_ptp(x, axis=None, **k):
    return SYM['subtract'](np_max(x, axis), np_min(x, axis))


@reg('atleast_1d')
def np_atleast_1d(x):
    if isinstance(x, Q):
        return Q(np_atleast_1d(x.m), x.u)
    x = lift(x)
    return A.stack([x]) if not isinstance(x, Arr) else x if x.ndim else A.reshape(x, (1,))


@reg('atleast_2d')
def np_atleast_2d(x):
    if isinstance(x, Q):
        return Q(np_atleast_2d(x.m), x.u)
    x = np_atleast_1d(x)
    return x[None] if x.ndim == 1 else x


@reg('tensordot')
def np_tensordot(a, b, axes=2):
    if isinstance(a, Q) or isinstance(b, Q):
        qa, qb = (x if isinstance(x, Q) else Q(x, None) for x in (a, b))
        return Q(np_tensordot(qa.m, qb.m, axes), qa.u * qb.u)
    a, b = lift(a), lift(b)
    if isinstance(axes, int):
        x, y = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        x, y = ([v] if isinstance(v, int) else list(v) for v in axes)
    let = 'abcdefghijklmnopqrstuvwxyz'
    la = list(let[:a.ndim])
    lb = list(let[a.ndim:a.ndim + b.ndim])
    for i, j in zip(x, y):
        lb[j] = la[i]
    con = {la[i] for i in x}
    out = [c for c in la + lb if c not in con]
    return A.einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)


@reg('meshgrid')
def np_meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [np_atleast_1d(x) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == 'xy' and n > 1:
        order[0], order[1] = 1, 0
    shape = [xs[o].vshape[0] for o in order]
    res = []
    for k, x in enumerate(xs):
        pos = order.index(k)
        sh = [s if (not sparse or d == pos) else const(1) for d, s in enumerate(shape)]
        res.append(mk(sh, lambda *i, x=x, pos=pos: x.at(i[pos]), x.kind))
    return res


@reg('rollaxis')
def np_rollaxis(x, axis, start=0):
    ax = list(range(x.ndim))
    axis %= x.ndim
    start = start + x.ndim if start < 0 else start
    ax.remove(axis)
    ax.insert(start if start <= axis else start - 1, axis)
    return SYM['transpose'](x, ax)


@reg('flipud')
def np_flipud(x):
    return SYM['flip'](x, 0)


@reg('fliplr')
def np_fliplr(x):
    return SYM['flip'](x, 1)


@reg('linalg.multi_dot')
def np_multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = SYM['dot'](r, x)
    return r


# ------------------------------------------------------------- creation
def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(s)
    if isinstance(s, np.ndarray):
        return tuple(s.tolist())
    return (s,)


@reg('zeros')
def np_zeros(shape, dtype=None, order='C'):
    return mk(_shape(shape), lambda *i: ZERO, A.dtype_kind(dtype) or 'f')


@reg('ones')
def np_ones(shape, dtype=None, order='C'):
    return mk(_shape(shape), lambda *i: const(1), A.dtype_kind(dtype) or 'f')


@reg('empty')
def np_empty(shape, dtype=None, order='C'):
    sh = _shape(shape)
    _un[0] += 1
    kd = A.dtype_kind(dtype) or 'f'
    d = ArrDecl('uninit%d' % _un[0], len(sh), {'f': 'real', 'c': 'complex', 'i': 'int', 'b': 'int'}[kd])
    return mk(sh, lambda *i: d(*i), kd)


@reg('full')
def np_full(shape, v, dtype=None):
    if isinstance(v, Q):
        return Q(np_full(shape, v.m, dtype), v.u)
    v = lift(v)
    if isinstance(v, Arr):
        r = mk(_shape(shape), lambda *i: ZERO, A.dtype_kind(dtype) or kind_of(v))
        A.setitem(r, Ellipsis, v)
        return r
    pv = v.poly() if isinstance(v, B) else P(v)
    return mk(_shape(shape), lambda *i: pv, A.dtype_kind(dtype) or kind_of(v))


def _like(fn):
    def f(a, dtype=None, **k):
        a = unq(a)      # (pint: the result is a plain array)

        a = lift(a)
        return fn(a.vshape, dtype if dtype is not None else a.kind)
    return f


SYM['zeros_like'] = _like(np_zeros)
SYM['ones_like'] = _like(np_ones)
SYM['empty_like'] = _like(np_empty)


@reg('full_like')
def np_full_like(a, v, dtype=None):
    return np_full(lift(unq(a)).vshape, v, dtype)


@reg('identity', 'eye')
def np_identity(n, dtype=None):
    return mk((n, n), lambda i, j: T.bracket('eq', i - j), A.dtype_kind(dtype) or 'f')


@reg('arange')
def np_arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if isinstance(a, Q) or isinstance(b, Q):
        raise Unsupported('arange of quantities')
    a, b, st = P(a), P(b), P(step)
    if st == 1:
        n = b - a
        if not n.isint():
            n = S.ceil(n)
    else:
        n = S.ceil((b - a) / st)
    if S.sign(n) not in ('>', '+', '0'):
        d = S.decide(blt(n, 0))
        if d is True:
            n = ZERO
        elif d is None and A.fork_hook[0](blt(n, 0)):
            n = ZERO
    return mk((n,), lambda i: a + i * st, A.dtype_kind(dtype) or promote(kind_of(a), kind_of(st)))


@reg('linspace')
def np_linspace(a, b, num=50, endpoint=True, **k):
    if isinstance(a, Q) or isinstance(b, Q):
        q = a if isinstance(a, Q) else b
        return Q(np_linspace(q._same(a), q._same(b), num, endpoint), q.u)
    a, b, n = P(a), P(b), P(num)
    d = (n - 1) if endpoint else n
    return mk((n,), lambda i: a + (b - a) * i / d, 'f')


@reg('tri')
def np_tri(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    k = P(k)
    return mk((n, m), lambda i, j: ble(j, i + k).poly(), A.dtype_kind(dtype) or 'f')


TOKENS = None       # while set: numerals in text files that stand for symbolic values


def _texts(x):
    return all(_texts(y) if isinstance(y, (list, np.ndarray)) else isinstance(y, str) for y in x)


@reg('array', 'asarray', 'ascontiguousarray', 'asanyarray')
def np_array(x, dtype=None, copy=None, order=None, **k):
    if TOKENS is not None and isinstance(x, list) and x and _texts(x):
        if dtype is None:
            return np.array(x)
        if A.dtype_kind(dtype) == 'f':
            f = lambda y: [f(z) for z in y] if isinstance(y, list) else TOKENS[str(y)] if str(y) in TOKENS else float(y)
            return np_array(f(x), dtype)
    if isinstance(x, Q):
        return np_array(x.m, dtype)      # pint strips units with a warning
    if isinstance(x, Comp):
        return x
    if isinstance(x, (A.WhereIdx,)):
        raise Unsupported('array of selection')
    if isinstance(x, (list, tuple)) and not isinstance(x, A.NestedList) and any(isinstance(y, Q) for y in x):
        raise Unsupported('array of quantities')
    if isinstance(x, B):
        x = x.poly()
    a = lift(x)
    kd = A.dtype_kind(dtype)
    if isinstance(a, Arr):
        r = a.astype(kd) if kd and kd != a.kind else a.copy()
        if isinstance(x, list) or type(x).__name__ in ('SymSeq', 'SymIter') or order == 'C':
            r.contig = True
        return r
    return a if kd is None else A.cast(a, kd)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, Arr) and (dtype is None or A.dtype_kind(dtype) == x.kind):
        return x
    return np_array(x, dtype)


def np_ascontiguousarray(x, dtype=None, **k):
    r = np_asarray(x, dtype)
    if isinstance(r, Arr):
        r = Arr(r.buf, r.dims, r.vshape)
        r.contig = True
    return r


SYM['asarray'] = SYM['asanyarray'] = np_asarray
SYM['ascontiguousarray'] = np_ascontiguousarray


@reg('copy')
def np_copy(x, **k):
    if isinstance(x, Q):
        return Q(np_copy(x.m), x.u)
    return x.copy() if isinstance(x, (Arr, Comp)) else np_array(x)


# ------------------------------------------------------------- structure
def keepu(f):
    def g(x, *a, **k):
        if isinstance(x, Q):
            return Q(g(x.m, *a, **k), x.u)
        if isinstance(x, (list, tuple, np.ndarray)):
            x = lift(x)
        return f(x, *a, **k)
    return g


@reg('transpose')
@keepu
def np_transpose(x, axes=None):
    return x.transpose(axes) if axes is not None else x.transpose()


@reg('swapaxes')
@keepu
def np_swapaxes(x, a, b):
    ax = list(range(x.ndim))
    ax[a], ax[b] = ax[b], ax[a]
    return x.transpose(ax)


@reg('moveaxis')
@keepu
def np_moveaxis(x, s, d):
    ax = [k for k in range(x.ndim) if k != s % x.ndim]
    ax.insert(d % x.ndim, s % x.ndim)
    return x.transpose(ax)


@reg('reshape')
@keepu
def np_reshape(x, shape, order='C'):
    return A.reshape(x, shape, order)


@reg('ravel')
@keepu
def np_ravel(x):
    return A.reshape(x, (-1,))


@reg('squeeze')
@keepu
def np_squeeze(x, axis=None):
    return x.squeeze(axis)


@reg('expand_dims')
@keepu
def np_expand_dims(x, axis):
    key = [slice(None)] * x.ndim
    key.insert(axis if axis >= 0 else x.ndim + 1 + axis, None)
    return A.getitem(x, tuple(key))


@reg('broadcast_to')
@keepu
def np_broadcast_to(x, shape):
    shape = [A.dimp(s) for s in _shape(shape)]
    return mk(shape, lambda *i: A.bat(x, i, shape), kind_of(x))


@reg('diff')
@keepu
def np_diff(x, n=1, axis=-1, prepend=None, append=None):
    ax = axis % x.ndim
    sh = list(x.vshape)
    ln = sh[ax] - 1
    if S.sign(ln) not in ('>', '+', '0'):
        d = S.decide(blt(ln, 0))
        if d is True or (d is None and A.fork_hook[0](blt(ln, 0))):
            ln = ZERO
    sh[ax] = ln

    def f(*i):
        j = list(i)
        j[ax] = i[ax] + 1
        return x.at(*j) - x.at(*i)
    r = mk(sh, f, x.kind if x.kind != 'b' else 'i')
    return r if n == 1 else np_diff(r, n - 1, axis)


@reg('cumsum')
@keepu
def np_cumsum(x, axis=None):
    if axis is None and x.ndim > 1:
        x = x.ravel()
        axis = 0
    ax = (axis or 0) % x.ndim

    def f(*i):
        n, y = fresh_index(i[ax] + 1)
        j = list(i)
        j[ax] = y
        return mk_sum(n, 0, i[ax] + 1, x.at(*j))
    return mk(x.vshape, f, 'i' if x.kind == 'b' else x.kind)


@reg('roll')
@keepu
def np_roll(x, shift, axis=None):
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('roll')
        axis = 0
    sh = P(shift)
    ax = axis % x.ndim

    def f(*i):
        j = list(i)
        j[ax] = S.imod(i[ax] - sh, x.vshape[ax])
        return x.at(*j)
    return mk(x.vshape, f, x.kind)


@reg('flip')
@keepu
def np_flip(x, axis=None):
    axes = range(x.ndim) if axis is None else [axis % x.ndim]
    return A.getitem(x, tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(x.ndim)))


@reg('repeat')
@keepu
def np_repeat(x, reps, axis=None):
    if not isinstance(x, Arr):
        x = A.stack([x])
    if axis is None:
        x = x.ravel()
        axis = 0
    ax = axis % x.ndim
    if isinstance(reps, (list, tuple, np.ndarray)) and np.size(reps) == 1:
        reps = np.asarray(reps).item()
    if isinstance(reps, Arr) and reps.ndim == 1 and conc(reps.vshape[0]) == 1:
        reps = reps.at(ZERO)
    if isinstance(reps, (Arr, list, np.ndarray)):
        reps = lift(reps)
        cs = [conc(reps.at(const(k))) for k in range(conc(reps.vshape[0]) or 0)] if conc(reps.vshape[0]) is not None else None
        if cs is None or any(c is None for c in cs):
            n = reps.vshape[0]
            cn = conc(n)
            if cn is not None and OPT_FORK:
                cs = [fork_int(reps.at(const(k))) for k in range(cn)]
            else:
                raise Unsupported('repeat by a symbolic count array')
        idx = [k for k, c in enumerate(cs) for _ in range(c)]
        key = tuple(lift(np.array(idx, dtype=int)) if d == ax else slice(None) for d in range(x.ndim))
        return A.getitem(x, key)
    r = P(reps)
    sh = list(x.vshape)
    sh[ax] = sh[ax] * r

    def f(*i):
        j = list(i)
        j[ax] = S.idiv(i[ax], r) if conc(x.vshape[ax]) != 1 else ZERO
        return x.at(*j)
    return mk(sh, f, x.kind)


OPT_FORK = True


def fork_int(p, lo=0, hi=8):
    p = P(p)
    if p.isconst():
        return int(p.cval())
    for k in range(lo, hi):
        if A.fork_hook[0](beq(p, k)):
            return k
    raise Unsupported('integer value not bounded')


@reg('tile')
@keepu
def np_tile(x, reps):
    reps = list(_shape(reps))
    if not isinstance(x, Arr):
        x = A.stack([x])
    if len(reps) < x.ndim:
        reps = [1] * (x.ndim - len(reps)) + reps
    src = list(x.vshape)
    pad = len(reps) - len(src)
    full = [const(1)] * pad + src
    sh = [s * P(r) for s, r in zip(full, reps)]

    def f(*i):
        j = [S.imod(i[k], full[k]) if conc(full[k]) != 1 else ZERO for k in range(pad, len(full))]
        return x.at(*j)
    return mk(sh, f, x.kind)


def _q_nested(a):
    """a list of quantities is a quantity array (pint converts sequences)"""
    if isinstance(a, (list, tuple)) and any(isinstance(x, Q) for x in a):
        u = [x for x in a if isinstance(x, Q)][0].u
        q = Q(1, u)
        return Q(A.stack([q._same(x) for x in a]), u)
    return a


def _q_list(arrs):
    if isinstance(arrs, Q):
        return [Q(x, arrs.u) for x in arrs.m], arrs.u
    arrs = [_q_nested(a) for a in arrs]
    us = [a for a in arrs if isinstance(a, Q)]
    return arrs, (us[0].u if us else None)


def _unify(arrs):
    arrs, u = _q_list(arrs)
    if u is None:
        return arrs, None
    q = Q(1, u)
    return [q._same(a) for a in arrs], u


class CompCat:
    """concatenation of compressed (and plain) one-dimensional arrays: only for sums over all elements"""

    def __init__(self, parts):
        self.parts = parts


def comp_parts(x):
    return x.parts if isinstance(x, CompCat) else [x]


@reg('concatenate')
def np_concatenate(arrs, axis=0):
    if any(isinstance(x, (Comp, CompCat)) for x in arrs):
        return CompCat([y for x in arrs for y in comp_parts(x)])
    arrs, u = _unify(arrs)
    r = A.concatenate(arrs, axis)
    return Q(r, u) if u is not None else r


@reg('hstack')
def np_hstack(arrs):
    arrs, u = _unify(arrs)
    arrs = [lift(a) for a in arrs]
    arrs = [a if isinstance(a, Arr) else A.stack([a]) for a in arrs]
    r = A.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)
    return Q(r, u) if u is not None else r


@reg('vstack')
def np_vstack(arrs):
    arrs, u = _unify(arrs)
    arrs = [lift(a) for a in arrs]
    arrs = [a[None] if a.ndim == 1 else a for a in arrs]
    r = A.concatenate(arrs, 0)
    return Q(r, u) if u is not None else r


@reg('column_stack')
def np_column_stack(arrs):
    arrs, u = _unify(arrs)
    arrs = [lift(a) for a in arrs]
    arrs = [a[:, None] if a.ndim == 1 else a for a in arrs]
    r = A.concatenate(arrs, 1)
    return Q(r, u) if u is not None else r


@reg('stack')
def np_stack(arrs, axis=0):
    arrs, u = _unify(arrs)
    r = A.stack(arrs, axis)
    return Q(r, u) if u is not None else r


@reg('append')
def np_append(a, b, axis=None):
    if isinstance(a, Q) or isinstance(b, Q):
        q = a if isinstance(a, Q) else b
        return Q(np_append(q._same(a), q._same(b), axis), q.u)
    if isinstance(a, A.Growing):
        if axis is None and not isinstance(b, (Arr, A.Comp, list, tuple, np.ndarray)):
            return a.grow(b)
        raise Unsupported('several elements appended in a symbolic loop')
    a, b = lift(a), lift(b)
    a = a if isinstance(a, Arr) else A.stack([a])
    b = b if isinstance(b, Arr) else A.stack([b])
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    r = A.concatenate([a, b], axis)
    r.appended = True
    return r


@reg('insert')
def np_insert(a, idx, vals, axis=None):
    if isinstance(a, Q):
        return Q(np_insert(a.m, idx, a._same(vals), axis), a.u)
    a = lift(a)
    if isinstance(idx, (Arr, list, np.ndarray)):
        il = lift(idx)
        n = conc(il.vshape[0])
        if n is None:
            raise Unsupported('insert at a symbolic number of places')
        pos = [il.at(const(k)) for k in range(n)]
    else:
        pos = [P(idx)]
    ax = 0 if axis is None else axis % a.ndim
    if axis is None and a.ndim > 1:
        a = a.ravel()
    v = lift(vals)
    parts = []
    prev = ZERO
    # positions must be ascending (checked)
    for k, p in enumerate(pos):
        p = A.norm_index(p, a.vshape[ax] + 1, 'insert position')
        if S.decide(blt(p, prev)) is not False:
            raise Unsupported('insert positions not ascending')
        key = [slice(None)] * a.ndim
        key[ax] = slice(prev, p)
        parts.append(A.getitem(a, tuple(key)))
        sh = list(a.vshape)
        sh[ax] = const(1)
        if isinstance(v, Arr) and v.ndim == a.ndim and len(pos) > 1:
            kk = [slice(None)] * a.ndim
            kk[ax] = slice(k, k + 1)
            val = A.getitem(v, tuple(kk))
        elif isinstance(v, Arr) and v.ndim == 1 and a.ndim == 1 and conc(v.vshape[0]) != 1:
            val = A.getitem(v, slice(k, k + 1))
        else:
            val = v
        parts.append(mk(sh, lambda *i, val=val: A.bat(val, i, sh), a.kind))
        prev = p
    key = [slice(None)] * a.ndim
    key[ax] = slice(prev, None)
    parts.append(A.getitem(a, tuple(key)))
    return A.concatenate(parts, ax)


@reg('take')
def np_take(a, idx, axis=None):
    if isinstance(a, Q):
        return Q(np_take(a.m, idx, axis), a.u)
    a = lift(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    key = [slice(None)] * a.ndim
    key[axis % a.ndim] = idx
    return A.getitem(a, tuple(key))


@reg('fromiter')
def np_fromiter(it, dtype=float, count=-1):
    r = it.to_arr() if hasattr(it, 'to_arr') else np_array([it.item(const(k)) for k in range(conc(it.n))]) if hasattr(it, 'item') and hasattr(it, 'n') and conc(it.n) is not None else None
    if r is None:
        if not (hasattr(it, 'item') and hasattr(it, 'n')):
            r = np_array(list(it))
        else:
            first = it.item(A.fresh_index(it.n)[1])
            r = mk((it.n,), lambda i: it.item(i), kind_of(first))
    return r.astype(A.dtype_kind(dtype))


@reg('where')
def np_where(c, x=None, y=None):
    if x is None and y is None:
        c = lift(unq(c))
        if isinstance(c, Comp):
            raise Unsupported('where of a selection')
        m = c if c.kind == 'b' else A.binop('!=', c, 0)
        if m.ndim == 1 and conc(m.vshape[0]) is not None and conc(m.vshape[0]) <= 12 and A.OPTS['fork_masks']:
            return (A.fork_nonzero(m),)
        if m.ndim == 1 and A.OPTS.get('enum_where'):
            return (A.enum_where(m)[0],)
        return A.WhereIdx(m)
    if isinstance(x, Q) or isinstance(y, Q):
        q = x if isinstance(x, Q) else y
        return Q(A.where3(c, q._same(x), q._same(y)), q.u)
    return A.where3(c, x, y)


SYM['nonzero'] = lambda c: np_where(c)


@reg('flatnonzero')
def np_flatnonzero(c):
    return np_where(lift(c).ravel())[0]


# ------------------------------------------------------------- reductions
@reg('sum')
def np_sum(x, axis=None, keepdims=False, dtype=None, **k):
    if isinstance(x, Q):
        return Q(np_sum(x.m, axis, keepdims), x.u)
    if isinstance(x, (list, tuple)) and any(isinstance(y, Q) for y in x):
        x = np_stack(x)
        return np_sum(x, axis, keepdims)
    return A.reduce_sum(x, axis, keepdims)


@reg('mean')
def np_mean(x, axis=None, keepdims=False, **k):
    if isinstance(x, Q):
        return Q(np_mean(x.m, axis), x.u)
    x = lift(x)
    n = const(1)
    axes = range(x.ndim) if axis is None else ([axis] if not isinstance(axis, tuple) else axis)
    for k2 in axes:
        n = n * x.vshape[k2]
    return A.binop('/', A.reduce_sum(x, axis, keepdims), n)


@reg('average')
def np_average(x, axis=None, weights=None, **k):
    if isinstance(x, Q):
        return Q(np_average(x.m, axis, weights), x.u)
    if weights is None:
        return np_mean(x, axis)
    x, w = lift(x), lift(unq(weights))
    if w.ndim != x.ndim:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        key = [None] * x.ndim
        key[axis % x.ndim] = slice(None)
        if w.ndim != 1:
            raise TypeError('1D weights expected when shapes of a and weights differ.')
        A.need_same(w.vshape[0], x.vshape[axis % x.ndim], 'Length of weights not compatible with specified axis.')
        wb = A.getitem(w, tuple(key))
        tot = A.reduce_sum(w)
    else:
        wb = w
        tot = A.reduce_sum(w, axis)
    return A.binop('/', A.reduce_sum(A.binop('*', x, wb), axis), tot)


@reg('prod')
def np_prod(x, axis=None, **k):
    if isinstance(x, Q):
        n = conc(x.shape[0])
        return Q(np_prod(x.m), x.u ** n)
    x = lift(x)
    if not isinstance(x, Arr):
        return x
    if axis is not None:
        ax = axis % x.ndim
        n = conc(x.vshape[ax])
        if n is None:
            raise Unsupported('product over a symbolic range')
        r = None
        for k2 in range(n):
            y = A.getitem(x, tuple(k2 if d == ax else slice(None) for d in range(x.ndim)))
            r = y if r is None else A.binop('*', r, y)
        return r
    r = const(1)
    if not A.concrete_shape(x):
        raise Unsupported('product over a symbolic range')
    for k2 in np.ndindex(*[conc(s) for s in x.vshape]):
        r = r * x.at(*k2)
    return r


def extremum(x, op, axis=None):
    """max/min over an axis: folded for concrete length, else an opaque value with its contract"""
    x = lift(x)
    if not isinstance(x, Arr):
        return x
    two = SYM['maximum' if op == 'max' else 'minimum']
    if axis is not None and x.ndim > 1:
        ax = axis % x.ndim
        n = conc(x.vshape[ax])
        if n is not None:
            r = None
            for k in range(n):
                y = A.getitem(x, tuple(k if d == ax else slice(None) for d in range(x.ndim)))
                r = y if r is None else two(r, y)
            return r
        keep = [d for d in range(x.ndim) if d != ax]
        decl = ArrDecl('%s_%d' % (op, next(A._ids)), len(keep), 'int' if x.kind == 'i' else 'real')
        decl.body = x
        return mk([x.vshape[d] for d in keep], lambda *i: decl(*i), x.kind)
    if A.concrete_shape(x):
        items = [x.at(*k) for k in np.ndindex(*[conc(s) for s in x.vshape])]
        r = items[0]
        for y in items[1:]:
            r = two(r, y)
        return r
    # canonical opaque value: the key is the content over canonical index names
    names = ['%%m.%d' % k for k in range(x.ndim)]
    syms = [Poly.atom(T.Sym(n, 'int', nonneg=True)) for n in names]
    body = T.rename(x.buf.body, dict(zip(x.buf.names, [P(q) for q in x.bidx(syms)])))
    args = tuple(P(s) for s in x.vshape) + (body,)
    return Poly.atom(T.Fn('%sof%d' % (op, x.ndim), args, 'int' if x.kind == 'i' else 'real', nonneg=body.isnonneg()))


@reg('max', 'amax', 'nanmax')
def np_max(x, axis=None, **k):
    if k.get('keepdims'):
        return np_keep(np_max, x, axis, k)
    if isinstance(x, Q):
        return Q(extremum(x.m, 'max', axis), x.u)
    return extremum(x, 'max', axis)


@reg('min', 'amin', 'nanmin')
def np_min(x, axis=None, **k):
    if k.get('keepdims'):
        return np_keep(np_min, x, axis, k)
    if isinstance(x, Q):
        return Q(extremum(x.m, 'min', axis), x.u)
    return extremum(x, 'min', axis)


def np_keep(f, x, axis, k):
    if set(k) - {'keepdims'}:
        raise Unsupported('options %s' % sorted(k))
    if axis is None:
        raise Unsupported('keepdims over all axes')
    return SYM['expand_dims'](f(x, axis), axis % unq(x).ndim)


def _kd(f):
    def g(self, axis=None, keepdims=False, **k):
        r = f(self, axis)
        if not keepdims:
            return r
        if axis is None:
            return mk([const(1)] * self.ndim, lambda *i: r, self.kind)
        return SYM['expand_dims'](r, axis % self.ndim)
    return g


def _meth(name):
    return lambda self, *a, **k: SYM[name](self, *a, **k)


Arr.max = _kd(lambda self, axis: extremum(self, 'max', axis))
Arr.min = _kd(lambda self, axis: extremum(self, 'min', axis))
for _n in ('swapaxes', 'cumsum', 'prod', 'take', 'argmax', 'argmin', 'round', 'clip', 'diagonal', 'trace', 'nonzero'):
    if not hasattr(Arr, _n):
        setattr(Arr, _n, _meth(_n))


def _fill(self, v):
    A.setitem(self, Ellipsis, v)


Arr.fill = _fill


@reg('argmax')
def np_argmax(x, axis=None):
    return arg_ext(x, 'max', axis)


@reg('argmin')
def np_argmin(x, axis=None):
    return arg_ext(x, 'min', axis)


def arg_ext(x, op, axis=None):
    x = lift(unq(x))
    if x.ndim == 1 and conc(x.vshape[0]) is not None:
        n = conc(x.vshape[0])
        best = 0
        for k in range(1, n):
            c = blt(x.at(const(best)), x.at(const(k))) if op == 'max' else blt(x.at(const(k)), x.at(const(best)))
            d = S.decide(c)
            if d is None:
                d = A.fork_hook[0](c)
            if d:
                best = k
        return best
    h = HOOKS.get('arg' + op)
    if h is not None:
        return h(x, axis)
    raise Unsupported('arg%s' % op)


HOOKS = {}     # contract-supplied models of library functions (name -> function)


@reg('all')
def np_all(x, axis=None, **k):
    return A.b_all(unq(x), axis)


@reg('any')
def np_any(x, axis=None, **k):
    return bnot(A.b_all(A.unop(lift(unq(x)), 'not'), axis)) if axis is None else A.unop(A.b_all(A.unop(lift(x), 'not'), axis), 'not')


@reg('isclose')
def np_isclose(a, b, rtol=Fr(1, 10**5), atol=Fr(1, 10**8), **k):
    a, b = _same2(a, b)
    if isinstance(atol, Q) :
        atol = atol.m
    rt, at = P(rtol), P(atol)
    full = A.mapn(lambda x, y: ble(T.fabs(x - y), at + rt * T.fabs(y)).poly(), [a, b], 'b')
    return full if isinstance(full, Arr) else A.asB_br(full)


def _same2(a, b):
    if isinstance(a, Q) or isinstance(b, Q):
        q = a if isinstance(a, Q) else b
        return q._same(a), q._same(b)
    return a, b


@reg('allclose')
def np_allclose(a, b, **k):
    return np_all(np_isclose(a, b, **k))


@reg('array_equal')
def np_array_equal(a, b, **k):
    a, b = lift(unq(a)), lift(unq(b))
    if len(a.vshape) != len(b.vshape):
        return False
    for u, v in zip(a.vshape, b.vshape):
        d = S.decide(beq(u, v))
        if d is False:
            return False
        if d is None:
            if not A.fork_hook[0](beq(u, v)):
                return False
    return np_all(A.binop('==', a, b))


@reg('size')
def np_size(x, axis=None):
    x = unq(x)
    return x.size if axis is None else x.shape[axis]


@reg('shape')
def np_shape(x):
    x = unq(x)
    return lift(x).shape if not isinstance(x, (Poly, B)) else ()


@reg('ndim')
def np_ndim(x):
    x = unq(x)
    return x.ndim if hasattr(x, 'ndim') else (0 if isinstance(x, (Poly, B)) else lift(x).ndim)


# ------------------------------------------------------------- algebra
@reg('einsum')
def np_einsum(sub, *ops, **k):
    u = None
    for o in ops:
        if isinstance(o, Q):
            u = o.u if u is None else u * o.u
    r = A.einsum(sub, *[unq(o) for o in ops])
    return Q(r, u) if u is not None else r


@reg('dot', 'inner')
def np_dot(a, b):
    if isinstance(a, Q) or isinstance(b, Q):
        qa, qb = (a if isinstance(a, Q) else Q(a, None)), (b if isinstance(b, Q) else Q(b, None))
        return Q(np_dot(qa.m, qb.m), qa.u * qb.u)
    return A.matmul(a, b, dot=True)


@reg('matmul')
def np_matmul(a, b):
    if isinstance(a, Q) or isinstance(b, Q):
        qa, qb = (a if isinstance(a, Q) else Q(a, None)), (b if isinstance(b, Q) else Q(b, None))
        return Q(np_matmul(qa.m, qb.m), qa.u * qb.u)
    return A.matmul(a, b)


@reg('vdot')
def np_vdot(a, b):
    return A.matmul(A.unop(lift(a).ravel(), 'conj'), lift(b).ravel())


@reg('outer')
def np_outer(a, b):
    a, b = lift(a).ravel(), lift(b).ravel()
    return mk((a.vshape[0], b.vshape[0]), lambda i, j: a.at(i) * b.at(j), promote(a.kind, b.kind))


@reg('cross')
def np_cross(a, b, **k):
    if isinstance(a, Q) or isinstance(b, Q):
        qa, qb = (a if isinstance(a, Q) else Q(a, None)), (b if isinstance(b, Q) else Q(b, None))
        return Q(np_cross(qa.m, qb.m), qa.u * qb.u)
    a, b = lift(a), lift(b)
    A.need_same(a.vshape[-1], const(3))
    A.need_same(b.vshape[-1], const(3))
    full = A.bshape(a.vshape[:-1] + (const(3),), b.vshape[:-1] + (const(3),))

    def comp(i, c):
        j = list(i[:-1])
        n, m = (c + 1) % 3, (c + 2) % 3
        return (A.bat(a, j + [const(n)], full) * A.bat(b, j + [const(m)], full)
                - A.bat(a, j + [const(m)], full) * A.bat(b, j + [const(n)], full))

    def f(*i):
        c = i[-1]
        if c.isconst():
            return comp(i, int(c.cval()))
        r = ZERO
        for k2 in range(3):
            r = r + T.bracket('eq', c - k2) * comp(i, k2)
        return r
    return mk(full, f, promote(a.kind, b.kind))


@reg('diag', 'diagonal')
def np_diag(a, k=0):
    a = lift(unq(a))
    if a.ndim == 2:
        return mk((a.vshape[0],), lambda i: a.at(i, i), a.kind)
    n = a.vshape[0]
    return mk((n, n), lambda i, j: T.bracket('eq', i - j) * a.at(i), a.kind)


@reg('trace')
def np_trace(a):
    return A.einsum('ii', unq(a))


@reg('triu_indices')
def np_triu_indices(n, k=0, m=None):
    """row-major indices of the upper triangle, given by their contract through packed position:
    position p <-> (i, j), i <= j < n, p = i*n - i(i+1)/2 + j"""
    if k != 0 or m is not None:
        raise Unsupported('triu_indices offset')
    n = P(n)
    if conc(n) is not None:
        i, j = np.triu_indices(conc(n))
        return i, j
    L = (n * (n + 1)).scale(Fr(1, 2))
    key = 'triu%s' % n
    di = ArrDecl(key + 'i', 1, 'int', nonneg=True, rng=(0, n))
    dj = ArrDecl(key + 'j', 1, 'int', nonneg=True)
    dj.rng = (lambda p: di(p), n)
    TRI[di.name] = (dj, n)
    return A.TriuIdx((mk((L,), lambda p: di(p), 'i'), mk((L,), lambda p: dj(p), 'i')), n)


TRI = {}


DIGI = []        # (edge function k -> Poly, number of edges n, right)


@reg('digitize', 'searchsorted')
def np_digitize(x, bins, right=False, **k):
    """contract for increasing edges e[0..n): the result d is in [0, n] and
    d == t  <=>  (t == 0 or e[t-1] <= x) and (t == n or x < e[t])      (< and <= swapped if right)"""
    x, bins = _same2(x, bins)
    x, bins = lift(x), lift(bins)
    n = bins.vshape[0]
    key = (tuple(map(str, bins.vshape)), bins.at(T.index_sym('digi_k', n)).skey, bool(right))
    for i, (kk, *_) in enumerate(DIGI):
        if kk == key:
            break
    else:
        i = len(DIGI)
        body = bins.at(T.index_sym('digi_k', n))
        DIGI.append((key, lambda t: T.subst(body, {'digi_k': t}), n, bool(right)))

    def g(v):
        return T.fn('digi', v, i, sort='int', nonneg=True)
    if isinstance(x, Comp):
        return Comp(np_digitize(x.vals, bins, right), x.mask)
    if not isinstance(x, Arr):
        return g(P(x))
    return mk(x.vshape, lambda *i: g(x.at(*i)), 'i')


def digi_cond(a, t):
    """[digi == t] by the contract"""
    x = a.args[0]
    _, e, n, right = DIGI[int(a.args[1].cval())]
    lo = T.ble(e(t - 1), x) if not right else T.blt(e(t - 1), x)
    hi = T.blt(x, e(t)) if not right else T.ble(x, e(t))
    return T.band(T.ble(0, t), T.ble(t, n), T.bor(T.beq(t, 0), lo), T.bor(T.beq(t, n), hi))


def digi_below(a, t):
    """[digi < t]"""
    x = a.args[0]
    _, e, n, right = DIGI[int(a.args[1].cval())]
    lo = T.blt(x, e(t - 1)) if not right else T.ble(x, e(t - 1))
    return T.bor(T.blt(n, t), T.band(T.ble(1, t), lo))


def has_digi(p):
    return any(a.kind == 'fn' and a.name == 'digi' for a in T.atoms_of(p))


def replace_atom(p, d, t):
    def go(q):
        if d not in T.atoms_of(q):
            return q
        r = T.ZERO
        for m, c in q.t.items():
            v = T.const(c)
            for a, e in m:
                v = v * ((t if a == d else T.rebuild(a, go)).power(e))
            r = r + v
        return r
    return go(p)


def lin_digi(p):
    """(digi atom, coefficient, rest) if p is linear in exactly one digi atom"""
    hit = None
    rest = {}
    for m, c in p.t.items():
        ds = [a for a, e in m if a.kind == 'fn' and a.name == 'digi']
        if ds:
            if hit is not None or len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                return None
            hit = (ds[0], c)
        else:
            rest[m] = c
    if hit is None:
        return None
    rest = T.Poly(rest)
    if has_digi(rest):
        return None
    return hit[0], hit[1], rest


def resolve_digi(p):
    """eliminate digitize results by their contract"""
    p = P(p)
    if not has_digi(p):
        return p
    res = T.ZERO
    for m, c in p.t.items():
        res = res + _resolve_mono(m, c)
    return res


def _resolve_mono(m, c):
    mp = T.Poly({m: c})
    if not has_digi(mp):
        return mp
    for a, e in m:
        if a.kind == 'br' and a.op == 'eq':
            l = lin_digi(a.p)
            if l is not None:
                d, k, rest = l
                t = rest.scale(-1 / k)
                other = T.Poly({tuple(x for x in m if x[0] != a): c})
                other = replace_atom(other, d, t)
                return resolve_digi(digi_cond(d, t).poly() * other)
    for a, e in m:
        if a.kind == 'br' and a.op == 'lt':
            l = lin_digi(a.p)
            if l is not None:
                d, k, rest = l
                other = T.Poly({tuple(x for x in m if x[0] != a): c})
                if k > 0:          # d + rest < 0
                    b = digi_below(d, -rest)
                else:              # rest < d  <=> not d < rest + 1
                    b = T.bnot(digi_below(d, rest + 1))
                return resolve_digi(b.poly() * other)
    for a, e in m:
        if a.kind == 'sum' and has_digi(T.Poly.atom(a)) and e.__class__ is int and e > 0:
            other = T.Poly({tuple(x for x in m if x[0] != a): c})
            bs, bd = T.open_sum(a)
            bd = resolve_digi(bd)
            if has_digi(bd):
                continue
            for nme, h in reversed(bs):
                bd = T.mk_sum(nme, 0, h, bd)
            return resolve_digi(other * bd ** e)
    return mp


def _digi_eval(env, a, loc):
    x = T._re(env.ev(a.args[0], loc))
    _, e, n, right = DIGI[int(a.args[1].cval())]
    nn = int(round(T._re(env.ev(n, loc))))
    k = 0
    for j in range(nn):
        v = T._re(env.ev(e(T.const(j)), loc))
        if (v < x) if right else (v <= x):
            k += 1
    return k


T.FN_EVAL['digi'] = _digi_eval


SYM['searchsorted'] = lambda a, v, side='left', **k: np_digitize(v, a, right=(side == 'left'))


@reg('histogram')
def np_histogram(x, bins=10, range=None, weights=None, density=None):
    """counts (or summed weights) of x in half-open bins, last bin closed (edges increasing)"""
    if isinstance(x, Q) or isinstance(bins, Q):
        x, bins2 = _same2(x, bins)
        h, e = np_histogram(x, bins2, None, weights, density)
        return h, Q(e, (bins if isinstance(bins, Q) else x).u)
    wu = None
    if isinstance(weights, Q):
        wu, weights = weights.u, weights.m
    if density:
        raise Unsupported('normalised histogram')
    if isinstance(x, (Comp, CompCat)):
        xs = comp_parts(x)
        ws = comp_parts(weights) if weights is not None else [const(1)] * len(xs)
        if len(xs) != len(ws):
            raise Unsupported('histogram weights of another structure')
        tot = None
        for xp, wp in zip(xs, ws):
            if isinstance(xp, Comp):
                if isinstance(wp, Comp):
                    if not A.same_mask(wp.mask, xp.mask):
                        raise Unsupported('histogram weights of another mask')
                    wp = wp.vals
                elif isinstance(wp, Arr) and wp.ndim:
                    raise Unsupported('masked with unmasked array')
                h, b = np_histogram(xp.vals, bins, None, A.binop('*', A.binop('*', wp, xp.mask), A.mk(xp.mask.vshape, lambda *i: const(1), 'f')))
            else:
                h, b = np_histogram(xp, bins, None, wp)
            tot = h if tot is None else A.binop('+', tot, h)
        return tot, b
    x, b = lift(x), lift(bins)
    if not isinstance(b, Arr):
        raise Unsupported('histogram bin count')
    w = lift(weights) if weights is not None else None
    x1 = x.ravel() if x.ndim > 1 and w is None else x
    nb = b.vshape[0] - 1

    def f(k):
        idx, bs = [], []
        for s in x.vshape:
            n, y = fresh_index(s)
            idx.append(y)
            bs.append((n, s))
        v = x.at(*idx)
        last = beq(k, nb - 1)
        inb = band(ble(b.at(k), v), bor(blt(v, b.at(k + 1)), band(last, beq(v, b.at(k + 1)))))
        p = inb.poly()
        if w is not None:
            p = p * A.bat(w, idx, x.vshape)
        for n, h in reversed(bs):
            p = mk_sum(n, 0, h, p)
        return p
    r = mk((nb,), f, 'i' if w is None else promote('f', w.kind))
    return (Q(r, wu) if wu is not None else r), b


@reg('polyval')
def np_polyval(c, x):
    c = lift(c)
    r = None
    for k in range(conc(c.vshape[0])):
        r = c.at(k) if r is None else A.binop('+', A.binop('*', r, x), c.at(k))
    return r


@reg('issubdtype')
def np_issubdtype(a, b):
    return np.issubdtype(a, b)


@reg('add.at')
def np_add_at(a, key, v):
    if isinstance(a, Q):
        raise Unsupported('add.at on a quantity')
    A.add_at(a, key, unq(v))


@reg('bincount')
def np_bincount(x, weights=None, minlength=0):
    raise Unsupported('bincount')


def hooked(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            raise Unsupported('np.%s on symbolic data' % name)
        return h(*a, **k)
    return f


_uniq = []


@reg('unique')
def np_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    """distinct values (rows): known through the inverse only, unique[inverse[k]] = x[k]; their order is left open"""
    if return_index or return_counts or isinstance(x, Q):
        raise Unsupported('np.unique options')
    x = lift(x).copy()
    if axis is None:
        x = x.ravel()
    elif axis != 0:
        raise Unsupported('np.unique axis')
    nm = 'uniq%d' % len(_uniq)
    _uniq.append(x)
    n = x.vshape[0]
    cnt = T.sym(nm + 'cnt', 'int', pos=True)
    S.CTX.push(T.ble(cnt, n))
    inv = ArrDecl(nm + 'inv', 1, 'int', nonneg=True, rng=(ZERO, cnt))
    sort = {'f': 'real', 'i': 'int', 'c': 'complex'}[x.kind]

    def rule(args):
        k = T.inverse_of(args[0], inv.name)
        return x.at(*k, *args[1:]) if k is not None else None
    u = ArrDecl(nm, x.ndim, sort, rule=rule)
    r = mk((cnt,) + tuple(x.vshape[1:]), lambda *i: u(*i), x.kind)
    if return_inverse:
        return r, mk((n,), lambda k: inv(k), 'i')
    return r


for _n in ('sort', 'argsort', 'median', 'polyfit', 'argwhere'):
    SYM[_n] = hooked(_n)


def np_sort_small(x, axis=-1):
    raise Unsupported('sort')


# ------------------------------------------------------------- linalg
@reg('linalg.norm')
def np_norm(x, ord=None, axis=None, keepdims=False):
    if isinstance(x, Q):
        return Q(np_norm(x.m, ord, axis, keepdims), x.u)
    if ord is not None:
        raise Unsupported('norm order')
    x = lift(x)
    a = A.unop(x, 'abs')
    return A.unop(A.reduce_sum(A.binop('*', a, a), axis, keepdims), 'sqrt')


def det3(g):
    return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1))
            - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
            + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))


def getter(x, pre=()):
    return lambda i, j: x.at(*pre, const(i), const(j))


@reg('linalg.det')
def np_det(x):
    if isinstance(x, Q):
        return Q(np_det(x.m), x.u ** 3)
    x = lift(x)
    if x.ndim < 2 or bool(A.fork_hook[0](T.bnot(beq(P(x.vshape[-1]), P(x.vshape[-2]))))):
        raise np.linalg.LinAlgError('determinant of an array that is not square')
    if any(S.decide(beq(P(s), 3)) is not True for s in x.vshape[-2:]):
        raise Unsupported('determinant size')
    if x.ndim == 2:
        return det3(getter(x))
    return mk(x.vshape[:-2], lambda *i: det3(getter(x, i)), x.kind)


def inv3(g):
    """adjugate matrix entries and determinant"""
    d = det3(g)

    def adj(i, j):
        # cofactor C_ji
        r = [k for k in range(3) if k != j]
        c = [k for k in range(3) if k != i]
        m = g(r[0], c[0]) * g(r[1], c[1]) - g(r[0], c[1]) * g(r[1], c[0])
        return m if (i + j) % 2 == 0 else -m
    return adj, d


@reg('linalg.inv')
def np_inv(x):
    if isinstance(x, Q):
        return Q(np_inv(x.m), x.u ** -1)
    x = lift(x)
    if [conc(s) for s in x.vshape] != [3, 3]:
        raise Unsupported('inverse size')
    adj, d = inv3(getter(x))
    tab = [[adj(i, j) / d for j in range(3)] for i in range(3)]
    return A.from_nested(tab)


@reg('linalg.solve')
def np_solve(a, b):
    if isinstance(a, Q) or isinstance(b, Q):
        qa, qb = (a if isinstance(a, Q) else Q(a, None)), (b if isinstance(b, Q) else Q(b, None))
        return Q(np_solve(qa.m, qb.m), qb.u / qa.u)
    return A.matmul(np_inv(a), b)


_eig = [0]


@reg('linalg.eigh')
def np_eigh(x, UPLO='L'):
    """contract of eigh: eigenvalues ascending, columns orthonormal, H v = lambda v, where H is
    the Hermitian matrix whose given triangle is that of x"""
    x = lift(x)
    _eig[0] += 1
    k = _eig[0]
    n = x.vshape[-1]
    lead = x.vshape[:-2]
    dl = ArrDecl('eval%d' % k, len(lead) + 1, 'real')
    dv = ArrDecl('evec%d' % k, len(lead) + 2, 'complex' if x.kind == 'c' else 'real')
    vals = mk(list(lead) + [n], lambda *i: dl(*i), 'f')
    vecs = mk(list(lead) + [n, n], lambda *i: dv(*i), x.kind)
    TRACE.append(('eigh', x.copy(), dl, dv, UPLO))
    return vals, vecs


class NS:
    """namespace shim: symbolic implementation when an argument is symbolic, else the real one"""

    def __init__(self, real, prefix=''):
        self.__dict__['_real'] = real
        self.__dict__['_prefix'] = prefix
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        c = self._cache.get(n)
        if c is not None:
            return c
        r = self._get(n)
        self._cache[n] = r
        return r

    def _get(self, n):
        full = self._prefix + n
        if n == 'ndarray':
            return NDArray
        real = getattr(self._real, n)
        if isinstance(real, types.ModuleType):
            return NS(real, full + '.')
        if isinstance(real, type) or not callable(real):
            return real
        sym = HOOKS.get(full) or SYM.get(full)

        def call(*a, **k):
            if full.startswith('random.'):
                h = HOOKS.get(full)
                if h is None:
                    raise Unsupported('np.%s without a model' % full)
                return h(*a, **k)
            if anysym(a) or any(anysym(v) for v in k.values()):
                if sym is None:
                    raise Unsupported('numpy.%s on symbolic data' % full)
                out = k.get('out')
                return sym(*a, **k)
            r = real(*a, **k)
            return r
        call.__name__ = n
        if full + '.at' in SYM:
            at = SYM[full + '.at']

            def atcall(a, key, v):
                if anysym((a, key, v)):
                    return at(a, key, v)
                return real.at(a, key, v)
            call.at = atcall
        return call


class _NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Arr, np.ndarray, Comp))


class NDArray(metaclass=_NDMeta):
    pass


NP = NS(np)
