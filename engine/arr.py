"""Symbolic n-dimensional arrays: shapes are polynomials, contents are terms over index
symbols (for *all* indices at once), views write through to their buffer."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from . import term as T
from . import solver as S
from .term import (Poly, P, B, TRUE, FALSE, const, ZERO, ONE, Unsupported, ArrDecl, Sym, RANGES,
                   subst, fresh_index, mk_sum, ite, band, bor, bnot, blt, ble, beq, asB, conj)

_ids = itertools.count()
JOURNALS = []        # stack of dicts buf -> old body
SAFETY = []          # (description, proved)
OPTS = {'fork_masks': True}


def dimp(x):
    if isinstance(x, np.integer):
        x = int(x)
    return P(x)


def conc(x):
    """concrete int of a constant Poly/number else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Poly) and x.isconst() and x.cval().denominator == 1:
        return int(x.cval())
    return None


def outdim(x):
    c = conc(x)
    return c if c is not None else x


class Buf:
    __slots__ = ('id', 'shape', 'kind', 'names', 'body', 'tag', 'aliased')

    def __init__(self, shape, kind, names, body, tag=None):
        self.id = next(_ids)
        self.shape = tuple(shape)
        self.kind = kind
        self.names = names
        self.body = body
        self.tag = tag
        self.aliased = False

    def set(self, body):
        for j in JOURNALS:
            if self not in j:
                j[self] = self.body
        self.body = body

    def __repr__(self):
        return '<Buf%d %s %s>' % (self.id, self.kind, list(self.shape))


KINDS = 'bifcs'


class NestedList(list):
    """tolist() of an array of symbolic shape"""

    def __init__(self, arr):
        self.arr = arr

    def _no(self, *a):
        raise Unsupported('element of a list of symbolic length')
    __len__ = __getitem__ = __iter__ = __setitem__ = append = extend = __eq__ = __contains__ = _no

    def __deepcopy__(self, memo):
        return NestedList(self.arr.copy())


def promote(*ks):
    return max(ks, key=KINDS.index)


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, B) or isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, Poly):
        if x.isint():
            return 'i'
        return 'f' if x.isreal() else 'c'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fr)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, np.ndarray):
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(x.dtype.kind, 'f')
    raise Unsupported('kind of %r' % type(x))


_DT = {'s': np.dtype('<U32'), 'b': np.dtype(bool), 'i': np.dtype(np.int64), 'f': np.dtype(float), 'c': np.dtype(complex)}


class Arr:
    """view of a buffer"""
    __slots__ = ('buf', 'dims', 'vshape', 'flat_of', 'contig', 'appended')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, dims=None, vshape=None):
        self.buf = buf
        self.dims = dims if dims is not None else tuple(('ax', ZERO, 1, k) for k in range(len(buf.shape)))
        self.vshape = tuple(vshape) if vshape is not None else buf.shape

    # -- info
    @property
    def kind(self):
        return self.buf.kind

    @property
    def shape(self):
        return tuple(outdim(s) for s in self.vshape)

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def size(self):
        r = const(1)
        for s in self.vshape:
            r = r * s
        return outdim(r)

    @property
    def dtype(self):
        return _DT[self.kind]

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        c = conc(self.vshape[0])
        if c is None:
            raise Unsupported('len of symbolic array in native code')
        return c

    def whole(self):
        return all(d[0] == 'ax' and not d[1].t and d[2] == 1 and d[3] == k for k, d in enumerate(self.dims)) \
            and len(self.dims) == len(self.vshape) and self.vshape == self.buf.shape

    # -- reading
    def bidx(self, idx):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                out.append(d[1] + (idx[d[3]] if d[2] == 1 else idx[d[3]] * d[2]))
        return out

    def at(self, *idx):
        idx = [P(i) for i in idx]
        assert len(idx) == len(self.vshape), (len(idx), self.vshape)
        bi = self.bidx(idx)
        return subst(self.buf.body, dict(zip(self.buf.names, bi)))

    # -- writing a function over the view
    def store(self, fn, cond=None):
        """view[idx] = fn(idx) where cond(idx)"""
        b = self.buf
        if b.tag is not None and b.tag.startswith('ro:'):
            raise Unsupported('write to read-only array')
        syms = [index_of(n, s) for n, s in zip(b.names, b.shape)]
        vidx = [None] * len(self.vshape)
        guard = TRUE
        for s, d, n in zip(syms, self.dims, b.shape):
            if d[0] == 'fix':
                guard = band(guard, beq(s, d[1]))
            else:
                st, k = d[2], d[3]
                c = conc(self.vshape[k])
                if st == 1 and c is not None and c > 1 and not d[1].isconst() and d[1].scale(Fr(1, int(c))).isint():
                    # block number d[1] / c of length c
                    guard = band(guard, beq(S.idiv(s, const(c)), d[1].scale(Fr(1, int(c)))))
                    vidx[k] = S.imod(s, const(c))
                    continue
                w = self.vshape[k]
                if st == 1 and c is None and len(d[1].t) == 1 and _divides(w, d[1]) and S.decide(blt(0, w)) is True:
                    guard = band(guard, beq(S.idiv(s, w), d[1] / w))
                    vidx[k] = S.imod(s, w)
                    continue
                if st == 1:
                    v = s - d[1]
                elif st == -1:
                    v = d[1] - s
                else:
                    guard = band(guard, beq(S.imod(s - d[1], const(abs(st))), 0))
                    v = S.idiv(s - d[1], const(st)) if st > 0 else S.idiv(d[1] - s, const(-st))
                guard = band(guard, bnot(blt(v, 0)), blt(v, self.vshape[k]))
                vidx[k] = v
        for k in range(len(vidx)):
            if vidx[k] is None:
                vidx[k] = ZERO
        if cond is not None:
            guard = band(guard, cond(*vidx))
        if guard.op == 'const' and not guard.a:
            return
        val = P(fn(*vidx))
        val = cast(val, b.kind)
        g = guard.poly()
        if b.aliased:
            raise Unsupported('write through a reshaped alias')
        b.set(g * val + (const(1) - g) * b.body)

    # -- reshaping views
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        n = self.ndim
        if not axes or axes[0] is None:
            axes = tuple(range(n))[::-1]
        axes = [conc(a) % n for a in axes]
        inv = {a: k for k, a in enumerate(axes)}
        dims = tuple(d if d[0] == 'fix' else (d[0], d[1], d[2], inv[d[3]]) for d in self.dims)
        return Arr(self.buf, dims, [self.vshape[a] for a in axes])

    def squeeze(self, axis=None):
        keep = [k for k in range(self.ndim) if not (conc(self.vshape[k]) == 1 and (axis is None or k == axis % self.ndim))]
        idx = tuple(slice(None) if k in keep else 0 for k in range(self.ndim))
        return getitem(self, idx)

    def copy(self, order=None):
        return mk(self.vshape, self.at, self.kind)

    def astype(self, dt, **k):
        kd = dtype_kind(dt)
        if kd == self.kind:
            return self.copy()
        return mk(self.vshape, lambda *i: cast(self.at(*i), kd, self.kind), kd)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def flatten(self):
        return reshape(self, (-1,))

    def ravel(self):
        return reshape(self, (-1,))

    def tolist(self):
        c = [conc(s) for s in self.vshape]
        if any(x is None for x in c):
            return NestedList(self.copy())

        def rec(pre):
            if len(pre) == len(c):
                return outdim(self.at(*pre))
            return [rec(pre + [k]) for k in range(c[len(pre)])]
        return rec([])

    def view(self, dt=None):
        """reinterpretation between complex and float; a dtype change needs a C-contiguous last axis, which only
        arrays made by ascontiguousarray or from a list are known to have"""
        kd = dtype_kind(dt)
        if kd is None or kd == self.kind:
            return Arr(self.buf, self.dims, self.vshape)
        if not getattr(self, 'contig', False):
            from .pyexec import fork
            if fork(beq(T.sym('memory layout unknown', 'int'), 0)):
                raise ValueError('To change to a dtype of a different size, the last axis must be contiguous')
        two = const(2)
        if (self.kind, kd) == ('c', 'f'):
            def f(*i):
                z = self.at(*i[:-1], S.idiv(i[-1], two))
                odd = beq(S.imod(i[-1], two), 1)
                return ite(odd, T.pimag(z), T.preal(z))
            r = mk(self.vshape[:-1] + (self.vshape[-1] * 2,), f, 'f')
        elif (self.kind, kd) == ('f', 'c'):
            n = S._divmod(self.vshape[-1], two)
            if n is None or n[1].t:
                raise Unsupported('complex view of odd or unknown length')
            r = mk(self.vshape[:-1] + (n[0],), lambda *i: self.at(*i[:-1], i[-1] * 2) + P(1j) * self.at(*i[:-1], i[-1] * 2 + 1), 'c')
        else:
            raise Unsupported('view of %s as %s' % (self.kind, kd))
        r.buf.tag = 'ro:view'
        r.contig = True
        return r

    def item(self):
        return self.at(*[ZERO] * self.ndim)

    def sum(self, axis=None, keepdims=False, dtype=None, **k):
        if k:
            raise Unsupported('sum with %s' % sorted(k))
        return reduce_sum(self, axis, keepdims)

    def repeat(self, reps, axis=None):
        from . import npmodel
        return npmodel.np_repeat(self, reps, axis)

    def mean(self, axis=None, keepdims=False):
        from . import npmodel
        return npmodel.np_mean(self, axis=axis, keepdims=keepdims)

    def dot(self, o):
        return matmul(self, o, dot=True)

    def all(self, axis=None):
        return b_all(self, axis)

    def any(self, axis=None):
        return bnot(b_all(unop(self, 'not'), axis))

    def conj(self):
        return unop(self, 'conj')
    conjugate = conj

    @property
    def real(self):
        return mk(self.vshape, lambda *i: T.preal(self.at(*i)), 'f')

    @property
    def imag(self):
        return mk(self.vshape, lambda *i: T.pimag(self.at(*i)), 'f')

    @property
    def flags(self):
        class F(dict):
            c_contiguous = True
            f_contiguous = False
            def __getitem__(self, k):
                return k in ('C_CONTIGUOUS', 'C')
        return F()

    def __iter__(self):
        n = conc(self.vshape[0])
        if n is None:
            raise Unsupported('native iteration over symbolic array')
        return iter([getitem(self, k) for k in range(n)])

    def __getitem__(self, k):
        return getitem(self, k)

    def __setitem__(self, k, v):
        setitem(self, k, v)

    def __repr__(self):
        return '<Arr %s %s>' % (self.kind, [str(s) for s in self.vshape])

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported('truth of a symbolic array')


def _mkop(op, rev=False):
    if rev:
        return lambda a, b: binop(op, b, a)
    return lambda a, b: binop(op, a, b)


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'),
               ('mod', '%'), ('pow', '**'), ('and', '&'), ('or', '|'), ('matmul', '@')):
    setattr(Arr, '__%s__' % _n, _mkop(_o))
    setattr(Arr, '__r%s__' % _n, _mkop(_o, True))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(Arr, '__%s__' % _n, _mkop(_o))
Arr.__neg__ = lambda a: unop(a, 'neg')
Arr.__abs__ = lambda a: unop(a, 'abs')
Arr.__invert__ = lambda a: unop(a, 'not')


def _iop(op):
    def f(a, b):
        r = binop(op, a, b)
        setitem(a, Ellipsis, r)
        return a
    return f


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**')):
    setattr(Arr, '__i%s__' % _n, _iop(_o))


def index_of(name, hi):
    """index symbol Poly for a buffer axis"""
    if name not in RANGES:
        RANGES[name] = (ZERO, P(hi))
    return Poly.atom(Sym(name, 'int', nonneg=True))


REAL = [True]      # values stored in real arrays may have imaginary parts (never so in C)


def cast(p, kind, frm=None):
    p = P(p)
    if kind == 'i' and not p.isint():
        if p.isreal():
            return trunc(p)
    if kind == 'f' and REAL[0] and not p.isreal():
        return T.preal(p)
    if kind == 'b' and frm is not None and frm != 'b':
        return bnot(beq(p, 0)).poly()
    return p


def trunc(p):
    s = S.sign(p)
    if p.isint():
        return p
    # an integer-valued rint/floor/ceil product stays
    if s in ('>', '+', '0'):
        return S.floor(p)
    return ite(blt(p, 0), S.ceil(p), S.floor(p))


def mk(shape, fn, kind):
    shape = [dimp(s) for s in shape]
    names, syms = [], []
    for s in shape:
        n, y = fresh_index(s, base='.')
        names.append(n)
        syms.append(y)
    body = fn(*syms)
    if isinstance(body, B):
        body = body.poly()
    return Arr(Buf(shape, kind, names, P(body)))


def decl_arr(name, shape, kind='f', **k):
    """fresh symbolic input array"""
    sort = {'f': 'real', 'i': 'int', 'c': 'complex', 'b': 'int', 's': 'int'}[kind]
    if kind == 'b':
        k['rng'] = (0, 2)
        k['nonneg'] = True
    d = ArrDecl(name, len(shape), sort, **k)
    a = mk(shape, lambda *i: d(*i), kind)
    a.buf.tag = name
    return a


def lift(x):
    """concrete numpy array / list -> Arr; scalars -> Poly"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, MaskedArr):
        return x
    if isinstance(x, NestedList):
        return x.arr
    if isinstance(x, (list, tuple)):
        return from_nested(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return P(x.item())
        if x.dtype == object:
            return from_nested(x.tolist())
        if x.size > 4000:
            raise Unsupported('large concrete array')
        k = kind_of(x)
        if x.size and (x == x.flat[0]).all():
            v = P(x.flat[0].item())
            return mk(x.shape, lambda *i: v, k)

        def f(*i):
            return table(x, i)
        return mk(x.shape, f, k)
    if isinstance(x, B):
        return x
    if isinstance(x, str):
        return strcode(x)
    return P(x)


_strs = {'': 0}


def strcode(x):
    """strings are compared only for equality and emptiness: each literal stands for a number, '' for 0"""
    return const(-_strs.setdefault(x, len(_strs)))


def table(x, idx):
    """x[idx] for concrete x and symbolic idx"""
    if all(q.isconst() for q in idx):
        return P(x[tuple(int(q.cval()) for q in idx)].item())
    r = ZERO
    for k in np.ndindex(*x.shape):
        v = x[k].item()
        if v == 0:
            continue
        t = P(v)
        for a, b in zip(idx, k):
            t = t * T.bracket('eq', a - b)
            if not t.t:
                break
        r = r + t
    return r


def issym(x):
    if isinstance(x, (Arr, B, MaskedArr, Comp, NestedList)):
        return True
    if isinstance(x, Poly):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(issym(y) for y in x.flat)
    return False


def from_nested(x):
    """nested list/tuple of scalars and arrays -> Arr"""
    if not isinstance(x, (list, tuple)) or isinstance(x, NestedList):
        return lift(x)
    if not issym(x):
        a = np.array(x)
        if a.dtype == object:
            raise Unsupported('object array')
        return lift(a)
    items = [from_nested(y) for y in x]
    if not items:
        return lift(np.array([]))
    return stack(items, 0)


def stack(items, axis=0):
    items = [i for i in items]
    n = len(items)
    arrs = [lift(i) for i in items]
    nd = max(a.ndim if isinstance(a, Arr) else 0 for a in arrs)
    kd = promote(*[kind_of(a) for a in arrs])
    if nd == 0:
        polys = [P(a) for a in arrs]

        def f(i):
            if i.isconst():
                return polys[int(i.cval())]
            r = ZERO
            for k, p in enumerate(polys):
                if p.t:
                    r = r + T.bracket('eq', i - k) * p
            return r
        return mk((n,), f, kd)
    sh = list(arrs[0].vshape)
    for a in arrs[1:]:
        for u, v in zip(sh, a.vshape):
            need_same(u, v)
    ax = axis % (nd + 1)

    def g(*idx):
        i = idx[ax]
        rest = idx[:ax] + idx[ax + 1:]
        if i.isconst():
            return arrs[int(i.cval())].at(*rest)
        r = ZERO
        for k, a in enumerate(arrs):
            r = r + T.bracket('eq', i - k) * a.at(*rest)
        return r
    return mk(sh[:ax] + [n] + sh[ax:], g, kd)


def need_same(u, v, what='shape mismatch'):
    u, v = P(u), P(v)
    if u == v:
        return
    r = S.decide(beq(u, v))
    if r is True:
        return
    if r is False:
        raise ValueError(what)
    raise Unsupported('%s: %s vs %s' % (what, u, v))


def bshape(*shapes):
    """broadcast shapes"""
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = dimp(s[j])
            if conc(x) == 1:
                continue
            if d is None:
                d = x
            else:
                need_same(d, x, 'operands could not be broadcast together')
        out.append(d if d is not None else const(1))
    return out


def bat(a, idx, full):
    """element of a (Arr or scalar) at broadcast index"""
    if not isinstance(a, Arr):
        return P(a)
    n = len(full)
    m = a.ndim
    sub = idx[n - m:]
    return a.at(*[ZERO if (conc(a.vshape[k]) == 1 and conc(full[n - m + k]) != 1) else sub[k] for k in range(m)])


def scalar_op(op, x, y):
    x, y = P(x), P(y)
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '/':
        if not y.t:
            return T.fn('div0', x)
        return x / y
    if op == '//':
        return S.idiv(x, y)
    if op == '%':
        return S.imod(x, y)
    if op == '**':
        if y.isconst():
            if not x.t and y.cval() < 0:
                return T.fn('div0', const(1))
            return x.power(y.cval())
        if y.isint():
            return T.fn('pow', x, y)
        raise Unsupported('symbolic exponent')
    if op == '<':
        return blt(x, y)
    if op == '<=':
        return ble(x, y)
    if op == '>':
        return blt(y, x)
    if op == '>=':
        return ble(y, x)
    if op == '==':
        return beq(x, y)
    if op == '!=':
        return bnot(beq(x, y))
    if op == '&':
        return x * y
    if op == '|':
        return x + y - x * y
    raise Unsupported('operator %s' % op)


CMP = {'<', '<=', '>', '>=', '==', '!='}


def rkind(op, ka, kb):
    if op in CMP:
        return 'b'
    k = promote(ka, kb)
    if op == '/':
        return promote(k, 'f')
    if op in ('&', '|'):
        return k
    if k == 'b' and op in '+-*':
        return 'i'
    return k


def binop(op, a, b):
    from .units import Q
    if isinstance(a, Q) or isinstance(b, Q):
        return NotImplemented
    if op == '@':
        return matmul(a, b)
    if isinstance(a, Comp) or isinstance(b, Comp):
        return comp_binop(op, a, b)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise TypeError('unsupported operand')
    if isinstance(a, (list, tuple, np.ndarray)):
        a = lift(a)
    if isinstance(b, (list, tuple, np.ndarray)):
        b = lift(b)
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        r = scalar_op(op, a, b)
        return r
    full = bshape(*[x.vshape if isinstance(x, Arr) else () for x in (a, b)])
    kd = rkind(op, kind_of(a), kind_of(b))

    def f(*i):
        r = scalar_op(op, bat(a, i, full), bat(b, i, full))
        return r.poly() if isinstance(r, B) else r
    return mk(full, f, kd)


UN = {
    'neg': lambda x: -x,
    'abs': T.fabs,
    'conj': conj,
    'sqrt': lambda x: x.power(Fr(1, 2)),
    'csqrt': T.csqrt,
    'exp': T.pexp,
    'cos': T.pcos,
    'sin': T.psin,
    'square': lambda x: x * x,
    'rint': S.rint,
    'floor': S.floor,
    'ceil': S.ceil,
    'not': lambda x: const(1) - x,
    'real': T.preal,
    'imag': T.pimag,
    'log': lambda x: T.fn('log', x) if x != 1 else ZERO,
    'tanh': lambda x: T.fn('tanh', x),
    'arccos': lambda x: T.fn('acos', x),
    'erfc': lambda x: T.fn('erfc', x),
    'cbrt': lambda x: x.power(Fr(1, 3)),
    'sign': lambda x: blt(0, x).poly() - blt(x, 0).poly(),
    'isnan': lambda x: ZERO,
    'isfinite': lambda x: const(1),
}
UNK = {'csqrt': 'c', 'neg': None, 'abs': 'abs', 'conj': None, 'not': 'b', 'square': None, 'real': 'f', 'imag': 'f', 'isnan': 'b',
       'isfinite': 'b', 'sign': None}


def unop(a, op):
    f = UN[op]
    if isinstance(a, Comp):
        return type(a)(unop(a.vals, op), a.mask, a.fill)
    if isinstance(a, (list, tuple, np.ndarray)):
        a = lift(a)
    if not isinstance(a, Arr):
        if isinstance(a, B):
            if op == 'not':
                return bnot(a)
        return f(P(a))
    k = a.kind
    if op in UNK:
        rk = UNK[op]
        if rk is None:
            rk = k
        elif rk == 'abs':
            rk = 'f' if k == 'c' else k
    else:
        rk = promote(k, 'f')
    if op == 'not' and k != 'b':
        return mk(a.vshape, lambda *i: beq(a.at(*i), 0).poly(), 'b')
    return mk(a.vshape, lambda *i: f(a.at(*i)), rk)


def mapn(f, args, kind=None):
    """elementwise n-ary"""
    args = [lift(a) if isinstance(a, (list, tuple, np.ndarray)) else a for a in args]
    if not any(isinstance(a, Arr) for a in args):
        return f(*[P(a) if not isinstance(a, B) else a.poly() for a in args])
    full = bshape(*[x.vshape if isinstance(x, Arr) else () for x in args])
    kd = kind or promote(*[kind_of(a) for a in args])
    return mk(full, lambda *i: f(*[bat(a if not isinstance(a, B) else a.poly(), i, full) for a in args]), kd)


# ------------------------------------------------------------- indexing
def norm_index(i, n, what='index'):
    """scalar index into axis of length n"""
    i = P(i)
    n = P(n)
    c = conc(i)
    if c is not None and c < 0:
        r = i + n
    else:
        r = i
        s = S.sign(i)
        if s in ('<',):
            r = i + n
        elif s is None or s == '-':
            d = S.decide(blt(i, 0))
            if d is True:
                r = i + n
            elif d is None:
                r = ite(blt(i, 0), i + n, i)
    ok = S.sign(r) in ('>', '+', '0') and S.sign(r - n) == '<'
    if not ok:
        d = S.decide(band(bnot(blt(r, 0)), blt(r, n)))
        if d is False:
            raise IndexError('index out of bounds')
        SAFETY.append(('%s %s within length %s' % (what, r, n), d is True))
    return r


def norm_slice(s, n):
    """-> start, step, length (Polys, int step)"""
    step = conc(s.step) if s.step is not None else 1
    if step is None or step == 0:
        raise Unsupported('symbolic slice step')
    n = P(n)

    def clip(x, lo, hi):
        """x clipped into [lo, hi]"""
        if S.sign(x - lo) not in ('>', '+', '0'):
            d = S.decide(blt(x, lo))
            if d is True:
                return lo
            if d is None:
                return clip(T.fn('max', x, lo, sort='int', nonneg=lo.isnonneg()), lo, hi) if False else _fork(blt(x, lo), lambda: lo, lambda: clip2(x, hi))
        return clip2(x, hi)

    def clip2(x, hi):
        if S.sign(hi - x) not in ('>', '+', '0'):
            d = S.decide(blt(hi, x))
            if d is True:
                return hi
            if d is None:
                return _fork(blt(hi, x), lambda: hi, lambda: x)
        return x

    def neg(x):
        c = conc(x)
        if c is not None:
            return c < 0
        sg = S.sign(P(x))
        if sg in ('>', '+', '0'):
            return False
        if sg == '<':
            return True
        d = S.decide(blt(P(x), 0))
        if d is None:
            return fork_hook[0](blt(P(x), 0))
        return d

    def norm(x):
        x = P(x)
        return x + n if neg(x) else x
    if step > 0:
        a = ZERO if s.start is None else clip(norm(s.start), ZERO, n)
        b = n if s.stop is None else clip(norm(s.stop), ZERO, n)
        ln = b - a
    else:
        a = n - 1 if s.start is None else clip(norm(s.start), const(-1), n - 1)
        b = const(-1) if s.stop is None else clip(norm(s.stop), const(-1), n - 1)
        ln = a - b
    if S.sign(ln) not in ('>', '+', '0'):
        d = S.decide(blt(ln, 0))
        if d is True:
            ln = ZERO
        elif d is None:
            if fork_hook[0](blt(ln, 0)):
                ln = ZERO
    k = abs(step)
    if k != 1:
        ln = S.idiv(ln + (k - 1), const(k))
    return a, step, ln


fork_hook = [None]     # decide an undecided boolean by forking the path


def _fork(b, t, e):
    h = fork_hook[0]
    if h is None:
        raise Unsupported('undecided %s' % b)
    return t() if h(b) else e()


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    for k in key:
        if isinstance(k, WhereIdx):
            out.append(k)
        else:
            out.append(k)
    used = 0
    for k in out:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.kind == 'b':
            used += k.ndim
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            used += k.ndim
        else:
            used += 1
    n = a.ndim
    if any(k is Ellipsis for k in out):
        j = next(i for i, k in enumerate(out) if k is Ellipsis)
        out[j:j + 1] = [slice(None)] * (n - used)
    else:
        out += [slice(None)] * (n - used)
    if used > n:
        raise IndexError('too many indices for array')
    return out


def is_adv(k):
    return isinstance(k, (Arr, list, np.ndarray, MaskAxis, Comp))


def getitem(a, key):
    if isinstance(key, WhereIdx):
        return key.get(a)
    if isinstance(key, tuple) and len(key) and all(isinstance(k, MaskAxis) for k in key) and key[0].full(key):
        return key[0].w.get(a)
    if isinstance(key, Arr) and key.kind == 'b' and key.ndim == a.ndim:
        return mask_get(a, key)
    if isinstance(key, Arr) and key.kind == 'b' and key.ndim == 1 and conc(key.vshape[0]) is None:
        return mask_get(a, key)
    if isinstance(key, np.ndarray) and key.dtype == bool:
        key = tuple(np.nonzero(key))
    key = expand_key(a, key)
    if any(is_adv(k) for k in key):
        return adv_get(a, key)
    return basic_view(a, key)


def basic_view(a, key):
    sub = []      # for each view dim: ('fix', p) or (start, step, newdim)
    vshape = []
    dim = 0
    for k in key:
        if k is None:
            vshape.append(const(1))
            continue
        n = a.vshape[dim]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            sub.append(('ax', st, step, len(vshape)))
            vshape.append(ln)
        else:
            if isinstance(k, (float,)):
                raise IndexError('only integers')
            if isinstance(k, (B, bool)):
                raise Unsupported('boolean scalar index')
            sub.append(('fix', norm_index(k, n)))
        dim += 1
    dims = []
    for d in a.dims:
        if d[0] == 'fix':
            dims.append(d)
            continue
        s = sub[d[3]]
        if s[0] == 'fix':
            dims.append(('fix', d[1] + s[1] * d[2]))
        else:
            dims.append(('ax', d[1] + s[1] * d[2], d[2] * s[2], s[3]))
    v = Arr(a.buf, tuple(dims), vshape)
    if not vshape:
        r = v.at()
        if a.kind == 'b':
            return asB(r)
        return r
    return v


def _adv_parts(a, key):
    """-> (index arrays with their axis), basic parts; broadcast shape of the index arrays"""
    arrs = []
    for pos, k in enumerate(key):
        if is_adv(k):
            if isinstance(k, (MaskAxis, Comp)):
                raise Unsupported('masked index mixed with others')
            x = lift(k) if not isinstance(k, Arr) else k
            if x.kind == 'b':
                x = fork_nonzero(x)
            arrs.append((pos, x))
    return arrs


class Growing:
    """array that only grows by np.append, one element per iteration of a symbolic loop"""

    def __init__(self, init, new=()):
        self.init, self.new = init, tuple(new)

    def grow(self, x):
        return Growing(self.init, self.new + (x,))


_enums = []


def enum_where(m):
    """positions where a one-dimensional mask of symbolic length holds, in increasing order:
    -> (index array, position of an index in it).  The returned declarations carry: values in
    range, mask true at every value; strict increase and completeness are instantiated by
    `enum_facts`"""
    for mm, r in _enums:
        if mm is m:
            S.CTX.push(beq(r[0].vshape[0], reduce_sum(r[2], None)))
            return r
    m0, m = m, m.copy()
    n = m.vshape[0]
    nm = 'whr%d' % next(_ids)
    cnt = T.sym(nm + 'cnt', 'int', nonneg=True)
    S.CTX.push(beq(cnt, reduce_sum(m, None)))
    d = T.ArrDecl(nm, 1, 'int', nonneg=True, rng=(ZERO, n), facts=lambda i: [asB_br(m.at(d(i)))])
    pos = T.ArrDecl(nm + 'pos', 1, 'int', nonneg=True)
    r = (mk((cnt,), lambda i: d(i), 'i'), pos, m)
    _enums.append((m0, r))
    ENUMS.append(r)
    return r


ENUMS = []


def enum_facts(e, i=None, k=None):
    """instances of the axioms of an enumeration: order of elements i, i+1; index k listed iff mask"""
    a, pos, m = e
    out = []
    if i is not None:
        out.append(T.bor(T.bnot(T.blt(P(i) + 1, a.vshape[0])), T.blt(a.at(P(i)), a.at(P(i) + 1))))
    if k is not None:
        j = pos(P(k))
        b = asB_br(m.at(P(k)))
        out += [T.bor(T.bnot(b), T.beq(a.at(j), P(k))), T.bor(T.bnot(b), T.blt(j, a.vshape[0])), ]
    return out


def fork_nonzero(m):
    """boolean mask of concrete length -> concrete index array by path forking"""
    n = conc(m.vshape[0])
    if m.ndim != 1 or n is None:
        raise Unsupported('mask of symbolic length as index')
    idx = []
    for k in range(n):
        b = asB(m.at(const(k)))
        d = b.a if b.op == 'const' else fork_hook[0](b)
        if d:
            idx.append(k)
    return lift(np.array(idx, dtype=int))


def adv_geometry(a, key):
    """returns (outshape, imap) with imap(out idx)-> index list of a"""
    arrs = _adv_parts(a, key)
    adv_pos = [p for p, _ in arrs]
    scal = [p for p, k in enumerate(key) if not is_adv(k) and k is not None and not isinstance(k, slice)]
    bsh = bshape(*[x.vshape for _, x in arrs])
    allpos = sorted(adv_pos + scal)
    contiguous = allpos == list(range(allpos[0], allpos[-1] + 1))
    amap = dict(arrs)
    shape, spec = [], []   # spec per source dim
    dim = 0
    placed = False
    nb = len(bsh)
    if not contiguous:
        shape.extend(bsh)
        placed = True
        bstart = 0
    specs = []
    for pos, k in enumerate(key):
        if k is None:
            shape.append(const(1))
            continue
        n = a.vshape[dim]
        if is_adv(k):
            if not placed:
                bstart = len(shape)
                shape.extend(bsh)
                placed = True
            specs.append(('adv', amap[pos], n))
        elif isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            specs.append(('sl', st, step, len(shape)))
            shape.append(ln)
        else:
            if not placed and contiguous:
                bstart = len(shape)
                shape.extend(bsh)
                placed = True
            specs.append(('fix', norm_index(k, n)))
        dim += 1

    def imap(*idx):
        out = []
        bi = idx[bstart:bstart + nb]
        for s in specs:
            if s[0] == 'adv':
                v = bat(s[1], bi, bsh)
                out.append(neg_fix(v, s[2]))
            elif s[0] == 'sl':
                out.append(s[1] + idx[s[3]] * s[2])
            else:
                out.append(s[1])
        return out
    return shape, imap, specs, bsh, bstart


def neg_fix(v, n):
    s = S.sign(v)
    if s in ('>', '+', '0'):
        return v
    if v.isconst():
        return v + n if v.cval() < 0 else v
    d = S.decide(blt(v, 0))
    if d is False:
        return v
    if d is True:
        return v + n
    return ite(blt(v, 0), v + n, v)


def adv_get(a, key):
    shape, imap, *_ = adv_geometry(a, key)
    return mk(shape, lambda *i: a.at(*imap(*i)), a.kind)


def setitem(a, key, val):
    if isinstance(key, (WhereIdx, TriuIdx)):
        return key.set(a, val)
    if isinstance(key, MaskAxis) and key.w.mask.ndim == 1:
        return key.w.set(a, val)
    if isinstance(key, tuple) and len(key) and all(isinstance(k, MaskAxis) for k in key) and key[0].full(key):
        return key[0].w.set(a, val)
    if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == 'b':
        key = key[0]
    if isinstance(key, Arr) and key.kind == 'b' and (key.ndim == a.ndim or any(conc(s) is None for s in key.vshape)):
        return mask_set(a, key, val)
    if isinstance(key, np.ndarray) and key.dtype == bool:
        key = tuple(np.nonzero(key))
    if isinstance(val, range):
        val = list(val)
    if isinstance(val, (list, tuple, np.ndarray)):
        val = lift(val)
    key = expand_key(a, key)
    if any(is_adv(k) for k in key):
        return adv_set(a, key, val)
    key2 = [k if (k is None or isinstance(k, slice)) else slice(k, None) if False else k for k in key]
    v = _view_for_store(a, key2)
    if isinstance(val, Comp):
        raise Unsupported('masked value assigned to a plain view')
    if isinstance(val, Arr):
        if val.ndim > v.ndim:
            extra = val.ndim - v.ndim
            if any(conc(s) != 1 for s in val.vshape[:extra]):
                raise ValueError('could not broadcast')
        src = val
        # evaluate the source first (aliasing): its content is read at the old version
        sb, sbody = src.buf, src.buf.body
        vs = v.vshape
        for k in range(1, min(val.ndim, len(vs)) + 1):
            if conc(val.vshape[-k]) != 1:
                need_same(val.vshape[-k], vs[-k], 'could not broadcast input array')

        def f(*i):
            i = list(i)
            m = src.ndim
            if m > len(i):
                idx = [ZERO] * (m - len(i)) + i
            else:
                idx = i[len(i) - m:]
            idx = [ZERO if (conc(src.vshape[k]) == 1) else idx[k] for k in range(m)]
            return src.at(*idx)
        v.store(f)
    else:
        if isinstance(val, B):
            val = val.poly()
        pv = strcode(val) if isinstance(val, str) else P(val)
        v.store(lambda *i: pv)


def _view_for_store(a, key):
    sub, vshape, dim = [], [], 0
    for k in key:
        if k is None:
            vshape.append(const(1))
            continue
        n = a.vshape[dim]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            sub.append(('ax', st, step, len(vshape)))
            vshape.append(ln)
        else:
            sub.append(('fix', norm_index(k, n)))
        dim += 1
    dims = []
    for d in a.dims:
        if d[0] == 'fix':
            dims.append(d)
            continue
        s = sub[d[3]]
        if s[0] == 'fix':
            dims.append(('fix', d[1] + s[1] * d[2]))
        else:
            dims.append(('ax', d[1] + s[1] * d[2], d[2] * s[2], s[3]))
    return Arr(a.buf, tuple(dims), vshape)


def adv_set(a, key, val):
    """a[idx] = val with integer index arrays"""
    shape, imap, specs, bsh, bstart = adv_geometry(a, key)
    # concrete number of index tuples: write one by one (last wins)
    cb = [conc(x) for x in bsh]
    nb = len(bsh)
    if all(x is not None for x in cb) and int(np.prod(cb)) <= 64:
        for b in np.ndindex(*cb):
            k2 = []
            bi = [const(x) for x in b]
            dimi = 0
            sp = iter(specs)
            for k in key:
                if k is None:
                    k2.append(None)
                    continue
                s = next(sp)
                if s[0] == 'adv':
                    k2.append(neg_fix(bat(s[1], bi, bsh), s[2]))
                elif s[0] == 'sl':
                    k2.append(k)
                else:
                    k2.append(s[1])
            if isinstance(val, Arr):
                m = val.ndim
                vidx = []
                # val index for the broadcast part
                nd = len(shape)
                vk = []
                for d in range(m):
                    od = nd - m + d
                    if bstart <= od < bstart + nb:
                        vk.append(0 if conc(val.vshape[d]) == 1 else b[od - bstart])
                    else:
                        vk.append(slice(None))
                vv = getitem(val, tuple(vk))
            else:
                vv = val
            setitem(a, tuple(k2), vv)
        return
    # symbolic number of tuples: identity-like or provably injective index only
    if nb == 1:
        buf = a.buf
        if not a.whole():
            raise Unsupported('scatter into a view')
        n, ks = fresh_index(bsh[0])
        full = shape

        def body(*bidx):
            pass
        syms = [index_of(nm, s) for nm, s in zip(buf.names, buf.shape)]
        guard = TRUE
        oidx = [None] * len(shape)
        oidx[bstart] = ks
        for s, y in zip(specs, syms):
            if s[0] == 'adv':
                v = bat(s[1], [ks], bsh)
                guard = band(guard, beq(y, neg_fix(v, s[2])))
            elif s[0] == 'fix':
                guard = band(guard, beq(y, s[1]))
            else:
                st, step, ln = s[1], s[2], shape[s[3]]
                if step != 1:
                    raise Unsupported('scatter with step')
                v = y - st
                guard = band(guard, bnot(blt(v, 0)), blt(v, ln))
                oidx[s[3]] = v
        for i in range(len(oidx)):
            if oidx[i] is None:
                oidx[i] = ZERO
        g = guard.poly()
        value = P(bat(val, oidx, shape)) if not isinstance(val, B) else val.poly()
        hit = mk_sum(n, 0, bsh[0], g)
        if n not in value.free:
            h = bnot(beq(hit, 0)).poly()
            buf.set(h * value + (const(1) - h) * buf.body)
            return
        # injective?
        n2, k2 = fresh_index(bsh[0])
        g2 = subst(g, {n: k2})
        inj = any(s[0] == 'adv' and _perm_of(bat(s[1], [ks], bsh), ks) for s in specs) \
            or S.prove(bor(beq(ks, k2), beq(g * g2, 0)), 3000)
        if not inj:
            raise Unsupported('scatter through a possibly repeating index array')
        buf.set(mk_sum(n, 0, bsh[0], g * value) + (const(1) - hit) * buf.body)
        return
    raise Unsupported('scatter with symbolic multi-dimensional index')


def _perm_of(p, k):
    """p is a declared permutation applied to k"""
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel' and m[0][0].decl.inv is not None \
        and m[0][0].args[-1] == k and not any(x.free & k.free for x in m[0][0].args[:-1])


def add_at(a, key, val):
    """np.add.at"""
    if not isinstance(key, tuple):
        key = (key,)
    key = expand_key(a, key)
    if isinstance(val, (list, tuple, np.ndarray)):
        val = lift(val)
    if not any(is_adv(k) for k in key):
        v = _view_for_store(a, key)
        return setitem(a, tuple(key), binop('+', getitem(a, tuple(key)), val))
    shape, imap, specs, bsh, bstart = adv_geometry(a, key)
    nb = len(bsh)
    buf = a.buf
    if not a.whole():
        raise Unsupported('add.at into a view')
    ns = [fresh_index(h) for h in bsh]
    syms = [index_of(nm, s) for nm, s in zip(buf.names, buf.shape)]
    oidx = [None] * len(shape)
    for k, (nm, y) in enumerate(ns):
        oidx[bstart + k] = y
    guard = TRUE
    for s, y in zip(specs, syms):
        if s[0] == 'adv':
            v = bat(s[1], [q for _, q in ns], bsh)
            guard = band(guard, beq(y, neg_fix(v, s[2])))
        elif s[0] == 'fix':
            guard = band(guard, beq(y, s[1]))
        else:
            v = y - s[1]
            if s[2] != 1:
                raise Unsupported('add.at with step')
            guard = band(guard, bnot(blt(v, 0)), blt(v, shape[s[3]]))
            oidx[s[3]] = v
    for i in range(len(oidx)):
        if oidx[i] is None:
            oidx[i] = ZERO
    t = guard.poly() * P(bat(val, oidx, shape))
    for (nm, y), h in reversed(list(zip(ns, bsh))):
        t = mk_sum(nm, 0, h, t)
    buf.set(buf.body + t)


# ------------------------------------------------------------- masks
class Comp:
    """compressed array a[mask] (elements where the mask holds, in order); only elementwise
    operations, reductions to a scalar and re-assignment through the same mask"""

    def __init__(self, vals, mask, fill=None):
        self.vals = vals
        self.mask = mask
        self.fill = fill

    @property
    def ndim(self):
        return 1

    @property
    def kind(self):
        return kind_of(self.vals)

    @property
    def dtype(self):
        return _DT[self.kind]

    @property
    def size(self):
        return reduce_sum(self.mask, None)

    @property
    def shape(self):
        return (self.size,)

    def sum(self, axis=None):
        return reduce_sum(binop('*', self.vals, self.mask), None)

    def copy(self):
        return Comp(self.vals.copy() if isinstance(self.vals, Arr) else self.vals, self.mask)

    def astype(self, dt):
        return Comp(self.vals.astype(dt), self.mask)


MaskedArr = Comp
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**'), ('floordiv', '//'), ('mod', '%'), ('and', '&'), ('or', '|')):
    setattr(Comp, '__%s__' % _n, _mkop(_o))
    setattr(Comp, '__r%s__' % _n, _mkop(_o, True))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(Comp, '__%s__' % _n, _mkop(_o))
Comp.__neg__ = lambda a: unop(a, 'neg')
Comp.__hash__ = lambda a: id(a)


def same_mask(a, b):
    if a is b:
        return True
    if a.ndim != b.ndim or any(x != y for x, y in zip(a.vshape, b.vshape)):
        return False
    idx = [fresh_index(s)[1] for s in a.vshape]
    return S.prove_zero(a.at(*idx) - b.at(*idx))


def comp_binop(op, a, b):
    m = a.mask if isinstance(a, Comp) else b.mask
    for x in (a, b):
        if isinstance(x, Comp):
            if not same_mask(x.mask, m):
                raise Unsupported('operation on differently masked arrays')
        elif isinstance(x, (Arr, np.ndarray)) and np.ndim(x) > 0 if not isinstance(x, Arr) else x.ndim > 0:
            raise Unsupported('masked with unmasked array')
    va = a.vals if isinstance(a, Comp) else a
    vb = b.vals if isinstance(b, Comp) else b
    if type(a) is not type(b) and isinstance(a, Comp) and isinstance(b, Comp):
        raise Unsupported('operation on selections of different ranks')
    return type(a if isinstance(a, Comp) else b)(binop(op, va, vb), m)


class MaskAxis:
    """component k of np.where(mask)"""

    def __init__(self, w, k):
        self.w = w
        self.k = k

    def full(self, key):
        return len(key) == self.w.mask.ndim and all(x.w is self.w and x.k == i for i, x in enumerate(key))

    @property
    def size(self):
        return outdim(reduce_sum(self.w.mask, None))

    @property
    def shape(self):
        return (self.size,)

    @property
    def ndim(self):
        return 1

    def __len__(self):
        raise Unsupported('length of a symbolic selection')

    def __iter__(self):
        if not OPTS.get('text'):
            raise Unsupported('iteration over a symbolic selection')
        # only the text of a message depends on the elements: one representative
        return iter([T.Poly.atom(Sym('elem', 'int', nonneg=True))])

    def comp(self):
        m = self.w.mask
        return Comp(mk(m.vshape, lambda *i: i[self.k], 'i'), m)


def _maskop(op, rev=False):
    def f(a, b):
        x, y = a.comp(), (b.comp() if isinstance(b, MaskAxis) else b)
        return binop(op, y, x) if rev else binop(op, x, y)
    return f


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%')):
    setattr(MaskAxis, '__%s__' % _n, _maskop(_o))
    setattr(MaskAxis, '__r%s__' % _n, _maskop(_o, True))


class WhereIdx(tuple):
    """result of np.where(mask) / np.nonzero(mask)"""

    def __new__(cls, mask):
        t = super().__new__(cls, ())
        t.mask = mask.copy()
        t.axes = tuple(MaskAxis(t, k) for k in range(mask.ndim))
        return t

    def __len__(self):
        return len(self.axes)

    def __iter__(self):
        return iter(self.axes)

    def __getitem__(self, k):
        return self.axes[k]

    def get(self, a):
        return mask_get(a, self.mask)

    def set(self, a, v):
        return mask_set(a, self.mask, v)


class TriuIdx(tuple):
    """result of np.triu_indices(n), n symbolic: entry p is the p-th pair i <= j in row-major order"""

    def __new__(cls, t, n):
        t = super().__new__(cls, t)
        t.n = n
        return t

    def rank(self, i, j):
        return i * self.n - (i * (i - 1)).scale(Fr(1, 2)) + j - i

    def set(self, a, val):
        if a.ndim < 2:
            raise IndexError('too many indices for array')
        for k in range(2):
            if S.decide(blt(a.vshape[k], self.n)) is not False:
                raise IndexError('upper triangle index out of range')
        val = lift(val)
        v = val
        if not isinstance(val, Arr):
            a.store(lambda i, j, *r: P(val), lambda i, j, *r: band(blt(j, self.n), bnot(blt(j, i))))
            return
        if val.ndim != a.ndim - 1:
            raise Unsupported('upper triangle assignment with broadcasting')
        need_same(val.vshape[0], (self.n * (self.n + 1)).scale(Fr(1, 2)), 'shape mismatch')
        for x, y in zip(val.vshape[1:], a.vshape[2:]):
            need_same(x, y, 'shape mismatch')
        a.store(lambda i, j, *r: v.at(self.rank(i, j), *r), lambda i, j, *r: band(blt(j, self.n), bnot(blt(j, i))))


def _mask_at(a, mask):
    """mask broadcast over leading axes of a"""
    for u, v in zip(a.vshape, mask.vshape):
        need_same(u, v, 'boolean index did not match')


def concrete_shape(a):
    return all(conc(s) is not None for s in a.vshape)


def mask_get(a, mask):
    _mask_at(a, mask)
    if mask.ndim == 1 and conc(mask.vshape[0]) is not None and conc(mask.vshape[0]) <= 12 and OPTS['fork_masks']:
        return getitem(a, (fork_nonzero(mask),) + (slice(None),) * (a.ndim - 1))
    if a.ndim == mask.ndim:
        return Comp(a.copy(), mask)
    if mask.ndim == 1:
        return RowComp(a, mask)
    raise Unsupported('partial mask')


class RowComp(Comp):
    """rows a[mask] of an array"""

    @property
    def ndim(self):
        return self.vals.ndim

    @property
    def shape(self):
        return (reduce_sum(self.mask, None),) + tuple(self.vals.shape[1:])

    def sum(self, axis=None):
        ax = None if axis is None else conc(axis) % self.ndim
        if ax:
            r = reduce_sum(self.vals, ax)
            return (Comp if r.ndim == 1 else RowComp)(r, self.mask)
        raise Unsupported('sum over selected rows')

    def copy(self):
        return RowComp(self.vals.copy(), self.mask)

    def astype(self, dt):
        return RowComp(self.vals.astype(dt), self.mask)


def mask_set(a, mask, val):
    _mask_at(a, mask)
    m = mask.copy()
    if isinstance(val, RowComp):
        raise Unsupported('rows assigned through a mask')
    if isinstance(val, Comp):
        if not same_mask(val.mask, mask):
            raise Unsupported('assignment through a different mask')
        src = val.vals
        src = src.copy() if isinstance(src, Arr) else src
        a.store(lambda *i: bat(src, i, a.vshape), lambda *i: asB_br(m.at(*i)))
        return
    if isinstance(val, (Arr, np.ndarray, list)) and not (isinstance(val, Arr) and val.ndim == 0):
        v = lift(val)
        if a.ndim > mask.ndim:
            # a[mask] = row
            need = a.vshape[mask.ndim:]
            if v.ndim == len(need):
                a.store(lambda *i: bat(v, i[mask.ndim:], need), lambda *i: asB_br(m.at(*i[:mask.ndim])))
                return
        if mask.ndim == 1 and conc(mask.vshape[0]) is not None and conc(mask.vshape[0]) <= 12 and OPTS['fork_masks']:
            return setitem(a, (fork_nonzero(m),) + (slice(None),) * (a.ndim - 1), val)
        if v.ndim == 1 and conc(v.vshape[0]) == 1:
            x = v.at(ZERO)
            a.store(lambda *i: x, lambda *i: asB_br(m.at(*i)))
            return
        raise Unsupported('array assigned through a mask')
    if isinstance(val, B):
        val = val.poly()
    pv = P(val)
    a.store(lambda *i: pv, lambda *i: asB_br(m.at(*i[:mask.ndim])))


def asB_br(p):
    """0/1 valued polynomial as boolean"""
    if p.isconst():
        return TRUE if p.cval() else FALSE
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and all(a.kind == 'br' for a, _ in m):
            return band(*[B(a.op, a.p) for a, _ in m])
    if len(p.t) == 2 and p.t.get(()) == 1:
        q = const(1) - p
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if c == 1 and all(a.kind == 'br' for a, _ in m):
                return bnot(band(*[B(a.op, a.p) for a, _ in m]))
    return B('b', p)


# ------------------------------------------------------------- reshaping
def reshape(a, shape, order='C'):
    if isinstance(a, (list, tuple, np.ndarray)):
        a = lift(a)
    if isinstance(shape, (int, Poly, np.integer)):
        shape = (shape,)
    shape = [dimp(s) for s in shape]
    if not isinstance(a, Arr):
        pv = P(a)
        return mk(shape, lambda *i: pv, kind_of(a))
    if order == 'F':
        r = reshape(a.transpose(), shape[::-1])
        return r.transpose()
    old = list(a.vshape)
    tot = const(1)
    for s in old:
        tot = tot * s
    if any(conc(s) == -1 for s in shape):
        k = next(i for i, s in enumerate(shape) if conc(s) == -1)
        rest = const(1)
        for i, s in enumerate(shape):
            if i != k:
                rest = rest * s
        q = S._divmod(tot, rest)
        if q is None or q[1].t:
            q2 = tot / rest
            if not q2.isint():
                raise Unsupported('reshape -1: %s / %s' % (tot, rest))
            q = (q2, ZERO)
        shape[k] = q[0]
    new = const(1)
    for s in shape:
        new = new * s
    need_same(tot, new, 'cannot reshape array')
    # group matching
    groups = []
    i = j = 0
    while i < len(old) or j < len(shape):
        gi, gj = i, j
        pi = pj = const(1)
        if i < len(old):
            pi = old[i]
            i += 1
        if j < len(shape):
            pj = shape[j]
            j += 1
        while not dim_eq(pi, pj):
            # extend the smaller side
            if i < len(old) and (j >= len(shape) or _divides(pi, pj) or not _divides(pj, pi)):
                pi = pi * old[i]
                i += 1
            elif j < len(shape):
                pj = pj * shape[j]
                j += 1
            else:
                raise Unsupported('reshape %s -> %s' % (old, shape))
        groups.append((list(range(gi, i)), list(range(gj, j))))

    def imap(idx):
        out = [None] * len(old)
        for gi, gj in groups:
            gi1 = [g for g in gi if conc(old[g]) != 1]
            gj1 = [g for g in gj if conc(shape[g]) != 1]
            for g in gi:
                out[g] = ZERO
            if len(gi1) == 1 and len(gj1) == 1:
                out[gi1[0]] = idx[gj1[0]]
                continue
            flat = ZERO
            for g in gj1:
                flat = flat * shape[g] + idx[g]
            flat = T.join_divmod(flat)
            for g in reversed(gi1):
                if g == gi1[0]:
                    out[g] = flat
                else:
                    out[g] = S.imod(flat, old[g])
                    flat = S.idiv(flat, old[g])
        return out
    return mk(shape, lambda *idx: a.at(*imap(idx)), a.kind)


def dim_eq(p, q):
    return p == q or (S.decide(beq(p, q)) is True if not (p.isconst() and q.isconst()) else False)


def _divides(p, q):
    """p divides q (syntactically)"""
    try:
        r = q / p
    except Unsupported:
        return False
    return r.isint()


def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, RowComp):
        return a.sum(axis)
    if isinstance(a, Comp):
        return a.sum()
    a = lift(a)
    if not isinstance(a, Arr):
        return a
    kd = 'i' if a.kind == 'b' else a.kind
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(conc(x) % a.ndim for x in axis)
    else:
        axes = (conc(axis) % a.ndim,)
    keep = [k for k in range(a.ndim) if k not in axes]

    def f(*i):
        idx = [None] * a.ndim
        if keepdims:
            for k in keep:
                idx[k] = i[k]
        else:
            for k, x in zip(keep, i):
                idx[k] = x
        bs = []
        for k in axes:
            n, y = fresh_index(a.vshape[k])
            idx[k] = y
            bs.append((n, a.vshape[k]))
        p = a.at(*idx)
        for n, h in reversed(bs):
            p = mk_sum(n, 0, h, p)
        return p
    if not keep and not keepdims:
        return f()
    sh = [(const(1) if k in axes else a.vshape[k]) for k in range(a.ndim)] if keepdims else [a.vshape[k] for k in keep]
    return mk(sh, f, kd)


def b_all(a, axis=None):
    if isinstance(a, B):
        return a
    a = lift(a)
    if not isinstance(a, Arr):
        return asB(a)
    if axis is not None:
        # all along axis: product -> [sum of failures == 0]
        bad = reduce_sum(mk(a.vshape, lambda *i: const(1) - truthp(a, i), 'i'), axis)
        return mk(bad.vshape, lambda *i: beq(bad.at(*i), 0).poly(), 'b')
    if concrete_shape(a) and np.prod([conc(s) for s in a.vshape]) <= 64:
        out = TRUE
        for k in np.ndindex(*[conc(s) for s in a.vshape]):
            out = band(out, asB_br(truthp(a, [const(x) for x in k])))
        return out
    idx, bs = [], []
    for s in a.vshape:
        n, y = fresh_index(s)
        idx.append(y)
        bs.append((n, s))
    p = const(1) - truthp(a, idx)
    for n, h in reversed(bs):
        p = mk_sum(n, 0, h, p)
    return beq(p, 0)


def truthp(a, i):
    if a.kind == 'b':
        return a.at(*i)
    return bnot(beq(a.at(*i), 0)).poly()


def matmul(a, b, dot=False):
    a, b = lift(a), lift(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return binop('*', a, b)
    kd = promote(a.kind, b.kind)
    if a.ndim == 1 and b.ndim == 1:
        need_same(a.vshape[0], b.vshape[0])
        n, y = fresh_index(a.vshape[0])
        return mk_sum(n, 0, a.vshape[0], a.at(y) * b.at(y))
    if b.ndim == 1:
        need_same(a.vshape[-1], b.vshape[0])

        def f(*i):
            n, y = fresh_index(b.vshape[0])
            return mk_sum(n, 0, b.vshape[0], a.at(*i, y) * b.at(y))
        return mk(a.vshape[:-1], f, kd)
    if a.ndim == 1:
        need_same(a.vshape[0], b.vshape[-2])

        def f(*i):
            n, y = fresh_index(a.vshape[0])
            return mk_sum(n, 0, a.vshape[0], a.at(y) * b.at(*i[:-1], y, i[-1]))
        return mk(list(b.vshape[:-2]) + [b.vshape[-1]], f, kd)
    need_same(a.vshape[-1], b.vshape[-2])
    if dot:
        la = a.ndim - 1

        def f(*i):
            n, y = fresh_index(a.vshape[-1])
            ia, ib = i[:la], i[la:]
            return mk_sum(n, 0, a.vshape[-1], a.at(*ia, y) * b.at(*ib[:-1], y, ib[-1]))
        return mk(list(a.vshape[:-1]) + list(b.vshape[:-2]) + [b.vshape[-1]], f, kd)
    lead = bshape(a.vshape[:-2], b.vshape[:-2])

    def f(*i):
        n, y = fresh_index(a.vshape[-1])
        l = i[:-2]
        ia = l[len(l) - (a.ndim - 2):] if a.ndim > 2 else ()
        ib = l[len(l) - (b.ndim - 2):] if b.ndim > 2 else ()
        ia = [ZERO if conc(a.vshape[k]) == 1 else x for k, x in enumerate(ia)]
        ib = [ZERO if conc(b.vshape[k]) == 1 else x for k, x in enumerate(ib)]
        return mk_sum(n, 0, a.vshape[-1], a.at(*ia, i[-2], y) * b.at(*ib, y, i[-1]))
    return mk(list(lead) + [a.vshape[-2], b.vshape[-1]], f, kd)


def einsum(sub, *ops):
    ops = [lift(o) for o in ops]
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    if '...' in sub:
        # name the ellipsis axes
        nell = 0
        for s, o in zip(ins, ops):
            if '...' in s:
                nell = max(nell, (o.ndim if isinstance(o, Arr) else 0) - len(s.replace('...', '')))
        el = [chr(ord('A') + k) for k in range(nell)]
        ins2 = []
        for s, o in zip(ins, ops):
            if '...' in s:
                k = o.ndim - len(s.replace('...', ''))
                s = s.replace('...', ''.join(el[nell - k:]))
            ins2.append(s)
        ins = ins2
        out = out.replace('...', ''.join(el))
    assert len(ins) == len(ops)
    size = {}
    for s, o in zip(ins, ops):
        nd = o.ndim if isinstance(o, Arr) else 0
        if len(s) != nd:
            raise ValueError('einsum: operand has %d dims for %r' % (nd, s))
        for c, d in zip(s, o.vshape if nd else ()):
            if c in size:
                if conc(d) == 1:
                    continue
                if conc(size[c]) == 1:
                    size[c] = d
                else:
                    need_same(size[c], d, 'einsum dimension mismatch')
            else:
                size[c] = d
    kd = promote(*[kind_of(o) for o in ops])
    sumc = [c for c in size if c not in out]

    def f(*i):
        env = dict(zip(out, i))
        bs = []
        for c in sumc:
            n, y = fresh_index(size[c])
            env[c] = y
            bs.append((n, size[c]))
        p = const(1)
        for s, o in zip(ins, ops):
            if isinstance(o, Arr):
                p = p * o.at(*[ZERO if conc(d) == 1 else env[c] for c, d in zip(s, o.vshape)])
            else:
                p = p * P(o)
        for n, h in reversed(bs):
            p = mk_sum(n, 0, h, p)
        return p
    if not out:
        return f()
    return mk([size[c] for c in out], f, kd)


def concatenate(arrs, axis=0):
    arrs = [lift(a) for a in arrs]
    arrs = [a if isinstance(a, Arr) else stack([a]) for a in arrs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    ax = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for k in range(nd):
            if k != ax:
                need_same(arrs[0].vshape[k], a.vshape[k])
    offs = [ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.vshape[ax])
    kd = promote(*[a.kind for a in arrs if not (conc(a.vshape[ax]) == 0)] or ['f'])

    def f(*i):
        x = i[ax]
        r = ZERO
        for k, a in enumerate(arrs):
            if conc(a.vshape[ax]) == 0:
                continue
            j = x - offs[k]
            g = const(1)
            if k > 0:
                g = g * bnot(blt(j, 0)).poly()
            if k < len(arrs) - 1:
                g = g * blt(x, offs[k + 1]).poly()
            if not g.t:
                continue
            r = r + g * a.at(*i[:ax], j, *i[ax + 1:])
        return r
    sh = list(arrs[0].vshape)
    sh[ax] = offs[-1]
    return mk(sh, f, kd)


def where3(c, x, y):
    return mapn(lambda cc, xx, yy: ite(asB_br(cc), xx, yy), [c if not isinstance(c, bool) else int(c), x, y],
                promote(kind_of(x) if not isinstance(x, (list, tuple)) else lift(x).kind,
                        kind_of(y) if not isinstance(y, (list, tuple)) else lift(y).kind))


def dtype_kind(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt in KINDS:
        return dt
    try:
        k = np.dtype(dt).kind
    except TypeError:
        n = getattr(dt, '__name__', str(dt))
        k = {'int': 'i', 'float': 'f', 'complex': 'c', 'bool': 'b'}.get(n)
        if k is None:
            raise Unsupported('dtype %r' % (dt,))
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(k, 'f')
