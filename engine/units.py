"""Symbolic quantities.  The scale of every unit is an independent positive symbol, so what
is proved holds for every unit system; names, dimensions and conversions allowed are those of
the real pint registry (set up from /repo's own definitions file)."""
import os
from fractions import Fraction as Fr

import numpy as np

from . import term as T
from . import arr as A
from .term import Poly, P, B, const, ZERO, Unsupported, Sym

import pint
from pint import DimensionalityError, UndefinedUnitError

REG = None
EXTRA = {}        # name -> definition (symbolic test units)


def registry():
    global REG
    if REG is None:
        REG = pint.UnitRegistry()
        repo = os.environ.get('EUPHONIC_REPO', '/repo')
        f = os.path.join(repo, 'euphonic', 'data', 'reciprocal_spectroscopy_definitions.txt')
        if os.path.exists(f):
            REG.load_definitions(f)
        for n, d in EXTRA.items():
            REG.define('%s = %s' % (n, d))
    return REG


def define_unit(name, base):
    """an additional unit name (for contracts quantified over units)"""
    if name not in EXTRA:
        EXTRA[name] = base
        if REG is not None:
            REG.define('%s = %s' % (name, base))


_scale_val = {}


def uscale(unit):
    """positive symbol product for a pint Unit"""
    r = const(1)
    for n, e in unit._units.items():
        r = r * usym(n).power(Fr(e).limit_denominator(1000))
    return r


_HC = {}


def usym(name):
    return Poly.atom(Sym('U_' + name, 'real', pos=True))


def unit_value(name):
    """numeric scale of a unit symbol (for evaluation)"""
    reg = registry()
    return float(reg.Quantity(1.0, name).to_base_units().magnitude)


def as_unit(u):
    reg = registry()
    if isinstance(u, Q):
        if not (A.conc(P(u.m)) == 1):
            raise Unsupported('unit with a factor')
        return u.u
    if isinstance(u, str):
        return reg.Unit(u) if u else reg.Unit('dimensionless')
    if isinstance(u, reg.Unit):
        return u
    if isinstance(u, pint.Unit):
        return reg.Unit(str(u))
    if u is None:
        return reg.Unit('dimensionless')
    raise TypeError('not a unit: %r' % (u,))


def _dimkey(u):
    return tuple(sorted((k, float(v)) for k, v in u.dimensionality.items()))


def conv_factor(src, dst, contexts=()):
    """(factor Poly, power) so that value_dst = factor * value_src**power"""
    if src == dst:
        return const(1), 1
    if src.dimensionality == dst.dimensionality:
        return uscale(src) / uscale(dst), 1
    reg = registry()
    ctxs = ('spectroscopy',) + tuple(contexts)
    try:
        a = reg.Quantity(1.0, src).to(dst, *ctxs).magnitude
        b = reg.Quantity(2.0, src).to(dst, *ctxs).magnitude
    except DimensionalityError:
        raise
    ratio = b / a
    if abs(ratio - 2) < 1e-9:
        p = 1
    elif abs(ratio - 0.5) < 1e-9:
        p = -1
    else:
        raise Unsupported('non-linear conversion')
    k = Poly.atom(Sym('G_%s' % _dname(src), 'real', pos=True)) if p == 1 else None
    if p == -1:
        raise Unsupported('reciprocal conversion')
    f = uscale(src) / uscale(dst) * gsym(src) / gsym(dst)
    return f, 1


def gsym(u):
    """spectroscopic equivalence factor of a dimension, relative to energy"""
    reg = registry()
    key = _dname(u)
    en = _dname(reg.Unit('meV'))
    ien = _dname(reg.Unit('1/meV'))
    wn = _dname(reg.Unit('1/cm'))
    le = _dname(reg.Unit('cm'))
    hc = Poly.atom(Sym('HC', 'real', pos=True))
    if key == en or key == ien:
        return const(1)
    if key == wn:
        return hc
    if key == le:
        return hc.inv()
    return Poly.atom(Sym('G_' + key, 'real', pos=True))


def _dname(u):
    return '_'.join('%s%g' % (k.strip('[]'), v) for k, v in sorted(u.dimensionality.items()))


def _str(u):
    return str(u)


class Q:
    """quantity with symbolic magnitude"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, m=None, u=None, units=None, value=None):
        u = units if u is None else u
        m = value if m is None else m
        if isinstance(m, str):
            q = parse(m)
            m, u0 = q.m, q.u
            if u is not None:
                raise Unsupported('Quantity(str, unit)')
            self.m, self.u = m, u0
            return
        if isinstance(m, Q):
            if u is None:
                self.m, self.u = m.m, m.u
                return
            m = m.to(u).m
        if isinstance(u, Q):
            # Quantity(value, quantity): pint multiplies
            self.m = mul(m, u.m) if A.conc(P(u.m)) != 1 else m
            self.u = u.u
            return
        if isinstance(m, (list, tuple)):
            if any(isinstance(x, Q) for x in m):
                u2 = as_unit(u) if u is not None else m[0].u
                m = [x.to(u2).m for x in m]
                u = u2
            m = A.from_nested(m) if A.issym(m) else np.array(m)
        self.m = m
        self.u = as_unit(u)

    # pint interface
    @property
    def magnitude(self):
        return self.m
    _magnitude = magnitude

    @property
    def units(self):
        return self.u

    @property
    def dimensionality(self):
        return self.u.dimensionality

    @property
    def unitless(self):
        return self.u == registry().Unit('dimensionless')

    @property
    def dimensionless(self):
        return not self.u.dimensionality

    def check(self, d):
        return registry().Quantity(1.0, self.u).check(d)

    def is_compatible_with(self, o, *ctx):
        u = o.u if isinstance(o, Q) else as_unit(o)
        return registry().Quantity(1.0, self.u).is_compatible_with(u, *ctx)

    def to(self, u, *contexts, **k):
        u = as_unit(u)
        f, p = conv_factor(self.u, u, contexts)
        return Q(scale(self.m, f), u)

    def ito(self, u, *contexts, **k):
        q = self.to(u, *contexts)
        self.m, self.u = q.m, q.u

    def m_as(self, u):
        return self.to(u).m

    def to_base_units(self):
        b = registry().get_base_units(self.u)[1]
        return self.to(b)

    def to_reduced_units(self):
        return self

    def phys(self):
        """magnitude in the absolute scale"""
        return scale(self.m, uscale(self.u))

    # array interface
    @property
    def shape(self):
        return np.shape(self.m) if not isinstance(self.m, (A.Arr, A.Comp, Poly)) else (() if isinstance(self.m, Poly) else self.m.shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.m.dtype

    @property
    def size(self):
        return self.m.size

    @property
    def T(self):
        return Q(self.m.T, self.u)

    def __len__(self):
        return len(self.m)

    def __getattr__(self, n):
        if n in ('copy', 'reshape', 'sum', 'mean', 'squeeze', 'flatten', 'transpose', 'astype', 'max', 'min', 'ravel', 'conj'):
            f = getattr(self.m, n)
            return lambda *a, **k: Q(f(*a, **k), self.u)
        if n == 'real' or n == 'imag':
            return Q(getattr(self.m, n), self.u)
        if n == 'tolist':
            return lambda: [Q(x, self.u) for x in self.m.tolist()]
        if n == 'item':
            return lambda: Q(self.m.item(), self.u)
        if n == 'm':
            raise AttributeError(n)
        raise AttributeError('Quantity has no attribute %r' % n)

    def __getitem__(self, k):
        return Q(A.getitem(A.lift(self.m) if A.issym(k) and isinstance(self.m, np.ndarray) else self.m, k)
                 if isinstance(self.m, A.Arr) or A.issym(k) else self.m[k], self.u)

    def __setitem__(self, k, v):
        vm = v.to(self.u).m if isinstance(v, Q) else v
        A.setitem(self.m, k, vm)

    def __iter__(self):
        for x in self.m:
            yield Q(x, self.u)

    def __bool__(self):
        raise Unsupported('truth of a quantity')

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return Q(self.m, self.u)

    def __deepcopy__(self, memo):
        m = self.m
        if isinstance(m, (A.Arr, np.ndarray)):
            m = m.copy()
        return Q(m, self.u)

    def __repr__(self):
        return '<Q %r %s>' % (self.m, self.u)

    def __format__(self, s):
        return repr(self)

    def __str__(self):
        if isinstance(self.m, (int, float)):
            return '%s %s' % (self.m, self.u)
        return repr(self)

    # arithmetic
    def __mul__(self, o):
        if isinstance(o, Q):
            return Q(mul(self.m, o.m), self.u * o.u)
        if is_unit(o):
            return Q(self.m, self.u * as_unit(o))
        return Q(mul(self.m, o), self.u)

    def __rmul__(self, o):
        if is_unit(o):
            return Q(self.m, as_unit(o) * self.u)
        return Q(mul(o, self.m), self.u)
    def __imul__(self, o):
        r = self * o
        if isinstance(self.m, (A.Arr,)) and isinstance(r.m, A.Arr):
            A.setitem(self.m, Ellipsis, r.m)
            self.u = r.u
            return self
        return r

    def __truediv__(self, o):
        if isinstance(o, Q):
            return Q(div(self.m, o.m), self.u / o.u)
        if is_unit(o):
            return Q(self.m, self.u / as_unit(o))
        return Q(div(self.m, o), self.u)
    def __itruediv__(self, o):
        r = self / o
        if isinstance(self.m, (A.Arr,)) and isinstance(r.m, A.Arr):
            A.setitem(self.m, Ellipsis, r.m)
            self.u = r.u
            return self
        return r

    def __rtruediv__(self, o):
        return Q(div(o, self.m), (1 / self.u).units if hasattr(1 / self.u, 'units') else 1 / self.u)

    def _same(self, o):
        if isinstance(o, Q):
            return o.to(self.u).m
        if not self.u.dimensionality:
            f, _ = conv_factor(registry().Unit('dimensionless'), self.u)
            return scale(o, f)
        if isinstance(o, (int, float)) and o == 0:
            return o
        raise DimensionalityError(self.u, 'dimensionless')

    def __add__(self, o):
        return Q(add(self.m, self._same(o)), self.u)

    def __radd__(self, o):
        return Q(add(self._same(o), self.m), self.u)

    def __iadd__(self, o):
        if isinstance(self.m, A.Arr):
            A.setitem(self.m, Ellipsis, add(self.m, self._same(o)))
            return self
        return self + o

    def __isub__(self, o):
        if isinstance(self.m, A.Arr):
            A.setitem(self.m, Ellipsis, sub(self.m, self._same(o)))
            return self
        return self - o

    def __sub__(self, o):
        return Q(sub(self.m, self._same(o)), self.u)

    def __rsub__(self, o):
        return Q(sub(self._same(o), self.m), self.u)

    def __neg__(self):
        return Q(-self.m, self.u)

    def __abs__(self):
        return Q(A.unop(self.m, 'abs') if A.issym(self.m) else abs(self.m), self.u)

    def __pow__(self, e):
        return Q(power(self.m, e), self.u ** (float(e) if isinstance(e, Poly) else e))

    def _cmp(self, o, op):
        if op in ('==', '!=') and isinstance(o, Q) and o.u.dimensionality != self.u.dimensionality:
            return op == '!='
        if op in ('==', '!=') and not isinstance(o, (Q, int, float, Poly, A.Arr, np.ndarray)):
            return op == '!='
        return symop(op, self.m, self._same(o))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __float__(self):
        return float(self.to('dimensionless').m)


def is_unit(o):
    return isinstance(o, pint.Unit) or (REG is not None and isinstance(o, REG.Unit))


def symop(op, a, b):
    if A.issym(a) or A.issym(b):
        return A.binop(op, a, b)
    import operator as o
    return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge,
            '==': o.eq, '!=': o.ne, '**': o.pow}[op](a, b)


def mul(a, b):
    return symop('*', a, b)


def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0 and a % b == 0:
        return a // b
    return symop('/', a, b)


def add(a, b):
    return symop('+', a, b)


def sub(a, b):
    return symop('-', a, b)


def power(a, e):
    return symop('**', a, e)


def scale(m, f):
    if f == 1:
        return m
    if isinstance(m, np.ndarray):
        m = A.lift(m)
    return A.binop('*', m, f)


def parse(s):
    reg = registry()
    q = reg(s)
    if not hasattr(q, 'magnitude'):
        return Q(q, 'dimensionless')
    m = q.magnitude
    if isinstance(m, float) and m == int(m) and abs(m) < 1e9:
        m = int(m)
    return Q(m, q.units)


class Ureg:
    """stand-in for the package's unit registry"""

    Quantity = Q

    def __call__(self, s):
        if isinstance(s, Q):
            return s
        if is_unit(s):
            return Q(1, s)
        return parse(s)

    parse_expression = __call__

    def Unit(self, s):
        return as_unit(s)

    def enable_contexts(self, *a):
        pass

    def load_definitions(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(registry(), n)


UREG = Ureg()
