"""Term language of the verifier.

Values are polynomials (`Poly`) with rational coefficients over *atoms*, kept in a
normal form so that most proof obligations are discharged by syntactic equality
of normal forms:

  Sym      scalar symbol (int / real / complex / bool)
  Sel      element  A[idx] of a (symbolic, unbounded) array; optional definition
  Unit     phase    E(t) = exp(2*pi*i*t), t real          (products combine)
  Exp      exp(p)                                         (products combine)
  Sum      sum over binders, body a single monomial       (canonically renamed)
  Br       Iverson bracket [p<0] or [p==0]                (idempotent)
  Pw       a polynomial under a negative / fractional power
  Fn       application of a named function (abs, tanh, erfc, ...)
  Conj     complex conjugate of a complex atom
  I        imaginary unit, Prime(p) for irrational constants

All arithmetic is exact; machine floating point is treated as real arithmetic.
"""
from fractions import Fraction as Fr
from math import gcd, floor, ceil
import itertools

ONE = Fr(1)


class Unsupported(Exception):
    """construct outside the verified subset (not a verdict)"""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('skey', 'sort', 'free', 'pos', 'nonneg', 'height', '__weakref__')
    kind = '?'

    def __hash__(self):
        return hash(self.skey)

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.skey == o.skey)

    def __lt__(self, o):
        return self.skey < o.skey

    def __repr__(self):
        return self.skey


def _freeunion(ps):
    f = frozenset()
    for p in ps:
        f |= p.free
    return f


def _maxh(ps):
    return max([p.height for p in ps], default=0)


class Sym(Atom):
    __slots__ = ('name',)
    kind = 'sym'

    def __init__(self, name, sort='real', pos=False, nonneg=False):
        self.name = name
        self.sort = sort
        self.pos = pos
        self.nonneg = nonneg or pos
        self.skey = name
        self.free = frozenset([name])
        self.height = 0


class Sel(Atom):
    __slots__ = ('name', 'args', 'decl')
    kind = 'sel'

    def __init__(self, decl, args):
        self.decl = decl
        self.name = decl.name
        self.args = args
        self.sort = decl.sort
        self.pos = decl.pos
        self.nonneg = decl.nonneg
        self.skey = decl.name + '[' + ','.join(a.skey for a in args) + ']'
        self.free = _freeunion(args)
        self.height = _maxh(args)


class ArrDecl:
    """declaration of a symbolic array; `rng` = (lo, hi) bounds of integer elements:
    functions of the index tuple giving Poly, half open; `define` = optional
    definition idx -> Poly (used for numeric evaluation / unfolding)"""

    def __init__(self, name, ndim, sort='real', pos=False, nonneg=False, rng=None, define=None,
                 facts=None, mono=False, inv=None, rule=None):
        self.rule = rule     # args -> Poly or None: value known for these indices
        self.inv = inv       # inverse permutation (an ArrDecl or callable giving it) along the last index
        self.mono = mono     # increasing along the last index (sampling only)
        self.name = name
        self.ndim = ndim
        self.sort = sort
        self.pos = pos
        self.nonneg = nonneg or pos
        self.rng = rng
        self.define = define
        self.facts = facts   # idx -> list of B

    def __call__(self, *idx):
        args = tuple(P(i) for i in idx)
        assert len(args) == self.ndim, (self.name, len(args), self.ndim)
        if self.sort == 'int' and self.rng is not None:
            pass
        return mksel(self, args)


def repr_names(p):
    return {a.name for m in p.t for a, _ in m if a.kind == 'fn'}


def join_divmod(p):
    """d*idiv(x, d) + imod(x, d) is x"""
    for m, c in list(p.t.items()):
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'imod':
            x, d = m[0][0].args
            q = d * FN_SIMP['idiv'](x, d)
            if all(p.t.get(k) == v for k, v in q.t.items()):
                return join_divmod(p - q - Poly({m: c}) + x)
    return p


def mksel(d, args):
    """d[args]; permutations cancel against their inverse"""
    if any(a.__class__ is Poly and len(a.t) > 1 and 'imod' in repr_names(a) for a in args):
        args = tuple(join_divmod(a) for a in args)
    if d.rule is not None:
        v = d.rule(args)
        if v is not None:
            return v
    if d.inv is not None:
        x = args[-1]
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel' and m[0][0].name == d.inv().name \
                    and m[0][0].args[:-1] == args[:-1]:
                return m[0][0].args[-1]
    return Poly.atom(Sel(d, args))


def inverse_of(p, name):
    """the index tuple when p is name[index], else None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel' and m[0][0].name == name:
            return m[0][0].args


def permutation(name, ndim, n):
    """integer array that is a permutation of range(n) along its last index, and its inverse"""
    f = ArrDecl(name, ndim, 'int', nonneg=True, rng=(0, n), inv=lambda: g)
    g = ArrDecl(name + '_inv', ndim, 'int', nonneg=True, rng=(0, n), inv=lambda: f)
    return f, g


class Conj(Atom):
    __slots__ = ('a',)
    kind = 'conj'

    def __init__(self, a):
        self.a = a
        self.sort = 'complex'
        self.pos = self.nonneg = False
        self.skey = '~' + a.skey
        self.free = a.free
        self.height = a.height


class Unit(Atom):
    __slots__ = ('theta',)
    kind = 'unit'

    def __init__(self, theta):
        self.theta = theta
        self.sort = 'complex'
        self.pos = self.nonneg = False
        self.skey = 'E(' + theta.skey + ')'
        self.free = theta.free
        self.height = theta.height


class Exp(Atom):
    __slots__ = ('arg',)
    kind = 'exp'

    def __init__(self, arg):
        self.arg = arg
        self.sort = 'real' if arg.isreal() else 'complex'
        self.pos = self.nonneg = self.sort == 'real'
        self.skey = 'exp(' + arg.skey + ')'
        self.free = arg.free
        self.height = arg.height


class Br(Atom):
    """[p<0] (op 'lt'), [p==0] (op 'eq'), or [b] for opaque boolean atom (op 'b')"""
    __slots__ = ('op', 'p')
    kind = 'br'

    def __init__(self, op, p):
        self.op = op
        self.p = p
        self.sort = 'int'
        self.pos = False
        self.nonneg = True
        self.skey = '{' + p.skey + {'lt': '<0}', 'eq': '=0}', 'b': '}'}[op]
        self.free = p.free
        self.height = p.height


class Pw(Atom):
    """polynomial kept under a power"""
    __slots__ = ('p',)
    kind = 'pw'

    def __init__(self, p):
        self.p = p
        self.sort = 'real' if p.isreal() else 'complex'
        self.pos = self.nonneg = False
        self.skey = '(' + p.skey + ')'
        self.free = p.free
        self.height = p.height


class Fn(Atom):
    __slots__ = ('name', 'args')
    kind = 'fn'

    def __init__(self, name, args, sort='real', pos=False, nonneg=False):
        self.name = name
        self.args = args
        self.sort = sort
        self.pos = pos
        self.nonneg = nonneg or pos
        self.skey = name + '(' + ','.join(a.skey for a in args) + ')'
        self.free = _freeunion(args)
        self.height = _maxh(args)


class SumA(Atom):
    """sum over binders ((name, hi), ...) of a monomial (as Poly with one term, coef 1)"""
    __slots__ = ('binders', 'body')
    kind = 'sum'

    def __init__(self, binders, body):
        self.binders = binders
        self.body = body
        self.sort = 'real' if body.isreal() else 'complex'
        if body.isint():
            self.sort = 'int'
        self.pos = False
        self.nonneg = body.isnonneg()
        self.skey = 'SUM<' + ','.join(b + ':' + h.skey for b, h in binders) + '|' + body.skey + '>'
        bn = frozenset(b for b, _ in binders)
        f = body.free
        for _, h in binders:
            f |= h.free
        self.free = f - bn
        self.height = 1 + max(body.height, _maxh([h for _, h in binders]))


class ImagA(Atom):
    kind = 'I'

    def __init__(self):
        self.sort = 'complex'
        self.pos = self.nonneg = False
        self.skey = '!I'
        self.free = frozenset()
        self.height = 0


class Prime(Atom):
    __slots__ = ('n',)
    kind = 'prime'

    def __init__(self, n):
        self.n = n
        self.sort = 'real'
        self.pos = self.nonneg = True
        self.skey = '!%d' % n
        self.free = frozenset()
        self.height = 0


IMAG = ImagA()
PI = Sym('pi', 'real', pos=True)


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_k', '_f', '_h')

    def __bool__(self):
        if self.isconst():
            return self.cval() != 0
        raise Unsupported('truth of a symbolic number in native code')

    def __init__(self, t):
        self.t = t
        self._k = self._f = self._h = None

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): ONE})

    @property
    def skey(self):
        if self._k is None:
            if not self.t:
                self._k = '0'
            else:
                items = sorted((mkey(m), c) for m, c in self.t.items())
                self._k = '+'.join((str(c) if m == '' else (m if c == 1 else '%s*%s' % (c, m)))
                                   for m, c in items)
        return self._k

    def __hash__(self):
        return hash(self.skey)

    def __eq__(self, o):
        if not isinstance(o, Poly):
            if isinstance(o, (int, Fr)):
                o = const(o)
            else:
                return NotImplemented
        return self.t == o.t

    def __repr__(self):
        return self.skey

    @property
    def free(self):
        if self._f is None:
            f = set()
            for m in self.t:
                for a, _ in m:
                    f |= a.free
            self._f = frozenset(f)
        return self._f

    @property
    def height(self):
        if self._h is None:
            self._h = max([a.height for m in self.t for a, _ in m], default=0)
        return self._h

    # -- predicates
    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fr(0))

    def iszero(self):
        return not self.t

    def isreal(self):
        return all(_mono_real(m) for m in self.t)

    def isint(self):
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != 'int' or e.__class__ is not int or e < 0:
                    return False
        return True

    def isnonneg(self):
        for m, c in self.t.items():
            if c < 0:
                return False
            for a, e in m:
                if not (a.nonneg or (e.__class__ is int and e % 2 == 0 and a.sort != 'complex')):
                    return False
        return True

    def ispos(self):
        return bool(self.t) and all(c > 0 and all(a.pos for a, e in m) for m, c in self.t.items())

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if self.isconst():
            return o.scale(self.cval())
        if o.isconst():
            return self.scale(o.cval())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c, m, extra = mono_mul(m1, m2)
                c = c * c1 * c2
                if c == 0:
                    continue
                if extra is None:
                    _acc(r, m, c)
                else:
                    for m3, c3 in (Poly({m: c}) * extra).t.items():
                        _acc(r, m3, c3)
        return Poly(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * P(o).inv()

    def __rtruediv__(self, o):
        return P(o) * self.inv()

    def inv(self):
        return self.power(-1)

    def __pow__(self, e):
        return self.power(e)

    def power(self, e):
        if isinstance(e, Poly):
            if not e.isconst():
                raise Unsupported('symbolic exponent')
            e = e.cval()
        e = Fr(e)
        if e.denominator > 10 ** 6:
            r = e.limit_denominator(1000)
            if float(r) == float(e):        # 1/3 written as a float
                e = r
        if e == 0:
            return const(1)
        if e.denominator == 1 and e > 0:
            n = int(e)
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        # negative or fractional
        if not self.t:
            raise Unsupported('zero to a non-positive power')
        if len(self.t) > 1:
            bs = split_brackets(self)
            if bs:
                out = ZERO
                for w, x in bs:
                    if not x.t:
                        break
                    out = out + w * x.power(e)
                else:
                    return out
        frac = e.denominator != 1
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return _mono_pow(m, c, e)
        # pull out content and common monomial
        c, m, rest = content(self, frac)
        if m or c != 1:
            return _mono_pow(m, c, e) * Poly.atom(Pw(rest), _norm_e(e))
        return Poly.atom(Pw(self), _norm_e(e))


def _acc(r, m, c):
    v = r.get(m)
    if v is None:
        r[m] = c
    else:
        v += c
        if v:
            r[m] = v
        else:
            del r[m]


def _norm_e(e):
    e = Fr(e)
    return int(e) if e.denominator == 1 else e


_mk_cache = {}


def mkey(m):
    k = _mk_cache.get(m)
    if k is None:
        k = '*'.join(a.skey if e == 1 else '%s^%s' % (a.skey, e) for a, e in m)
        if len(_mk_cache) > 400000:
            _mk_cache.clear()
        _mk_cache[m] = k
    return k


def _mono_real(m):
    ni = 0
    for a, e in m:
        if a.sort == 'complex':
            if a is IMAG:
                ni += e
            else:
                # a * conj(a) pairs are real but we do not track them here
                return False
    return ni % 2 == 0


def const(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    f = Fr(x)
    return Poly({(): f}) if f else ZERO


ZERO = Poly({})
I_ = Poly.atom(IMAG)


def P(x):
    """coerce to Poly"""
    if x.__class__ is Poly:
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fr)):
        return const(x)
    if isinstance(x, float):
        return float_const(x)
    if isinstance(x, complex):
        return float_const(x.real) + float_const(x.imag) * I_
    if isinstance(x, Atom):
        return Poly.atom(x)
    if isinstance(x, B):
        return x.poly()
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return P(x.item())
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (type(x),))


import math as _math
_PI_MULT = {}


def float_const(x):
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        if x == float('inf'):
            return Poly.atom(Sym('INF', 'real', pos=True))
        if x == float('-inf'):
            return -Poly.atom(Sym('INF', 'real', pos=True))
        return Poly.atom(Sym('NAN', 'real'))
    for k in (1, 2, 4, Fr(1, 2), Fr(1, 4), Fr(3, 2), 3):
        for s in (1, -1):
            if abs(x - float(k) * s * _math.pi) <= 1e-15 * abs(x):
                return Poly.atom(PI).scale(Fr(k) * s)
    if abs(abs(x) - 1.7724538509055159) <= 4e-16:
        return Poly.atom(PI, Fr(1, 2)).scale(1 if x > 0 else -1)
    if 0.1 < abs(x) < 10:      # standard deviations per FWHM: one canonical number for all its roundings
        f = 2.3548200450309493
        for v, c in ((f, Fr(repr(f))), (1 / f, 1 / Fr(repr(f))), (f / 2, Fr(repr(f)) / 2), (2 / f, 2 / Fr(repr(f)))):
            if abs(abs(x) - v) <= 1e-15 * v:
                return const(c if x > 0 else -c)
    return const(Fr(repr(x)))


def mono_mul(m1, m2):
    """-> coef, mono, extra poly or None"""
    if not m1:
        return ONE, m2, None
    if not m2:
        return ONE, m1, None
    d = dict(m1)
    for a, e in m2:
        if a in d:
            d[a] = d[a] + e
        else:
            d[a] = e
    return norm_mono(d)


def norm_mono(d):
    coef = ONE
    extra = None
    units = exps = 0
    special = False
    for a in d:
        k = a.kind
        if k == 'unit':
            units += 1
        elif k == 'exp':
            exps += 1
        if k not in ('sym', 'sel'):
            special = True
    if special:
        if units:
            th = ZERO
            for a in [a for a in d if a.kind == 'unit']:
                th = th + a.theta.scale(d.pop(a))
            u = phase(th)
            (m, c), = u.t.items()
            coef *= c
            for a, e in m:
                d[a] = d.get(a, 0) + e
        if exps:
            ar = ZERO
            for a in [a for a in d if a.kind == 'exp']:
                ar = ar + a.arg.scale(Fr(d.pop(a)))
            if ar.t:
                d[Exp(ar)] = 1
        for a in list(d):
            k = a.kind
            e = d[a]
            if e == 0:
                del d[a]
            elif k == 'br':
                d[a] = 1
            elif k == 'prime':
                e = Fr(e)
                n = floor(e)
                if n:
                    coef *= Fr(a.n) ** n
                    e -= n
                if e:
                    d[a] = _norm_e(e)
                else:
                    del d[a]
            elif k == 'I':
                e = e % 4
                if e >= 2:
                    coef = -coef
                    e -= 2
                if e:
                    d[a] = 1
                else:
                    del d[a]
            elif k == 'pw':
                e = Fr(e)
                if e > 0 and e.denominator == 1:
                    x = a.p.power(int(e))
                    extra = x if extra is None else extra * x
                    del d[a]
                else:
                    d[a] = _norm_e(e)
                    if e > 1 and e.denominator != 1:
                        n = floor(e)
                        x = a.p.power(n)
                        extra = x if extra is None else extra * x
                        d[a] = _norm_e(e - n)
            elif k == 'fn' and a.name == 'abs' and e.__class__ is int and (e >= 2 or e <= -2):
                x = a.args[0].power(e - (e % 2) if e > 0 else e + (-e % 2))
                rem = e % 2 if e > 0 else -((-e) % 2)
                extra = x if extra is None else extra * x
                if rem:
                    d[a] = rem
                else:
                    del d[a]
            else:
                d[a] = _norm_e(e) if e.__class__ is not int else e
        # contradictory / implied equality brackets are left to the solver
    m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].skey))
    return coef, m, extra


def _factor(n):
    f = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            raise Unsupported('large constant under a root: %s' % n)
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def const_pow(c, e):
    """c**e for rational c > 0 (or integer e)"""
    e = Fr(e)
    if e.denominator == 1:
        return const(c ** int(e))
    if c < 0:
        raise Unsupported('root of negative constant')
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(n).items():
            d[Prime(p)] = d.get(Prime(p), 0) + s * k * e
    co, m, ex = norm_mono(d)
    r = Poly({m: co})
    return r


def _mono_pow(m, c, e):
    """(c*m)**e, e integer or fractional"""
    e = Fr(e)
    if e.denominator == 1:
        d = {a: k * int(e) for a, k in m}
        co, mm, extra = norm_mono(d)
        r = Poly({mm: co}).scale(Fr(c) ** int(e))
        return r if extra is None else r * extra
    # fractional
    out = const(1)
    rest = {}
    for a, k in m:
        if a.pos or a.nonneg:
            co, mm, ex = norm_mono({a: k * e})
            x = Poly({mm: co})
            out = out * (x if ex is None else x * ex)
        elif (k.__class__ is int and k % 2 == 0 and a.sort != 'complex'):
            out = out * fabs(Poly.atom(a)).power(k * e)
        elif a.kind == 'pw' and Fr(k).denominator == 1 and a.sort != 'complex' \
                and (a.p.isnonneg()):
            co, mm, ex = norm_mono({a: k * e})
            x = Poly({mm: co})
            out = out * (x if ex is None else x * ex)
        else:
            rest[a] = k
    if c > 0:
        out = out * const_pow(Fr(c), e)
        c = ONE
    else:
        out = out * const_pow(Fr(-c), e)
        c = -ONE
    if rest or c != 1:
        co, mm, ex = norm_mono(rest)
        inner = Poly({mm: co * c})
        if ex is not None:
            inner = inner * ex
        out = out * Poly.atom(Pw(inner), _norm_e(e))
    return out


def content(p, positive_only):
    """p = c * mono * rest; with positive_only, c>0 and mono of positive atoms only"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            if a in dm:
                e1, e2 = common[a], dm[a]
                if e1 > 0 and e2 > 0:
                    common[a] = min(e1, e2)
                elif e1 < 0 and e2 < 0:
                    common[a] = max(e1, e2)
                else:
                    del common[a]
            else:
                del common[a]
        if not common:
            break
    # pull out negative powers present in any monomial of plain atoms? (denominators) keep simple
    if positive_only:
        common = {a: e for a, e in common.items() if a.pos}
    common = {a: e for a, e in common.items() if a.kind not in ('unit', 'exp', 'br', 'I')}
    num = 0
    den = 1
    for c in p.t.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    c = Fr(num, den)
    if not positive_only:
        lead = max(p.t, key=mkey)
        if p.t[lead] < 0:
            c = -c
    m = tuple(sorted(common.items(), key=lambda x: x[0].skey))
    if not m and c == 1:
        return c, (), p
    inv = _mono_pow(m, c, -1)
    return c, m, p * inv


def split_brackets(p, limit=2):
    """p as a choice by its (at most `limit`) top-level brackets: [(indicator, value)], or None"""
    bs = []
    for m in p.t:
        for a, _ in m:
            if a.kind == 'br' and a not in bs:
                bs.append(a)
    if not bs or len(bs) > limit:
        return None
    out = [(const(1), p)]
    for b in sorted(bs, key=lambda a: a.skey):
        nxt = []
        for w, x in out:
            on, off = {}, {}
            for m, c in x.t.items():
                if any(a is b or a == b for a, _ in m):
                    _acc(on, tuple(y for y in m if y[0] != b), c)
                else:
                    _acc(on, m, c)
                    _acc(off, m, c)
            i = Poly.atom(b)
            nxt += [(w * i, Poly(on)), (w * (const(1) - i), Poly(off))]
        out = nxt
    return out


# ---------------------------------------------------------------- constructors
def sym(name, sort='real', **k):
    return Poly.atom(Sym(name, sort, **k))


def phase(theta):
    """exp(2 pi i theta), theta real"""
    r = {}
    coef = const(1)
    for m, c in theta.t.items():
        if m == ():
            c = c % 1
            q = {Fr(0): const(1), Fr(1, 2): const(-1), Fr(1, 4): I_, Fr(3, 4): -I_}.get(c)
            if q is not None:
                coef = coef * q
            else:
                r[m] = c
        elif c.denominator == 1 and all(a.sort == 'int' and e.__class__ is int and e > 0 for a, e in m):
            continue
        else:
            r[m] = c
    th = Poly(r)
    if not th.t:
        return coef
    return coef * Poly.atom(Unit(th))


def pexp(p):
    """exp(p)"""
    if not p.t:
        return const(1)
    bs = split_brackets(p)
    if bs:
        out = ZERO
        for w, x in bs:
            out = out + w * pexp(x)
        return out
    re, im = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        if d.get(IMAG) == 1 and all(a.sort != 'complex' for a in d if a is not IMAG):
            del d[IMAG]
            d[PI] = d.get(PI, 0) - 1
            _, mm, _ = norm_mono(d)
            im[mm] = c / 2
        else:
            re[m] = c
    out = const(1)
    if im:
        out = phase(Poly(im))
    if re:
        out = out * Poly.atom(Exp(Poly(re)))
    return out


def pcos(x):
    t = x * Poly.atom(PI, -1).scale(Fr(1, 2))
    return (phase(t) + phase(-t)).scale(Fr(1, 2))


def psin(x):
    t = x * Poly.atom(PI, -1).scale(Fr(1, 2))
    return (phase(t) - phase(-t)) * I_.scale(Fr(-1, 2))


def fabs(p):
    """absolute value of a real or complex polynomial"""
    if not p.t:
        return ZERO
    if not p.isreal():
        if len(p.t) == 1:
            (m, c), = p.t.items()
            out = const(abs(c))
            for a, e in m:
                if a is IMAG or a.kind == 'unit':
                    continue
                x = Poly.atom(a, e)
                if a.sort == 'complex':
                    out = out * (x * conj(x)).power(Fr(1, 2))
                else:
                    out = out * fabs(x)
            return out
        return (p * conj(p)).power(Fr(1, 2))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = const(abs(c))
        for a, e in m:
            if a.nonneg:
                out = out * Poly.atom(a, e)
            elif e.__class__ is int and e % 2 == 0:
                out = out * Poly.atom(a, e)
            elif a.kind == 'pw' or a.kind == 'fn' or a.kind in ('sym', 'sel', 'sum'):
                base = a.p if a.kind == 'pw' else Poly.atom(a)
                if a.kind == 'pw':
                    if Fr(e).denominator != 1:
                        out = out * Poly.atom(a, e)
                        continue
                    out = out * Poly.atom(Fn('abs', (base,), 'real', nonneg=True), e)
                else:
                    s = 'int' if a.sort == 'int' and e.__class__ is int and e > 0 else 'real'
                    out = out * Poly.atom(Fn('abs', (base,), s, nonneg=True), e)
            else:
                out = out * Poly.atom(Fn('abs', (Poly.atom(a, e),), 'real', nonneg=True))
        return out
    if p.isnonneg():
        return p
    c, m, rest = content(p, False)
    if m or c != 1:
        return fabs(Poly({m: abs(c)})) * fabs(rest)
    if (-p).isnonneg():
        return -p
    return Poly.atom(Fn('abs', (p,), 'int' if p.isint() else 'real', nonneg=True))


def conj(p):
    if p.isreal():
        if all(a.kind in ('sym', 'sel', 'br', 'fn') for m in p.t for a, _ in m):
            return p
    r = ZERO
    for m, c in p.t.items():
        out = const(c)
        plain = {}
        for a, e in m:
            if a.sort != 'complex':
                plain[a] = e
                continue
            k = a.kind
            if a is IMAG:
                out = -out if e % 2 else out
                plain[a] = e
            elif k == 'unit':
                out = out * phase(-a.theta.scale(e))
            elif k == 'exp':
                out = out * Poly.atom(Exp(conj(a.arg)), e)
            elif k == 'conj':
                plain[a.a] = e
            elif k == 'sum':
                s = from_sum(a, conj)
                out = out * s.power(e)
            elif k == 'pw':
                out = out * conj(a.p).power(e)
            else:
                plain[Conj(a)] = e
        co, mm, ex = norm_mono(plain)
        x = Poly({mm: co})
        if ex is not None:
            x = x * ex
        r = r + out * x
    return r


def preal(p):
    if p.isreal():
        return p
    return (p + conj(p)).scale(Fr(1, 2))


def pimag(p):
    if p.isreal():
        return ZERO
    return (p - conj(p)) * I_.scale(Fr(-1, 2))


def fn(name, *args, sort='real', **k):
    return Poly.atom(Fn(name, tuple(P(a) for a in args), sort, **k))


# ---------------------------------------------------------------- booleans
class B:
    """boolean expression; op in const, lt (p<0), eq (p==0), not, and, or, b (opaque atom)"""
    __slots__ = ('op', 'a', '_k')

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._k = None

    @property
    def skey(self):
        if self._k is None:
            if self.op == 'const':
                self._k = 'T' if self.a else 'F'
            elif self.op in ('lt', 'eq', 'b'):
                self._k = '{%s%s}' % (self.a.skey, {'lt': '<0', 'eq': '=0', 'b': ''}[self.op])
            elif self.op == 'not':
                self._k = '!' + self.a.skey
            else:
                self._k = '(' + (' & ' if self.op == 'and' else ' | ').join(x.skey for x in self.a) + ')'
        return self._k

    def __repr__(self):
        return self.skey

    def __hash__(self):
        return hash(self.skey)

    def __eq__(self, o):
        return isinstance(o, B) and self.skey == o.skey

    @property
    def free(self):
        if self.op == 'const':
            return frozenset()
        if self.op in ('lt', 'eq', 'b', 'not'):
            return self.a.free
        return _freeunion(self.a)

    def poly(self):
        if self.op == 'const':
            return const(1 if self.a else 0)
        if self.op in ('lt', 'eq'):
            return bracket(self.op, self.a)
        if self.op == 'b':
            return self.a if isinstance(self.a, Poly) else Poly.atom(self.a)
        if self.op == 'not':
            return const(1) - self.a.poly()
        if self.op == 'and':
            r = const(1)
            for x in self.a:
                r = r * x.poly()
            return r
        r = const(1)
        for x in self.a:
            r = r * (const(1) - x.poly())
        return const(1) - r

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __bool__(self):
        raise Unsupported('symbolic boolean used concretely: %s' % self.skey[:200])


TRUE = B('const', True)
FALSE = B('const', False)


def asB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        if x.isconst():
            return TRUE if x.cval() != 0 else FALSE
        return bnot(beq(x, 0))
    import numpy as np
    if isinstance(x, (int, float, np.generic)):
        return TRUE if x else FALSE
    raise Unsupported('not a boolean: %r' % (type(x),))


def bnot(x):
    x = asB(x)
    if x.op == 'const':
        return FALSE if x.a else TRUE
    if x.op == 'not':
        return x.a
    return B('not', x)


def band(*xs):
    r = []
    for x in xs:
        x = asB(x)
        if x.op == 'const':
            if not x.a:
                return FALSE
            continue
        if x.op == 'and':
            r.extend(x.a)
        else:
            r.append(x)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return B('and', tuple(r))


def bor(*xs):
    r = []
    for x in xs:
        x = asB(x)
        if x.op == 'const':
            if x.a:
                return TRUE
            continue
        if x.op == 'or':
            r.extend(x.a)
        else:
            r.append(x)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return B('or', tuple(r))


def blt(x, y):
    return _cmp('lt', P(x) - P(y))


def ble(x, y):
    return bnot(_cmp('lt', P(y) - P(x)))


def bge(x, y):
    return ble(y, x)


def bgt(x, y):
    return blt(y, x)


def beq(x, y):
    return _cmp('eq', P(x) - P(y))


def bne(x, y):
    return bnot(beq(x, y))


def _cmp(op, p):
    if p.isconst():
        c = p.cval()
        return asB(bool(c < 0 if op == 'lt' else c == 0))
    op, p, neg = canon_cmp(op, p)
    if op == 'const':
        b = TRUE if p else FALSE
    else:
        b = B(op, p)
    return bnot(b) if neg else b


def canon_cmp(op, p):
    """canonical form of p<0 / p==0 -> (op, p, negated)"""
    if not p.isreal():
        if op == 'lt':
            if conj(p) != p:
                raise Unsupported('ordering of complex values')
            p = Poly.atom(Fn('re', (p,), 'real'))
        else:
            return op, p, False
    if any(a.kind == 'sym' and a.name == 'INF' for m in p.t for a, _ in m):
        inf = [(m, c) for m, c in p.t.items() if any(a.kind == 'sym' and a.name == 'INF' for a, _ in m)]
        if len(inf) == 1 and all(a.pos for a, e in inf[0][0]):
            return 'const', op == 'lt' and inf[0][1] < 0, False
    # clear positive denominators / common positive factors
    try:
        c, m, rest = content(p, True)
        if m:
            p = rest
    except Unsupported:
        pass
    if p.isconst():
        v = p.cval()
        return 'const', bool(v < 0 if op == 'lt' else v == 0), False
    cs = list(p.t.values())
    den = 1
    for c in cs:
        den = den * c.denominator // gcd(den, c.denominator)
    p = p.scale(Fr(den)) if den != 1 else p
    isint = p.isint()
    if isint:
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        c0 = int(p.t.get((), 0))
        if g > 1:
            if op == 'eq':
                if c0 % g:
                    return 'const', False, False
                p = p.scale(Fr(1, g))
            else:
                k = -((c0) // g)  # ceil(-c0/g) = -floor(c0/g)
                q = Poly({m: c / g for m, c in p.t.items() if m != ()})
                p = q - const(k)
        lead = max((m for m in p.t if m != ()), key=mkey)
        if p.t[lead] < 0:
            if op == 'eq':
                return op, -p, False
            return op, -p - 1, True
        return op, p, False
    g = 0
    for c in p.t.values():
        g = gcd(g, abs(int(c)))
    if g > 1:
        p = p.scale(Fr(1, g))
    if op == 'eq':
        lead = max((m for m in p.t if m != ()), key=mkey)
        if p.t[lead] < 0:
            p = -p
    return op, p, False


# hook installed by solver: simplify bracket using the current context
_bracket_hook = [None]


def bracket(op, p):
    """[p op 0] as Poly, simplified"""
    b = _cmp(op, p)
    neg = False
    if b.op == 'not':
        neg, b = True, b.a
    if b.op == 'const':
        r = const(1 if b.a else 0)
    else:
        h = _bracket_hook[0]
        r = h(b) if h is not None else None
        if r is None:
            r = Poly.atom(Br(b.op, b.a))
    return const(1) - r if neg else r


def ite(c, x, y):
    c = asB(c)
    if c.op == 'const':
        return x if c.a else y
    k = c.poly()
    if k.isconst():
        return x if k.cval() else y
    return k * P(x) + (const(1) - k) * P(y)


# ---------------------------------------------------------------- substitution
def subst(p, env, memo=None):
    """simultaneous substitution  {sym name: Poly}"""
    if not env:
        return p
    if memo is None:
        memo = {}
    if not (p.free & env.keys()):
        return p
    r = ZERO
    keep = {}
    for m, c in p.t.items():
        hit = False
        for a, _ in m:
            if a.free & env.keys():
                hit = True
                break
        if not hit:
            keep[m] = c
            continue
        out = const(c)
        plain = {}
        for a, e in m:
            if not (a.free & env.keys()):
                plain[a] = e
            else:
                x = _subst_atom(a, env, memo)
                if not x.t:
                    if e.__class__ is int and e > 0 or Fr(e) > 0:
                        out = ZERO
                        break
                    # division by zero: some number (the terms of an excluded case cancel)
                    out = out * Poly.atom(Sym('DIV0', 'real'), e)
                    continue
                out = out * (x if e == 1 else x.power(e))
        if not out.t:
            continue
        if plain:
            co, mm, ex = norm_mono(plain)
            out = out * Poly({mm: co})
            if ex is not None:
                out = out * ex
        r = r + out
    return r + Poly(keep)


def _subst_atom(a, env, memo):
    r = memo.get(a)
    if r is None:
        r = rebuild(a, lambda q: subst(q, env, memo), env)
        memo[a] = r
    return r


def rebuild(a, f, env=None):
    """apply f to the polynomials inside atom a and re-normalise"""
    k = a.kind
    if k == 'sym':
        if env is not None and a.name in env:
            return P(env[a.name])
        return Poly.atom(a)
    if k == 'sel':
        return mksel(a.decl, tuple(f(x) for x in a.args))
    if k == 'conj':
        return conj(rebuild(a.a, f, env))
    if k == 'unit':
        return phase(f(a.theta))
    if k == 'exp':
        return pexp(f(a.arg))
    if k == 'br':
        if a.op == 'b':
            return f(a.p)
        return bracket(a.op, f(a.p))
    if k == 'pw':
        return f(a.p).power(1)
    if k == 'fn':
        return mkfn(a, tuple(f(x) for x in a.args))
    if k == 'sum':
        return from_sum(a, f)
    return Poly.atom(a)


FN_SIMP = {}


def csqrt(p):
    """principal square root of a complex number"""
    return csqrt_re(p) + I_ * csqrt_im(p)


def csqrt_re(p):
    if not p.isreal():
        return Poly.atom(Fn('csqrt_re', (p,), 'real', nonneg=True))
    if p.isnonneg():
        return p.power(Fr(1, 2))
    return (const(1) - bracket('lt', p)) * p.power(Fr(1, 2))


def csqrt_im(p):
    if not p.isreal():
        return Poly.atom(Fn('csqrt_im', (p,), 'real'))
    if p.isnonneg():
        return ZERO
    return bracket('lt', p) * (-p).power(Fr(1, 2))


FN_SIMP['csqrt_re'] = csqrt_re
def _pow(x, y):
    if y.isconst() and y.isint() and (x.t or y.cval() >= 0):
        return x.power(y.cval())
    if not x.isreal():
        if y.isint() and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and all(a.kind == 'unit' for a, _ in m):
                th = ZERO
                for a, e in m:
                    th = th + a.theta * e
                return phase(th * y)
        raise Unsupported('power of a complex number')
    return Poly.atom(Fn('pow', (x, y), 'int' if x.isint() and y.isnonneg() else 'real'))


FN_SIMP['pow'] = _pow
FN_SIMP['csqrt_im'] = csqrt_im
FN_EVAL = {}


def mkfn(a, args):
    if a.name == 'abs':
        return fabs(args[0])
    h = FN_SIMP.get(a.name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return Poly.atom(Fn(a.name, args, a.sort, a.pos, a.nonneg))


def atoms_of(p, acc=None, deep=True):
    if acc is None:
        acc = set()
    for m in p.t:
        for a, _ in m:
            if a in acc:
                continue
            acc.add(a)
            if not deep:
                continue
            k = a.kind
            if k in ('sel', 'fn'):
                for x in a.args:
                    atoms_of(x, acc)
            elif k == 'unit':
                atoms_of(a.theta, acc)
            elif k == 'exp':
                atoms_of(a.arg, acc)
            elif k in ('br', 'pw'):
                atoms_of(a.p, acc)
            elif k == 'conj':
                atoms_of(Poly.atom(a.a), acc)
            elif k == 'sum':
                atoms_of(a.body, acc)
                for _, h in a.binders:
                    atoms_of(h, acc)
    return acc


# ---------------------------------------------------------------- sums
_fresh = itertools.count()
RANGES = {}      # name -> (lo, hi) half-open range of integer symbols


def fresh_index(hi, lo=0, base='?'):
    n = '%s%d' % (base, next(_fresh))
    RANGES[n] = (P(lo), P(hi))
    return n, Poly.atom(Sym(n, 'int', nonneg=(P(lo).isnonneg())))


def index_sym(name, hi, lo=0):
    """named index symbol with a range"""
    RANGES[name] = (P(lo), P(hi))
    return Poly.atom(Sym(name, 'int', nonneg=P(lo).isnonneg()))


def open_sum(a):
    """-> list of (name, hi), body Poly with fresh binder names"""
    env = {}
    bs = []
    for b, h in a.binders:
        h2 = subst(h, env)
        n, s = fresh_index(h2)
        env[b] = s
        bs.append((n, h2))
    return bs, subst(a.body, env)


def from_sum(a, f):
    bs, body = open_sum(a)
    p = f(body)
    for n, h in reversed(bs):
        p = mk_sum(n, 0, f(h), p)
    return p


EXPAND = [1]     # sums with at most this many terms are written out


def mk_sum(name, lo, hi, body):
    """sum_{name=lo}^{hi-1} body;  name is a free int symbol of body"""
    lo, hi, body = P(lo), P(hi), P(body)
    if lo.t:
        n2, s2 = fresh_index(hi - lo)
        body = subst(body, {name: s2 + lo})
        name, hi = n2, hi - lo
    if hi.isconst():
        n = hi.cval()
        if n <= 0:
            return ZERO
        if n <= EXPAND[0] or name not in body.free:
            if name not in body.free:
                return body.scale(n)
            r = ZERO
            for k in range(int(n)):
                r = r + subst(body, {name: const(k)})
            return r
    if name not in RANGES:
        RANGES[name] = (ZERO, hi)
    else:
        RANGES[name] = (ZERO, hi)
    r = {}
    res = ZERO
    for m, c in body.t.items():
        res = res + _sum_mono(name, hi, m).scale(c)
    return res


def _sum_mono(name, hi, m):
    dep, ind = [], []
    for a, e in m:
        (dep if name in a.free else ind).append((a, e))
    ind = Poly({tuple(ind): ONE})
    if not dep:
        return ind * nonneg_part(hi)
    # brackets
    for a, e in dep:
        if a.kind == 'br' and a.op == 'eq':
            sol = solve_linear(a.p, name)
            if sol is not None:
                rest = Poly({tuple(x for x in dep if x[0] != a): ONE})
                g = bnot(blt(sol, 0)).poly() * blt(sol, hi).poly()
                if not g.t:
                    return ZERO
                return ind * g * subst(rest, {name: sol})
    # pure power of the index: Faulhaber
    if len(dep) == 1 and dep[0][0].kind == 'sym' and dep[0][1].__class__ is int and dep[0][1] <= 3:
        k = dep[0][1]
        h = nonneg_part(hi)
        if k == 1:
            return ind * (h * (h - 1)).scale(Fr(1, 2))
        if k == 2:
            return ind * (h * (h - 1) * (h.scale(2) - 1)).scale(Fr(1, 6))
        return ind * (h * h * (h - 1) * (h - 1)).scale(Fr(1, 4))
    # flatten nested sums
    binders = [(name, hi)]
    out = const(1)
    flat = {}
    for a, e in dep:
        if a.kind == 'sum' and e.__class__ is int and e > 0:
            for _ in range(e):
                bs, b = open_sum(a)
                binders.extend(bs)
                out = out * b
        else:
            flat[a] = e
    co, mm, ex = norm_mono(flat)
    out = out * Poly({mm: co})
    if ex is not None:
        out = out * ex
    if len(binders) == 1 and len(out.t) == 1:
        (m2, c2), = out.t.items()
        return ind.scale(c2) * close_sum(binders, m2)
    if len(binders) == 1:
        # (cannot happen: same monomial) -- but normalisation might have expanded
        return ind * mk_sum(name, ZERO, hi, out)
    res = ZERO
    for m2, c2 in out.t.items():
        res = res + _multi_sum(binders, m2).scale(c2)
    return ind * res


def nonneg_part(hi):
    """number of terms of a range with upper bound hi (hi if hi>=0)"""
    h = _nonneg_hook[0]
    if hi.isnonneg() or (h is not None and h(hi)):
        return hi
    return bnot(blt(hi, 0)).poly() * hi


_nonneg_hook = [None]


def solve_linear(p, name):
    """p == 0  <=>  name == sol, when p is linear in name with coefficient +-1"""
    co = perm = None
    rest = {}
    for m, c in p.t.items():
        hit = [(a, e) for a, e in m if name in a.free]
        if not hit:
            rest[m] = c
            continue
        if len(m) == 1 and m[0][0].kind == 'sym' and m[0][1] == 1 and abs(c) == 1 and co is None:
            co = c
        elif len(m) == 1 and m[0][0].kind == 'sel' and m[0][1] == 1 and abs(c) == 1 and co is None and perm is None \
                and m[0][0].decl.inv is not None and m[0][0].args[-1] == Poly.atom(Sym(name, 'int', nonneg=True)) \
                and not any(name in x.free for x in m[0][0].args[:-1]):
            co, perm = c, m[0][0]
        else:
            return None
    if co is None:
        return None
    sol = Poly(rest).scale(-1 / co)
    if perm is not None:
        if name in sol.free:
            return None
        return mksel(perm.decl.inv(), perm.args[:-1] + (sol,))
    return sol


def _multi_sum(binders, m):
    """sum over all binders of the monomial m (binders flattened)"""
    names = [b for b, _ in binders]
    # eliminate brackets / independent binders one at a time
    d = list(m)
    for a, e in d:
        if a.kind == 'br' and a.op == 'eq':
            for b, h in binders:
                if b in a.free:
                    sol = solve_linear(a.p, b)
                    if sol is None:
                        continue
                    # other binder ranges must not depend on b
                    if any(b in h2.free for b2, h2 in binders if b2 != b):
                        others = [(b2, subst(h2, {b: sol})) for b2, h2 in binders if b2 != b]
                        if any(s in sol.free for s, _ in others if True) and any(
                                b in h2.free and b2 in sol.free for b2, h2 in binders):
                            continue
                    else:
                        others = [(b2, h2) for b2, h2 in binders if b2 != b]
                    g = bnot(blt(sol, 0)).poly() * blt(sol, h).poly()
                    rest = Poly({tuple(x for x in d if x[0] != a): ONE})
                    p = g * subst(rest, {b: sol})
                    return sum_all(others, p)
    used = set()
    for a, _ in d:
        used |= a.free
    # dependent ranges count as uses
    for b, h in binders:
        if b not in used and not any(b in h2.free for _, h2 in binders):
            others = [(b2, h2) for b2, h2 in binders if b2 != b]
            return sum_all(others, Poly({m: ONE}) * nonneg_part(h))
    # powers of a single binder alone
    for b, h in binders:
        mine = [(a, e) for a, e in d if b in a.free]
        if len(mine) == 1 and mine[0][0].kind == 'sym' and mine[0][1].__class__ is int \
                and not any(b in h2.free for _, h2 in binders):
            others = [(b2, h2) for b2, h2 in binders if b2 != b]
            rest = Poly({tuple(x for x in d if x is not mine[0]): ONE})
            s = mk_sum(b, 0, h, Poly({(mine[0],): ONE}))
            return sum_all(others, rest * s)
    # connected components
    comps = []
    for a, e in d:
        bs = set(names) & a.free
        if not bs:
            comps.append((set(), [(a, e)]))
            continue
        merged = (set(bs), [(a, e)])
        rest = []
        for cb, ca in comps:
            if cb & merged[0]:
                merged = (cb | merged[0], ca + merged[1])
            else:
                rest.append((cb, ca))
        comps = rest + [merged]
    # range dependencies connect too
    changed = True
    while changed:
        changed = False
        for b, h in binders:
            deps = (h.free & set(names))
            if deps:
                i = next((k for k, (cb, _) in enumerate(comps) if b in cb), None)
                for q in deps:
                    j = next((k for k, (cb, _) in enumerate(comps) if q in cb), None)
                    if i is not None and j is not None and i != j:
                        cb = comps[i][0] | comps[j][0]
                        ca = comps[i][1] + comps[j][1]
                        comps = [c for k, c in enumerate(comps) if k not in (i, j)] + [(cb, ca)]
                        changed = True
                        break
            if changed:
                break
    res = const(1)
    for cb, ca in comps:
        mm = tuple(sorted(ca, key=lambda x: x[0].skey))
        if not cb:
            res = res * Poly({mm: ONE})
        else:
            res = res * close_sum([(b, h) for b, h in binders if b in cb], mm)
    return res


def sum_all(binders, p):
    if not binders:
        return p
    if any(a.kind == 'sum' and any(b in a.free for b, _ in binders) for m in p.t for a, _ in m):
        # renormalise through mk_sum
        for b, h in binders:
            p = mk_sum(b, 0, h, p)
        return p
    r = ZERO
    for m, c in p.t.items():
        if len(binders) == 1:
            r = r + _sum_mono(binders[0][0], binders[0][1], m).scale(c)
        else:
            r = r + _multi_sum(binders, m).scale(c)
    return r


def close_sum(binders, m):
    """canonical SumA atom for connected monomial m (all factors depend on some binder,
    or factored out here)"""
    names = [b for b, _ in binders]
    ns = set(names)
    for a, e in m:
        if a.kind in ('unit', 'exp') and a.free & ns and e == 1:
            th = a.theta if a.kind == 'unit' else a.arg
            t1 = {mm: c for mm, c in th.t.items() if not any(x.free & ns for x, _ in mm)}
            if t1:
                t2 = {mm: c for mm, c in th.t.items() if mm not in t1}
                f = phase if a.kind == 'unit' else pexp
                out = f(Poly(t1))
                rest = Poly({tuple(x for x in m if x[0] != a): ONE}) * f(Poly(t2))
                if len(rest.t) == 1:
                    (m2, c2), = rest.t.items()
                    return out.scale(c2) * close_sum(binders, m2)
    ind = tuple(x for x in m if not (x[0].free & ns))
    dep = tuple(x for x in m if x[0].free & ns)
    # range simplification of brackets on a single binder: [b < k]
    simp = _sum_bracket_hook[0]
    if simp is not None and any(a.kind == 'br' for a, _ in dep):
        r = simp(binders, dep)
        if r is not None:
            return Poly({ind: ONE}) * r
    body = Poly({dep: ONE})
    h = max([body.height] + [hh.height for _, hh in binders]) + 1
    # signatures
    tmp = {b: Poly.atom(Sym('%?', 'int', nonneg=True)) for b in names}

    def sig(b):
        env = dict(tmp)
        env[b] = Poly.atom(Sym('%@', 'int', nonneg=True))
        hh = dict(binders)[b]
        ks = sorted(('%s^%s' % (_quick_key(a, env), e)) for a, e in dep if b in a.free)
        return (subst_nosimp(hh, env), tuple(ks))
    if len(binders) == 1:
        order = [binders]
    else:
        sigs = {b: sig(b) for b in names}
        groups = {}
        for b, hh in binders:
            groups.setdefault(sigs[b], []).append((b, hh))
        keys = sorted(groups)
        perms = [list(itertools.permutations(groups[k])) for k in keys]
        tot = 1
        for q in perms:
            tot *= len(q)
        if tot > 720:
            raise Unsupported('too many symmetric sum binders')
        order = [list(itertools.chain(*c)) for c in itertools.product(*perms)]
    best = None
    for o in order:
        o = _dependency_order(o)
        env = {}
        for k, (b, hh) in enumerate(o):
            env[b] = Poly.atom(Sym('%%%d.%d' % (h, k), 'int', nonneg=True))
        bb = rename(body, env)
        bs = tuple(('%%%d.%d' % (h, k), rename(hh, env)) for k, (b, hh) in enumerate(o))
        a = SumA(bs, bb)
        if best is None or a.skey < best.skey:
            best = a
    for b, hh in best.binders:
        RANGES.setdefault(b, (ZERO, None))
    return Poly({ind: ONE}) * Poly.atom(best)


def _dependency_order(bs):
    """the binders, in the given order except that a range comes after the binders it mentions"""
    if not any(h.free & {b for b, _ in bs} for _, h in bs):
        return bs
    left, out, names = list(bs), [], {b for b, _ in bs}
    while left:
        for q in left:
            if not (q[1].free & names):
                break
        else:
            raise Unsupported('cyclic ranges of a sum')
        out.append(q)
        left.remove(q)
        names.discard(q[0])
    return out


_sum_bracket_hook = [None]


def rename(p, env):
    """substitution of index symbols by index symbols without context-dependent simplification"""
    old = _bracket_hook[0]
    _bracket_hook[0] = None
    try:
        return subst(p, env)
    finally:
        _bracket_hook[0] = old


def subst_nosimp(p, env):
    return rename(p, env).skey


def _quick_key(a, env):
    return rename(Poly.atom(a), env).skey


# peel: sum_{k<hi+1} f = sum_{k<hi} f + f(hi)  (used by the induction step check)
def peel_sums(p, hi):
    """rewrite every top-level sum with one binder of range `hi` as sum to hi-1 plus last term"""
    r = ZERO
    for m, c in p.t.items():
        out = const(c)
        for a, e in m:
            x = Poly.atom(a, e)
            if a.kind == 'sum' and e == 1:
                for idx, (b, h) in enumerate(a.binders):
                    if h == hi:
                        bs, body = open_sum(a)
                        n0 = bs[idx][0]
                        rest = [q for k, q in enumerate(bs) if k != idx]
                        if any(n0 in q[1].free for q in rest):
                            continue
                        inner = body
                        for n, hh in reversed(rest):
                            inner = mk_sum(n, 0, hh, inner)
                        x = mk_sum(n0, 0, hi - 1, inner) + subst(inner, {n0: hi - 1})
                        break
            out = out * x
        r = r + out
    return r


def unroll(p, limit=3):
    """expand sums whose range is a small constant (everywhere)"""
    memo = {}

    def go(q):
        r = ZERO
        for m, c in q.t.items():
            out = const(c)
            plain = {}
            for a, e in m:
                if a.kind in ('sym', 'I', 'prime'):
                    plain[a] = e
                    continue
                x = memo.get(a)
                if x is None:
                    x = do(a)
                    memo[a] = x
                out = out * (x if e == 1 else x.power(e))
            if plain:
                co, mm, ex = norm_mono(plain)
                out = out * Poly({mm: co})
                if ex is not None:
                    out = out * ex
            r = r + out
        return r

    def do(a):
        if a.kind == 'sum':
            bs, body = open_sum(a)
            p = go(body)
            for n, h in reversed(bs):
                h = go(h)
                if h.isconst() and h.cval() <= limit:
                    r = ZERO
                    for k in range(int(h.cval())):
                        r = r + subst(p, {n: const(k)})
                    p = r
                else:
                    p = mk_sum(n, 0, h, p)
            return p
        return rebuild(a, go)
    old = EXPAND[0]
    EXPAND[0] = limit
    try:
        return go(p)
    finally:
        EXPAND[0] = old


# ---------------------------------------------------------------- numeric evaluation
class NumEnv:
    """numeric interpretation: syms name->number, arrays decl name->callable(*ints)"""

    def __init__(self, syms=None, arrays=None, fns=None, seed=0):
        self.syms = dict(syms or {})
        self.arrays = dict(arrays or {})
        self.fns = dict(fns or {})
        self.memo = {}

    def sel(self, a, args):
        f = self.arrays.get(a.name)
        if f is None:
            if a.decl.define is not None:
                return self.ev(a.decl.define(*[const(x) for x in args]))
            raise KeyError(a.name)
        return f(*args)

    def ev(self, p, loc=None):
        loc = loc or {}
        tot = 0
        for m, c in p.t.items():
            v = float(c) if c.denominator != 1 else int(c)
            # brackets first: short-circuit
            for a, e in m:
                if a.kind == 'br':
                    x = self.eva(a, loc)
                    if not x:
                        v = 0
                        break
            if v == 0 and c != 0:
                continue
            for a, e in m:
                if a.kind == 'br':
                    continue
                x = self.eva(a, loc)
                if e != 1:
                    if isinstance(e, Fr):
                        e = float(e)
                    if x == 0 and e < 0:
                        raise ZeroDivisionError
                    if isinstance(x, (int, float)) and x < 0 and not float(e).is_integer():
                        x = complex(x)
                    x = x ** e
                v = v * x
            tot = tot + v
        return tot

    def eva(self, a, loc):
        import cmath
        import math
        k = a.kind
        if k == 'sym':
            if a.name in loc:
                return loc[a.name]
            if a.name == 'pi':
                return math.pi
            if a.name == 'INF':
                return 1e300
            return self.syms[a.name]
        if k == 'sel':
            args = tuple(int(round(_re(self.ev(x, loc)))) for x in a.args)
            return self.sel(a, args)
        if k == 'conj':
            return complex(self.eva(a.a, loc)).conjugate()
        if k == 'unit':
            return cmath.exp(2j * math.pi * _re(self.ev(a.theta, loc)))
        if k == 'exp':
            x = self.ev(a.arg, loc)
            return cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 700))
        if k == 'br':
            x = self.ev(a.p, loc)
            if a.op == 'b':
                return x
            if isinstance(x, complex):
                if a.op == 'eq':
                    return int(abs(x) < 1e-12)
                x = x.real
            return int(x < 0) if a.op == 'lt' else int(x == 0 if isinstance(x, int) else abs(x) < 1e-12)
        if k == 'pw':
            return self.ev(a.p, loc)
        if k == 'I':
            return 1j
        if k == 'prime':
            return a.n
        if k == 'fn':
            if a.name in FN_EVAL:
                return FN_EVAL[a.name](self, a, loc)
            args = [self.ev(x, loc) for x in a.args]
            f = self.fns.get(a.name) or NUMFN.get(a.name)
            if f is None:
                raise KeyError(a.name)
            return f(*args)
        if k == 'sum':
            return self._sum(a.binders, a.body, dict(loc))
        raise KeyError(k)

    def _sum(self, binders, body, loc):
        # order binders so that dependent ranges come after
        bs = list(binders)
        done = []
        names = {b for b, _ in bs}
        while bs:
            for q in bs:
                if not ((q[1].free & names) - {d[0] for d in done}):
                    done.append(q)
                    bs.remove(q)
                    break
            else:
                raise Unsupported('cyclic ranges')

        def rec(k):
            if k == len(done):
                return self.ev(body, loc)
            b, h = done[k]
            n = int(round(_re(self.ev(h, loc))))
            t = 0
            for i in range(n):
                loc[b] = i
                t = t + rec(k + 1)
            loc.pop(b, None)
            return t
        return rec(0)


def _re(x):
    return x.real if isinstance(x, complex) else x


NUMFN = {
    'abs': lambda x: abs(x),
    'tanh': lambda x: _math.tanh(_re(x)),
    'log': lambda x: _math.log(_re(x)),
    'acos': lambda x: _math.acos(max(-1, min(1, _re(x)))),
    'floor': lambda x: _math.floor(_re(x) + 1e-12),
    'ceil': lambda x: _math.ceil(_re(x) - 1e-12),
    'rint': lambda x: round(_re(x)),
    'erfc': lambda x: _math.erfc(_re(x)),
    'max': lambda *x: max(_re(y) for y in x),
    'min': lambda *x: min(_re(y) for y in x),
    'idiv': lambda x, y: int(_re(x)) // int(_re(y)),
    'imod': lambda x, y: int(_re(x)) % int(_re(y)),
}
