"""Symbolic interpreter for the Python sources of /repo (parsed afresh on every run).

Concrete data stay ordinary Python objects; numbers and arrays may be symbolic terms.  A branch
on an undecided condition splits the path (all paths are explored); loops over a symbolic range
are summarised by engine.loops."""
import ast
import builtins
import copy as _copy
import functools
import importlib
import inspect
import json
import itertools
import math
import os
import sys
import types
from fractions import Fraction as Fr

import numpy as np
import pint

from . import term as T
from . import solver as S
from . import arr as A
from . import npmodel as N
from . import units as U
from . import loops as L
from .term import Poly, P, B, TRUE, FALSE, const, ZERO, Unsupported, beq, blt, bnot, asB, bge
from .arr import Arr, Comp, conc
from .units import Q

REPO = os.environ.get('EUPHONIC_REPO', '/repo')


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class PathEnd(Exception):
    """this path is infeasible"""


class Undef:
    def __repr__(self):
        return '<undefined after symbolic loop>'


UNDEF = Undef()


# ------------------------------------------------------------- path exploration
class Paths:
    def __init__(self):
        self.trace = []
        self.pos = 0
        self.limit = 4000

    def fork(self, b):
        """decide an undecided condition: explore both outcomes over the runs"""
        b = asB(b)
        if b.op == 'const':
            return bool(b.a)
        d = S.decide(b)
        if d is not None:
            return d
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            if len(self.trace) > 200:
                raise Unsupported('too many decisions on one path')
            self.trace.append([True, b])
            v = True
        self.pos += 1
        S.CTX.push(b if v else bnot(b))
        if S.SHORT_SUM(b.skey):
            u = S.unrolled(b)          # (only when nothing is left to write out)
            if u != b and 'SUM<' not in u.skey:
                S.CTX.push(u if v else bnot(u))
        return v

    def next(self):
        while self.trace and not self.trace[-1][0]:
            self.trace.pop()
        if not self.trace:
            return False
        self.trace[-1][0] = False
        self.pos = 0
        return True


class _Forks(Exception):
    pass


class NoFork(Paths):
    """used to find out whether a value depends on a case distinction"""

    def fork(self, b):
        b = asB(b)
        if b.op == 'const':
            return bool(b.a)
        d = S.decide(b)
        if d is None:
            raise _Forks()
        return d


PATHS = [Paths()]


def fork(b):
    return PATHS[-1].fork(b)


A.fork_hook[0] = fork


class Outcome:
    def __init__(self, kind, value, facts, n, safety):
        self.kind = kind       # 'return' | 'raise'
        self.value = value
        self.facts = facts
        self.n = n
        self.safety = safety


def explore(fn, max_paths=400):
    """run fn() over all feasible paths; yields Outcome with the context of that path in force"""
    PATHS.append(Paths())
    me = PATHS[-1]
    mark = S.CTX.mark()
    count = 0
    try:
        while True:
            me.pos = 0
            S.CTX.reset(mark)
            s0 = len(A.SAFETY)
            N.TRACE.clear()
            try:
                v = fn()
                o = Outcome('return', v, S.CTX.facts[mark:], count, A.SAFETY[s0:])
            except (Unsupported, PathEnd):
                raise
            except (Ret, Brk, Cont):
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                o = Outcome('raise', e, S.CTX.facts[mark:], count, A.SAFETY[s0:])
            yield o
            count += 1
            if count > max_paths:
                raise Unsupported('too many paths')
            if not me.next():
                break
    finally:
        S.CTX.reset(mark)
        PATHS.remove(me)


# ------------------------------------------------------------- symbolic iterables
class SymIter:
    """n items, item(k) for a symbolic or concrete position"""

    def __init__(self, n, item):
        self.n = P(n)
        self.item = item

    def __iter__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('native iteration over a symbolic range')
        return iter([self.item(const(k)) for k in range(c)])

    def __len__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('len of symbolic sequence in native code')
        return c


    def __getitem__(self, k):
        if isinstance(k, slice):
            st, step, ln = A.norm_slice(k, self.n)
            return SymIter(ln, lambda j: self.item(st + P(j) * step))
        return self.item(A.norm_index(k, self.n))


class SymSeq(SymIter):
    """list of symbolic length; value = template with generic position symbol"""

    def __init__(self, n, name, value):
        self.name = name
        self.value = value
        super().__init__(n, lambda k: vsubst(value, {name: P(k)}))

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, step, ln = A.norm_slice(k, self.n)
            nm, y = T.fresh_index(ln)
            return SymSeq(ln, nm, self.item(st + y * step))
        return self.item(A.norm_index(k, self.n))

    def to_arr(self):
        v = self.value
        u = None
        if isinstance(v, Q):
            u, v = v.u, v.m
        if isinstance(v, SymIter):          # rows of rows
            if not isinstance(v, SymSeq):
                nm, y = T.fresh_index(v.n)
                v = SymSeq(v.n, nm, v.item(y))
            v = v.to_arr()
        if isinstance(v, (list, tuple, np.ndarray)):
            v = A.lift(v)
        if isinstance(v, Arr):
            r = A.mk((self.n,) + tuple(v.vshape), lambda i, *j: T.subst(v.at(*j), {self.name: i}), v.kind)
        else:
            v = v.poly() if isinstance(v, B) else P(v)
            r = A.mk((self.n,), lambda i: T.subst(v, {self.name: i}), A.kind_of(v))
        return Q(r, u) if u is not None else r


class YGroup:
    """n values yielded one after the other (value: template over `name`, possibly a group itself)"""

    def __init__(self, n, name, value):
        self.n, self.name, self.value = P(n), name, value


class YNested(YGroup):
    """what a generator with nested symbolic loops yields, in order"""

    def total(self):
        def tot(g):
            inner = tot(g.value) if isinstance(g.value, YGroup) else const(1)
            nm, y = T.fresh_index(g.n)
            return T.mk_sum(nm, 0, g.n, T.subst(inner, {g.name: y}))
        return tot(self)

    def __iter__(self):
        raise Unsupported('iteration over the values of a nested symbolic generator')

    def map(self, f):
        def go(g):
            return YGroup(g.n, g.name, go(g.value) if isinstance(g.value, YGroup) else f(g.value))
        r = go(self)
        return YNested(r.n, r.name, r.value)


class _Handoff:
    """values of a generator that runs in turn with its consumer (for generators that read from a file both use)"""

    def __init__(self):
        import threading
        self.go, self.out = threading.Semaphore(0), threading.Semaphore(0)
        self.box = None

    def append(self, v):
        self.box = ('value', v)
        self.out.release()
        self.go.acquire()


def lazy(body):
    import threading
    h = _Handoff()

    def run():
        h.go.acquire()
        try:
            body(h)
            h.box = ('end', None)
        except Ret:
            h.box = ('end', None)
        except BaseException as e:
            h.box = ('raise', e)
        h.out.release()
    old = threading.stack_size(256 << 20)
    t = threading.Thread(target=run, daemon=True)
    t.start()
    threading.stack_size(old)

    def gen():
        while True:
            h.go.release()
            h.out.acquire()
            kind, v = h.box
            if kind == 'end':
                return
            if kind == 'raise':
                raise v
            yield v
    return gen()


def yielded(ys):
    if not any(isinstance(y, YGroup) for y in ys):
        return iter(ys)
    if len(ys) == 1 and isinstance(ys[0].value, YGroup):
        return YNested(ys[0].n, ys[0].name, ys[0].value)
    if any(isinstance(y, YGroup) and isinstance(y.value, YGroup) for y in ys):
        raise Unsupported('generator with several nested loops')
    parts = []
    for y in ys:
        if isinstance(y, YGroup):
            parts.append(SymSeq(y.n, y.name, y.value))
        elif parts and isinstance(parts[-1], list):
            parts[-1].append(y)
        else:
            parts.append([y])
    return parts[0] if len(parts) == 1 else cat(parts)


class ProductIter:
    """itertools.product with a symbolic factor"""

    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic product')


class _Itertools:
    __name__ = 'itertools'

    @staticmethod
    def product(*its, repeat=1):
        ss = [to_symiter(x) for x in its]
        if not any(s is not None for s in ss):
            return itertools.product(*its, repeat=repeat)
        if repeat != 1:
            raise Unsupported('product with repeat')
        return ProductIter([s if s is not None else SymIter(len(list(x)), lambda k, x=list(x): pick(x, k)) for s, x in zip(ss, its)])

    def __getattr__(self, n):
        return getattr(itertools, n)


def vsubst(v, env):
    if isinstance(v, YGroup):
        return YGroup(T.subst(v.n, env), v.name, vsubst(v.value, env))
    if isinstance(v, Poly):
        return T.subst(v, env)
    if isinstance(v, B):
        return S.substB(v, env)
    if isinstance(v, Arr):
        if not any((v.at(*[Poly.atom(T.Sym('%%v%d' % k, 'int', nonneg=True)) for k in range(v.ndim)]).free & env.keys(),)) and \
                not any(P(s).free & env.keys() for s in v.vshape):
            return v
        return A.mk([T.subst(P(s), env) for s in v.vshape], lambda *i: T.subst(v.at(*i), env), v.kind)
    if isinstance(v, Q):
        return Q(vsubst(v.m, env), v.u)
    if isinstance(v, tuple):
        return tuple(vsubst(x, env) for x in v)
    if isinstance(v, list):
        return [vsubst(x, env) for x in v]
    if isinstance(v, dict):
        return {k: vsubst(x, env) for k, x in v.items()}
    if isinstance(v, SymSeq):
        return SymSeq(T.subst(v.n, env), v.name, vsubst(v.value, {k: x for k, x in env.items() if k != v.name}))
    if type(v) is SymIter:
        return SymIter(T.subst(v.n, env), lambda k: vsubst(v.item(k), env))
    if is_repo_obj(v):
        o = object.__new__(type(v))
        o.__dict__.update({k: vsubst(x, env) for k, x in v.__dict__.items()})
        return o
    return v


def is_repo_obj(v):
    return type(v).__module__.startswith('euphonic') and hasattr(v, '__dict__') and not isinstance(v, type)


_old_lift = A.lift


def _lift(x):
    if isinstance(x, SymSeq):
        x = x.to_arr()
        return x.m if isinstance(x, Q) else x
    if isinstance(x, SymIter):
        k = Poly.atom(T.Sym('%it', 'int', nonneg=True))
        v = x.item(k)
        v = v.m if isinstance(v, Q) else v
        v = _lift(v)
        if isinstance(v, Arr):
            nd = v.ndim
            return A.mk([x.n] + list(v.vshape), lambda i, *r: P(_lift(x.item(i)).at(*r)), v.kind)
        return A.mk([x.n], lambda i: P(x.item(i)), A.kind_of(v))
    return _old_lift(x)


for _m in (A, N):
    _m.lift = _lift
_old_anysym = N.anysym


def _anysym(x):
    if isinstance(x, SymIter):
        return True
    return _old_anysym(x)


N.anysym = _anysym
_old_from_nested = A.from_nested


def _from_nested(x):
    if isinstance(x, SymIter):
        return _lift(x)
    return _old_from_nested(x)


A.from_nested = _from_nested


def to_symiter(x):
    """SymIter for symbolic iterables, None for native ones"""
    if isinstance(x, A.NestedList):
        return to_symiter(x.arr)
    if isinstance(x, SymIter):
        return None if conc(x.n) is not None else x
    if isinstance(x, Arr):
        if conc(x.vshape[0]) is None:
            return SymIter(x.vshape[0], lambda k: A.getitem(x, k))
        return None
    if isinstance(x, Q) and isinstance(x.m, Arr):
        if conc(x.m.vshape[0]) is None:
            return SymIter(x.m.vshape[0], lambda k: x[k])
        return None
    return None


# ------------------------------------------------------------- builtins
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real) or (isinstance(o, Poly) and cls.ok(o))

    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __eq__(cls, o):
        return o is cls.real or o is cls

    def __hash__(cls):
        return hash(cls.real)


class IntT(metaclass=_IntMeta):
    real = int
    ok = staticmethod(lambda o: o.isint())

    @staticmethod
    def conv(x=0, *a):
        if isinstance(x, Q):
            x = x.to('dimensionless').m
        if isinstance(x, Arr):
            x = x.item()
        if isinstance(x, Poly):
            return A.outdim(A.trunc(x))
        if isinstance(x, B):
            return x.poly()
        return int(x, *a)


class FloatT(metaclass=_IntMeta):
    real = float
    ok = staticmethod(lambda o: o.isreal())

    @staticmethod
    def conv(x=0.0):
        if isinstance(x, Q):
            x = x.to('dimensionless').m
        if isinstance(x, Arr):
            x = x.item()
        if isinstance(x, Poly):
            return x
        if isinstance(x, B):
            return x.poly()
        if N.TOKENS is not None and isinstance(x, str) and str(x) in N.TOKENS:
            return N.TOKENS[str(x)]
        return float(x)


def unreal(t):
    return t


def b_len(x):
    if isinstance(x, A.NestedList):
        return A.outdim(x.arr.vshape[0])
    if is_repo_obj(x) and hasattr(type(x), '__len__'):
        return type(x).__len__(x)
    if isinstance(x, SymIter):
        return A.outdim(x.n)
    if isinstance(x, Q):
        x = x.m
    if isinstance(x, Arr):
        if not x.vshape:
            raise TypeError('len() of unsized object')
        return A.outdim(x.vshape[0])
    if isinstance(x, (A.MaskAxis, Comp)):
        return x.size
    if isinstance(x, Poly):
        raise TypeError('object has no len()')
    return len(x)


def b_range(*a):
    if any(isinstance(x, Poly) for x in a):
        a = [P(x) for x in a]
        lo, hi, st = ZERO, None, const(1)
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) == 3:
                st = a[2]
        if all(q.isconst() for q in (lo, hi, st)):
            return range(int(lo.cval()), int(hi.cval()), int(st.cval()))
        n = hi - lo if st == 1 else (lo - hi if st == -1 else S.idiv(hi - lo + st - 1, st))
        if S.sign(n) not in ('>', '+', '0'):
            d = S.decide(blt(n, 0))
            if d is True or (d is None and fork(blt(n, 0))):
                n = ZERO
        if n.isconst():
            return [A.outdim(lo + st * k) for k in range(int(n.cval()))]
        return SymIter(n, lambda k: lo + st * k)
    return range(*[int(x) if isinstance(x, np.integer) else x for x in a])


def b_enumerate(x, start=0):
    s = to_symiter(x)
    if s is not None:
        return SymIter(s.n, lambda k: (P(k) + start, s.item(k)))
    return enumerate(x, start)


def b_zip(*xs, strict=False):
    ss = [to_symiter(x) for x in xs]
    if any(s is not None for s in ss):
        n = None
        fs = []
        for x, s in zip(xs, ss):
            if s is None:
                if isinstance(x, itertools.count):
                    fs.append(lambda k, c=next(x): P(k) + c)
                    continue
                x = list(x)
                s = SymIter(len(x), lambda k, x=x: x[conc(k)] if conc(k) is not None else pick(x, k))
            if n is None:
                n = s.n
            elif n != s.n:
                d = S.decide(beq(n, s.n))
                if d is not True:
                    c = blt(s.n, n)
                    n = s.n if fork(c) else n
            fs.append(s.item)
        return SymIter(n, lambda k: tuple(f(k) for f in fs))
    return zip(*xs)


def pick(items, k):
    if len(items) == 1:
        return items[0]
    if conc(P(k)) is not None:
        return items[conc(P(k))]
    a = A.from_nested(list(items))
    return A.getitem(a, k)


def b_reversed(x):
    s = to_symiter(x)
    if s is not None:
        return SymIter(s.n, lambda k: s.item(s.n - 1 - k))
    return reversed(x)


def b_abs(x):
    if isinstance(x, (Poly, Arr, Comp)):
        return A.unop(x, 'abs')
    return abs(x)


def b_sum(x, start=0):
    s = to_symiter(x)
    if s is not None:
        nm, y = T.fresh_index(s.n)
        v = s.item(y)
        if isinstance(v, Q):
            if isinstance(v.m, Arr):
                r = Q(A.mk(v.m.vshape, lambda *i: T.mk_sum(nm, 0, s.n, v.m.at(*i)), v.m.kind), v.u)
            else:
                r = Q(T.mk_sum(nm, 0, s.n, P(v.m)), v.u)
        elif isinstance(v, Arr):
            r = A.mk(v.vshape, lambda *i: T.mk_sum(nm, 0, s.n, v.at(*i)), v.kind)
        else:
            r = T.mk_sum(nm, 0, s.n, P(v))
        return r if (isinstance(start, int) and start == 0) else r + start
    r = start
    for y in x:
        r = binop('+', r, y)
    return r


def _minmax(name):
    def f(*a, key=None, default=None):
        if key is not None:
            if any(N.anysym(x) for x in a):
                raise Unsupported('min/max with key')
            return getattr(builtins, name)(*a, key=key)
        b = a[0].m if isinstance(a[0], Q) else a[0]
        if len(a) == 1 and isinstance(b, A.Arr) and b.ndim == 1 and A.conc(b.vshape[0]) is None:
            return N.SYM[name](a[0])
        xs = a if len(a) > 1 else list(a[0])
        if not any(N.anysym(x) for x in xs):
            if not xs and default is not None:
                return default
            return getattr(builtins, name)(xs)
        two = N.SYM['maximum' if name == 'max' else 'minimum']
        r = xs[0]
        for y in xs[1:]:
            r = two(r, y)
        return r
    return f


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if isinstance(x, Poly):
        if t is int or t is IntT or t is np.integer or t is np.int64 or t is np.int32:
            return x.isint()
        if t is float or t is FloatT or t is np.floating or t is np.float64:
            return x.isreal() and not x.isint()
        import numbers
        if t in (numbers.Integral, numbers.Rational):
            return x.isint()
        if t is numbers.Real:
            return x.isreal()
        if t in (numbers.Number, numbers.Complex):
            return True
        return isinstance(x, t) if isinstance(t, type) else False
    if isinstance(x, SymIter):
        return t in (list, ListT)
    if t is IntT:
        t = int
    elif t is FloatT:
        t = float
    elif t is ListT:
        t = list
    elif t is pint.Quantity:
        t = Q
    elif t is pint.Unit:
        return U.is_unit(x)
    return isinstance(x, t)


class ListT:
    pass


def b_list(x=()):
    s = to_symiter(x)
    if s is not None:
        nm, y = T.fresh_index(s.n)
        PATHS.append(NoFork())
        try:
            return SymSeq(s.n, nm, s.item(y))
        except _Forks:
            return SymIter(s.n, s.item)      # items are of several kinds: no common template
        finally:
            PATHS.pop()
    return list(x)


def b_any(x):
    s = to_symiter(x)
    if s is not None:
        nm, y = T.fresh_index(s.n)
        return bnot(beq(T.mk_sum(nm, 0, s.n, asB(s.item(y)).poly()), 0))
    r = FALSE
    for y in x:
        if isinstance(y, (B, Poly)):
            r = T.bor(r, asB(y))
        elif truth(y):
            return True
    return bool(r.a) if r.op == 'const' else r


def b_all(x):
    s = to_symiter(x)
    if s is not None:
        nm, y = T.fresh_index(s.n)
        return beq(T.mk_sum(nm, 0, s.n, bnot(asB(s.item(y))).poly()), 0)
    r = TRUE
    for y in x:
        if isinstance(y, (B, Poly)):
            r = T.band(r, asB(y))
        elif not truth(y):
            return False
    return bool(r.a) if r.op == 'const' else r


def b_round(x, n=None):
    if isinstance(x, Poly):
        if n is not None:
            raise Unsupported('round to digits')
        return S.rint(x)
    return round(x) if n is None else round(x, n)


def b_sorted(x, key=None, reverse=False):
    x = list(x)
    if any(N.anysym(y) for y in x) or (key is not None and x and N.anysym(key(x[0]))):
        raise Unsupported('sorting symbolic values')
    return sorted(x, key=key, reverse=reverse)


def b_map(f, *xs):
    if len(xs) == 1:
        s = to_symiter(xs[0])
        if f is bool:
            f = b_bool
        if s is not None:
            return SymIter(s.n, lambda k: f(s.item(k)))
    return map(f, *xs)


def b_hasattr(o, n):
    if isinstance(o, Poly) and n in ('shape', '__len__', 'magnitude', 'units'):
        return False
    if isinstance(o, Arr) and n in ('magnitude', 'units'):
        return False
    return hasattr(o, n)


def b_bool(x=False):
    if isinstance(x, (B, Poly)):
        return asB(x)
    return bool(x)


PRINTED = []
def b_divmod(a, b):
    if not (N.anysym(a) or N.anysym(b)):
        return divmod(a, b)
    if isinstance(a, Q) or isinstance(b, Q) or isinstance(a, Arr) or isinstance(b, Arr):
        raise Unsupported('divmod of arrays')
    return binop('//', a, b), binop('%', a, b)


BUILTINS = dict(vars(builtins))
BUILTINS['divmod'] = b_divmod
BUILTINS.update({'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed,
                 'abs': b_abs, 'sum': b_sum, 'min': _minmax('min'), 'max': _minmax('max'),
                 'isinstance': b_isinstance, 'int': IntT, 'float': FloatT, 'any': b_any, 'all': b_all,
                 'round': b_round, 'sorted': b_sorted, 'print': lambda *a, **k: PRINTED.append(a),
                 'map': b_map, 'hasattr': b_hasattr})


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, B):
        if v.op == 'const':
            return bool(v.a)
        return fork(v)
    if isinstance(v, Poly):
        return truth(asB(v))
    if isinstance(v, Arr):
        if conc(v.size) == 1:
            return truth(asB(v.at(*[ZERO] * v.ndim)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')
    if isinstance(v, Q):
        return truth(v.m)
    if isinstance(v, SymIter):
        return fork(bnot(beq(v.n, 0)))
    return bool(v)


# ------------------------------------------------------------- operators
_NATIVE = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
           '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,
           '**': lambda a, b: a ** b, '@': lambda a, b: a @ b, '&': lambda a, b: a & b,
           '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
           '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
           '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
        ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
        ast.LShift: '<<', ast.RShift: '>>', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Eq: '==', ast.NotEq: '!='}


def scalar_like(x):
    return isinstance(x, (int, float, complex, Fr, np.number, np.bool_, Poly, B, bool))


def cat(xs):
    """concatenation of (symbolic) lists"""
    parts = [(x.n, x.item) if isinstance(x, SymIter) else (const(len(x)), (lambda x: lambda k: pick(x, k))(list(x))) for x in xs
             if isinstance(x, SymIter) or len(x)]

    def item(k):
        off = const(0)
        for j, (n, it) in enumerate(parts):
            if j == len(parts) - 1 or fork(blt(P(k), off + n)):
                return it(P(k) - off)
            off = off + n
    return SymIter(sum((n for n, _ in parts), const(0)), item)


def _has_sym(x):
    if isinstance(x, (tuple, list)):
        return any(_has_sym(y) for y in x)
    return isinstance(x, (Poly, B))


def binop(op, a, b):
    if op == '+' and (isinstance(a, SymIter) or isinstance(b, SymIter)) and isinstance(a, (list, SymIter)) and isinstance(b, (list, SymIter)):
        return cat([a, b])
    if op == '*' and isinstance(a, list) and len(a) == 1 and isinstance(b, Poly) and conc(b) is None:
        return SymIter(b, lambda k: a[0])
    if isinstance(a, SymSeq) and not isinstance(b, (list, SymSeq)):
        a = a.to_arr()
    if isinstance(b, SymSeq) and not isinstance(a, (list, SymSeq)):
        b = b.to_arr()
    if isinstance(a, N.CompCat) or isinstance(b, N.CompCat):
        if isinstance(a, N.CompCat) and not isinstance(b, N.CompCat):
            return N.CompCat([binop(op, x, b) for x in a.parts])
        if isinstance(b, N.CompCat) and not isinstance(a, N.CompCat):
            return N.CompCat([binop(op, a, x) for x in b.parts])
        if len(a.parts) == len(b.parts):
            return N.CompCat([binop(op, x, y) for x, y in zip(a.parts, b.parts)])
        raise Unsupported('operation on arrays of different parts')
    # units
    ua, ub = U.is_unit(a), U.is_unit(b)
    if ua or ub:
        if op in ('==', '!=') and ua and ub:
            return _NATIVE[op](a, b)
        if op == '*' and ua != ub:
            return Q(1, a) * b if ua else (Q(a, b) if not isinstance(a, Q) else a * b)
        if op == '/' and ua != ub:
            return Q(1, a) / b if ua else (a if isinstance(a, Q) else Q(a, None)) / b
        r = _NATIVE[op](a, b)
        return Q(r.magnitude, r.units) if hasattr(r, 'magnitude') else r
    if isinstance(a, Q) or isinstance(b, Q):
        if isinstance(a, (Poly, B)):
            a = Q(a, None)
        return _NATIVE[op](a, b)
    if isinstance(a, (Arr, Comp)) or isinstance(b, (Arr, Comp)):
        return A.binop(op, a, b)
    if isinstance(a, (Poly, B)) or isinstance(b, (Poly, B)):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return A.binop(op, a, b)
        if scalar_like(a) and scalar_like(b):
            if op in ('&', '|') and isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
                return T.band(a, b) if op == '&' else T.bor(a, b)
            r = A.scalar_op(op, a if not isinstance(a, B) else a.poly(), b if not isinstance(b, B) else b.poly())
            return simp_bool(r)
        if op == '*' and isinstance(a, (list, tuple)):
            n = conc(b)
            if n is None:
                if len(a) == 1:
                    nm, y = T.fresh_index(P(b))
                    return SymSeq(P(b), nm, a[0])
                raise Unsupported('list repetition')
            return a * n
        if op == '*' and isinstance(b, (list, tuple)):
            return binop(op, b, a)
        if op in ('==', '!=') and isinstance(a, str) != isinstance(b, str) and isinstance(b if isinstance(a, str) else a, Poly):
            return binop(op, A.strcode(a) if isinstance(a, str) else a, A.strcode(b) if isinstance(b, str) else b)
        if op == '==':
            return False if not isinstance(a, type(b)) else _NATIVE[op](a, b)
        if op == '!=':
            return True
        if op == '%' and isinstance(a, str):
            return '<fmt>'
        raise Unsupported('operator %s on %s, %s' % (op, type(a), type(b)))
    if op in ('==', '!=') and isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) \
            and (N.anysym(a) or N.anysym(b)):
        if len(a) != len(b):
            return op == '!='
        r = TRUE
        for x, y in zip(a, b):
            e = binop('==', x, y)
            if isinstance(e, bool):
                if not e:
                    r = FALSE
                    break
                continue
            r = T.band(r, asB(e))
        r = r if op == '==' else bnot(r)
        return bool(r.a) if r.op == 'const' else r
    if op == '/' and isinstance(a, int) and isinstance(b, int) and b != 0:
        if a % b and (Fr(a, b).denominator & (Fr(a, b).denominator - 1)):
            return const(Fr(a, b))
    if op == '%' and isinstance(a, str):
        try:
            return a % b
        except TypeError:
            return '<fmt>'
    if op == '+' and isinstance(a, list) and isinstance(b, SymSeq) and not a:
        return b
    return _NATIVE[op](a, b)


def simp_bool(r):
    if isinstance(r, B) and r.op == 'const':
        return bool(r.a)
    return r


# ------------------------------------------------------------- environments
class Env:
    __slots__ = ('vars', 'parent', 'mod', 'cls', 'globals_', 'nonlocals', 'yields', 'self0')

    def __init__(self, parent, mod):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.cls = parent.cls if parent is not None else None
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.self0 = None

    def lookup(self, n):
        e = self
        first = True
        while e is not None:
            if n in e.vars and not (e is not self and getattr(e, 'is_class', False)):
                v = e.vars[n]
                if v is UNDEF:
                    raise Unsupported('%s is undefined after a symbolic loop' % n)
                return v
            e = e.parent
        d = self.mod.__dict__
        if n in d:
            return d[n]
        if n in BUILTINS:
            return BUILTINS[n]
        raise NameError('name %r is not defined' % n)

    def store(self, n, v):
        if n in self.globals_:
            self.mod.__dict__[n] = v
        elif n in self.nonlocals:
            e = self.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
            raise NameError(n)
        else:
            self.vars[n] = v


class ClassEnv(Env):
    __slots__ = ('is_class',)

    def __init__(self, parent, mod):
        super().__init__(parent, mod)
        self.is_class = True


class ModEnv(Env):
    """module level: variables live in the module dict"""

    def __init__(self, mod):
        super().__init__(None, mod)
        self.vars = mod.__dict__


# ------------------------------------------------------------- interpreter
_src_cache = {}


class Interp:
    def __init__(self, hooks=None):
        self.modules = {}
        self.extern = {}               # libraries replaced by models
        self.lazy = set()              # generators run in turn with their consumers
        self.hooks = hooks or {}        # (qualified name) -> replacement callable (contract)
        self.depth = 0
        self.loopdepth = 0
        self.fresh = {}
        self.calls = {}
        self.warnings = []
        self.pkg = None
        self.used = set()
        self.called = set()

    # -- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if name == 'euphonic':
            return self.package()
        if name == 'euphonic.readers' or (path.endswith('__init__.py') and not os.path.exists(path)):
            m = types.ModuleType(name)
            self.modules[name] = m
            return m
        tree = _src_cache.get(path)
        if tree is None:
            tree = ast.parse(open(path).read())
            _src_cache[path] = tree
        self.used.add(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__package__'] = name.rsplit('.', 1)[0]
        self.modules[name] = m
        env = ModEnv(m)
        self.block(tree.body, env)
        return m

    def package(self):
        """the euphonic package: registry replaced by the symbolic one, classes loaded on demand"""
        if 'euphonic' in self.modules:
            return self.modules['euphonic']
        interp = self
        src = {}
        tree = ast.parse(open(os.path.join(REPO, 'euphonic', '__init__.py')).read())
        for st in tree.body:
            if isinstance(st, ast.ImportFrom) and st.level == 1 and st.module:
                for a in st.names:
                    src[a.asname or a.name] = (st.module, a.name)

        class Pkg(types.ModuleType):
            def __getattr__(self, n):
                if n in src:
                    return getattr(interp.load('euphonic.' + src[n][0]), src[n][1])
                if os.path.exists(os.path.join(REPO, 'euphonic', n + '.py')) or os.path.isdir(os.path.join(REPO, 'euphonic', n)):
                    return interp.load('euphonic.' + n)
                raise AttributeError(n)
        p = Pkg('euphonic')
        p.ureg = U.UREG
        p.Quantity = Q
        p.__version__ = '0'
        p.__path__ = [os.path.join(REPO, 'euphonic')]
        p.__file__ = os.path.join(REPO, 'euphonic', '__init__.py')
        self.modules['euphonic'] = p
        return p

    def imp(self, name, level, mod):
        if level:
            base = mod.__name__.split('.')
            if not (mod.__file__ or '').endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name.split('.')[0] == 'euphonic':
            if name == 'euphonic._euphonic':
                h = self.hooks.get('euphonic._euphonic')
                if h is None:
                    raise ImportError('no C extension')
                return h
            return self.load(name)
        if name == 'numpy' or name.startswith('numpy.'):
            m = N.NP
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        if name == 'math':
            return MATH
        if name == 'warnings':
            return Warn(self)
        if name == 'pint':
            return PINT
        if name == 'json':
            return JSON
        if name in self.extern:
            return self.extern[name]
        if name == 'itertools':
            return ITERTOOLS
        if name.split('.')[0] in ('scipy', 'spglib', 'seekpath', 'brille', 'yaml', 'h5py', 'threadpoolctl', 'matplotlib'):
            try:
                return Opaque(importlib.import_module(name), name)
            except ImportError:
                raise
        return importlib.import_module(name)

    # -- functions
    def make_function(self, node, env, qual=None):
        interp = self
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        isgen = not isinstance(node, ast.Lambda) and has_yield(node)
        e = env
        while e is not None and getattr(e, 'is_class', False):
            e = e.parent
        closure = e
        clsenv = env if getattr(env, 'is_class', False) else None
        qn = (qual + '.' if qual else '') + name
        modname = env.mod.__name__

        def fn(*args, **kwargs):
            full = modname + '.' + fn.__qualname__
            h = interp.hooks.get(full)
            if h is not None and not getattr(h, 'active', False):
                return h(*args, **kwargs)
            return interp.call_ast(fn, node, closure, env, clsenv, defaults, kwdefaults, isgen, args, kwargs)
        fn.__name__ = name
        fn.__qualname__ = qn
        fn.__module__ = modname
        fn.__defaults__ = None
        fn._node = node
        pk = inspect.Parameter
        nd = len(a.posonlyargs) + len(a.args) - len(a.defaults)
        fn.__signature__ = inspect.Signature(
            [pk(p.arg, pk.POSITIONAL_ONLY if i < len(a.posonlyargs) else pk.POSITIONAL_OR_KEYWORD,
                default=defaults[i - nd] if i >= nd else pk.empty) for i, p in enumerate(a.posonlyargs + a.args)]
            + ([pk(a.vararg.arg, pk.VAR_POSITIONAL)] if a.vararg else [])
            + [pk(p.arg, pk.KEYWORD_ONLY, default=kwdefaults.get(p.arg, pk.empty)) for p in a.kwonlyargs]
            + ([pk(a.kwarg.arg, pk.VAR_KEYWORD)] if a.kwarg else []))
        fn._raw = lambda *args, **kwargs: interp.call_ast(fn, node, closure, env, clsenv, defaults, kwdefaults, isgen, args, kwargs)
        return fn

    def call_ast(self, fn, node, closure, defenv, clsenv, defaults, kwdefaults, isgen, args, kwargs):
        env = Env(closure, defenv.mod)
        if clsenv is not None:
            env.cls = clsenv.vars.get('__class_cell__')
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(pos, args))
        extra = args[len(pos):]
        if extra and not a.vararg:
            raise TypeError('%s() takes %d positional arguments but %d were given' % (fn.__name__, len(pos), len(args)))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        kw = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    raise TypeError('%s() got multiple values for argument %r' % (fn.__name__, k))
                vals[k] = v
            elif a.kwarg:
                kw[k] = v
            else:
                raise TypeError('%s() got an unexpected keyword argument %r' % (fn.__name__, k))
        if a.kwarg:
            vals[a.kwarg.arg] = kw
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise TypeError('%s() missing required argument: %r' % (fn.__name__, p))
                vals[p] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in kwdefaults:
                    raise TypeError('%s() missing keyword argument: %r' % (fn.__name__, x.arg))
                vals[x.arg] = kwdefaults[x.arg]
        env.vars = vals
        if pos:
            env.self0 = pos[0]
        self.depth += 1
        self.called.add((defenv.mod.__name__, fn.__qualname__))
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if isgen and defenv.mod.__name__ + '.' + fn.__qualname__ in self.lazy:
                return lazy(lambda ys: (env.vars.__setitem__('%yields', ys), self.block(node.body, env)))
            if isgen:
                env.vars['%yields'] = []
                try:
                    self.block(node.body, env)
                except Ret:
                    pass
                return yielded(env.vars['%yields'])
            try:
                self.block(node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # -- statements
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.cur = (env.mod.__name__, st.lineno)
        try:
            getattr(self, 's_' + type(st).__name__)(st, env)
        except (Ret, Brk, Cont, PathEnd):
            raise
        except Exception as e:
            if len(getattr(e, 'where', ())) < 12:
                try:
                    if not hasattr(e, 'where'):
                        e.where = []
                    e.where.append('%s:%d' % (env.mod.__name__, st.lineno))
                except Exception:
                    pass
            raise


    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        op = _OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            v = self.ev(st.value, env)
            if isinstance(cur, np.ndarray) and N.anysym(v) and t.id in env.vars and env.vars[t.id] is cur and cur.base is None \
                    and sys.getrefcount(cur) <= 3:
                cur = A.lift(cur).copy()        # held by this variable alone
            env.store(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            v = self.ev(st.value, env)
            if isinstance(o, np.ndarray) and N.anysym(v):
                cur = A.lift(cur).copy() if isinstance(cur, np.ndarray) else cur
                r = binop(op, cur, v)
                o = self.promote(o, t.value, env)
            else:
                r = self.inplace(op, cur, v) if not isinstance(cur, Arr) else binop(op, cur, v)
            self.setitem(o, k, r)
        else:
            o = self.ev(t.value, env)
            cur = getattr(o, t.attr)
            v = self.ev(st.value, env)
            self.setattr(o, t.attr, self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = binop(op, cur, v)
            if isinstance(r, Q):
                return r
            A.setitem(cur, Ellipsis, r)
            return cur
        if isinstance(cur, Q) and isinstance(cur.m, Arr):
            if op == '*':
                return cur.__imul__(v)
            if op == '/':
                return cur.__itruediv__(v)
            if op == '+':
                return cur.__iadd__(v)
            if op == '-':
                return cur.__isub__(v)
        if isinstance(cur, list) and op == '+' and not isinstance(v, SymIter):
            cur += list(v)
            return cur
        if isinstance(cur, np.ndarray) and N.anysym(v):
            # becomes symbolic: rebinding loses aliasing with concrete arrays
            raise Unsupported('in-place update of a concrete array with symbolic data')
        if isinstance(cur, (np.ndarray, set, dict)):
            import operator as o
            return {'+': o.iadd, '-': o.isub, '*': o.imul, '/': o.itruediv, '|': o.ior, '&': o.iand,
                    '**': o.ipow, '//': o.ifloordiv, '%': o.imod}[op](cur, v)
        if isinstance(type(cur).__dict__.get('__module__'), str) and str(type(cur).__module__).startswith('euphonic'):
            nm = {'*': 'imul', '+': 'iadd', '-': 'isub', '/': 'itruediv'}.get(op)
            if nm and hasattr(type(cur), '__%s__' % nm):
                return getattr(cur, '__%s__' % nm)(v)
        return binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SymIter) and conc(v.n) is None:
                raise Unsupported('unpacking symbolic sequence')
            vals = list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
            if len(vals) != len(t.elts):
                raise ValueError('not enough/too many values to unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            if type(o) is np.ndarray and (N.anysym(k) or N.anysym(v)):
                o = self.promote(o, t.value, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def promote(self, o, node, env):
        """a concrete array about to receive symbolic values: rebind its (only) variable"""
        import sys
        if not isinstance(node, ast.Name) or node.id not in env.vars or env.vars[node.id] is not o \
                or o.base is not None or sys.getrefcount(o) > 4:
            raise Unsupported('symbolic store into a shared concrete array')
        a = A.lift(o)
        a = a.copy() if isinstance(a, Arr) else a
        env.vars[node.id] = a
        return a

    def setattr(self, o, n, v):
        if self.loopdepth and not isinstance(o, Arr):
            raise Unsupported('attribute assignment in a symbolic loop')
        if isinstance(o, Arr) and n == 'shape':
            raise Unsupported('shape assignment')
        setattr(o, n, v)

    def setitem(self, o, k, v):
        if isinstance(o, A.NestedList):
            return A.setitem(o.arr, k, v)
        if isinstance(o, Arr):
            if isinstance(v, Q):
                raise Unsupported('quantity into array')
            A.setitem(o, k, v)
        elif isinstance(o, np.ndarray) and (N.anysym(k) or N.anysym(v)):
            raise Unsupported('symbolic store into a concrete array')
        elif isinstance(o, (dict, list)):
            if self.loopdepth and self.fresh.get(id(o), (None, -1))[1] != self.loopdepth:
                raise Unsupported('container assignment in a symbolic loop')
            if isinstance(k, Poly):
                k = conc(k)
            o[k] = v
        else:
            o[k] = v

    def getitem(self, o, k):
        if isinstance(o, A.NestedList):
            r = A.getitem(o.arr, k)
            return A.NestedList(r.copy()) if isinstance(r, Arr) else r
        if isinstance(o, (Arr, Q)):
            if isinstance(o, Q) and isinstance(o.m, SymSeq):
                raise Unsupported('')
            return o[k]
        if isinstance(o, np.ndarray):
            if N.anysym(k):
                return A.getitem(_lift(o), k)
            return o[k]
        if isinstance(o, (list, tuple, str)) and isinstance(k, Poly):
            c = conc(k)
            if c is None:
                if isinstance(o, str):
                    raise Unsupported('symbolic string index')
                return pick(o, k)
            return o[c]
        if isinstance(o, (list, tuple)) and isinstance(k, slice) and any(isinstance(x, Poly) for x in (k.start, k.stop)):
            k = slice(conc(k.start) if k.start is not None else None, conc(k.stop) if k.stop is not None else None, k.step)
            return o[k]
        if isinstance(o, Comp):
            if A.OPTS.get('text') and isinstance(k, slice):
                return o
            raise Unsupported('indexing a masked selection')
        return o[k]

    def s_If(self, st, env):
        if truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while True:
            c = self.ev(st.test, env)
            if not truth(c):
                self.block(st.orelse, env)
                break
            n += 1
            if n > 3000 or (isinstance(c, (B, Poly)) and n > 40):
                raise Unsupported('unbounded while loop')
            try:
                self.block(st.body, env)
            except Brk:
                break
            except Cont:
                continue

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, ProductIter):
            def nest(parts, vals):
                s = SymIter(parts[0].n, parts[0].item)
                kname, k = T.fresh_index(s.n, base='k')

                def run():
                    v = vals + (s.item(k),)
                    if len(parts) > 1:
                        return nest(parts[1:], v)
                    self.assign(st.target, v, env)
                    try:
                        self.block(st.body, env)
                    except Cont:
                        pass
                self.summarise(kname, k, s.n, run, env)
            return nest(it.parts, ())
        s = to_symiter(it)
        if s is not None:
            return self.sym_for(s, st, env)
        for x in it:
            self.assign(st.target, x, env)
            try:
                self.block(st.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.block(st.orelse, env)

    # -- loops over a symbolic range
    def sym_for(self, it, st, env):
        n = it.n
        if not (S.sign(n) in ('>', '+', '0')) and not S.prove(bge(n, 0), 2000):
            raise Unsupported('loop bound of unknown sign')
        kname, k = T.fresh_index(n, base='k')
        self.listify(st, env)

        def run():
            self.assign(st.target, it.item(k), env)
            try:
                self.block(st.body, env)
            except Cont:
                pass
        self.summarise(kname, k, n, run, env)

    def listify(self, st, env):
        """lists of symbolic length whose elements the loop assigns become modifiable"""
        for node in ast.walk(st):
            if isinstance(node, (ast.Assign, ast.AugAssign)):
                for t in (node.targets if isinstance(node, ast.Assign) else [node.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        v = env.vars.get(t.value.id)
                        if isinstance(v, SymSeq) and scalar_like(v.value):
                            env.vars[t.value.id] = A.NestedList(v.to_arr())
                            for o, w in env.vars.items():
                                if w is v:
                                    env.vars[o] = env.vars[t.value.id]

    def summarise(self, kname, k, n, run, env):
        init_vars = dict(env.vars)
        lists = {id(v): (v, list(v)) for v in init_vars.values() if isinstance(v, list) and not isinstance(v, A.NestedList)}
        outer_growing = getattr(self, '_growing', set())
        # 1. which state does an iteration modify?
        mod_bufs, mod_vars = {}, set()
        for attempt in range(6):
            posts = self.body_paths(run, env, init_vars, lists, mod_bufs, mod_vars, kname, k, n, attempt)
            nb = set()
            nv = set()
            if attempt == 0:
                self._growing = set()
            for cond, vars_, bufs, ls in posts:
                nb |= set(bufs)
                for nme, v in vars_.items():
                    if attempt == 0 and isinstance(v, Arr) and getattr(v, 'appended', False) and isinstance(init_vars.get(nme), (Arr, np.ndarray)) \
                            and init_vars[nme].ndim == 1 and v is not init_vars[nme]:
                        self._growing.add(nme)
                    if nme not in init_vars or init_vars[nme] is not v:
                        pre = mod_vars and nme in mod_vars
                        nv.add(nme)
            new = (nb - set(mod_bufs)) or (nv - mod_vars)
            if attempt > 0 and not new:
                break
            for b in nb:
                if b not in mod_bufs:
                    mod_bufs[b] = 'pre%d_%d' % (b.id, next(A._ids))
            mod_vars |= nv
        else:
            raise Unsupported('loop state does not stabilise')
        # 2. recurrences
        vs = []
        for b, pname in mod_bufs.items():
            post = ZERO
            for cond, vars_, bufs, ls in posts:
                body = bufs.get(b, self._pre_body(b, pname))
                post = post + cond * body
            vs.append(L.Var(b, pname, list(b.names), b.body, post, None))
        varinfo = {}
        for nme in sorted(mod_vars):
            vals = [(c, v.get(nme, UNDEF)) for c, v, _, _ in posts]
            info = self._var_post(nme, vals, init_vars.get(nme, UNDEF), env, mod_vars)
            varinfo[nme] = info
            if info is not None and info[0] == 'rec':
                vs.append(info[1])
        L.solve(vs, kname, n)
        # 3. state after the loop
        env.vars.clear()
        env.vars.update(init_vars)
        for v in vs:
            if isinstance(v.key, A.Buf):
                v.key.set(v.closed(n))
        for nme, info in varinfo.items():
            if info is None:
                env.vars[nme] = UNDEF
                continue
            if info[0] == 'rec':
                v = info[1]
                if v.temp and v.init is None:
                    env.vars[nme] = info[2](v.last(n)) if S.sign(n) == '>' else UNDEF
                else:
                    env.vars[nme] = info[2](v.closed(n))
            elif info[0] == 'tmp':
                env.vars[nme] = self._final_tmp(info[1], kname, n, vs, k)
            elif info[0] == 'grow':
                table = {}
                for v in vs:
                    table[v.pre] = (lambda *args, v=v: T.subst(v.closed(k), dict(zip(v.idx, args)))) if v.idx else v.closed(k)
                x = vmap(info[2], lambda p: L.subst_sel(p, table))
                env.vars[nme] = A.concatenate([_lift(info[1]), SymSeq(n, kname, x).to_arr()], 0) if A.conc(_lift(info[1]).vshape[0]) != 0 \
                    else SymSeq(n, kname, x).to_arr()
        self._growing = outer_growing
        for lid, (lst, old) in lists.items():
            grown = [ls[lid] for _, _, _, ls in posts if lid in ls]
            if not grown:
                continue
            names = [nme for nme, v in init_vars.items() if v is lst]
            if len(posts) != 1 or len(grown[0]) != 1 or (old and '%yields' not in names):
                raise Unsupported('list built conditionally in a symbolic loop')
            val = grown[0][0]
            table = {}
            for v in vs:
                table[v.pre] = (lambda *args, v=v: T.subst(v.closed(k), dict(zip(v.idx, args)))) if v.idx else v.closed(k)
            val = vmap(val, lambda p: L.subst_sel(p, table))
            lst[:] = old
            if '%yields' in names:
                lst.append(YGroup(n, kname, val))
                continue
            for nme in names:
                env.vars[nme] = SymSeq(n, kname, val)

    def _pre_body(self, b, pname):
        sort = {'f': 'real', 'c': 'complex', 'i': 'int', 'b': 'int'}[b.kind]
        d = T.ArrDecl(pname, len(b.shape), sort)
        return d(*[A.index_of(nm, s) for nm, s in zip(b.names, b.shape)])

    def body_paths(self, run, env, init_vars, lists, mod_bufs, mod_vars, kname, k, n, attempt):
        """execute one generic iteration along all its paths; -> [(cond Poly, vars, bufs, lists)]"""
        PATHS.append(Paths())
        me = PATHS[-1]
        mark = S.CTX.mark()
        posts = []
        self.loopdepth += 1
        saved = {b: b.body for b in mod_bufs}
        exits = []
        try:
            while True:
                me.pos = 0
                S.CTX.reset(mark)
                env.vars.clear()
                env.vars.update(init_vars)
                for lid, (lst, old) in lists.items():
                    lst[:] = old
                for b, pname in mod_bufs.items():
                    b.body = self._pre_body(b, pname)
                prevals = {}
                for nme in mod_vars:
                    if nme in init_vars:
                        pv = self._pre_var(nme, init_vars[nme])
                        env.vars[nme] = pv
                        prevals[nme] = pv
                j = {}
                A.JOURNALS.append(j)
                exc = None
                try:
                    run()
                except (Brk, Ret):
                    raise Unsupported('break/return inside a symbolic loop')
                except (Unsupported, PathEnd, RecursionError):
                    raise
                except Exception as e:
                    exc = e
                finally:
                    A.JOURNALS.pop()
                    bufs = {b: b.body for b in j}
                    for b, old in j.items():
                        b.body = old
                conds = [f for f in S.CTX.facts[mark:]]
                cond = T.band(*conds) if conds else TRUE
                S.CTX.reset(mark)
                if exc is not None:
                    exits.append((cond, exc))
                else:
                    ls = {}
                    for lid, (lst, old) in lists.items():
                        if len(lst) != len(old):
                            if lst[:len(old)] != old and any(x is not y for x, y in zip(lst, old)):
                                raise Unsupported('list modified in a symbolic loop')
                            ls[lid] = lst[len(old):]
                        elif any(x is not y for x, y in zip(lst, old)):
                            raise Unsupported('list modified in a symbolic loop')
                    pre_bufs = {b for b in bufs if any(b is q for q in bufs)}
                    vars_ = dict(env.vars)
                    # buffers created inside the iteration are not loop state
                    live = self._live_bufs(init_vars)
                    posts.append((cond.poly(), vars_, {b: v for b, v in bufs.items() if b.id in live or b in mod_bufs}, ls))
                    for nme, pv in prevals.items():
                        if vars_.get(nme) is pv:
                            vars_[nme] = ('same',)
                if len(posts) > 64:
                    raise Unsupported('too many paths in a loop body')
                if not me.next():
                    break
        finally:
            self.loopdepth -= 1
            S.CTX.reset(mark)
            PATHS.remove(me)
            for b, v in saved.items():
                b.body = v
            env.vars.clear()
            env.vars.update(init_vars)
            for lid, (lst, old) in lists.items():
                lst[:] = old
        if exits:
            # does any iteration raise?
            for cond, exc in exits:
                nm, y = T.fresh_index(n)
                hit = T.mk_sum(nm, 0, n, T.subst(cond.poly(), {kname: y}))
                if fork(bnot(beq(hit, 0))):
                    raise exc
                S.CTX.push(bnot(cond))
        return posts

    def _live_bufs(self, vars_):
        out = set()
        seen = set()

        def walk(v, d):
            if isinstance(v, Arr):
                out.add(v.buf.id)
            elif isinstance(v, Q):
                walk(v.m, d)
            elif isinstance(v, A.NestedList):
                walk(v.arr, d)
            elif isinstance(v, (list, tuple)) and d < 4:
                for x in v:
                    walk(x, d + 1)
            elif isinstance(v, dict) and d < 4:
                for x in v.values():
                    walk(x, d + 1)
            elif hasattr(v, '__dict__') and d < 3 and not isinstance(v, (type, types.ModuleType, types.FunctionType)):
                if id(v) in seen:
                    return
                seen.add(id(v))
                for x in vars(v).values():
                    walk(x, d + 1)
        for v in vars_.values():
            walk(v, 0)
        return out

    def _pre_var(self, nme, v):
        key = 'prev_%s_%d' % (nme, next(A._ids))
        if isinstance(v, (bool, str, type(None), list, dict, tuple)) or v is UNDEF:
            return v
        if scalar_like(v):
            kd = A.kind_of(v)
            s = T.sym(key, {'i': 'int', 'f': 'real', 'c': 'complex', 'b': 'int'}[kd])
            return PreScalar.make(s, key)
        if isinstance(v, (Arr, np.ndarray)) and nme in self._growing:
            return A.Growing(v)
        if isinstance(v, Arr):
            r = A.mk(v.vshape, T.ArrDecl(key, v.ndim, {'i': 'int', 'f': 'real', 'c': 'complex', 'b': 'int'}[v.kind]), v.kind)
            r.buf.tag = 'pre:' + key
            return r
        return v

    def _var_post(self, nme, vals, init, env, mod_vars):
        """-> None (unusable afterwards) | ('rec', Var, rebuild) | ('tmp', vals)"""
        vs = [v for _, v in vals]
        if all(isinstance(v, tuple) and v == ('same',) for v in vs):
            return ('tmp', [(const(1), init)])
        if any(isinstance(v, A.Growing) for v in vs):
            if not all(isinstance(v, A.Growing) and v.init is init and len(v.new) == 1 for v in vs):
                raise Unsupported('array grown conditionally in a symbolic loop')
            if len(vs) == 1:
                return ('grow', init, vs[0].new[0])
            if not all(scalar_like(v.new[0]) for v in vs):
                raise Unsupported('array grown by different kinds of values')
            return ('grow', init, sum((c * P(v.new[0]) for (c, _), v in zip(vals, vs)), ZERO))
        # identify the pre symbol used on this round
        if any(v is UNDEF for v in vs):
            return None
        if scalar_like(init) and not isinstance(init, bool):
            pre = None
            post = ZERO
            for c, v in vals:
                if isinstance(v, tuple) and v == ('same',):
                    v = None
                names = PreScalar.names(nme)
                if v is not None and not scalar_like(v):
                    return None
                post = post + c * (P(v) if v is not None else PreScalar.last(nme))
            pname = PreScalar.lastname(nme)
            return ('rec', L.Var(nme, pname, [], P(init) if not isinstance(init, B) else init.poly(), post, None), lambda p: A.outdim(p))
        if len(vals) == 1 and not isinstance(init, Arr):
            v = vs[0]
            if scalar_like(v) and not isinstance(v, (bool, B)):
                return ('rec', L.Var(nme, 'none_%s' % nme, [], None, P(v), None), lambda p: A.outdim(p))
            return ('tmp', vals)
        if isinstance(init, Arr) and all(isinstance(v, Arr) for v in vs):
            if len(vals) == 1 and vs[0].vshape == init.vshape:
                v = vs[0]
                nm = init.buf.names if init.whole() else None
                names = ['%s_x%d' % (nme, d) for d in range(init.ndim)]
                syms = [A.index_of(x, s) for x, s in zip(names, init.vshape)]
                pre = [a.name for a in T.atoms_of(v.at(*syms)) if a.kind == 'sel' and a.name.startswith('prev_%s_' % nme)]
                pname = pre[0] if pre else 'none_%s' % nme
                var = L.Var(nme, pname, names, init.at(*syms), v.at(*syms), None)
                kd = A.promote(v.kind, init.kind)
                return ('rec', var, lambda p: A.mk(init.vshape, lambda *i: T.subst(p, dict(zip(names, i))), kd))
        return None

    def _final_tmp(self, vals, kname, n, vs, k):
        if len(vals) != 1:
            return UNDEF
        v = vals[0][1]
        if not N.anysym(v):
            return v
        if S.sign(n) != '>':
            return UNDEF
        table = {}
        for w in vs:
            table[w.pre] = (lambda *args, w=w: T.subst(w.closed(k), dict(zip(w.idx, args)))) if w.idx else w.closed(k)
        v = vmap(v, lambda p: L.subst_sel(p, table))
        return vsubst(v, {kname: n - 1})

    def s_Return(self, st, env):
        raise Ret(self.ev(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise Brk()

    def s_Continue(self, st, env):
        raise Cont()

    def s_Raise(self, st, env):
        if st.exc is None:
            raise sys.exc_info()[1]
        e = self.ev(st.exc, env)
        if isinstance(e, type):
            e = e()
        if st.cause is not None:
            raise e from self.ev(st.cause, env)
        raise e

    def s_Assert(self, st, env):
        if not truth(self.ev(st.test, env)):
            raise AssertionError()

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except (Unsupported, Ret, Brk, Cont, PathEnd):
                raise
            except Exception as e:
                for h in st.handlers:
                    typ = self.ev(h.type, env) if h.type is not None else Exception
                    if isinstance(e, typ):
                        if h.name:
                            env.store(h.name, e)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def s_With(self, st, env):
        def go(items):
            if not items:
                return self.block(st.body, env)
            cm = self.ev(items[0].context_expr, env)
            with cm as v:
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v, env)
                go(items[1:])
        go(st.items)

    def s_FunctionDef(self, st, env):
        q = None
        if getattr(env, 'is_class', False):
            q = env.vars.get('__qualname__')
        f = self.make_function(st, env, q)
        for d in reversed(st.decorator_list):
            dec = self.ev(d, env)
            f = dec(f)
        env.store(st.name, f)

    def s_ClassDef(self, st, env):
        bases = tuple(self.ev(b, env) for b in st.bases)
        kw = {k.arg: self.ev(k.value, env) for k in st.keywords}
        cenv = ClassEnv(env, env.mod)
        cenv.vars['__qualname__'] = st.name
        cenv.vars['__module__'] = env.mod.__name__
        self.block(st.body, cenv)
        ns = {k: v for k, v in cenv.vars.items()}
        ann = {}
        for x in st.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                ann[x.target.id] = 'object'
        if ann:
            ns['__annotations__'] = ann
        cls = types.new_class(st.name, bases, kw, lambda d: d.update(ns))
        cenv.vars['__class_cell__'] = cls
        for d in reversed(st.decorator_list):
            cls = self.ev(d, env)(cls)
        env.store(st.name, cls)

    def s_Import(self, st, env):
        for a in st.names:
            m = self.imp(a.name, 0, env.mod)
            if a.asname:
                env.store(a.asname, m)
            else:
                top = a.name.split('.')[0]
                env.store(top, m if '.' not in a.name else self.imp(top, 0, env.mod))

    def s_ImportFrom(self, st, env):
        if st.module == '__future__':
            return
        m = None
        for a in st.names:
            if m is None:
                m = self.imp(st.module or '', st.level, env.mod)
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = self.imp(((m.__name__ if isinstance(m, types.ModuleType) else st.module) + '.' + a.name), 0, env.mod)
                except (ImportError, FileNotFoundError):
                    raise ImportError('cannot import name %r from %r' % (a.name, st.module))
            env.store(a.asname or a.name, v)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if not isinstance(o, (dict, list)):
                    raise Unsupported('del of array element')
                del o[self.ev_index(t.slice, env)]
            else:
                delattr(self.ev(t.value, env), t.attr)

    def s_Global(self, st, env):
        env.globals_ |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    # -- expressions
    def ev(self, e, env):
        return getattr(self, 'e_' + type(e).__name__)(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env.store(e.target.id, v)
        return v

    def e_Tuple(self, e, env):
        r = self.elts(e, env)
        return r if isinstance(r, SymIter) else tuple(r)

    def e_List(self, e, env):
        return self.fresh_obj(self.elts(e, env))

    def fresh_obj(self, o):
        # a container created by the current iteration may be filled in it
        if self.loopdepth:
            self.fresh[id(o)] = (o, self.loopdepth)
        return o

    def e_Set(self, e, env):
        r = self.elts(e, env)
        if isinstance(r, SymIter):
            raise Unsupported('set of symbolic size')
        return set(r)

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                sym = to_symiter(v)
                if sym is not None:
                    return cat([out, sym] + [self._rest(y, env) for y in e.elts[e.elts.index(x) + 1:]])
                out.extend(v)
            else:
                out.append(self.ev(x, env))
        return out

    def _rest(self, x, env):
        if not isinstance(x, ast.Starred):
            return [self.ev(x, env)]
        v = self.ev(x.value, env)
        sym = to_symiter(v)
        return list(v) if sym is None else sym

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return self.fresh_obj(d)

    def e_BinOp(self, e, env):
        return binop(_OPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (B, Poly)):
                return simp_bool(bnot(asB(v)))
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, B):
            return bnot(v)
        return ~v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        r = None
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if isinstance(v, (B,)) and v.op != 'const':
                d = S.decide(v)
                if d is None:
                    # later operands may rely on this one: fork
                    t = fork(v)
                else:
                    t = d
                v = t
            else:
                t = truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
            r = v
        return r

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            r = self.compare(op, left, right)
            if out is None:
                out = r
            else:
                out = T.band(asB(out), asB(r)) if isinstance(out, B) or isinstance(r, B) else (out and r)
            if out is False:
                return False
            left = right
        return simp_bool(out)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
        if isinstance(op, ast.IsNot):
            return not (a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b))
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, (Poly,)) or (isinstance(b, (list, tuple)) and (_has_sym(a) or any(_has_sym(x) for x in b))):
                r = FALSE
                for x in b:
                    y = binop('==', a, x)
                    r = T.bor(r, asB(y) if not isinstance(y, bool) else (TRUE if y else FALSE))
            elif isinstance(b, Arr):
                r = bnot(beq(A.reduce_sum(A.binop('==', b, a)), 0))
            else:
                r = a in b
            if isinstance(op, ast.NotIn):
                r = bnot(r) if isinstance(r, B) else not r
            return simp_bool(r)
        return binop(_OPS[type(op)], a, b)

    def e_IfExp(self, e, env):
        return self.ev(e.body if truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, n):
        if isinstance(o, Poly):
            return poly_attr(o, n)
        if isinstance(o, B):
            if n in ('all', 'any', 'item'):
                return lambda *a: o
            if n == 'astype':
                return lambda *a: o.poly()
        if isinstance(o, SymSeq) and n == 'append':
            raise Unsupported('append to a symbolic list')
        if isinstance(o, list) and n in ('pop', 'insert', 'remove', 'sort', 'clear', 'reverse') and self.loopdepth:
            raise Unsupported('list mutation in a symbolic loop')
        if isinstance(o, dict) and n in ('update', 'pop', 'setdefault', 'popitem', 'clear') and self.loopdepth:
            raise Unsupported('dict mutation in a symbolic loop')
        return getattr(o, n)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_index(e.slice, env)
        return self.getitem(o, k)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.ev(x.value, env))
                else:
                    out.append(self.ev_index(x, env))
            return tuple(out)
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_index(e, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            ee = env
            while ee is not None and ee.cls is None:
                ee = ee.parent
            selfname = env.self0
            return super(env.cls, env.lookup(selfname))
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args.extend(list(v))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if self.loopdepth and isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (set,)):
            raise Unsupported('set mutation in a symbolic loop')
        if f is list:
            return b_list(*args)
        if f is tuple and args:
            s = to_symiter(args[0])
            return b_list(args[0]) if s is not None else tuple(args[0])
        if f is bool:
            return b_bool(*args)
        if f is str and args and N.anysym(args[0]):
            if isinstance(args[0], Q) and isinstance(args[0].m, (int, float)):
                return str(args[0])
            return '<sym>'
        if f is complex and any(isinstance(a, Poly) for a in args):
            a = [P(x) for x in args] + [ZERO]
            return a[0] + a[1] * T.I_
        if f is _copy.copy and isinstance(args[0], Poly):
            return args[0]
        if f is set and N.anysym(args[0] if args else ()):
            raise Unsupported('set of symbolic values')
        if isinstance(f, type) and issubclass(f, np.generic) and args and N.anysym(args[0]):
            kd = A.dtype_kind(f)
            v = args[0]
            if isinstance(v, (Arr, SymSeq, list)):
                return _lift(v).astype(kd)
            return A.cast(P(v) if not isinstance(v, B) else v.poly(), kd)
        return f(*args, **kw)

    def e_Lambda(self, e, env):
        return self.make_function(e, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                old = A.OPTS.get('text')
                A.OPTS['text'] = True
                try:
                    x = self.ev(v.value, env)
                finally:
                    A.OPTS['text'] = old
                if N.anysym(x):
                    out.append('<sym>')
                    continue
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                if v.conversion == 114:
                    x = repr(x)
                elif v.conversion == 115:
                    x = str(x)
                try:
                    out.append(format(x, spec))
                except (TypeError, ValueError):
                    out.append(str(x))
        return ''.join(out)

    def e_Yield(self, e, env):
        ys = env.vars['%yields']
        ys.append(self.ev(e.value, env) if e.value is not None else None)
        if isinstance(ys, list) and len(ys) > 20000:
            raise Unsupported('endless generator')

    def e_YieldFrom(self, e, env):
        it = self.ev(e.value, env)
        s = to_symiter(it)
        if s is not None:
            nm, y = T.fresh_index(s.n)
            it = [YGroup(s.n, nm, s.item(y))]
        for x in it:
            env.vars['%yields'].append(x)

    # comprehensions
    def comp(self, gens, env, elt, i=0, out=None):
        g = gens[i]
        it = self.ev(g.iter, env)
        for x in it:
            self.assign(g.target, x, env)
            if all(truth(self.ev(c, env)) for c in g.ifs):
                if i + 1 < len(gens):
                    self.comp(gens, env, elt, i + 1, out)
                else:
                    out.append(elt(env))
        return out

    def sym_comp(self, e, env, elt):
        """[elt for x in symbolic iterable] or None if the iterable is native"""
        g = e.generators[0]
        it = self.ev(g.iter, env)
        s = to_symiter(it)
        sub = Env(env, env.mod)
        sub.cls = env.cls
        sub.self0 = env.self0
        if s is None:
            out = []
            first = True
            for x in it:
                self.assign(g.target, x, sub)
                if all(truth(self.ev(c, sub)) for c in g.ifs):
                    if len(e.generators) > 1:
                        self.comp(e.generators, sub, elt, 1, out)
                    else:
                        out.append(elt(sub))
            return out
        if len(e.generators) > 1 or g.ifs:
            raise Unsupported('filtered or nested comprehension over a symbolic range')
        kname, k = T.fresh_index(s.n, base='k')
        PATHS.append(Paths())
        me = PATHS[-1]
        mark = S.CTX.mark()
        res = []
        self.loopdepth += 1
        try:
            while True:
                me.pos = 0
                S.CTX.reset(mark)
                self.assign(g.target, s.item(k), sub)
                v = elt(sub)
                conds = S.CTX.facts[mark:]
                res.append((T.band(*conds) if conds else TRUE, v))
                if not me.next():
                    break
        finally:
            self.loopdepth -= 1
            S.CTX.reset(mark)
            PATHS.remove(me)
        if len(res) == 1:
            v = res[0][1]
        else:
            v = ZERO
            if not all(scalar_like(x) for _, x in res):
                raise Unsupported('conditional comprehension of arrays')
            for c, x in res:
                v = v + c.poly() * P(x if not isinstance(x, B) else x.poly())
        return SymSeq(s.n, kname, v)

    def e_ListComp(self, e, env):
        return self.sym_comp(e, env, lambda s: self.ev(e.elt, s))

    def e_GeneratorExp(self, e, env):
        r = self.sym_comp(e, env, lambda s: self.ev(e.elt, s))
        return r if isinstance(r, SymSeq) else iter(r)

    def e_SetComp(self, e, env):
        r = self.sym_comp(e, env, lambda s: self.ev(e.elt, s))
        return set(r)

    def e_DictComp(self, e, env):
        r = self.sym_comp(e, env, lambda s: (self.ev(e.key, s), self.ev(e.value, s)))
        if isinstance(r, SymSeq):
            raise Unsupported('dict over a symbolic range')
        return dict(r)


def vmap(v, f):
    if isinstance(v, YGroup):
        return YGroup(f(v.n), v.name, vmap(v.value, f))
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, B):
        return A.asB_br(f(v.poly()))
    if isinstance(v, Arr):
        return A.mk(v.vshape, lambda *i: f(v.at(*i)), v.kind)
    if isinstance(v, Q):
        return Q(vmap(v.m, f), v.u)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, list):
        return [vmap(x, f) for x in v]
    return v


class PreScalar:
    reg = {}

    @classmethod
    def make(cls, s, key):
        nme = key[5:].rsplit('_', 1)[0]
        cls.reg[nme] = (s, key)
        return s

    @classmethod
    def names(cls, nme):
        return cls.reg.get(nme)

    @classmethod
    def last(cls, nme):
        return cls.reg[nme][0]

    @classmethod
    def lastname(cls, nme):
        return cls.reg[nme][1] if nme in cls.reg else 'none_%s' % nme


def poly_attr(o, n):
    if n == 'real':
        return T.preal(o)
    if n == 'imag':
        return T.pimag(o)
    if n in ('item', 'copy', 'squeeze', 'sum', 'max', 'min', 'mean', 'tolist', 'flatten'):
        return lambda *a, **k: o
    if n in ('conj', 'conjugate'):
        return lambda: T.conj(o)
    if n == 'shape':
        return ()
    if n == 'ndim':
        return 0
    if n == 'size':
        return 1
    if n == 'dtype':
        return A._DT[A.kind_of(o)]
    if n == 'astype':
        return lambda dt, **k: A.cast(o, A.dtype_kind(dt))
    if n == 'is_integer':
        return lambda: o.isint()
    raise AttributeError('number has no attribute %r' % n)


def has_yield(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


class _Math:
    pi = math.pi
    inf = math.inf
    e = math.e
    tau = math.tau

    def __getattr__(self, n):
        real = getattr(math, n)
        table = {'sqrt': 'sqrt', 'cos': 'cos', 'sin': 'sin', 'exp': 'exp', 'log': 'log', 'acos': 'arccos', 'fabs': 'abs', 'tanh': 'tanh', 'erfc': 'erfc'}
        npf = ('radians', 'degrees', 'hypot', 'expm1', 'log1p', 'tan', 'sinh', 'cosh', 'cbrt')

        def f(*a):
            a = [x.to('dimensionless').m if isinstance(x, Q) else x for x in a]
            if any(isinstance(x, Poly) for x in a):
                if n in table:
                    return A.unop(a[0], table[n])
                if n in ('ceil', 'floor'):
                    return A.outdim(A.UN[n](P(a[0])))
                if n in npf:
                    return N.SYM[n](*a)
                if n == 'pow':
                    return binop('**', *a)
                raise Unsupported('math.%s' % n)
            if n == 'prod' and a and not isinstance(a[0], (list, tuple)) or n in ('prod', 'fsum') and any(N.anysym(x) for x in a):
                if isinstance(a[0], Arr):
                    return N.SYM['prod' if n == 'prod' else 'sum'](a[0])
                xs = list(a[0])
                r = xs[0] if xs else (1 if n == 'prod' else 0)
                for y in xs[1:]:
                    r = binop('*' if n == 'prod' else '+', r, y)
                return r
            return real(*a)
        return f if callable(real) else real


MATH = _Math()


class Opaque:
    """third-party module: usable on concrete data, contract hooks on symbolic data"""

    def __init__(self, real, name):
        self.__dict__['_real'] = real
        self.__dict__['_name'] = name
        self.__dict__['__name__'] = name

    def __getattr__(self, n):
        full = self._name + '.' + n
        if full in N.HOOKS:
            return N.HOOKS[full]
        real = getattr(self._real, n)
        if isinstance(real, types.ModuleType):
            return Opaque(real, full)
        if isinstance(real, type):
            return real
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            h = N.HOOKS.get(full)
            if h is not None:
                return h(*a, **k)
            if any(N.anysym(x) for x in a) or any(N.anysym(x) for x in k.values()):
                raise Unsupported('%s on symbolic data' % full)
            return real(*a, **k)
        f.__name__ = n
        return f


class Warn:
    def __init__(self, interp):
        self.i = interp

    def warn(self, msg, *a, **k):
        self.i.warnings.append(msg)

    def __getattr__(self, n):
        import warnings
        return getattr(warnings, n)


FS = {}       # modelled files written by interpreted code


class JsonText:
    """text holding a JSON document"""

    def __init__(self, doc):
        self.doc = doc


class FakeFile:
    def __init__(self, name, mode):
        if not isinstance(name, str):
            name = os.fspath(name)
        self.name, self.mode = name, mode
        if 'w' in mode:
            FS[name] = ''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self):
        return FS[self.name]

    def _text(self):
        if not hasattr(self, 'pos'):
            import io
            self.pos = io.StringIO(FS[self.name])
        return self.pos

    def readline(self):
        return self._text().readline()

    def readlines(self):
        return self._text().readlines()

    def __iter__(self):
        return iter(self._text())

    def write(self, text):
        if 'w' not in self.mode:
            raise OSError('not writable')
        if FS[self.name] != '':
            raise Unsupported('second write to a modelled file')
        FS[self.name] = text


def b_open(name, mode='r', *a, **k):
    """writing goes to modelled files only; reading a file not written by the code is left to the operating system"""
    if 'b' not in mode and ('w' in mode or os.fspath(name) in FS):
        return FakeFile(name, mode)
    if mode.strip('tb') != 'r':
        raise Unsupported('open for writing')
    return open(name, mode, *a, **k)


BUILTINS['open'] = b_open


class _Json:
    """json: finite numbers, strings, lists and dictionaries survive; tuples become lists; anything else is refused"""
    __name__ = 'json'

    def enc(self, o):
        if isinstance(o, dict):
            if not all(isinstance(k, str) for k in o):
                raise Unsupported('json keys')
            return {str(k): self.enc(v) for k, v in o.items()}
        if isinstance(o, A.NestedList):
            return A.NestedList(o.arr.copy())
        if isinstance(o, (list, tuple)):
            return [self.enc(v) for v in o]
        if isinstance(o, str):
            return str(o)
        if o is None or isinstance(o, (bool, int, float, B)) or (isinstance(o, Poly) and o.isreal()):
            return o
        raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)

    def dump(self, o, f, **k):
        t = JsonText(self.enc(o)) if N.anysym(o) or isinstance(f, FakeFile) else None
        if t is None:
            raise Unsupported('json.dump to a real file')
        f.write(t)

    def dumps(self, o, **k):
        return JsonText(self.enc(o))

    def loads(self, t, **k):
        if isinstance(t, JsonText):
            return self.enc(t.doc)
        return json.loads(t, **k)

    def load(self, f, **k):
        return self.loads(f.read(), **k)

    def __getattr__(self, n):
        return getattr(json, n)


JSON = _Json()
ITERTOOLS = _Itertools()


class _Pint:
    Quantity = Q
    __name__ = 'pint'

    def __getattr__(self, n):
        if n == 'UnitRegistry':
            return lambda *a, **k: U.UREG
        return getattr(pint, n)


PINT = _Pint()
Arr.__deepcopy__ = lambda self, memo: self.copy()
Arr.__copy__ = lambda self: self.copy()
Poly.__deepcopy__ = lambda self, memo: self
Poly.__copy__ = lambda self: self
B.__deepcopy__ = lambda self, memo: self
