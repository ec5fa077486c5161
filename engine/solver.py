"""Proof context: facts, index ranges, bracket simplification, z3 back end and the
equality procedure used to discharge verification conditions."""
import itertools
import random
import time
import re
from fractions import Fraction as Fr

import z3

from . import term as T
from .term import (Poly, P, B, TRUE, FALSE, const, ZERO, Unsupported, RANGES, subst, Sym,
                   band, bor, bnot, blt, ble, beq, bge, bgt, mk_sum)


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.normal_form = 0
        self.by_z3 = 0
        self.cases = 0


STATS = Stats()


class Ctx:
    """assumptions in force"""

    def __init__(self):
        self.facts = []          # list of B
        self.fact_keys = {}      # skey -> bool
        self.version = 0
        self.cache = {}
        self.use_z3 = False      # z3 inside bracket simplification
        self.eqs = []            # oriented equalities name -> Poly (syms)
        self.depth = 0

    def push(self, b):
        b = T.asB(b)
        self.facts.append(b)
        self._index(b, True)
        self.version += 1
        self.cache = {}

    def _index(self, b, val):
        if b.op == 'not':
            self._index(b.a, not val)
            return
        if b.op == 'and' and val:
            for x in b.a:
                self._index(x, True)
        elif b.op == 'or' and not val:
            for x in b.a:
                self._index(x, False)
        self.fact_keys[b.skey] = val

    def mark(self):
        return len(self.facts)

    def reset(self, n):
        if n == len(self.facts):
            return
        fs = self.facts[:n]
        self.facts = []
        self.fact_keys = {}
        for f in fs:
            self.facts.append(f)
            self._index(f, True)
        self.version += 1
        self.cache = {}


CTX = Ctx()


class assuming:
    def __init__(self, *bs):
        self.bs = bs

    def __enter__(self):
        self.n = CTX.mark()
        for b in self.bs:
            CTX.push(b)

    def __exit__(self, *a):
        CTX.reset(self.n)


def reset_ctx():
    global CTX
    CTX.facts = []
    CTX.fact_keys = {}
    CTX.cache = {}
    CTX.use_z3 = False


# ------------------------------------------------------------- quick bounds
def _idx_syms(p):
    """range-limited integer symbols / array elements occurring polynomially in p"""
    out = []
    for m in p.t:
        for a, e in m:
            if a.kind == 'sym' and a.name in RANGES and a not in out:
                out.append(a)
            elif a.kind == 'sel' and a.decl.rng is not None and a not in out:
                out.append(a)
            elif a.kind == 'br' and a not in out:
                out.append(a)
            elif a.kind == 'fn' and a.name in ('imod', 'digi') and a not in out:
                out.append(a)
    return out


def _bounds(a):
    if a.kind == 'sym':
        lo, hi = RANGES[a.name]
    elif a.kind == 'br':
        return ZERO, const(2)
    elif a.kind == 'fn' and a.name == 'digi':
        from . import npmodel
        return ZERO, npmodel.DIGI[int(a.args[1].cval())][2] + 1
    elif a.kind == 'fn':
        return ZERO, a.args[1]
    else:
        lo, hi = a.decl.rng
        lo = lo(*a.args) if callable(lo) else P(lo)
        if hi is not None:
            hi = hi(*a.args) if callable(hi) else P(hi)
    return lo, hi


def _split(p, a):
    """p = c*a + r with c, r free of a (None if not linear)"""
    c, r = {}, {}
    for m, k in p.t.items():
        e = 0
        for x, ex in m:
            if x == a:
                e = ex
            elif a.kind == 'sym' and a.name in x.free:
                return None
        if e == 0:
            r[m] = k
        elif e == 1:
            c[tuple(x for x in m if x[0] != a)] = k
        else:
            return None
    return Poly(c), Poly(r)


def _sign_const(p):
    """certain sign of p: '+' (>=0) , '-' (<=0), '>' , '<' or None; p without index symbols"""
    if p.isconst():
        c = p.cval()
        return '>' if c > 0 else '<' if c < 0 else '0'
    if p.isnonneg():
        if p.ispos():
            return '>'
        c0 = p.t.get((), 0)
        return '>' if c0 > 0 else '+'
    q = -p
    if q.isnonneg():
        if q.ispos():
            return '<'
        c0 = q.t.get((), 0)
        return '<' if c0 > 0 else '-'
    # substitute positive integer symbols n -> n'+1
    env = {}
    for m in p.t:
        for a, e in m:
            if a.kind == 'sym' and a.sort == 'int' and a.pos and e.__class__ is int and e > 0:
                env[a.name] = Poly.atom(Sym(a.name + "'", 'int', nonneg=True)) + 1
    if env and 'SUM<' not in p.skey:
        q = subst(p, env)
        if q.isconst() or q.isnonneg() or (-q).isnonneg():
            return _sign_const(q)
    return None


def upper(p, depth=0, budget=None):
    """list of candidate upper bounds (Polys without index symbols)"""
    if budget is None:
        budget = [60]
    idx = _idx_syms(p)
    if not idx or depth > 8 or budget[0] <= 0:
        return [p]
    out = []
    # eliminate symbols no other range depends on first
    for a in idx:
        if a.kind == 'sym':
            dep = False
            for b in idx:
                if b is not a:
                    lo, hi = _bounds(b)
                    if a.name in lo.free or (hi is not None and a.name in hi.free):
                        dep = True
                    if b.kind == 'sel' and a.name in b.free:
                        dep = True
            if dep:
                continue
        s = _split(p, a)
        if s is None:
            continue
        c, r = s
        lo, hi = _bounds(a)
        budget[0] -= 1
        sc = None
        for cc in ([c] if not _idx_syms(c) else upper(c) ):
            pass
        sc = sign(c)
        if sc in ('>', '+', '0'):
            if hi is None:
                continue
            out += upper(r + c * (hi - 1), depth + 1, budget)
        elif sc in ('<', '-'):
            out += upper(r + c * lo, depth + 1, budget)
        else:
            continue
        if out and len(out) > 3:
            break
    return out


_sign_memo = {}


def sign(p):
    """certain sign of p using index ranges"""
    s = _sign_const(p)
    if s is not None:
        return s
    if not _idx_syms(p):
        return None
    for u in upper(p):
        s = _sign_const(u)
        if s in ('<',):
            return '<'
        if s in ('-', '0'):
            return '-'
    for u in upper(-p):
        s = _sign_const(u)
        if s in ('<',):
            return '>'
        if s in ('-', '0'):
            return '+'
    return None


def quick(b):
    """True/False/None for an atomic boolean lt/eq by bounds or known facts"""
    if b.op == 'const':
        return b.a
    k = b.skey
    v = CTX.fact_keys.get(k)
    if v is not None:
        return v
    r = CTX.cache.get(k, 0)
    if r != 0:
        return r
    if DEPTH[0] > 4:
        return None              # asked while deciding others: unknown, not remembered
    DEPTH[0] += 1
    try:
        r = _quick(b)
    finally:
        DEPTH[0] -= 1
    CTX.cache[k] = r
    return r


DEPTH = [0]


def _quick(b):
    if b.op == 'not':
        r = quick(b.a)
        return None if r is None else not r
    if b.op in ('and', 'or'):
        rs = [quick(x) for x in b.a]
        if b.op == 'and':
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if b.op not in ('lt', 'eq'):
        return None
    p = b.a
    if not p.isreal():
        return None
    s = sign(p)
    if b.op == 'lt':
        if s == '<':
            return True
        if s in ('>', '+', '0'):
            return False
        # linear combination with a single fact  f: q<0 true/false
        for f, val in list(CTX.fact_keys.items()):
            pass
    else:
        if s in ('<', '>'):
            return False
        if s == '0':
            return True
    # single-fact strengthening: p < 0 follows from q < 0 if p - q <= 0 etc.
    for f in CTX.facts:
        fb, neg = (f.a, True) if f.op == 'not' else (f, False)
        if fb.op not in ('lt', 'eq') or not (fb.a.free & p.free or not fb.a.free):
            continue
        q = fb.a
        if fb.op == 'lt' and not neg:      # q < 0
            if b.op == 'lt':
                if sign(p - q) in ('<', '-', '0'):
                    return True
                if sign(p + q) in ('>', '+', '0'):   # p >= -q > 0
                    return False
            elif sign(p - q) in ('<', '-', '0') or sign(p + q) in ('>', '+', '0'):
                return False
        elif fb.op == 'lt' and neg:        # q >= 0
            if b.op == 'lt':
                if sign(p - q) in ('>', '+', '0'):
                    return False
                if sign(p + q) == '<':
                    return True
            elif sign(p - q) == '>' or sign(p + q) == '<':
                return False
        elif fb.op == 'eq' and not neg:
            if b.op == 'lt':
                for w in (p - q, p + q):
                    s = sign(w)
                    if s == '<':
                        return True
                    if s in ('>', '+', '0'):
                        return False
            else:
                for w in (p - q, p + q):
                    s = sign(w)
                    if s == '0':
                        return True
                    if s in ('<', '>'):
                        return False
    return None


def _bracket(b):
    r = quick(b)
    if r is None and CTX.use_z3:
        r = decide_z3(b, timeout=CTX.use_z3 if CTX.use_z3 is not True else 300)
        CTX.cache[b.skey] = r
    if r is None:
        return None
    return const(1 if r else 0)


T._bracket_hook[0] = _bracket


def _nonneg(h):
    return sign(h) in ('>', '+', '0')


T._nonneg_hook[0] = _nonneg


def _sum_simp(binders, dep):
    """sum with a bracket that only limits a binder's range:  sum_{b<h} [b < k] f"""
    names = {b for b, _ in binders}
    for a, e in dep:
        if a.kind != 'br' or a.op != 'lt':
            continue
        for b, h in binders:
            if b not in a.free:
                continue
            if any(b in h2.free for _, h2 in binders):
                continue
            others = names - {b}
            c = a.p.t.get(((_symof(b), 1),))
            if c is None or abs(c) != 1:
                continue
            s = _split(a.p, _symof(b))
            if s is None or not s[0].isconst():
                continue
            r = s[1]
            if not r.isint():
                continue
            if r.free & others:
                continue
            rest = Poly({tuple(x for x in dep if x[0] != a): Fr(1)})
            if c == 1:
                # [b + r < 0]  => b < -r  ; new hi = min(h, -r)
                k = -r
                if sign(h - k) in ('>', '+', '0'):
                    newhi, lo = k, ZERO
                else:
                    continue
            else:
                # [-b + r < 0] => b > r => b >= r+1
                k = r + 1
                if sign(k) in ('>', '+', '0') and sign(h - k) in ('>', '+', '0'):
                    newhi, lo = h, k
                elif sign(k) in ('<', '-', '0'):
                    newhi, lo = h, ZERO
                else:
                    continue
            body = rest
            for b2, h2 in binders:
                if b2 != b:
                    body = mk_sum(b2, 0, h2, body)
            if not lo.t:
                return mk_sum(b, 0, newhi, body)
            # sum_{lo<=b<h} f : keep as difference of prefix sums (canonical)
            return mk_sum(b, 0, newhi, body) - mk_sum(b, 0, lo, body)
    return None


def _symof(name):
    lo = RANGES.get(name, (ZERO, None))[0]
    return Sym(name, 'int', nonneg=lo.isnonneg())


T._sum_bracket_hook[0] = _sum_simp


# ------------------------------------------------------------- integer division
def _divmod(p, q):
    """p = k*q + r with 0 <= r < q provable -> (k, r)"""
    if q.isconst() and p.isconst():
        c, d = p.cval(), q.cval()
        if c.denominator == 1 and d.denominator == 1 and d != 0:
            return const(c // d), const(c - d * (c // d))
    if len(q.t) != 1:
        return None
    (qm, qc), = q.t.items()
    k, r = {}, {}
    qd = dict(qm)
    for m, c in p.t.items():
        d = dict(m)
        ok = c.denominator == 1 and qc.denominator == 1
        if ok:
            for a, e in qd.items():
                if d.get(a, 0) < e or d[a].__class__ is not int:
                    ok = False
                    break
        if ok:      # the quotient has to be an integer
            ok = all(a.sort == 'int' and (e - qd.get(a, 0)).__class__ is int and e >= qd.get(a, 0)
                     for a, e in d.items() if e != qd.get(a, 0))
        if ok:
            # divide what can be divided
            kk = int(c) // int(qc)
            rem = int(c) - kk * int(qc)
            if kk:
                dd = {a: e - qd.get(a, 0) for a, e in d.items()}
                mm = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda x: x[0].skey))
                k[mm] = Fr(kk)
            if rem:
                r[m] = Fr(rem)
        else:
            r[m] = c
    k, r = Poly(k), Poly(r)
    for dk in (0, 1, -1):
        rr = r - q * dk
        if sign(rr) in ('>', '+', '0') and sign(rr - q) == '<':
            return k + dk, rr
    return None


def idiv(p, q):
    p, q = P(p), P(q)
    if q == 1:
        return p
    r = _divmod(p, q)
    if r is not None:
        return r[0]
    if p.isint() and q.isint():
        return Poly.atom(T.Fn('idiv', (p, q), 'int', nonneg=sign(p) in ('>', '+', '0') and sign(q) == '>'))
    return Poly.atom(T.Fn('floor', (p / q,), 'int'))


def imod(p, q):
    p, q = P(p), P(q)
    r = _divmod(p, q)
    if r is not None:
        return r[1]
    if p.isint() and q.isint():
        return Poly.atom(T.Fn('imod', (p, q), 'int', nonneg=sign(q) == '>'))
    return p - q * Poly.atom(T.Fn('floor', (p / q,), 'int'))


T.FN_SIMP['idiv'] = idiv
T.FN_SIMP['imod'] = imod


def floor(p):
    if p.isint():
        return p
    ip = {m: c for m, c in p.t.items() if c.denominator == 1 and all(
        a.sort == 'int' and e.__class__ is int and e > 0 for a, e in m)}
    rest = Poly({m: c for m, c in p.t.items() if m not in ip})
    ip = Poly(ip)
    if rest.isconst():
        import math
        return ip + math.floor(rest.cval())
    return ip + Poly.atom(T.Fn('floor', (rest,), 'int'))


def ceil(p):
    return -floor(-p)


T.FN_SIMP['floor'] = floor


def rint(p):
    if p.isint():
        return p
    if p.isconst():
        return const(round(p.cval()))
    if p.t:
        lead = max(p.t, key=T.mkey)
        if p.t[lead] < 0:
            return -rint(-p)
    return Poly.atom(T.Fn('rint', (p,), 'int'))


T.FN_SIMP['rint'] = rint


# ------------------------------------------------------------- z3
class Z3Tr:
    def __init__(self):
        self.vars = {}
        self.side = []
        self.memo = {}
        self.seen_rng = set()

    def var(self, key, isint):
        v = self.vars.get(key)
        if v is None:
            v = z3.Int(key) if isint else z3.Real(key)
            self.vars[key] = v
        return v

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        terms = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                if e == 1:
                    fs.append(x)
                elif e.__class__ is int and e > 0:
                    fs.extend([x] * e)
                else:
                    fs.append(self.power(a, x, e))
            if c != 1 or not fs:
                fs.append(z3.IntVal(int(c)) if c.denominator == 1 and all(z3.is_int(f) for f in fs)
                          else z3.RealVal(str(c)))
            if any(z3.is_real(f) for f in fs):
                fs = [z3.ToReal(f) if z3.is_int(f) else f for f in fs]
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            r = z3.IntVal(0)
        else:
            if any(z3.is_real(f) for f in terms):
                terms = [z3.ToReal(f) if z3.is_int(f) else f for f in terms]
            r = z3.Sum(terms) if len(terms) > 1 else terms[0]
        self.memo[p] = r
        return r

    def power(self, a, x, e):
        key = '%s^%s' % (a.skey, e)
        if key in self.vars:
            return self.vars[key]
        v = z3.Real(key)
        self.vars[key] = v
        xr = z3.ToReal(x) if z3.is_int(x) else x
        e = Fr(e)
        if e.denominator == 1 and e < 0:
            y = xr
            for _ in range(-int(e) - 1):
                y = y * xr
            self.side.append(z3.Implies(xr != 0, v * y == 1))
            if a.pos:
                self.side.append(v > 0)
        elif e == Fr(1, 2):
            self.side.append(v >= 0)
            self.side.append(z3.Implies(xr >= 0, v * v == xr))
        elif e == Fr(-1, 2):
            self.side.append(v >= 0)
            self.side.append(z3.Implies(xr > 0, z3.And(v > 0, v * v * xr == 1)))
        elif a.pos or a.nonneg:
            self.side.append(v >= 0)
        return v

    def atom(self, a):
        k = a.kind
        if k == 'br':
            return z3.If(self.cmp(a.op, a.p), z3.IntVal(1), z3.IntVal(0))
        if k == 'pw':
            return self.poly(a.p)
        key = a.skey
        if key in self.vars:
            return self.vars[key]
        v = self.var(key, a.sort == 'int')
        if a.pos:
            self.side.append(v > 0)
        elif a.nonneg:
            self.side.append(v >= 0)
        if k == 'sym' and a.name in RANGES:
            lo, hi = RANGES[a.name]
            self.side.append(v >= self.poly(lo))
            if hi is not None:
                self.side.append(v < self.poly(hi))
        elif k == 'sel':
            if a.decl.rng is not None:
                lo, hi = _bounds(a)
                self.side.append(v >= self.poly(lo))
                if hi is not None:
                    self.side.append(v < self.poly(hi))
            if a.decl.facts is not None:
                for b in a.decl.facts(*a.args):
                    self.side.append(self.b(b))
        elif k == 'fn':
            if a.name == 'abs':
                x = self.poly(a.args[0])
                self.side.append(v == z3.If(x >= 0, x, -x))
            elif a.name == 'idiv' or a.name == 'imod':
                x, y = self.poly(a.args[0]), self.poly(a.args[1])
                if z3.is_int(x) and z3.is_int(y):
                    q = self.var('idiv(' + a.args[0].skey + ',' + a.args[1].skey + ')', True)
                    r = self.var('imod(' + a.args[0].skey + ',' + a.args[1].skey + ')', True)
                    self.side.append(z3.Implies(y > 0, z3.And(x == q * y + r, r >= 0, r < y)))
            elif a.name == 'floor':
                x = self.poly(a.args[0])
                xr = z3.ToReal(x) if z3.is_int(x) else x
                self.side.append(z3.And(z3.ToReal(v) <= xr, xr < z3.ToReal(v) + 1))
            elif a.name == 'rint':
                x = self.poly(a.args[0])
                xr = z3.ToReal(x) if z3.is_int(x) else x
                h = z3.RealVal('1/2')
                self.side.append(z3.And(z3.ToReal(v) - xr <= h, xr - z3.ToReal(v) <= h))
            elif a.name in ('max', 'min'):
                xs = [self.poly(x) for x in a.args]
                if any(z3.is_real(x) for x in xs) or z3.is_real(v):
                    xs = [z3.ToReal(x) if z3.is_int(x) else x for x in xs]
                if z3.is_int(v) == z3.is_int(xs[0]):
                    self.side.append(z3.Or([v == x for x in xs]))
                    for x in xs:
                        self.side.append(v >= x if a.name == 'max' else v <= x)
            elif a.name in ('sqrt',):
                pass
        elif k == 'prime':
            pass
        return v

    def cmp(self, op, p):
        x = self.poly(p)
        if op == 'b':
            return x != 0
        return x < 0 if op == 'lt' else x == 0

    def b(self, b):
        if b.op == 'const':
            return z3.BoolVal(bool(b.a))
        if b.op in ('lt', 'eq'):
            return self.cmp(b.op, b.a)
        if b.op == 'b':
            p = b.a if isinstance(b.a, Poly) else Poly.atom(b.a)
            return self.poly(p) != 0
        if b.op == 'not':
            return z3.Not(self.b(b.a))
        xs = [self.b(x) for x in b.a]
        return z3.And(xs) if b.op == 'and' else z3.Or(xs)


def _relevant_facts(b):
    """facts transitively sharing symbols with b"""
    names = set(b.free)
    facts = list(CTX.facts)
    out = []
    changed = True
    while changed:
        changed = False
        for f in facts[:]:
            if not f.free or f.free & names:
                out.append(f)
                facts.remove(f)
                names |= f.free
                changed = True
    return out


def check_valid(b, timeout=2000, extra=()):
    """z3: do the facts imply b?  True / False(=not proved)"""
    b = T.asB(b)
    if b.op == 'const':
        if b.a:
            return True
    t0 = time.time()
    STATS.z3_calls += 1
    old = CTX.use_z3
    CTX.use_z3 = False
    try:
        tr = Z3Tr()
        s = z3.Solver()
        s.set('timeout', int(timeout))
        goal = tr.b(b)
        fs = [tr.b(f) for f in (_relevant_facts(b) if b.op != 'const' else CTX.facts)] + [tr.b(f) for f in extra]
        for x in fs:
            s.add(x)
        s.add(z3.Not(goal))
        n = 0
        for x in tr.side:
            s.add(x)
        # (tr.side may contain range facts mentioning further atoms; they were translated eagerly)
        r = s.check()
        return r == z3.unsat
    except z3.Z3Exception as e:
        return False
    finally:
        CTX.use_z3 = old
        STATS.z3_time += time.time() - t0


def decide_z3(b, timeout=300):
    if b.op in ('lt', 'eq') and not b.a.isreal():
        return None
    if check_valid(b, timeout):
        return True
    if check_valid(bnot(b), timeout):
        return False
    return None


def prove(b, timeout=4000):
    b = T.asB(b)
    if b.op == 'const':
        return bool(b.a) or (bool(CTX.facts) and check_valid(b, timeout))
    if b.op == 'and':
        return all(prove(x, timeout) for x in b.a)
    r = quick(b)
    if r is not None:
        if r:
            return True
    return check_valid(b, timeout)


def decide(b, timeout=1000):
    """True / False / None"""
    b = T.asB(b)
    if b.op == 'const':
        return bool(b.a)
    r = quick(b)
    if r is not None:
        return r
    r = decide_z3(b, timeout)
    if r is None and SHORT_SUM(b.skey):
        u = unrolled(b)
        if u != b and 'SUM<' not in u.skey:
            return decide(u, timeout)
    return r


SHORT_SUM = re.compile(r':[123][,|]').search


def unrolled(b):
    """sums over three or fewer terms written out"""
    if b.op in ('lt', 'eq'):
        p = T.unroll(b.a, 3)
        return T.blt(p, 0) if b.op == 'lt' else T.beq(p, 0)
    if b.op == 'not':
        return T.bnot(unrolled(b.a))
    if b.op == 'and':
        return T.band(*[unrolled(x) for x in b.a])
    if b.op == 'or':
        return T.bor(*[unrolled(x) for x in b.a])
    return b


def infeasible(timeout=1000):
    """are the facts contradictory?"""
    if check_valid(FALSE, timeout):
        return True
    extra = [u for u in (unrolled(f) for f in CTX.facts if SHORT_SUM(f.skey)) if 'SUM<' not in u.skey]
    if not extra:
        return False
    with assuming(*extra):
        return check_valid(FALSE, timeout)


# ------------------------------------------------------------- equality
def simplify(p, z3too=False):
    """re-normalise under the current context"""
    memo = {}

    def go(q):
        r = ZERO
        for m, c in q.t.items():
            out = const(c)
            plain = {}
            for a, e in m:
                if a.kind in ('sym', 'I', 'prime'):
                    plain[a] = e
                    continue
                x = memo.get(a)
                if x is None:
                    x = T.rebuild(a, go)
                    memo[a] = x
                out = out * (x if e == 1 else x.power(e))
            if plain:
                co, mm, ex = T.norm_mono(plain)
                out = out * Poly({mm: co})
                if ex is not None:
                    out = out * ex
            r = r + out
        return r
    old = CTX.use_z3
    CTX.use_z3 = z3too
    try:
        return go(p)
    finally:
        CTX.use_z3 = old


def _brs(p, bound=False):
    """bracket atoms of p not mentioning sum binders"""
    out = {}
    for a in T.atoms_of(p):
        if a.kind == 'br' and not any(n.startswith('%') for n in a.free):
            out[a.skey] = a
    return list(out.values())


def _clear_denominators(p):
    """multiply by the negative powers occurring (assumed non-zero)"""
    for _ in range(12):
        den = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    if a not in den or e < den[a]:
                        den[a] = e
        if not den:
            return p
        r = {}
        ext = ZERO
        for m, c in p.t.items():
            d = dict(m)
            for a, e in den.items():
                d[a] = d.get(a, 0) - e
            co, mm, ex = T.norm_mono(d)
            if ex is None:
                T._acc(r, mm, c * co)
            else:
                ext = ext + Poly({mm: c * co}) * ex
        p = Poly(r) + ext
    return p


def substB(b, env):
    if b.op == 'const':
        return b
    if b.op == 'lt':
        return blt(subst(b.a, env), 0)
    if b.op == 'eq':
        return beq(subst(b.a, env), 0)
    if b.op == 'b':
        q = subst(b.a if isinstance(b.a, Poly) else Poly.atom(b.a), env)
        return T.asB(q) if q.isconst() else B('b', q)
    if b.op == 'not':
        return bnot(substB(b.a, env))
    return (band if b.op == 'and' else bor)(*[substB(x, env) for x in b.a])


class Budget(Exception):
    pass


def _subst_eqs(p):
    """use equality facts  x == q  (x symbol) as substitutions"""
    env = {}
    for f in CTX.facts:
        if f.op == 'eq':
            for m, c in f.a.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym':
                    a = m[0][0]
                    rest = Poly({k: v for k, v in f.a.t.items() if k != m})
                    if a.name not in rest.free and a.name not in env \
                            and not (rest.free & env.keys()):
                        sol = rest.scale(-1 / c)
                        if a.sort == 'int' and not sol.isint():
                            continue
                        env[a.name] = sol
                        break
    return subst(p, env) if env else p


EQ_TIME = [20.0]


def prove_zero(p, level=0, deadline=None):
    """is p identically zero under the context?"""
    if deadline is None:
        deadline = time.time() + EQ_TIME[0]
    if not p.t:
        STATS.normal_form += 1
        return True
    if time.time() > deadline:
        return False
    q = _subst_eqs(p)
    if not q.t:
        return True
    # generic indices over small constant ranges that are compared: one case per value
    inst = None
    for a in _brs(q):
        for nme in sorted(a.free):
            lo_hi = RANGES.get(nme)
            if lo_hi and nme in q.free and lo_hi[1] is not None and lo_hi[0].isconst() and lo_hi[1].isconst() \
                    and lo_hi[1].cval() - lo_hi[0].cval() <= 6:
                inst = (nme, int(lo_hi[0].cval()), int(lo_hi[1].cval()))
                break
        if inst:
            break
    if inst:
        for v in range(inst[1], inst[2]):
            STATS.cases += 1
            sub = {inst[0]: const(v)}
            with assuming(*[substB(f, sub) for f in CTX.facts if inst[0] in f.free]):
                if not prove_zero(subst(q, sub), level, deadline):
                    return False
        return True
    q = T.unroll(q, 3) if level == 0 else simplify(q)
    if not q.t:
        return True
    q = _clear_denominators(q)
    if not q.t:
        return True
    # case split on a top-level bracket
    brs = _brs(q)
    if brs and level < 10:
        cnt = {}
        for m in q.t:
            for a, e in m:
                if a.kind == 'br':
                    cnt[a.skey] = cnt.get(a.skey, 0) + 1
        a = max(brs, key=lambda x: (cnt.get(x.skey, 0), x.skey))
        b = B(a.op, a.p) if a.op in ('lt', 'eq') else B('b', a.p)
        ok = True
        for case in (b, bnot(b)):
            STATS.cases += 1
            with assuming(case):
                if infeasible(500):
                    continue
                if not prove_zero(q, level + 1, deadline):
                    ok = False
                    break
        return ok
    if any(a.kind == 'sum' and len(a.binders) > 1 for m in q.t for a, _ in m):
        q2 = collapse_blocks(q)
        if q2 is not None:
            return prove_zero(q2, level + 1, deadline)
    # congruence on sums with the same ranges
    if any(a.kind == 'sum' for m in q.t for a, _ in m):
        if _sum_congruence(q, level, deadline):
            return True
    if q.isreal() and level <= 10:
        # non-linear real arithmetic on the remaining atoms (abs, roots, ...)
        if any(a.kind == 'fn' or a.kind == 'pw' or (a.kind == 'prime') or e.__class__ is not int or e < 0
               for m in q.t for a, e in m):
            r = check_valid(beq(q, 0), 2000)
            if r:
                STATS.by_z3 += 1
                return True
    q2 = simplify(q, z3too=True)
    if q2 != q:
        return prove_zero(q2, level + 1, deadline)
    if level < 50:
        q2 = T.unroll(q, 12)
        if q2 != q:
            return prove_zero(q2, level + 1, deadline)
    # last resort: generic indices over small constant ranges, one case per value
    for nme in sorted(q.free):
        lo_hi = RANGES.get(nme)
        if lo_hi and lo_hi[1] is not None and lo_hi[0].isconst() and lo_hi[1].isconst() \
                and lo_hi[1].cval() - lo_hi[0].cval() <= 3:
            for v in range(int(lo_hi[0].cval()), int(lo_hi[1].cval())):
                STATS.cases += 1
                sub = {nme: const(v)}
                with assuming(*[substB(f, sub) for f in CTX.facts if nme in f.free]):
                    if not prove_zero(subst(q, sub), level, deadline):
                        return False
            return True
    return False


def _tiling(c, K, R, C):
    """N such that the blocks [c*C, c*C + R(c)), 0 <= c < K, tile [0, N); None if not shown"""
    parts = T.split_brackets(R) or [(const(1), R)]
    cp = P(index_of_name(c, K))
    cands = []
    for _, x in parts:
        N = x + C * cp
        if c not in N.free and N not in cands:
            cands.append(N)
    last = subst(R, {c: K - 1})
    for N in cands:
        with assuming(bgt(K, 0)):
            if not prove(beq(last + (K - 1) * C, N), 3000) or not prove(bge(last, 0), 3000):
                continue
        if not prove(bor(bgt(K, 0), beq(N, 0)), 3000):
            continue
        with assuming(bge(cp, 0), blt(cp, K - 1)):
            if not prove(beq(R, C), 3000):
                continue
        return N
    return None


def index_of_name(n, hi):
    RANGES.setdefault(n, (const(0), P(hi)))
    return T.Sym(n, 'int', nonneg=True)


def collapse_blocks(q):
    """sum_{c<K} sum_{j<R(c)} f(c*C + j)  ->  sum_{i<N} f(i) where the blocks tile [0, N)"""
    out = ZERO
    hit = False
    for m, co in q.t.items():
        new = None
        for a, e in m:
            if a.kind != 'sum' or len(a.binders) < 2 or e.__class__ is not int or e < 0:
                continue
            bs, body = T.open_sum(a)
            for i, (c, K) in enumerate(bs):
                if not (body.free & {c}) or any(K.free & {b for b, _ in bs}):
                    continue
                deps = [j for j, (b, h) in enumerate(bs) if c in h.free]
                if len(deps) > 1:
                    continue
                for j in (deps or [j for j in range(len(bs)) if j != i]):
                    b, R = bs[j]
                    if R.free & ({x for x, _ in bs} - {c}):
                        continue
                    for C in _strides(body, c, b):
                        nm, y = T.fresh_index(const(0))
                        nb = subst(body, {b: y - C * P(index_of_name(c, K))})
                        if c in nb.free:
                            continue
                        N = _tiling(c, K, R, C)
                        if N is None:
                            continue
                        STATS.cases += 1
                        rest = [x for k, x in enumerate(bs) if k not in (i, j)]
                        r = nb
                        for x, h in reversed(rest):
                            r = mk_sum(x, 0, h, r)
                        RANGES[nm] = (const(0), N)
                        new = Poly({tuple(z for z in m if z[0] is not a): co}) * mk_sum(nm, 0, N, r).power(e)
                        break
                    if new is not None:
                        break
                if new is not None:
                    break
            if new is not None:
                break
        if new is None:
            out = out + Poly({m: co})
        else:
            out = out + new
            hit = True
    return out if hit else None


def _strides(body, c, b):
    """candidate block sizes: ratio of the coefficients of c and b in array indices"""
    res = []
    for a in T.atoms_of(body):
        if a.kind == 'sel':
            for x in a.args:
                if c in x.free and b in x.free:
                    cc = cb = None
                    for m, co in x.t.items():
                        if len(m) >= 1 and any(z.kind == 'sym' and z.name == b for z, _ in m):
                            cb = Poly({tuple(y for y in m if not (y[0].kind == 'sym' and y[0].name == b)): co})
                        elif any(z.kind == 'sym' and z.name == c for z, _ in m):
                            cc = Poly({tuple(y for y in m if not (y[0].kind == 'sym' and y[0].name == c)): co})
                    if cc is not None and cb is not None and cb == const(1) and cc not in res:
                        res.append(cc)
    return res


def _sum_congruence(q, level, deadline):
    """combine  c1*S1 + c2*S2 ...  over sums with the same single outer range and prove the
    combined body zero for a generic index"""
    groups = {}
    rest = {}
    for m, c in q.t.items():
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if len(ss) != 1 or ss[0][1] != 1:
            rest[m] = c
            continue
        a = ss[0][0]
        other = Poly({tuple(x for x in m if x[0] != a): c})
        # outermost binder: one whose range mentions no other binder
        names = {b for b, _ in a.binders}
        groups.setdefault('x', []).append((a, other))
    if rest:
        return False
    items = groups.get('x', [])
    # choose a binder range common to all
    ranges = None
    for a, _ in items:
        names = {b for b, _ in a.binders}
        rs = {h.skey for b, h in a.binders if not (h.free & names)}
        ranges = rs if ranges is None else ranges & rs
    for rk in sorted(ranges or ()):
        choices = []
        for a, other in items:
            cs = [i for i, (b, h) in enumerate(a.binders) if h.skey == rk]
            choices.append(cs)
        tot = 1
        for c in choices:
            tot *= len(c)
        if tot > 64:
            choices = [c[:1] for c in choices]
        for pick in itertools.product(*choices):
            if time.time() > deadline:
                return False
            hi = None
            body = ZERO
            n = s = None
            for (a, other), i in zip(items, pick):
                bs, bd = T.open_sum(a)
                if n is None:
                    hi = bs[i][1]
                    n, s = T.fresh_index(hi)
                bd = subst(bd, {bs[i][0]: s})
                for j in range(len(bs) - 1, -1, -1):
                    if j != i:
                        bd = mk_sum(bs[j][0], 0, subst(bs[j][1], {bs[i][0]: s}), bd)
                body = body + other * bd
            body = simplify(body)
            if not body.t:
                return True
            if level < 6 and prove_zero(body, level + 2, deadline):
                return True
    return False


# ------------------------------------------------------------- numeric refutation
class Sampler:
    """random interpretation of symbols and arrays respecting ranges and facts"""

    def __init__(self, seed=0, sizes=None, fns=None):
        self.r = random.Random(seed)
        self.seed = seed
        self.env = T.NumEnv(fns=fns)
        self.sizes = sizes or {}
        self.cache = {}
        self.env.syms = _LazySyms(self)
        self.env.arrays = {}
        self.env.sel = self.sel

    def sel(self, a, args):
        key = (a.name, args)
        if key in self.cache:
            return self.cache[key]
        d = a.decl
        if d.define is not None:
            v = self.env.ev(d.define(*[const(x) for x in args]))
            self.cache[key] = v
            return v
        rr = random.Random('%s|%s|%s' % (self.seed, a.name, args))
        if d.inv is not None:
            h = int(T._re(self.env.ev(P(d.rng[1]))))
            base = a.name[:-4] if a.name.endswith('_inv') else a.name
            pm = list(range(h))
            random.Random('%s|%s|%s' % (self.seed, base, args[:-1])).shuffle(pm)
            i = int(args[-1])
            if not 0 <= i < h:
                raise Skip('out of range')
            v = pm.index(i) if a.name.endswith('_inv') else pm[i]
            self.cache[key] = v
            return v
        if d.sort == 'int':
            lo, hi = 0, 3
            if d.rng is not None:
                l, h = d.rng
                pa = [const(x) for x in args]
                l = l(*pa) if callable(l) else P(l)
                lo = int(T._re(self.env.ev(l)))
                if h is not None:
                    h = h(*pa) if callable(h) else P(h)
                    hi = int(T._re(self.env.ev(h)))
                else:
                    hi = lo + 3
            if hi <= lo:
                raise Skip('empty range')
            v = rr.randrange(lo, hi)
        elif d.sort == 'complex':
            v = complex(rr.uniform(-1, 1), rr.uniform(-1, 1))
        else:
            v = rr.uniform(-1.5, 1.5)
            if d.pos or d.nonneg:
                v = abs(v) + 0.1
            if d.mono:
                v = (0.2 * v if not d.pos else 0.2 * v) + args[-1] * 0.7 - (0 if d.pos else 1)
        self.cache[key] = v
        return v

    def symval(self, a_name):
        raise NotImplementedError


class Skip(Exception):
    pass


class _LazySyms(dict):
    def __init__(self, s):
        super().__init__()
        self.s = s


def sample_env(p, seed, fixed=None):
    """NumEnv with random values for all symbols of p; facts must hold (else None)"""
    S = Sampler(seed)
    syms = {}
    todo = set()

    def collect(q):
        for a in T.atoms_of(q):
            if a.kind == 'sym':
                todo.add(a)
            if a.kind == 'sel':
                if a.decl.rng is not None:
                    pass
    collect(p)
    for f in CTX.facts:
        for q in _bpolys(f):
            collect(q)
    rr = random.Random('s%s' % seed)
    order = sorted((a for a in todo if a.name not in ('pi', 'INF', 'NAN') and not a.name.startswith('%')),
                   key=lambda a: (a.name in RANGES, a.name))
    S.env.syms = syms
    fixed = fixed or {}
    pend = list(order)
    guard = 0
    while pend:
        guard += 1
        if guard > 2000:
            return None
        a = pend.pop(0)
        if a.name in syms:
            continue
        if a.name in fixed:
            syms[a.name] = fixed[a.name](rr) if callable(fixed[a.name]) else fixed[a.name]
            continue
        if a.name in RANGES:
            lo, hi = RANGES[a.name]
            need = [n for n in (lo.free | (hi.free if hi is not None else frozenset())) if n not in syms and n != 'pi']
            if need:
                for n in need:
                    pend.insert(0, T.Sym(n, 'int', nonneg=True) if n not in {x.name for x in todo} else
                                next(x for x in todo if x.name == n))
                pend.append(a)
                continue
            l = int(T._re(S.env.ev(lo)))
            h = int(T._re(S.env.ev(hi))) if hi is not None else l + 4
            if h <= l:
                return None
            syms[a.name] = rr.randrange(l, h)
        elif a.sort == 'int':
            syms[a.name] = rr.randrange(1, 4) if a.pos or a.nonneg else rr.randrange(-2, 4)
        elif a.sort == 'complex':
            syms[a.name] = complex(rr.uniform(-1, 1), rr.uniform(-1, 1))
        else:
            v = rr.uniform(-1.5, 1.5)
            if a.pos or a.nonneg:
                v = abs(v) + 0.05
            syms[a.name] = v
    return S.env


def _bpolys(b):
    if b.op in ('lt', 'eq'):
        return [b.a]
    if b.op == 'b':
        return [b.a if isinstance(b.a, Poly) else Poly.atom(b.a)]
    if b.op == 'not':
        return _bpolys(b.a)
    if b.op in ('and', 'or'):
        return [q for x in b.a for q in _bpolys(x)]
    return []


def evalB(b, env):
    if b.op == 'const':
        return bool(b.a)
    if b.op == 'lt':
        return T._re(env.ev(b.a)) < 0
    if b.op == 'eq':
        x = env.ev(b.a)
        return abs(x) < 1e-9
    if b.op == 'b':
        return bool(env.ev(b.a if isinstance(b.a, Poly) else Poly.atom(b.a)))
    if b.op == 'not':
        return not evalB(b.a, env)
    if b.op == 'and':
        return all(evalB(x, env) for x in b.a)
    return any(evalB(x, env) for x in b.a)


def numeric_zero(p, tries=24, fixed=None, seed0=0, tol=1e-7):
    """sampled evaluation of p under the facts: ('zero', n) / ('nonzero', assignment) / ('none', 0)"""
    n = 0
    for k in range(tries):
        try:
            env = sample_env(p, seed0 + k, fixed)
            if env is None:
                continue
            if not all(evalB(f, env) for f in CTX.facts):
                continue
            tot = env.ev(p)
            scale = 0
            for m, c in p.t.items():
                scale = max(scale, abs(env.ev(Poly({m: c}))))
            n += 1
            if abs(tot) > tol * max(1.0, scale):
                return 'nonzero', {k2: v for k2, v in env.syms.items()}
        except (ZeroDivisionError, OverflowError, KeyError, Skip, Unsupported, ValueError, TypeError):
            continue
        if n >= 6:
            break
    return ('zero', n) if n else ('none', 0)
