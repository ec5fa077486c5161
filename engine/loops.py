"""Loop summaries: a loop over a generic index is turned into closed forms by solving the
recurrences its body induces (the induction principle is applied once per rule here; the base
and step of every instance are checked by the prover when VERIFY is on)."""
import itertools
from fractions import Fraction as Fr

from . import term as T
from . import solver as S
from .term import (Poly, P, B, const, ZERO, Unsupported, subst, mk_sum, fresh_index, beq, blt, bnot)

VERIFY = [True]
LOG = []
_any = itertools.count()


def subst_sel(p, table, memo=None):
    """replace scalars/array elements by definitions: table name -> Poly | callable(*args)"""
    if memo is None:
        memo = {}
    names = table.keys()

    def go(q):
        r = ZERO
        keep = {}
        for m, c in q.t.items():
            out = const(c)
            plain = {}
            for a, e in m:
                if a.kind in ('I', 'prime'):
                    plain[a] = e
                    continue
                x = memo.get(a)
                if x is None:
                    x = do(a)
                    memo[a] = x
                out = out * (x if e == 1 else x.power(e))
            if plain:
                co, mm, ex = T.norm_mono(plain)
                out = out * Poly({mm: co})
                if ex is not None:
                    out = out * ex
            r = r + out
        return r

    def do(a):
        if a.kind == 'sym':
            d = table.get(a.name)
            return P(d) if d is not None else Poly.atom(a)
        if a.kind == 'sel':
            args = tuple(go(x) for x in a.args)
            d = table.get(a.name)
            if d is not None:
                return P(d(*args))
            return T.mksel(a.decl, args)
        return T.rebuild(a, go)
    if not mentions(p, names):
        return p
    return go(p)


def mentions(p, names):
    names = set(names)
    return names & {a.name for a in T.atoms_of(p) if a.kind in ('sym', 'sel')}


class Var:
    """one state component of a loop: `pre` its value before an iteration (fresh name), `post`
    after one, as terms over its index symbols"""

    def __init__(self, key, pre_name, idx, init, post, sort):
        self.key = key
        self.pre = pre_name
        self.idx = idx            # names of index symbols ([] for scalars)
        self.init = init          # Poly over idx
        self.post = post          # Poly over idx, k, pre names
        self.closed = None        # function(kPoly) -> Poly over idx
        self.sort = sort
        self.temp = False


def solve(vs, k, n, verify=None):
    """vs: list of Var; k: loop index name (0 <= k < n).  Sets v.closed (value before iteration k)"""
    todo = list(vs)
    names = {v.pre for v in vs}
    table = {}
    kp = Poly.atom(T.Sym(k, 'int', nonneg=True))
    while todo:
        progress = False
        for v in todo:
            deps = mentions(v.post, names)
            unsolved = deps - set(table) - {v.pre}
            if unsolved:
                continue
            post = v.post
            if deps & set(table):
                post = subst_sel(post, {x: table[x] for x in deps if x in table})
            solve_one(v, post, k, kp, n)
            todo.remove(v)
            if v.closed is not None:
                def entry(*args, v=v):
                    c = v.closed(kp)
                    return subst(c, dict(zip(v.idx, args))) if v.idx else c
                table[v.pre] = entry if v.idx else v.closed(kp)
            progress = True
            break
        if not progress:
            # reads of one variable by another that see only what was there before the loop
            others = {v.pre: v for v in todo}
            for v in todo:
                new = undisturbed(v, v.post, k, kp, n, self_atom(v), others)
                if new is not v.post and new != v.post:
                    v.reduced = new
                    progress = True
            for v in todo:
                if getattr(v, 'reduced', None) is not None:
                    v.post, v.reduced = v.reduced, None
        if not progress:
            # a variable nobody else depends on but itself depends on temps: give up
            raise Unsupported('mutually recursive loop state: %s' % [v.key for v in todo])


def solve_one(v, post, k, kp, n):
    own = self_atom(v)
    if not mentions(post, [v.pre]):
        # temporary: overwritten in every iteration
        v.temp = True

        def closed(kk, post=post):
            kk = P(kk)
            first = beq(kk, 0)
            last = subst(post, {k: kk - 1})
            return T.ite(first, v.init, last) if v.init is not None else last
        v.closed = closed
        v.last = lambda kk, post=post: subst(post, {k: P(kk) - 1})
        return
    c = pointwise(v, post, k, kp)
    if c is not None:
        v.closed = c
        LOG.append(v.key)
        return
    if getattr(v.key, 'tag', None) == 'scratch':
        try:
            return linear(v, post, k, kp, n, own)
        except Unsupported:
            # memory of a local variable that some iterations leave as it was: any value
            arb = T.ArrDecl('any%d' % next(_any), 1 + len(v.idx) + len(post.free), 'real')
            fr = [Poly.atom(T.Sym(x, 'int', nonneg=True)) for x in sorted(post.free - {k} - set(v.idx)) if x.startswith('%') or x.startswith('k')]

            def closed(kk):
                kk = P(kk)
                return T.ite(beq(kk, 0), v.init, T.ArrDecl(arb.name, 1 + len(fr), 'real')(kk, *fr))
            v.closed = closed
            return
    return linear(v, post, k, kp, n, own)


def undisturbed(v, post, k, kp, n, own, others=None):
    """reads of other elements (or other variables) that no earlier iteration changes are reads of the initial values"""
    table = {v.pre: v}
    if others:
        table.update(others)

    def foreign(a):
        return (a.kind == 'sel' and a.name in table and table[a.name].idx and table[a.name].init is not None
                and len(a.args) == len(table[a.name].idx) and not is_own(a, own))
    if not any(foreign(a) for a in T.atoms_of(post)):
        return post
    changes = {}
    for a in T.atoms_of(post):
        if foreign(a) and a.name not in changes:
            u = table[a.name]
            me = T.mksel(a.decl, tuple(Poly.atom(T.Sym(x, 'int', nonneg=True)) for x in u.idx))
            changes[a.name] = u.post - me
    out = ZERO
    nm2, y2 = fresh_index(kp)
    memo = {}
    for m, c in post.t.items():
        t = Poly({m: c})
        other = [a for a in T.atoms_of(t) if foreign(a)]
        if not other:
            out = out + t
            continue
        guard = const(1)
        for a, e in m:
            if a.kind == 'br' and not mentions(a.p, table):
                guard = guard * Poly.atom(a)
        rep = {}
        for a in other:
            key = (a, guard)
            u = table[a.name]
            if key not in memo:
                d = subst(changes[a.name], dict(zip(u.idx, [P(x) for x in a.args]), **{k: y2}))
                memo[key] = not (d * guard).t or S.prove_zero(S.simplify(d * guard))
            if memo[key]:
                rep[a] = subst(u.init, dict(zip(u.idx, [P(x) for x in a.args])))
        out = out + (replace_atoms(t, rep) if rep else t)
    return out


def replace_atoms(p, table):
    def go(q):
        r = ZERO
        for m, c in q.t.items():
            o = const(c)
            for a, e in m:
                x = table[a] if a in table else Poly.atom(a) if a.kind in ('I', 'prime', 'sym') else T.rebuild(a, go)
                o = o * (x if e == 1 else x.power(e))
            r = r + o
        return r
    return go(p)


def linear(v, post, k, kp, n, own):
    post = undisturbed(v, post, k, kp, n, own)
    a, b = split_linear(post, own)
    if a is None or mentions(a, [v.pre]) or mentions(b, [v.pre]):
        raise Unsupported('non-linear or shifted recurrence for %s' % (v.key,))
    if v.init is None:
        raise Unsupported('loop state %s read before it is set' % (v.key,))
    if a == 1:
        def closed(kk):
            nm, y = fresh_index(kk)
            return v.init + mk_sum(nm, 0, kk, subst(b, {k: y}))
        v.closed = closed
    else:
        g = const(1) - a
        if k not in g.free:
            if not idem(g) or b * g != b:
                bb = b * g
                if not S.prove_zero(bb - b):
                    raise Unsupported('recurrence with constant factor for %s' % (v.key,))

            def closed(kk):
                kk = P(kk)
                return T.ite(beq(kk, 0), v.init, a * v.init + subst(b, {k: kk - 1}))
            v.closed = closed
        else:
            if not is01(g):
                if separate(v, a - const(1), b, k, kp, n):
                    return
                raise Unsupported('recurrence factor for %s: %s' % (v.key, str(post)[:600]))
            if b * g != b and not S.prove_zero(b * g - b):
                raise Unsupported('write outside its own region for %s' % (v.key,))
            nm2, y2 = fresh_index(n)
            g2 = subst(g, {k: y2})
            prod = g * g2
            disjoint = (not prod.t)
            if not disjoint:
                with S.assuming(bnot(beq(kp, y2))):
                    disjoint = S.prove_zero(S.simplify(prod))
            if not disjoint:
                raise Unsupported('overlapping writes for %s' % (v.key,))

            def closed(kk):
                nm, y = fresh_index(kk)
                gs = mk_sum(nm, 0, kk, subst(g, {k: y}))
                nm, y = fresh_index(kk)
                bs = mk_sum(nm, 0, kk, subst(b, {k: y}))
                return (const(1) - gs) * v.init + bs
            v.closed = closed
    LOG.append(v.key)


def separate(v, h, b, k, kp, n):
    """x' = x + h x + b where no iteration changes what an earlier one has changed"""
    nm2, y2 = fresh_index(kp)
    with S.assuming(bnot(beq(kp, y2))):
        for p in (h * subst(h, {k: y2}), h * subst(b, {k: y2})):
            if p.t and not S.prove_zero(S.simplify(p)):
                return False

    def closed(kk):
        nm, y = fresh_index(kk)
        return v.init + mk_sum(nm, 0, kk, subst(h, {k: y}) * v.init + subst(b, {k: y}))
    v.closed = closed
    LOG.append(v.key)
    return True


def pointwise(v, post, k, kp):
    """iteration k only changes element k (reading only that element): x[j] = F(j, x[j])"""
    if len(v.idx) != 1 or v.init is None:
        return None
    x = Poly.atom(T.Sym(v.idx[0], 'int', nonneg=True))
    pres = [a for a in T.atoms_of(post) if a.kind == 'sel' and a.name == v.pre]
    if not any(P(a.args[0]) == kp for a in pres) and not any(
            b.kind == 'br' and mentions(b.p, [v.pre]) for b in T.atoms_of(post)):
        return None
    own = [a for a in pres if P(a.args[0]) == x]
    if not all(P(a.args[0]) in (x, kp) for a in pres):
        return None
    br = T.bracket('eq', x - kp)
    pre_x = Poly.atom(own[0]) if own else None
    if pre_x is None:
        d = pres[0]
        pre_x = T.mksel(d.decl, (x,))
    diff = (post - pre_x)
    if diff * br != diff and not S.prove_zero(diff * br - diff):
        return None
    if S.decide(blt(kp, 0)) is True:
        return None
    F = subst(post, {v.idx[0]: kp})
    if any(a.kind == 'sel' and a.name == v.pre and P(a.args[0]) != kp for a in T.atoms_of(F)):
        return None
    F = subst_sel(F, {v.pre: lambda *args: subst(v.init, dict(zip(v.idx, args)))})
    Fx = subst(F, {k: x})

    def closed(kk):
        return T.ite(blt(x, P(kk)), Fx, v.init)
    return closed


def self_atom(v):
    if not v.idx:
        return ('sym', v.pre)
    return ('sel', v.pre, v.idx)


def is_own(a, own):
    if own[0] == 'sym':
        return a.kind == 'sym' and a.name == own[1] or a.kind == 'sel' and a.name == own[1] and not a.args
    if a.kind == 'sel' and a.name == own[1]:
        return all(x == Poly.atom(T.Sym(nm, 'int', nonneg=True)) for x, nm in zip(a.args, own[2]))
    return False


def split_linear(p, own):
    a, b = {}, {}
    for m, c in p.t.items():
        hit = [x for x in m if is_own(x[0], own)]
        if not hit:
            b[m] = c
        elif len(hit) == 1 and hit[0][1] == 1:
            a[tuple(x for x in m if x is not hit[0])] = c
        else:
            return None, None
    return Poly(a), Poly(b)


def idem(g):
    return g * g == g


def is01(g):
    return g * g == g
