"""reordering of modes"""
from contracts.common import *
from contracts import gen as G
from engine import arr as A
import itertools
import numpy as np

FN = ['qpoint_phonon_modes.QpointPhononModes.reorder_frequencies']
nq = dim('nq')


def modes_obj(it, nq, n):
    m = it.load('euphonic.qpoint_phonon_modes')
    c = crystal(it, n)
    return m.QpointPhononModes(c, decl_arr('q', (nq, 3)), Q(decl_arr('f', (nq, 3 * n)), 'ufreq'),
                               decl_arr('ev', (nq, 3 * n, n, 3), 'c'), decl_arr('w', (nq,), pos=True))


def argmax_fork(x):
    """smallest position of a largest element, one path per position"""
    x = lift(x).ravel()
    n = A.conc(x.vshape[0])
    v = [x.at(const(k)) for k in range(n)]
    for k in range(n - 1):
        c = band(*([blt(v[j], v[k]) for j in range(k)] + [ble(v[j], v[k]) for j in range(k + 1, n)]))
        d = S.decide(c)
        if d is None:
            d = X.fork(c)
        if d:
            return k
    for j in range(n - 1):
        S.CTX.push(blt(v[j], v[n - 1]))
    return n - 1


NB = 3


def overlaps(ck, seen):
    """replace |<previous mode, current mode>| by a symbol, checking that this is what is computed"""
    def f(x):
        x = lift(x).ravel()
        i = len(seen) + 1
        a, b = index_sym('a', NB), index_sym('b', NB)
        s, t = index_sym('s', 1), index_sym('t', 3)
        pos = a * NB + b
        if i <= seen.total:
            q0 = seen.at[len(seen)]
            want = mk_sum('t', 0, 3, conj(sel('ev', const(q0 - 1), b, const(0), t, kind='c')) * sel('ev', const(q0), a, const(0), t, kind='c'))
            got = [x.at(const(j)) for j in range(NB * NB)]
            for j in range(NB * NB):
                w = T.subst(want, {'a': const(j // NB), 'b': const(j % NB)})
                ck.eq('overlap %d of mode %d with previous mode %d' % (q0, j // NB, j % NB), got[j] * conj(got[j]), w * conj(w))
        d = T.ArrDecl('dt%d' % seen.at[len(seen)], 1, 'real', nonneg=True)
        if len(seen) == 0 and seen.force:
            # the first step matches previous mode b with force[b]
            for b, a in enumerate(seen.force):
                for j in range(NB * NB):
                    if j != a * NB + b and (j // NB not in seen.force[:b]):
                        S.CTX.push(blt(d(const(j)), d(const(a * NB + b))))
        seen.append(d)
        return A.mk((NB * NB,), lambda k: d(k), 'f')
    return f


CUR = []


class Seen(list):
    pass


def greedy_ok(D, match):
    """match: previous mode -> mode; no unmatched pair overlaps more than both of its partners"""
    inv = {m: p for p, m in match.items()}
    out = []
    for a in range(NB):
        for b in range(NB):
            if match[b] != a:
                x = D(const(a * NB + b))
                out.append(bor(ble(x, D(const(a * NB + inv[a]))), ble(x, D(const(match[b] * NB + b)))))
    return band(*out)


def run_case(ck, n_q, calc, force=None, gamma=None):
    """calc[j]: is the step j -> j+1 matched (no change of direction)?"""
    it = ck.new_interp()
    it.hooks['euphonic.util.direction_changed'] = lambda q: np.array([not c for c in dirs[1:]], dtype=bool)
    seen = Seen()
    seen.total = 99
    seen.force = force
    dirs = calc
    if gamma is not None:
        for mod in ('qpoint_phonon_modes', 'util'):
            it.hooks['euphonic.%s.is_gamma' % mod] = lambda q: np.array([i in gamma for i in range(n_q)])
        calc = tuple(c and i not in gamma and i + 1 not in gamma for i, c in enumerate(calc))

    def run():
        seen.clear()
        seen.at = [i for i in range(1, n_q) if calc[i - 1]] + [None]
        CUR[:] = [overlaps(ck if run.first else None, seen)]
        N.HOOKS['absolute'] = N.HOOKS['abs'] = lambda x: CUR[0](x)
        if not run.first:
            seen.total = 0
        o = modes_obj(it, n_q, 1)
        o.reorder_frequencies(**({} if gamma is None else dict(reorder_gamma=False)))
        run.first = False
        return o
    run.first = True
    N.HOOKS['argmax'] = lambda x, axis=None: argmax_fork(x)
    fr = decl_arr('f', (n_q, NB))
    k = 0
    for o in returns(ck, run, max_paths=5000):
        k += 1
        r = o.value
        got = r._frequencies
        prev = list(range(NB))
        ck.suffix = '@%d' % k
        ck.arr('q-points kept', r.qpts, (n_q, 3), lambda i, a: sel('q', i, a))
        ck.arr('weights kept', r.weights, (n_q,), lambda i: sel('w', i, pos=True))
        ck.true('units kept', str(r.frequencies.u) == 'ufreq')
        for i in range(n_q):
            # which mode stands at each position (the elements are single symbols)
            perm = []
            for p in range(NB):
                x = lift(got).at(const(i), const(p))
                at = [a for a in T.atoms_of(x) if a.kind == 'sel' and a.name == 'f']
                perm.append(int(at[0].args[1].cval()) if len(at) == 1 and at[0].args[1].isconst() and P(at[0].args[0]) == const(i) else None)
            good = sorted(x if x is not None else -1 for x in perm) == list(range(NB))
            ck.true('q-point %d: modes permuted' % i, good, repr(perm))
            if not good:
                break
            for p in range(NB):
                c = index_sym('c', 3)
                ck.true('frequency of mode', not (lift(got).at(const(i), const(p)) - fr.at(const(i), const(perm[p])) * us('ufreq') / us('hartree')).t)
                ck.true('eigenvector moves with its frequency',
                        not (r.eigenvectors.at(const(i), const(p), const(0), c) - sel('ev', const(i), const(perm[p]), const(0), c, kind='c')).t)
            if i == 0:
                ck.true('first q-point unchanged', perm == list(range(NB)))
            elif not calc[i - 1]:
                ck.true('ordering carried on across a change of direction', perm == prev, '%s after %s' % (perm, prev))
            else:
                D = seen[sum(calc[:i - 1])]
                match = {prev[p]: perm[p] for p in range(NB)}
                ck.holds('matched by largest overlap at q-point %d' % i, greedy_ok(D, match))
            prev = perm
    ck.suffix = ''
    return k


@obligation('two q-points', FN, bounded='one atom (three modes), two q-points, any eigenvectors')
def _(ck):
    ck.true('paths', run_case(ck, 2, (True,)) >= 36)


@obligation('change of direction', FN, bounded='one atom (three modes), three q-points, any eigenvectors, direction changed at the second')
def _(ck):
    ck.true('paths', run_case(ck, 3, (True, False)) >= 36)


@obligation('after a cyclic reordering', FN, bounded='one atom, three q-points, the first step matching the modes cyclically')
def _(ck):
    ck.true('paths', run_case(ck, 3, (True, True), force=(1, 2, 0)) >= 36)


@obligation('zone centres left out', FN, bounded='one atom, four q-points, the second or third a zone centre')
def _(ck):
    for g in ((1,), (2,), (3,), (0,)):
        ck.prefix = 'zone centre %d/' % g[0]
        ck.true('paths', run_case(ck, 4, (True, True, False), gamma=g, force=(1, 2, 0)) >= 1)


def greedy_ref(prev, cur):
    """pairs by decreasing overlap"""
    n = len(cur)
    d = np.abs(np.einsum('bjk,ajk->ab', prev.conj(), cur))
    out = {}
    rows, cols = set(), set()
    for x in np.argsort(-d, axis=None, kind='stable'):
        a, b = divmod(int(x), n)
        if a in rows or b in cols:
            continue
        out[b] = a
        rows.add(a)
        cols.add(b)
    return out, d


@test('reordering', n=80)
def t1(rng, k):
    eu = G.E()
    n = int(rng.integers(1, 4))
    m = G.modes(rng, nq=int(rng.integers(1, 9)), n=n)
    nq_, nb = m.frequencies.shape
    q = m.qpts.copy()
    mode = k % 4
    if mode == 0:
        q = np.linspace(0, 1, nq_)[:, None] * np.array([1., 2, -1]) + (rng.random(3) if k % 8 else 0)
    elif mode == 1:
        h = nq_ // 2
        q[:h + 1] = np.arange(h + 1)[:, None] * np.array([.02, 0, 0])
        q[h + 1:] = q[h] + np.arange(1, nq_ - h)[:, None] * np.array([0, .03, 0])
    elif mode == 2:
        q = np.cumsum(rng.integers(0, 2, (nq_, 3)) * .05, axis=0)
    ev = m.eigenvectors.copy()
    # follow the modes: each q-point's modes are the previous ones permuted and perturbed
    if k % 3:
        for i in range(1, nq_):
            ev[i] = ev[i - 1][rng.permutation(nb)]
            ev[i] = ev[i] + .15 * (rng.normal(size=ev[i].shape) + 1j * rng.normal(size=ev[i].shape))
            ev[i] /= np.sqrt((abs(ev[i]) ** 2).sum((1, 2)))[:, None, None]
    if k % 5 == 4:
        # exact zero overlaps
        ev = np.round(ev.real) + 0j
    f = m.frequencies.magnitude.copy()
    w = m.weights.copy()
    o = eu.QpointPhononModes(m.crystal, q.copy(), eu.ureg.Quantity(f.copy(), m.frequencies.units), ev.copy(), weights=w.copy())
    rg = bool(rng.random() < .7)
    o.reorder_frequencies(**({} if rg and k % 2 else dict(reorder_gamma=rg)))
    G.need(np.array_equal(o.qpts, q) and np.array_equal(o.weights, w), 'q-points or weights changed')
    G.need(o.frequencies.units == m.frequencies.units, 'units')
    got, gev = o.frequencies.magnitude, o.eigenvectors
    perms = []
    for i in range(nq_):
        used = []
        for p in range(nb):
            hit = [x for x in range(nb) if x not in used and abs(got[i, p] - f[i, x]) < 1e-12 * (1 + abs(f[i, x])) and np.array_equal(gev[i, p], ev[i, x])]
            G.need(hit, 'q-point %d position %d holds no mode of the original' % (i, p))
            used.append(hit[0])
        perms.append(used)
    G.need(perms[0] == list(range(nb)), 'first q-point reordered: %s' % perms[0])
    if k % 5 == 4:
        return dict(nq=nq_, n=n)
    d = np.diff(q, axis=0)
    for i in range(1, nq_):
        carried = False
        if i >= 2:
            na, nb_ = np.linalg.norm(d[i - 2]), np.linalg.norm(d[i - 1])
            c = abs(d[i - 2] @ d[i - 1])
            if na * nb_ > 0 and c < .9 * na * nb_:
                carried = True
            elif na * nb_ > 0 and c < .9999 * na * nb_:
                continue
        isg = [bool(np.all(q[j] == np.rint(q[j]))) for j in (i - 1, i)]
        if not rg and any(isg):
            carried = True
        if carried:
            G.need(perms[i] == perms[i - 1], 'order changed across a change of direction or zone centre at %d: %s %s' % (i, perms[i - 1], perms[i]))
        else:
            ref, dm = greedy_ref(ev[i - 1], ev[i])
            s = np.sort(dm.ravel())
            if len(s) > 1 and np.min(np.diff(s)) < 1e-9:
                continue
            G.need({a: b for a, b in zip(perms[i - 1], perms[i])} == ref, 'modes at q-point %d not matched by largest overlap' % i)
    return dict(nq=nq_, n=n)
