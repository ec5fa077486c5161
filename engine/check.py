"""Check driver: runs the proof obligations and the replay/differential tests of one property,
writes its evidence file and reports violations."""
import itertools
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EUPHONIC_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'

OBLIGATIONS = []      # (name, function, funcs, bounded)
TESTS = []            # (name, function, n_quick, n_thorough)
ASSUME = []           # assumptions left unchecked (text)
NOTES = []


def obligation(name, under=(), bounded=None, tier='quick', limit=None):
    """register a group of proof obligations: f(ck).  `under`: functions under contract;
    bounded: text of the bound, when the group quantifies over a bounded set only"""
    def deco(f):
        if tier == 'quick' or THOROUGH:
            OBLIGATIONS.append((name, f, list(under), bounded, limit or (900 if THOROUGH else 400)))
        return f
    return deco


def test(name, n=40, n_thorough=None, limit=None):
    def deco(f):
        TESTS.append((name, f, n, n_thorough if n_thorough is not None else n * 12, limit or (1500 if THOROUGH else 300)))
        return f
    return deco


def assume(*txt):
    ASSUME.extend(txt)


_free = itertools.count()


def _free_idx(shape):
    """a new index symbol, ranging over the axis, for every axis"""
    from engine.term import P, index_sym
    n = next(_free)
    return [index_sym('at%d_%d' % (n, d), P(s)) for d, s in enumerate(shape)]


class Ck:
    """collects the obligations of a group"""

    def __init__(self, group, bounded):
        self.group = group
        self.bounded = bounded
        self.res = []      # dict(name, status, detail, t, by)
        self.prefix = ''
        self.suffix = ''
        self.called = set()
        self.interp = None

    def new_interp(self, **k):
        from engine import pyexec as X, solver as S
        S.reset_ctx()
        self.interp = X.Interp(**k)
        self.interps = getattr(self, 'interps', [])
        self.interps.append(self.interp)
        return self.interp

    def _nm(self, name):
        return '%s/%s%s%s' % (self.group, self.prefix, name, self.suffix)

    def add(self, name, status, detail='', t=0.0, by=''):
        self.res.append(dict(name=self._nm(name), status=status, detail=str(detail)[:1500 if not os.environ.get('VERIF_DEBUG') else 9000], t=round(t, 4), by=by))
        return status in ('proved', 'bounded')

    def ok(self, name, by='structural'):
        return self.add(name, 'bounded' if self.bounded else 'proved', by=by)

    def fail(self, name, detail):
        return self.add(name, 'refuted', detail)

    def true(self, name, cond, detail=''):
        """a concrete (non symbolic) obligation"""
        return self.ok(name) if cond else self.fail(name, detail)

    def zero(self, name, p, fixed=None, limit=None, tries=40):
        from engine import solver as S
        from engine.term import P, Poly
        t0 = time.time()
        from engine import npmodel as N
        p = N.resolve_digi(P(p))
        S.EQ_TIME[0] = limit or 30.0
        try:
            if S.prove_zero(p):
                return self.add(name, 'bounded' if self.bounded else 'proved', t=time.time() - t0,
                                by='term normal form / case split / z3')
        except RecursionError:
            pass
        r = S.numeric_zero(p, tries=tries, fixed=fixed)
        if r[0] == 'nonzero':
            return self.add(name, 'refuted', 'counterexample to the obligation: %s ; residual term %s' % (
                {k: v for k, v in r[1].items()}, str(p)[:600 if not os.environ.get('VERIF_DEBUG') else 9000]), time.time() - t0)
        return self.add(name, 'unproved', 'residual term %s (sampled: %s)' % (str(p)[:600 if not os.environ.get('VERIF_DEBUG') else 9000], r), time.time() - t0)

    def eq(self, name, a, b, **k):
        from engine.term import P
        return self.zero(name, P(a) - P(b), **k)

    def holds(self, name, b, timeout=6000, extra=()):
        """boolean obligation"""
        from engine import solver as S
        from engine.term import asB
        t0 = time.time()
        b = asB(b)
        if b is True or (b.op == 'const' and b.a):
            return self.ok(name)
        if S.prove(b, timeout):
            return self.add(name, 'bounded' if self.bounded else 'proved', t=time.time() - t0, by='interval / z3')
        if S.infeasible(timeout):      # the assumed facts contradict each other: nothing to show
            return self.add(name, 'bounded' if self.bounded else 'proved', t=time.time() - t0, by='interval / z3')
        # refute numerically
        for s in range(60):
            try:
                env = S.sample_env(S._bpolys(b)[0] if S._bpolys(b) else 0, s)
                if env is None or not all(S.evalB(f, env) for f in S.CTX.facts):
                    continue
                if not S.evalB(b, env):
                    return self.add(name, 'refuted', 'counterexample %s to %s' % (dict(env.syms), b), time.time() - t0)
            except Exception:
                continue
        return self.add(name, 'unproved', '%s under %s' % (b, S.CTX.facts[:12]), time.time() - t0)

    def same_shape(self, name, a, shape):
        from engine import arr as A
        from engine.term import P
        sh = [P(x) for x in (a.vshape if hasattr(a, 'vshape') else a.shape)]
        if len(sh) != len(shape):
            return self.fail(name, 'rank %d, expected %d' % (len(sh), len(shape)))
        for i, (x, y) in enumerate(zip(sh, shape)):
            if not self.eq('%s.%d' % (name, i), x, y):
                return False
        return True

    def arr(self, name, a, shape, spec, **k):
        """a is an array of the given shape whose elements are spec(*idx)"""
        from engine import arr as A
        from engine.term import P
        a = A.lift(a)
        if not self.same_shape(name + '.shape', a, shape):
            return False
        idx = _free_idx(shape)
        return self.eq(name, a.at(*idx), spec(*idx), **k)

    def qarr(self, name, q, unit, shape, spec, **k):
        """q is a quantity in `unit` (pint Unit or str, None: only compatible) whose physical value is spec*..."""
        from engine import units as U, arr as A
        from engine.term import P
        if unit is not None:
            if not self.true(name + '.unit', q.u == U.as_unit(unit), 'unit %s, expected %s' % (q.u, unit)):
                return False
        a = A.lift(q.m)
        if not self.same_shape(name + '.shape', a, shape):
            return False
        idx = _free_idx(shape)
        return self.eq(name, a.at(*idx) * U.uscale(q.u), spec(*idx), **k)

    def dead(self, name):
        """obligation: this path is impossible"""
        from engine import solver as S
        if S.infeasible(3000):
            return self.ok(name, by='z3 / intervals')
        return self.add(name, 'refuted', 'reachable path, facts %s' % (S.CTX.facts[:20],))


# ------------------------------------------------------------------ children
def _child(fn, w):
    try:
        r = fn(w)
    except BaseException:
        r = ('crash', traceback.format_exc()[-3000:])
    with os.fdopen(w, 'wb') as f:
        pickle.dump(('end', r), f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_children(jobs, width):
    """jobs: list of (key, fn, limit); returns {key: result}.  result ('timeout',..) / ('died',..)"""
    out = {}
    pend = list(jobs)
    act = {}
    while pend or act:
        while pend and len(act) < width:
            key, fn, limit = pend.pop(0)
            r, w = os.pipe()
            prog = tempfile.mktemp(prefix='vprog')
            os.environ['VERIF_PROGRESS'] = prog
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(fn, w)
            os.close(w)
            act[r] = [key, pid, time.time() + limit, b'', prog]
        rd, _, _ = select.select(list(act), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                act[r][3] += d
            else:
                key, pid, _, buf, prog = act.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                try:
                    out[key] = pickle.loads(buf)[1]
                except Exception:
                    out[key] = ('died', 'status %d' % st, _read(prog))
                _rm(prog)
        now = time.time()
        for r in list(act):
            if now > act[r][2]:
                key, pid, _, buf, prog = act.pop(r)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out[key] = ('timeout', 'time limit', _read(prog))
                _rm(prog)
    return out


def _read(p):
    try:
        return open(p).read()
    except OSError:
        return ''


def _rm(p):
    try:
        os.unlink(p)
    except OSError:
        pass


def run_group(name, f, bounded):
    def go(w):
        from engine.term import Unsupported
        from engine import solver as S
        S.STATS.reset()
        ck = Ck(name, bounded)
        t0 = time.time()
        try:
            f(ck)
        except Unsupported as e:
            ck.add('generation', 'unsupported', 'out of the verifier reach: %s at %s | %s' % (e, getattr(e, 'where', ''), traceback.format_exc()[-1200 if not os.environ.get('VERIF_DEBUG') else -6000:]))
        except Exception as e:
            ck.add('generation', 'unsupported', '%s at %s | ' % (e, getattr(e, 'where', '')) + traceback.format_exc()[-1400:])
        if not ck.res:
            ck.add('generation', 'unsupported', 'no obligation generated')
        called, used = set(), set()
        for it in getattr(ck, 'interps', []):
            called |= {'.'.join(x) for x in it.called}
            used |= set(it.used)
        return dict(res=ck.res, called=sorted(called | set(ck.called)), used=sorted(map(str, used)),
                    stats={k: v for k, v in vars(S.STATS).items() if isinstance(v, (int, float))},
                    t=time.time() - t0)
    return go


def case_rng(name, k):
    import numpy as np
    import zlib
    return np.random.default_rng([SEED, zlib.crc32(name.encode()), k])


class Fail(Exception):
    """a test found the property broken; key identifies a known finding"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def run_case(name, f, k):
    """None or failure dict"""
    import warnings
    rng = case_rng(name, k)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f(rng, k)
        if r is None or r is True or isinstance(r, (tuple, list)) and len(r) == 0:
            return None
        if isinstance(r, dict):      # description of the case, for the samples
            return r
        return dict(fail=str(r)[:2500])
    except Fail as e:
        return dict(fail=str(e)[:2500], key=e.key)
    except Exception:
        return dict(fail='exception: ' + traceback.format_exc()[-2500:])


def run_test(name, f, n):
    def go(w):
        build_real()
        prog = os.environ.get('VERIF_PROGRESS')
        fails, kinds, samples = [], set(), []
        t0 = time.time()
        done = 0
        for k in range(n):
            if prog:
                with open(prog, 'w') as fh:
                    fh.write(str(k))
            r = run_case(name, f, k)
            done += 1
            if r is not None and 'fail' in r:
                fails.append(dict(k=k, **r))
                if len(fails) >= 60:
                    break
            elif r is not None:
                d = json.dumps(r, sort_keys=True, default=str)
                kinds.add(d)
                if len(samples) < 2:
                    samples.append(r)
        return dict(fails=fails, n=done, kinds=len(kinds), samples=samples, t=time.time() - t0)
    return go


# ------------------------------------------------------------------ the real code
_BUILT = {}


def build_ext(repo=REPO):
    """compile /repo's current C sources into a scratch directory; path of the module"""
    if repo in _BUILT:
        return _BUILT[repo]
    import sysconfig
    import glob
    import numpy
    d = tempfile.mkdtemp(prefix='vext')
    out = os.path.join(d, '_euphonic.so')
    cmd = ['gcc', '-shared', '-fPIC', '-O2', '-fopenmp', '-w'] + os.environ.get('VERIF_CFLAGS', '').split() + [ '-I' + sysconfig.get_paths()['include'],
           '-I' + numpy.get_include()] + sorted(glob.glob(os.path.join(repo, 'c', '*.c'))) + ['-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('the C extension does not compile: ' + r.stderr[-1500:])
    _BUILT[repo] = out
    return out


def build_real():
    """make `import euphonic` use the current working tree, with a C extension compiled from it"""
    import importlib.util
    if 'euphonic' in sys.modules:
        return
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    so = os.environ.get('VERIF_EXT') or build_ext(REPO)
    spec = importlib.util.spec_from_file_location('euphonic._euphonic', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules['euphonic._euphonic'] = m
    import euphonic
    assert os.path.realpath(euphonic.__file__).startswith(os.path.realpath(REPO)), euphonic.__file__
    euphonic._euphonic = m


# ------------------------------------------------------------------ main
def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.txt')
    res = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, desc = rest.partition(' ')
                res[key.replace('key=', '')] = desc
    return res


def main(pid, argv=()):
    t0 = time.time()
    level = LEVEL.get(pid, 'proof')
    os.environ.setdefault('OMP_NUM_THREADS', '4')
    for v in ('OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    repdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(repdir, exist_ok=True)
    if argv and argv[0] == '--replay':
        nm, _, k = argv[1].rpartition(':')
        build_real()
        for name, f, *_ in TESTS:
            if name == nm:
                r = run_case(name, f, int(k))
                print(r)
                return 1 if r and 'fail' in r else 0
        print('no such test')
        return 2
    only = None
    for a in argv:
        if a.startswith('--only='):
            only = a[7:]
    obs = [o for o in OBLIGATIONS if not only or only in o[0]]
    tests = [o for o in TESTS if not only or only in o[0]]
    build_error = None
    if tests:
        try:
            build_ext(REPO)
        except Exception as e:
            build_error = str(e)
    jobs = [(('ob', name), run_group(name, f, bounded), limit) for name, f, funcs, bounded, limit in obs]
    jobs += [(('t', name), run_test(name, f, nt if THOROUGH else nq), limit) for name, f, nq, nt, limit in tests]
    jobs.sort(key=lambda j: -j[2])
    out = run_children(jobs, int(os.environ.get('VERIF_JOBS', '7')))
    known = load_known(pid)
    viol = []          # (text, replay)
    kn = set()
    recs = []
    groups = {}
    stats = {}
    called, used = set(), set()
    for name, f, funcs, bounded, limit in obs:
        r = out[('ob', name)]
        if not isinstance(r, dict):
            r = dict(res=[dict(name=name + '/generation', status='unsupported', detail=str(r), t=0, by='')], called=[],
                     used=[], stats={}, t=0)
        recs += r['res']
        called |= set(r['called']) | set(funcs)
        used |= set(r['used'])
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        groups[name] = dict(obligations=len(r['res']), seconds=round(r['t'], 2), bounded=bounded)
    evals, kinds, samples, tinfo = 0, 0, [], {}
    failing = []
    for name, f, nq, nt, limit in tests:
        r = out[('t', name)]
        if not isinstance(r, dict):
            if r[0] == 'timeout':
                # not a verdict on the code by itself unless a single case hangs
                tinfo[name] = 'time limit at case %s' % (r[2] if len(r) > 2 else '?')
                failing.append((name, r[2] if len(r) > 2 else '0', 'no answer within %ds' % limit, None))
            elif r[0] == 'died':
                failing.append((name, r[2] or '0', 'the process running the real code died (%s)' % r[1], None))
            else:
                failing.append((name, '0', 'could not run: %s' % (r[1],), None))
            continue
        evals += r['n']
        kinds += r['kinds'] if r['kinds'] else r['n'] - len(r['fails'])
        samples += r['samples']
        tinfo[name] = dict(cases=r['n'], seconds=round(r['t'], 2), failures=len(r['fails']))
        for fl in r['fails']:
            failing.append((name, fl['k'], fl['fail'], fl.get('key')))
    real_fail = []
    for name, k, msg, key in failing:
        if key is not None and key in known:
            kn.add(key)
        else:
            real_fail.append((name, k, msg))
    for key in sorted(kn):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, key, known[key]))
    bad = [r for r in recs if r['status'] not in ('proved', 'bounded')]
    nviol = 0
    if real_fail:
        name, k, msg = real_fail[0]
        rp = os.path.join(repdir, '%s.json' % pid)
        json.dump(dict(property=pid, seed=SEED, tier=TIER,
                       failing_input=dict(test=name, case=k, reproduce='VERIF_SEED=%d %s/run %s --replay %s:%s' % (SEED, VERIF, pid, name, k),
                                          observed=msg),
                       other_failures=[dict(test=a, case=b, observed=c[:600]) for a, b, c in real_fail[1:6]],
                       failed_obligations=[dict(obligation=b['name'], status=b['status'], verifier_output=b['detail']) for b in bad[:30]]),
                  open(rp, 'w'), indent=1, default=str)
        print('failed on the real code: %s case %s: %s' % (name, k, msg[-700:]))
        for b in bad[:6 if not os.environ.get('VERIF_DEBUG') else 400]:
            print('  obligation %s: %s %s' % (b['name'], b['status'], b['detail'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        nviol = 1
    elif bad or build_error:
        rp = os.path.join(repdir, '%s.json' % pid)
        json.dump(dict(property=pid, seed=SEED, tier=TIER, no_failing_input_found=True, build_error=build_error,
                       failed_obligations=[dict(obligation=b['name'], status=b['status'], verifier_output=b['detail']) for b in bad[:60]]),
                  open(rp, 'w'), indent=1, default=str)
        for b in bad[:6 if not os.environ.get('VERIF_DEBUG') else 400]:
            print('  obligation %s: %s %s' % (b['name'], b['status'], b['detail'][:400 if not os.environ.get('VERIF_DEBUG') else 3000]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        nviol = 1
    proved = [r for r in recs if r['status'] == 'proved']
    bnd = [r for r in recs if r['status'] == 'bounded']
    by = {}
    for r in proved:
        by[r['by']] = by.get(r['by'], 0) + 1
    cov = dict(
        obligations=len(recs) - len(bnd), discharged=len(proved),
        checker_cmd='%s/run %s' % (VERIF, pid),
        trusted_base=TRUST + ASSUME,
        discharged_by=by,
        bounded_obligations=len(bnd),
        bounds=sorted({b for _, _, _, b, _ in obs if b}),
        functions_under_contract=sorted(called),
        source_files=sorted(used),
        solver=stats,
        solver_seconds=round(sum(r['t'] for r in recs), 2),
        groups=groups,
        obligation_names=[r['name'] for r in recs][:400],
        replay_tests=tinfo, evaluations=evals, distinct_nontrivial=kinds,
        rule='replay/differential cases run on the real code against the executable form of the contract; '
             'a case is non-trivial when it reached the comparison (exceptions expected by the contract included)',
        samples=samples[:6] or [dict(note='see obligation_names')],
        known_findings=sorted(kn),
    )
    if level != 'proof':
        cov['explanation'] = LEVEL_NOTE.get(pid, '')
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations (%d proved, %d bounded, %d not discharged); %d cases on the real code, %d failing (%d known); %.1fs'
          % (pid, len(recs), len(proved), len(bnd), len(bad), evals, len(failing), len(failing) - len(real_fail), time.time() - t0))
    for d in _BUILT.values():
        try:
            os.unlink(d)
            os.rmdir(os.path.dirname(d))
        except OSError:
            pass
    return 1 if nviol else 0


LEVEL = {}
LEVEL_NOTE = {}
TRUST = [
    'the term engine in /verif/engine (interpreter of the Python/C subset, term normaliser) and z3',
    'numpy/scipy/pint calls are replaced by contracts (engine/npmodel.py, engine/units.py); '
    'pint conversions within one dimension are multiplication by a ratio of positive unit scales',
    'machine arithmetic is treated as exact real/complex arithmetic',
]
