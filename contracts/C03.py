"""the C kernels read and write only inside their arrays, and each parallel iteration only its own rows"""
from contracts import ckern as K
from contracts.common import *
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from contracts import gen as G
from contracts import fcref as R

Q = K.Quiet()         # the contracts of the kernels with only the obligations about memory recorded


@obligation('dynamical matrix', ['c.calculate_dyn_mat_at_q'])
def o1(ck):
    K.dyn_mat_at_q(ck, Q)


@obligation('dipole term', ['c.calculate_dipole_correction', 'c.det_array', 'c.cell_volume', 'c.is_gamma', 'c.cmult_conj'])
def o2(ck):
    K.dipole_correction(ck, Q, False)


@obligation('dipole term at a lattice vector', ['c.calculate_dipole_correction'])
def o3(ck):
    K.dipole_correction(ck, Q, True)


@obligation('LO-TO term', ['c.calculate_gamma_correction'])
def o4(ck):
    K.gamma_correction(ck, Q)


@obligation('array helpers', ['c.multiply_array', 'c.add_arrays', 'c.mass_weight_dyn_mat'])
def o5(ck):
    K.helpers(ck, Q)
    K.mass_weighting(ck, Q)


@obligation('frequencies', ['c.evals_to_freqs'])
def o6(ck):
    K.frequencies(ck, Q)


@obligation('mode gradients', ['c.calculate_mode_gradients', 'c.cmult', 'c.cmult_conj'])
def o7(ck):
    K.mode_gradients(ck, Q)


@obligation('diagonalisation', ['c.diagonalise_dyn_mat_zheevd'])
def o8(ck):
    K.diagonalisation(ck, Q)


@obligation('driver', ['c.calculate_phonons'])
def o9(ck):
    for d, sp in ((False, False), (True, False), (True, True)):
        for evec, grad, asr in itertools.product((False, True), repeat=3):
            K.driver(ck, Q, d, sp, evec, grad, asr)


assume('the preprocessor, casts, reference counts and the CPython/numpy C API are outside the translation (engine/cexec.py): PyArg_ParseTuple, attribute readers, PyArray_DATA/DIMS are modelled',
       'int arithmetic does not overflow; malloc succeeds',
       'the arrays handed over have the documented shapes and do not overlap; index tables hold valid indices (image lists: -1 or a translation number, -1 beyond the number of images)',
       'zheevd touches only the arrays and workspaces it is given, in the documented sizes',
       'iterations of the parallel loop are checked one at a time against ownership of rows: written shared memory must be the row of the iteration\'s own q-point, everything else private')


def child(seed, cases):
    """random calculations through the sanitised extension"""
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(seed)
    for k in range(cases):
        fc = G.force_constants(rng) if k % 2 else R.special_fc(rng)
        kw = dict(use_c=True, n_threads=int(rng.integers(1, 5)), dipole=bool(rng.random() < .8), splitting=bool(rng.random() < .7), insert_gamma=bool(rng.random() < .3),
                  asr=[None, 'reciprocal', 'realspace'][int(rng.integers(3))], return_mode_gradients=bool(rng.random() < .5), reduce_qpts=bool(rng.random() < .5))
        q = R.qpoints(rng, int(rng.integers(1, 8)))
        print('case', k, kw, q.tolist(), fc.sc_matrix.tolist(), fc.crystal.n_atoms, flush=True)
        getattr(fc, 'calculate_qpoint_phonon_modes' if rng.random() < .6 else 'calculate_qpoint_frequencies')(q, **kw)


@test('address sanitiser', n=6, n_thorough=60)
def t1(rng, k):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = tempfile.mkdtemp(prefix='vasan')
    try:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
        so = os.path.join(d, 'x.so')
        env = dict(os.environ, TMPDIR=d, OPENBLAS_NUM_THREADS='1', VERIF_CFLAGS='-g -fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize-recover=undefined')
        code = 'import sys; sys.path[:0] = [%r]; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); from engine import check as C; ' % here
        r = subprocess.run([sys.executable, '-c', code + 'import shutil; shutil.copy(C.build_ext(), %r)' % so], capture_output=True, text=True, env=env, cwd=here)
        G.need(os.path.exists(so), 'the extension does not compile: ' + r.stderr[-500:])
        env.update(LD_PRELOAD=lib + ' ' + ub, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', PYTHONMALLOC='malloc', VERIF_EXT=so)
        r = subprocess.run([sys.executable, '-c', code + 'C.build_real(); from contracts.C03 import child; child(%d, 15)' % int(rng.integers(1 << 30))],
                           capture_output=True, text=True, env=env, cwd=here, timeout=600)
        out = r.stdout[-1500:] + r.stderr
        if 'AddressSanitizer' in r.stderr or 'runtime error' in r.stderr:
            i = max(r.stderr.find('ERROR: AddressSanitizer'), r.stderr.find('runtime error'))
            G.need(False, 'after %s: %s' % (r.stdout.strip().splitlines()[-1:], r.stderr[max(0, i - 200):i + 1500]))
        G.need(r.returncode == 0, 'exit status %s: %s' % (r.returncode, out[-1500:]))
    finally:
        shutil.rmtree(d)
