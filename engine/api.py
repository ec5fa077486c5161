"""what a contract file needs"""
import numpy as rnp
from .check import obligation, test, assume, Fail, Ck, THOROUGH, SEED, TRUST, LEVEL, LEVEL_NOTE
from . import term as T, solver as S, arr as A, npmodel as N, units as U, pyexec as X
from .term import (P, Poly, sym, const, index_sym, fresh_index, mk_sum, pexp, pcos, psin, conj, preal, pimag, fabs, fn, ite,
                   blt, ble, bge, bgt, beq, bne, bnot, band, bor, phase, Unsupported)
from .arr import decl_arr, lift, mk
from .units import Q, define_unit, uscale
PI = sym('pi')
I = T.P(1j)


def dim(name):
    """a symbolic positive size"""
    return sym(name, 'int', pos=True)


def returns(ck, it_fn, may_raise=(), max_paths=400):
    """explore the function; raising is a failed obligation unless allowed by may_raise(exception).
    yields the returned value of every feasible path (its path condition in force)"""
    k = 0
    for o in X.explore(it_fn, max_paths):
        k += 1
        ck.suffix = '' if k == 1 else '@%d' % k
        if o.kind == 'raise':
            if may_raise and isinstance(o.value, may_raise):
                continue
            if not ck.dead('no-exception'):
                ck.res[-1]['detail'] = 'raises %s: %s at %s; %s' % (type(o.value).__name__, o.value, getattr(o.value, 'where', ''), ck.res[-1]['detail'])
                if isinstance(o.value, (AttributeError, NotImplementedError, NameError, KeyError)):
                    ck.res[-1]['status'] = 'unsupported'
            continue
        yield o
    ck.suffix = ''
    if not k:
        ck.fail('paths', 'no path')
