"""symbolic objects shared by the contracts"""
from engine.api import *

define_unit('ulen', '1.37 angstrom')
define_unit('umass', '3.1 amu')
define_unit('ufreq', '0.7 meV')
define_unit('ue', '1.3 meV')
define_unit('utemp', '1.9 kelvin')
define_unit('uarea', '0.3 angstrom**2')


def Cr(it, n):
    return it.load('euphonic.crystal').Crystal


def crystal(it, n, unit='ulen'):
    return Cr(it, n)(Q(decl_arr('cell', (3, 3)), unit), decl_arr('r', (n, 3)), decl_arr('types', (n,), 's'),
                     Q(decl_arr('m', (n,), pos=True), 'umass'))


def us(u):
    return uscale(U.as_unit(u))


def mass(k):
    return decl_arr('m', (1,), pos=True).at(k)


def sel(name, *idx, kind='f', **kw):
    sort = {'f': 'real', 'i': 'int', 'c': 'complex', 'b': 'int', 's': 'int'}[kind]
    return T.ArrDecl(name, len(idx), sort, **kw)(*idx)
