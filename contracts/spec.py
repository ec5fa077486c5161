"""symbolic spectra shared by several contract files"""
from contracts.common import *

SPB = 'euphonic.spectra.Spectrum.'
define_unit('ux', '0.7 meV')
define_unit('ux2', '0.21 meV')
define_unit('uy', '1.7/meV')
define_unit('uy2', '0.3/meV')
define_unit('uz', '0.9 mbarn/meV')
nx, ny, nz = dim('nx'), dim('ny'), dim('nz')
D = decl_arr


def make(it, cls, ex=False, ey=False, ticks=None, meta=None):
    """object of a class; ex / ey: axis given as bin edges"""
    m = it.load('euphonic.spectra')
    kw = dict(x_tick_labels=ticks, metadata=meta)
    x = Q(D('x', (nx + (1 if ex else 0),), mono=True), 'ux')
    if cls == 'Spectrum1D':
        return m.Spectrum1D(x, Q(D('y', (nx,)), 'uy'), **kw)
    if cls == 'Spectrum1DCollection':
        return m.Spectrum1DCollection(x, Q(D('y', (nz, nx)), 'uy'), **kw)
    y = Q(D('v', (ny + (1 if ey else 0),), mono=True), 'ux')
    if cls == 'Spectrum2D':
        return m.Spectrum2D(x, y, Q(D('y', (nx, ny)), 'uy'), **kw)
    return m.Spectrum2DCollection(x, y, Q(D('y', (nz, nx, ny)), 'uy'), **kw)


CLS = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection']
DATA = dict(Spectrum1D=('y', (nx,)), Spectrum1DCollection=('y', (nz, nx)), Spectrum2D=('z', (nx, ny)), Spectrum2DCollection=('z', (nz, nx, ny)))
UX, UY = us('ux'), us('uy')


def data(o, cls):
    return o.y_data if DATA[cls][0] == 'y' else o.z_data


