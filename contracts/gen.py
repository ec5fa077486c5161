"""random real objects for the replay/differential tests"""
import numpy as np

LEN_UNITS = ['angstrom', 'bohr', 'nm', 'm']
MASS_UNITS = ['amu', 'kg', 'm_e', 'g']
EN_UNITS = ['meV', 'hartree', '1/cm', 'THz', 'eV', 'J']
SYMB = ['Si', 'O', 'La', 'Zr', 'Na', 'Cl', 'Ge', 'Al', 'Nb', 'C']


def E():
    import euphonic
    return euphonic


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def cell(rng, left=None):
    """random cell vectors (angstrom): generic, well conditioned; sometimes left handed or orthogonal"""
    kind = rng.integers(4)
    while True:
        if kind == 0:
            m = np.diag(rng.uniform(2, 9, 3))
        elif kind == 1:
            a = rng.uniform(3, 7)
            m = a / 2 * np.array([[0, 1., 1], [1, 0, 1], [1, 1, 0]])
        else:
            m = rng.normal(size=(3, 3)) * 4 + np.diag([3., 3, 3])
        if abs(np.linalg.det(m)) > 20 and np.linalg.cond(m) < 12:
            break
    if left is None:
        left = rng.random() < 0.3
    if (np.linalg.det(m) < 0) != bool(left):
        m = m[[1, 0, 2]] if kind != 1 else -m
    return m


def crystal(rng, n=None, left=None, plain=False):
    eu = E()
    n = int(rng.integers(1, 5)) if n is None else n
    lu = 'angstrom' if plain else pick(rng, LEN_UNITS)
    mu = 'amu' if plain else pick(rng, MASS_UNITS)
    cv = eu.ureg.Quantity(cell(rng, left), 'angstrom').to(lu)
    mass = eu.ureg.Quantity(rng.uniform(5, 200, n), 'amu').to(mu)
    at = np.array([pick(rng, SYMB) for _ in range(n)])
    return eu.Crystal(cv, rng.uniform(-1, 2, (n, 3)) if not plain else rng.uniform(0, 1, (n, 3)), at, mass)


def herm_modes(rng, nq, n):
    """orthonormal eigenvectors (nq, 3n, n, 3)"""
    ev = np.zeros((nq, 3 * n, n, 3), complex)
    for q in range(nq):
        z = rng.normal(size=(3 * n, 3 * n)) + 1j * rng.normal(size=(3 * n, 3 * n))
        u, _ = np.linalg.qr(z)
        ev[q] = u.reshape(3 * n, n, 3)
    return ev


def modes(rng, nq=None, n=None, unit=None, neg=True, weights=True, crys=None, uniq=False):
    eu = E()
    cr = crys or crystal(rng, n)
    n = cr.n_atoms
    nq = int(rng.integers(1, 7)) if nq is None else nq
    q = rng.uniform(-1, 1, (nq, 3))
    f = rng.uniform(-5 if neg and rng.random() < .5 else 0.5, 90, (nq, 3 * n))
    w = None
    if weights and rng.random() < 0.7:
        w = rng.uniform(0.1, 3, nq)
    unit = unit or pick(rng, EN_UNITS[:5])
    return eu.QpointPhononModes(cr, q, eu.ureg.Quantity(f, 'meV').to(unit, 'spectroscopy'), herm_modes(rng, nq, n), w)


def freqs(rng, **k):
    eu = E()
    m = modes(rng, **k)
    return eu.QpointFrequencies(m.crystal, m.qpts, m.frequencies, m.weights)


def sc_matrix(rng, big=False):
    kind = rng.integers(4)
    if kind == 0:
        return np.eye(3, dtype=int)
    if kind == 1:
        return np.diag(rng.integers(1, 4 if big else 3, 3))
    if kind == 2:
        return np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])
    while True:
        m = rng.integers(-1, 3, (3, 3))
        d = round(np.linalg.det(m))
        if 1 <= abs(d) <= 6 and np.abs(np.linalg.inv(m)).max() <= 1.01:
            return m


def cell_origins(m):
    """one lattice point per coset of the supercell lattice"""
    inv = np.linalg.inv(m)
    res = []
    seen = []
    R = int(np.abs(m).sum())
    for h in range(-R, R + 1):
        for k in range(-R, R + 1):
            for l in range(-R, R + 1):
                x = np.array([h, k, l]) @ inv
                if np.all(x > -1e-9) and np.all(x < 1 - 1e-9):
                    res.append((h, k, l))
    assert len(res) == abs(round(np.linalg.det(m))), (m, res)
    res.sort(key=lambda v: (v != (0, 0, 0), v))
    return np.array(res)


def fc_tensor(rng, m, org, n, asr=True):
    """force constants (ncell, 3n, 3n) that are symmetric under exchange and, if asr, sum to zero"""
    nc = len(org)
    inv = np.linalg.inv(m)

    def coset(v):
        for i, o in enumerate(org):
            x = (np.array(v) - o) @ inv
            if np.allclose(x, np.round(x), atol=1e-6):
                return i
        raise AssertionError
    phi = rng.normal(size=(nc, 3 * n, 3 * n)) * 0.05
    out = np.zeros_like(phi)
    for c in range(nc):
        c2 = coset(-org[c])
        out[c] = (phi[c] + phi[c2].T) / 2
    out[0] += np.eye(3 * n) * 0.5
    if asr:
        s = out.sum(0).reshape(n, 3, n, 3)
        for i in range(n):
            b = s[i].sum(1)            # (3,3) sum over j
            out[0].reshape(n, 3, n, 3)[i, :, i, :] -= b
        # keep exchange symmetry
        o4 = out[0].reshape(n, 3, n, 3)
        for i in range(n):
            o4[i, :, i, :] = (o4[i, :, i, :] + o4[i, :, i, :].T) / 2
    return out


def force_constants(rng, n=None, born=None, asr=True, plain=False, crys=None, diag_eps=False):
    eu = E()
    cr = crys or crystal(rng, n, plain=plain)
    n = cr.n_atoms
    m = sc_matrix(rng)
    org = cell_origins(m)
    phi = fc_tensor(rng, m, org, n, asr)
    if rng.random() < .3:               # the cells in any order
        p = rng.permutation(len(org))
        org, phi = org[p], phi[p]
    fcu = 'hartree/bohr**2' if plain else pick(rng, ['hartree/bohr**2', 'eV/angstrom**2', 'meV/angstrom**2'])
    kw = {}
    born = rng.random() < 0.4 if born is None else born
    if born:
        z = rng.normal(size=(n, 3, 3)) * .4 + np.eye(3) * rng.choice([-2., 2], size=(n, 1, 1))
        z -= z.mean(0)
        eps = np.diag(rng.uniform(2, 8, 3))
        if not diag_eps:
            a = rng.normal(size=(3, 3)) * 0.7
            eps = eps + (a + a.T) / 2
        kw['born'] = eu.ureg.Quantity(z, 'e')
        kw['dielectric'] = eu.ureg.Quantity(eps, 'e**2/(bohr*hartree)')
    return eu.ForceConstants(cr, eu.ureg.Quantity(phi, 'hartree/bohr**2').to(fcu), m, org, **kw)


def close(a, b, rtol=1e-7, atol=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    s = float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0)) if b.size else 0.0
    return np.allclose(a, b, rtol=rtol, atol=(rtol * max(s, 1e-300) if atol is None else atol), equal_nan=True)


def need(cond, msg):
    if not cond:
        raise AssertionError(msg)


def need_close(a, b, msg, rtol=1e-7, atol=None):
    if not close(a, b, rtol, atol):
        raise AssertionError('%s: got %s, expected %s' % (msg, np.array2string(np.asarray(a), threshold=40),
                                                          np.array2string(np.asarray(b), threshold=40)))


def raises(f, *types):
    try:
        f()
    except Exception as e:
        if types and not isinstance(e, types):
            raise
        return True
    return False


SPEC = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection']


def axis(rng, n, regular=None):
    if regular if regular is not None else rng.random() < .4:
        return rng.uniform(-5, 5) + rng.uniform(.1, 2) * np.arange(n)
    return np.cumsum(rng.uniform(.05, 2, n)) + rng.uniform(-5, 5)


def line_meta(rng, n, pos=None):
    """metadata of n lines with shared and differing entries"""
    out = []
    for i in range(n):
        d = {'lab': 'L%d' % i, 'species': pick(rng, ['Si', 'O', 'Al'])}
        if rng.random() < .5:
            d['idx'] = int(rng.integers(3))
        d['com'] = 'x'
        out.append(d)
    return out


def spectrum(rng, cls=None, ex=None, ey=None, nx=None, ny=None, nz=None, ticks=None, meta=None, regular=None, unit=None):
    eu = E()
    cls = cls or pick(rng, SPEC)
    ex = rng.random() < .5 if ex is None else ex
    ey = rng.random() < .5 if ey is None else ey
    nx = int(rng.integers(2, 14)) if nx is None else nx
    ny = int(rng.integers(2, 9)) if ny is None else ny
    nz = int(rng.integers(1, 5)) if nz is None else nz
    Qy = eu.ureg.Quantity
    xu = pick(rng, ['1/angstrom', '1/bohr']) if '2D' in cls else pick(rng, ['meV', '1/cm', 'THz'])
    x = Qy(axis(rng, nx + ex, regular), xu)
    if ticks is None and rng.random() < .7:
        nt = int(rng.integers(1, min(nx, 5) + 1))
        ticks = [(int(i), 'T%d' % j) for j, i in enumerate(sorted(rng.choice(nx, nt, replace=False)))]
    kw = dict(x_tick_labels=ticks)
    if cls.startswith('Spectrum1D'):
        du = unit or pick(rng, ['1/meV', 'mbarn/meV', 'dimensionless'])
        if cls == 'Spectrum1D':
            return eu.Spectrum1D(x, Qy(rng.normal(size=nx), du), metadata={'label': 'a', 'k': 1} if meta is None else meta, **kw)
        return eu.Spectrum1DCollection(x, Qy(rng.normal(size=(nz, nx)), du),
                                       metadata={'com': 'x', 'line_data': [{k: v for k, v in d.items() if k != 'com'} for d in line_meta(rng, nz)]} if meta is None else meta, **kw)
    y = Qy(axis(rng, ny + ey, regular), pick(rng, ['meV', '1/cm']))
    du = unit or pick(rng, ['1/meV', 'mbarn/meV', 'dimensionless'])
    if cls == 'Spectrum2D':
        return eu.Spectrum2D(x, y, Qy(rng.normal(size=(nx, ny)), du), metadata={'label': 'a', 'k': 1} if meta is None else meta, **kw)
    from euphonic.spectra import Spectrum2DCollection
    return Spectrum2DCollection(x, y, Qy(rng.normal(size=(nz, nx, ny)), du),
                                metadata={'com': 'x', 'line_data': [{k: v for k, v in d.items() if k != 'com'} for d in line_meta(rng, nz)]} if meta is None else meta, **kw)


def spec_data(o):
    return o.z_data if hasattr(o, 'z_data') else o.y_data


def same_spec(a, b, msg, data=True, lines=False):
    """the same physical content, labels and metadata"""
    need(type(a) is type(b), '%s: class %s %s' % (msg, type(a), type(b)))
    need_close(a.x_data.to(b.x_data.units).magnitude, b.x_data.magnitude, msg + ': x axis')
    if hasattr(a, 'z_data'):
        need_close(a.y_data.to(b.y_data.units).magnitude, b.y_data.magnitude, msg + ': y axis')
    if data:
        need_close(spec_data(a).to(spec_data(b).units).magnitude, spec_data(b).magnitude, msg + ': data')
    need(a.x_tick_labels == b.x_tick_labels, '%s: tick labels %s %s' % (msg, a.x_tick_labels, b.x_tick_labels))
    need(a.metadata == b.metadata or lines and 'Collection' in type(a).__name__ and list(a.iter_metadata()) == list(b.iter_metadata()), '%s: metadata %s %s' % (msg, a.metadata, b.metadata))
