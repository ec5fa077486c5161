"""an independent evaluation of the documented formulas on real objects, for the differential tests"""
import itertools
import numpy as np
from contracts import gen as G

WS = np.array([w for w in itertools.product((0, 1, -1), repeat=3) if any(w) and next(x for x in w if x) > 0])
SHELL = np.array(list(itertools.product(range(-2, 3), repeat=3)))


def bohr(fc):
    return fc.crystal.cell_vectors.to('bohr').magnitude


def mass_me(fc):
    return fc.crystal.atom_mass.to('m_e').magnitude


def phi_au(fc):
    return fc.force_constants.to('hartree/bohr**2').magnitude


def images(fc):
    """for each cell, pair: numbers of the supercell translations that bring the second atom nearest to the first; the margin by
    which the choice is clear"""
    cv = bohr(fc)
    sv = fc.sc_matrix @ cv
    nc, na = len(fc.cell_origins), fc.crystal.n_atoms
    r = fc.crystal.atom_r @ cv
    R = fc.cell_origins @ cv
    d = r[None, :, None] - r[None, None, :] - R[:, None, None]          # (nc, i, j, 3)
    d = d[..., None, :] - (SHELL @ sv)
    w = WS @ sv
    p = np.abs(d @ w.T) / (w ** 2).sum(1)
    inside = np.all(p <= 0.501, axis=-1)
    margin = np.min(np.abs(p - 0.501))
    dist = np.sqrt((d ** 2).sum(-1))
    return inside, margin, dist


def dynmat(fc, q, phi=None, weighted=True, grad=False, inside=None):
    """sum over cells and nearest images of Phi/N exp(2 pi i q.(R+L)), mass weighted; with its Cartesian gradient (per bohr)"""
    inside = images(fc)[0] if inside is None else inside
    phi = phi_au(fc) if phi is None else phi
    na = fc.crystal.n_atoms
    L = SHELL @ fc.sc_matrix
    cv = bohr(fc)
    m = mass_me(fc)
    D = np.zeros((3 * na, 3 * na), complex)
    g = np.zeros((3 * na, 3 * na, 3), complex)
    for c, R in enumerate(fc.cell_origins):
        for i in range(na):
            for j in range(na):
                ims = np.where(inside[c, i, j])[0]
                if not len(ims):
                    continue
                for k in ims:
                    v = R + L[k]
                    t = phi[c, 3 * i:3 * i + 3, 3 * j:3 * j + 3] / len(ims) * np.exp(2j * np.pi * (v @ np.asarray(q, float)))
                    D[3 * i:3 * i + 3, 3 * j:3 * j + 3] += t
                    g[3 * i:3 * i + 3, 3 * j:3 * j + 3] += 1j * t[..., None] * (v @ cv)
    if weighted:
        s = 1 / np.sqrt(np.repeat(m, 3))
        D *= s[:, None] * s
        g *= (s[:, None] * s)[..., None]
    return (D, g) if grad else D


def scale(fc):
    """size of the terms of the sum (they may cancel)"""
    return np.abs(phi_au(fc)).sum(0).max() / mass_me(fc).min()


def check_modes(fc, D, freqs, evecs, msg, tol=1e-9, order=True):
    """frequencies (hartree) and eigenvectors diagonalise the Hermitian part of D given by its upper triangle"""
    na = fc.crystal.n_atoms
    D = np.triu(D) + np.triu(D, 1).conj().T
    D = D - 1j * np.diag(np.diag(D).imag)
    f = np.asarray(freqs)
    lam = f * np.abs(f)
    s = max(np.abs(D).max(), scale(fc)) * 3 * na
    G.need(np.max(np.abs(np.linalg.eigvalsh(D) - lam)) <= tol * s, '%s: frequencies %s are not those of the dynamical matrix %s'
           % (msg, lam, np.linalg.eigvalsh(D)) if order else msg)
    if evecs is None:
        return
    e = np.asarray(evecs).reshape(3 * na, 3 * na)
    G.need(np.max(np.abs(e.conj() @ e.T - np.eye(3 * na))) < 1e-8, msg + ': eigenvectors not orthonormal')
    G.need(np.max(np.abs(D @ e.T - e.T * lam)) <= tol * 10 * s, msg + ': rows are not eigenvectors of the dynamical matrix')


def special_fc(rng, **kw):
    """force constants; atoms often at special positions, so that several images are equally near"""
    cr = None
    if rng.random() < .5:
        n = int(rng.integers(1, 4))
        cr = G.crystal(rng, n)
        pos = np.array([(0, 0, 0), (.5, .5, .5), (.5, 0, 0)])[:n]
        cr = type(cr)(cr.cell_vectors, pos, cr.atom_type, cr.atom_mass)
    return G.force_constants(rng, crys=cr, **kw)


def reduced(fc):
    """the 13 neighbours decide which image is nearest, and every pair has one (a condition on the supercell shape)"""
    inside, margin, dist = images(fc)
    if margin < 1e-6 or not inside.any(-1).all():
        return False
    near = dist <= dist.min(-1, keepdims=True) + 1e-9
    return not (near & ~inside).any() and not (inside & (dist > dist.min(-1, keepdims=True) * 1.01 + .01)).any()


def hartree(q):
    return np.asarray(q.to('hartree').magnitude)


def qpoints(rng, nq):
    """q-points with repeats, equivalents, zone centres"""
    q = rng.uniform(-1.5, 1.5, (nq, 3))
    for i in range(nq):
        k = rng.integers(6)
        if k == 0:
            q[i] = 0
        elif k == 1:
            q[i] = rng.integers(-2, 3, 3)
        elif k == 2 and i:
            q[i] = q[int(rng.integers(i))] + rng.integers(-2, 3, 3)
            if rng.random() < .3:
                q[i] *= 0
                q[i, int(rng.integers(3))] = 1e-17          # rounding noise
        elif k == 3:
            q[i] = rng.integers(-4, 5, 3) / 4
    return q


# ------------------------------------------------------------------------------------------------ long-range terms
def _points(metric, radius):
    """integer vectors v with v.metric.v <= radius"""
    inv = np.linalg.inv(metric)
    k = np.floor(np.sqrt(np.diag(inv) * radius)).astype(int)
    v = np.array(list(itertools.product(*[range(-a, a + 1) for a in k])), float)
    return v


def pair_sums(fc, q, gam, lam):
    """C_ij(q) = (4 pi/V) sum_G K K exp(-KeK/4l^2)/(KeK) exp(i K.(ri-rj)) - (l^3/sqrt det e) sum_R exp(i q.R) H(l(ri-rj-R)), K = G+q"""
    from scipy.special import erfc
    cv = bohr(fc)
    rec = 2 * np.pi * np.linalg.inv(cv).T
    vol = abs(np.linalg.det(cv))
    eps = fc.dielectric.to('e**2/(bohr*hartree)').magnitude
    ie = np.linalg.inv(eps)
    r = fc.crystal.atom_r
    na = len(r)
    out = np.zeros((na, na, 3, 3), complex)
    mg = rec @ eps @ rec.T
    mg = (mg + mg.T) / 2
    mr = cv @ ie @ cv.T
    mr = (mr + mr.T) / 2
    q = np.asarray(q, float)
    x = q - np.rint(q)
    dmax = np.max(np.sqrt(np.einsum('ijx,xy,ijy->ij', *(2 * [r[:, None] - r[None]])[:1], mr, r[:, None] - r[None])))
    xm = np.sqrt(max(x @ mg @ x, 0))
    G = _points(mg, (np.sqrt(160) * lam + xm) ** 2)
    R = _points(mr, (np.sqrt(40) / lam + dmax) ** 2)
    if gam:
        x = 0 * x
        G = G[np.any(G != 0, axis=1)]
    K = (G + x) @ rec
    kk = np.einsum('ix,xy,iy->i', K, eps, K)
    f = 4 * np.pi / vol * np.exp(-kk / (4 * lam ** 2)) / kk
    for i in range(na):
        for j in range(na):
            ph = np.exp(2j * np.pi * ((G + x) @ (r[i] - r[j])))
            t = np.einsum('g,gx,gy->xy', f * ph, K, K)
            Rv = R
            if i == j:
                Rv = R[np.any(R != 0, axis=1)]
            d = (r[i] - r[j] - Rv) @ cv
            de = d @ ie
            y2 = np.einsum('ix,ix->i', d, de) * lam ** 2
            y = np.sqrt(y2)
            e = 2 * np.exp(-y2) / np.sqrt(np.pi)
            a = lam ** 2 * (3 * erfc(y) / y ** 5 + e * (3 / y2 ** 2 + 2 / y2))
            b = erfc(y) / y ** 3 + e / y2
            ph = np.exp(2j * np.pi * (Rv @ x))
            t = t - lam ** 3 / np.sqrt(np.linalg.det(eps)) * (np.einsum('g,gx,gy->xy', a * ph, de, de) - (b * ph).sum() * ie)
            out[i, j] = t
    return out


def ewald(fc, q, scale_=1.):
    """dipole-dipole part of the dynamical matrix (hartree/bohr^2, not mass weighted)"""
    q = np.asarray(q, float)
    gam = np.abs(q - np.rint(q)).sum() < 1e-15
    z = fc.born.to('e').magnitude
    eps = fc.dielectric.to('e**2/(bohr*hartree)').magnitude
    na = len(z)
    lam = scale_ * np.sqrt(np.pi) * (na ** .5 * np.linalg.det(eps) ** .5 / abs(np.linalg.det(bohr(fc)))) ** (1 / 3)
    c = np.einsum('iac,jbd,ijcd->iajb', z, z, pair_sums(fc, q, gam, lam))
    c0 = np.einsum('iac,jbd,ijcd->iajb', z, z, pair_sums(fc, q * 0, True, lam))
    # the on-site term: independent of the splitting only after both sums (the i = j, R = 0 part is the same at every q)
    for i in range(na):
        s = c0[i].sum(1)
        c[i, :, i] -= (s + s.T) / 2
    return c.reshape(3 * na, 3 * na)


def loto(fc, direction):
    """4 pi/(V q.e.q) (Z_i q)(Z_j q)"""
    na = fc.crystal.n_atoms
    if np.abs(direction - np.rint(direction)).sum() < 1e-15:          # also a lattice vector: the same point
        return np.zeros((3 * na, 3 * na))
    cv = bohr(fc)
    k = np.asarray(direction, float) @ (2 * np.pi * np.linalg.inv(cv).T)
    z = fc.born.to('e').magnitude
    eps = fc.dielectric.to('e**2/(bohr*hartree)').magnitude
    v = (z @ k).reshape(-1)
    return 4 * np.pi / abs(np.linalg.det(cv)) * np.outer(v, v) / (k @ eps @ k)


def directions(q):
    """step used for the direction of approach at each q-point of a list"""
    q = np.asarray(q, float)
    out = np.zeros_like(q)
    k = len(q)
    if k > 1:
        for i in range(k):
            if i == 0:
                out[i] = q[1] - q[0]
            elif i == k - 1:
                out[i] = q[-1] - q[-2]
            else:
                d = q[i + 1] - q[i]
                out[i] = d if np.abs(d - np.rint(d)).sum() >= 1e-15 else q[i] - q[i - 1]
    return out
